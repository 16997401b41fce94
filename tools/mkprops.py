#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the statements live here, in one readable place)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
PDUMODS=["src/entity_information.rs","src/warfare.rs","src/logistics.rs","src/simulation_management.rs","src/simulation_management_with_reliability.rs","src/distributed_emissions.rs","src/radio_communications.rs","src/entity_management.rs","src/minefield.rs","src/synthetic_environment.rs","src/information_operations.rs"]
DT="src/common/data_types/"
p("C01","Every PDU is written in exactly its documented big-endian wire layout",
 "For each PDU type and any contents, serializing produces the 12-octet header followed by every body field in its defined order, each at its defined width in network byte order, with reserved/padding octets zero (a decoded PDU may keep those it arrived with) and each list element written once, in list order, nothing inserted between or after. Every octet of the output is determined by the PDU's contents and the layout; no field's value is altered, clamped, swapped or dropped on the way out.",
 ["inputs"],"all 66 PDU types x every value of every scalar field, every enumerator, every bit pattern of every float, every list length that fits a PDU",
 "The existing tests serialize only all-default PDUs and compare only the header, so no body octet is ever checked.",
 ["src/pdu_macro.rs",DT,"src/common/pdu_header.rs","src/common/enums.rs"]+PDUMODS,
 [("PDU generator writes header then each field","src/pdu_macro.rs define_pdu! serialize"),("per-record encoders",DT+"*.rs serialize"),("field order declarations","src/*.rs define_pdu! invocations")],
 ["bytes appended to the output buffer by serialize"])
p("C02","Decoding an encoded PDU returns the same contents",
 "For each PDU type, decoding the bytes produced by serializing a self-consistent PDU (counts and lengths agree with the lists and blobs they describe) succeeds and yields the same header and the same value in every public field, including every list element in order, every optional block, every float bit pattern and every text marking. Serializing the decoded PDU again produces the same bytes.",
 ["inputs"],"all PDU types x all self-consistent contents, list lengths from empty to the size limit",
 "The existing round-trip tests use default contents (all lists empty) and compare only the header.",
 ["src/pdu_macro.rs",DT]+PDUMODS,
 [("length/count-directed decoding of variable parts","src/pdu_macro.rs"),("record decoders mirror encoders",DT)],
 ["fields of the value returned by deserialize","bytes of the second serialization"])
p("C03","Declared length = computed length = octets written, after any edits",
 "After any sequence of field edits, list edits and earlier serializations, the length a PDU computes for itself, the length its header carries after construction, finalization or serialization, the length field found in the serialized octets, and the number of octets serialization appended are all equal. This holds even when the PDU's own count fields disagree with its lists.",
 ["inputs","histories"],"all PDU types x all edit/finalize/serialize histories, including inconsistent counts and stale header lengths",
 "Tests check only the length constant of a freshly constructed default PDU, never against octets written and never after an edit.",
 ["src/pdu_macro.rs","src/common/pdu.rs",DT]+PDUMODS,
 [("length computed from every field before writing","src/pdu_macro.rs calculate_length"),("per-record length functions",DT+" field_len")],
 ["calculate_length result","header length","octets 8..10 and size of the output"],
 [("header length","declared total size of the PDU in octets","src/common/pdu_header.rs")])
p("C04","A PDU over 8192 octets is refused whole; one at the limit is accepted",
 "Serializing or computing the length of a PDU whose encoding would exceed 8192 octets fails with an error, and a failed serialization leaves the output buffer exactly as it was. Any PDU of at most 8192 octets is accepted, and a PDU that was refused serializes normally once it is shrunk. The library's own size predicate says the same.",
 ["inputs","histories"],"all variable-size PDU types x sizes around 8192, 65535, 65536 and beyond x pre-filled output buffers x refuse-then-shrink histories",
 "No test builds a large PDU.",
 ["src/pdu_macro.rs","src/common/constants.rs","src/common/dis_error.rs"],
 [("size check before anything is written","src/pdu_macro.rs serialize/calculate_length"),("documented maximum","src/common/constants.rs MAX_PDU_SIZE_OCTETS")],
 ["result of serialize and calculate_length","output buffer before and after"])
p("C05","Decoding never panics, aborts or corrupts memory, whatever the bytes",
 "Offering any octet sequence, of any length and with any field values, to the decoder of any PDU type, with or without a pre-parsed header, or to the type inspection of a datagram returns a value or an error; so does decoding a header or PDU status given the octets it occupies. It never panics, overflows, aborts the process, loops forever, or performs an invalid memory access, in debug and release builds alike.",
 ["inputs","fault_sequences"],"all byte strings (random, mutated valid messages, truncated, extended, hostile counts/lengths/enumerator codes) x all decoders",
 "Tests decode only buffers the library has just produced from default PDUs.",
 ["src/pdu_macro.rs",DT,"src/common/pdu_header.rs","src/common/live_entity_pdu_header.rs","src/common/enums.rs"],
 [("underflow-checked reading of the message body","src/pdu_macro.rs"),("unknown codes map to a default","src/common/enums.rs deserialize")],
 ["outcome of each decode call; AddressSanitizer reports"])
p("C06","A message with missing bytes is always reported as an error",
 "If the input holds fewer octets than the header, than the message's declared length, or than the fields and list elements its counts call for within that declared length, decoding returns an error. No partially-decoded, zero-filled or shortened PDU is ever returned as a success.",
 ["inputs","fault_sequences"],"every strict prefix of every valid message; every declared length smaller or larger than the content; every count larger than the elements present",
 "Tests never truncate a message or falsify a length or count.",
 ["src/pdu_macro.rs","src/common/dis_error.rs"],
 [("declared length and underflow checks when decoding","src/pdu_macro.rs")],
 ["Ok/Err of deserialize and deserialize_without_header"])
p("C07","Decoding consumes exactly one message, however the bytes are stored",
 "A successful decode advances the input by exactly the message's declared length, so messages laid back to back decode one after the other to the same values they have alone, and bytes after a message neither affect its value nor are touched. The result does not depend on how the input is chunked or which buffer type supplies it.",
 ["inputs","histories"],"all PDU types x sequences of messages x trailing data x all buffer kinds and fragmentations",
 "Tests decode one message from one contiguous buffer and never look at what remains.",
 ["src/pdu_macro.rs",DT],
 [("body decoding bounded by the declared length","src/pdu_macro.rs deserialize"),("record decoders read through the generic buffer interface",DT)],
 ["remaining input after each decode","decoded values per buffer kind"])
p("C08","PDU type and family are stamped on output; the type is enforced on input",
 "Every PDU type owns a distinct PDU-type code and its own protocol family: new PDUs carry both, and serialization writes both whatever the header was set to before. A decoder accepts a message only if its PDU-type code is its own, rejecting all others with an error, with or without a pre-parsed header, and type inspection of a raw datagram reports the type for exactly the inputs of at least 12 octets.",
 ["inputs","programs"],"all PDU types x all 256 type codes x arbitrary prior header contents x all buffer lengths",
 "Tests check the type of freshly created PDUs only; no test offers a PDU of another type to a decoder.",
 ["src/pdu_macro.rs","src/common/pdu_header.rs","src/common/enums.rs"]+PDUMODS,
 [("type/family stamped in new() and serialize","src/pdu_macro.rs"),("type check after header decode","src/pdu_macro.rs deserialize"),("get_pdu_type","src/common/pdu_header.rs")],
 ["octets 2 and 3 of the output","Ok/Err of decoding","get_pdu_type result"])
p("C09","Messages from other implementations decode to the values on the wire",
 "For any well-formed message of a PDU type, including ones with non-zero padding, unknown enumeration codes, arbitrary float bit patterns and any list counts, each decoded field equals the big-endian value at that field's place in the message (an unknown enumeration code reads as that enumeration's default). Re-encoding the decoded PDU and decoding again changes nothing further.",
 ["inputs"],"all PDU types x all well-formed byte images, not only images this library produced",
 "Tests only decode images of default PDUs, which are almost all zero octets.",
 ["src/pdu_macro.rs",DT,"src/common/enums.rs"]+PDUMODS,
 [("field-by-field decoders","src/pdu_macro.rs deserialize_body, "+DT)],
 ["decoded field values compared with an independent reference decoder"])
p("C10","Enumeration code tables are exact and total",
 "Each enumeration maps each of its named values to its assigned SISO code and back, consuming exactly its 8, 16 or 32 bits on input and writing exactly that code at that width on output. Every code with no assigned name decodes to the enumeration's default value, never to an error, and no two names share a code. Each flag of a flag set is its own assigned bit, and a set is made from exactly the patterns of assigned bits.",
 ["inputs"],"402 enumerations x every 8- and 16-bit code, and all 2^32 codes of the ten 32-bit enumerations; all bit patterns of the flag sets",
 "Unit tests touch a handful of enumerators out of several thousand and no unassigned code.",
 ["src/common/enums.rs"],
 [("discriminant tables and deserialize functions","src/common/enums.rs"),("field writers and lengths","src/common/enums.rs FieldSerialize/FieldLen")],
 ["value returned per code","bytes consumed and written"])
p("C11","Headers and PDU status bits round-trip exactly and independently",
 "Both header kinds encode to exactly 12 octets, which is the length they declare, carrying every field at its defined offset and decode back to equal headers for every combination of field values. Each PDU-status field occupies its own bits: setting one leaves all bits outside it unchanged, reading it returns what was set, and converting the status to and from an octet is the identity for all 256 octets.",
 ["inputs","histories"],"all header field values; all 256 status octets x all setter sequences",
 "Tests never set a status field or a non-default header field.",
 ["src/common/pdu_header.rs","src/common/live_entity_pdu_header.rs","src/common/generic_header.rs"],
 [("bitfield layout and accessors","src/common/pdu_header.rs PduStatusRecord"),("header codecs","src/common/pdu_header.rs, src/common/live_entity_pdu_header.rs")],
 ["octets written by header serialize","accessor results"])
p("C12","A header timestamp is the true time past the hour at one instant",
 "The timestamp put in a new header is the time elapsed since the start of the current UTC hour, counted in the library's units of 1.68 microseconds, as of a single instant during the call, accurate to one unit. In particular it never goes backwards within an hour, and a call that straddles a second, minute or hour boundary yields a time between the call's start and its end.",
 ["inputs","schedules"],"every clock instant, in particular instants around second/minute/hour rollovers and a clock that advances between any two reads inside the call",
 "Tests use the real clock, never compare the timestamp with it, and cannot place a rollover inside the call.",
 ["src/common/pdu_header.rs","src/common/live_entity_pdu_header.rs"],
 [("calculate_dis_timestamp","src/common/pdu_header.rs, src/common/live_entity_pdu_header.rs")],
 ["timestamp of new/default headers and PDUs under a virtual clock"])
p("C13","Each data record agrees with itself: encode, decode and length",
 "For every data record usable on its own, any self-consistent value encodes to its defined layout, decodes back to the same value consuming exactly what was written, and reports exactly that many octets as its length. As a record alone and as a field of a PDU it is encoded and decoded alike: any contents are written to the same layout, and any octets that hold a record, whoever wrote them, read as the values on the wire. Fixed-size records always occupy their fixed size whatever their contents, including text markings longer or shorter than their field.",
 ["inputs"],"all 66 data records x all self-consistent values, embedded at any position in a larger buffer",
 "Only one record has a unit test of its own; several records are in no PDU.",
 [DT],
 [("serialize/deserialize/length of each record",DT)],
 ["bytes written, bytes consumed, reported length, decoded value"])
p("C14","Each operation depends only on its arguments, on any thread",
 "Building, editing, serializing and decoding PDUs on any number of threads at once gives every operation the same result it has alone: no operation's outcome depends on earlier or concurrent operations, on failures before it, or on other PDUs. There are no data races.",
 ["schedules","histories"],"arbitrary interleavings of operations on 66 PDU types over many threads, histories with refused and malformed messages in between",
 "Every test runs one operation on one fresh PDU.",
 ["src/pdu_macro.rs","src/common/",DT],
 [("no shared mutable state; PDUs own their data","whole crate")],
 ["result of every operation compared with its stand-alone reference; ThreadSanitizer reports"])
p("C15","Decoding work and memory stay proportional to the bytes received",
 "Decoding any input of n octets performs at most a constant plus a constant times n read operations and holds at most a constant plus a constant times n octets of memory, whether it succeeds or fails. Counts and length fields in the message, however large, never make the decoder reserve memory or iterate for data that is not there.",
 ["inputs","fault_sequences"],"all inputs, in particular messages whose count and length fields claim up to 2^32-1 elements",
 "Tests never put a large count in a small message and do not measure allocation.",
 ["src/pdu_macro.rs",DT+"datum_records.rs",DT+"record_specification.rs",DT+"record_specification_element.rs",DT+"standard_variable_specification.rs"],
 [("list decoding stops at the end of the message","src/pdu_macro.rs, "+DT)],
 ["metered reads, heap high-water mark and processor time per decode"])
p("C16","Decoding with a pre-parsed header is the same as decoding whole",
 "Decoding a header first and then the body with that header gives exactly the outcome of decoding the whole message at once: the same acceptance or rejection and, when accepted, the same values in every field, the same header, and the same position in the input afterwards.",
 ["inputs"],"all PDU types x valid, foreign, truncated and mistyped messages x all buffer kinds",
 "No test calls the pre-parsed-header entry point at all.",
 ["src/pdu_macro.rs","src/common/pdu.rs"],
 [("deserialize_without_header","src/pdu_macro.rs")],
 ["results and remaining input of both entry points"])
p("C17","3-D vector arithmetic obeys its definitions over ordinary values",
 "For three-component float vectors of ordinary magnitude, the sum, difference, scaling, division, dot product, cross product and magnitude equal their mathematical values to within float rounding. Normalizing any such vector that is not zero yields a unit vector in the same direction, and normalizing the zero vector yields nothing.",
 ["inputs"],"all pairs of vectors whose components and results neither overflow nor underflow",
 "Unit tests check one or two hand-picked vectors with trivially exact results.",
 [DT+"vector3_float.rs"],
 [("operators and methods",DT+"vector3_float.rs")],
 ["results compared with f64 evaluation and an a-priori error bound"])
p("C18","Serialization only appends, leaves contents alone, and is repeatable",
 "Serializing appends to the output buffer without changing what is already in it, whatever its prior contents or capacity. It changes nothing in the PDU except the derived type, family and length fields, so serializing again, or serializing an identical PDU, gives identical bytes.",
 ["inputs","histories"],"all PDU types x prefilled, split and shared buffers x repeated serialization histories",
 "Tests serialize once into an empty buffer.",
 ["src/pdu_macro.rs",DT],
 [("buffer is only appended to","src/pdu_macro.rs serialize")],
 ["buffer prefix, PDU fields and bytes before/after each call"])
p("C19","The UDP radio receiver survives any traffic and reports each PDU once",
 "The example radio receiver, fed any sequence of datagrams, keeps running and reports every well-formed radio PDU that fits its receive buffer exactly once, in arrival order, with the type and field values that were sent. Malformed, truncated or foreign datagrams never stop it nor disturb the report of later ones, and the echo example returns every datagram that fits its receive buffer unchanged to its sender.",
 ["inputs","histories","fault_sequences"],"sequences of valid, hostile and non-radio datagrams from several senders over loopback UDP",
 "No test runs the examples.",
 ["examples/radio_processing_server.rs","examples/udp_server.rs","src/radio_communications.rs","src/common/pdu_header.rs"],
 [("dispatch on inspected type, error means unknown","examples/radio_processing_server.rs deserialize_pdu")],
 ["process liveness and stdout lines of the receiver; echoed datagrams"])
p("C20","Constructors put each argument where it belongs; new PDUs are usable",
 "Constructing a data record from its parts stores every part, unaltered, in the field it is meant for; one constructed from nothing is the record's default. A newly created or default PDU of any type has the same body either way, carries the length it encodes to (when newly created), can be encoded at once, and decodes back to itself.",
 ["inputs"],"all record constructors x all argument values; all 66 PDU types",
 "Tests construct a few records, with defaults or equal values that a swap of arguments leaves unchanged.",
 [DT,"src/pdu_macro.rs"],
 [("constructors of each record",DT+"*.rs new"),("new and Default of each PDU","src/pdu_macro.rs define_pdu!")],
 ["fields of constructed records and PDUs","bytes and decoded values of new PDUs"])
p("C21","A failure says what is wrong: too large, wrong type, or octets missing",
 "A PDU refused for its size is reported as such, with its true encoded size and the limit of 8192. A complete message offered to the decoder of another PDU type is reported as an invalid header, and a message that lacks octets is reported as a buffer underflow that asks for more octets than are there. An error keeps what it was made of, and its text names it.",
 ["inputs","fault_sequences"],"all PDU types x oversized contents (to 128 KiB and beyond) x foreign messages x truncations and inflated counts",
 "Tests never look at an error a PDU operation returns.",
 ["src/pdu_macro.rs","src/common/dis_error.rs"],
 [("errors raised by the size check, the type check and the body reader","src/pdu_macro.rs"),("error variants","src/common/dis_error.rs")],
 ["the error values returned by serialize, calculate_length, deserialize and deserialize_without_header"])
p("C22","PDUs an application defines itself behave like the library's own",
 "A PDU type that an application defines with the exported define_pdu! macro, from any of the library's field types, counted lists, bit-counted data and length-prefixed options whose length fits its counter, builds outside the crate, and keeps every promise the library's own PDUs keep: layout, round trip, declared lengths, size limit, total and bounded decoding, complete bodies, framing in a shared buffer, type checking, tolerance of foreign messages, both decoding routes, and serialization that only appends. Text fields, and lists and options that nothing counts, are written in full and counted by the octets they are written as. A PDU under a header of the application's own declares, limits and reads lengths by that header's size.",
 ["inputs","programs"],"thirteen PDU definitions covering every primitive, record-only and counted field form, and a header of the application's own x generated contents, hostile octets, buffers",
 "No test defines a PDU outside the library, so the macro's field forms that the library's PDUs leave unused are never exercised.",
 ["src/pdu_macro.rs","src/common/data_types/"],
 [("field traits of primitives, lists and options, and the generated codec","src/pdu_macro.rs"),("records usable as fields","src/common/data_types/")],
 ["the public PDU operations of types defined in the monitor with define_pdu!"])
p("C23","Identifiers, records and headers compare and copy by their contents",
 "Two entity identifiers, simulation addresses, entity types, vectors, grid contents, PDU headers, status records or enumerators compare equal exactly when every field is equal (float fields by the usual float comparison), and unequal otherwise, in both directions. A clone of any data record, header or enumerator has the same value in every field as the original and encodes to the same octets.",
 ["inputs"],"all records, headers and enumerations x generated values, twins, and neighbours that differ in one choice",
 "Tests compare a few values that are equal, never near misses in each field.",
 [DT,"src/common/pdu_header.rs","src/common/live_entity_pdu_header.rs","src/common/enums.rs"],
 [("derived comparisons and clones",DT+"entity_id.rs, entity_type.rs, simulation_address.rs, vector3_float.rs; src/common/pdu_header.rs")],
 ["results of ==, != and clone on pairs of values"])
p("C24","Whatever a decoder accepts can be relayed: printed, measured, encoded, decoded",
 "If a decoder accepts some octets, hostile, inconsistent or followed by others though they be, the PDU it returns is as good as any: printing it for debugging, computing its length, finalizing and serializing it never panic; its length and its serialization agree, and are refused only if it is over 8192 octets, as too large; its serialization is accepted by the decoder, consumed whole, and yields the same header and contents; serializing those again gives the same octets. Version, exercise, timestamp and status of the header come through unchanged.",
 ["inputs"],"every octet string a decoder accepts, by either route, also with altered or lying fields and octets beyond what the fields call for",
 "Tests never pass on what they have decoded.",
 ["src/pdu_macro.rs",DT,"src/common/pdu_header.rs"],
 [("decoded counts agree with decoded lists","src/pdu_macro.rs, src/common/data_types/ deserialize"),("Debug, length and encoders are total","src/common/data_types/")],
 ["text, length, octets and re-decoded contents of accepted PDUs"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,s); n=x['statement'].count('. ')+1
    assert n<=3,(x['id'],n); assert len(x['title'])<=80,(x['id'],len(x['title']))
print(len(P))
