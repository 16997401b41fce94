#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json
REF="the reference layout spec/wire.txt, written from the declarations of the code and IEEE 1278.1-2012, is trusted"
T={
"C01":("runtime monitor: output of serialize against a reference encoder","Byte-for-byte comparison on generated PDUs of all 66 types (adversarial scalars, floats, enumerators, lists, histories); "+REF+"."),
"C02":("runtime monitor: encode/decode round-trip, field-by-field oracle","All 66 PDU types on generated self-consistent contents up to the size limit, through both decoding routes and several buffer kinds. Two known findings."),
"C03":("runtime monitor: four lengths compared along edit histories","Random edit, finalize and serialize histories on all 66 PDU types, including counts that disagree with lists."),
"C04":("runtime monitor: size-limit boundary workload with buffer-unchanged check","List and blob growth to sizes around 8192, 65535, 65536 and beyond for each PDU type that can grow, with refuse-then-shrink histories."),
"C05":("hostile-input workload under panic/abort/time-out monitors; AddressSanitizer","Random, mutated, truncated, spliced and count-inflated messages to every decoder, in a debug build with overflow checks and in an optimized AddressSanitizer build. Exploration: says nothing of inputs not generated."),
"C06":("runtime monitor: acceptance against a reference decoder on incomplete messages","Every truncation point, falsified lengths and inflated counts of generated messages; "+REF+"."),
"C07":("runtime monitor: metered buffers, concatenated streams, many buffer kinds","Octets consumed and values compared over back-to-back messages in contiguous, chunked, chained and limited buffers."),
"C08":("runtime monitor: stamping and type check against the table of types","66 types x 256 codes x 66 decoders, arbitrary stale headers, type inspection at every length."),
"C09":("runtime monitor: decoded fields against a reference decoder","Messages made by the reference encoder with arbitrary padding, unknown codes and float patterns, up to 65 535 octets; "+REF+". Two known findings."),
"C10":("exhaustive run of the code tables against golden tables","Every 8- and 16-bit code of every enumeration and flag set; all 2^32 codes of the ten 32-bit enumerations. The golden table spec/enums.txt is trusted."),
"C11":("runtime monitor: header codecs and status setters against a bit model","All 256 status octets x setters and setter sequences; header fields singly, in pairs and at random."),
"C12":("runtime monitor under a virtual clock (interposed clock_gettime)","Timestamps of headers and PDUs at chosen instants, with a clock that advances between any two readings; assumes the clock is read through clock_gettime."),
"C13":("runtime monitor: record codecs against reference encoder and decoder","Each of the 70-odd records embedded at random positions; "+REF+". Two known findings."),
"C14":("concurrent and sequential histories compared with stand-alone results; ThreadSanitizer","Operations alone, in shuffled histories, in fresh processes and on many threads; TSan build with an instrumented standard library."),
"C15":("runtime monitor: metered reads, counting allocator, processor time","Read operations, heap high-water mark and (with a wide margin, best of four) thread processor time of each decode bounded by a constant plus a constant times the input; memory still held after thousands of decodes bounded by a constant."),
"C16":("differential runtime monitor: two decoding routes","Both routes on valid, foreign, truncated and mistyped messages, in several buffer kinds."),
"C17":("runtime monitor: f64 oracle with forward error bounds","Random, cancelling, axis-aligned and extreme-but-ordinary vectors."),
"C18":("runtime monitor: buffer and PDU state before and after each call","Prefilled, split, shared and tight buffers; twins and repeated calls over histories."),
"C19":("runtime monitor over real processes: offline check of the receiver's log","The example programs on loopback UDP under scripted valid, hostile and foreign traffic from several senders; a case is reported only if it fails three times."),
"C20":("runtime monitor: constructed values against their arguments","Every record constructor with generated arguments, every PDU's new and default value."),
"C21":("runtime monitor: error values against the cause","Oversized, mistyped and incomplete messages of all PDU types; the kind and the numbers of the error."),
"C22":("runtime monitor: the monitors of C01-C09, C15, C16 and C18 over PDUs defined by an application","Thirteen PDU types of the monitor's own, defined with the exported macro: all numbers, records no PDU of the library holds, counted lists of each counter width and item kind, bit counts, two length-prefixed options, no fields at all."),
"C23":("runtime monitor: == , != and clone against a field-by-field comparison","Every record with comparison against twins and neighbours, every record's clone, header pairs, all pairs of status octets over a run, all pairs of enumerators, grid contents. Float fields holding NaN or negative zero are left out."),
"C24":("runtime monitor: accepted messages printed, measured, encoded and decoded again","Hostile, altered, extended and oversized messages to every decoder by both routes; whatever is accepted goes through every operation, and its relayed form must be a fixed point. A build with overflow checks and one without."),
}
json.dump({"version":1,"setup_cmd":"./check.sh setup",
 "checks":[{"property":k,"quick_cmd":f"./check.sh {k} quick","thorough_cmd":f"./check.sh {k} thorough","technique":t,"level":"exploration","level_note":n} for k,(t,n) in sorted(T.items())],
 "not_applicable":[],
 "notes":"No hooks: everything is observed at the public API, the process boundary, the clock and the allocator. Replay a violation with ./check.sh replay FILE."},
 open('/verif/MANIFEST.json','w'),indent=1)
