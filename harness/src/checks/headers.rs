//! C08 type and family, C11 headers and status bits, C12 timestamps.
use super::ensure;
use crate::core::*;
use crate::engine::{Ctx, OnPanic, Section};
use crate::model::*;
use bytes::BytesMut;
use open_dis_rust::common::enums::*;
use open_dis_rust::common::pdu_header::PduStatusRecord;
use open_dis_rust::common::{GenericHeader, LiveEntityPduHeader, PduHeader, SerializedLength};

const V: OnPanic = OnPanic::Violation;
type Res = Result<(), String>;

fn type_code(t: PduType) -> u64 {
    PduType::table().code[&(t as u64)]
}
// ------------------------------------------------------------------ C08
pub fn c08() -> Vec<Section> {
    vec![
        Section { name: "stamped", quick: 60_000, thorough: 2_000_000, on_panic: V, run: c08_stamped, rule: "PDUs with stale types, families and lengths in their headers, serialized: octets 2 and 3 and the header are the PDU's own" },
        Section { name: "own", quick: 66, thorough: 66, on_panic: V, run: c08_own, rule: "each PDU type's new value, and its code against all other PDU types'" },
        Section { name: "types", quick: 66 * 4, thorough: 66 * 60, on_panic: V, run: c08_types, rule: "every type code over a message of each PDU type, and every PduType in a pre-parsed header" },
        Section { name: "pairs", quick: 66 * 66, thorough: 66 * 66 * 10, on_panic: V, run: c08_pairs, rule: "each PDU type's message to each PDU type's decoder, both routes" },
        Section { name: "inspect", quick: 256 * 160, thorough: 256 * 160 * 8, on_panic: V, run: c08_inspect, rule: "type inspection of datagrams of every length 0..100, lengths around powers of two and the limits, longer ones than any PDU, and every type code" },
    ]
}
fn c08_stamped(cx: &mut Ctx) -> Res {
    let k = cx.kind(cx.idx);
    let consistent = cx.rng.chance(50);
    let mut p = generate(cx, k, consistent);
    if ref_encode(k, &*p).len() > MAX_PDU {
        return Ok(());
    }
    let mut g = cx.gen();
    for _ in 0..2 {
        let h = p.header_mut();
        h.pdu_type = Wire::gen(&mut g);
        h.protocol_family = Wire::gen(&mut g);
        h.length = Wire::gen(&mut g);
        let (t, f) = (h.pdu_type, h.protocol_family);
        let b = ser(&mut *p).map_err(|e| format!("{}# refused: {e}", k.name()))?;
        cx.eval(Some(what(k, &b) ^ mix(t as u64 | (f as u64) << 8)));
        cx.sample(|| format!("{} with header {t:?}/{f:?} -> type {} family {}", k.name(), b[2], b[3]));
        ensure!(b[2] == k.ty().1, "{}# with {t:?} in its header writes type {}, not {}", k.name(), b[2], k.ty().1);
        ensure!(b[3] == k.family().1, "{}# with {f:?} in its header writes family {}, not {}", k.name(), b[3], k.family().1);
        let h = p.header();
        ensure!(h.pdu_type == k.ty().0 && h.protocol_family == k.family().0, "{}# after serialization its header says {:?}/{:?}", k.name(), h.pdu_type, h.protocol_family);
    }
    Ok(())
}
fn c08_own(cx: &mut Ctx) -> Res {
    let k = cx.kind(cx.idx);
    let p = lib(|| k.create());
    let h = p.header();
    cx.eval(Some(cx.idx));
    ensure!(h.pdu_type == k.ty().0 && h.protocol_family == k.family().0, "{}# is created as {:?}/{:?}", k.name(), h.pdu_type, h.protocol_family);
    ensure!(h.pdu_type() == k.ty().0 && h.protocol_family() == k.family().0, "{}# header accessors say {:?}/{:?}", k.name(), h.pdu_type(), h.protocol_family());
    ensure!(lib(|| p.lib_as_any_is_self()), "{}# as_any is not the PDU itself", k.name());
    for o in &cx.env.kinds {
        if o.name() != k.name() {
            let q = lib(|| o.create());
            ensure!(q.header().pdu_type as u64 != h.pdu_type as u64, "{}# shares its type with {}", k.name(), o.name());
        }
    }
    Ok(())
}
fn c08_types(cx: &mut Ctx) -> Res {
    let k = cx.kind(cx.idx);
    let p = generate(cx, k, true);
    let mut b = ref_encode(k, &*p);
    if b.len() > MAX_PDU {
        return Ok(());
    }
    let fam = cx.rng.next() as u8;
    if cx.rng.chance(50) {
        b[3] = fam;
    }
    if cx.rng.chance(30) {
        b[0] = fam;
    }
    if must_accept(k, &b) != Some(true) {
        return Ok(());
    }
    for t in 0..=255u8 {
        b[2] = t;
        let own = t == k.ty().1;
        let (d, _) = de(k, &b);
        cx.eval(Some(what(k, &b)));
        ensure!(d.is_ok() == own, "{}# decoder {} a message of type {t}{}", k.name(), if own { "rejects" } else { "accepts" }, if own { " (its own)" } else { "" });
    }
    b[2] = k.ty().1;
    let mut h = header_of(&b);
    for (t, _) in PduType::ALL {
        h.pdu_type = *t;
        let own = *t == k.ty().0;
        let (d, _) = de_body(k, h, &b[12..]);
        cx.eval(Some(what(k, &b) ^ mix(*t as u64)));
        ensure!(d.is_ok() == own, "{}# decoder {} a pre-parsed header of type {t:?}", k.name(), if own { "rejects" } else { "accepts" });
    }
    Ok(())
}
fn c08_pairs(cx: &mut Ctx) -> Res {
    let n = cx.env.kinds.len() as u64;
    let (k, o) = (cx.kind(cx.idx), cx.kind(cx.idx / n));
    let p = generate(cx, k, true);
    let mut b = ref_encode(k, &*p);
    if b.len() > MAX_PDU {
        return Ok(());
    }
    // long enough for anyone
    let extra = if cx.rng.chance(50) { 600 } else { 0 };
    b.extend(std::iter::repeat_n(0, extra));
    if extra > 0 {
        let l = b.len();
        set_len(&mut b, l);
    }
    let own = k.name() == o.name();
    if own && must_accept(k, &b) != Some(true) {
        return Ok(());
    }
    cx.eval(Some(what(k, &b) ^ mix(cx.idx)));
    let (d, _) = de(o, &b);
    ensure!(d.is_ok() == own, "{}# decoder {} a message of {}: {}", o.name(), if own { "rejects" } else { "accepts" }, k.name(), hex(&b, 100));
    let (d, _) = de_body(o, header_of(&b), &b[12..]);
    ensure!(d.is_ok() == own, "{}# decoder with a pre-parsed header {} a message of {}: {}", o.name(), if own { "rejects" } else { "accepts" }, k.name(), hex(&b, 100));
    Ok(())
}
fn c08_inspect(cx: &mut Ctx) -> Res {
    let code = cx.idx as u8;
    let round = (cx.idx / 256) as usize;
    // every length to 99 in turn, then those around powers of two and the limits, then any
    let n = match round % 160 {
        r @ 0..=99 => r,
        r @ 100..=129 => (1usize << (5 + (r - 100) / 3)) + (r % 3) - 1,
        130..=139 => 8180 + cx.rng.below(30) as usize,
        140..=144 => 65_500 + cx.rng.below(60) as usize,
        145 => 200_000,
        _ => cx.rng.below(9000) as usize,
    };
    let mut b: Vec<u8> = (0..n.min(300)).map(|_| cx.rng.next() as u8).collect();
    b.resize(n, cx.idx as u8);
    if cx.idx % 3 == 0 {
        b.fill(*cx.rng.pick(&[0, 0xFF, 1]));
    }
    if n > 2 {
        b[2] = code;
    }
    let got = lib(|| PduHeader::get_pdu_type(&b));
    cx.eval(Some(crate::engine::hash(&b)));
    let want = if n < 12 { None } else { Some(<PduType as Wire>::dec(&mut R::new(&[code])).ok().unwrap()) };
    ensure!(got == want, "inspection of {} says {got:?}, not {want:?}", hex(&b, 40));
    Ok(())
}

// ------------------------------------------------------------------ C11
pub fn c11() -> Vec<Section> {
    vec![
        Section { name: "headers", quick: 200_000, thorough: 10_000_000, on_panic: V, run: c11_headers, rule: "random field values of both headers: 12 octets with each field at its place, decoded back to an equal header" },
        Section { name: "sweep", quick: 3_000, thorough: 20_000, on_panic: V, run: c11_sweep, rule: "each header field through all 8-bit values and enumerators, 16-bit values, and boundary 32-bit values" },
        Section { name: "octets", quick: 60_000, thorough: 3_000_000, on_panic: V, run: c11_octets, rule: "random twelve octets decoded: each field is what its octets say" },
        Section { name: "status", quick: 256, thorough: 256, on_panic: V, run: c11_status, rule: "all 256 status octets x every accessor and every value of every setter, and random setter sequences" },
    ]
}
fn head(cx: &mut Ctx, f: (ProtocolVersion, u8, PduType, ProtocolFamily, u32, u16, u8), sub: DISLiveEntitySubprotocolNumber) -> Res {
    use open_dis_rust::pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize};
    let mut w = W::new();
    f.0.enc(&mut w);
    w.int(1, f.1.into());
    f.2.enc(&mut w);
    f.3.enc(&mut w);
    w.int(4, f.4.into());
    w.int(2, f.5.into());
    w.int(1, f.6.into());
    w.pad(1);
    let mut h = lib(|| PduHeader::new(f.2, f.3, f.1, f.5));
    ensure!(h.pdu_type == f.2 && h.protocol_family == f.3 && h.exercise_id == f.1 && h.length == f.5 && h.protocol_version == ProtocolVersion::IEEE1278_1_2012 && h.status_record.to_u8() == 0, "a new header does not hold what it was made with: {h:?}");
    h.protocol_version = f.0;
    h.timestamp = f.4;
    h.status_record = PduStatusRecord::from_u8(f.6);
    let mut b = BytesMut::new();
    lib(|| GenericHeader::serialize(&h, &mut b));
    cx.eval(Some(crate::engine::hash(&b)));
    cx.sample(|| format!("{h:?} -> {}", hex(&b, 12)));
    ensure!(b[..] == w.b[..], "header {h:?} encodes as {} instead of {}", hex(&b, 20), hex(&w.b, 20));
    let mut s = &b[..];
    let d = lib(|| <PduHeader as GenericHeader>::deserialize(&mut s));
    ensure!(d == h && s.is_empty(), "header {h:?} comes back as {d:?}");
    let mut b = BytesMut::from(&b"xyz"[..]);
    lib(|| h.serialize_field(&mut b));
    ensure!(b[3..] == w.b[..] && b[..3] == b"xyz"[..], "header as a field encodes as {}", hex(&b[3..], 20));
    let mut s = &w.b[..];
    let d = lib(|| PduHeader::deserialize_field(&mut s));
    ensure!(d == h && s.is_empty() && h.field_len() == 12, "header {h:?} as a field comes back as {d:?}");
    // setters
    let mut t = lib(PduHeader::default);
    lib(|| {
        t.set_pdu_type(f.2);
        t.set_protocol_family(f.3);
        t.set_length(f.5);
    });
    ensure!(t.pdu_type() == f.2 && t.protocol_family() == f.3 && t.length() == f.5 && t.exercise_id == 1, "setting type, family and length gives {t:?}");
    // the live entity header
    let mut w = W { b: w.b[..10].to_vec(), ..W::default() };
    sub.enc(&mut w);
    w.pad(1);
    let mut l = lib(|| LiveEntityPduHeader::new(f.2, f.3, f.1, f.5));
    ensure!(l.pdu_type == f.2 && l.protocol_family == f.3 && l.exercise_id == f.1 && l.length == f.5, "a new live entity header does not hold what it was made with: {l:?}");
    l.protocol_version = f.0;
    l.timestamp = f.4;
    l.subprotocol_number = sub;
    let mut b = BytesMut::new();
    lib(|| l.serialize(&mut b));
    ensure!(b[..] == w.b[..], "live entity header {l:?} encodes as {} instead of {}", hex(&b, 20), hex(&w.b, 20));
    let mut s = &b[..];
    let d = lib(|| LiveEntityPduHeader::deserialize(&mut s));
    ensure!(d == l && s.is_empty(), "live entity header {l:?} comes back as {d:?}");
    // in the midst of other octets
    let mut b = BytesMut::from(&b"xyz"[..]);
    lib(|| l.serialize(&mut b));
    ensure!(b[3..] == w.b[..] && b[..3] == b"xyz"[..], "live entity header {l:?} behind other octets encodes as {}", hex(&b, 23));
    b.extend_from_slice(&[0xA5; 9]);
    let mut s = &b[3..];
    let d = lib(|| LiveEntityPduHeader::deserialize(&mut s));
    ensure!(d == l && s == [0xA5; 9], "live entity header {l:?} before other octets comes back as {d:?} and leaves {} octets", s.len());
    ensure!(<LiveEntityPduHeader as SerializedLength>::LENGTH == 12 && <PduHeader as SerializedLength>::LENGTH == 12, "the headers declare a length of {} and {}", <PduHeader as SerializedLength>::LENGTH, <LiveEntityPduHeader as SerializedLength>::LENGTH);
    let mut t = lib(LiveEntityPduHeader::default);
    lib(|| {
        t.set_pdu_type(f.2);
        t.set_protocol_family(f.3);
        t.set_length(f.5);
    });
    ensure!(t.pdu_type() == f.2 && t.protocol_family() == f.3 && t.length() == f.5 && t.exercise_id == 1, "setting type, family and length gives {t:?}");
    Ok(())
}
fn c11_headers(cx: &mut Ctx) -> Res {
    let mut g = cx.gen();
    let f = (Wire::gen(&mut g), Wire::gen(&mut g), Wire::gen(&mut g), Wire::gen(&mut g), Wire::gen(&mut g), Wire::gen(&mut g), Wire::gen(&mut g));
    let s = Wire::gen(&mut g);
    head(cx, f, s)
}
fn c11_sweep(cx: &mut Ctx) -> Res {
    let mut g = cx.gen();
    let mut f: (ProtocolVersion, u8, PduType, ProtocolFamily, u32, u16, u8) = (Wire::gen(&mut g), Wire::gen(&mut g), Wire::gen(&mut g), Wire::gen(&mut g), Wire::gen(&mut g), Wire::gen(&mut g), Wire::gen(&mut g));
    let mut s: DISLiveEntitySubprotocolNumber = Wire::gen(&mut g);
    let i = (cx.idx / 8) as usize;
    match cx.idx % 8 {
        0 => f.0 = ProtocolVersion::ALL[i % ProtocolVersion::ALL.len()].0,
        1 => f.1 = i as u8,
        2 => f.2 = PduType::ALL[i % PduType::ALL.len()].0,
        3 => f.3 = ProtocolFamily::ALL[i % ProtocolFamily::ALL.len()].0,
        4 => {
            for v in 0..256u32 {
                f.4 = v << (8 * (i as u32 % 4));
                head(cx, f, s)?;
            }
        }
        5 => {
            for v in 0..256u16 {
                f.5 = (i as u16) << 8 | v;
                head(cx, f, s)?;
            }
        }
        6 => f.6 = i as u8,
        _ => s = DISLiveEntitySubprotocolNumber::ALL[i % DISLiveEntitySubprotocolNumber::ALL.len()].0,
    }
    head(cx, f, s)
}
fn c11_octets(cx: &mut Ctx) -> Res {
    let mut g = cx.gen();
    let b = g.bytes(12);
    let h = RefHeader::read(&b).unwrap();
    let mut s = &b[..];
    let d = lib(|| <PduHeader as GenericHeader>::deserialize(&mut s));
    cx.eval(Some(crate::engine::hash(&b)));
    ensure!(s.is_empty(), "decoding a header leaves {} octets", s.len());
    if let Some(e) = h.diff(&d) {
        return Err(format!("{e}; {}", hex(&b, 12)));
    }
    let mut s = &b[..];
    let l = lib(|| LiveEntityPduHeader::deserialize(&mut s));
    let sub = <DISLiveEntitySubprotocolNumber as Wire>::dec(&mut R::new(&b[10..])).ok().unwrap();
    ensure!(l.protocol_version == d.protocol_version && l.exercise_id == b[1] && l.pdu_type == d.pdu_type && l.protocol_family == d.protocol_family && l.timestamp == h.timestamp && l.length == h.length && l.subprotocol_number == sub, "live entity header {} decodes as {l:?}", hex(&b, 12));
    Ok(())
}
fn c11_status(cx: &mut Ctx) -> Res {
    let o = cx.idx as u8;
    let mk = || lib(|| PduStatusRecord::from_u8(o));
    ensure!(mk().to_u8() == o, "status octet {o:#x} comes back as {:#x}", mk().to_u8());
    // reading
    let s = mk();
    let two = o >> 4 & 3;
    let named = |v: u8| if v == 3 { 0 } else { v };
    let reads: [(&str, u8, u8); 10] = [
        ("transferred entity", s.tei() as u8, o & 1),
        ("LVC", s.lvc() as u8, o >> 1 & 3),
        ("coupled extension", s.cei() as u8, o >> 3 & 1),
        ("bits 4 and 5", s.bit4_5(), two),
        ("detonation type", s.get_dti() as u8, named(two)),
        ("radio attached", s.get_rai() as u8, named(two)),
        ("intercom attached", s.get_iai() as u8, named(two)),
        ("fire type", s.get_fti() as u8, two & 1),
        ("IFF simulation mode", s.get_ism() as u8, two & 1),
        ("active interrogation", s.get_aii() as u8, two >> 1),
    ];
    for (n, got, want) in reads {
        cx.eval(Some(mix(u64::from(o)) ^ crate::engine::hash(n.as_bytes())));
        // a two-bit code without a name reads as some default
        if want == 0 && two == 3 && ["detonation type", "radio attached", "intercom attached"].contains(&n) {
            continue;
        }
        ensure!(got == want, "{n} of status octet {o:#010b} reads {got}, not {want}");
    }
    // writing
    let mut trail: Vec<u8> = vec![];
    macro_rules! set {
        ($set:ident, $get:expr, $mask:expr, $shift:expr, $($v:expr),*) => {
            $(
                let mut s = mk();
                lib(|| s.$set($v));
                let want = o & !$mask | ($v as u8) << $shift & $mask;
                cx.eval(Some(mix(u64::from(o) << 16 | u64::from(want) << 8 | u64::from($mask as u8))));
                ensure!(s.to_u8() == want, "{} {:?} on status octet {o:#010b} gives {:#010b}, not {want:#010b}", stringify!($set), $v, s.to_u8());
                #[allow(clippy::redundant_closure_call)]
                let back = lib(|| ($get)(&s)) as u8;
                ensure!(back == $v as u8, "{} {:?} reads back as {back}", stringify!($set), $v);
                trail.push(s.to_u8());
            )*
        };
    }
    set!(set_tei, |s: &PduStatusRecord| s.tei(), 0b1u8, 0, TransferredEntityIndicator::NoDifference, TransferredEntityIndicator::Difference);
    set!(set_lvc, |s: &PduStatusRecord| s.lvc(), 0b110u8, 1, LVCIndicator::NoStatement, LVCIndicator::Live, LVCIndicator::Virtual, LVCIndicator::Constructive);
    set!(set_cei, |s: &PduStatusRecord| s.cei(), 0b1000u8, 3, CoupledExtensionIndicator::NotCoupled, CoupledExtensionIndicator::Coupled);
    set!(set_bit4_5, |s: &PduStatusRecord| s.bit4_5(), 0b11_0000u8, 4, 0u8, 1u8, 2u8, 3u8);
    set!(set_dti, |s: &PduStatusRecord| s.get_dti(), 0b11_0000u8, 4, DetonationTypeIndicator::Munition, DetonationTypeIndicator::Expendable, DetonationTypeIndicator::NonMunitionExplosion);
    set!(set_rai, |s: &PduStatusRecord| s.get_rai(), 0b11_0000u8, 4, RadioAttachedIndicator::NoStatement, RadioAttachedIndicator::Unattached, RadioAttachedIndicator::Attached);
    set!(set_iai, |s: &PduStatusRecord| s.get_iai(), 0b11_0000u8, 4, IntercomAttachedIndicator::NoStatement, IntercomAttachedIndicator::Unattached, IntercomAttachedIndicator::Attached);
    set!(set_fti, |s: &PduStatusRecord| s.get_fti(), 0b1_0000u8, 4, FireTypeIndicator::Munition, FireTypeIndicator::Expendable);
    set!(set_ism, |s: &PduStatusRecord| s.get_ism(), 0b1_0000u8, 4, PduStatusIFFSimulationMode::Regeneration, PduStatusIFFSimulationMode::Interactive);
    set!(set_aii, |s: &PduStatusRecord| s.get_aii(), 0b10_0000u8, 5, ActiveInterrogationIndicator::NotActive, ActiveInterrogationIndicator::Active);
    // in sequence, with a model octet
    let mut s = mk();
    let mut m = o;
    for _ in 0..60 {
        let pick = cx.rng.below(6);
        let bit = cx.rng.chance(50);
        match pick {
            0 => {
                s.set_tei(if bit { TransferredEntityIndicator::Difference } else { TransferredEntityIndicator::NoDifference });
                m = m & !1 | u8::from(bit);
            }
            1 => {
                let v = *cx.rng.pick(&[LVCIndicator::NoStatement, LVCIndicator::Live, LVCIndicator::Virtual, LVCIndicator::Constructive]);
                s.set_lvc(v);
                m = m & !6 | (v as u8) << 1;
            }
            2 => {
                s.set_cei(if bit { CoupledExtensionIndicator::Coupled } else { CoupledExtensionIndicator::NotCoupled });
                m = m & !8 | u8::from(bit) << 3;
            }
            3 => {
                s.set_fti(if bit { FireTypeIndicator::Expendable } else { FireTypeIndicator::Munition });
                m = m & !16 | u8::from(bit) << 4;
            }
            4 => {
                s.set_aii(if bit { ActiveInterrogationIndicator::Active } else { ActiveInterrogationIndicator::NotActive });
                m = m & !32 | u8::from(bit) << 5;
            }
            _ => {
                let v = *cx.rng.pick(&[RadioAttachedIndicator::NoStatement, RadioAttachedIndicator::Unattached, RadioAttachedIndicator::Attached]);
                s.set_rai(v);
                m = m & !48 | (v as u8) << 4;
            }
        }
        ensure!(s.to_u8() == m, "a sequence of settings from {o:#010b} gives {:#010b}, not {m:#010b}", s.to_u8());
    }
    let z = lib(PduStatusRecord::new_zero);
    ensure!(z.to_u8() == 0 && PduStatusRecord::default().to_u8() == 0, "an empty status is not zero");
    let _ = (trail, type_code(PduType::Other));
    Ok(())
}

// ------------------------------------------------------------------ C12
pub fn c12() -> Vec<Section> {
    vec![
        Section { name: "still", quick: 60_000, thorough: 3_000_000, on_panic: V, run: c12_still, rule: "a virtual clock standing still at instants spread over a century and more, dense around second, minute and hour boundaries; every way to obtain a timestamp" },
        Section { name: "ticking", quick: 60_000, thorough: 3_000_000, on_panic: V, run: c12_ticking, rule: "a virtual clock that advances by 0..1 s between any two reads inside the call, dense around boundaries" },
        Section { name: "order", quick: 6_000, thorough: 100_000, on_panic: V, run: c12_order, rule: "runs of calls at increasing instants within an hour" },
        Section { name: "steps", quick: 6_000, thorough: 100_000, on_panic: V, run: c12_steps, rule: "runs of calls at instants in any order, mostly near one another, as when the clock is set: each the time it is" },
        Section { name: "hour", quick: 1440, thorough: 1440, on_panic: V, run: c12_hour, rule: "each header's clock called throughout an hour, every 13 us (thorough: at each of its 3.6e9 microseconds): within one unit and never back" },
    ]
}
fn c12_hour(cx: &mut Ctx) -> Res {
    let (name, f): (_, fn() -> u32) = if cx.idx & 1 == 0 { ("PduHeader", PduHeader::calculate_dis_timestamp) } else { ("LiveEntityPduHeader", LiveEntityPduHeader::calculate_dis_timestamp) };
    let hour = (1_500_000_000 + cx.rng.below(700_000_000)) / 3600 * 3_600_000_000;
    let from = cx.idx / 2 % 720 * 5_000_000;
    let step = if cx.env.thorough { 1 } else { 13 };
    let first = from + cx.rng.below(step);
    let mut last = 0;
    let mut wrong = None;
    let mut reads = 0;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        lib(|| {
            for us in (first..from + 5_000_000).step_by(step as usize) {
                crate::clock::start((hour + us) * 1000, 0, false);
                let ts = f();
                reads += crate::clock::stop().1;
                // what was read by another route is left to the other sections
                if (ts < last || (u64::from(ts) * 168).abs_diff(us * 100) > 2 * 168) && reads > 0 {
                    wrong = Some((us, ts));
                    break;
                }
                last = ts;
            }
        })
    }));
    crate::clock::stop();
    r.unwrap_or_else(|e| std::panic::resume_unwind(e));
    cx.eval(Some(mix(hour ^ cx.idx)));
    cx.count("clock reads served", reads);
    if let Some((us, ts)) = wrong {
        return Err(format!("{name}# at {us} us past the hour gives {ts} units = {} us, after {last} units a little earlier", u64::from(ts) * 168 / 100));
    }
    Ok(())
}
fn instant(cx: &mut Ctx) -> u64 {
    let sec = match cx.rng.below(10) {
        // any time to the year 2116, and about the ends of 31 and 32 bits of seconds
        0 => cx.rng.below(4_600_000_000),
        1 => (1 << (31 + cx.rng.below(2))) - 5000 + cx.rng.below(10_000),
        _ => 1_500_000_000 + cx.rng.below(700_000_000),
    };
    let hour = sec / 3600 * 3600;
    let ns = match cx.rng.below(8) {
        0 => 0,
        1 => 999_999_999 - cx.rng.below(3000),
        2 => cx.rng.below(3000),
        3 => 999_000_000 + cx.rng.below(1_000_000),
        _ => cx.rng.below(1_000_000_000),
    };
    let s = match cx.rng.below(8) {
        0 => hour + 3599,
        1 => hour,
        2 => hour + cx.rng.below(60) * 60 + 59,
        3 => hour + cx.rng.below(60) * 60,
        4 => hour + 86_400 - (hour % 86_400) - 1,
        _ => sec,
    };
    s * 1_000_000_000 + ns
}
const HOUR: u64 = 3_600_000_000_000;
/// units of 1.68 us in the hour at this instant
fn units(t: u64) -> u64 {
    ((t % HOUR) as u128 / 1680) as u64
}
fn within(ts: u32, from: u64, to: u64) -> bool {
    let ts = u64::from(ts);
    let (a, b) = (units(from), units(to));
    if to / HOUR == from / HOUR {
        ts + 1 >= a && ts <= b + 1
    } else {
        // the hour turned: late in the old one or early in the new one
        (ts + 1 >= a && ts <= HOUR / 1680) || ts <= b + 1
    }
}
type Source = (&'static str, fn(&Ctx) -> u32);
const SOURCES: [Source; 8] = [
    ("PduHeader::calculate_dis_timestamp", |_| PduHeader::calculate_dis_timestamp()),
    ("PduHeader::default", |_| PduHeader::default().timestamp),
    ("PduHeader::new", |_| PduHeader::new(PduType::Fire, ProtocolFamily::Warfare, 3, 100).timestamp),
    ("LiveEntityPduHeader::calculate_dis_timestamp", |_| LiveEntityPduHeader::calculate_dis_timestamp()),
    ("LiveEntityPduHeader::default", |_| LiveEntityPduHeader::default().timestamp),
    ("LiveEntityPduHeader::new", |_| LiveEntityPduHeader::new(PduType::TimeSpacePositionInformation, ProtocolFamily::LiveEntityInformationInteraction, 3, 100).timestamp),
    ("a new PDU", |cx| cx.kind(cx.idx / 8).create().header().timestamp),
    ("a default PDU", |cx| cx.kind(cx.idx / 8).default_pdu().header().timestamp),
];
fn real_now() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map_or(0, |d| d.as_nanos() as u64)
}
/// One timestamp under the virtual clock: (what came, between which instants, clock readings). Where the
/// clock was not read at all, some other route to the real time is allowed for.
fn timestamp(cx: &mut Ctx, f: fn(&Ctx) -> u32, at: u64, tick: u64, before: bool) -> (u32, u64, u64, u64) {
    let real = real_now();
    crate::clock::start(at, tick, before);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| lib(|| f(cx))));
    let (end, reads) = crate::clock::stop();
    let real_end = real_now();
    let ts = r.unwrap_or_else(|e| std::panic::resume_unwind(e));
    if reads == 0 && within(ts, real, real_end) {
        cx.count("timestamps of the real time, the clock being read by another route", 1);
        return (ts, real, real_end, 0);
    }
    cx.count("clock reads served", reads);
    (ts, at, end, reads)
}
fn stamp(cx: &mut Ctx, at: u64, tick: u64, before: bool) -> Res {
    let (name, f) = SOURCES[(cx.idx % 8) as usize];
    let (ts, from, to, reads) = timestamp(cx, f, at, tick, before);
    cx.eval(Some(mix(at ^ mix(tick)) ^ (cx.idx % 8)));
    cx.sample(|| format!("{name} at {from} ns, tick {tick} ns, {reads} reads: {ts}"));
    ensure!(within(ts, from, to), "{name}# at {} us past the hour (clock advancing {} us over {reads} reads) gives {ts} units = {} us", from % HOUR / 1000, (to - from) / 1000, u64::from(ts) * 168 / 100);
    Ok(())
}
fn c12_still(cx: &mut Ctx) -> Res {
    let t = instant(cx);
    stamp(cx, t, 0, false)
}
fn c12_ticking(cx: &mut Ctx) -> Res {
    let tick = match cx.rng.below(6) {
        0 => cx.rng.below(1000),
        1 => cx.rng.below(1_000_000),
        2 => cx.rng.below(1_000_000_000),
        3 => 1_000_000_000,
        _ => cx.rng.below(20_000_000),
    };
    let mut t = instant(cx);
    if cx.rng.chance(50) {
        // so that a boundary falls within the first reads
        let unit = *cx.rng.pick(&[1_000_000_000u64, 60_000_000_000, HOUR]);
        t = t / unit * unit + unit - 1 - cx.rng.below((tick * 3).max(1)).min(unit - 1);
    }
    let before = cx.rng.chance(30);
    stamp(cx, t, tick, before)
}
fn c12_steps(cx: &mut Ctx) -> Res {
    let start = instant(cx).max(2 * HOUR);
    let mut t = start;
    // one way to get a timestamp throughout, or all in turn
    let (name, f) = SOURCES[(cx.idx % 8) as usize];
    let all = cx.rng.chance(30);
    for i in 0..20u64 {
        let (name, f) = if all { SOURCES[((cx.idx + i) % 8) as usize] } else { (name, f) };
        let (ts, from, to, _) = timestamp(cx, f, t, 0, false);
        cx.eval(Some(mix(t ^ i)));
        ensure!(within(ts, from, to), "{name}# at {} us past the hour, call {i} of a run, gives {ts} units = {} us", from % HOUR / 1000, u64::from(ts) * 168 / 100);
        let reach = [3_000, 100_000, 5_000_000, 1_000_000_000, 70_000_000_000, HOUR, 26 * HOUR];
        let reach = *cx.rng.pick(&reach);
        let by = cx.rng.below(reach).max(if cx.rng.chance(10) { HOUR } else { 0 });
        t = match cx.rng.below(8) {
            0 => t,
            1..=3 => t + by,
            4 => start,
            _ => t.saturating_sub(by),
        };
    }
    Ok(())
}
fn c12_order(cx: &mut Ctx) -> Res {
    let mut t = instant(cx);
    let (name, f) = SOURCES[(cx.idx % 8) as usize];
    let mut last: Option<(u64, u32)> = None;
    for _ in 0..20 {
        let (ts, from, to, _) = timestamp(cx, f, t, 0, false);
        cx.eval(Some(mix(t)));
        if let Some((t0, ts0)) = last {
            ensure!(to < t0 || t0 / HOUR != to / HOUR || ts >= ts0, "{name}# goes back from {ts0} to {ts} in {} us of the same hour", (to - t0) / 1000);
        }
        last = Some((from, ts));
        t += match cx.rng.below(5) {
            0 => 0,
            1 => cx.rng.below(2000),
            2 => cx.rng.below(1_000_000),
            _ => cx.rng.below(90_000_000_000),
        };
    }
    Ok(())
}
