//! C07 exact consumption, C09 foreign messages, C16 the two decoding routes.
use super::ensure;
use crate::bufs;
use crate::core::*;
use crate::engine::{Ctx, OnPanic, Section};
use crate::model::*;
use bytes::Buf;
use open_dis_rust::common::dis_error::DISError;

const V: OnPanic = OnPanic::Violation;
type Res = Result<(), String>;

// ------------------------------------------------------------------ C07
pub fn c07() -> Vec<Section> {
    vec![
        Section { name: "stream", quick: 25_000, thorough: 1_500_000, on_panic: V, run: c07_stream, rule: "2 to 6 messages (own, foreign, with octets beyond the last field) of random types back to back, then trailing octets, read from one buffer of a random kind; each must decode as it does alone, and leave exactly what follows it" },
        Section { name: "chunks", quick: 16_000, thorough: 800_000, on_panic: V, run: c07_chunks, rule: "one message, valid or hostile, through ten kinds of buffer and fragmentation: same outcome, values and position as from a slice" },
        Section { name: "splits", quick: 660, thorough: 30_000, on_panic: V, run: c07_splits, rule: "one message cut in two at every position" },
    ]
}
fn message(cx: &mut Ctx, k: &dyn Kind) -> Option<Vec<u8>> {
    let big = if cx.rng.chance(2) { grown(cx, k, 65_535) } else { None };
    let mut b = match (big, cx.rng.below(3)) {
        // beyond 8192 octets it is the decoder's choice whether it takes the message at all
        (Some(p), _) => {
            cx.count("messages of a chosen list length", 1);
            ref_encode(k, &*p)
        }
        (_, 0) => foreign(cx, k),
        _ => {
            let p = generate(cx, k, true);
            ref_encode(k, &*p)
        }
    };
    // octets of the message beyond its last field
    if cx.rng.chance(15) {
        let n = cx.rng.range(1, 12);
        b.extend((0..n).map(|_| cx.rng.next() as u8));
        let l = b.len();
        set_len(&mut b, l);
    }
    if b.len() > 65_535 {
        return None;
    }
    Some(b)
}
fn decode_from(k: &dyn Kind, kind: usize, b: &mut dyn Buf) -> Result<Box<dyn Dyn>, String> {
    let _ = kind;
    lib(|| k.lib_decode(b)).map_err(|e| e.to_string())
}
fn c07_stream(cx: &mut Ctx) -> Res {
    let n = 2 + cx.rng.below(5);
    let mut msgs = vec![];
    for i in 0..n {
        let k = if i == 0 { cx.kind(cx.idx) } else { cx.kind(cx.rng.clone().next() ^ i) };
        cx.rng.next();
        if let Some(b) = message(cx, k) {
            // alone
            if let (Ok(d), _) = de(k, &b) {
                msgs.push((k, b, d));
            } else {
                cx.count("messages rejected alone", 1);
            }
        }
    }
    if msgs.len() < 2 {
        return Ok(());
    }
    let mut all = vec![];
    for m in &msgs {
        all.extend_from_slice(&m.1);
    }
    let mut tail: Vec<u8> = (0..cx.rng.below(60)).map(|_| cx.rng.next() as u8).collect();
    if cx.rng.chance(4) {
        let n = *cx.rng.pick(&[1500usize, 8180, 8192, 16_384, 65_523, 65_536, 131_072]) + cx.rng.below(20) as usize;
        tail.resize(n, cx.idx as u8);
    } else if cx.rng.chance(3) {
        // what is left at the start or the end of one of the messages comes to about a power of two
        let i = cx.rng.below(msgs.len() as u64 + 1) as usize;
        let behind: usize = msgs[i..].iter().map(|m| m.1.len()).sum();
        let n = *cx.rng.pick(&[4_096usize, 8_192, 16_384, 32_768, 65_536, 131_072]) + cx.rng.below(28) as usize;
        if n > behind + 14 {
            tail.resize(n - behind - 14, cx.idx as u8);
        }
    }
    all.extend_from_slice(&tail);
    let kind = cx.rng.below(bufs::KINDS.len() as u64) as usize;
    cx.eval(Some(crate::engine::hash(&all) ^ kind as u64));
    cx.count(&format!("streams from {}", bufs::KINDS[kind]), 1);
    cx.sample(|| format!("{} messages in {} octets from {}", msgs.len(), all.len(), bufs::KINDS[kind]));
    let mut r = Rng::new(cx.rng.next());
    let (res, left) = bufs::with_kind(kind, &all, &mut r, |b| -> Res {
        let mut expect = all.len();
        for (i, (k, m, alone)) in msgs.iter().enumerate() {
            let d = decode_from(*k, kind, b).map_err(|e| format!("{}# message {i} of a stream from {} is rejected: {e}; alone it is not: {}", k.name(), bufs::KINDS[kind], hex(m, 200)))?;
            expect -= m.len();
            let left = b.remaining();
            ensure!(left == expect, "{}# message {i} of {} octets in a stream from {} leaves {left} octets instead of {expect}", k.name(), m.len(), bufs::KINDS[kind]);
            if let Some(e) = alone.diff(&*d) {
                return Err(format!("{}# message {i} of a stream from {} differs from the same alone: {e}", k.name(), bufs::KINDS[kind]));
            }
            ensure!(alone.header() == d.header(), "{}# message {i} of a stream from {}: its header differs from the same alone", k.name(), bufs::KINDS[kind]);
        }
        Ok(())
    });
    res?;
    ensure!(left == tail.len(), "trailing octets: {left} left instead of {}", tail.len());
    // the octets behind are no different for having been there
    for (k, m, alone) in &msgs {
        let mut with = m.clone();
        with.extend((0..1 + cx.rng.below(30)).map(|_| cx.rng.next() as u8));
        let (d, left) = de(*k, &with);
        let d = d.map_err(|e| format!("{}# with octets behind it is rejected: {e}", k.name()))?;
        ensure!(left == with.len() - m.len(), "{}# of {} octets with {} behind it leaves {left}", k.name(), m.len(), with.len() - m.len());
        if let Some(e) = alone.diff(&*d) {
            return Err(format!("{}# with octets behind it differs: {e}", k.name()));
        }
    }
    Ok(())
}
fn same(k: &dyn Kind, how: &str, a: &(Result<Box<dyn Dyn>, String>, usize), b: &(Result<Box<dyn Dyn>, String>, usize), msg: &[u8]) -> Res {
    match (&a.0, &b.0) {
        (Ok(x), Ok(y)) => {
            if let Some(e) = x.diff(&**y) {
                return Err(format!("{}# {how}: {e}; {}", k.name(), hex(msg, 200)));
            }
            ensure!(x.header() == y.header(), "{}# {how}: header {:?} vs {:?}", k.name(), x.header(), y.header());
            ensure!(a.1 == b.1, "{}# {how}: leaves {} octets vs {}; {}", k.name(), a.1, b.1, hex(msg, 200));
            Ok(())
        }
        (Err(_), Err(_)) => Ok(()),
        (Ok(_), Err(e)) => Err(format!("{}# {how}: accepted vs rejected ({e}); {}", k.name(), hex(msg, 200))),
        (Err(e), Ok(_)) => Err(format!("{}# {how}: rejected ({e}) vs accepted; {}", k.name(), hex(msg, 200))),
    }
}
fn c07_chunks(cx: &mut Ctx) -> Res {
    let k = cx.kind(cx.idx);
    let b = if cx.rng.chance(30) {
        hostile(cx, k)
    } else {
        let Some(mut b) = message(cx, k) else { return Ok(()) };
        if cx.rng.chance(50) {
            b.extend((0..cx.rng.below(20)).map(|_| cx.rng.next() as u8));
        }
        b
    };
    let base = de(k, &b);
    if let Ok(d) = &base.0 {
        let want = b.len() - usize::from(d.header().length);
        ensure!(base.1 == want, "{}# a message of {} octets, {} offered, leaves {} instead of {want}", k.name(), d.header().length, b.len(), base.1);
        cx.count("accepted", 1);
    } else {
        cx.count("rejected", 1);
    }
    for kind in 1..bufs::KINDS.len() {
        let mut r = Rng::new(cx.rng.next());
        let o = bufs::with_kind(kind, &b, &mut r, |s| decode_from(k, kind, s));
        cx.eval(Some(what(k, &b) ^ kind as u64));
        same(k, &format!("slice vs {}", bufs::KINDS[kind]), &base, &o, &b)?;
    }
    let mut bm = bytes::BytesMut::from(&b[..]);
    let o = lib(|| k.lib_decode_bytes_mut(&mut bm)).map_err(|e| e.to_string());
    same(k, "slice vs BytesMut itself", &base, &(o, bm.len()), &b)
}
fn c07_splits(cx: &mut Ctx) -> Res {
    let k = cx.kind(cx.idx);
    let mut g = cx.gen();
    g.budget = 6;
    let p = gen_pdu(k, &mut g);
    let b = ref_encode(k, &*p);
    let base = de(k, &b);
    for at in 0..=b.len().min(1200) {
        let mut c = b[..at].chain(&b[at..]);
        let o = lib(|| k.lib_decode(&mut c)).map_err(|e| e.to_string());
        cx.eval(Some(what(k, &b) ^ at as u64));
        same(k, &format!("whole vs cut at {at}"), &base, &(o, c.remaining()), &b)?;
    }
    Ok(())
}

// ------------------------------------------------------------------ C09
pub fn c09() -> Vec<Section> {
    vec![
        Section { name: "foreign", quick: 90_000, thorough: 5_000_000, on_panic: V, run: c09_foreign, rule: "reference-encoded messages with every octet outside counts free to change (padding, unknown enumeration codes, float bits, header fields), decoded and compared with the reference decoder field by field, then encoded and decoded to a fixed point; non-trivial: some padding or enumeration octet is not canonical or body not zero" },
        Section { name: "sweep", quick: 4_000, thorough: 60_000, on_panic: V, run: c09_sweep, rule: "each span of a message (padding, enumeration, number, flags, text, header) run through all octet values or boundary values" },
        Section { name: "sizes", quick: 4_000, thorough: 150_000, on_panic: V, run: c09_sizes, rule: "messages whose one list, outermost or nested, has a number of elements at or next to a power of two, or that come to about a chosen size; beyond 8192 octets, up to the 65535 a length can say, a decoder may refuse for the size but not otherwise, and must not misread" },
        Section { name: "findings", quick: 1, thorough: 1, on_panic: V, run: c09_findings, rule: "the inputs of the known findings" },
    ]
}
fn foreign_ok(cx: &mut Ctx, k: &dyn Kind, b: &[u8]) -> Res {
    let (want, h, used, vague) = match ref_decode(k, b) {
        Ref::Accept(p, h, used, vague) => (p, h, used, vague),
        Ref::Open => {
            cx.count("left out: layout open", 1);
            return Ok(());
        }
        Ref::Reject(_) => return Ok(()),
    };
    cx.eval(b.iter().skip(12).any(|x| *x != 0).then(|| what(k, b)));
    cx.sample(|| format!("{} <- {}", k.name(), hex(b, 150)));
    let (d, left) = de(k, b);
    let mut d = d.map_err(|e| format!("{}# a well-formed message is rejected: {e}; {}", k.name(), hex(b, 300)))?;
    ensure!(left == b.len() - used, "{}# decoding leaves {left} octets", k.name());
    if let Some(e) = h.diff(&d.header()) {
        return Err(format!("{}# {e}; {}", k.name(), hex(b, 60)));
    }
    if vague {
        cx.count("values left open (characters, unknown flags)", 1);
    } else if let Some(e) = want.diff(&*d) {
        return Err(format!("{}# {e} (wire vs decoded); {}", k.name(), hex(b, 300)));
    }
    if ref_encode(k, &*d).len() > MAX_PDU {
        return Ok(());
    }
    // again: nothing further changes
    let b2 = ser(&mut *d).map_err(|e| format!("{}# decoded from a well-formed message, it cannot be encoded: {e}; {}", k.name(), hex(b, 300)))?;
    if !vague {
        let mut w = ref_encode_spans(k, &*d, true);
        // padding may be kept
        if b2.len() == w.b.len() {
            w.b[11] = b2[11];
            for (at, n, kind) in &w.spans {
                if *kind == Span::Pad {
                    w.b[*at..at + n].copy_from_slice(&b2[*at..at + n]);
                }
            }
        }
        ensure!(b2 == w.b, "{}# decoded and encoded: {}", k.name(), super::encode::first_difference(&b2, &w.b));
    }
    let (d2, _) = de(k, &b2);
    let mut d2 = d2.map_err(|e| format!("{}# decoded and encoded, it is rejected: {e}; {}", k.name(), hex(&b2, 300)))?;
    if let Some(e) = d.diff(&*d2) {
        return Err(format!("{}# {e} after decoding, encoding and decoding; {}", k.name(), hex(b, 300)));
    }
    ensure!(d.header() == d2.header(), "{}# header {:?} becomes {:?}", k.name(), d.header(), d2.header());
    let b3 = ser(&mut *d2).map_err(|e| format!("{}# third encoding: {e}", k.name()))?;
    ensure!(b3 == b2, "{}# encoding again: {}", k.name(), super::encode::first_difference(&b3, &b2));
    Ok(())
}
fn c09_foreign(cx: &mut Ctx) -> Res {
    let k = cx.kind(cx.idx);
    let mut b = foreign(cx, k);
    if b.len() > MAX_PDU {
        return Ok(());
    }
    if cx.rng.chance(8) {
        let n = cx.rng.range(1, 40);
        b.extend((0..n).map(|_| cx.rng.next() as u8));
        if cx.rng.chance(50) {
            let l = b.len();
            set_len(&mut b, l);
        }
    }
    foreign_ok(cx, k, &b)
}
fn c09_sweep(cx: &mut Ctx) -> Res {
    let n = cx.env.kinds.len() as u64;
    let k = cx.kind(cx.idx);
    let round = cx.idx / n;
    // a fixed message per kind and lap, one span of it per round
    let lap = round / 48;
    let mut g = G::new(mix(cx.env.seed ^ crate::engine::hash(k.name().as_bytes()) ^ lap), [Mode::Zero, Mode::Mixed, Mode::Ones, Mode::Distinct][lap as usize % 4], &cx.env.dict);
    g.budget = 6;
    let p = gen_pdu(k, &mut g);
    let w = ref_encode_spans(k, &*p, true);
    let mut spans: Vec<(usize, usize, Span)> = [0, 1, 3, 4, 5, 6, 7, 10, 11].iter().map(|i| (*i, 1, Span::Int)).collect();
    spans.extend(w.spans.iter().filter(|s| s.2 != Span::Count));
    let mut i = (round % 48) as usize;
    // messages of more spans than rounds: several spans per round
    while i < spans.len() {
        let (at, len, kind) = spans[i];
        i += 48;
        let vals: Vec<u64> = match (len, kind) {
            (1, _) => (0..256).collect(),
            (2, Span::Enum | Span::Flags) if cx.env.thorough => (0..65536).collect(),
            (2 | 4 | 8, _) => {
                let d = if kind == Span::Enum { 300 } else { 0 };
                let mut v: Vec<u64> = (0..d).collect();
                for _ in 0..24 {
                    v.push(g.boundary(len as u32 * 8));
                    v.push(cx.rng.next());
                }
                v.extend(&cx.env.dict.novel);
                v
            }
            _ => {
                // octet by octet
                for o in at..at + len.min(24) {
                    for x in [0u8, 1, 0x20, 0x41, 0x7F, 0x80, 0xC3, 0xFF] {
                        let mut b = w.b.clone();
                        b[o] = x;
                        foreign_ok(cx, k, &b)?;
                    }
                }
                continue;
            }
        };
        for v in vals {
            let mut b = w.b.clone();
            b[at..at + len].copy_from_slice(&v.to_be_bytes()[8 - len..]);
            foreign_ok(cx, k, &b).map_err(|e| format!("{e} [octets {at}..{} = {v:#x}]", at + len))?;
        }
    }
    Ok(())
}
fn c09_sizes(cx: &mut Ctx) -> Res {
    let k = cx.kind(cx.idx);
    let Some(s) = Sized_::pick(cx, k, false, true) else { return Ok(()) };
    let n = if cx.rng.chance(70) {
        let most = if cx.rng.chance(50) { 8192 } else { 65_535 };
        s.some_count(cx, most)
    } else {
        let t = target_size(cx) * if cx.rng.chance(30) { 8 } else { 1 };
        s.count_for(t)
    };
    let p = s.make(cx, k, n);
    let b = ref_encode(k, &*p);
    if b.len() > 65_535 {
        return Ok(());
    }
    cx.count(if b.len() > MAX_PDU { "messages over 8192 octets" } else { "messages of chosen list lengths" }, 1);
    if b.len() > MAX_PDU && matches!(ref_decode(k, &b), Ref::Accept(..)) {
        let mut left = &b[..];
        if matches!(lib(|| k.lib_decode_slice(&mut left)), Err(DISError::PduSizeExceeded { .. })) {
            cx.count("messages over 8192 octets refused for their size", 1);
            return Ok(());
        }
    }
    foreign_ok(cx, k, &b)
}
fn c09_findings(cx: &mut Ctx) -> Res {
    use open_dis_rust::common::data_types::grid_data_record::{DataRepresentationType, GridDataRecord};
    use open_dis_rust::common::enums::{GriddedDataDataRepresentation, GriddedDataSampleType};
    cx.eval(Some(1));
    let mut m = open_dis_rust::minefield::MinefieldDataPdu::new();
    m.number_of_mines_in_this_pdu = 1;
    m.mine_location = vec![Default::default()];
    m.ground_burial_depth_offset = vec![Some(1.5)];
    let k = cx.env.kinds.iter().find(|k| k.name() == "MinefieldDataPdu").ok_or("no MinefieldDataPdu")?;
    let b = ref_bytes(&**k, &m);
    if let (Ok(d), _) = de(&**k, &b) {
        let d = d.any().downcast_ref::<open_dis_rust::minefield::MinefieldDataPdu>().unwrap();
        if d.ground_burial_depth_offset != m.ground_burial_depth_offset {
            cx.obs.known.push("property=C09 MinefieldDataPdu message with one mine and its ground burial depth offset 1.5 decodes with the list empty".into());
        }
    }
    cx.eval(Some(2));
    let rec = |n: u8| GridDataRecord::new(GriddedDataSampleType::default(), GriddedDataDataRepresentation::Type0, DataRepresentationType::Type0 { number_of_octets: 2, data_values: vec![n, n], padding: vec![] });
    let mut g = open_dis_rust::synthetic_environment::GriddedDataPdu::new();
    g.vector_dimension = 2;
    g.grid_data_list = vec![rec(1), rec(2)];
    let k = cx.env.kinds.iter().find(|k| k.name() == "GriddedDataPdu").ok_or("no GriddedDataPdu")?;
    let b = ref_bytes(&**k, &g);
    let ok = match de(&**k, &b) {
        (Ok(d), _) => {
            let d = d.any().downcast_ref::<open_dis_rust::synthetic_environment::GriddedDataPdu>().unwrap();
            d.grid_data_list.len() == 2 && d.grid_data_list.iter().zip(&g.grid_data_list).all(|(a, b)| a.data == b.data)
        }
        _ => false,
    };
    if !ok {
        cx.obs.known.push("property=C09 GriddedDataPdu message with two grid data records of type 0 does not decode to both: the first takes the octets of the second for padding".into());
    }
    Ok(())
}
fn ref_bytes<T: PduSpec>(k: &dyn Kind, p: &T) -> Vec<u8> {
    let mut w = W::new();
    w.b.extend_from_slice(&[0; 12]);
    p.enc_body(&mut w);
    let n = w.b.len();
    w.b[..12].copy_from_slice(&enc_header(p.header(), k, n as u16));
    w.b
}

// ------------------------------------------------------------------ C16
pub fn c16() -> Vec<Section> {
    vec![
        Section { name: "routes", quick: 120_000, thorough: 6_000_000, on_panic: V, run: c16_routes, rule: "one message (own, foreign, hostile, truncated, of another type) decoded whole and header first from the same kind of buffer; acceptance, values, header and position compared" },
        Section { name: "types", quick: 66 * 4, thorough: 66 * 40, on_panic: V, run: c16_types, rule: "every type code in an otherwise valid message" },
    ]
}
fn outcome(k: &dyn Kind, b: &[u8], first: bool, kind: usize, seed: u64) -> Result<(Result<Box<dyn Dyn>, String>, usize), LibPanic> {
    use open_dis_rust::common::{GenericHeader, PduHeader};
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let mut r = Rng::new(seed);
        bufs::with_kind(kind, b, &mut r, |mut s| {
            if first {
                let h = lib(|| PduHeader::deserialize(&mut s));
                lib(|| k.lib_decode_body(s, h)).map_err(|e| e.to_string())
            } else {
                lib(|| k.lib_decode(s)).map_err(|e| e.to_string())
            }
        })
    }));
    r.map_err(|e| match e.downcast::<LibPanic>() {
        Ok(p) => *p,
        Err(e) => std::panic::resume_unwind(e),
    })
}
fn routes(cx: &mut Ctx, k: &dyn Kind, b: &[u8]) -> Res {
    if b.len() < 12 {
        return Ok(());
    }
    let kind = cx.rng.below(bufs::KINDS.len() as u64) as usize;
    let seed = cx.rng.next();
    let whole = outcome(k, b, false, kind, seed);
    let parts = outcome(k, b, true, kind, seed);
    cx.eval(Some(what(k, b)));
    cx.sample(|| format!("{} {} from {}", k.name(), hex(b, 100), bufs::KINDS[kind]));
    match (whole, parts) {
        (Ok(w), Ok(p)) => {
            cx.count(if w.0.is_ok() { "accepted" } else { "rejected" }, 1);
            same(k, "whole vs header first", &w, &p, b)
        }
        (Err(_), Err(_)) => {
            cx.count("panics on both routes (C05)", 1);
            Ok(())
        }
        (Err(p), Ok(_)) => Err(format!("{}# panics when whole, not header first: {}", k.name(), p.0)),
        (Ok(_), Err(p)) => Err(format!("{}# panics header first, not when whole: {}", k.name(), p.0)),
    }
}
fn c16_routes(cx: &mut Ctx) -> Res {
    let k = cx.kind(cx.idx);
    let k2 = cx.kind(cx.rng.clone().next());
    let b = match cx.rng.below(10) {
        0..=2 => hostile(cx, k),
        3 => {
            // another PDU's message
            let b = foreign(cx, k2);
            b
        }
        4 => {
            let mut b = foreign(cx, k);
            let n = cx.rng.below(b.len() as u64 + 1) as usize;
            b.truncate(n);
            b
        }
        5 => {
            let mut b = foreign(cx, k);
            let l = cx.rng.below(b.len() as u64 + 30) as usize;
            set_len(&mut b, l);
            b
        }
        _ => match message(cx, k) {
            Some(mut b) => {
                if cx.rng.chance(40) {
                    b.extend((0..cx.rng.below(50)).map(|_| cx.rng.next() as u8));
                }
                b
            }
            None => return Ok(()),
        },
    };
    routes(cx, k, &b)
}
fn c16_types(cx: &mut Ctx) -> Res {
    let k = cx.kind(cx.idx);
    let p = generate(cx, k, true);
    let b = ref_encode(k, &*p);
    if b.len() > MAX_PDU {
        return Ok(());
    }
    for t in 0..=255u8 {
        let mut b = b.clone();
        b[2] = t;
        routes(cx, k, &b)?;
    }
    Ok(())
}
