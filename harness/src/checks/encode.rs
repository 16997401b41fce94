//! C01 layout, C02 round trip, C03 lengths, C04 the size limit.
use super::ensure;
use crate::core::*;
use crate::engine::{Ctx, OnPanic, Section};
use crate::model::*;
use bytes::BytesMut;

const V: OnPanic = OnPanic::Violation;
type Res = Result<(), String>;

pub fn first_difference(a: &[u8], b: &[u8]) -> String {
    let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    let w = |s: &[u8]| hex(&s[i.saturating_sub(4).min(s.len())..(i + 12).min(s.len())], 32);
    format!("at octet {i}: {} instead of {} ({} octets instead of {})", w(a), w(b), a.len(), b.len())
}

// ------------------------------------------------------------------ C01
pub fn c01() -> Vec<Section> {
    vec![
        Section { name: "contents", quick: 90_000, thorough: 6_000_000, on_panic: V, run: c01_contents, rule: "random contents of a random PDU type (9 value distributions, counts right or wrong), output compared with the reference encoder octet by octet; non-trivial: body has a non-zero octet" },
        Section { name: "sweep", quick: 9_000, thorough: 30_000, on_panic: V, run: c01_sweep, rule: "one choice (field value, enumerator, list length, presence, text) of a fixed PDU run through all 8-bit values, enumerators, lengths, or boundary, dictionary and random wider values" },
        Section { name: "sized", quick: 6_000, thorough: 300_000, on_panic: V, run: c01_sized, rule: "PDUs grown by one list to target sizes up to 8192 octets" },
    ]
}
fn layout(cx: &mut Ctx, k: &dyn Kind, p: &mut dyn Dyn) -> Res {
    let w = ref_encode_spans(k, p, false);
    if w.b.len() > MAX_PDU || w.vague {
        return Ok(());
    }
    let got = ser(p);
    let nontrivial = w.b[12..].iter().any(|x| *x != 0) || w.b.len() == 12;
    cx.eval(nontrivial.then(|| what(k, &w.b)));
    cx.sample(|| format!("{} -> {}", k.name(), hex(&w.b, 150)));
    match got {
        Err(e) => Err(format!("{} of {} octets is refused: {e}", k.name(), w.b.len())),
        Ok(b) if b == w.b => Ok(()),
        Ok(b) => Err(format!("{}# layout differs {}; {}", k.name(), first_difference(&b, &w.b), p.debug())),
    }
}
fn c01_contents(cx: &mut Ctx) -> Res {
    let k = cx.kind(cx.idx);
    let consistent = cx.rng.chance(50);
    let mut p = generate(cx, k, consistent);
    let mut g = cx.gen();
    stale_header(p.header_mut(), &mut g);
    layout(cx, k, &mut *p)
}
fn c01_sweep(cx: &mut Ctx) -> Res {
    let n = cx.env.kinds.len() as u64;
    let k = cx.kind(cx.idx);
    let consistent = cx.idx / n % 2 == 0;
    let Some(s) = Sweep::pick(cx, k, cx.idx / n / 2, consistent) else { return Ok(()) };
    for v in &s.values {
        let mut p = s.make(cx, k, *v);
        layout(cx, k, &mut *p).map_err(|e| format!("{e} [choice {} = {v}]", s.at))?;
    }
    Ok(())
}
fn c01_sized(cx: &mut Ctx) -> Res {
    let k = cx.kind(cx.idx);
    let consistent = cx.rng.chance(50);
    let Some(s) = Sized_::pick(cx, k, !consistent, consistent) else { return Ok(()) };
    let t = target_size(cx);
    let mut p = s.make(cx, k, s.count_for(t));
    layout(cx, k, &mut *p)
}

// ------------------------------------------------------------------ C02
pub fn c02() -> Vec<Section> {
    vec![
        Section { name: "roundtrip", quick: 90_000, thorough: 5_000_000, on_panic: V, run: c02_roundtrip, rule: "random self-consistent contents, encoded, decoded, compared field by field (floats by bits), encoded again; non-trivial: body has a non-zero octet" },
        Section { name: "sweep", quick: 6_000, thorough: 20_000, on_panic: V, run: c02_sweep, rule: "one choice of a fixed self-consistent PDU run through its values" },
        Section { name: "sized", quick: 6_000, thorough: 300_000, on_panic: V, run: c02_sized, rule: "self-consistent PDUs grown by one list to target sizes up to 8192 octets" },
        Section { name: "findings", quick: 1, thorough: 1, on_panic: V, run: c02_findings, rule: "the inputs of the known findings" },
    ]
}
fn roundtrip(cx: &mut Ctx, k: &dyn Kind, p: &mut dyn Dyn) -> Res {
    let model = ref_encode(k, p);
    if model.len() > MAX_PDU {
        return Ok(());
    }
    // what the wire form of this PDU cannot carry is in known-findings
    if matches!(ref_decode(k, &model), Ref::Open) {
        cx.count("left out: grid data of types 0 and 1 before other records (known finding)", 1);
        return Ok(());
    }
    let before = p.header();
    let b = ser(p).map_err(|e| format!("{}# of {} octets is refused: {e}", k.name(), model.len()))?;
    let nontrivial = b.iter().skip(12).any(|x| *x != 0) || b.len() == 12;
    cx.eval(nontrivial.then(|| what(k, &b)));
    cx.sample(|| format!("{} <-> {}", k.name(), hex(&b, 150)));
    let (d, _) = de(k, &b);
    let mut d = d.map_err(|e| format!("{}# its own encoding is rejected: {e}; {}", k.name(), hex(&b, 300)))?;
    if let Some(e) = p.diff(&*d) {
        return Err(format!("{}# {e} after a round trip; {}", k.name(), hex(&b, 300)));
    }
    let h = d.header();
    if p.header() != h {
        return Err(format!("{}# header {:?} comes back as {h:?}", k.name(), p.header()));
    }
    ensure!(before.protocol_version == h.protocol_version && before.exercise_id == h.exercise_id && before.timestamp == h.timestamp && before.status_record == h.status_record, "{}# header {before:?} comes back as {h:?}", k.name());
    let again = ser(&mut *d).map_err(|e| format!("{}# decoded, it is refused: {e}", k.name()))?;
    ensure!(again == b, "{}# encoded again: {}", k.name(), first_difference(&again, &b));
    Ok(())
}
fn c02_roundtrip(cx: &mut Ctx) -> Res {
    let k = cx.kind(cx.idx);
    let mut p = generate(cx, k, true);
    roundtrip(cx, k, &mut *p)
}
fn c02_sweep(cx: &mut Ctx) -> Res {
    let n = cx.env.kinds.len() as u64;
    let k = cx.kind(cx.idx);
    let Some(s) = Sweep::pick(cx, k, cx.idx / n, true) else { return Ok(()) };
    for v in &s.values {
        let mut p = s.make(cx, k, *v);
        roundtrip(cx, k, &mut *p).map_err(|e| format!("{e} [choice {} = {v}]", s.at))?;
    }
    Ok(())
}
fn c02_sized(cx: &mut Ctx) -> Res {
    let k = cx.kind(cx.idx);
    let Some(s) = Sized_::pick(cx, k, false, true) else { return Ok(()) };
    let t = target_size(cx);
    let mut p = s.make(cx, k, s.count_for(t));
    roundtrip(cx, k, &mut *p)
}
fn c02_findings(cx: &mut Ctx) -> Res {
    use open_dis_rust::common::data_types::grid_data_record::{DataRepresentationType, GridDataRecord};
    use open_dis_rust::common::enums::{GriddedDataDataRepresentation, GriddedDataSampleType};
    use open_dis_rust::common::Pdu;
    cx.eval(Some(1));
    let mut m = open_dis_rust::minefield::MinefieldDataPdu::new();
    m.number_of_mines_in_this_pdu = 1;
    m.mine_location = vec![Default::default()];
    m.ground_burial_depth_offset = vec![Some(1.5)];
    let mut b = BytesMut::new();
    lib(|| m.serialize(&mut b)).map_err(|e| e.to_string())?;
    let d = lib(|| open_dis_rust::minefield::MinefieldDataPdu::deserialize(&mut &b[..])).map_err(|e| e.to_string())?;
    if d.ground_burial_depth_offset != m.ground_burial_depth_offset {
        cx.obs.known.push("property=C02 MinefieldDataPdu with one mine and ground_burial_depth_offset [Some(1.5)] decodes with the list empty".into());
    }
    cx.eval(Some(2));
    let rec = |n: u8| GridDataRecord::new(GriddedDataSampleType::default(), GriddedDataDataRepresentation::Type0, DataRepresentationType::Type0 { number_of_octets: 2, data_values: vec![n, n], padding: vec![] });
    let mut g = open_dis_rust::synthetic_environment::GriddedDataPdu::new();
    g.vector_dimension = 2;
    g.grid_data_list = vec![rec(1), rec(2)];
    let mut b = BytesMut::new();
    lib(|| g.serialize(&mut b)).map_err(|e| e.to_string())?;
    let same = match lib(|| open_dis_rust::synthetic_environment::GriddedDataPdu::deserialize(&mut &b[..])) {
        Ok(d) => d.grid_data_list.len() == 2 && d.grid_data_list.iter().zip(&g.grid_data_list).all(|(a, b)| a.data == b.data),
        Err(_) => false,
    };
    if !same {
        cx.obs.known.push("property=C02 GriddedDataPdu with two grid data records of type 0 does not decode to both: the first takes the octets of the second for padding".into());
    }
    Ok(())
}

// ------------------------------------------------------------------ C03
pub fn c03() -> Vec<Section> {
    vec![
        Section { name: "history", quick: 40_000, thorough: 3_000_000, on_panic: V, run: c03_history, rule: "random sequences of field edits, list edits, header edits, finalizations and serializations, the four lengths compared with the model's after each; non-trivial: the body is not all zero" },
        Section { name: "new", quick: 264, thorough: 2_000, on_panic: V, run: c03_new, rule: "each PDU type as constructed" },
        Section { name: "sweep", quick: 6_000, thorough: 20_000, on_panic: V, run: c03_sweep, rule: "one choice of a fixed PDU run through its values" },
        Section { name: "sized", quick: 8_000, thorough: 300_000, on_panic: V, run: c03_sized, rule: "PDUs grown by one list to target sizes up to 8192 octets, counts right or wrong" },
    ]
}
/// the lengths of p as it stands
fn lengths(cx: &mut Ctx, k: &dyn Kind, p: &mut dyn Dyn, finalize: bool, serialize: bool, doing: &str) -> Res {
    let model = ref_encode(k, p);
    let n = model.len();
    if n > MAX_PDU {
        cx.count("over the limit (C04)", 1);
        return Ok(());
    }
    cx.eval(model[12..].iter().any(|x| *x != 0).then(|| what(k, &model) ^ u64::from(finalize) ^ u64::from(serialize) << 1));
    let l = lib(|| p.lib_length()).map_err(|e| format!("{}# length refused after {doing}: {e}", k.name()))?;
    ensure!(usize::from(l) == n, "{}# computes length {l} after {doing}, its fields take {n} octets; {}", k.name(), p.debug());
    if finalize {
        lib(|| p.lib_finalize());
        let h = p.header().length;
        ensure!(usize::from(h) == n, "{}# finalized with length {h} after {doing}, its fields take {n} octets", k.name());
    }
    if serialize {
        let mut b = BytesMut::from(&b"prefix"[..]);
        lib(|| p.lib_serialize(&mut b)).map_err(|e| format!("{}# refused after {doing}: {e}", k.name()))?;
        let added = b.len() - 6;
        let said = u16::from_be_bytes([b[14], b[15]]);
        let h = p.header().length;
        ensure!(added == n && usize::from(said) == n && usize::from(h) == n, "{}# after {doing} appends {added} octets, declares {said}, header says {h}, fields take {n}; {}", k.name(), p.debug());
        let l = lib(|| p.lib_length()).map_err(|e| format!("{}# length refused after serialization: {e}", k.name()))?;
        ensure!(usize::from(l) == n, "{}# computes length {l} after serialization, {n} before", k.name());
    }
    Ok(())
}
fn c03_history(cx: &mut Ctx) -> Res {
    let k = cx.kind(cx.idx);
    let mut p = if cx.rng.chance(30) { lib(|| k.create()) } else { generate(cx, k, false) };
    lengths(cx, k, &mut *p, false, false, "construction")?;
    let steps = 2 + cx.rng.below(9);
    for _ in 0..steps {
        let op = cx.rng.below(8);
        let mut g = cx.gen();
        g.consistent = g.rng.chance(30);
        g.budget = 60;
        let n = k.fields().len() as u64;
        let mut doing = "edits";
        match op {
            0..=2 if n > 0 => {
                for _ in 0..1 + cx.rng.below(3) {
                    p.set_field(cx.rng.below(n) as usize, &mut g);
                }
            }
            3 if !k.lists().is_empty() => {
                let f = *cx.rng.pick(k.lists());
                p.set_field(f, &mut g);
                doing = "a list edit";
            }
            4 => {
                p.trim_lists(cx.rng.below(4) as usize);
                doing = "trimming lists";
            }
            5 => {
                stale_header(p.header_mut(), &mut g);
                doing = "a header edit";
            }
            6 => {
                p.fix_counts();
                doing = "setting counts";
            }
            _ => {
                p = p.dup();
                doing = "copying";
            }
        }
        let (f, s) = (cx.rng.chance(40), cx.rng.chance(45));
        lengths(cx, k, &mut *p, f, s, doing)?;
    }
    lengths(cx, k, &mut *p, true, true, "a history")
}
fn c03_new(cx: &mut Ctx) -> Res {
    let k = cx.kind(cx.idx);
    let mut p = lib(|| k.create());
    let n = ref_encode(k, &*p).len();
    cx.eval(Some(cx.idx));
    let h = p.header().length;
    ensure!(usize::from(h) == n, "{}# constructed with length {h} in its header, takes {n} octets", k.name());
    lengths(cx, k, &mut *p, true, true, "construction")?;
    let mut p = lib(|| k.default_pdu());
    lengths(cx, k, &mut *p, true, true, "default construction")
}
fn c03_sweep(cx: &mut Ctx) -> Res {
    let n = cx.env.kinds.len() as u64;
    let k = cx.kind(cx.idx);
    let Some(s) = Sweep::pick(cx, k, cx.idx / n / 2, cx.idx / n % 2 == 0) else { return Ok(()) };
    for v in &s.values {
        let mut p = s.make(cx, k, *v);
        lengths(cx, k, &mut *p, true, true, "edits").map_err(|e| format!("{e} [choice {} = {v}]", s.at))?;
    }
    Ok(())
}
fn c03_sized(cx: &mut Ctx) -> Res {
    let k = cx.kind(cx.idx);
    let over = cx.rng.chance(50);
    let Some(s) = Sized_::pick(cx, k, over, !over) else { return Ok(()) };
    let t = target_size(cx);
    let mut p = s.make(cx, k, s.count_for(t));
    lengths(cx, k, &mut *p, true, true, "growing a list")
}

// ------------------------------------------------------------------ C04
pub fn c04() -> Vec<Section> {
    vec![
        Section { name: "limit", quick: 12_000, thorough: 400_000, on_panic: V, run: c04_limit, rule: "PDUs grown by one list to the element before and after each of 8192, 16384, 65535, 65536, 73728, 131072 octets (and sizes that wrap a 16-bit length into the valid range); non-trivial: within 64 octets of 8192, or over it" },
        Section { name: "mixed", quick: 12_000, thorough: 400_000, on_panic: V, run: c04_mixed, rule: "PDUs with several long lists at once" },
        Section { name: "under", quick: 12_000, thorough: 400_000, on_panic: V, run: c04_under, rule: "PDUs of sizes up to the limit: accepted" },
    ]
}
fn limit(cx: &mut Ctx, k: &dyn Kind, p: &mut dyn Dyn) -> Res {
    let n = ref_encode(k, p).len();
    let interesting = n > MAX_PDU - 64;
    {
        use open_dis_rust::common::constants::*;
        let (fits, whole) = lib(|| (validate_pdu_size(n), total_pdu_size(n - 12)));
        ensure!(fits == (n <= MAX_PDU) && whole == n, "a size of {n} octets is said to be valid: {fits}; a body of {} to make {whole}", n - 12);
    }
    let id = p.header().timestamp;
    cx.eval(interesting.then(|| mix(n as u64 ^ crate::engine::hash(k.name().as_bytes()) ^ u64::from(id) << 20)));
    cx.sample(|| format!("{} of {n} octets", k.name()));
    // an output buffer with something in it
    let mut pre: Vec<u8> = (0..cx.rng.below(40)).map(|_| cx.rng.next() as u8).collect();
    if cx.rng.chance(5) {
        // a stream or a log rather than a datagram
        let n = *cx.rng.pick(&[1_000usize, 8_160, 8_192, 16_384, 32_768, 57_344, 65_500, 65_536, 131_072, 300_000]) + cx.rng.below(40) as usize;
        pre.resize(n, cx.idx as u8);
        cx.count("behind a long stretch of other output", 1);
    }
    let mut b = if cx.rng.chance(50) { BytesMut::with_capacity(*cx.rng.pick(&[0, 16, 8192, 20_000])) } else { BytesMut::new() };
    b.extend_from_slice(&pre);
    let len = lib(|| p.lib_length());
    let out = lib(|| p.lib_serialize(&mut b));
    if n <= MAX_PDU {
        cx.count(if n == MAX_PDU { "accepted at exactly 8192 octets" } else { "accepted under 8192 octets" }, 1);
        len.map_err(|e| format!("{}# length of {n} octets refused: {e}", k.name()))?;
        out.map_err(|e| format!("{}# of {n} octets refused: {e}", k.name()))?;
        return Ok(());
    }
    cx.count("refused over 8192 octets", 1);
    ensure!(out.is_err(), "{}# of {n} octets is serialized", k.name());
    if let Ok(l) = len {
        return Err(format!("{}# of {n} octets computes length {l}", k.name()));
    }
    ensure!(b[..] == pre[..], "{}# of {n} octets refused, but the output buffer changed from {} to {} octets", k.name(), pre.len(), b.len());
    let out = lib(|| p.lib_serialize(&mut b));
    ensure!(out.is_err() && b[..] == pre[..], "{}# of {n} octets is not refused again", k.name());
    if cx.rng.chance(30) {
        lib(|| p.lib_finalize());
    }
    // shrink it
    p.trim_lists(cx.rng.below(3) as usize);
    let m = ref_encode_spans(k, p, false);
    if m.b.len() <= MAX_PDU {
        // one that has the same contents and was never refused
        let mut twin = p.dup();
        let t = ser(&mut *twin).map_err(|e| format!("{}# of {} octets refused: {e}", k.name(), m.b.len()))?;
        lib(|| p.lib_serialize(&mut b)).map_err(|e| format!("{}# refused at {n} octets, then at {} too: {e}", k.name(), m.b.len()))?;
        ensure!(b[..pre.len()] == pre[..] && b[pre.len()..] == t[..], "{}# after being refused: {}", k.name(), first_difference(&b[pre.len()..], &t));
        cx.count("shrunk and accepted", 1);
    }
    Ok(())
}
fn c04_limit(cx: &mut Ctx) -> Res {
    let lists: Vec<usize> = cx.env.kinds.iter().enumerate().filter(|(_, k)| !k.lists().is_empty()).map(|x| x.0).collect();
    let k: &dyn Kind = &*cx.env.kinds[lists[(cx.idx % lists.len() as u64) as usize]];
    let Some(s) = Sized_::pick(cx, k, true, false) else { return Ok(()) };
    let far = cx.rng.chance(25);
    let t = if far { *cx.rng.pick(&[16384, 65535, 65536, 65536 + 100, 65536 + 4096, 65536 + 8192, 65536 + 9000, 131_072, 131_072 + 200]) } else { 8192 };
    let c = s.count_for(t);
    for n in [c.saturating_sub(1), c, c + 1, c + 2] {
        let mut p = s.make(cx, k, n);
        limit(cx, k, &mut *p)?;
    }
    Ok(())
}
fn c04_mixed(cx: &mut Ctx) -> Res {
    let k = cx.kind(cx.idx);
    if k.lists().is_empty() {
        return Ok(());
    }
    let mut g = cx.gen();
    g.consistent = false;
    g.over = true;
    g.big_lists = true;
    g.budget = 100 + g.rng.below(2500);
    let mut p = gen_pdu(k, &mut g);
    limit(cx, k, &mut *p)
}
fn c04_under(cx: &mut Ctx) -> Res {
    let k = cx.kind(cx.idx);
    let over = cx.rng.chance(50);
    let Some(s) = Sized_::pick(cx, k, over, false) else { return Ok(()) };
    let t = if cx.rng.chance(50) { target_size(cx) } else { cx.rng.below(8193) as usize };
    let mut p = s.make(cx, k, s.count_for(t));
    limit(cx, k, &mut *p)
}
