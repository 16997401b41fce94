//! C13: records by themselves.
use super::ensure;
use crate::bufs;
use crate::core::*;
use crate::engine::{Ctx, OnPanic, Section};
use crate::model::sweep_values;
use bytes::{Buf, BytesMut};
use open_dis_rust::common::data_types::antenna_pattern::AntennaPattern;
use open_dis_rust::common::data_types::modulation_parameters::ModulationParameters;
use open_dis_rust::pdu_macro::{FieldDeserializeWithLen, FieldLen, FieldSerialize};

const V: OnPanic = OnPanic::Violation;
type Res = Result<(), String>;

pub fn c13() -> Vec<Section> {
    vec![
        Section { name: "values", quick: 150_000, thorough: 8_000_000, on_panic: V, run: c13_values, rule: "random self-consistent values of a random record: inherent and field encodings equal the reference's, lengths agree, decoding alone and with octets behind gives the value back and consumes what was written; non-trivial: not all zero" },
        Section { name: "sweep", quick: 12_000, thorough: 60_000, on_panic: V, run: c13_sweep, rule: "one choice of a fixed record run through its values" },
        Section { name: "fixed", quick: 40_000, thorough: 1_000_000, on_panic: V, run: c13_fixed, rule: "fixed-size records with any contents, over-long and non-ASCII texts included" },
        Section { name: "any", quick: 60_000, thorough: 4_000_000, on_panic: V, run: c13_any, rule: "values of any contents, with counts and lengths that are wrong: inherent and field encodings equal the reference's, lengths agree" },
        Section { name: "foreign", quick: 60_000, thorough: 4_000_000, on_panic: V, run: c13_foreign, rule: "reference-encoded records with every octet outside counts free to change: inherent and field decodings equal the reference's and consume the same" },
        Section { name: "blobs", quick: 10_000, thorough: 300_000, on_panic: V, run: c13_blobs, rule: "modulation parameters and antenna patterns of every length" },
        Section { name: "findings", quick: 1, thorough: 1, on_panic: V, run: c13_findings, rule: "the inputs of the known findings" },
    ]
}
fn rec<'a>(cx: &Ctx<'a>, i: u64) -> &'a dyn DynRec {
    let r = &cx.env.records;
    &*r[(i % r.len() as u64) as usize]
}
fn trial(cx: &mut Ctx, r: &dyn DynRec, g: &mut G) -> Res {
    let mut extra = Rng::new(cx.rng.next());
    let (b, e) = r.trial(g, &mut extra);
    cx.eval(b.iter().any(|x| *x != 0).then(|| crate::engine::hash(&b) ^ crate::engine::hash(r.name().as_bytes())));
    cx.sample(|| format!("{} {}", r.name(), hex(&b, 100)));
    match e {
        None => Ok(()),
        Some(e) => Err(format!("{}# {e}; {}", r.name(), hex(&b, 200))),
    }
}
fn c13_values(cx: &mut Ctx) -> Res {
    let r = rec(cx, cx.idx);
    let mut g = cx.gen();
    if g.rng.chance(5) {
        g.big_lists = true;
        g.budget = 1500;
    }
    trial(cx, r, &mut g)
}
fn c13_sweep(cx: &mut Ctx) -> Res {
    let n = cx.env.records.len() as u64;
    let r = rec(cx, cx.idx);
    let round = cx.idx / n;
    let lap = round / 40;
    let seed = mix(cx.env.seed ^ crate::engine::hash(r.name().as_bytes()) ^ mix(lap));
    let mode = [Mode::Distinct, Mode::Mixed, Mode::Small, Mode::Zero, Mode::Uniform][lap as usize % 5];
    let mk = |force| {
        let mut g = G::new(seed, mode, &cx.env.dict);
        g.budget = 12;
        g.force = force;
        g
    };
    let mut g = mk(None);
    g.trace = Some(vec![]);
    let mut extra = Rng::new(seed);
    let _ = r.trial(&mut g, &mut extra);
    let draws = g.trace.unwrap();
    let mut at = (round % 40) as usize;
    while at < draws.len() {
        for v in sweep_values(draws[at], cx) {
            let mut g = mk(Some((at, v)));
            trial(cx, r, &mut g).map_err(|e| format!("{e} [choice {at} = {v}]"))?;
        }
        at += 40;
    }
    Ok(())
}
fn c13_fixed(cx: &mut Ctx) -> Res {
    let fixed: Vec<&dyn DynRec> = cx.env.records.iter().map(|r| &**r).filter(|r| r.fixed().is_some()).collect();
    // texts are where sizes go wrong
    let r = if cx.rng.chance(20) { *fixed.iter().find(|r| r.name() == "EntityMarking").unwrap_or(&fixed[0]) } else { fixed[(cx.idx % fixed.len() as u64) as usize] };
    let mut g = cx.gen();
    g.consistent = false;
    g.weird_text = true;
    let id = g.rng.0[0];
    cx.eval(Some(id ^ crate::engine::hash(r.name().as_bytes())));
    match r.size_trial(&mut g) {
        None => Ok(()),
        Some(e) => Err(format!("{}# {e}", r.name())),
    }
}
fn c13_any(cx: &mut Ctx) -> Res {
    let r = rec(cx, cx.idx);
    let mut g = cx.gen();
    g.consistent = false;
    g.weird_text = g.rng.chance(50);
    let (b, e) = r.any_trial(&mut g);
    cx.eval(b.iter().any(|x| *x != 0).then(|| crate::engine::hash(&b) ^ crate::engine::hash(r.name().as_bytes())));
    e.map_or(Ok(()), |e| Err(format!("{}# {e}; {}", r.name(), hex(&b, 200))))
}
fn c13_foreign(cx: &mut Ctx) -> Res {
    let r = rec(cx, cx.idx);
    let mut g = cx.gen();
    let mut extra = Rng::new(cx.rng.next());
    let (b, judged, e) = r.foreign_trial(&mut g, &mut extra);
    cx.eval((judged && b.iter().any(|x| *x != 0)).then(|| crate::engine::hash(&b) ^ crate::engine::hash(r.name().as_bytes())));
    e.map_or(Ok(()), |e| Err(format!("{}# {e}; {}", r.name(), hex(&b, 200))))
}
fn blob<T: Blob + FieldSerialize + FieldLen + FieldDeserializeWithLen>(cx: &mut Ctx, n: usize) -> Res {
    let mut g = cx.gen();
    let b = g.bytes(n);
    let name = T::NAME;
    cx.eval(Some(crate::engine::hash(&b) ^ crate::engine::hash(name.as_bytes())));
    let tail: Vec<u8> = (0..cx.rng.below(30)).map(|_| cx.rng.next() as u8).collect();
    let mut src = b.clone();
    src.extend_from_slice(&tail);
    let kind = cx.rng.below(bufs::KINDS.len() as u64) as usize;
    let mut r = Rng::new(cx.rng.next());
    let (v, left) = bufs::with_kind(kind, &src, &mut r, |mut s| lib(|| T::deserialize_with_len(&mut s, n)));
    ensure!(left == tail.len(), "{name}# of {n} octets, decoded from {}, leaves {left} octets instead of {}", bufs::KINDS[kind], tail.len());
    for v in [Some(v), lib(|| T::make_raw(&b))] {
        let Some(v) = v else {
            ensure!(n == 0, "{name}# of {n} octets is refused");
            continue;
        };
        let mut out = BytesMut::new();
        lib(|| v.ser(&mut out));
        ensure!(out[..] == b[..], "{name}# of octets {} encodes as {}", hex(&b, 60), hex(&out, 60));
        let mut out = BytesMut::new();
        lib(|| v.serialize_field(&mut out));
        ensure!(out[..] == b[..], "{name}# as a field, of octets {} encodes as {}", hex(&b, 60), hex(&out, 60));
        let l = lib(|| v.flen());
        ensure!(l == n && lib(|| v.field_len()) == n, "{name}# of {n} octets reports length {l}");
    }
    Ok(())
}
fn c13_blobs(cx: &mut Ctx) -> Res {
    let n = (cx.idx / 2) as usize % 256;
    if cx.idx % 2 == 0 {
        blob::<ModulationParameters>(cx, n)
    } else {
        let n = if cx.rng.chance(20) { cx.rng.below(9000) as usize } else { n };
        blob::<AntennaPattern>(cx, n)
    }
}
fn c13_findings(cx: &mut Ctx) -> Res {
    use open_dis_rust::common::data_types::grid_data_record::{DataRepresentationType, GridDataRecord};
    use open_dis_rust::common::enums::{GriddedDataDataRepresentation, GriddedDataSampleType};
    let types = [
        ("0", GriddedDataDataRepresentation::Type0, DataRepresentationType::Type0 { number_of_octets: 2, data_values: vec![7, 8], padding: vec![] }),
        ("1", GriddedDataDataRepresentation::Type1, DataRepresentationType::Type1 { field_scale: 1.0, field_offset: 0.0, number_of_values: 1, data_values: vec![9], padding: vec![] }),
    ];
    for (n, rep, data) in types {
        let r = GridDataRecord::new(GriddedDataSampleType::default(), rep, data);
        let mut b = BytesMut::new();
        lib(|| r.serialize(&mut b));
        b.extend_from_slice(&[1, 2, 3, 4]);
        let mut s = &b[..];
        let d = lib(|| GridDataRecord::deserialize(&mut s));
        cx.eval(Some(crate::engine::hash(n.as_bytes())));
        if d.data != r.data || s.remaining() != 4 {
            cx.obs.known.push(format!("property=C13 a GridDataRecord of type {n} with octets behind it takes them for padding"));
        }
    }
    Ok(())
}
