//! C23: copies and comparisons go by contents.
use super::ensure;
use crate::core::*;
use crate::engine::{hash, Ctx, OnPanic, Section};
use crate::golden::ENUMS;
use crate::model::sweep_values;
use open_dis_rust::common::data_types::grid_axis_descriptor::GridAxisType;
use open_dis_rust::common::data_types::grid_data_record::DataRepresentationType;
use open_dis_rust::common::enums::{DISLiveEntitySubprotocolNumber, PduType, ProtocolFamily, ProtocolVersion};
use open_dis_rust::common::pdu_header::PduStatusRecord;
use open_dis_rust::common::{GenericHeader, LiveEntityPduHeader, PduHeader};

const V: OnPanic = OnPanic::Violation;
type Res = Result<(), String>;
pub fn c23() -> Vec<Section> {
    vec![
        Section { name: "records", quick: 60_000, thorough: 4_000_000, on_panic: V, run: c23_records, rule: "a value of a random record, its clone, its twin, another value and itself: clones have the same contents, equality agrees with contents both ways; non-trivial: comparable" },
        Section { name: "neighbours", quick: 12_000, thorough: 120_000, on_panic: V, run: c23_neighbours, rule: "values of a record alike but for one choice, run through its values" },
        Section { name: "headers", quick: 60_000, thorough: 3_000_000, on_panic: V, run: c23_headers, rule: "both headers against one that differs in one or two fields, and the status records of all pairs of octets" },
        Section { name: "grids", quick: 40_000, thorough: 2_000_000, on_panic: V, run: c23_grids, rule: "the axis and sample data of environmental grids against themselves and against one altered in one place or of another kind" },
        Section { name: "enumerations", quick: ENUMS.len() as u64, thorough: ENUMS.len() as u64, on_panic: V, run: c23_enums, rule: "every pair of values of every enumeration" },
    ]
}
fn rec<'a>(cx: &Ctx<'a>) -> &'a dyn DynRec {
    let r = &cx.env.records;
    // the identifiers are what programs compare
    let ids = ["EntityId", "EntityType", "Vector3Float", "SimulationAddress"];
    if cx.idx % 4 == 0 {
        if let Some(x) = r.iter().find(|x| x.name() == ids[(cx.idx / 4 % 4) as usize]) {
            return &**x;
        }
    }
    &*r[(cx.idx % r.len() as u64) as usize]
}
fn trial(cx: &mut Ctx, r: &dyn DynRec, a: &mut G, b: &mut G) -> Res {
    let (h, can, same, e) = r.copy_trial(a, b);
    cx.eval(can.then(|| h ^ hash(r.name().as_bytes())));
    cx.count(if !can { "clones of records that do not compare" } else if same { "equal pairs" } else { "unequal or unordered pairs" }, 1);
    if can {
        cx.count(r.name(), 1);
    }
    cx.sample(|| format!("{} {}", r.name(), if !can { "cloned" } else if same { "cloned, compared with an equal one" } else { "cloned, compared with another" }));
    e.map_or(Ok(()), |e| Err(format!("{}# {e}", r.name())))
}
fn c23_records(cx: &mut Ctx) -> Res {
    let r = rec(cx);
    let (mut a, mut b) = (cx.gen(), cx.gen());
    // nor need values agree with themselves to be copied
    let odd = cx.rng.chance(50);
    for g in [&mut a, &mut b] {
        g.consistent = !odd;
        g.weird_text = odd;
    }
    trial(cx, r, &mut a, &mut b)
}
fn c23_neighbours(cx: &mut Ctx) -> Res {
    let r = rec(cx);
    let seed = cx.rng.next();
    let mode = *cx.rng.pick(&[Mode::Distinct, Mode::Mixed, Mode::Small, Mode::Zero, Mode::Uniform]);
    let odd = cx.rng.chance(50);
    let mk = |force| {
        let mut g = G::new(seed, mode, &cx.env.dict);
        g.budget = 12;
        g.consistent = !odd;
        g.force = force;
        g
    };
    let mut g = mk(None);
    g.trace = Some(vec![]);
    let mut other = mk(None);
    let _ = r.copy_trial(&mut g, &mut other);
    let draws = g.trace.unwrap();
    if draws.is_empty() {
        return Ok(());
    }
    let at = cx.rng.below(draws.len() as u64) as usize;
    for v in sweep_values(draws[at], cx) {
        let (mut a, mut b) = (mk(None), mk(Some((at, v))));
        trial(cx, r, &mut a, &mut b).map_err(|e| format!("{e} [choice {at} = {v}]"))?;
    }
    Ok(())
}
/// What a grid's data holds, floats and all, in numbers that compare as the fields do.
#[derive(Clone, Debug)]
struct Flat {
    kind: u8,
    ints: Vec<u16>,
    floats: Vec<f64>,
    lists: Vec<Vec<u16>>,
    reals: Vec<f32>,
}
impl Flat {
    fn same(&self, o: &Self) -> bool {
        self.kind == o.kind && self.ints == o.ints && self.lists == o.lists && self.floats.len() == o.floats.len() && self.reals.len() == o.reals.len() && self.floats.iter().zip(&o.floats).all(|(a, b)| a == b) && self.reals.iter().zip(&o.reals).all(|(a, b)| a == b)
    }
    /// one of its parts altered
    fn altered(&self, cx: &mut Ctx) -> Self {
        let mut f = self.clone();
        let parts = f.ints.len() + f.floats.len() + f.lists.len() + 1;
        let mut at = cx.rng.below(parts as u64) as usize;
        if at < f.ints.len() {
            f.ints[at] ^= 1 << cx.rng.below(16);
            return f;
        }
        at -= f.ints.len();
        if at < f.floats.len() {
            f.floats[at] = if cx.rng.chance(20) { -f.floats[at] } else { f64::from_bits(f.floats[at].to_bits() ^ 1 << cx.rng.below(64)) };
            return f;
        }
        at -= f.floats.len();
        if at < f.lists.len() {
            let narrow = (f.kind, at) != (1, 0) && (f.kind, at) != (3, 0);
            let l = &mut f.lists[at];
            match cx.rng.below(3) {
                0 => l.push(0),
                1 if l.len() > 0 => {
                    l.pop();
                }
                _ if l.len() > 0 => {
                    let i = cx.rng.below(l.len() as u64) as usize;
                    l[i] ^= 1 << cx.rng.below(if narrow { 8 } else { 16 });
                }
                _ => {}
            }
            return f;
        }
        let r = &mut f.reals;
        match cx.rng.below(3) {
            0 if f.kind == 4 => r.push(0.0),
            1 if r.len() > 0 => {
                r.pop();
            }
            _ if r.len() > 0 => {
                let i = cx.rng.below(r.len() as u64) as usize;
                r[i] = if cx.rng.chance(20) { -r[i] } else { f32::from_bits(r[i].to_bits() ^ 1 << cx.rng.below(32)) };
            }
            _ => {}
        }
        f
    }
    fn axis(&self) -> GridAxisType {
        let (number_of_points_on_x_axis, initial_index) = (self.ints[0], self.ints[1]);
        if self.kind == 0 {
            return GridAxisType::FixedSpacing { number_of_points_on_x_axis, initial_index };
        }
        GridAxisType::VariableSpacing { number_of_points_on_x_axis, initial_index, coordinate_scale_x: self.floats[0], coordinate_offset_x: self.floats[1], x_values: self.lists[0].clone(), padding: octets(&self.lists[1]) }
    }
    fn samples(&self) -> DataRepresentationType {
        match self.kind {
            2 => DataRepresentationType::Type0 { number_of_octets: self.ints[0], data_values: octets(&self.lists[0]), padding: octets(&self.lists[1]) },
            3 => DataRepresentationType::Type1 { field_scale: self.floats[0] as f32, field_offset: self.floats[1] as f32, number_of_values: self.ints[0], data_values: self.lists[0].clone(), padding: octets(&self.lists[1]) },
            _ => DataRepresentationType::Type2 { number_of_values: self.ints[0], padding: self.ints[1], data_values: self.reals.clone() },
        }
    }
}
fn octets(l: &[u16]) -> Vec<u8> {
    l.iter().map(|x| *x as u8).collect()
}
fn same_way<T: PartialEq>(a: &T, b: &T, want: bool, what: &str) -> Res {
    let (eq, ne) = lib(|| (a == b, a != b));
    ensure!(eq != ne && eq == want, "{what}# {} be equal, but == says {eq} and != says {ne}", if want { "must" } else { "must not" });
    Ok(())
}
fn c23_grids(cx: &mut Ctx) -> Res {
    let mut g = cx.gen();
    let kind = (cx.idx % 5) as u8;
    let list = |g: &mut G, wide: bool| -> Vec<u16> {
        let n = g.rng.below(4);
        (0..n).map(|_| if wide { Wire::gen(g) } else { <u8 as Wire>::gen(g).into() }).collect()
    };
    let ints = vec![Wire::gen(&mut g), Wire::gen(&mut g)];
    let lists = match kind {
        0 | 4 => vec![],
        k => vec![list(&mut g, k == 1 || k == 3), list(&mut g, false)],
    };
    let floats: Vec<f64> = match kind {
        1 => vec![Wire::gen(&mut g), Wire::gen(&mut g)],
        3 => vec![<f32 as Wire>::gen(&mut g).into(), <f32 as Wire>::gen(&mut g).into()],
        _ => vec![],
    };
    let reals = if kind == 4 { (0..g.rng.below(4)).map(|_| Wire::gen(&mut g)).collect() } else { vec![] };
    let ints = if kind == 2 || kind == 3 { ints[..1].to_vec() } else { ints };
    let a = Flat { kind, ints, floats, lists, reals };
    let mut b = match cx.rng.below(4) {
        0 => a.clone(),
        1 if kind < 2 => Flat { kind: 1 - kind, ints: a.ints.clone(), floats: vec![0.0; 2], lists: vec![vec![]; 2], reals: vec![] },
        1 => Flat { kind: 2 + (kind - 1) % 3, ints: [&a.ints[..], &[0]].concat(), floats: vec![0.0; 2], lists: vec![a.lists.first().cloned().unwrap_or_default(), vec![]], reals: vec![] },
        _ => a.altered(cx),
    };
    if b.kind != a.kind {
        // what the kind does not hold is not there
        if b.kind == 0 || b.kind == 4 {
            b.lists.clear();
            b.floats.clear();
        }
        if b.kind == 2 || b.kind == 3 {
            b.ints.truncate(1);
        }
    }
    if kind == 3 {
        b.floats.iter_mut().for_each(|x| *x = (*x as f32).into());
    }
    let want = a.same(&b);
    let h = hash(format!("{a:?}{b:?}").as_bytes());
    cx.eval(Some(h));
    cx.count(if want { "equal grids" } else { "unequal or unordered grids" }, 1);
    let own = a.same(&a);
    let what = format!("{a:?} and {b:?}");
    if kind < 2 {
        let (x, y, c) = (a.axis(), b.axis(), lib(|| a.axis().clone()));
        same_way(&x, &y, want, &what)?;
        same_way(&y, &x, want, &what)?;
        same_way(&x, &c, own, &format!("{a:?} and its clone"))?;
        same_way(&x, &x, own, &format!("{a:?} and itself"))
    } else {
        let (x, y, c) = (a.samples(), b.samples(), lib(|| a.samples().clone()));
        same_way(&x, &y, want, &what)?;
        same_way(&y, &x, want, &what)?;
        same_way(&x, &c, own, &format!("{a:?} and its clone"))?;
        same_way(&x, &x, own, &format!("{a:?} and itself"))
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
struct F(u8, u8, u8, u8, u32, u16, u8);
fn gen_f(g: &mut G) -> F {
    F(<ProtocolVersion as Wire>::gen(g) as u8, Wire::gen(g), <PduType as Wire>::gen(g) as u8, <ProtocolFamily as Wire>::gen(g) as u8, Wire::gen(g), Wire::gen(g), Wire::gen(g))
}
fn wide(f: F) -> PduHeader {
    let t = f.4.to_be_bytes();
    let l = f.5.to_be_bytes();
    let mut s = &[f.0, f.1, f.2, f.3, t[0], t[1], t[2], t[3], l[0], l[1], f.6, 0][..];
    lib(|| PduHeader::deserialize(&mut s))
}
fn live(f: F) -> LiveEntityPduHeader {
    let mut h = lib(|| LiveEntityPduHeader::new(enumer(f.2), enumer(f.3), f.1, f.5));
    h.protocol_version = enumer(f.0);
    h.timestamp = f.4;
    h.subprotocol_number = enumer::<DISLiveEntitySubprotocolNumber>(f.6);
    h
}
fn enumer<T: Wire>(c: u8) -> T {
    T::dec(&mut R::new(&[c])).ok().unwrap()
}
fn c23_headers(cx: &mut Ctx) -> Res {
    let mut g = cx.gen();
    let a = gen_f(&mut g);
    let other = gen_f(&mut g);
    let mut b = a;
    for _ in 0..g.rng.below(3) {
        match g.rng.below(9) {
            0 => b.0 = other.0,
            1 => b.1 = other.1,
            2 => b.2 = other.2,
            3 => b.3 = other.3,
            4 => b.4 = other.4,
            5 => b.4 ^= 1 << g.rng.below(32),
            6 => b.5 = other.5,
            7 => b.5 ^= 1 << g.rng.below(16),
            _ => b.6 ^= 1 << g.rng.below(8),
        }
    }
    let mut w = hash(&wide_bytes(a));
    w ^= hash(&wide_bytes(b)).rotate_left(1);
    cx.eval(Some(w));
    cx.count(if a == b { "equal headers" } else { "unequal headers" }, 1);
    let (x, y) = (wide(a), wide(b));
    ensure!((x == y) == (a == b) && (x != y) == (a != b), "headers {x:?} and {y:?}: == says {}, != says {}", x == y, x != y);
    #[allow(clippy::clone_on_copy)]
    let c = x.clone();
    let (o, p) = (RefHeader::read(&wide_bytes(a)).unwrap(), c);
    if let Some(d) = o.diff(&p) {
        return Err(format!("the clone of header {x:?} differs: {d}"));
    }
    let (x, y) = (live(a), live(b));
    let same = (a.0, a.1, a.2, a.3, a.4, a.5) == (b.0, b.1, b.2, b.3, b.4, b.5) && enumer::<DISLiveEntitySubprotocolNumber>(a.6) == enumer(b.6);
    ensure!((x == y) == same && (x != y) != same, "live entity headers {x:?} and {y:?}: == says {}, != says {}", x == y, x != y);
    let (s, t) = (a.6, if g.rng.chance(30) { a.6 } else { other.6 });
    for (s, t) in [(s, t), (s, b.6), ((cx.idx >> 8) as u8, cx.idx as u8)] {
        let (u, v) = lib(|| (PduStatusRecord::from_u8(s), PduStatusRecord::from_u8(t)));
        ensure!((u == v) == (s == t) && (u != v) == (s != t), "status octets {s:#010b} and {t:#010b}: == says {}, != says {}", u == v, u != v);
    }
    Ok(())
}
fn wide_bytes(f: F) -> [u8; 12] {
    let t = f.4.to_be_bytes();
    let l = f.5.to_be_bytes();
    [f.0, f.1, f.2, f.3, t[0], t[1], t[2], t[3], l[0], l[1], f.6, 0]
}
fn c23_enums(cx: &mut Ctx) -> Res {
    let e = &ENUMS[cx.idx as usize % ENUMS.len()];
    let (n, r) = lib(e.pairs);
    cx.eval((n > 1).then(|| hash(e.name.as_bytes())));
    cx.count("pairs of enumerators", n);
    r.map_or(Ok(()), |m| Err(format!("{}# {m}", e.name)))
}
