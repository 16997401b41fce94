//! What a decoder must make of a sequence of octets, and helpers shared by the checks.
use crate::core::*;
use crate::engine::{hash, Ctx};
use bytes::BytesMut;
use open_dis_rust::common::PduHeader;

pub const MAX_PDU: usize = 8192;

pub enum Ref {
    /// (contents, header, octets used, some value's meaning is left open)
    Accept(Box<dyn Dyn>, RefHeader, usize, bool),
    Reject(&'static str),
    Open,
}
/// Decode by the book.
pub fn ref_decode(k: &dyn Kind, b: &[u8]) -> Ref {
    let Some(h) = RefHeader::read(b) else { return Ref::Reject("fewer octets than a header") };
    if h.ty != k.ty().1 {
        return Ref::Reject("the type of another PDU");
    }
    if usize::from(h.length) < 12 {
        return Ref::Reject("a declared length shorter than the header");
    }
    if usize::from(h.length) > b.len() {
        return Ref::Reject("fewer octets than declared");
    }
    let mut r = R::new(&b[12..h.length.into()]);
    match k.ref_body(&mut r) {
        _ if r.open => Ref::Open,
        Ok(p) => Ref::Accept(p, h, h.length.into(), r.vague),
        Err(Short) => Ref::Reject("fields or list elements that reach beyond the declared length"),
    }
}
/// Must a decoder accept this (None: left open)?
pub fn must_accept(k: &dyn Kind, b: &[u8]) -> Option<bool> {
    match ref_decode(k, b) {
        Ref::Accept(..) => Some(true),
        Ref::Reject(_) => Some(false),
        Ref::Open => None,
    }
}
pub fn ser(p: &mut dyn Dyn) -> Result<Vec<u8>, String> {
    let mut b = BytesMut::new();
    match lib(|| p.lib_serialize(&mut b)) {
        Ok(()) => Ok(b.to_vec()),
        Err(e) => Err(format!("{e}")),
    }
}
/// Decode from a plain slice; what came of it and how many octets are left.
pub fn de(k: &dyn Kind, b: &[u8]) -> (Result<Box<dyn Dyn>, String>, usize) {
    let mut s = b;
    let r = lib(|| k.lib_decode_slice(&mut s));
    (r.map_err(|e| format!("{e}")), s.len())
}
pub fn de_body(k: &dyn Kind, h: PduHeader, b: &[u8]) -> (Result<Box<dyn Dyn>, String>, usize) {
    let mut s = b;
    let r = lib(|| k.lib_decode_body(&mut s, h));
    (r.map_err(|e| format!("{e}")), s.len())
}
/// A header with these octets' values, by field assignment.
pub fn header_of(b: &[u8]) -> PduHeader {
    use open_dis_rust::common::GenericHeader;
    let mut s = &b[..12];
    lib(|| PduHeader::deserialize(&mut s))
}
pub fn what(k: &dyn Kind, b: &[u8]) -> u64 {
    hash(b) ^ hash(k.name().as_bytes())
}
/// A PDU with generated contents and its encoding by the model.
pub fn generate(cx: &mut Ctx, k: &dyn Kind, consistent: bool) -> Box<dyn Dyn> {
    let mut g = cx.gen();
    g.consistent = consistent;
    g.weird_text = !consistent && g.rng.chance(50);
    match g.rng.below(100) {
        0..=5 => {
            g.big_lists = true;
            g.budget = 700;
        }
        6..=20 => g.list_cap = Some(3),
        _ => {}
    }
    gen_pdu(k, &mut g)
}
/// Of the choices a generation makes, take one and set it to each of many values.
pub struct Sweep {
    seed: u64,
    mode: Mode,
    pub at: usize,
    pub draw: Draw,
    pub values: Vec<u64>,
    pub consistent: bool,
}
pub fn sweep_values(d: Draw, cx: &mut Ctx) -> Vec<u64> {
    let thorough = cx.env.thorough;
    let mut v: Vec<u64> = match d {
        Draw::Int(8) => (0..256).collect(),
        Draw::Int(16) if thorough => (0..65536).collect(),
        Draw::Int(bits) => {
            let mut v = vec![0, 1, 2, mask(bits), mask(bits) - 1, 1 << (bits - 1), (1 << (bits - 1)) - 1];
            for i in 0..bits {
                v.push(1 << i);
                v.push(mask(bits) ^ (1 << i));
                v.push(mask(i + 1));
            }
            for _ in 0..if thorough { 200 } else { 24 } {
                v.push(cx.rng.next() & mask(bits));
            }
            for x in &cx.env.dict.ints {
                v.push(*x & mask(bits));
            }
            v
        }
        Draw::Enum(n) => (0..n as u64).collect(),
        Draw::List(max) => {
            let mut v: Vec<u64> = (0..if thorough { 300 } else { 72 }).filter(|n| n <= &max).collect();
            v.extend([127, 128, 129, 255, 256, 257, 500, 512, 1024, 2048, 4096, 8000].into_iter().filter(|n| n <= &max));
            v
        }
        Draw::Opt => vec![0, 1],
        Draw::Text => (0..24).collect(),
    };
    match d {
        Draw::List(max) => v.extend(cx.env.dict.novel.iter().flat_map(|x| [*x, x.wrapping_add(1), x.wrapping_sub(1)]).filter(|x| *x <= max.min(3000))),
        Draw::Int(bits) => v.extend(cx.env.dict.novel.iter().flat_map(|x| [*x, x.wrapping_add(1), x.wrapping_sub(1), x.wrapping_neg()]).map(|x| x & mask(bits))),
        _ => {}
    }
    v.sort_unstable();
    v.dedup();
    v
}
impl Sweep {
    /// the idx-th sweep: every kind in turn, every draw in turn
    pub fn pick(cx: &mut Ctx, k: &dyn Kind, round: u64, consistent: bool) -> Option<Sweep> {
        // the draw sequence is fixed per kind as long as `round` walks through it
        for lap in 0..50u64 {
            let seed = mix(cx.env.seed ^ hash(k.name().as_bytes()) ^ mix(lap) ^ u64::from(consistent));
            let mode = [Mode::Distinct, Mode::Mixed, Mode::Small, Mode::Zero, Mode::Uniform][lap as usize % 5];
            let mut g = G::new(seed, mode, &cx.env.dict);
            g.consistent = consistent;
            g.budget = 12;
            g.trace = Some(vec![]);
            gen_pdu(k, &mut g);
            let t = g.trace.unwrap();
            let before = LAPS.with(|l| l.borrow().get(&(k.name(), consistent, lap)).copied()).unwrap_or_else(|| {
                let b = if lap == 0 { 0 } else { LAPS.with(|l| l.borrow().get(&(k.name(), consistent, lap - 1)).copied().unwrap_or(0)) };
                let b = b + t.len() as u64;
                LAPS.with(|l| l.borrow_mut().insert((k.name(), consistent, lap), b));
                b
            });
            if round < before {
                let at = (round + t.len() as u64 - before) as usize;
                let draw = t[at];
                let values = sweep_values(draw, cx);
                return Some(Sweep { seed, mode, at, draw, values, consistent });
            }
        }
        None
    }
    pub fn make(&self, cx: &Ctx, k: &dyn Kind, v: u64) -> Box<dyn Dyn> {
        let mut g = G::new(self.seed, self.mode, &cx.env.dict);
        g.consistent = self.consistent;
        g.budget = 12;
        g.force = Some((self.at, v));
        gen_pdu(k, &mut g)
    }
}
thread_local! {
    static LAPS: std::cell::RefCell<std::collections::HashMap<(&'static str, bool, u64), u64>> = std::cell::RefCell::default();
}
/// PDUs made to have about a given size by the length of one of their lists. Returns the list
/// draw's range: make(n) for n elements.
pub struct Sized_ {
    seed: u64,
    mode: Mode,
    at: usize,
    pub base: usize,
    pub elem: usize,
    over: bool,
    consistent: bool,
    cap: u64,
}
impl Sized_ {
    pub fn pick(cx: &mut Ctx, k: &dyn Kind, over: bool, consistent: bool) -> Option<Sized_> {
        let seed = cx.rng.next();
        let mode = *cx.rng.pick(&[Mode::Small, Mode::Mixed, Mode::Distinct, Mode::Uniform]);
        let mut g = G::new(seed, mode, &cx.env.dict);
        // lists within the elements of other lists need elements to be in
        let cap = *cx.rng.pick(&[0, 0, 0, 1, 2]);
        Self::setup(&mut g, over, consistent, cap);
        g.trace = Some(vec![]);
        gen_pdu(k, &mut g);
        let lists: Vec<usize> = g.trace.unwrap().iter().enumerate().filter(|(_, d)| matches!(d, Draw::List(_))).map(|x| x.0).collect();
        if lists.is_empty() {
            return None;
        }
        let at = *cx.rng.pick(&lists);
        let mut s = Sized_ { seed, mode, at, base: 0, elem: 0, over, consistent, cap };
        let (a, b) = (ref_encode(k, &*s.make(cx, k, 0)).len(), ref_encode(k, &*s.make(cx, k, 16)).len());
        s.base = a;
        s.elem = b.saturating_sub(a) / 16;
        if s.elem == 0 {
            return None;
        }
        Some(s)
    }
    fn setup(g: &mut G, over: bool, consistent: bool, cap: u64) {
        g.over = over;
        g.consistent = consistent;
        g.list_cap = Some(cap);
    }
    pub fn make(&self, cx: &Ctx, k: &dyn Kind, n: u64) -> Box<dyn Dyn> {
        let mut g = G::new(self.seed, self.mode, &cx.env.dict);
        Self::setup(&mut g, self.over, self.consistent, self.cap);
        g.force = Some((self.at, n));
        gen_pdu(k, &mut g)
    }
    /// a number of elements, mostly at or next to a power of two, that is good for at most so many octets
    pub fn some_count(&self, cx: &mut Ctx, octets: usize) -> u64 {
        let most = self.count_for(octets);
        match cx.rng.below(8) {
            0 => return most,
            1 => return cx.rng.below(most + 1),
            _ => {}
        }
        let top = u64::from(64 - most.leading_zeros());
        let p = 1u64 << if cx.rng.chance(50) { top.saturating_sub(1 + cx.rng.below(3)) } else { cx.rng.below(top + 1) };
        let p = if cx.rng.chance(50) { p } else { (p + cx.rng.below(3)).saturating_sub(1) };
        p.min(most)
    }
    /// elements for about this many octets
    pub fn count_for(&self, octets: usize) -> u64 {
        (octets.saturating_sub(self.base) / self.elem) as u64
    }
}
/// A target size: around limits, and around numbers the sources have grown.
pub fn target_size(cx: &mut Ctx) -> usize {
    let d = &cx.env.dict;
    let t = if !d.novel.is_empty() && cx.rng.chance(40) {
        *cx.rng.pick(&d.novel)
    } else {
        *cx.rng.pick(&[12, 64, 128, 255, 256, 257, 500, 512, 576, 1000, 1024, 1200, 1400, 1472, 1500, 2000, 2048, 3000, 4095, 4096, 5000, 6000, 7000, 8000, 8100, 8192])
    };
    (t as i64 + cx.rng.below(9) as i64 - 4).clamp(0, 8192) as usize
}
/// A self-consistent PDU whose one list, outermost or nested, has a number of elements at or next
/// to a power of two, in up to so many octets.
pub fn grown(cx: &mut Ctx, k: &dyn Kind, most: usize) -> Option<Box<dyn Dyn>> {
    let s = Sized_::pick(cx, k, false, true)?;
    let n = s.some_count(cx, most);
    let p = s.make(cx, k, n);
    (ref_encode(k, &*p).len() <= most).then_some(p)
}
/// A message as another implementation might send it: valid, with free octets anywhere.
pub fn foreign(cx: &mut Ctx, k: &dyn Kind) -> Vec<u8> {
    let p = if cx.rng.chance(1) { grown(cx, k, MAX_PDU) } else { None };
    let p = p.unwrap_or_else(|| generate(cx, k, true));
    let w = ref_encode_spans(k, &*p, true);
    let mut b = w.b;
    loosen(&mut cx.rng, &cx.env.dict, &mut b, &w.spans);
    for i in [0, 1, 3, 4, 5, 6, 7, 10, 11] {
        if cx.rng.chance(40) {
            b[i] = match cx.rng.below(3) {
                0 => 255,
                _ => cx.rng.next() as u8,
            };
        }
    }
    b
}
/// Octets that claim to be a message of this kind, and may be anything.
pub fn hostile(cx: &mut Ctx, k: &dyn Kind) -> Vec<u8> {
    let mut b;
    match cx.rng.below(10) {
        0 => {
            let n = *cx.rng.pick(&[0u64, 1, 11, 12, 13, 40, 100, 300, 1500]) + cx.rng.below(40);
            b = (0..n).map(|_| cx.rng.next() as u8).collect::<Vec<_>>();
            if cx.rng.chance(85) {
                set_header(&mut b, k);
            }
        }
        1 => {
            let n = cx.rng.below(400) as usize;
            b = vec![*cx.rng.pick(&[0u8, 0xFF, 1, 0x80, 0x7F]); n];
            set_header(&mut b, k);
        }
        _ => {
            let most = if cx.rng.chance(50) { 65_535 } else { 10_000 };
            let p = if cx.rng.below(150) == 0 { grown(cx, k, most) } else { None };
            let p = p.unwrap_or_else(|| generate(cx, k, true));
            let w = ref_encode_spans(k, &*p, true);
            b = w.b;
            // counts that lie
            let counts: Vec<_> = w.spans.iter().filter(|s| s.2 == Span::Count).copied().collect();
            if !counts.is_empty() && cx.rng.chance(65) {
                for _ in 0..=cx.rng.below(2) {
                    let (at, n, _) = *cx.rng.pick(&counts);
                    let old = b[at..at + n].iter().fold(0u64, |a, x| a << 8 | u64::from(*x));
                    let v = match cx.rng.below(9) {
                        0 => u64::MAX,
                        1 => old.wrapping_add(1),
                        2 => old.wrapping_sub(1),
                        3 => 1 << (n * 8 - 1),
                        4 => (1u64 << (n * 8 - 1)) - 1,
                        5 => old.wrapping_mul(2),
                        6 => cx.rng.below(64),
                        7 => mask(n as u32 * 8) - cx.rng.below(70),
                        _ => cx.rng.next(),
                    };
                    b[at..at + n].copy_from_slice(&v.to_be_bytes()[8 - n..]);
                }
            }
            match cx.rng.below(8) {
                0 | 1 => {
                    let n = cx.rng.below(b.len() as u64 + 1) as usize;
                    b.truncate(n);
                    if cx.rng.chance(50) {
                        set_len(&mut b, n);
                    }
                }
                2 => {
                    let n = cx.rng.below(64);
                    b.extend((0..n).map(|_| cx.rng.next() as u8));
                    let l = b.len();
                    if cx.rng.chance(50) {
                        set_len(&mut b, l);
                    }
                }
                3 => {
                    for _ in 0..1 + cx.rng.below(12) {
                        if !b.is_empty() {
                            let i = cx.rng.below(b.len() as u64) as usize;
                            b[i] = *cx.rng.pick(&[0, 1, 0x7F, 0x80, 0xFF, b[i].wrapping_add(1), b[i] ^ 1]);
                        }
                    }
                }
                4 => {
                    // cut out or repeat a piece
                    let (i, j) = (cx.rng.below(b.len() as u64 + 1) as usize, cx.rng.below(b.len() as u64 + 1) as usize);
                    let (i, j) = (i.min(j), i.max(j));
                    if cx.rng.chance(50) {
                        b.drain(i..j);
                    } else {
                        let piece = b[i..j].to_vec();
                        let at = cx.rng.below(b.len() as u64 + 1) as usize;
                        b.splice(at..at, piece);
                    }
                    let l = b.len();
                    if cx.rng.chance(60) {
                        set_len(&mut b, l);
                        set_header_type(&mut b, k);
                    }
                }
                5 => {
                    let v = cx.rng.next() as usize;
                    let l = *cx.rng.pick(&[0, 1, 11, 12, 13, 65535, v % 65536, b.len() + 1, b.len().saturating_sub(1)]);
                    set_len(&mut b, l);
                }
                _ => {}
            }
            b.truncate(80_000);
            if cx.rng.chance(1) {
                // as large as a length can say, and larger than a datagram
                let n = *cx.rng.pick(&[8192usize, 8193, 32_768, 65_535, 65_536, 70_000]);
                b.resize(n, cx.idx as u8);
                set_len(&mut b, n);
            }
        }
    }
    b
}
pub fn set_len(b: &mut [u8], n: usize) {
    if b.len() >= 10 {
        b[8..10].copy_from_slice(&(n.min(65535) as u16).to_be_bytes());
    }
}
fn set_header_type(b: &mut [u8], k: &dyn Kind) {
    if b.len() >= 4 {
        b[2] = k.ty().1;
    }
}
fn set_header(b: &mut [u8], k: &dyn Kind) {
    set_header_type(b, k);
    let n = b.len();
    set_len(b, n);
}
