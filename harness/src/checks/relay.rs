//! C24: what a decoder has accepted, from whatever octets, can be used like any other PDU.
use super::ensure;
use crate::core::*;
use crate::engine::{hash, Ctx, OnPanic, Section};
use crate::model::*;
use bytes::BytesMut;
use open_dis_rust::common::dis_error::DISError;

const V: OnPanic = OnPanic::Violation;
type Res = Result<(), String>;

pub fn c24() -> Vec<Section> {
    vec![
        Section { name: "hostile", quick: 50_000, thorough: 50_000_000, on_panic: V, run: c24_hostile, rule: "random, mutated, truncated, spliced and extended octets, lying counts and lengths: whatever is accepted is measured, printed, finalized, encoded and decoded again; non-trivial: accepted" },
        Section { name: "altered", quick: 50_000, thorough: 50_000_000, on_panic: V, run: c24_altered, rule: "well-formed messages with some octets of the body altered, extended within and beyond the declared length, decoded whole or by a header of its own" },
        Section { name: "sizes", quick: 3_000, thorough: 2_000_000, on_panic: V, run: c24_sizes, rule: "well-formed messages up to the 65535 octets a length can say; what is accepted but too large is refused as that" },
    ]
}
/// Counts what is written to it.
struct Sink(u64, u64);
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 += s.len() as u64;
        self.1 = mix(self.1 ^ hash(s.as_bytes()));
        Ok(())
    }
}
fn text(p: &dyn Dyn, pretty: bool) -> (u64, bool) {
    let mut s = Sink(0, 0);
    let ok = lib(|| p.lib_text(&mut s, pretty)).is_ok();
    (s.0, ok)
}
fn relay(cx: &mut Ctx, k: &dyn Kind, mut d: Box<dyn Dyn>, b: &[u8]) -> Res {
    let from = || hex(b, 300);
    cx.eval(Some(what(k, b)));
    cx.sample(|| format!("{} <- {}", k.name(), hex(b, 150)));
    let h0 = d.header();
    // printed
    if cx.rng.chance(35) {
        let pretty = cx.rng.chance(30);
        let (n, ok) = text(&*d, pretty);
        ensure!(ok && n > 0, "{}# decoded, it cannot be printed; {}", k.name(), from());
        cx.count("characters printed", n);
    }
    // measured
    let len = lib(|| d.lib_length());
    let model = ref_encode(k, &*d).len();
    match &len {
        Ok(n) => ensure!(usize::from(*n) <= MAX_PDU, "{}# decoded, it measures {n}; {}", k.name(), from()),
        Err(DISError::PduSizeExceeded { size, .. }) => ensure!(*size > MAX_PDU, "{}# decoded, it is refused for a size of {size}; {}", k.name(), from()),
        Err(e) => return Err(format!("{}# decoded, it cannot be measured: {e}; {}", k.name(), from())),
    }
    if cx.rng.chance(50) {
        lib(|| d.lib_finalize());
        let h = d.header();
        ensure!(len.is_err() || Some(h.length) == len.as_ref().ok().copied(), "{}# decoded and finalized, its length is {} and not {:?}; {}", k.name(), h.length, len, from());
    }
    // encoded
    let mut out = BytesMut::new();
    let r = lib(|| d.lib_serialize(&mut out));
    let n = match (r, len) {
        (Ok(()), Ok(n)) => n,
        (Err(DISError::PduSizeExceeded { .. }), Err(_)) => {
            cx.count("accepted, too large to encode", 1);
            ensure!(out.is_empty(), "{}# refused, yet {} octets written", k.name(), out.len());
            ensure!(model > MAX_PDU, "{}# of {model} octets refused; {}", k.name(), from());
            return Ok(());
        }
        (r, len) => return Err(format!("{}# decoded, it measures {len:?} and encodes to {r:?}; {}", k.name(), from())),
    };
    ensure!(out.len() == usize::from(n), "{}# decoded, it measures {n} and encodes to {} octets; {}", k.name(), out.len(), from());
    cx.count("relayed", 1);
    // and decoded again
    let (d2, left) = de(k, &out);
    let mut d2 = d2.map_err(|e| format!("{}# decoded and encoded, it is rejected: {e}; {} from {}", k.name(), hex(&out, 300), from()))?;
    ensure!(left == 0, "{}# decoded and encoded, {left} octets of it are left over; {}", k.name(), from());
    if let Some(e) = d.diff(&*d2) {
        return Err(format!("{}# {e} after decoding, encoding and decoding; {}", k.name(), from()));
    }
    let (h1, h2) = (d.header(), d2.header());
    ensure!(h1 == h2, "{}# header {h1:?} becomes {h2:?}", k.name());
    ensure!((h0.protocol_version, h0.exercise_id, h0.timestamp, h0.status_record) == (h2.protocol_version, h2.exercise_id, h2.timestamp, h2.status_record), "{}# header {h0:?} is relayed as {h2:?}; {}", k.name(), from());
    let again = ser(&mut *d2).map_err(|e| format!("{}# relayed twice: {e}", k.name()))?;
    ensure!(again[..] == out[..], "{}# relayed twice: {}", k.name(), super::encode::first_difference(&again, &out));
    Ok(())
}
fn offer(cx: &mut Ctx, k: &dyn Kind, b: &[u8]) -> Res {
    let d = if b.len() >= 12 && cx.rng.chance(25) {
        let mut h = header_of(b);
        if cx.rng.chance(50) {
            let mut g = cx.gen();
            let (ty, len) = (h.pdu_type, h.length);
            gen_header(&mut h, &mut g);
            (h.pdu_type, h.length) = (ty, len);
        }
        de_body(k, h, &b[12..]).0
    } else {
        de(k, b).0
    };
    match d {
        Ok(d) => relay(cx, k, d, b),
        Err(_) => {
            cx.count("rejected", 1);
            Ok(())
        }
    }
}
fn c24_hostile(cx: &mut Ctx) -> Res {
    let k = cx.kind(cx.idx);
    let b = hostile(cx, k);
    offer(cx, k, &b)
}
fn c24_altered(cx: &mut Ctx) -> Res {
    let k = cx.kind(cx.idx);
    let mut b = if cx.rng.chance(50) { foreign(cx, k) } else {
        let p = generate(cx, k, true);
        ref_encode(k, &*p)
    };
    if b.len() > 12 && cx.rng.chance(70) {
        for _ in 0..1 + cx.rng.below(6) {
            let at = 12 + cx.rng.below(b.len() as u64 - 12) as usize;
            b[at] = match cx.rng.below(4) {
                0 => 0,
                1 => 0xFF,
                _ => cx.rng.next() as u8,
            };
        }
    }
    if cx.rng.chance(60) {
        let n = if cx.rng.chance(10) { cx.rng.below(3000) } else { cx.rng.below(60) };
        b.extend((0..n).map(|_| cx.rng.next() as u8));
        if cx.rng.chance(70) && b.len() < 65_536 {
            let l = b.len();
            set_len(&mut b, l);
        }
    }
    offer(cx, k, &b)
}
fn c24_sizes(cx: &mut Ctx) -> Res {
    let k = cx.kind(cx.idx);
    let most = if cx.rng.chance(50) { 65_535 } else { 8_300 };
    let Some(p) = grown(cx, k, most) else { return Ok(()) };
    let b = ref_encode(k, &*p);
    offer(cx, k, &b)
}
