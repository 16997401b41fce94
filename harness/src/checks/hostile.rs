//! C05 no panic, C06 missing octets are errors, C15 bounded work and memory.
use super::ensure;
use crate::bufs;
use crate::core::*;
use crate::engine::{heap_peak, Ctx, OnPanic, Section};
use crate::model::*;
use bytes::Buf;
use open_dis_rust::common::{GenericHeader, LiveEntityPduHeader, PduHeader};

const V: OnPanic = OnPanic::Violation;
type Res = Result<(), String>;

// ------------------------------------------------------------------ C05
pub fn c05() -> Vec<Section> {
    vec![
        Section { name: "hostile", quick: 250_000, thorough: 20_000_000, on_panic: V, run: c05_hostile, rule: "random, mutated, truncated, spliced and extended octets with lying counts and lengths to every PDU decoder, both routes, slices and fragmented buffers" },
        Section { name: "short", quick: 66 * 2, thorough: 66 * 20, on_panic: V, run: c05_short, rule: "every length from 0 up of zeros, ones and valid messages, with and without an honest declared length" },
        Section { name: "lies", quick: 66 * 20, thorough: 66 * 400, on_panic: V, run: c05_lies, rule: "every count field of a valid message set to each of a set of false values" },
        Section { name: "octets", quick: 66 * 6, thorough: 66 * 100, on_panic: V, run: c05_octets, rule: "every octet of a valid message set to each boundary value" },
        Section { name: "headers", quick: 4_000, thorough: 200_000, on_panic: V, run: c05_headers, rule: "type inspection of random datagrams of all lengths, header decoding of all kinds from 12 octets, and every status octet through every accessor" },
    ]
}
fn attack(cx: &mut Ctx, k: &dyn Kind, b: &[u8]) -> Res {
    cx.eval(Some(what(k, b)));
    cx.sample(|| format!("{} {}", k.name(), hex(b, 100)));
    let (o, left) = de(k, b);
    cx.count(if o.is_ok() { "accepted" } else { "rejected" }, 1);
    if o.is_ok() {
        ensure!(left <= b.len(), "{}# more octets left than there were", k.name());
    }
    drop(o);
    match cx.rng.below(4) {
        0 => {
            let kind = 1 + cx.rng.below(bufs::KINDS.len() as u64 - 1) as usize;
            let mut r = Rng::new(cx.rng.next());
            bufs::with_kind(kind, b, &mut r, |s| drop(lib(|| k.lib_decode(s))));
        }
        1 | 2 if b.len() >= 12 => {
            let mut h = header_of(b);
            if cx.rng.chance(50) {
                // a header that says something else altogether
                let mut g = cx.gen();
                gen_header(&mut h, &mut g);
                h.length = Wire::gen(&mut g);
                if g.rng.chance(80) {
                    h.pdu_type = k.ty().0;
                }
            }
            let at = if cx.rng.chance(90) { 12 } else { 0 };
            drop(de_body(k, h, &b[at..]));
        }
        _ => {}
    }
    Ok(())
}
fn c05_hostile(cx: &mut Ctx) -> Res {
    let k = cx.kind(cx.idx);
    let b = hostile(cx, k);
    attack(cx, k, &b)
}
fn c05_short(cx: &mut Ctx) -> Res {
    let k = cx.kind(cx.idx);
    let p = generate(cx, k, true);
    let full = ref_encode(k, &*p);
    let full = &full[..full.len().min(700)];
    for n in 0..=full.len() {
        for style in 0..3 {
            let mut b = match style {
                0 => vec![0u8; n],
                1 => vec![0xFF; n],
                _ => full[..n].to_vec(),
            };
            if n > 2 {
                b[2] = k.ty().1;
            }
            if cx.rng.chance(50) {
                set_len(&mut b, n);
            }
            attack(cx, k, &b)?;
        }
    }
    Ok(())
}
fn c05_lies(cx: &mut Ctx) -> Res {
    let k = cx.kind(cx.idx);
    let p = generate(cx, k, true);
    let w = ref_encode_spans(k, &*p, true);
    for (at, n, kind) in w.spans.iter().copied() {
        if kind != Span::Count || at > 4000 {
            continue;
        }
        let m = mask(n as u32 * 8);
        for v in [0, 1, 2, 7, 8, 9, 63, 64, 65, 100, 127, 128, 254, 255, 256, 511, 8191, 8192, 32767, 32768, m - 1, m, m / 2, m / 2 + 1, m / 8, m - 6, m - 7, m - 8, m - 62, m - 63] {
            let mut b = w.b.clone();
            b[at..at + n].copy_from_slice(&(v & m).to_be_bytes()[8 - n..]);
            attack(cx, k, &b)?;
        }
    }
    // nothing to lie about
    attack(cx, k, &w.b)
}
fn c05_octets(cx: &mut Ctx) -> Res {
    let k = cx.kind(cx.idx);
    let mut g = cx.gen();
    g.budget = 5;
    let p = gen_pdu(k, &mut g);
    let full = ref_encode(k, &*p);
    for i in 0..full.len().min(500) {
        for x in [0, 1, 2, 0x7F, 0x80, 0xFE, 0xFF] {
            let mut b = full.clone();
            b[i] = x;
            attack(cx, k, &b)?;
        }
    }
    Ok(())
}
fn c05_headers(cx: &mut Ctx) -> Res {
    let n = cx.idx % 80;
    let b: Vec<u8> = (0..n).map(|_| if cx.rng.chance(20) { 0xFF } else { cx.rng.next() as u8 }).collect();
    cx.eval(Some(crate::engine::hash(&b)));
    lib(|| PduHeader::get_pdu_type(&b));
    if b.len() >= 12 {
        let mut s = &b[..];
        lib(|| PduHeader::deserialize(&mut s));
        ensure!(s.len() == b.len() - 12, "header decoding leaves {} of {} octets", s.len(), b.len());
        let mut s = &b[..];
        lib(|| LiveEntityPduHeader::deserialize(&mut s));
        ensure!(s.len() == b.len() - 12, "live entity header decoding leaves {} of {} octets", s.len(), b.len());
        for kind in 2..bufs::KINDS.len() {
            let mut r = Rng::new(cx.rng.next());
            bufs::with_kind(kind, &b, &mut r, |mut s| lib(|| PduHeader::deserialize(&mut s)));
        }
    }
    let s = lib(|| open_dis_rust::common::pdu_header::PduStatusRecord::from_u8(cx.idx as u8));
    lib(|| {
        let _ = (s.tei() as u8, s.lvc() as u8, s.cei() as u8, s.bit4_5(), s.get_dti() as u8, s.get_rai() as u8, s.get_iai() as u8, s.get_fti() as u8, s.get_ism() as u8, s.get_aii() as u8, s.to_u8());
    });
    Ok(())
}

// ------------------------------------------------------------------ C06
pub fn c06() -> Vec<Section> {
    vec![
        Section { name: "prefixes", quick: 66 * 30, thorough: 66 * 800, on_panic: V, run: c06_prefixes, rule: "every strict prefix of a valid message, both routes: an error" },
        Section { name: "declared", quick: 66 * 25, thorough: 66 * 600, on_panic: V, run: c06_declared, rule: "every declared length from 0 past the end, and 65535, over a valid message with and without octets behind it: an error wherever the reference decoder finds something missing" },
        Section { name: "counts", quick: 66 * 60, thorough: 66 * 1500, on_panic: V, run: c06_counts, rule: "every count field raised by 1 to its maximum, with and without octets behind the message" },
        Section { name: "mutants", quick: 100_000, thorough: 6_000_000, on_panic: V, run: c06_mutants, rule: "hostile octets; non-trivial: the reference decoder finds something missing" },
    ]
}
fn must_err(cx: &mut Ctx, k: &dyn Kind, b: &[u8], bounded: bool) -> Res {
    let Ref::Reject(why) = ref_decode(k, b) else {
        cx.count(if bounded { "complete after all" } else { "nothing missing" }, 1);
        return Ok(());
    };
    if why == "the type of another PDU" {
        return Ok(());
    }
    cx.eval(Some(what(k, b)));
    cx.count(why, 1);
    cx.sample(|| format!("{} {why}: {}", k.name(), hex(b, 100)));
    let (d, _) = de(k, b);
    if let Ok(d) = d {
        return Err(format!("{}# {why}, yet decoded as {}; {}", k.name(), d.debug(), hex(b, 300)));
    }
    if b.len() >= 12 {
        let (d, _) = de_body(k, header_of(b), &b[12..]);
        if let Ok(d) = d {
            return Err(format!("{}# {why}, yet decoded with a pre-parsed header as {}; {}", k.name(), d.debug(), hex(b, 300)));
        }
    }
    if cx.rng.chance(10) {
        let kind = 1 + cx.rng.below(bufs::KINDS.len() as u64 - 1) as usize;
        let mut r = Rng::new(cx.rng.next());
        let (ok, _) = bufs::with_kind(kind, b, &mut r, |s| lib(|| k.lib_decode(s)).is_ok());
        ensure!(!ok, "{}# {why}, yet decoded from {}; {}", k.name(), bufs::KINDS[kind], hex(b, 300));
    }
    Ok(())
}
fn c06_message(cx: &mut Ctx, k: &dyn Kind) -> W {
    if cx.rng.chance(1) {
        if let Some(p) = grown(cx, k, 65_535) {
            cx.count("messages of a chosen list length", 1);
            return ref_encode_spans(k, &*p, true);
        }
    }
    let mut g = cx.gen();
    g.budget = *g.rng.clone().pick(&[3, 8, 30, 200]);
    let p = gen_pdu(k, &mut g);
    ref_encode_spans(k, &*p, true)
}
fn c06_prefixes(cx: &mut Ctx) -> Res {
    let k = cx.kind(cx.idx);
    let b = c06_message(cx, k).b;
    let step = if b.len() > 8192 { 1 + b.len() / 120 } else if b.len() > 1500 { 1 + b.len() / 700 } else { 1 };
    let mut n = 0;
    while n < b.len() {
        must_err(cx, k, &b[..n], false)?;
        // with the length made to fit what is there
        if n >= 12 {
            let mut c = b[..n].to_vec();
            set_len(&mut c, n);
            must_err(cx, k, &c, true)?;
        }
        n += if n < 40 { 1 } else { step };
    }
    Ok(())
}
fn c06_declared(cx: &mut Ctx) -> Res {
    let k = cx.kind(cx.idx);
    let base = c06_message(cx, k).b;
    let mut longer = base.clone();
    longer.extend((0..cx.rng.below(80)).map(|_| cx.rng.next() as u8));
    let step = if base.len() > 8192 { 1 + base.len() / 120 } else if base.len() > 1500 { 1 + base.len() / 700 } else { 1 };
    let mut n = 0;
    while n < longer.len() + 24 {
        for b in [&base, &longer] {
            let mut b = b.clone();
            set_len(&mut b, n);
            must_err(cx, k, &b, true)?;
        }
        n += step;
    }
    for n in [65535, 65534, 32768, 32767, 8193] {
        let mut b = base.clone();
        set_len(&mut b, n);
        must_err(cx, k, &b, true)?;
    }
    Ok(())
}
fn c06_counts(cx: &mut Ctx) -> Res {
    let k = cx.kind(cx.idx);
    let w = c06_message(cx, k);
    let counts: Vec<_> = w.spans.iter().filter(|s| s.2 == Span::Count).collect();
    if counts.is_empty() {
        // every kind has its length, at least
        let mut b = w.b.clone();
        let n = b.len() - 1;
        set_len(&mut b, n);
        return must_err(cx, k, &b, true);
    }
    for (at, n, _) in counts.iter().take(40) {
        let (at, n) = (*at, *n);
        let old = w.b[at..at + n].iter().fold(0u64, |a, x| a << 8 | u64::from(*x));
        let m = mask(n as u32 * 8);
        let mut vals = vec![old + 1, old + 2, old + 3, old + 7, old + 8, old + 9, old + 16, old + 64, old * 2, old + 255, old + 256, m, m - 1, m / 2, m / 2 + 1];
        vals.extend((8..n * 8).map(|i| old | 1 << i));
        vals.extend((0..4).map(|_| old + cx.rng.next() % (m - old.min(m) + 1).max(1)));
        for v in vals {
            if v <= old || v > m {
                continue;
            }
            let mut b = w.b.clone();
            b[at..at + n].copy_from_slice(&v.to_be_bytes()[8 - n..]);
            must_err(cx, k, &b, true)?;
            if cx.rng.chance(30) {
                // what follows in the buffer is not part of the message
                b.extend((0..cx.rng.below(200)).map(|_| cx.rng.next() as u8));
                must_err(cx, k, &b, true)?;
            }
        }
    }
    Ok(())
}
fn c06_mutants(cx: &mut Ctx) -> Res {
    let k = cx.kind(cx.idx);
    let b = hostile(cx, k);
    must_err(cx, k, &b, true)
}

// ------------------------------------------------------------------ C15
pub fn c15() -> Vec<Section> {
    vec![
        Section { name: "kept", quick: 66 * 6, thorough: 66 * 200, on_panic: OnPanic::Skip, run: c15_kept, rule: "what is still held after thousands of differing messages have been decoded and their results dropped" },
        Section { name: "hostile", quick: 120_000, thorough: 8_000_000, on_panic: OnPanic::Skip, run: c15_hostile, rule: "hostile octets decoded from a metered buffer under a metering allocator" },
        Section { name: "lies", quick: 66 * 20, thorough: 66 * 400, on_panic: OnPanic::Skip, run: c15_lies, rule: "every count field of a valid message set to false values up to its maximum" },
        Section { name: "valid", quick: 20_000, thorough: 1_000_000, on_panic: OnPanic::Skip, run: c15_valid, rule: "valid messages up to the size limit" },
    ]
}
/// What decoding n octets may hold.
fn heap_budget(n: usize) -> i64 {
    16_384 + 256 * n as i64
}
/// What decoding n octets may take of the processor, ns: over 10 times what the slowest takes here,
/// for the loops that turn over what is not there without touching the buffer.
fn time_budget(n: usize) -> u64 {
    2_000_000 + 1_000 * n as u64
}
fn metered(cx: &mut Ctx, k: &dyn Kind, b: &[u8]) -> Res {
    let budget = bufs::op_budget(b.len());
    for route in 0..2 {
        if route == 1 && b.len() < 12 {
            continue;
        }
        let h = if route == 1 { Some(header_of(b)) } else { None };
        let mut m = bufs::Meter::new(if route == 1 { &b[12..] } else { b }, budget);
        let (r, peak) = heap_peak(|| {
            std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                lib(|| match h {
                    Some(h) => k.lib_decode_body(&mut m, h).is_ok(),
                    None => k.lib_decode(&mut m).is_ok(),
                })
            }))
        });
        cx.eval(Some(what(k, b) ^ route));
        let ops = m.ops.get();
        match r {
            Ok(ok) => cx.count(if ok { "accepted" } else { "rejected" }, 1),
            Err(e) if e.is::<bufs::Runaway>() => return Err(format!("{}# decoding {} octets takes over {budget} buffer operations; {}", k.name(), b.len(), hex(b, 200))),
            Err(e) if e.is::<LibPanic>() => cx.count("library panics left to C05", 1),
            Err(e) => std::panic::resume_unwind(e),
        }
        let bound = heap_budget(b.len());
        ensure!(peak <= bound, "{}# decoding {} octets holds {peak} octets of memory at once (allowed: {bound}); {}", k.name(), b.len(), hex(b, 200));
        cx.count("octets offered", b.len() as u64);
        cx.count("buffer operations", ops);
        cx.count("peak octets held, summed", peak.max(0) as u64);
        let worst = cx.obs.counters.entry("worst memory use, percent of the bound (per worker, summed)".into()).or_default();
        *worst = (*worst).max((peak.max(0) * 100 / bound) as u64);
    }
    // straight from a slice, where no operations are seen but the memory is, and the time
    let allowed = time_budget(b.len());
    let mut took = u64::MAX;
    let mut peak = 0;
    for _ in 0..4 {
        let t = crate::clock::thread_cpu();
        let (_, p) = heap_peak(|| {
            let mut s = b;
            std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| lib(|| k.lib_decode(&mut s)).is_ok()))
        });
        peak = p;
        // once more where it took long: this measure alone is not exact
        took = took.min(crate::clock::thread_cpu() - t);
        if took <= allowed {
            break;
        }
    }
    ensure!(took <= allowed, "{}# decoding a slice of {} octets takes {} ms (allowed: {} ms); {}", k.name(), b.len(), took / 1_000_000, allowed / 1_000_000, hex(b, 200));
    let worst = cx.obs.counters.entry("worst processor time, per mille of the bound (per worker, summed)".into()).or_default();
    *worst = (*worst).max(took * 1000 / allowed);
    let bound = heap_budget(b.len());
    ensure!(peak <= bound, "{}# decoding a slice of {} octets holds {peak} octets of memory at once (allowed: {bound}); {}", k.name(), b.len(), hex(b, 200));
    Ok(())
}
fn c15_hostile(cx: &mut Ctx) -> Res {
    let k = cx.kind(cx.idx);
    let b = hostile(cx, k);
    metered(cx, k, &b)
}
fn c15_lies(cx: &mut Ctx) -> Res {
    let k = cx.kind(cx.idx);
    let mut g = cx.gen();
    g.budget = *g.rng.clone().pick(&[2, 6, 30]);
    let p = gen_pdu(k, &mut g);
    let w = ref_encode_spans(k, &*p, true);
    for (at, n, kind) in w.spans.iter().copied().take(400) {
        if kind != Span::Count {
            continue;
        }
        let m = mask(n as u32 * 8);
        for v in [255, 256, 32767, 65535, m, m - 1, m / 2, m / 2 + 1, m / 8, m - 7, m - 63] {
            let mut b = w.b.clone();
            b[at..at + n].copy_from_slice(&(v & m).to_be_bytes()[8 - n..]);
            metered(cx, k, &b)?;
            // two lies at once: a count and the next one
            if let Some((at2, n2, _)) = w.spans.iter().copied().find(|s| s.2 == Span::Count && s.0 > at) {
                let m2 = mask(n2 as u32 * 8);
                b[at2..at2 + n2].copy_from_slice(&m2.to_be_bytes()[8 - n2..]);
                metered(cx, k, &b)?;
            }
        }
    }
    metered(cx, k, &w.b)
}
fn c15_valid(cx: &mut Ctx) -> Res {
    let k = cx.kind(cx.idx);
    let b = if cx.rng.chance(50) {
        match Sized_::pick(cx, k, false, true) {
            Some(s) => {
                let t = target_size(cx);
                ref_encode(k, &*s.make(cx, k, s.count_for(t)))
            }
            None => return Ok(()),
        }
    } else {
        let p = generate(cx, k, true);
        ref_encode(k, &*p)
    };
    let mut b = b;
    if cx.rng.chance(30) {
        b.extend_from_slice(&[0; 3000]);
    }
    metered(cx, k, &b)
}
/// Memory is held for a message only while it is being decoded: what thousands leave behind stays
/// within the constant.
fn c15_kept(cx: &mut Ctx) -> Res {
    const N: usize = 3_000;
    let k = cx.kind(cx.idx);
    let few: Vec<Vec<u8>> = (0..24)
        .map(|i| if i % 2 == 0 { hostile(cx, k) } else { ref_encode(k, &*generate(cx, k, true)) })
        .filter(|b| b.len() <= 3_000)
        .collect();
    if few.is_empty() {
        return Ok(());
    }
    let mut b = Vec::with_capacity(4_096);
    let mut rng = Rng::new(cx.rng.next());
    let mut kept = 0;
    // the first round fills what is filled once
    for round in 0..2 {
        let (mut ok, mut panicked) = (0, 0);
        let before = crate::engine::heap_now();
        for i in 0..N {
            b.clear();
            b.extend_from_slice(&few[i % few.len()]);
            // no two alike, in the header or behind it
            if b.len() >= 12 {
                b[4..8].copy_from_slice(&((round * N + i) as u32).wrapping_mul(0x9E37_79B1).to_be_bytes());
                b[1] = i as u8;
            }
            if b.len() > 16 && i % 3 == 0 {
                let at = 12 + rng.below(b.len() as u64 - 12) as usize;
                b[at] = rng.next() as u8;
            }
            let mut s = &b[..];
            match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| lib(|| k.lib_decode(&mut s)).is_ok())) {
                Ok(true) => ok += 1,
                Ok(false) => {}
                Err(_) => panicked += 1,
            }
        }
        kept = crate::engine::heap_now() - before;
        (0..N).for_each(|i| cx.eval(few.get(i).map(|b| what(k, b))));
        cx.count("decoded and dropped", N as u64);
        cx.count("of them accepted", ok);
        if panicked > 0 {
            cx.count("library panics left to C05", panicked);
            return Ok(());
        }
    }
    ensure!(kept <= 16_384, "{}# {N} messages decoded and dropped leave {kept} octets of memory behind (allowed: 16384)", k.name());
    Ok(())
}
#[allow(unused_imports)]
use Buf as _;
