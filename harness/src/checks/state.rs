//! C14 no hidden state, C18 serialization only appends.
use super::ensure;
use crate::core::*;
use crate::engine::{hash, Ctx, OnPanic, Section};
use crate::model::*;
use bytes::{Buf, Bytes, BytesMut};

const V: OnPanic = OnPanic::Violation;
type Res = Result<(), String>;

// ------------------------------------------------------------------ C18
pub fn c18() -> Vec<Section> {
    vec![
        Section { name: "append", quick: 90_000, thorough: 5_000_000, on_panic: V, run: c18_append, rule: "serialization into buffers prefilled, pre-sized, split off and shared; prefix, handed-out parts, PDU contents and repeated output compared" },
        Section { name: "history", quick: 10_000, thorough: 500_000, on_panic: V, run: c18_history, rule: "several PDUs serialized into one buffer, some refused, some twice; the buffer must be the concatenation" },
    ]
}
/// body of the model with the lengths it derives
fn body(k: &dyn Kind, p: &dyn Dyn) -> Vec<u8> {
    let _ = k;
    let mut w = W::new();
    p.enc_body(&mut w);
    w.b
}
fn c18_append(cx: &mut Ctx) -> Res {
    let k = cx.kind(cx.idx);
    let consistent = cx.rng.chance(50);
    let mut p = generate(cx, k, consistent);
    let mut g = cx.gen();
    stale_header(p.header_mut(), &mut g);
    let n = ref_encode(k, &*p).len();
    if n > MAX_PDU {
        return Ok(());
    }
    let mut twin = p.dup();
    if let Some(e) = p.diff(&*twin) {
        // a copy that is not one: nothing to compare with
        return Err(format!("{}# harness copy differs: {e}", k.name()));
    }
    let (h0, b0) = (p.header(), body(k, &*p));
    let mut pre: Vec<u8> = (0..cx.rng.below(200)).map(|_| cx.rng.next() as u8).collect();
    if cx.rng.chance(3) {
        let n = *cx.rng.pick(&[1_000usize, 8_160, 8_192, 16_384, 32_768, 57_344, 65_500, 65_536, 131_072, 300_000]) + cx.rng.below(40) as usize;
        pre.resize(n, cx.idx as u8);
        cx.count("behind a long stretch of other output", 1);
    }
    let mut held: Option<(Bytes, Vec<u8>)> = None;
    let mut heldm: Option<(BytesMut, Vec<u8>)> = None;
    let style = cx.rng.below(6);
    let mut b = match style {
        0 => BytesMut::from(&pre[..]),
        1 => {
            let mut b = BytesMut::with_capacity(pre.len());
            b.extend_from_slice(&pre);
            b
        }
        2 => {
            let mut b = BytesMut::with_capacity(20_000);
            b.extend_from_slice(&pre);
            b
        }
        3 => {
            // a part handed out earlier shares the allocation
            let mut b = BytesMut::with_capacity(pre.len() * 2 + cx.rng.below(500) as usize);
            b.extend_from_slice(&pre);
            let part = b.split().freeze();
            held = Some((part, pre.clone()));
            b.extend_from_slice(&pre);
            b
        }
        4 => {
            let mut b = BytesMut::with_capacity(pre.len() * 2 + 100);
            b.extend_from_slice(&pre);
            b.extend_from_slice(&pre);
            let tail = b.split_off(pre.len());
            heldm = Some((tail, pre.clone()));
            b
        }
        _ => {
            let mut b = BytesMut::from(&[9u8; 64][..]);
            b.advance(50);
            b.clear();
            b.extend_from_slice(&pre);
            b
        }
    };
    lib(|| p.lib_serialize(&mut b)).map_err(|e| format!("{}# refused: {e}", k.name()))?;
    cx.eval(Some(what(k, &b)));
    cx.sample(|| format!("{} behind {} octets, buffer style {style}", k.name(), pre.len()));
    cx.count(&format!("buffer style {style}"), 1);
    ensure!(b.len() >= pre.len() && b[..pre.len()] == pre[..], "{}# serializing changed what was in the buffer: {}", k.name(), super::encode::first_difference(&b[..pre.len().min(b.len())], &pre));
    if let Some((x, want)) = &held {
        ensure!(x[..] == want[..], "{}# serializing changed octets handed out before", k.name());
    }
    if let Some((x, want)) = &heldm {
        ensure!(x[..] == want[..], "{}# serializing changed octets split off before", k.name());
    }
    let first = b[pre.len()..].to_vec();
    // the PDU
    let h1 = p.header();
    ensure!(h0.protocol_version == h1.protocol_version && h0.exercise_id == h1.exercise_id && h0.timestamp == h1.timestamp && h0.status_record == h1.status_record, "{}# serializing changed the header from {h0:?} to {h1:?}", k.name());
    let b1 = body(k, &*p);
    ensure!(b0 == b1, "{}# serializing changed the contents: {}", k.name(), super::encode::first_difference(&b1, &b0));
    // again, and a twin
    let snap = p.dup();
    let second = ser(&mut *p).map_err(|e| format!("{}# refused the second time: {e}", k.name()))?;
    ensure!(second == first, "{}# the second time: {}", k.name(), super::encode::first_difference(&second, &first));
    if let Some(e) = snap.diff(&*p) {
        return Err(format!("{}# serializing again changed the contents: {e}", k.name()));
    }
    ensure!(snap.header() == p.header(), "{}# serializing again changed the header", k.name());
    let t = ser(&mut *twin).map_err(|e| format!("{}# its twin is refused: {e}", k.name()))?;
    ensure!(t == first, "{}# a twin: {}", k.name(), super::encode::first_difference(&t, &first));
    let l = lib(|| p.lib_length()).map_err(|e| e.to_string())?;
    let h = p.header();
    let _ = (l, h);
    ensure!(snap.header() == p.header() && snap.diff(&*p).is_none(), "{}# computing the length changed the PDU", k.name());
    Ok(())
}
fn c18_history(cx: &mut Ctx) -> Res {
    let mut b = BytesMut::new();
    let mut want = vec![];
    let n = 2 + cx.rng.below(8);
    let mut pdus: Vec<(&dyn Kind, Box<dyn Dyn>)> = vec![];
    for i in 0..n {
        let k = cx.kind(cx.idx + cx.rng.clone().next() % 97 * i);
        cx.rng.next();
        let consistent = cx.rng.chance(50);
        let p = generate(cx, k, consistent);
        pdus.push((k, p));
    }
    for _ in 0..n * 2 {
        let i = cx.rng.below(n) as usize;
        let (k, p) = &mut pdus[i];
        let w = ref_encode_spans(*k, &**p, false);
        let alone = ser(&mut *p.dup());
        let r = lib(|| p.lib_serialize(&mut b));
        cx.eval(Some(what(*k, &w.b)));
        if w.b.len() <= MAX_PDU {
            ensure!(r.is_ok() && alone.is_ok(), "{}# refused in a history", k.name());
            want.extend_from_slice(&alone.unwrap());
        } else {
            cx.count("refused", 1);
        }
        ensure!(b[..] == want[..], "{}# in a history of serializations into one buffer: {}", k.name(), super::encode::first_difference(&b, &want));
        if cx.rng.chance(20) {
            // hand out what is there so far
            let part = b.split();
            ensure!(part[..] == want[..], "handed out octets differ");
            want.clear();
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C14
pub fn c14() -> Vec<Section> {
    vec![
        Section { name: "threads", quick: 2_000, thorough: 300_000, on_panic: V, run: c14_threads, rule: "batches of operations (build, edit, encode, decode valid, hostile, oversized, of the same and different types) on 2 to 8 threads released together, each in its own order, results compared with those alone and with the reference model" },
        Section { name: "orders", quick: 5_000, thorough: 500_000, on_panic: V, run: c14_orders, rule: "one batch in several orders, with repeats and refused or malformed operations in between: same results" },
        Section { name: "siblings", quick: 5_000, thorough: 500_000, on_panic: V, run: c14_orders, rule: "as orders, of operations on things alike but for a few octets or one choice, and on messages of other types that begin alike" },
    ]
}
struct Job {
    kind: usize,
    what: Op,
}
enum Op {
    Encode { seed: u64, mode: Mode, consistent: bool, big: bool, force: Option<(usize, u64)> },
    Decode(Vec<u8>, bool),
    New,
}
/// run, with a panic of the library as a result like any other
fn run(env: &crate::engine::Env, j: &Job) -> (u64, Option<String>) {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run_bare(env, j))) {
        Ok(x) => x,
        Err(e) => match e.downcast_ref::<LibPanic>() {
            Some(p) => (3, Some(format!("{}# panics: {}", env.kinds[j.kind].name(), p.0))),
            None => std::panic::resume_unwind(e),
        },
    }
}
/// The operation's result in a process that has done nothing else: the reference model judges
/// contents for the other properties; here only a result that depends on something counts.
pub fn fresh(cx: &mut Ctx, job: usize) -> u64 {
    let n = if cx.section == "threads" { 12 + cx.rng.below(30) } else { 6 + cx.rng.below(20) };
    run(cx.env, &jobs(cx, n)[job]).0
}
fn depends(cx: &mut Ctx, job: usize, h: u64) -> bool {
    if cx.env.variant == "miri" {
        return false;
    }
    if cx.obs.counters.get(OWN).is_some_and(|n| *n > 100) {
        return false;
    }
    let o = std::process::Command::new(std::env::current_exe().unwrap()).args(crate::engine::fresh_args(cx, job)).output().expect("a fresh process");
    let t = String::from_utf8_lossy(&o.stdout).trim().to_string();
    if o.status.success() && t == h.to_string() {
        cx.count(OWN, 1);
        return false;
    }
    true
}
const OWN: &str = "results unlike the model's but the same in a fresh process (left to other properties)";
/// A digest of what the operation gives, and a complaint when it is not what the model says.
fn run_bare(env: &crate::engine::Env, j: &Job) -> (u64, Option<String>) {
    let k = &*env.kinds[j.kind];
    match &j.what {
        Op::Encode { seed, mode, consistent, big, force } => {
            let mut g = G::new(*seed, *mode, &env.dict);
            g.consistent = *consistent;
            g.force = *force;
            if *big {
                g.over = true;
                g.big_lists = true;
                g.budget = 5000;
            }
            let mut p = gen_pdu(k, &mut g);
            let w = ref_encode_spans(k, &*p, false);
            let l = lib(|| p.lib_length()).ok();
            match ser(&mut *p) {
                Ok(b) => {
                    let bad = if w.b.len() > MAX_PDU { Some(format!("{}# over the limit, is encoded", k.name())) } else if !w.vague && b != w.b { Some(format!("{}# layout differs {}", k.name(), super::encode::first_difference(&b, &w.b))) } else { None };
                    (hash(&b) ^ mix(l.map_or(0, u64::from)), bad)
                }
                Err(_) => (1, (w.b.len() <= MAX_PDU).then(|| format!("{}# of {} octets refused", k.name(), w.b.len()))),
            }
        }
        Op::Decode(b, split) => {
            let (r, left) = if *split && b.len() >= 12 {
                let (r, l) = de_body(k, header_of(b), &b[12..]);
                (r, l)
            } else {
                de(k, b)
            };
            match r {
                Ok(mut d) => {
                    let mut bad = None;
                    if let Ref::Accept(want, h, _, vague) = ref_decode(k, b) {
                        if !vague {
                            bad = want.diff(&*d).map(|e| format!("{}# {e}", k.name()));
                        }
                        if let Some(e) = h.diff(&d.header()) {
                            bad = Some(format!("{}# {e}", k.name()));
                        }
                    }
                    let b2 = ser(&mut *d).unwrap_or_default();
                    (hash(&b2) ^ mix(left as u64), bad)
                }
                Err(_) => {
                    let bad = matches!(ref_decode(k, b), Ref::Accept(..)).then(|| format!("{}# a well-formed message is rejected: {}", k.name(), hex(b, 200)));
                    (2, bad)
                }
            }
        }
        Op::New => {
            let mut p = lib(|| k.create());
            p.header_mut().timestamp = 5;
            let b = ser(&mut *p).unwrap_or_default();
            (hash(&b), None)
        }
    }
}
fn siblings(cx: &mut Ctx, n: u64) -> Vec<Job> {
    let i = cx.rng.next() % cx.env.kinds.len() as u64;
    let k = cx.kind(i);
    let p = generate(cx, k, true);
    let base = ref_encode(k, &*p);
    let (seed, mode, consistent) = (cx.rng.next(), *cx.rng.pick(&MODES), cx.rng.chance(50));
    (0..n)
        .map(|_| {
            let mut kind = i as usize;
            let what = match cx.rng.below(12) {
                0 => Op::Decode(base.clone(), cx.rng.chance(30)),
                1..=5 => {
                    let mut b = base.clone();
                    if b.len() > 12 {
                        // late octets mostly: what came before them is as it was
                        for _ in 0..1 + cx.rng.below(3) {
                            let at = 12 + cx.rng.below(b.len() as u64 - 12) as usize;
                            b[at] = if cx.rng.chance(50) { cx.rng.next() as u8 } else { b[at].wrapping_add(1) };
                        }
                    }
                    Op::Decode(b, cx.rng.chance(30))
                }
                6 | 7 => {
                    let i2 = cx.rng.next() % cx.env.kinds.len() as u64;
                    let k2 = cx.kind(i2);
                    kind = i2 as usize;
                    let p2 = generate(cx, k2, true);
                    let mut b = ref_encode(k2, &*p2);
                    let same = [6, 12, 20, 64][cx.rng.below(4) as usize];
                    let end = b.len().min(base.len()).min(12 + same);
                    if end > 12 {
                        b[12..end].copy_from_slice(&base[12..end]);
                    }
                    Op::Decode(b, cx.rng.chance(30))
                }
                8 => Op::Encode { seed, mode, consistent, big: false, force: None },
                _ => Op::Encode { seed, mode, consistent, big: false, force: Some((cx.rng.below(60) as usize, cx.rng.below(40))) },
            };
            Job { kind, what }
        })
        .collect()
}
fn jobs(cx: &mut Ctx, n: u64) -> Vec<Job> {
    if cx.section == "siblings" || cx.section == "threads" && cx.rng.chance(25) {
        return siblings(cx, n);
    }
    let focus = cx.rng.chance(50);
    let f = cx.rng.next();
    (0..n)
        .map(|_| {
            let i = if focus && cx.rng.chance(70) { f } else { cx.rng.next() } % cx.env.kinds.len() as u64;
            let k = cx.kind(i);
            let what = match cx.rng.below(20) {
                0..=6 => Op::Encode { seed: cx.rng.next(), mode: *cx.rng.pick(&MODES), consistent: cx.rng.chance(50), big: false, force: None },
                7 => Op::Encode { seed: cx.rng.next(), mode: Mode::Small, consistent: false, big: true, force: None },
                8..=11 => Op::Decode(foreign(cx, k), cx.rng.chance(30)),
                12..=14 => {
                    let p = generate(cx, k, true);
                    Op::Decode(ref_encode(k, &*p), cx.rng.chance(30))
                }
                15..=18 => Op::Decode(hostile(cx, k), cx.rng.chance(30)),
                _ => Op::New,
            };
            Job { kind: i as usize, what }
        })
        .collect()
}
fn c14_threads(cx: &mut Ctx) -> Res {
    let n = 12 + cx.rng.below(30);
    let js = jobs(cx, n);
    let mut alone = vec![];
    for (i, j) in js.iter().enumerate() {
        let (h, bad) = run(cx.env, j);
        if let Some(e) = bad {
            ensure!(!depends(cx, i, h), "{e}, but not in a fresh process");
        }
        alone.push(h);
    }
    let threads = 2 + cx.rng.below(7) as usize;
    let barrier = std::sync::Barrier::new(threads);
    let seeds: Vec<u64> = (0..threads).map(|_| cx.rng.next()).collect();
    let rounds = if cx.env.variant == "miri" { 1 } else { 3 };
    let out: Vec<Result<u64, String>> = std::thread::scope(|s| {
        let hs: Vec<_> = seeds
            .iter()
            .map(|seed| {
                let (js, alone, barrier, env) = (&js, &alone, &barrier, cx.env);
                s.spawn(move || {
                    let mut r = Rng::new(*seed);
                    let mut done = 0;
                    barrier.wait();
                    for _ in 0..rounds {
                        let at = r.below(js.len() as u64) as usize;
                        for o in 0..js.len() {
                            let i = (at + o) % js.len();
                            let (h, bad) = run(env, &js[i]);
                            if h != alone[i] {
                                return Err(format!("{}# gives another result among other threads than alone: {}", env.kinds[js[i].kind].name(), bad.unwrap_or_default()));
                            }
                            done += 1;
                        }
                    }
                    Ok(done)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("thread lost".into()))).collect()
    });
    cx.eval(Some(alone.iter().fold(threads as u64, |a, x| mix(a ^ x))));
    cx.count("threads run", threads as u64);
    cx.sample(|| format!("{n} operations on {threads} threads"));
    for o in out {
        let d = o?;
        cx.count("operations compared", d);
    }
    Ok(())
}
fn c14_orders(cx: &mut Ctx) -> Res {
    let n = 6 + cx.rng.below(20);
    let js = jobs(cx, n);
    let mut first: Vec<Option<u64>> = vec![None; js.len()];
    for _ in 0..4 {
        let mut order: Vec<usize> = (0..js.len()).collect();
        for i in (1..order.len()).rev() {
            order.swap(i, cx.rng.below(i as u64 + 1) as usize);
        }
        if cx.rng.chance(50) {
            // one operation many times
            let x = order[0];
            order.extend(std::iter::repeat_n(x, 10));
        }
        for i in order {
            let (h, bad) = run(cx.env, &js[i]);
            if let (Some(e), None) = (&bad, first[i]) {
                ensure!(!depends(cx, i, h), "{e} after other operations, but not in a fresh process");
            }
            match first[i] {
                None => first[i] = Some(h),
                Some(f) => ensure!(f == h, "{}# gives another result after other operations: {}", cx.env.kinds[js[i].kind].name(), bad.unwrap_or_default()),
            }
            cx.count("operations compared", 1);
        }
    }
    cx.eval(Some(first.iter().flatten().fold(7, |a, x| mix(a ^ x))));
    Ok(())
}
