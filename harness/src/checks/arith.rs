//! C17: vector arithmetic against 64-bit evaluation.
use super::ensure;
use crate::core::*;
use crate::engine::{Ctx, OnPanic, Section};
use open_dis_rust::common::data_types::vector3_float::Vector3Float as V3;

type Res = Result<(), String>;
pub fn c17() -> Vec<Section> {
    vec![
        Section { name: "pairs", quick: 1_500_000, thorough: 60_000_000, on_panic: OnPanic::Violation, run: c17_pairs, rule: "pairs of vectors and a scalar with components zero or of magnitude 1e-12 to 1e12 (random, equal, opposite, parallel, orthogonal, alike in some components, small integers, dictionary values): every operation against its 64-bit value with an a-priori bound" },
        Section { name: "normalize", quick: 500_000, thorough: 20_000_000, on_panic: OnPanic::Violation, run: c17_normalize, rule: "vectors with components zero or of magnitude 1e-15 to 1e15; the zero vectors" },
        Section { name: "constants", quick: 1, thorough: 1, on_panic: OnPanic::Violation, run: c17_constants, rule: "the named vectors" },
    ]
}
fn comp(cx: &mut Ctx, decades: i32) -> f32 {
    let sign = if cx.rng.chance(50) { -1.0 } else { 1.0 };
    let r = cx.rng.next();
    let unit = 1.0 + (r >> 40) as f64 / f64::from(1 << 24);
    let v = match cx.rng.below(10) {
        0 => 0.0,
        1 => (r % 20) as f64,
        2 => (r % 2000) as f64 * 0.25,
        3 => 2f64.powi((r % 60) as i32 - 30),
        4 => {
            let d = if !cx.env.dict.novel_floats.is_empty() && cx.rng.chance(70) {
                *cx.rng.pick(&cx.env.dict.novel_floats)
            } else if !cx.env.dict.novel.is_empty() && cx.rng.chance(50) {
                *cx.rng.pick(&cx.env.dict.novel) as f64
            } else {
                1.0
            };
            d * if cx.rng.chance(50) { 1.0 } else { unit }
        }
        5 | 6 => unit,
        _ => unit * 10f64.powi((r % (2 * decades as u64 + 1)) as i32 - decades),
    };
    let v = (sign * v) as f32;
    let lim = 10f32.powi(decades + 1);
    if v != 0.0 && (v.abs() < 1.0 / lim || v.abs() > lim || !v.is_finite()) {
        1.5
    } else {
        v
    }
}
fn vec(cx: &mut Ctx, d: i32) -> V3 {
    let (x, y, z) = (comp(cx, d), comp(cx, d), comp(cx, d));
    match cx.rng.below(8) {
        0 => V3::new(x, 0.0, 0.0),
        1 => V3::new(0.0, x, 0.0),
        2 => V3::new(0.0, 0.0, x),
        3 => V3::new(x, x, x),
        4 => V3::new(x, -x, y),
        _ => V3::new(x, y, z),
    }
}
const U: f64 = 1.0 / (1 << 24) as f64;
fn close(got: f32, want: f64, bound: f64) -> bool {
    (f64::from(got) - want).abs() <= bound + 1e-37
}
fn d(v: V3) -> [f64; 3] {
    [v.x.into(), v.y.into(), v.z.into()]
}
fn id(a: &V3) -> u64 {
    mix(u64::from(a.x.to_bits()) | u64::from(a.y.to_bits()) << 32) ^ mix(u64::from(a.z.to_bits()))
}
fn c17_pairs(cx: &mut Ctx) -> Res {
    let a = vec(cx, 12);
    let mut b = vec(cx, 12);
    match cx.rng.below(14) {
        0 => b = a,
        1 => b = V3::new(-a.x, -a.y, -a.z),
        2 => b = V3::new(a.x * 2.0, a.y * 2.0, a.z * 2.0),
        3 => b = V3::new(-a.y, a.x, 0.0),
        // alike, opposite or proportional in some components only
        way @ 4..=7 => {
            let k = [1.0, -1.0, 2.0, 0.5][way as usize - 4];
            let alike = 1 + cx.rng.below(6);
            for (i, from, to) in [(0, a.x, &mut b.x), (1, a.y, &mut b.y), (2, a.z, &mut b.z)] {
                if alike >> i & 1 == 1 {
                    *to = from * k;
                }
            }
        }
        _ => {}
    }
    let s = match cx.rng.below(16) {
        0 => 1.0,
        1 => -1.0,
        2 => a.x,
        3 => lib(|| a.magnitude()),
        _ => comp(cx, 12),
    };
    let (p, q) = (d(a), d(b));
    cx.eval(Some(id(&a) ^ id(&b).rotate_left(7)));
    cx.sample(|| format!("{a:?} {b:?} {s}"));
    let (sum, dif, sc) = lib(|| (a + b, a - b, a * s));
    let fs = f64::from(s);
    for (i, n) in ["x", "y", "z"].iter().enumerate() {
        let want = p[i] + q[i];
        ensure!(close(d(sum)[i] as f32, want, 2.0 * U * want.abs()), "sum# {a:?} + {b:?} = {sum:?}, {n} should be {want}");
        let want = p[i] - q[i];
        ensure!(close(d(dif)[i] as f32, want, 2.0 * U * want.abs()), "difference# {a:?} - {b:?} = {dif:?}, {n} should be {want}");
        let want = p[i] * fs;
        ensure!(close(d(sc)[i] as f32, want, 2.0 * U * want.abs()), "scaling# {a:?} * {s} = {sc:?}, {n} should be {want}");
    }
    if s != 0.0 {
        let qu = lib(|| a / s);
        for i in 0..3 {
            let want = p[i] / fs;
            ensure!(close(d(qu)[i] as f32, want, 6.0 * U * want.abs()), "division# {a:?} / {s} = {qu:?}, component {i} should be {want}");
        }
    }
    let (dot, cross, mag) = lib(|| (a.dot(&b), a.cross(&b), a.magnitude()));
    let want = p[0] * q[0] + p[1] * q[1] + p[2] * q[2];
    let size = (p[0] * q[0]).abs() + (p[1] * q[1]).abs() + (p[2] * q[2]).abs();
    ensure!(close(dot, want, 6.0 * U * size), "dot product# {a:?} . {b:?} = {dot}, should be {want}");
    for i in 0..3 {
        let (j, k) = ((i + 1) % 3, (i + 2) % 3);
        let want = p[j] * q[k] - p[k] * q[j];
        let size = (p[j] * q[k]).abs() + (p[k] * q[j]).abs();
        ensure!(close(d(cross)[i] as f32, want, 5.0 * U * size), "cross product# {a:?} x {b:?} = {cross:?}, component {i} should be {want}");
    }
    let want = (p[0] * p[0] + p[1] * p[1] + p[2] * p[2]).sqrt();
    ensure!(close(mag, want, 8.0 * U * want), "magnitude# |{a:?}| = {mag}, should be {want}");
    Ok(())
}
fn c17_normalize(cx: &mut Ctx) -> Res {
    let a = vec(cx, 15);
    let p = d(a);
    let n = (p[0] * p[0] + p[1] * p[1] + p[2] * p[2]).sqrt();
    cx.eval(Some(id(&a)));
    let got = lib(|| a.normalize());
    if p == [0.0; 3] {
        ensure!(got.is_none(), "normalization# of {a:?} gives {got:?}");
        cx.count("zero vectors", 1);
        return Ok(());
    }
    let Some(u) = got else { return Err(format!("normalization# of {a:?} gives nothing")) };
    for i in 0..3 {
        let want = p[i] / n;
        ensure!(close(d(u)[i] as f32, want, 14.0 * U * want.abs() + 1e-36), "normalization# of {a:?} gives {u:?}, component {i} should be {want}");
    }
    let m = d(u).iter().map(|x| x * x).sum::<f64>().sqrt();
    ensure!((m - 1.0).abs() < 1e-6, "normalization# of {a:?} gives {u:?} of length {m}");
    Ok(())
}
fn c17_constants(cx: &mut Ctx) -> Res {
    cx.eval(Some(1));
    ensure!(d(V3::zero()) == [0.0; 3] && d(V3::one()) == [1.0; 3] && d(V3::unit_x()) == [1.0, 0.0, 0.0] && d(V3::unit_y()) == [0.0, 1.0, 0.0] && d(V3::unit_z()) == [0.0, 0.0, 1.0], "constants# of the wrong value");
    for z in [V3::zero(), V3::new(-0.0, 0.0, -0.0), V3::default()] {
        ensure!(lib(|| z.normalize()).is_none() && lib(|| z.magnitude()) == 0.0, "normalization# of {z:?} gives something");
    }
    Ok(())
}
