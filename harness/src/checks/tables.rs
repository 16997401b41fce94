//! C10: enumeration tables.
use super::ensure;
use crate::core::*;
use crate::engine::{Ctx, OnPanic, Section};
use crate::golden::{EnumRow, ENUMS};
use bytes::{Buf, BytesMut};
use open_dis_rust::common::enums::{FrozenBehavior, LandPlatformAppearance, ObjectStateAppearanceGeneral};
use open_dis_rust::pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize};
use std::collections::HashMap;

type Res = Result<(), String>;
pub fn c10() -> Vec<Section> {
    vec![
        Section { name: "codes", quick: ENUMS.len() as u64, thorough: ENUMS.len() as u64, on_panic: OnPanic::Violation, run: c10_codes, rule: "every enumeration: each name's code, and the decoding of every 8- and 16-bit code, and of assigned, neighbouring, bit-flipped and random 32-bit codes; octets consumed" },
        Section { name: "fields", quick: ENUMS.len() as u64, thorough: ENUMS.len() as u64, on_panic: OnPanic::Violation, run: c10_fields, rule: "every enumeration usable as a field: octets written, reported length, and decoding of every name" },
        Section { name: "flags", quick: 3 * 256, thorough: 3 * 2560, on_panic: OnPanic::Violation, run: c10_flags, rule: "every pattern of the defined bits of the flag sets of 8 and 16 bits, patterns of that of 32; every name's bit" },
        Section { name: "every", quick: ALL, thorough: ALL, on_panic: OnPanic::Violation, run: c10_every, rule: "spans of 2^20 codes of the 32-bit enumerations, each code decoded: the lowest 2^24 first, then the rest, all 2^32 unless time runs out; non-trivial: all" },
    ]
}
fn c10_codes(cx: &mut Ctx) -> Res {
    let e: &EnumRow = &ENUMS[cx.idx as usize % ENUMS.len()];
    let n = (e.bits / 8) as usize;
    // names
    let actual = (e.actual)();
    let mut seen: HashMap<u64, &str> = HashMap::new();
    for ((name, code), got) in e.codes.iter().zip(&actual) {
        cx.eval(Some(mix(cx.idx << 32 | code)));
        ensure!(got == code, "{}# {name} has code {got}, not {code}", e.name);
        if let Some(o) = seen.insert(*got, name) {
            return Err(format!("{}# {name} and {o} share code {got}", e.name));
        }
    }
    if let Some(d) = e.dflt {
        ensure!(d() == e.default, "{}# default has code {}, not {}", e.name, d(), e.default);
    }
    let table: HashMap<u64, u64> = e.codes.iter().map(|(_, c)| (*c, *c)).collect();
    let codes: Vec<u64> = if e.bits <= 16 {
        (0..1u64 << e.bits).collect()
    } else {
        let mut v: Vec<u64> = vec![0, 1, mask(32), mask(32) - 1, 1 << 31, (1 << 31) - 1];
        for (_, c) in e.codes {
            v.extend([*c, c.wrapping_add(1), c.wrapping_sub(1), c ^ 0x1_0000, c ^ 0x8000_0000, c ^ 0x100, c << 16, c.swap_bytes() >> 32]);
        }
        for b in 0..32 {
            v.push(1 << b);
            v.push(mask(b));
        }
        v.extend(0..70_000u64);
        for _ in 0..if cx.env.thorough { 2_000_000 } else { 100_000 } {
            v.push(cx.rng.next());
        }
        v.extend(&cx.env.dict.ints);
        v.into_iter().map(|x| x & mask(32)).collect()
    };
    cx.sample(|| format!("{} ({} bits): {} codes offered, {} named", e.name, e.bits, codes.len(), e.codes.len()));
    let whole = cx.rng.chance(50);
    for c in codes {
        let mut b = c.to_be_bytes()[8 - n..].to_vec();
        b.extend_from_slice(&[0xA5; 3]);
        let mut s = &b[..if whole { n + 3 } else { n }];
        let before = s.len();
        let (v, _) = lib(|| (e.decode)(&mut s));
        let want = table.get(&c).copied().unwrap_or(e.default);
        ensure!(v == want, "{}# code {c:#x} decodes to the name of code {v:#x}, not {want:#x}", e.name);
        ensure!(before - s.remaining() == n, "{}# decoding consumes {} octets, not {n}", e.name, before - s.remaining());
    }
    cx.count("codes decoded", 1u64 << e.bits.min(17));
    Ok(())
}
/// Decodes each code from `lo` on, before `hi`: the first that reads as another code than its own
/// (assigned codes, in order) or the default.
pub type Scan = fn(&[u64], u64, u64, u64) -> Option<(u64, u64)>;
pub fn scan(codes: &[u64], dflt: u64, lo: u64, hi: u64, decode: impl Fn(&[u8]) -> u64) -> Option<(u64, u64)> {
    let mut next = codes.partition_point(|c| *c < lo);
    for c in lo..hi {
        let known = codes.get(next) == Some(&c);
        next += usize::from(known);
        let v = decode(&(c as u32).to_be_bytes());
        if v != if known { c } else { dflt } {
            return Some((c, v));
        }
    }
    None
}
const SPANS: u64 = 10;
const ALL: u64 = SPANS << 12;
fn c10_every(cx: &mut Ctx) -> Res {
    let wide: Vec<&EnumRow> = ENUMS.iter().filter(|e| e.scan.is_some()).collect();
    let e = wide[cx.idx as usize % wide.len()];
    let k = cx.idx / wide.len() as u64 & 0xFFF;
    // the lowest 2^24 codes in order, then the others, far apart ones first
    let span = if k < 16 { k } else { 16 + (k - 16) * 1597 % 4080 };
    let mut codes: Vec<u64> = e.codes.iter().map(|c| c.1).collect();
    codes.sort_unstable();
    let found = lib(|| (e.scan.unwrap())(&codes, e.default, span << 20, (span + 1) << 20));
    cx.eval(Some(mix(cx.idx)));
    cx.count("32-bit codes decoded", 1 << 20);
    cx.sample(|| format!("{}: codes {:#x}..{:#x}", e.name, span << 20, (span + 1) << 20));
    if let Some((c, v)) = found {
        return Err(format!("{}# code {c:#x} decodes to the name of code {v:#x}", e.name));
    }
    Ok(())
}
fn c10_fields(cx: &mut Ctx) -> Res {
    let e: &EnumRow = &ENUMS[cx.idx as usize % ENUMS.len()];
    let n = (e.bits / 8) as usize;
    let Some((put, get, len)) = e.field else { return Ok(()) };
    for (i, (name, code)) in e.codes.iter().enumerate() {
        let mut b = BytesMut::new();
        lib(|| put(i, &mut b));
        cx.eval(Some(mix(cx.idx << 32 | code)));
        let want = &code.to_be_bytes()[8 - n..];
        ensure!(b[..] == *want, "{}# {name} is written as {}, not {}", e.name, hex(&b, 16), hex(want, 16));
        let l = lib(|| len(i));
        ensure!(l == n, "{}# {name} reports length {l}, not {n}", e.name);
        let mut s = want;
        let v = lib(|| get(&mut s));
        ensure!(v == *code && s.is_empty(), "{}# {name} as a field decodes to code {v}", e.name);
    }
    // unknown codes as a field
    let used: std::collections::HashSet<u64> = e.codes.iter().map(|c| c.1).collect();
    for i in 0..if e.bits <= 16 { 1u64 << e.bits } else { 20_000 } {
        let c = if e.bits <= 16 { i } else { cx.rng.next() >> cx.rng.below(32) & mask(e.bits) };
        if used.contains(&c) {
            continue;
        }
        let b = c.to_be_bytes();
        let mut s = &b[8 - n..];
        let v = lib(|| get(&mut s));
        ensure!(v == e.default && s.is_empty(), "{}# unknown code {c} as a field decodes to code {v}, not {}", e.name, e.default);
    }
    Ok(())
}
fn flags<T: FieldSerialize + FieldDeserialize + FieldLen>(cx: &mut Ctx, name: &str, bits: u64, n: usize, v: T, of: impl Fn(&T) -> u64) -> Res {
    let mut b = BytesMut::new();
    lib(|| v.serialize_field(&mut b));
    cx.eval(Some(mix(bits) ^ n as u64));
    let want = &bits.to_be_bytes()[8 - n..];
    ensure!(b[..] == *want && lib(|| v.field_len()) == n, "{name}# {bits:#x} is written as {}", hex(&b, 8));
    let mut s = &b[..];
    let d = lib(|| T::deserialize_field(&mut s));
    ensure!(of(&d) == bits && s.is_empty(), "{name}# {bits:#x} decodes to {:#x}", of(&d));
    Ok(())
}
const FROZEN: &[(FrozenBehavior, u32)] = &[(FrozenBehavior::RunSimulationClock, 0), (FrozenBehavior::TransmitUpdates, 1), (FrozenBehavior::ProcessUpdates, 2)];
type O = ObjectStateAppearanceGeneral;
const OBJECT: &[(O, u32)] = &[(O::PercentComplete, 0), (O::Damage, 8), (O::Predistributed, 10), (O::State, 11), (O::IsSmoking, 12), (O::IsFlaming, 13), (O::IEDPresent, 14)];
type L = LandPlatformAppearance;
const LAND: &[(L, u32)] = &[
    (L::PaintScheme, 0), (L::MobilityKilled, 1), (L::FirePowerKilled, 2), (L::Damage, 3), (L::IsSmokeEmanating, 5), (L::IsEngineEmittingSmoke, 6), (L::TrailingDustCloud, 7),
    (L::PrimaryHatch, 9), (L::HeadLightsOn, 12), (L::TailLightsOn, 13), (L::BrakeLightsOn, 14), (L::IsFlaming, 15), (L::LauncherOperational, 16), (L::CamouflageType, 17),
    (L::ConcealedPosition, 19), (L::IsFrozen, 21), (L::PowerPlantOn, 22), (L::State, 23), (L::TentExtended, 24), (L::RampExtended, 25), (L::BlackoutLightsOn, 26),
    (L::BlackoutBrakeLightsOn, 27), (L::SpotSearchLight1On, 28), (L::InteriorLightsOn, 29), (L::OccupantsSurrendered, 30), (L::MaskedCloaked, 31),
];
/// A pattern of bits made a set of flags: only of defined bits, which it then holds.
fn pattern(name: &str, bits: u32, table: &[u32], got: Option<u32>) -> Res {
    let defined = table.iter().fold(0, |a, b| a | 1u32 << b);
    let want = (bits & !defined == 0).then_some(bits);
    ensure!(got == want, "{name}# made from {bits:#x} is {got:x?}, not {want:x?}");
    Ok(())
}
fn c10_flags(cx: &mut Ctx) -> Res {
    let i = cx.idx / 3;
    for (name, named) in [
        ("FrozenBehavior", FROZEN.iter().map(|(f, b)| (u32::from(f.as_u8()), *b)).collect::<Vec<_>>()),
        ("ObjectStateAppearanceGeneral", OBJECT.iter().map(|(f, b)| (u32::from(f.as_u16()), *b)).collect()),
        ("LandPlatformAppearance", LAND.iter().map(|(f, b)| (f.as_u32(), *b)).collect()),
    ] {
        for (n, (got, b)) in named.into_iter().enumerate() {
            ensure!(got == 1 << b, "{name}# flag number {n} is {got:#x}, not {:#x}", 1u32 << b);
        }
    }
    ensure!(FrozenBehavior::default().bits() == 0 && O::default().bits() == 0 && L::default().bits() == 0, "a default set of flags is not empty");
    let bits = |t: &[u32], x: u64| t.iter().enumerate().fold(0u32, |a, (i, b)| a | ((x >> i & 1) as u32) << b);
    match cx.idx % 3 {
        0 => {
            let t: Vec<u32> = FROZEN.iter().map(|f| f.1).collect();
            pattern("FrozenBehavior", i as u32 & 255, &t, lib(|| FrozenBehavior::from_u8(i as u8)).map(|f| f.as_u8().into()))?;
            let v = FrozenBehavior::from_bits_truncate(i as u8);
            flags(cx, "FrozenBehavior", bits(&t, i).into(), 1, FrozenBehavior::from_bits_truncate(bits(&t, i) as u8), |f| f.bits().into())?;
            flags(cx, "FrozenBehavior", v.bits().into(), 1, v, |f| f.bits().into())
        }
        1 => {
            let t: Vec<u32> = OBJECT.iter().map(|f| f.1).collect();
            for lo in 0..256u16 {
                let x = (i as u16) << 8 | lo;
                pattern("ObjectStateAppearanceGeneral", x.into(), &t, lib(|| O::from_u16(x)).map(|f| f.as_u16().into()))?;
                let v = O::from_bits_truncate(x);
                flags(cx, "ObjectStateAppearanceGeneral", v.bits().into(), 2, v, |f| f.bits().into())?;
            }
            Ok(())
        }
        _ => {
            let t: Vec<u32> = LAND.iter().map(|f| f.1).collect();
            for _ in 0..1000 {
                let r = cx.rng.next();
                let x = if r >> 63 == 0 { bits(&t, r) } else { r as u32 & (r >> 20) as u32 };
                cx.eval(Some(mix(x.into())));
                pattern("LandPlatformAppearance", x, &t, lib(|| L::from_u32(x)).map(|f| f.as_u32()))?;
            }
            Ok(())
        }
    }
}
