//! The reference model's vocabulary: generator (G), reference writer (W), reference reader (R),
//! the `Wire` trait that every field type implements, and type-erased PDU and record kinds.
use bytes::{Buf, BytesMut};
use open_dis_rust::common::enums::{PduType, ProtocolFamily};
use open_dis_rust::common::{DISError, Pdu, PduHeader};
use std::any::Any;
use std::cell::RefCell;
use std::marker::PhantomData;

// ------------------------------------------------------------------ random numbers
#[derive(Clone)]
pub struct Rng(pub [u64; 4]);
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut s = [0; 4];
        let mut x = seed;
        for v in &mut s {
            x = mix(x);
            *v = x;
        }
        s[0] |= 1;
        Rng(s)
    }
    pub fn next(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    /// uniform below n (n > 0)
    pub fn below(&mut self, n: u64) -> u64 {
        ((u128::from(self.next()) * u128::from(n)) >> 64) as u64
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, pct: u64) -> bool {
        self.below(100) < pct
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
}

// ------------------------------------------------------------------ dictionary
#[derive(Default)]
pub struct Dict {
    pub ints: Vec<u64>,
    pub novel: Vec<u64>,
    pub floats: Vec<f64>,
    pub novel_floats: Vec<f64>,
    pub words: Vec<String>,
    pub novel_words: Vec<String>,
    /// enumerators by enumeration
    pub novel_paths: std::collections::HashMap<String, Vec<String>>,
}

impl Dict {
    pub fn is_novel(&self) -> bool {
        !self.novel.is_empty() || !self.novel_paths.is_empty()
    }
}

// ------------------------------------------------------------------ generator
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
    Mixed,
    Uniform,
    Zero,
    Ones,
    Distinct,
    Pool,
    Sparse,
    Novel,
    Small,
}
pub const MODES: [Mode; 9] = [Mode::Mixed, Mode::Uniform, Mode::Zero, Mode::Ones, Mode::Distinct, Mode::Pool, Mode::Sparse, Mode::Novel, Mode::Small];
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Draw {
    Int(u32),
    Enum(usize),
    List(u64),
    Opt,
    Text,
}
pub struct G<'a> {
    pub rng: Rng,
    pub mode: Mode,
    /// counts and lengths agree with what they describe
    pub consistent: bool,
    /// list lengths: None = random, Some(n) = at most n
    pub list_cap: Option<u64>,
    pub big_lists: bool,
    /// lists may outgrow their counts
    pub over: bool,
    pub budget: u64,
    pub depth: u32,
    pub force: Option<(usize, u64)>,
    pub draws: usize,
    pub trace: Option<Vec<Draw>>,
    pub dict: &'a Dict,
    pub weird_text: bool,
    pool: [u64; 3],
    counter: u8,
}
impl<'a> G<'a> {
    pub fn new(seed: u64, mode: Mode, dict: &'a Dict) -> Self {
        let mut rng = Rng::new(seed);
        let pool = [rng.next(), rng.next() & 0xFFFF, rng.next() & 0xFF];
        let counter = rng.next() as u8;
        G { rng, mode, consistent: true, list_cap: None, big_lists: false, over: false, budget: 300, depth: 0, force: None, draws: 0, trace: None, dict, weird_text: false, pool, counter }
    }
    fn forced(&mut self, d: Draw) -> Option<u64> {
        let k = self.draws;
        self.draws += 1;
        if let Some(t) = &mut self.trace {
            t.push(d);
        }
        match self.force {
            Some((i, v)) if i == k => Some(v),
            _ => None,
        }
    }
    fn dict_int(&mut self, bits: u32) -> u64 {
        let m = mask(bits);
        let use_novel = !self.dict.novel.is_empty() && self.rng.chance(60);
        let v = if use_novel { &self.dict.novel } else { &self.dict.ints };
        if v.is_empty() {
            return self.rng.next() & m;
        }
        // prefer literals that fit the width
        let mut x = *self.rng.pick(v);
        for _ in 0..4 {
            if x <= m {
                break;
            }
            x = *self.rng.pick(v);
        }
        let x = match self.rng.below(8) {
            0 => x.wrapping_add(1),
            1 => x.wrapping_sub(1),
            2 => x.wrapping_neg(),
            3 => x << self.rng.below(u64::from(bits)),
            _ => x,
        };
        x & m
    }
    pub fn boundary(&mut self, bits: u32) -> u64 {
        let m = mask(bits);
        let x = match self.rng.below(9) {
            0 => 0,
            1 => 1,
            2 => m,
            3 => m - 1,
            4 => 1u64 << self.rng.below(u64::from(bits)),
            5 => (1u64 << self.rng.below(u64::from(bits))).wrapping_sub(1),
            6 => m ^ (1u64 << self.rng.below(u64::from(bits))),
            7 => 1u64 << (bits - 1),
            _ => (1u64 << (bits - 1)) - 1,
        };
        x & m
    }
    pub fn int(&mut self, bits: u32) -> u64 {
        let m = mask(bits);
        let v = match self.mode {
            Mode::Mixed => match self.rng.below(100) {
                0..=24 => self.boundary(bits),
                25..=44 => self.dict_int(bits),
                45..=74 => self.rng.next(),
                75..=86 => self.pool[self.rng.below(3) as usize],
                _ => self.rng.below(20),
            },
            Mode::Uniform => self.rng.next(),
            Mode::Zero => 0,
            Mode::Ones => m,
            Mode::Distinct => {
                let mut x = 0;
                for _ in 0..bits / 8 {
                    self.counter = self.counter.wrapping_add(1);
                    x = x << 8 | u64::from(self.counter);
                }
                x
            }
            Mode::Pool => {
                let i = if self.rng.chance(80) { 0 } else { 1 };
                self.pool[i]
            }
            Mode::Sparse => {
                if self.rng.chance(7) {
                    if self.rng.chance(50) {
                        self.dict_int(bits)
                    } else {
                        self.rng.next()
                    }
                } else {
                    0
                }
            }
            Mode::Novel => {
                if self.rng.chance(85) {
                    self.dict_int(bits)
                } else {
                    self.rng.below(4)
                }
            }
            Mode::Small => self.rng.below(6),
        };
        let v = v & m;
        self.forced(Draw::Int(bits)).map_or(v, |f| f & m)
    }
    pub fn float_bits(&mut self, bits: u32) -> u64 {
        let fl = matches!(self.mode, Mode::Mixed | Mode::Novel | Mode::Sparse) && self.rng.chance(45);
        if !fl {
            return self.int(bits);
        }
        let c: f64 = match self.rng.below(14) {
            0 => 0.0,
            1 => -0.0,
            2 => 1.0,
            3 => -1.0,
            4 => f64::INFINITY,
            5 => f64::NEG_INFINITY,
            6 => (self.rng.below(2000) as f64) - 1000.0,
            7 => (self.rng.below(2_000_000) as f64) * 0.125 - 100_000.0,
            8 => f64::from(f32::MIN_POSITIVE),
            9..=11 => {
                let v = if !self.dict.novel_floats.is_empty() && self.rng.chance(60) { &self.dict.novel_floats } else { &self.dict.floats };
                if v.is_empty() {
                    3.5
                } else {
                    let x = *self.rng.pick(v);
                    match self.rng.below(5) {
                        0 => -x,
                        1 => x + 1.0,
                        2 => x - 1.0,
                        _ => x,
                    }
                }
            }
            12 => f64::MAX,
            _ => (self.dict_int(16) as f64) * if self.rng.chance(20) { -1.0 } else { 1.0 },
        };
        let (nan32, nan64) = (0x7FA0_0001u64 | (self.rng.next() & 0x803F_FFFF), 0x7FF4_0000_0000_0001u64 | (self.rng.next() & 0x8003_FFFF_FFFF_FFFF));
        let nan = self.rng.chance(12);
        let v = if bits == 32 {
            if nan {
                nan32
            } else {
                u64::from((c as f32).to_bits())
            }
        } else if nan {
            nan64
        } else {
            c.to_bits()
        };
        self.forced(Draw::Int(bits)).map_or(v, |f| f & mask(bits))
    }
    /// index of an enumerator
    pub fn variant(&mut self, n: usize, default: usize) -> usize {
        let v = match self.mode {
            Mode::Zero | Mode::Sparse if !self.rng.chance(7) => default,
            Mode::Ones => n - 1,
            Mode::Small => self.rng.below(n.min(4) as u64) as usize,
            Mode::Pool => (self.pool[0] % n as u64) as usize,
            _ => self.rng.below(n as u64) as usize,
        };
        self.forced(Draw::Enum(n)).map_or(v, |f| f as usize % n)
    }
    /// in place of enumerator i, perhaps one that the sources under test have begun to mention
    pub fn novel_variant<T: WireEnum + std::fmt::Debug>(&mut self, name: &str, i: usize) -> usize {
        if self.force.is_some_and(|f| f.0 + 1 == self.draws) || matches!(self.mode, Mode::Zero) {
            return i;
        }
        if let Some(v) = self.dict.novel_paths.get(name) {
            if self.rng.chance(45) {
                let v = self.rng.pick(v);
                let names = T::table().names.get_or_init(|| T::ALL.iter().enumerate().map(|(i, x)| (format!("{:?}", x.0), i)).collect());
                return names.get(v).copied().unwrap_or(i);
            }
        }
        if !self.dict.novel.is_empty() && self.rng.chance(12) {
            let c = *self.rng.pick(&self.dict.novel);
            return T::table().index.get(&c).copied().unwrap_or(i);
        }
        i
    }
    pub fn len(&mut self, max: u64) -> u64 {
        let max = if self.over { max.max(1 << 20) } else { max };
        let top = match self.mode {
            Mode::Zero => 1,
            Mode::Sparse | Mode::Small => 2,
            _ => 1 << 20,
        };
        let r = self.rng.next();
        let mut n = match self.rng.below(100) {
            0..=17 => 0,
            18..=39 => 1,
            40..=56 => 2,
            57..=78 => 3 + r % 6,
            79..=89 => 9 + r % 32,
            90..=93 => self.dict_int(12),
            _ => r % 300,
        };
        if self.mode == Mode::Novel && !self.dict.novel.is_empty() && self.rng.chance(45) {
            n = self.dict_int(12);
        }
        if self.big_lists && self.depth == 0 && self.rng.chance(70) {
            n = 40 + self.rng.below(self.budget.max(1));
        }
        if self.depth > 0 {
            n = n.min(if self.rng.chance(10) { 60 } else { 6 });
        }
        n = n.min(top).min(max).min(self.budget);
        if let Some(c) = self.list_cap {
            n = n.min(c);
        }
        if let Some(f) = self.forced(Draw::List(max)) {
            n = f.min(max);
        }
        self.budget = self.budget.saturating_sub(n);
        n
    }
    /// Whether the draw just made was made to be what it is.
    pub fn was_forced(&self) -> bool {
        self.force.is_some_and(|f| f.0 + 1 == self.draws)
    }
    pub fn list<T: Wire>(&mut self, max: u64) -> Vec<T> {
        let n = self.len(max);
        self.depth += 1;
        let v = (0..n).map(|_| T::gen(self)).collect();
        self.depth -= 1;
        v
    }
    pub fn opt<T: Wire>(&mut self) -> Option<T> {
        let some = match self.mode {
            Mode::Zero => false,
            _ => self.rng.chance(65),
        };
        let some = self.forced(Draw::Opt).map_or(some, |f| f & 1 == 1);
        if some { Some(T::gen(self)) } else { None }
    }
    /// Lists of optional blocks. The decoder has no way to know about them (see known-findings),
    /// so a self-consistent PDU, for the purposes of round trips, has none.
    pub fn optlist<T: Wire>(&mut self) -> Vec<Option<T>> {
        if self.consistent {
            return vec![];
        }
        let n = self.len(400);
        (0..n).map(|_| if self.rng.chance(70) { Some(T::gen(self)) } else { None }).collect()
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.int(8) as u8).collect()
    }
    pub fn text(&mut self) -> String {
        let words = if !self.dict.novel_words.is_empty() && self.rng.chance(60) { &self.dict.novel_words } else { &self.dict.words };
        let mut s: String = match self.rng.below(10) {
            0 => String::new(),
            1..=2 if !words.is_empty() => self.rng.pick(words).clone(),
            3 => "A".repeat(self.rng.below(12) as usize),
            _ => {
                let n = self.rng.below(12);
                (0..n).map(|_| (0x20 + self.rng.below(0x5F)) as u8 as char).collect()
            }
        };
        if self.mode == Mode::Zero {
            s.clear();
        }
        if !self.consistent || self.weird_text {
            match self.rng.below(5) {
                0 => {
                    let n = match self.rng.below(200) {
                        0..=9 => 244 + self.rng.below(30),
                        10 => 65_520 + self.rng.below(40),
                        _ => 12 + self.rng.below(30),
                    };
                    s = (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect();
                }
                1 if self.weird_text => {
                    s.push(*self.rng.pick(&['é', '\u{4e2d}', '\u{1F680}', '\u{7f}', '\t']));
                    s.push_str("xyz");
                }
                _ => {}
            }
        } else {
            s.retain(|c| c.is_ascii() && c != '\0');
            s.truncate(11);
        }
        let f = self.forced(Draw::Text);
        if let Some(n) = f {
            s = (0..n % 24).map(|i| (b'A' + (i % 26) as u8) as char).collect();
            if self.consistent {
                s.truncate(11);
            }
        }
        s
    }
}
pub fn mask(bits: u32) -> u64 {
    if bits >= 64 { u64::MAX } else { (1 << bits) - 1 }
}
pub fn bits_for(n: usize, hint: u64) -> u64 {
    if n == 0 { 0 } else { ((n as u64 - 1) * 8 + 1 + hint % 8).min(65535) }
}

// ------------------------------------------------------------------ reference writer
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Span {
    Pad,
    Int,
    Count,
    Float,
    Enum,
    Flags,
    Text,
    Blob,
}
#[derive(Default)]
pub struct W {
    pub b: Vec<u8>,
    pub spans: Vec<(usize, usize, Span)>,
    /// offsets where an element of the outermost list starts or ends
    pub record_spans: bool,
    pub next_is_count: bool,
    pub vague: bool,
}
impl W {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn with_spans() -> Self {
        W { record_spans: true, ..Self::default() }
    }
    pub fn raw(&mut self, v: &[u8], k: Span) {
        if self.record_spans && !v.is_empty() {
            let k = if self.next_is_count { Span::Count } else { k };
            self.spans.push((self.b.len(), v.len(), k));
        }
        self.next_is_count = false;
        self.b.extend_from_slice(v);
    }
    pub fn int(&mut self, n: usize, v: u64) {
        self.raw(&v.to_be_bytes()[8 - n..], Span::Int);
    }
    pub fn pad(&mut self, n: usize) {
        self.raw(&vec![0; n], Span::Pad);
    }
    pub fn mark_count(&mut self) {
        self.next_is_count = true;
    }
    pub fn enter_list(&mut self) {}
    pub fn leave_list(&mut self) {}
}

// ------------------------------------------------------------------ reference reader
pub struct Short;
pub struct R<'a> {
    pub b: &'a [u8],
    pub p: usize,
    /// a value whose decoding the properties leave open was read: acceptance is still determined
    pub vague: bool,
    /// the layout itself is open (or a known finding): no judgement at all
    pub open: bool,
    pub lists_left: u64,
}
impl<'a> R<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        R { b, p: 0, vague: false, open: false, lists_left: 0 }
    }
    pub fn take(&mut self, n: usize) -> Result<&'a [u8], Short> {
        if self.b.len() - self.p < n {
            return Err(Short);
        }
        let s = &self.b[self.p..self.p + n];
        self.p += n;
        Ok(s)
    }
    pub fn left(&self) -> usize {
        self.b.len() - self.p
    }
    pub fn int(&mut self, n: usize) -> Result<u64, Short> {
        Ok(self.take(n)?.iter().fold(0, |a, x| a << 8 | u64::from(*x)))
    }
    pub fn skip(&mut self, n: usize) -> Result<(), Short> {
        self.take(n).map(|_| ())
    }
    pub fn div8(&mut self, n: u64) -> u64 {
        if n % 8 != 0 {
            self.open = true;
        }
        n / 8
    }
    pub fn list<T: Wire>(&mut self, n: u64) -> Result<Vec<T>, Short> {
        let mut v = vec![];
        for i in 0..n {
            self.lists_left = n - 1 - i;
            v.push(T::dec(self)?);
        }
        self.lists_left = 0;
        Ok(v)
    }
    pub fn opt<T: Blob>(&mut self, n: usize) -> Result<Option<T>, Short> {
        let b = self.take(n)?;
        Ok(if n == 0 { None } else { Some(T::make(b)) })
    }
}

// ------------------------------------------------------------------ field types
pub trait Wire: Sized {
    fn gen(g: &mut G) -> Self;
    fn enc(&self, w: &mut W);
    fn dec(r: &mut R) -> Result<Self, Short>;
    /// None when equal; otherwise where and how they differ
    fn diff(&self, o: &Self) -> Option<String>;
    fn dup(&self) -> Self;
}
macro_rules! wire_int {
    ($($t:ty, $n:expr;)*) => { $(
        impl Wire for $t {
            fn gen(g: &mut G) -> Self { g.int($n * 8) as $t }
            fn enc(&self, w: &mut W) { w.int($n, *self as u64 & mask($n * 8)); }
            fn dec(r: &mut R) -> Result<Self, Short> { Ok(r.int($n)? as $t) }
            fn diff(&self, o: &Self) -> Option<String> { if self == o { None } else { Some(format!(": {self:#x} vs {o:#x}")) } }
            fn dup(&self) -> Self { *self }
        }
    )* };
}
wire_int! { u8, 1; i8, 1; u16, 2; i16, 2; u32, 4; i32, 4; u64, 8; i64, 8; }
macro_rules! wire_float {
    ($($t:ty, $u:ty, $n:expr;)*) => { $(
        impl Wire for $t {
            fn gen(g: &mut G) -> Self { <$t>::from_bits(g.float_bits($n * 8) as $u) }
            fn enc(&self, w: &mut W) { w.raw(&self.to_bits().to_be_bytes(), Span::Float); }
            fn dec(r: &mut R) -> Result<Self, Short> { Ok(<$t>::from_bits(r.int($n)? as $u)) }
            fn diff(&self, o: &Self) -> Option<String> {
                if self.to_bits() == o.to_bits() { None } else { Some(format!(": {self:?} ({:#x}) vs {o:?} ({:#x})", self.to_bits(), o.to_bits())) }
            }
            fn dup(&self) -> Self { *self }
        }
    )* };
}
wire_float! { f32, u32, 4; f64, u64, 8; }
impl<T: Wire + Copy + Default, const N: usize> Wire for [T; N] {
    fn gen(g: &mut G) -> Self {
        let mut a = [T::default(); N];
        for x in &mut a {
            *x = T::gen(g);
        }
        a
    }
    fn enc(&self, w: &mut W) {
        for x in self {
            x.enc(w);
        }
    }
    fn dec(r: &mut R) -> Result<Self, Short> {
        let mut a = [T::default(); N];
        for x in &mut a {
            *x = T::dec(r)?;
        }
        Ok(a)
    }
    fn diff(&self, o: &Self) -> Option<String> {
        self.iter().zip(o).enumerate().find_map(|(i, (a, b))| a.diff(b).map(|d| format!("[{i}]{d}")))
    }
    fn dup(&self) -> Self {
        *self
    }
}
impl<T: Wire> Wire for Vec<T> {
    fn gen(g: &mut G) -> Self {
        g.list(1 << 20)
    }
    fn enc(&self, w: &mut W) {
        for x in self {
            x.enc(w);
        }
    }
    fn dec(_: &mut R) -> Result<Self, Short> {
        unreachable!("lists are read with their count")
    }
    fn diff(&self, o: &Self) -> Option<String> {
        if self.len() != o.len() {
            return Some(format!(": {} elements vs {}", self.len(), o.len()));
        }
        self.iter().zip(o).enumerate().find_map(|(i, (a, b))| a.diff(b).map(|d| format!("[{i}]{d}")))
    }
    fn dup(&self) -> Self {
        self.iter().map(Wire::dup).collect()
    }
}
pub fn diff_opt<T: Blob>(a: &Option<T>, b: &Option<T>) -> Option<String> {
    let (x, y) = (a.as_ref().map(blob_bytes).unwrap_or_default(), b.as_ref().map(blob_bytes).unwrap_or_default());
    if x == y { None } else { Some(format!(": {} octets {} vs {} octets {}", x.len(), hex(&x, 24), y.len(), hex(&y, 24))) }
}
pub fn dup_opt<T: Blob>(a: &Option<T>) -> Option<T> {
    a.as_ref().map(Blob::dup_blob)
}
pub fn diff_optlist<T: Wire>(a: &[Option<T>], b: &[Option<T>]) -> Option<String> {
    if a.len() != b.len() {
        return Some(format!(": {} optional elements vs {}", a.len(), b.len()));
    }
    a.iter().zip(b).enumerate().find_map(|(i, p)| match p {
        (None, None) => None,
        (Some(x), Some(y)) => x.diff(y).map(|d| format!("[{i}]{d}")),
        _ => Some(format!("[{i}]: presence differs")),
    })
}
pub fn dup_optlist<T: Wire>(a: &[Option<T>]) -> Vec<Option<T>> {
    a.iter().map(|x| x.as_ref().map(Wire::dup)).collect()
}

/// Length-directed blobs with private contents: made by decoding, looked into by encoding.
pub trait Blob: Sized {
    const NAME: &'static str;
    const MAX: usize;
    fn make_raw(b: &[u8]) -> Option<Self>;
    fn empty() -> Self;
    fn ser(&self, b: &mut BytesMut);
    fn flen(&self) -> usize;
    fn dup_blob(&self) -> Self {
        Self::make(&blob_bytes(self))
    }
    /// Make a blob of these octets; the library distorting them is noted as a violation.
    fn make(b: &[u8]) -> Self {
        if b.is_empty() {
            return Self::empty();
        }
        match lib(|| Self::make_raw(b)) {
            Some(v) => {
                let back = blob_bytes(&v);
                if back != b {
                    note(format!("{} made of octets {} yields {}", Self::NAME, hex(b, 40), hex(&back, 40)));
                }
                v
            }
            None => {
                note(format!("{} of {} octets is refused", Self::NAME, b.len()));
                Self::empty()
            }
        }
    }
}
pub fn blob_bytes<T: Blob>(v: &T) -> Vec<u8> {
    let mut b = BytesMut::new();
    lib(|| v.ser(&mut b));
    b.to_vec()
}
pub fn blob_len<T: Blob>(v: &T) -> usize {
    blob_bytes(v).len()
}

macro_rules! wire_enum {
    ($t:ident, $n:expr, $d:ident, [$(($v:ident, $c:expr)),* $(,)?]) => {
        impl WireEnum for $t {
            const N: usize = $n;
            const ALL: &'static [($t, u64)] = &[$(($t::$v, $c)),*];
            const DEFAULT: $t = $t::$d;
            fn table() -> &'static EnumTable {
                static T: std::sync::OnceLock<EnumTable> = std::sync::OnceLock::new();
                T.get_or_init(|| EnumTable::new(&<$t as WireEnum>::ALL.iter().map(|(v, c)| (*v as u64, *c)).collect::<Vec<_>>(), $t::$d as u64))
            }
            fn discr(&self) -> u64 { *self as u64 }
        }
        impl Wire for $t {
            fn gen(g: &mut G) -> Self {
                let t = <$t as WireEnum>::ALL;
                let i = g.variant(t.len(), <$t as WireEnum>::table().default);
                t[if g.dict.is_novel() { g.novel_variant::<$t>(stringify!($t), i) } else { i }].0
            }
            fn enc(&self, w: &mut W) { let c = <$t as WireEnum>::table().code[&(*self as u64)]; w.raw(&c.to_be_bytes()[8 - $n..], Span::Enum); }
            fn dec(r: &mut R) -> Result<Self, Short> {
                let c = r.int($n)?;
                Ok(match <$t as WireEnum>::table().index.get(&c) { Some(i) => <$t as WireEnum>::ALL[*i].0, None => <$t as WireEnum>::DEFAULT })
            }
            fn diff(&self, o: &Self) -> Option<String> {
                if *self as u64 == *o as u64 { None } else { Some(format!(": {self:?} vs {o:?}")) }
            }
            fn dup(&self) -> Self { *self }
        }
    };
}
pub(crate) use wire_enum;
pub trait WireEnum: Sized + 'static {
    const N: usize;
    const ALL: &'static [(Self, u64)];
    const DEFAULT: Self;
    fn table() -> &'static EnumTable;
    fn discr(&self) -> u64;
}
pub struct EnumTable {
    pub code: std::collections::HashMap<u64, u64, Quick>,
    pub index: std::collections::HashMap<u64, usize, Quick>,
    pub default: usize,
    pub names: std::sync::OnceLock<std::collections::HashMap<String, usize>>,
}
impl EnumTable {
    pub fn new(v: &[(u64, u64)], default: u64) -> Self {
        EnumTable { code: v.iter().copied().collect(), index: v.iter().enumerate().map(|(i, x)| (x.1, i)).collect(), default: v.iter().position(|x| x.0 == default).unwrap_or(0), names: std::sync::OnceLock::new() }
    }
}
/// an enumeration code in a field wider than its own width
pub fn enc_wide<T: WireEnum>(v: &T, w: &mut W, n: usize) {
    w.raw(&T::table().code[&v.discr()].to_be_bytes()[8 - n..], Span::Enum);
}
pub fn dec_wide<T: WireEnum + Copy>(r: &mut R, n: usize) -> Result<T, Short> {
    let c = r.int(n)?;
    Ok(T::table().index.get(&c).map_or(T::DEFAULT, |i| T::ALL[*i].0))
}
/// cheap deterministic hashing
#[derive(Default, Clone)]
pub struct Quick;
pub struct QuickH(u64);
impl std::hash::BuildHasher for Quick {
    type Hasher = QuickH;
    fn build_hasher(&self) -> QuickH {
        QuickH(0)
    }
}
impl std::hash::Hasher for QuickH {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = mix(self.0 ^ u64::from(*x));
        }
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = mix(self.0 ^ x);
    }
}

// ------------------------------------------------------------------ PDUs
pub trait PduSpec: Pdu<Header = PduHeader> + std::fmt::Debug + Sized + Send + 'static {
    const NAME: &'static str;
    const TYPE: (PduType, u8);
    const FAMILY: (ProtocolFamily, u8);
    const FIELDS: &'static [&'static str];
    const LISTS: &'static [usize];
    /// size of the body when it has no variable part
    const FIXED: Option<usize>;
    fn create() -> Self;
    fn set_field(&mut self, k: usize, g: &mut G);
    fn fix_counts(&mut self);
    fn trim_lists(&mut self, keep: usize);
    fn enc_body(&self, w: &mut W);
    fn dec_body(&mut self, r: &mut R) -> Result<(), Short>;
    fn diff_body(&self, o: &Self) -> Option<String>;
    fn dup_body(&self, o: &mut Self);
}
pub trait Dyn: Send {
    fn kind_name(&self) -> &'static str;
    fn lib_serialize(&mut self, b: &mut BytesMut) -> Result<(), DISError>;
    fn lib_length(&self) -> Result<u16, DISError>;
    fn lib_finalize(&mut self);
    fn header(&self) -> PduHeader;
    fn header_mut(&mut self) -> &mut PduHeader;
    fn set_field(&mut self, k: usize, g: &mut G);
    fn fix_counts(&mut self);
    fn trim_lists(&mut self, keep: usize);
    fn enc_body(&self, w: &mut W);
    fn diff(&self, o: &dyn Dyn) -> Option<String>;
    fn dup(&self) -> Box<dyn Dyn>;
    fn debug(&self) -> String;
    /// the library's own text, into anything
    fn lib_text(&self, to: &mut dyn std::fmt::Write, pretty: bool) -> std::fmt::Result;
    fn any(&self) -> &dyn Any;
    fn lib_as_any_is_self(&self) -> bool;
}
struct Holder<T>(T);
impl<T: PduSpec> Dyn for Holder<T> {
    fn kind_name(&self) -> &'static str {
        T::NAME
    }
    fn lib_serialize(&mut self, b: &mut BytesMut) -> Result<(), DISError> {
        self.0.serialize(b)
    }
    fn lib_length(&self) -> Result<u16, DISError> {
        self.0.calculate_length()
    }
    fn lib_finalize(&mut self) {
        self.0.finalize();
    }
    fn header(&self) -> PduHeader {
        *self.0.header()
    }
    fn header_mut(&mut self) -> &mut PduHeader {
        self.0.header_mut()
    }
    fn set_field(&mut self, k: usize, g: &mut G) {
        self.0.set_field(k, g);
    }
    fn fix_counts(&mut self) {
        self.0.fix_counts();
    }
    fn trim_lists(&mut self, keep: usize) {
        self.0.trim_lists(keep);
    }
    fn enc_body(&self, w: &mut W) {
        self.0.enc_body(w);
    }
    fn diff(&self, o: &dyn Dyn) -> Option<String> {
        match o.any().downcast_ref::<T>() {
            Some(o) => self.0.diff_body(o),
            None => Some("different PDU types".into()),
        }
    }
    fn dup(&self) -> Box<dyn Dyn> {
        let mut t = T::create();
        *t.header_mut() = *self.0.header();
        self.0.dup_body(&mut t);
        Box::new(Holder(t))
    }
    fn debug(&self) -> String {
        let mut w = W::new();
        self.0.enc_body(&mut w);
        format!("{} header={:?} body={}", T::NAME, self.0.header(), hex(&w.b, 400))
    }
    fn lib_text(&self, to: &mut dyn std::fmt::Write, pretty: bool) -> std::fmt::Result {
        if pretty {
            write!(to, "{:#?}", self.0)
        } else {
            write!(to, "{:?}", self.0)
        }
    }
    fn any(&self) -> &dyn Any {
        &self.0
    }
    fn lib_as_any_is_self(&self) -> bool {
        self.0.as_any().downcast_ref::<T>().is_some_and(|p| std::ptr::eq(p, &self.0))
    }
}
pub type DecodeResult = Result<Box<dyn Dyn>, DISError>;
pub trait Kind: Sync + Send {
    fn name(&self) -> &'static str;
    fn ty(&self) -> (PduType, u8);
    fn family(&self) -> (ProtocolFamily, u8);
    fn fields(&self) -> &'static [&'static str];
    fn lists(&self) -> &'static [usize];
    fn fixed(&self) -> Option<usize>;
    fn create(&self) -> Box<dyn Dyn>;
    fn default_pdu(&self) -> Box<dyn Dyn>;
    fn lib_decode(&self, b: &mut dyn Buf) -> DecodeResult;
    fn lib_decode_slice(&self, b: &mut &[u8]) -> DecodeResult;
    fn lib_decode_bytes_mut(&self, b: &mut BytesMut) -> DecodeResult;
    fn lib_decode_body(&self, b: &mut dyn Buf, h: PduHeader) -> DecodeResult;
    /// body from these octets; Err when there are too few
    fn ref_body(&self, r: &mut R) -> Result<Box<dyn Dyn>, Short>;
}
pub struct KindOf<T>(PhantomData<fn() -> T>);
impl<T> KindOf<T> {
    pub fn new() -> Self {
        KindOf(PhantomData)
    }
}
impl<T: PduSpec + Default> Kind for KindOf<T> {
    fn name(&self) -> &'static str {
        T::NAME
    }
    fn ty(&self) -> (PduType, u8) {
        T::TYPE
    }
    fn family(&self) -> (ProtocolFamily, u8) {
        T::FAMILY
    }
    fn fields(&self) -> &'static [&'static str] {
        T::FIELDS
    }
    fn lists(&self) -> &'static [usize] {
        T::LISTS
    }
    fn fixed(&self) -> Option<usize> {
        T::FIXED
    }
    fn create(&self) -> Box<dyn Dyn> {
        Box::new(Holder(T::create()))
    }
    fn default_pdu(&self) -> Box<dyn Dyn> {
        Box::new(Holder(T::default()))
    }
    fn lib_decode(&self, mut b: &mut dyn Buf) -> DecodeResult {
        T::deserialize(&mut b).map(|p| Box::new(Holder(p)) as Box<dyn Dyn>)
    }
    fn lib_decode_slice(&self, b: &mut &[u8]) -> DecodeResult {
        T::deserialize(b).map(|p| Box::new(Holder(p)) as Box<dyn Dyn>)
    }
    fn lib_decode_bytes_mut(&self, b: &mut BytesMut) -> DecodeResult {
        T::deserialize(b).map(|p| Box::new(Holder(p)) as Box<dyn Dyn>)
    }
    fn lib_decode_body(&self, mut b: &mut dyn Buf, h: PduHeader) -> DecodeResult {
        T::deserialize_without_header(&mut b, h).map(|p| Box::new(Holder(p)) as Box<dyn Dyn>)
    }
    fn ref_body(&self, r: &mut R) -> Result<Box<dyn Dyn>, Short> {
        let mut t = T::create();
        t.dec_body(r)?;
        Ok(Box::new(Holder(t)))
    }
}

// ------------------------------------------------------------------ headers, in the model
/// What the twelve octets of a header say.
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct RefHeader {
    pub version: u8,
    pub exercise: u8,
    pub ty: u8,
    pub family: u8,
    pub timestamp: u32,
    pub length: u16,
    pub status: u8,
    pub pad: u8,
}
impl RefHeader {
    pub fn read(b: &[u8]) -> Option<Self> {
        if b.len() < 12 {
            return None;
        }
        Some(RefHeader { version: b[0], exercise: b[1], ty: b[2], family: b[3], timestamp: u32::from_be_bytes([b[4], b[5], b[6], b[7]]), length: u16::from_be_bytes([b[8], b[9]]), status: b[10], pad: b[11] })
    }
    pub fn bytes(&self) -> [u8; 12] {
        let t = self.timestamp.to_be_bytes();
        let l = self.length.to_be_bytes();
        [self.version, self.exercise, self.ty, self.family, t[0], t[1], t[2], t[3], l[0], l[1], self.status, self.pad]
    }
    /// how a decoded header differs from this one
    pub fn diff(&self, h: &PduHeader) -> Option<String> {
        let e = |n: &str, a: String, b: String| Some(format!("header {n}: {a} on the wire, {b} decoded"));
        macro_rules! en {
            ($t:ty, $c:expr, $v:expr, $n:expr) => {
                let want = <$t as Wire>::dec(&mut R::new(&[$c])).ok().unwrap();
                if want != $v {
                    return e($n, format!("{} ({want:?})", $c), format!("{:?}", $v));
                }
            };
        }
        use open_dis_rust::common::enums::ProtocolVersion;
        en!(ProtocolVersion, self.version, h.protocol_version, "version");
        en!(PduType, self.ty, h.pdu_type, "type");
        en!(ProtocolFamily, self.family, h.protocol_family, "family");
        if self.exercise != h.exercise_id {
            return e("exercise", self.exercise.to_string(), h.exercise_id.to_string());
        }
        if self.timestamp != h.timestamp {
            return e("timestamp", self.timestamp.to_string(), h.timestamp.to_string());
        }
        if self.length != h.length {
            return e("length", self.length.to_string(), h.length.to_string());
        }
        if self.status != h.status_record.to_u8() {
            return e("status", self.status.to_string(), h.status_record.to_u8().to_string());
        }
        None
    }
}
/// Fill a header with generated values; type, family and length are left for serialization to set.
pub fn gen_header(h: &mut PduHeader, g: &mut G) {
    h.protocol_version = Wire::gen(g);
    h.exercise_id = Wire::gen(g);
    h.timestamp = Wire::gen(g);
    h.status_record = open_dis_rust::common::pdu_header::PduStatusRecord::from_u8(g.int(8) as u8);
}
/// ... and give it a stale type, family and length
pub fn stale_header(h: &mut PduHeader, g: &mut G) {
    if g.rng.chance(60) {
        h.pdu_type = Wire::gen(g);
        h.protocol_family = Wire::gen(g);
        h.length = Wire::gen(g);
    }
}
pub fn enc_header(h: &PduHeader, k: &dyn Kind, len: u16) -> [u8; 12] {
    let mut w = W::new();
    h.protocol_version.enc(&mut w);
    RefHeader { version: w.b[0], exercise: h.exercise_id, ty: k.ty().1, family: k.family().1, timestamp: h.timestamp, length: len, status: h.status_record.to_u8(), pad: 0 }.bytes()
}
pub fn gen_pdu(k: &dyn Kind, g: &mut G) -> Box<dyn Dyn> {
    let mut p = lib(|| k.create());
    gen_header(p.header_mut(), g);
    for f in 0..k.fields().len() {
        p.set_field(f, g);
    }
    if g.consistent {
        p.fix_counts();
    }
    p
}
/// The model's encoding. Length saturates in the header when over 65535.
pub fn ref_encode(k: &dyn Kind, p: &dyn Dyn) -> Vec<u8> {
    ref_encode_spans(k, p, false).b
}
pub fn ref_encode_spans(k: &dyn Kind, p: &dyn Dyn, spans: bool) -> W {
    let mut w = if spans { W::with_spans() } else { W::new() };
    w.b.extend_from_slice(&[0; 12]);
    p.enc_body(&mut w);
    let n = w.b.len();
    w.b[..12].copy_from_slice(&enc_header(&p.header(), k, n.min(65535) as u16));
    w
}

// ------------------------------------------------------------------ records
pub trait Rec: Wire + Send + 'static {
    const NAME: &'static str;
    const FIXED: Option<usize>;
    fn ser(&self, b: &mut BytesMut);
    fn de(b: &mut &mut dyn Buf) -> Self;
    fn fser(&self, _b: &mut BytesMut) -> bool {
        false
    }
    fn fde(_b: &mut &mut dyn Buf) -> Option<Self> {
        None
    }
    fn flen(&self) -> Option<usize> {
        None
    }
    fn slen() -> Option<usize> {
        None
    }
    /// its clone, if it has one
    fn copied(&self) -> Option<Self> {
        None
    }
    /// whether the two are equal and whether they are unequal, if it can tell
    fn equals(&self, _o: &Self) -> Option<(bool, bool)> {
        None
    }
}
/// Calls what a type may or may not implement.
pub struct Probe<'a, T>(pub &'a T);
pub trait CanCopy<T> {
    fn copied(&self) -> Option<T>;
}
impl<T: Clone> CanCopy<T> for Probe<'_, T> {
    fn copied(&self) -> Option<T> {
        Some(self.0.clone())
    }
}
pub trait CannotCopy<T> {
    fn copied(&self) -> Option<T>;
}
impl<T> CannotCopy<T> for &Probe<'_, T> {
    fn copied(&self) -> Option<T> {
        None
    }
}
pub trait CanEqual<T> {
    fn equals(&self, o: &T) -> Option<(bool, bool)>;
}
#[allow(clippy::partialeq_ne_impl, clippy::nonminimal_bool)]
impl<T: PartialEq> CanEqual<T> for Probe<'_, T> {
    fn equals(&self, o: &T) -> Option<(bool, bool)> {
        Some((self.0 == o, self.0 != o))
    }
}
pub trait CannotEqual<T> {
    fn equals(&self, o: &T) -> Option<(bool, bool)>;
}
impl<T> CannotEqual<T> for &Probe<'_, T> {
    fn equals(&self, _o: &T) -> Option<(bool, bool)> {
        None
    }
}
/// All pairs of the values of an enumeration: equal exactly when they are the same, clones included.
pub fn pairs<T: PartialEq + Clone + std::fmt::Debug + Copy>(all: &[T], code: impl Fn(T) -> u64) -> (u64, Option<String>) {
    for (i, a) in all.iter().enumerate() {
        #[allow(clippy::clone_on_copy)]
        if code(a.clone()) != code(*a) {
            return (0, Some(format!("a clone of {a:?} is {:?}", a.clone())));
        }
        for (j, b) in all.iter().enumerate() {
            let (eq, ne) = (a == b, a != b);
            if eq != (i == j) || ne == eq {
                return (0, Some(format!("{a:?} and {b:?}: == says {eq}, != says {ne}")));
            }
        }
    }
    (all.len() as u64 * all.len() as u64, None)
}
/// Must these be equal? None: a NaN, a negative zero or the like leaves it open.
fn must_equal<T: Wire>(a: &T, b: &T) -> Option<bool> {
    let plain = |v: &T| {
        let mut w = W::new();
        w.record_spans = true;
        v.enc(&mut w);
        w.spans.iter().all(|s| {
            s.2 != Span::Float || {
                let x = &w.b[s.0..s.0 + s.1];
                let x = if x.len() == 4 { f64::from(f32::from_be_bytes(x.try_into().unwrap())) } else { f64::from_be_bytes(x.try_into().unwrap()) };
                !x.is_nan() && !(x == 0.0 && x.is_sign_negative())
            }
        })
    };
    (plain(a) && plain(b)).then(|| a.diff(b).is_none())
}
pub trait DynRec: Sync + Send {
    fn name(&self) -> &'static str;
    /// one self-consistent value through every route; Some(what went wrong)
    fn trial(&self, g: &mut G, extra: &mut Rng) -> (Vec<u8>, Option<String>);
    /// any contents, written by each codec; Some(what went wrong)
    fn any_trial(&self, g: &mut G) -> (Vec<u8>, Option<String>);
    /// octets as others might write them, read by each codec: (the octets, whether they were
    /// judged, what went wrong)
    fn foreign_trial(&self, g: &mut G, extra: &mut Rng) -> (Vec<u8>, bool, Option<String>);
    /// a fixed-size record's size does not depend on its contents
    fn size_trial(&self, g: &mut G) -> Option<String>;
    fn fixed(&self) -> Option<usize>;
    /// clones of a value, and its comparison with another: (what the case was, whether it can be
    /// compared, whether it must be equal, what went wrong)
    fn copy_trial(&self, g: &mut G, o: &mut G) -> (u64, bool, bool, Option<String>);
}
pub struct RecOf<T>(PhantomData<fn() -> T>);
impl<T> RecOf<T> {
    pub fn new() -> Self {
        RecOf(PhantomData)
    }
}
impl<T: Rec> DynRec for RecOf<T> {
    fn name(&self) -> &'static str {
        T::NAME
    }
    fn fixed(&self) -> Option<usize> {
        T::FIXED
    }
    fn trial(&self, g: &mut G, extra: &mut Rng) -> (Vec<u8>, Option<String>) {
        let v = T::gen(g);
        let mut w = W::new();
        v.enc(&mut w);
        let want = w.b;
        let go = || -> Option<String> {
            let mut b = BytesMut::new();
            lib(|| v.ser(&mut b));
            if b[..] != want[..] {
                return Some(format!("encodes as {} instead of {}", hex(&b, 120), hex(&want, 120)));
            }
            let mut b = BytesMut::new();
            if lib(|| v.fser(&mut b)) && b[..] != want[..] {
                return Some(format!("as a field encodes as {} instead of {}", hex(&b, 120), hex(&want, 120)));
            }
            if let Some(n) = lib(|| v.flen()) {
                if n != want.len() {
                    return Some(format!("reports length {n}, encodes as {} octets", want.len()));
                }
            }
            if let Some(n) = T::slen() {
                if n != want.len() {
                    return Some(format!("has fixed length {n}, encodes as {} octets", want.len()));
                }
            }
            if let Some(n) = T::FIXED {
                if n != want.len() {
                    return Some(format!("model: fixed size {n} but {} octets", want.len()));
                }
            }
            // decode, alone and with other octets behind
            let mut lone = &want[..];
            let d = {
                let mut s: &mut dyn Buf = &mut lone;
                lib(|| T::de(&mut s))
            };
            if let Some(e) = v.diff(&d) {
                return Some(format!("decodes differently{e}"));
            }
            if lone.has_remaining() {
                return Some(format!("decoding leaves {} of its {} octets", lone.remaining(), want.len()));
            }
            let mut long = want.clone();
            let tail = 1 + extra.below(20) as usize;
            long.extend((0..tail).map(|_| extra.next() as u8));
            if T::NAME != "GridDataRecord" || !crate::custom::grid_tail_is_known(&want) {
                let mut rest = &long[..];
                let d = {
                    let mut s: &mut dyn Buf = &mut rest;
                    lib(|| T::de(&mut s))
                };
                if let Some(e) = v.diff(&d) {
                    return Some(format!("with octets behind it, decodes differently{e}"));
                }
                if rest.remaining() != tail {
                    return Some(format!("with {tail} octets behind it, decoding leaves {}", rest.remaining()));
                }
            }
            let mut rest = &want[..];
            let d = {
                let mut s: &mut dyn Buf = &mut rest;
                lib(|| T::fde(&mut s))
            };
            if let Some(d) = d {
                if let Some(e) = v.diff(&d) {
                    return Some(format!("as a field decodes differently{e}"));
                }
                if rest.has_remaining() {
                    return Some("decoding it as a field leaves octets".into());
                }
                let mut b = BytesMut::new();
                lib(|| d.ser(&mut b));
                if b[..] != want[..] {
                    return Some(format!("decoded and encoded again gives {} instead of {}", hex(&b, 120), hex(&want, 120)));
                }
            }
            None
        };
        let mut go = go;
        let e = go();
        (want, e)
    }
    fn copy_trial(&self, g: &mut G, o: &mut G) -> (u64, bool, bool, Option<String>) {
        let (a, b) = (T::gen(g), T::gen(o));
        let mut w = W::new();
        a.enc(&mut w);
        b.enc(&mut w);
        let (mut can, mut must) = (false, false);
        let mut go = || -> Option<String> {
            if let Some(c) = lib(|| a.copied()) {
                if let Some(e) = a.diff(&c) {
                    return Some(format!("a clone differs{e}"));
                }
                let (mut x, mut y) = (BytesMut::new(), BytesMut::new());
                lib(|| a.ser(&mut x));
                lib(|| c.ser(&mut y));
                if x != y {
                    return Some("a clone encodes differently".into());
                }
            }
            let twin = a.dup();
            for (p, q, how) in [(&a, &b, "it and another"), (&b, &a, "another and it"), (&a, &twin, "it and its twin"), (&a, &a, "it and itself")] {
                let (Some((eq, ne)), Some(m)) = (lib(|| p.equals(q)), must_equal(p, q)) else { continue };
                can = true;
                must = m;
                if eq == ne {
                    return Some(format!("{how} are {}", if eq { "equal and unequal at once" } else { "neither equal nor unequal" }));
                }
                if eq != m {
                    return Some(format!("{how} are {}{}", if eq { "equal" } else { "unequal" }, p.diff(q).map_or(", with the same contents".into(), |d| format!(", but differ{d}"))));
                }
            }
            must = must_equal(&a, &b) == Some(true);
            None
        };
        let e = go();
        (crate::engine::hash(&w.b), can, must, e)
    }
    fn any_trial(&self, g: &mut G) -> (Vec<u8>, Option<String>) {
        let v = T::gen(g);
        let mut w = W::new();
        v.enc(&mut w);
        let mut b = BytesMut::new();
        lib(|| v.ser(&mut b));
        let mut f = BytesMut::new();
        let e = if b[..] != w.b[..] && !w.vague {
            Some(format!("encodes as {} instead of {}", hex(&b, 120), hex(&w.b, 120)))
        } else if lib(|| v.fser(&mut f)) && f != b {
            Some(format!("as a field encodes as {} instead of {}", hex(&f, 120), hex(&b, 120)))
        } else {
            lib(|| v.flen()).filter(|n| *n != b.len()).map(|n| format!("reports length {n}, encodes as {} octets", b.len()))
        };
        (w.b, e)
    }
    fn foreign_trial(&self, g: &mut G, extra: &mut Rng) -> (Vec<u8>, bool, Option<String>) {
        let v = T::gen(g);
        let mut w = W::new();
        w.record_spans = true;
        v.enc(&mut w);
        let mut b = w.b;
        loosen(extra, g.dict, &mut b, &w.spans);
        let mut r = R::new(&b);
        let model = T::dec(&mut r);
        let (Ok(model), false) = (model, r.open) else { return (b, false, None) };
        let mut octets = &b[..];
        let d = {
            let mut s: &mut dyn Buf = &mut octets;
            lib(|| T::de(&mut s))
        };
        let left = octets.remaining();
        let mut octets = &b[..];
        let f = {
            let mut s: &mut dyn Buf = &mut octets;
            lib(|| T::fde(&mut s))
        };
        let e = if let Some(e) = model.diff(&d).filter(|_| !r.vague) {
            Some(format!("decodes differently from what is on the wire{e}"))
        } else if left != b.len() - r.p {
            Some(format!("decoding leaves {left} of {} octets", b.len()))
        } else if let Some(e) = f.as_ref().and_then(|f| d.diff(f)) {
            Some(format!("as a field decodes differently{e}"))
        } else if f.is_some() && octets.remaining() != left {
            Some(format!("decoding as a field leaves {} of {} octets", octets.remaining(), b.len()))
        } else {
            None
        };
        (b, true, e)
    }
    fn size_trial(&self, g: &mut G) -> Option<String> {
        let n = T::FIXED?;
        let v = T::gen(g);
        let mut b = BytesMut::new();
        lib(|| v.ser(&mut b));
        if b.len() != n {
            return Some(format!("occupies {} octets instead of its fixed {n}", b.len()));
        }
        match lib(|| v.flen()) {
            Some(m) if m != n => Some(format!("reports length {m} instead of its fixed {n}")),
            _ => None,
        }
    }
}

/// Other values for octets that may have any, as another implementation might send them.
pub fn loosen(rng: &mut Rng, dict: &Dict, b: &mut [u8], spans: &[(usize, usize, Span)]) {
    let intensity = *rng.pick(&[3, 15, 50, 100]);
    let only = if rng.chance(40) { Some(*rng.pick(&[Span::Pad, Span::Enum, Span::Float, Span::Int, Span::Text, Span::Flags])) } else { None };
    let novel = &dict.novel;
    for (at, n, kind) in spans.iter().copied() {
        if matches!(kind, Span::Count) || only.is_some_and(|o| o != kind) || !rng.chance(intensity) {
            continue;
        }
        if kind == Span::Text {
            // unterminated, embedded zero octets, spaces, other characters
            for x in &mut b[at..at + n] {
                *x = match rng.below(12) {
                    0 => 0,
                    1 => rng.next() as u8,
                    2 => b' ',
                    _ => 0x20 + rng.below(0x5F) as u8,
                };
            }
            continue;
        }
        let v = match rng.below(6) {
            0 => 0,
            1 => u64::MAX,
            2 => 1,
            3 if !novel.is_empty() => *rng.pick(novel),
            _ => rng.next(),
        };
        if n <= 8 {
            b[at..at + n].copy_from_slice(&v.to_be_bytes()[8 - n..]);
        } else {
            for x in &mut b[at..at + n] {
                *x = rng.next() as u8;
            }
        }
    }
}

// ------------------------------------------------------------------ calling the library
thread_local! {
    static NOTES: RefCell<Vec<String>> = const { RefCell::new(vec![]) };
    pub static IN_LIB: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
    pub static LIB_CALLS: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
    pub static PANIC_AT: RefCell<String> = const { RefCell::new(String::new()) };
}
/// A violation seen while building a value.
pub fn note(s: String) {
    NOTES.with(|n| n.borrow_mut().push(s));
}
pub fn take_notes() -> Vec<String> {
    NOTES.with(|n| std::mem::take(&mut *n.borrow_mut()))
}
/// Panics raised inside are the library's.
pub struct LibPanic(pub String);
pub fn lib<T>(f: impl FnOnce() -> T) -> T {
    if IN_LIB.with(std::cell::Cell::get) > 0 {
        return f();
    }
    LIB_CALLS.with(|c| c.set(c.get() + 1));
    IN_LIB.with(|c| c.set(1));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    IN_LIB.with(|c| c.set(0));
    match r {
        Ok(v) => v,
        Err(e) => {
            if e.is::<crate::bufs::Runaway>() {
                std::panic::resume_unwind(e);
            }
            let at = PANIC_AT.with(|p| p.borrow().clone());
            std::panic::resume_unwind(Box::new(LibPanic(at)))
        }
    }
}
pub fn hex(b: &[u8], max: usize) -> String {
    let mut s = String::with_capacity(b.len().min(max) * 2 + 8);
    for x in b.iter().take(max) {
        s.push_str(&format!("{x:02x}"));
    }
    if b.len() > max {
        s.push_str(&format!("..({})", b.len()));
    }
    s
}
