//! Runs sections of cases on all cores, under supervision: a child process does the work and the
//! parent turns crashes and hangs of the child into confirmed verdicts.
use crate::core::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ------------------------------------------------------------------ metering allocator
pub struct Alloc;
thread_local! {
    static CUR: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}
/// No single thread may hold more than this; a decoder that asks for it is refused.
const CAP: i64 = 2 << 30;
fn charge(n: i64) -> bool {
    CUR.with(|c| {
        let v = c.get() + n;
        if n > 0 && v > CAP {
            return false;
        }
        c.set(v);
        PEAK.with(|p| {
            if v > p.get() {
                p.set(v);
            }
        });
        true
    })
}
// SAFETY: defers to the system allocator
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if charge(l.size() as i64) {
            System.alloc(l)
        } else {
            std::ptr::null_mut()
        }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if charge(l.size() as i64) {
            System.alloc_zeroed(l)
        } else {
            std::ptr::null_mut()
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        charge(-(l.size() as i64));
        System.dealloc(p, l);
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if charge(n as i64 - l.size() as i64) {
            System.realloc(p, l, n)
        } else {
            std::ptr::null_mut()
        }
    }
}
/// Peak octets held on this thread while f ran, beyond what was held before.
pub fn heap_peak<T>(f: impl FnOnce() -> T) -> (T, i64) {
    let before = CUR.with(Cell::get);
    PEAK.with(|p| p.set(before));
    let t = f();
    (t, PEAK.with(Cell::get) - before)
}

/// What this thread has allocated and not freed.
pub fn heap_now() -> i64 {
    CUR.with(Cell::get)
}

// ------------------------------------------------------------------ cases
#[derive(Clone, Copy, PartialEq)]
pub enum OnPanic {
    Violation,
    /// the panic is another property's business
    Skip,
}
pub struct Section {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub on_panic: OnPanic,
    pub run: fn(&mut Ctx) -> Result<(), String>,
    /// what counts as non-trivial
    pub rule: &'static str,
}
pub struct Env {
    pub check: String,
    pub thorough: bool,
    pub seed: u64,
    pub variant: String,
    pub verif: PathBuf,
    pub kinds: Vec<Box<dyn Kind>>,
    pub records: Vec<Box<dyn DynRec>>,
    pub dict: Dict,
}
#[derive(Default)]
pub struct Obs {
    pub evals: BTreeMap<&'static str, u64>,
    pub hashes: BTreeMap<&'static str, HashSet<u64, Quick>>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub known: Vec<String>,
}
pub struct Ctx<'a> {
    pub env: &'a Env,
    pub idx: u64,
    pub rng: Rng,
    pub seed: u64,
    pub section: &'static str,
    pub obs: &'a mut Obs,
}
impl<'a> Ctx<'a> {
    /// One evaluation of the oracle; `what` identifies the case, None when it was trivial.
    pub fn eval(&mut self, what: Option<u64>) {
        *self.obs.evals.entry(self.section).or_default() += 1;
        if let Some(h) = what {
            let set = self.obs.hashes.entry(self.section).or_default();
            if set.len() < 1_500_000 {
                set.insert(h);
            }
        }
    }
    pub fn count(&mut self, what: &str, n: u64) {
        if let Some(c) = self.obs.counters.get_mut(what) {
            *c += n;
        } else {
            self.obs.counters.insert(what.to_string(), n);
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.idx < 2 && self.obs.samples.len() < 12 {
            let s = f();
            self.obs.samples.push(format!("{}: {}", self.section, s.chars().take(400).collect::<String>()));
        }
    }
    pub fn kind(&self, i: u64) -> &'a dyn Kind {
        &*self.env.kinds[(i % self.env.kinds.len() as u64) as usize]
    }
    pub fn gen(&mut self) -> G<'a> {
        let s = self.rng.next();
        let m = MODES[self.rng.below(MODES.len() as u64) as usize];
        // novelty is where the news is
        let m = if !(self.env.dict.novel.is_empty() && self.env.dict.novel_words.is_empty() && self.env.dict.novel_floats.is_empty()) && self.rng.chance(25) { Mode::Novel } else { m };
        G::new(s, m, &self.env.dict)
    }
}
pub fn hash(b: &[u8]) -> u64 {
    let mut h = b.len() as u64;
    let mut c = b.chunks_exact(8);
    for x in &mut c {
        h = mix(h ^ u64::from_le_bytes(x.try_into().unwrap()));
    }
    for x in c.remainder() {
        h = mix(h ^ u64::from(*x));
    }
    h
}

enum Verdict {
    Held,
    Violated(String),
    Harness(String),
}
fn str_hash(s: &str) -> u64 {
    hash(s.as_bytes())
}
fn run_case(env: &Env, sec: &Section, idx: u64, obs: &mut Obs) -> Verdict {
    let seed = case_seed(env, sec, idx);
    take_notes();
    IN_LIB.with(|c| c.set(0));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let mut cx = Ctx { env, idx, rng: Rng::new(seed), seed, section: sec.name, obs };
        (sec.run)(&mut cx)
    }));
    IN_LIB.with(|c| c.set(0));
    let notes = take_notes();
    match r {
        Ok(Ok(())) => match notes.into_iter().next() {
            Some(n) if ["C01", "C02", "C09", "C13", "C22"].contains(&&env.check[..]) => Verdict::Violated(n),
            _ => Verdict::Held,
        },
        Ok(Err(m)) => Verdict::Violated(m),
        Err(e) => {
            if let Some(p) = e.downcast_ref::<LibPanic>() {
                if sec.on_panic == OnPanic::Skip && p.0.contains("capacity overflow") {
                    Verdict::Violated("the library asks for more memory than there can be".into())
                } else if sec.on_panic == OnPanic::Skip {
                    *obs.counters.entry("library panics left to C05".into()).or_default() += 1;
                    Verdict::Held
                } else {
                    Verdict::Violated(format!("the library panics: {}", p.0))
                }
            } else if let Some(r) = e.downcast_ref::<crate::bufs::Runaway>() {
                Verdict::Violated(format!("decoding has not ended after {} buffer operations", r.0))
            } else {
                let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| (*s).to_string())).unwrap_or_default();
                Verdict::Harness(format!("section {} case {idx}: harness panic: {m} at {}", sec.name, PANIC_AT.with(|p| p.borrow().clone())))
            }
        }
    }
}
pub fn fresh_args(cx: &Ctx, job: usize) -> Vec<String> {
    vec!["fresh".into(), cx.env.check.clone(), if cx.env.thorough { "thorough" } else { "quick" }.into(), cx.env.seed.to_string(), cx.env.verif.display().to_string(), cx.env.variant.clone(), cx.section.into(), cx.idx.to_string(), job.to_string()]
}
pub fn fresh(a: &Args, section: &str, idx: u64, job: usize) -> i32 {
    install_hook();
    no_core();
    let env = env_of(a);
    let Some(sec) = crate::checks::sections(&a.check).into_iter().find(|s| s.name == section) else { return 2 };
    let seed = case_seed(&env, &sec, idx);
    let mut obs = Obs::default();
    let mut cx = Ctx { env: &env, idx, rng: Rng::new(seed), seed, section: sec.name, obs: &mut obs };
    println!("{}", crate::checks::state::fresh(&mut cx, job));
    0
}
fn case_seed(env: &Env, sec: &Section, idx: u64) -> u64 {
    // the build without assertions gets cases of its own
    let v = if env.variant == "plain" { mix(str_hash("plain")) } else { 0 };
    mix(env.seed ^ v ^ mix(str_hash(&env.check)) ^ mix(str_hash(sec.name)).rotate_left(17)) ^ mix(idx)
}
fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        if info.payload().is::<crate::bufs::Runaway>() {
            return;
        }
        let m = info.payload().downcast_ref::<String>().cloned().or_else(|| info.payload().downcast_ref::<&str>().map(|s| (*s).to_string())).unwrap_or_default();
        let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC_AT.with(|p| *p.borrow_mut() = format!("{m} ({at})"));
    }));
}

// ------------------------------------------------------------------ system calls
#[repr(C)]
struct RLimit {
    cur: u64,
    max: u64,
}
extern "C" {
    fn setrlimit(what: i32, l: *const RLimit) -> i32;
}
fn limit_cpu(secs: u64) {
    let l = RLimit { cur: secs, max: secs + 5 };
    // SAFETY: a plain system call
    unsafe { setrlimit(0, &l) };
}
fn no_core() {
    if cfg!(miri) {
        return;
    }
    let l = RLimit { cur: 0, max: 0 };
    // SAFETY: a plain system call
    unsafe { setrlimit(4, &l) };
}

// ------------------------------------------------------------------ child
pub struct Args {
    pub check: String,
    pub tier: String,
    pub seed: u64,
    pub verif: PathBuf,
    pub variant: String,
}
fn env_of(a: &Args) -> Env {
    Env {
        check: a.check.clone(),
        thorough: a.tier == "thorough",
        seed: a.seed,
        variant: a.variant.clone(),
        verif: a.verif.clone(),
        #[cfg(feature = "user")]
        kinds: if a.check == "C22" { crate::user::kinds() } else { crate::spec::kinds() },
        #[cfg(not(feature = "user"))]
        kinds: crate::spec::kinds(),
        records: crate::spec::records(),
        dict: crate::dict::load(&a.verif),
    }
}
fn cases(s: &Section, e: &Env) -> u64 {
    let n = match (e.thorough, s.quick) {
        (true, _) => s.thorough,
        (_, q @ 0..=999) => q,
        (_, q) => {
            // about half a minute on eight cores
            let scale = match &e.check[..] {
                "C04" | "C17" | "C22" => 20,
                "C02" | "C06" | "C07" | "C09" | "C15" | "C21" => 50,
                "C08" | "C12" | "C20" => 200,
                "C05" | "C14" => 10,
                "C19" => 5,
                _ => 80,
            };
            (q * scale).min(s.thorough).max(q)
        }
    };
    match &e.variant[..] {
        "" => n,
        "miri" => n.min(std::env::var("MIRI_CASES").ok().and_then(|v| v.parse().ok()).unwrap_or(60)),
        "plain" => n.div_ceil(3).max(n.min(2000)),
        // sanitized builds run a sample
        _ => n.div_ceil(6).max(n.min(2000)),
    }
}
pub fn child(a: &Args, slots: Option<&Path>, result: &Path, deadline_s: u64) -> i32 {
    install_hook();
    no_core();
    let env = env_of(a);
    let secs = crate::checks::sections(&a.check);
    let mut chunks: Vec<(f64, usize, u64, u64)> = vec![];
    for (i, s) in secs.iter().enumerate() {
        let n = cases(s, &env);
        let size = (n / 400).clamp(1, 500);
        let mut at = 0;
        while at < n {
            let end = (at + size).min(n);
            chunks.push((at as f64 / n as f64, i, at, end));
            at = end;
        }
    }
    chunks.sort_by(|x, y| x.0.total_cmp(&y.0).then(x.1.cmp(&y.1)));
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let t0 = Instant::now();
    let all: Mutex<Obs> = Mutex::default();
    let viols: Mutex<Vec<(usize, u64, String)>> = Mutex::default();
    let errs: Mutex<Vec<String>> = Mutex::default();
    let slot_file = slots.map(|p| std::fs::OpenOptions::new().write(true).open(p).unwrap());
    let cut = AtomicBool::new(false);
    let threads = if env.variant == "miri" { 1 } else { std::thread::available_parallelism().map_or(4, |n| n.get()).min(12) };
    let done = AtomicU64::new(0);
    std::thread::scope(|sc| {
        for t in 0..threads {
            let (env, secs, chunks, next, stop, all, viols, errs, slot_file, cut, done) = (&env, &secs, &chunks, &next, &stop, &all, &viols, &errs, &slot_file, &cut, &done);
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn_scoped(sc, move || {
                    let mut obs = Obs::default();
                    'w: loop {
                        if stop.load(Ordering::Relaxed) {
                            break;
                        }
                        let c = next.fetch_add(1, Ordering::Relaxed);
                        if c >= chunks.len() {
                            break;
                        }
                        let (_, s, from, to) = chunks[c];
                        for idx in from..to {
                            if t0.elapsed().as_secs() >= deadline_s && c >= secs.len() {
                                cut.store(true, Ordering::Relaxed);
                                break 'w;
                            }
                            if let Some(f) = slot_file {
                                let mut b = [0u8; 32];
                                b[..8].copy_from_slice(&(s as u64 + 1).to_le_bytes());
                                b[8..16].copy_from_slice(&idx.to_le_bytes());
                                b[16..24].copy_from_slice(&done.fetch_add(1, Ordering::Relaxed).to_le_bytes());
                                let _ = f.write_at(&b, t as u64 * 32);
                            }
                            match run_case(env, &secs[s], idx, &mut obs) {
                                Verdict::Held => {}
                                Verdict::Violated(m) => {
                                    let mut v = viols.lock().unwrap();
                                    v.push((s, idx, m));
                                    if v.len() >= 40 {
                                        stop.store(true, Ordering::Relaxed);
                                    }
                                }
                                Verdict::Harness(m) => {
                                    let mut v = errs.lock().unwrap();
                                    v.push(m);
                                    if v.len() >= 5 {
                                        stop.store(true, Ordering::Relaxed);
                                    }
                                }
                            }
                        }
                    }
                    if let Some(f) = slot_file {
                        let _ = f.write_at(&[0u8; 32], t as u64 * 32);
                    }
                    let mut g = all.lock().unwrap();
                    for (k, v) in obs.evals {
                        *g.evals.entry(k).or_default() += v;
                    }
                    for (k, v) in obs.hashes {
                        g.hashes.entry(k).or_default().extend(v);
                    }
                    for (k, v) in obs.counters {
                        *g.counters.entry(k).or_default() += v;
                    }
                    g.samples.extend(obs.samples);
                    g.known.extend(obs.known);
                })
                .unwrap();
        }
    });
    let g = all.into_inner().unwrap();
    let mut out = String::new();
    let clean = |s: &str| s.replace(['\t', '\n', '\r'], " ");
    for s in &secs {
        let n = g.evals.get(s.name).copied().unwrap_or(0);
        let d = g.hashes.get(s.name).map_or(0, HashSet::len);
        out += &format!("SECTION\t{}\t{n}\t{d}\t{}\n", s.name, clean(s.rule));
        if n == 0 && env.variant != "miri" && !stop.load(Ordering::Relaxed) {
            errs.lock().unwrap().push(format!("section {} observed nothing", s.name));
        }
    }
    for (k, v) in &g.counters {
        out += &format!("COUNTER\t{}\t{v}\n", clean(k));
    }
    let mut samples = g.samples;
    samples.sort();
    let mut per: BTreeMap<String, usize> = BTreeMap::new();
    for s in samples {
        let k = s.split(':').next().unwrap_or("").to_string();
        let c = per.entry(k).or_default();
        *c += 1;
        if *c <= 2 {
            out += &format!("SAMPLE\t{}\n", clean(&s));
        }
    }
    let mut known = g.known;
    known.sort();
    known.dedup();
    for k in known {
        out += &format!("KNOWN\t{}\n", clean(&k));
    }
    let mut v = viols.into_inner().unwrap();
    v.sort();
    for (s, idx, m) in v {
        out += &format!("VIOL\t{}\t{idx}\t{}\n", secs[s].name, clean(&m));
    }
    for e in errs.into_inner().unwrap() {
        out += &format!("ERR\t{}\n", clean(&e));
    }
    if cut.load(Ordering::Relaxed) {
        out += "CUT\t\n";
    }
    out += "END\t\n";
    std::fs::write(result, out).unwrap();
    0
}
/// One case by itself: exit 0 held, 1 violated (message on stdout), 2 harness trouble.
pub fn one(a: &Args, section: &str, idx: u64, cpu: u64) -> i32 {
    install_hook();
    no_core();
    if cpu > 0 {
        limit_cpu(cpu);
    }
    let env = env_of(a);
    let secs = crate::checks::sections(&a.check);
    let Some(sec) = secs.iter().find(|s| s.name == section) else {
        println!("no section {section}");
        return 2;
    };
    // on a thread with the stack the cases had
    let v = std::thread::scope(|sc| std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(sc, || run_case(&env, sec, idx, &mut Obs::default())).unwrap().join());
    match v {
        Ok(Verdict::Held) => 0,
        Ok(Verdict::Violated(m)) => {
            println!("{m}");
            1
        }
        Ok(Verdict::Harness(m)) => {
            println!("{m}");
            2
        }
        Err(_) => 2,
    }
}

// ------------------------------------------------------------------ parent
fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            c if (c as u32) < 0x20 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
#[derive(Default)]
struct Total {
    sections: Vec<(String, u64, u64, String)>,
    counters: BTreeMap<String, u64>,
    samples: Vec<String>,
    known: Vec<String>,
    viols: Vec<(String, String, u64, String)>,
    errs: Vec<String>,
    cut: bool,
}
pub struct Outcome {
    pub code: i32,
}
/// Which binary runs which variant.
pub fn parent(a: &Args, variants: &[(String, PathBuf)]) -> i32 {
    let t0 = Instant::now();
    let mut tot = Total::default();
    let work = a.verif.join(".work").join(format!("{}-{}", a.check, std::process::id()));
    std::fs::create_dir_all(&work).unwrap();
    let known_file = std::fs::read_to_string(a.verif.join("known-findings.txt")).unwrap_or_default();
    for (variant, bin) in variants {
        if variant == "miri" {
            continue;
        }
        run_variant(a, variant, bin, &work, &mut tot);
        if tot.errs.is_empty() && !tot.viols.is_empty() {
            break;
        }
    }
    let _ = std::fs::remove_dir_all(&work);
    let _ = std::fs::remove_dir(a.verif.join(".work"));
    // verdicts
    let mut seen = HashSet::new();
    let mut reported = 0;
    for (variant, sec, idx, m) in &tot.viols {
        let key: String = format!("{sec}|{}", m.split(['#', ':', '(']).next().unwrap_or(""));
        if !seen.insert(key) || reported >= 10 {
            continue;
        }
        reported += 1;
        let dir = a.verif.join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let f = dir.join(format!("{}-{}-{}{}.txt", a.check, sec, idx, if variant.is_empty() { String::new() } else { format!("-{variant}") }));
        let _ = std::fs::write(&f, format!("check={}\ntier={}\nseed={}\nvariant={variant}\nsection={sec}\nidx={idx}\nmessage={m}\n", a.check, a.tier, a.seed));
        println!("{}: section {sec}, case {idx}{}: {}", a.check, if variant.is_empty() { String::new() } else { format!(" ({variant} build)") }, m.chars().take(600).collect::<String>());
        println!("VIOLATION property={} replay={}", a.check, f.display());
    }
    for k in &tot.known {
        // only what the committed file lists is a known finding
        let listed = known_file.lines().any(|l| l.trim() == format!("known: {k}"));
        if listed {
            println!("KNOWN-FINDING: {k}");
        } else {
            tot.errs.push(format!("finding not listed in known-findings.txt: {k}"));
        }
    }
    for e in &tot.errs {
        println!("ERROR: {e}");
    }
    // evidence
    let ev: u64 = tot.sections.iter().map(|s| s.1).sum();
    let di: u64 = tot.sections.iter().map(|s| s.2).sum();
    let mut j = String::from("{\n");
    j += &format!("  \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\",\n", json(&a.check), json(&a.tier), a.seed);
    j += &format!("  \"wall_s\": {:.1}, \"violations\": {},\n", t0.elapsed().as_secs_f64(), reported);
    j += "  \"coverage\": {\n";
    j += &format!("    \"evaluations\": {ev}, \"distinct_nontrivial\": {di},\n");
    j += &format!("    \"rule\": {},\n", json(&tot.sections.iter().map(|s| format!("{}: {}", s.0, s.3)).collect::<Vec<_>>().join("; ")));
    j += &format!("    \"samples\": [{}],\n", tot.samples.iter().map(|s| json(s)).collect::<Vec<_>>().join(",\n      "));
    j += &format!("    \"sections\": {{{}}},\n", tot.sections.iter().map(|s| format!("{}: {{\"evaluations\": {}, \"distinct_nontrivial\": {}}}", json(&s.0), s.1, s.2)).collect::<Vec<_>>().join(", "));
    j += &format!("    \"observed\": {{{}}},\n", tot.counters.iter().map(|(k, v)| format!("{}: {v}", json(k))).collect::<Vec<_>>().join(", "));
    j += &format!("    \"stopped_at_time_limit\": {}\n", tot.cut);
    j += "  }\n}\n";
    let dir = a.verif.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{}.json", a.check)), j).unwrap();
    println!("{} {}: {ev} evaluations, {di} distinct, {reported} violations, {:.1} s{}", a.check, a.tier, t0.elapsed().as_secs_f64(), if tot.cut { " (stopped at the time limit)" } else { "" });
    if reported > 0 {
        1
    } else if !tot.errs.is_empty() {
        2
    } else {
        0
    }
}
fn run_variant(a: &Args, variant: &str, bin: &Path, work: &Path, tot: &mut Total) {
    let slots = work.join(format!("slots{variant}"));
    let result = work.join(format!("result{variant}"));
    let errlog = work.join(format!("stderr{variant}"));
    std::fs::write(&slots, vec![0u8; 32 * 64]).unwrap();
    let deadline: u64 = match (&a.tier[..], variant) {
        ("thorough", "") => 480,
        ("thorough", _) => 150,
        (_, "") => 60,
        (_, "plain") => 15,
        _ => 40,
    };
    let deadline = std::env::var("DIS_DEADLINE").ok().and_then(|s| s.parse().ok()).unwrap_or(deadline);
    let mut cmd = std::process::Command::new(bin);
    cmd.args(["child", &a.check, &a.tier, &a.seed.to_string()]).arg(&a.verif).arg(variant).arg(&slots).arg(&result).arg(deadline.to_string());
    cmd.env("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1").env("TSAN_OPTIONS", "halt_on_error=0:exitcode=66");
    cmd.stderr(std::fs::File::create(&errlog).unwrap());
    let mut ch = cmd.spawn().unwrap();
    // watch: the slots must keep changing
    let mut last = (std::fs::read(&slots).unwrap_or_default(), Instant::now());
    let mut stuck = vec![];
    let status = loop {
        if let Some(s) = ch.try_wait().unwrap() {
            break Some(s);
        }
        std::thread::sleep(Duration::from_millis(50));
        let cur = std::fs::read(&slots).unwrap_or_default();
        // slots in use, and unchanged
        if cur.chunks(32).zip(last.0.chunks(32)).any(|(x, y)| x[0] != 0 && x == y) {
            if last.1.elapsed() > Duration::from_secs(100) {
                let _ = ch.kill();
                let _ = ch.wait();
                stuck = cur.chunks(32).zip(last.0.chunks(32)).filter(|(x, y)| x[0] != 0 && x == y).map(|(x, _)| x.to_vec()).collect();
                break None;
            }
            // keep only the slots that have not moved
            let mut merged = last.0.clone();
            for (i, (x, y)) in cur.chunks(32).zip(last.0.chunks(32)).enumerate() {
                if x != y {
                    merged[i * 32..i * 32 + 32].copy_from_slice(&[0; 32]);
                }
            }
            last.0 = merged;
        } else {
            last = (cur, Instant::now());
        }
    };
    let log = String::from_utf8_lossy(&std::fs::read(&errlog).unwrap_or_default()).into_owned();
    let text = std::fs::read_to_string(&result).unwrap_or_default();
    let complete = text.lines().last().is_some_and(|l| l.starts_with("END"));
    if complete {
        for l in text.lines() {
            let f: Vec<&str> = l.split('\t').collect();
            let tag = |s: &str| if variant.is_empty() { s.to_string() } else { format!("{s} [{variant}]") };
            match f[0] {
                "SECTION" => tot.sections.push((tag(f[1]), f[2].parse().unwrap(), f[3].parse().unwrap(), f[4].into())),
                "COUNTER" => *tot.counters.entry(tag(f[1])).or_default() += f[2].parse::<u64>().unwrap(),
                "SAMPLE" if variant.is_empty() => tot.samples.push(f[1].into()),
                "KNOWN" => {
                    if !tot.known.contains(&f[1].to_string()) {
                        tot.known.push(f[1].into());
                    }
                }
                "VIOL" => tot.viols.push((variant.into(), f[1].into(), f[2].parse().unwrap(), f[3].into())),
                "ERR" => tot.errs.push(f[1].into()),
                "CUT" => tot.cut = true,
                _ => {}
            }
        }
        if log.contains("WARNING: ThreadSanitizer") {
            let n = log.matches("WARNING: ThreadSanitizer").count();
            tot.counters.insert("ThreadSanitizer reports".into(), n as u64);
            let dir = a.verif.join("replays");
            let _ = std::fs::create_dir_all(&dir);
            let _ = std::fs::write(dir.join(format!("{}-tsan.log", a.check)), &log);
            if a.check == "C14" {
                let first: String = log.lines().skip_while(|l| !l.contains("WARNING: ThreadSanitizer")).take(14).collect::<Vec<_>>().join(" | ");
                tot.viols.push((variant.into(), "tsan".into(), 0, format!("ThreadSanitizer: {first}")));
            }
        }
        return;
    }
    // crashed or stuck: find the case
    let cur = std::fs::read(&slots).unwrap_or_default();
    let cands: Vec<Vec<u8>> = if stuck.is_empty() { cur.chunks(32).filter(|x| x[0] != 0).map(<[u8]>::to_vec).collect() } else { stuck };
    let secs = crate::checks::sections(&a.check);
    let mut found = false;
    for c in cands {
        let s = u64::from_le_bytes(c[..8].try_into().unwrap()) as usize - 1;
        let idx = u64::from_le_bytes(c[8..16].try_into().unwrap());
        let Some(sec) = secs.get(s) else { continue };
        let cpu = if variant.is_empty() { 20 } else { 60 };
        let o = std::process::Command::new(bin)
            .args(["one", &a.check, &a.tier, &a.seed.to_string()])
            .arg(&a.verif)
            .args([variant, sec.name, &idx.to_string(), &cpu.to_string()])
            .env("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1")
            .output()
            .unwrap();
        let err = String::from_utf8_lossy(&o.stderr);
        let first = err.lines().find(|l| l.contains("ERROR:") || l.contains("panicked") || l.contains("allocation") || l.contains("overflow")).unwrap_or("").to_string();
        match (o.status.code(), o.status.signal()) {
            (Some(0), _) => {}
            (Some(1), _) => {
                found = true;
                tot.viols.push((variant.into(), sec.name.into(), idx, String::from_utf8_lossy(&o.stdout).trim().to_string()));
            }
            (_, Some(24 | 9)) => {
                found = true;
                tot.viols.push((variant.into(), sec.name.into(), idx, format!("does not end within {cpu} s of processor time")));
            }
            (_, Some(sig)) => {
                found = true;
                tot.viols.push((variant.into(), sec.name.into(), idx, format!("the process dies with signal {sig}: {first}")));
            }
            (c, _) => tot.errs.push(format!("replaying {} {idx}: exit {c:?} {}", sec.name, String::from_utf8_lossy(&o.stdout))),
        }
    }
    let sig = status.and_then(|s| s.signal());
    if !found && matches!(sig, Some(4 | 6 | 7 | 8 | 11)) && ["C05", "C14"].contains(&&a.check[..]) {
        // what came before is part of it; the same seed leads there again
        let first = log.lines().find(|l| l.contains("ERROR:") || l.contains("panicked") || l.contains("overflow")).unwrap_or("");
        tot.viols.push((variant.into(), secs.first().map_or("", |s| s.name).into(), 0, format!("the process dies with signal {} after a history of operations, none of which does it alone: {first}", sig.unwrap_or(0))));
    } else if !found {
        tot.errs.push(format!("the {} child ended with {status:?} and no case reproduces it: {}", if variant.is_empty() { "main" } else { variant }, log.chars().rev().take(500).collect::<Vec<_>>().into_iter().rev().collect::<String>()));
    }
}
/// Re-run a recorded violation.
pub fn replay(file: &Path, verif: &Path, bin_of: impl Fn(&str) -> PathBuf) -> i32 {
    let t = std::fs::read_to_string(file).unwrap();
    let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(&format!("{k}="))).unwrap_or("").to_string();
    println!("recorded: {}", get("message"));
    let bin = bin_of(&get("variant"));
    let st = std::process::Command::new(bin).args(["one", &get("check"), &get("tier"), &get("seed")]).arg(verif).args([&get("variant"), &get("section"), &get("idx"), "60"]).status().unwrap();
    std::io::stdout().flush().unwrap();
    match (st.code(), st.signal()) {
        (Some(c), _) => c,
        (_, Some(s)) => {
            println!("dies with signal {s}");
            1
        }
        _ => 2,
    }
}
