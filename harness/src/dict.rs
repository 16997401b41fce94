//! A dictionary of literals for the generators, mined from the sources under test. Literals that
//! the pinned tree does not have, or has less often, are "novel" and weigh more. It directs the workload only.
use crate::core::Dict;
use std::collections::HashMap;
use std::path::Path;

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum Lit {
    Int(u64),
    Float(String),
    Word(String),
    /// Enumeration::Enumerator, or anything written so
    Path(String, String),
}
pub type Bag = HashMap<Lit, u32>;
fn add(out: &mut Bag, l: Lit) {
    *out.entry(l).or_default() += 1;
}
fn files(dir: &Path, out: &mut Vec<std::path::PathBuf>) {
    let Ok(rd) = std::fs::read_dir(dir) else { return };
    for e in rd.flatten() {
        let p = e.path();
        if p.is_dir() {
            files(&p, out);
        } else if p.extension().is_some_and(|x| x == "rs") {
            out.push(p);
        }
    }
}
/// Every literal of a source text, comments aside.
pub fn scan(s: &str, out: &mut Bag) {
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if c == b'/' && b.get(i + 1) == Some(&b'/') {
            while i < b.len() && b[i] != b'\n' {
                i += 1;
            }
        } else if c == b'/' && b.get(i + 1) == Some(&b'*') {
            i += 2;
            while i + 1 < b.len() && !(b[i] == b'*' && b[i + 1] == b'/') {
                i += 1;
            }
            i += 2;
        } else if c == b'"' {
            let mut w = vec![];
            i += 1;
            while i < b.len() && b[i] != b'"' {
                if b[i] == b'\\' {
                    i += 1;
                }
                if i < b.len() {
                    w.push(b[i]);
                }
                i += 1;
            }
            i += 1;
            if w.len() <= 40 {
                add(out, Lit::Word(String::from_utf8_lossy(&w).into_owned()));
                if w.len() <= 8 {
                    // a byte string may be a number on the wire
                    let v = w.iter().fold(0u64, |a, x| a << 8 | u64::from(*x));
                    add(out, Lit::Int(v));
                }
            }
        } else if c == b'\'' {
            // a character or byte literal, not a lifetime
            if b.get(i + 2) == Some(&b'\'') {
                add(out, Lit::Int(u64::from(b[i + 1])));
                add(out, Lit::Word((b[i + 1] as char).to_string()));
                i += 3;
            } else {
                i += 1;
            }
        } else if c.is_ascii_alphabetic() || c == b'_' {
            let st = i;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                i += 1;
            }
            if s[i..].starts_with("::") && c.is_ascii_uppercase() {
                let n = s[i + 2..].bytes().take_while(|x| x.is_ascii_alphanumeric() || *x == b'_').count();
                let v = &s[i + 2..i + 2 + n];
                if v.starts_with(|x: char| x.is_ascii_uppercase() || x == '_') {
                    add(out, Lit::Path(s[st..i].to_string(), v.to_string()));
                }
            }
        } else if c.is_ascii_digit() && (i == 0 || !(b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_')) {
            let st = i;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_' || (b[i] == b'.' && b.get(i + 1).is_some_and(u8::is_ascii_digit))) {
                i += 1;
            }
            let t: String = s[st..i].chars().filter(|c| *c != '_').collect();
            let strip = |t: &str| -> String {
                for suf in ["u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "f32", "f64", "u128", "i128"] {
                    if let Some(x) = t.strip_suffix(suf) {
                        return x.to_string();
                    }
                }
                t.to_string()
            };
            let v = if let Some(h) = t.strip_prefix("0x") {
                // hexadecimal digits may end like a suffix
                u64::from_str_radix(h, 16).ok().or_else(|| u64::from_str_radix(&strip(h), 16).ok())
            } else if let Some(h) = t.strip_prefix("0b") {
                u64::from_str_radix(&strip(h), 2).ok()
            } else if let Some(h) = t.strip_prefix("0o") {
                u64::from_str_radix(&strip(h), 8).ok()
            } else {
                strip(&t).parse().ok()
            };
            if let Some(v) = v {
                add(out, Lit::Int(v));
                if t.ends_with("f32") || t.ends_with("f64") {
                    add(out, Lit::Float(format!("{v}")));
                }
            } else if let Ok(f) = strip(&t).parse::<f64>() {
                add(out, Lit::Float(format!("{f}")));
            }
        } else {
            i += 1;
        }
    }
}
pub fn mine(src: &Path) -> Bag {
    let mut fs = vec![];
    files(src, &mut fs);
    let mut out = Bag::new();
    for f in fs {
        // the enumeration tables have their own generator
        if f.file_name().is_some_and(|n| n == "enums.rs") {
            continue;
        }
        if let Ok(t) = std::fs::read_to_string(&f) {
            scan(&t, &mut out);
        }
    }
    out
}
fn line(l: &Lit) -> String {
    match l {
        Lit::Int(v) => format!("i {v}"),
        Lit::Float(f) => format!("f {f}"),
        Lit::Word(w) => format!("w {w:?}"),
        Lit::Path(e, v) => format!("p {e} {v}"),
    }
}
pub fn dump(src: &Path) -> String {
    let mut v: Vec<String> = mine(src).iter().map(|(l, n)| format!("{n} {}", line(l))).collect();
    v.sort();
    v.join("\n") + "\n"
}
pub fn load(verif: &Path) -> Dict {
    let text = std::fs::read_to_string(verif.join("spec/literals.txt")).unwrap_or_default();
    let old: HashMap<&str, u32> = text.lines().filter_map(|l| l.split_once(' ')).filter_map(|(n, l)| Some((l, n.parse().ok()?))).collect();
    let src = std::env::var("DIS_SRC").unwrap_or_else(|_| "/repo/src".into());
    let mut lits: Vec<(Lit, u32)> = mine(Path::new(&src)).into_iter().collect();
    lits.sort();
    let mut d = Dict::default();
    for (l, n) in lits {
        // one more of the same counts as new
        let new = n > old.get(&line(&l)[..]).copied().unwrap_or(0);
        match l {
            Lit::Int(v) => {
                d.ints.push(v);
                if new {
                    d.novel.push(v);
                }
            }
            Lit::Float(f) => {
                let f: f64 = f.parse().unwrap_or(0.0);
                d.floats.push(f);
                if new {
                    d.novel_floats.push(f);
                    d.novel.push(f.to_bits());
                    d.novel.push(u64::from((f as f32).to_bits()));
                    d.novel.push(f as i64 as u64);
                }
            }
            Lit::Path(e, v) => {
                if new {
                    d.novel_paths.entry(e).or_default().push(v);
                }
            }
            Lit::Word(w) => {
                if w.chars().all(|c| !c.is_control()) && !w.contains('{') {
                    d.words.push(w.clone());
                    if new {
                        d.novel_words.push(w);
                    }
                }
            }
        }
    }
    // lengths and sizes DIS people care about
    d.ints.extend([12, 32, 64, 100, 104, 128, 144, 256, 512, 1024, 1400, 1472, 1500, 2048, 3000, 4096, 8180, 8192, 16384]);
    d
}
