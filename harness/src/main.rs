//! dis-monitor: monitors for the properties of open-dis-rust. See ../DESIGN.md.
#![allow(dead_code)]
mod bufs;
mod checks;
mod clock;
mod core;
mod custom;
mod dict;
mod engine;
mod golden;
mod model;
mod spec;
#[cfg(feature = "user")]
mod user;

use std::path::{Path, PathBuf};

#[global_allocator]
static ALLOC: engine::Alloc = engine::Alloc;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let args = |variant: &str| engine::Args { check: a[2].clone(), tier: a[3].clone(), seed: a[4].parse().unwrap_or(1), verif: PathBuf::from(&a[5]), variant: variant.to_string() };
    // local time is not UTC here, not even in its minutes
    std::env::set_var("TZ", "XXX-5:45");
    let code = match a.get(1).map(String::as_str) {
        // run CHECK TIER SEED VERIF [variant=binary...]
        Some("run") => {
            let mut v = vec![(String::new(), std::env::current_exe().unwrap())];
            for x in &a[6..] {
                if let Some((n, p)) = x.split_once('=') {
                    v.push((n.to_string(), PathBuf::from(p)));
                }
            }
            engine::parent(&args(""), &v)
        }
        // child CHECK TIER SEED VERIF VARIANT SLOTS RESULT DEADLINE
        Some("child") => engine::child(&args(&a[6]), Some(Path::new(&a[7])).filter(|p| p.as_os_str() != "-"), Path::new(&a[8]), a[9].parse().unwrap()),
        // one CHECK TIER SEED VERIF VARIANT SECTION IDX CPU
        Some("one") => engine::one(&args(&a[6]), &a[7], a[8].parse().unwrap(), a.get(9).and_then(|c| c.parse().ok()).unwrap_or(0)),
        // fresh CHECK TIER SEED VERIF VARIANT SECTION IDX JOB
        Some("fresh") => engine::fresh(&args(&a[6]), &a[7], a[8].parse().unwrap(), a[9].parse().unwrap()),
        // replay FILE VERIF [variant=binary...]
        Some("replay") => engine::replay(Path::new(&a[2]), Path::new(&a[3]), |v| a[4..].iter().find_map(|x| x.split_once('=').filter(|p| p.0 == v)).map_or_else(|| std::env::current_exe().unwrap(), |p| PathBuf::from(p.1))),
        // literals DIR: the dictionary of a source tree
        Some("literals") => {
            print!("{}", dict::dump(Path::new(&a[2])));
            0
        }
        _ => {
            eprintln!("usage: dis-monitor run|child|one|replay|literals ...");
            2
        }
    };
    std::process::exit(code);
}
