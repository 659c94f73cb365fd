//! The memory workload, to be run under Miri, a sanitizer or memcheck.
//!
//!   memwork histories --seed N --from I --count C [--small] [--secs S] [--repo DIR]
//!   memwork cases --seed N --secs S --scratch DIR [--repo DIR]
//!
//! `histories` runs its own histories; `cases` runs the other properties' cases,
//! whose verdicts it ignores. Exit status 1: a string was wrong or a number
//! overflowed. What the tools find they report themselves.

use scribe_monitor::gen::Dict;
use scribe_monitor::run::{self, case_seed, install_panic_hook};
use scribe_monitor::{find, memwork};
use std::path::PathBuf;
use std::time::Instant;

fn opt(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned()
}

fn main() {
    install_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let num = |name: &str, default: u64| opt(&args, name).map_or(default, |s| s.parse().expect("number"));
    let seed = num("--seed", 1);
    let secs = num("--secs", 0);
    let t0 = Instant::now();
    let dict = match opt(&args, "--repo") {
        Some(p) => Dict::mine(&PathBuf::from(p)),
        None => Dict::default(),
    };
    match args.first().map(|s| s.as_str()) {
        Some("histories") => {
            let from = num("--from", 0);
            let count = num("--count", u64::MAX);
            let step = num("--step", 1);
            let small = args.iter().any(|a| a == "--small");
            let mut seen = memwork::Seen::default();
            for i in 0..count {
                if secs > 0 && t0.elapsed().as_secs() >= secs {
                    break;
                }
                let index = from + i * step;
                println!("case {}", index);
                if let Err(m) = memwork::history(case_seed(seed, "M01", index), &dict, small, &mut seen) {
                    println!("violation {}", m);
                    std::process::exit(1);
                }
            }
            println!(
                "done histories={} distinct={} calls={} strings={} bytes={} inserted={} deletions={} reversals={} longest={} threaded={} panics={}",
                seen.histories,
                seen.signatures.len(),
                seen.calls,
                seen.strings,
                seen.bytes,
                seen.inserted,
                seen.deleted,
                seen.undone,
                seen.longest,
                seen.threaded,
                seen.panics
            );
        }
        Some("cases") => {
            let scratch = PathBuf::from(opt(&args, "--scratch").expect("--scratch"));
            std::fs::create_dir_all(&scratch).expect("scratch");
            let scratch = scratch.canonicalize().expect("scratch");
            std::env::set_current_dir(&scratch).expect("scratch");
            let ids = ["T01", "T02", "T03", "U01", "U02", "U03", "U04", "C02", "F03", "S01", "R01", "L01", "G01", "K01", "W02"];
            let from = num("--from", 0);
            let step = num("--step", 1);
            let mut n = 0u64;
            let mut shared: std::collections::HashMap<&str, _> = Default::default();
            'all: for i in 0u64.. {
                for id in ids {
                    if t0.elapsed().as_secs() >= secs {
                        break 'all;
                    }
                    let prop = find(id).expect("property");
                    let sh = shared.entry(id).or_insert_with(|| -> std::sync::Arc<dyn std::any::Any + Send + Sync> {
                        match prop.shared {
                            Some(f) => f(&scratch),
                            None => std::sync::Arc::new(()),
                        }
                    });
                    let index = from + i * step;
                    println!("case {} {}", id, index);
                    let (o, _) = run::single(prop, case_seed(seed, id, index), None, false, &scratch, &dict, sh);
                    if let Ok(run::Outcome { verdict: Err(m), .. }) = o {
                        if m.contains("overflow") || m.contains("unsafe precondition") || m.contains("capacity overflow") {
                            println!("violation {} case {}: {}", id, index, m);
                            std::process::exit(1);
                        }
                    }
                    n += 1;
                }
            }
            println!("done cases={}", n);
        }
        _ => {
            eprintln!("usage: memwork histories|cases");
            std::process::exit(3);
        }
    }
}
