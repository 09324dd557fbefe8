#[macro_use]
mod macros {
    macro_rules! lazy_static_t0 {
        () => {
            fn t0() -> Instant {
                static T0: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
                *T0.get_or_init(Instant::now)
            }
        };
    }
}
mod rng;
mod util;
mod world;
mod genworld;
mod joints;
mod genmotion;
mod genjoint;
mod gencontact;
mod gentoi;
mod alg;
mod defs;
mod geo;
mod rope;
mod tree;
mod twin;
mod view;

use std::collections::HashMap;
use std::io::{BufWriter, Write};

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 2 {
        eprintln!("usage: vharness <driver> [--key value]...");
        std::process::exit(2);
    }
    let mut opt: HashMap<String, String> = HashMap::new();
    let mut i = 2;
    while i + 1 < args.len() {
        opt.insert(args[i].trim_start_matches("--").to_string(), args[i + 1].clone());
        i += 2;
    }
    let seed: u64 = opt.get("seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let n: usize = opt.get("n").and_then(|s| s.parse().ok()).unwrap_or(100);
    let out = opt.get("out").cloned().unwrap_or_else(|| "/dev/stdout".to_string());
    std::panic::set_hook(Box::new(|_| {}));
    util::start_watchdog(out.clone(), 30_000);
    let f = std::fs::File::create(&out).expect("cannot create output");
    let mut w = BufWriter::with_capacity(1 << 20, f);
    match args[1].as_str() {
        "world" => genworld::run(&opt, seed, n, &mut w),
        "motion" => genmotion::run(&opt, seed, n, &mut w),
        "joint" => genjoint::run(&opt, seed, n, &mut w),
        "contact" => gencontact::run(&opt, seed, n, &mut w),
        "defs" => defs::run(&opt, seed, n, &mut w),
        "alg" => alg::run(&opt, seed, n, &mut w),
        "rope" => rope::run(&opt, seed, n, &mut w),
        "toi" => gentoi::run(&opt, seed, n, &mut w),
        "geo" => geo::run(&opt, seed, n, &mut w),
        "twin" => twin::run(&opt, seed, n, &mut w),
        "tree" => tree::run(&opt, seed, n, &mut w),
        "treescript" => tree::run_script(&opt, &mut w),
        "script" => genworld::run_script(&opt, &mut w),
        d => {
            eprintln!("unknown driver {}", d);
            std::process::exit(2);
        }
    }
    w.flush().unwrap();
    drop(w);
    // The library's cyclic structures need not be torn down.
    std::process::exit(0);
}
