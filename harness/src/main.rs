mod buf;
mod driver;
mod img;
mod isa;
mod props;
mod refmodel;
mod spec;
mod strat;

use driver::*;
use std::path::{Path, PathBuf};

fn find(id: &str) -> Entry {
    props::all().into_iter().find(|e| e.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {id}");
        std::process::exit(2)
    })
}

fn main() {
    isa::setup();
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("run") => {
            let e = find(&a[2]);
            let env = |k: &str| std::env::var(k).ok();
            let tier = if a.iter().any(|x| x == "--thorough") { Tier::Thorough } else { Tier::Quick };
            let opt = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
            let variants: Vec<PathBuf> = match opt("--bins") {
                Some(s) => s.split(':').map(PathBuf::from).collect(),
                None => vec![std::env::current_exe().unwrap()],
            };
            let r = RunArgs {
                tier,
                seed: env("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1),
                variants,
                cases: opt("--cases").and_then(|s| s.parse().ok()),
                jobs: opt("--jobs").and_then(|s| s.parse().ok()).unwrap_or(8),
            };
            std::process::exit(parent(&e, &r));
        }
        Some("worker") => {
            install_panic_hook();
            let e = find(&a[2]);
            let n = |i: usize| a[i].parse::<u64>().unwrap();
            worker(&e, n(3), n(4), n(5), n(6), a[7].parse().unwrap(), Path::new(&a[8]), &a[9]);
        }
        Some("exec") => {
            install_panic_hook();
            let e = find(&a[2]);
            let v: serde_json::Value = serde_json::from_slice(&std::fs::read(&a[3]).unwrap()).unwrap();
            std::process::exit(exec(&e, &cases_of(&v)));
        }
        Some("serve") => {
            install_panic_hook();
            props::variants::serve();
        }
        Some("isa") => println!("{}", isa::effective()),
        Some("list") => {
            for e in props::all() {
                println!("{} quick={} thorough={}", e.id, e.quick, e.thorough);
            }
        }
        _ => {
            eprintln!("usage: ezk-verif run ID [--thorough] [--cases N] | exec ID FILE | serve | list");
            std::process::exit(2);
        }
    }
}
