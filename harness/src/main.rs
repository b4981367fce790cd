mod engines;
mod pbt;
mod nums;
mod p_bss;
mod p_core;
#[cfg(feature = "direct")]
mod p_direct;
mod p_mss;
mod registry;
mod tables;

use std::path::Path;

fn props() -> Vec<pbt::Prop> {
    let mut v = vec![];
    v.extend(registry::props());
    v.sort_by_key(|p| p.id);
    v
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let ps = props();
    let find = |id: &str| ps.iter().find(|p| p.id == id);
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in &ps {
                println!("{} {}", p.id, p.subs.iter().map(|s| s.name).collect::<Vec<_>>().join(","));
            }
            0
        }
        Some("run") => match args.get(2).and_then(|i| find(i)) {
            Some(p) => pbt::run(p),
            None => 2,
        },
        Some("worker") => match args.get(2).and_then(|i| find(i)) {
            Some(p) => pbt::worker(p, Path::new(&args[3])),
            None => 2,
        },
        Some("exec-bin") => match args.get(2).and_then(|i| find(i)) {
            Some(p) => pbt::exec_bin(p, Path::new(&args[3])),
            None => 2,
        },
        Some("replay") => match args.get(2) {
            Some(f) => pbt::replay(&ps, Path::new(f)),
            None => 2,
        },
        _ => {
            println!("usage: harness run ID | replay FILE | list");
            2
        }
    };
    std::process::exit(code);
}
