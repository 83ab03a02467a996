//! ddmon: runtime monitors for the decision-diagram library in /repo.
mod bssm;
mod engine;
mod extra;
mod generic;
mod mem;
mod mssm;
mod num;
mod props;
mod repro;
mod rt;
mod sched;
use rt::*;

#[global_allocator]
static ALLOC: mem::Counting = mem::Counting;

use std::path::Path;

fn tier(s: &str) -> Tier {
    if s.eq_ignore_ascii_case("thorough") {
        Tier::Thorough
    } else {
        Tier::Quick
    }
}

fn main() {
    install_hook();
    let a: Vec<String> = std::env::args().collect();
    let find = |id: &str| props::PROPS.iter().find(|p| p.id == id).unwrap_or_else(|| {
        println!("no such property: {}", id);
        std::process::exit(3)
    });
    let n = |i: usize| a.get(i).and_then(|s| s.parse::<u64>().ok()).unwrap_or(0);
    match a.get(1).map(|s| s.as_str()) {
        Some("--worker") => worker(find(&a[2]), tier(&a[3]), n(4), n(5), n(6), n(7), n(8), Path::new(&a[9])),
        Some("--replay") => std::process::exit(replay_main(find(&a[2]), tier(&a[3]), n(4), n(5), Path::new(&a[6]))),
        Some("--list") => props::PROPS.iter().for_each(|p| println!("{}", p.id)),
        Some(id) => {
            let t = tier(a.get(2).map(|s| s.as_str()).unwrap_or("quick"));
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            std::process::exit(drive(find(id), t, seed))
        }
        None => {
            println!("usage: ddmon ID [quick|thorough]");
            std::process::exit(3)
        }
    }
}
