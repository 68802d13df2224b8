mod acc;
mod alloc;
mod chan;
mod crypto;
mod doc;
mod engine;
mod gen;
mod model;
mod ops;
mod oracle;
mod props;
mod rng;
mod sched;
mod tables;
mod util;
mod world;

use engine::{RunCfg, Tier};

#[global_allocator]
static GLOBAL: alloc::SimAlloc = alloc::SimAlloc;

fn usage() -> ! {
    eprintln!(
        "usage: sim check ID | sim replay FILE | sim digest ID N | sim show ID INDEX\n\
         environment: VERIF_SEED (default 1), VERIF_TIER quick|thorough, VERIF_RUNS"
    );
    std::process::exit(2)
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let arg = |i: usize| args.get(i).map(String::as_str).unwrap_or_else(|| usage());
    let num = |i: usize| arg(i).parse::<u64>().unwrap_or_else(|_| usage());
    let tier_of = |s: &str| match s {
        "thorough" => Tier::Thorough,
        _ => Tier::Quick,
    };
    if !crypto::self_test() {
        eprintln!("check error: sender-side AES self test failed");
        std::process::exit(2);
    }
    let seed = match std::env::var("VERIF_SEED") {
        Ok(s) => s
            .trim()
            .parse::<u64>()
            .unwrap_or_else(|_| rng::hash_bytes(s.trim().as_bytes()) >> 12),
        Err(_) => 1,
    };
    let tier = tier_of(&std::env::var("VERIF_TIER").unwrap_or_default());
    let get = |id: &str| {
        props::get(id).unwrap_or_else(|| {
            eprintln!("unknown property {id}");
            std::process::exit(2)
        })
    };
    let code = match arg(0) {
        "check" => {
            let p = get(arg(1));
            let m = p.meta();
            let runs = std::env::var("VERIF_RUNS")
                .ok()
                .and_then(|s| s.parse().ok())
                .unwrap_or(if tier == Tier::Quick {
                    m.quick
                } else {
                    m.thorough
                });
            let workers = std::thread::available_parallelism()
                .map_or(4, |n| n.get() as u64)
                .clamp(1, 8);
            let cfg = RunCfg {
                seed,
                tier,
                runs,
                workers,
                cap_s: if tier == Tier::Quick { 400 } else { 750 },
            };
            engine::check(p.as_ref(), &cfg)
        }
        "worker" => {
            let p = get(arg(1));
            let cfg = RunCfg {
                seed: num(4),
                tier: tier_of(arg(5)),
                runs: num(6),
                workers: num(3),
                cap_s: num(7),
            };
            engine::worker(p.as_ref(), &cfg, num(2), std::path::Path::new(arg(8)))
        }
        "replay" => engine::replay(props::get, arg(1)),
        "digest" => {
            let p = get(arg(1));
            println!("{:016x}", engine::digest(p.as_ref(), seed, tier, num(2)));
            0
        }
        "show" => {
            let p = get(arg(1));
            println!(
                "{}",
                serde_json::to_string_pretty(&p.gen(seed, tier, num(2))).unwrap()
            );
            0
        }
        "list" => {
            for p in props::all() {
                println!("{}", p.meta().id);
            }
            0
        }
        _ => usage(),
    };
    std::process::exit(code);
}
