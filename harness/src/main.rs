mod alloc_count;
mod api;
mod checks;
mod engine;
#[cfg(target_arch = "x86_64")]
mod monitor;
mod refs;
#[cfg(target_arch = "x86_64")]
mod steps;
#[cfg(trace)]
mod trace;
mod util;

use engine::{Check, Tier};
use std::path::PathBuf;

fn usage() -> ! {
    eprintln!("usage: mc run <ID> | worker <ID> <tier> <crumbs> | case <ID> <tier> <space> <index> [log] | replay <file> | list");
    std::process::exit(2)
}

fn tier_of(s: &str) -> Tier {
    match s {
        "quick" => Tier::Quick,
        "thorough" => Tier::Thorough,
        _ => usage(),
    }
}

fn get(id: &str, tier: Tier) -> Check {
    match checks::build(id, tier) {
        Some(c) => c,
        None => {
            eprintln!("unknown property {}", id);
            std::process::exit(2)
        }
    }
}

fn known_for(id: &str) -> Vec<String> {
    let f = engine::verif_dir().join("known-findings.txt");
    let want = format!("open: property={} ", id);
    std::fs::read_to_string(f)
        .unwrap_or_default()
        .lines()
        .filter_map(|l| l.strip_prefix(&want))
        .map(|l| l.split(" :: ").next().unwrap_or("").trim().to_string())
        .collect()
}

extern "C" {
    fn setrlimit64(what: i32, lim: *const [u64; 2]) -> i32;
}

/// Bound the address space, so that a call that tries to allocate without
/// limit fails instead of exhausting the machine.
fn limit_memory(bytes: u64) {
    const RLIMIT_AS: i32 = 9;
    unsafe {
        setrlimit64(RLIMIT_AS, &[bytes, bytes]);
    }
}

fn limit_for(id: &str) {
    if matches!(id, "C07" | "C17" | "C19") {
        limit_memory(12 << 30);
    }
}

/// Whatever a check needs in the process that runs its cases.
fn prepare(id: &str) {
    limit_for(id);
    #[cfg(target_arch = "x86_64")]
    match id {
        "C22" => steps::start(),
        #[cfg(trace)]
        "C25" => {
            steps::start();
            trace::start();
        }
        "C24" => monitor::start(),
        _ => {}
    }
}

fn main() {
    engine::mark_start();
    engine::quiet_panics();
    if let Err(m) = refs::selftest() {
        eprintln!("{}", m);
        std::process::exit(2);
    }
    let a: Vec<String> = std::env::args().collect();
    let arg = |k: usize| a.get(k).map(|s| s.as_str()).unwrap_or_else(|| usage());
    let code = match arg(1) {
        "run" => {
            let tier = tier_of(&std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into()));
            let c = get(arg(2), tier);
            engine::supervise(&c, tier, &std::env::current_exe().expect("own path"))
        }
        "worker" => {
            let tier = tier_of(arg(3));
            let c = get(arg(2), tier);
            prepare(arg(2));
            let r = engine::explore(&c, tier, &PathBuf::from(arg(4)), &known_for(arg(2)));
            if let Some(e) = r.harness_error {
                eprintln!("harness error: {}", e);
                std::process::exit(2);
            }
            let mut t = r.totals;
            engine::conclude(&c, tier, &mut t, r.violation)
        }
        "case" => {
            let tier = tier_of(arg(3));
            let c = get(arg(2), tier);
            let sp = c.spaces.iter().position(|s| s.name == arg(4)).unwrap_or_else(|| usage());
            let i: u64 = arg(5).parse().unwrap_or_else(|_| usage());
            prepare(arg(2));
            let log = a.get(6).map(|p| std::fs::File::create(p).expect("log"));
            let (lines, r) = engine::record_case(&c, tier, sp, i, log);
            for l in lines {
                println!("{}", l);
            }
            match r {
                Ok(()) => {
                    println!("held");
                    0
                }
                Err(m) if m.starts_with("HARNESS") => {
                    println!("{}", m);
                    2
                }
                Err(m) => {
                    println!("BROKEN: {}", m);
                    1
                }
            }
        }
        "replay" => {
            let t = std::fs::read_to_string(arg(2)).expect("replay file");
            let f = |k: &str| t.lines().find_map(|l| l.strip_prefix(&format!("{}=", k))).unwrap_or("").to_string();
            let st = std::process::Command::new(std::env::current_exe().unwrap())
                .args(["case", &f("property"), &f("tier"), &f("space"), &f("index")])
                .status()
                .expect("case");
            println!("replay: {}", st);
            st.code().unwrap_or(1)
        }
        "probe" => {
            limit_memory(2 << 30);
            let n = |k: usize| arg(k).parse().unwrap_or_else(|_| usage());
            checks::kdf::probe(n(2), n(3), n(4))
        }
        "endless" => checks::kdf::endless(arg(2), arg(3).parse().unwrap_or_else(|_| usage())),
        "alone" => checks::isolation::alone(arg(2).parse().unwrap_or_else(|_| usage())),
        // Reference key for the constants in checks/wide.rs (64-bit build).
        "model" => {
            let n = |k: usize| arg(k).parse().unwrap_or_else(|_| usage());
            println!("({}, {}, {}, {:?}),", n(2), n(3), n(4), api::hex(&refs::kdf::scrypt(b"pw", b"salt", n(2), n(3) as u64, n(4), 24)));
            0
        }
        "list" => {
            for id in checks::ids() {
                let c = get(id, Tier::Quick);
                for s in &c.spaces {
                    println!("{} {} {} {}", id, s.name, s.len, s.desc);
                }
            }
            0
        }
        _ => usage(),
    };
    std::process::exit(code)
}
