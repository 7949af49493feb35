use crate::scripts::*;
use crate::*;
use std::process::{Command, Stdio};
use std::time::Instant;

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// No new schedules are started after so long. The unchanged tree needs less;
/// code with much common state may not be finished.
fn budget(thorough: bool) -> u64 {
    match (thorough, profile() == "checked") {
        (false, false) => 420,
        (false, true) => 150,
        (true, false) => 4 * 3600,
        (true, true) => 3600,
    }
}

/// The evidence of the profile that was run before this one.
fn before() -> String {
    let e = std::env::var("MC_BEFORE").ok().filter(|p| !p.is_empty());
    e.map_or(String::new(), |p| std::fs::read_to_string(p).unwrap_or_default().trim().to_string())
}

fn dir() -> std::path::PathBuf {
    std::path::PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())).join("evidence")
}

/// Send and Sync of the public types.
fn marker_fault() -> Result<Option<String>, String> {
    let m = markers();
    let (own, controls) = m.split_at(m.len() - 2);
    if controls[0].1 != true || controls[0].2 || controls[1].1 || controls[1].2 {
        return Err("the Send/Sync probe does not work".into());
    }
    Ok(own.iter().find(|x| !x.1 || !x.2).map(|x| format!("{} is Send: {}, Sync: {}", x.0, x.1, x.2)))
}

pub fn run(thorough: bool) -> i32 {
    let t0 = Instant::now();
    let cases = cases(thorough);
    let n = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4);
    let mut bad: Option<(usize, String, String, String)> = None;
    match marker_fault() {
        Err(m) => {
            eprintln!("harness error: {}", m);
            return 2;
        }
        Ok(Some(m)) => bad = Some((usize::MAX, "-".into(), "-".into(), m)),
        Ok(None) => {}
    }
    let mut stats: Vec<[u64; 10]> = vec![[0; 10]; cases.len()];
    let mut notes = vec![];
    let mut cut = std::collections::BTreeSet::new();
    if bad.is_none() {
        let exe = std::env::current_exe().expect("own path");
        let stop = std::env::temp_dir().join(format!("conc-stop-{}", std::process::id()));
        let mut page = vec![0u8; 4096];
        page[..8].fill(0xff);
        std::fs::write(&stop, page).expect("stop file");
        let seconds = budget(thorough);
        let mut kids = vec![];
        for w in 0..n {
            let ch = Command::new(&exe).args(["worker", &w.to_string(), &n.to_string()]).arg(&stop).arg(seconds.to_string()).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::inherit()).spawn();
            match ch {
                Ok(c) => kids.push(c),
                Err(e) => {
                    eprintln!("cannot start worker: {}", e);
                    return 2;
                }
            }
        }
        let readers: Vec<_> = kids.into_iter().map(|c| std::thread::spawn(move || c.wait_with_output())).collect();
        let mut broken = None;
        for r in readers {
            let Ok(Ok(out)) = r.join() else {
                broken = Some("worker output lost".to_string());
                continue;
            };
            let text = String::from_utf8_lossy(&out.stdout).to_string();
            for l in text.lines() {
                let w: Vec<&str> = l.split(' ').collect();
                match w[0] {
                    "STAT" => {
                        let k: usize = w[1].parse().unwrap();
                        for j in 0..10 {
                            let v: u64 = w[2 + j].parse().unwrap();
                            if j < 5 {
                                stats[k][j] += v;
                            } else {
                                stats[k][j] = stats[k][j].max(v);
                            }
                        }
                    }
                    "BAD" => {
                        let k: usize = w[1].parse().unwrap();
                        let b = (k, w[2].to_string(), w[3].to_string(), w[4..].join(" "));
                        let better = match &bad {
                            None => true,
                            Some(o) => (b.0, Plan::parse(&b.1)) < (o.0, Plan::parse(&o.1)),
                        };
                        if better {
                            bad = Some(b);
                        }
                    }
                    "CUT" => {
                        cut.insert(w[1].to_string());
                    }
                    "HARNESS" => broken = Some(l.to_string()),
                    "NOTE" => notes.push(l.to_string()),
                    _ => {}
                }
            }
            if !text.lines().any(|l| l == "END") {
                broken = Some(format!("a worker ended early: {:?}", out.status));
            }
        }
        let _ = std::fs::remove_file(&stop);
        if bad.is_none() {
            if let Some(m) = broken {
                eprintln!("harness error: {}", m);
                return 2;
            }
        }
    }
    if !cut.is_empty() && bad.is_none() {
        notes.push(format!("{} of {} pairs were not explored to the end within {} s (those with the most common points last)", cut.len(), cases.len(), budget(thorough)));
    }
    let sum = |j: usize| stats.iter().map(|s| s[j]).sum::<u64>();
    let (schedules, events, taken, blocked, forced, conflicts, hot) = (sum(0), sum(1), sum(2), sum(3), sum(4), sum(5), sum(6));
    let probes = cases.iter().filter(|c| c.probe).count();
    let probed = cases.iter().zip(&stats).filter(|(c, s)| c.probe && (s[5] > 0 || s[7] > 0)).count();
    let pairs: Vec<String> = cases
        .iter()
        .zip(&stats)
        .filter(|(c, s)| !c.probe || s[0] > 2 || s[5] > 0 || s[7] > 0)
        .map(|(c, s)| format!("{{\"pair\":{},\"schedules\":{},\"points\":[{},{}],\"conflicting_bytes\":{},\"static_bytes_changed\":{},\"two_preemptions_everywhere\":{}}}", jstr(&c.title()), s[0], s[8], s[9], s[5], s[7], c.bound2))
        .collect();
    let what = bad.as_ref().map(|b| {
        if b.0 == usize::MAX {
            b.3.clone()
        } else {
            format!("{}, schedule {}: {}", cases[b.0].title(), b.1, b.3)
        }
    });
    let sample = |k: usize| format!("{}: thread 0 is preempted before its callback {} of {}, thread 1 runs to its end, thread 0 continues; both results as alone", cases[k].title(), stats[k][8] / 2, stats[k][8]);
    let mut samples = vec![jstr(&sample(0)), jstr(&sample(cases.len() / 2)), jstr(&sample(cases.len() - 1))];
    if let Some(w) = &what {
        samples.push(jstr(&format!("violating: {}", w)));
    }
    let ev = format!(
        "{{\"property\":\"C16\",\"tier\":\"{}\",\"seed\":{},\"level\":\"model_checking\",\"coverage\":{{\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"schedules\":{},\"preemptions_taken\":{},\"handovers_because_blocked\":{},\"handovers_for_fairness\":{},\"conflicting_bytes\":{},\"conflicting_points\":{},\"probes\":{},\"probes_with_common_state\":{},\"exhaustive\":{},\"profile\":{},\"other_profiles\":[{}],\"bounds\":{},\"pairs\":[{}],\"notes\":[{}],\"samples\":[{}]}},\"assumptions\":[{},{},{}],\"wall_s\":{:.3},\"violations\":{}}}\n",
        if thorough { "thorough" } else { "quick" },
        std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1),
        schedules,
        events,
        schedules,
        schedules,
        taken,
        blocked,
        forced,
        conflicts,
        hot,
        probes,
        probed,
        bad.is_none() && cut.is_empty(),
        jstr(&profile()),
        before(),
        jstr("two threads; one preemption at every basic block, load and store of the crate (both orders); two preemptions at every pair of points where both threads touch a common byte and one writes it (also with a third thread running in between), and, in the thorough tier, at every pair of points of the pairs so marked; further pairs (probes) are run in both orders and explored in the same way only if they leave traces in memory both threads can reach"),
        pairs.join(","),
        notes.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","),
        samples.join(","),
        jstr("Sequentially consistent interleavings at the compiler's callbacks; code inside the standard library runs without preemption."),
        jstr("A pair without conflicting accesses has one schedule up to commutation, so for it the bound on preemptions loses nothing (memcpy, read-modify-write instructions and library routines are not logged; the probes therefore also compare the program's whole static memory before and after)."),
        jstr("Expected results: the same script alone in a fresh process."),
        t0.elapsed().as_secs_f64(),
        bad.is_some() as u64
    );
    let d = dir();
    let _ = std::fs::create_dir_all(d.join("replay"));
    std::fs::write(d.join("C16.json"), ev).expect("evidence");
    match what {
        None => {
            println!("OK property=C16 schedules={} events={} preemptions={} conflicting_bytes={} wall={:.1}s", schedules, events, taken, conflicts, t0.elapsed().as_secs_f64());
            0
        }
        Some(w) => {
            let b = bad.unwrap();
            let p = d.join("replay/C16.case");
            let (ci, t) = if b.0 == usize::MAX { ("-".to_string(), "-".to_string()) } else { (b.0.to_string(), cases[b.0].title()) };
            std::fs::write(
                &p,
                format!(
                    "property=C16\nprofile={}\ntier={}\ncase={}\nplan={}\nwhat={}\n\n# {}\n# The plan reads FIRST:THREAD@POINT>NEXT,... - FIRST starts; each THREAD hands over to\n# NEXT before its POINT-th callback (basic block, load or store). A thread 2 does what\n# thread 0 does.\n# Run again with: ./check.sh replay {}\n",
                    profile(),
                    if thorough { "thorough" } else { "quick" },
                    ci,
                    b.1,
                    w,
                    t,
                    p.display()
                ),
            )
            .expect("replay file");
            println!("{}", w);
            println!("VIOLATION property=C16 replay={}", p.display());
            1
        }
    }
}

pub fn replay(path: &str) -> i32 {
    let t = std::fs::read_to_string(path).expect("replay file");
    let f = |k: &str| t.lines().find_map(|l| l.strip_prefix(&format!("{}=", k))).unwrap_or("").to_string();
    if f("case") == "-" {
        return match marker_fault() {
            Ok(None) => 0,
            Ok(Some(m)) => {
                println!("BROKEN: {}", m);
                1
            }
            Err(_) => 2,
        };
    }
    let cs = cases(f("tier") == "thorough");
    let c = &cs[f("case").parse::<usize>().expect("case")];
    println!("{}", c.title());
    let sh = Shared::new();
    let want = match (alone(&sh, c.pair[0]), alone(&sh, c.pair[1])) {
        (Ok(a), Ok(b)) => [a, b],
        (Err(m), _) | (_, Err(m)) => {
            println!("BROKEN: {}", m);
            return 1;
        }
    };
    let Some(plan) = Plan::parse(&f("plan")) else { return 2 };
    let mut want = want.to_vec();
    if plan.cuts.iter().any(|x| x.2 == 2) {
        want.push(want[0].clone());
    }
    let r = execute(&sh, &c.scripts(want.len()), c.prelude, &plan, &want, 50_000_000, false);
    if r == HELD {
        println!("held");
        return 0;
    }
    println!("BROKEN: status {} {}", r, sh.text());
    1
}
