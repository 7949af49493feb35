//! C24: calls have no input and no effect besides their arguments, results and
//! memory. The executions are those of the other checks; what they return is not
//! judged here, only what they do while the monitor watches.
use crate::checks::{aes, cbc, kdf, placement, resources, salsa, sha};
use crate::engine::*;
use crate::monitor;
use std::io::Write;

fn flush() {
    // What was printed without a line end is still in the process.
    {
        let _g = monitor::enter();
        let _ = std::io::stdout().flush();
    }
}

pub fn c24(t: Tier) -> Check {
    let mut spaces = vec![];
    let mut take = |from: Check, but: &[&str]| {
        let id = from.id;
        for s in from.spaces {
            if s.heavy || s.name == "endless" || but.contains(&s.name) {
                continue;
            }
            let run = s.run;
            let name = Box::leak(format!("{}.{}", id, s.name).into_boxed_str());
            let mut w = Space::new(name, s.desc, s.len, move |i, cx| {
                let _ = monitor::take();
                let r = guarded(|| run(i, cx));
                flush();
                if let Some(what) = monitor::take() {
                    return Err(format!("a call in this case {}", what));
                }
                if !hook_in_place() {
                    return Err("a call in this case replaces the panic hook".into());
                }
                match r {
                    Err(m) | Ok(Err(m)) if m.starts_with("HARNESS") => Err(m),
                    _ => Ok(()),
                }
            });
            w.limit_s = s.limit_s;
            spaces.push(w);
        }
    };
    let q = Tier::Quick;
    let skip: &[&str] = if t.thorough() { &[] } else { &["all_byte_pairs", "key_byte_pairs", "sessions", "write_sequences", "sequences", "three_way"] };
    take(sha::c01(q), skip);
    take(sha::c02(q), skip);
    take(sha::c03(q), skip);
    take(kdf::c04(q), skip);
    take(salsa::c05(q), skip);
    take(kdf::c06(q), skip);
    take(kdf::c07(q), skip);
    take(aes::c08(q), skip);
    take(aes::c09(q), skip);
    take(aes::c10(q), skip);
    take(cbc::c11(q), skip);
    take(cbc::c12(q), skip);
    take(cbc::c13(q), skip);
    take(cbc::c14(q), skip);
    take(resources::c17(q), skip);
    take(kdf::c20(q), skip);
    take(placement::c23(q), skip);
    Check {
        id: "C24",
        spaces,
        assumptions: vec![
            "Seen: system calls other than for memory, threads and locks; rdtsc and the clock functions; reads and changes of the environment; the panic hook; output held in the standard output buffer; floating-point control (SSE and x87) and direction flag. Not seen: instructions without a trap (cpuid, rdrand), and what a thread started by the library does.".into(),
            "Abnormal ends and results are judged by the other checks.".into(),
        ],
        bounds: "The quick bounds of the spaces listed".into(),
    }
}
