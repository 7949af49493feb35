//! C16: two (sometimes three) threads of the real code under a controlled scheduler.
//!
//! Every schedule runs in a process of its own (forked from a process that has
//! not called the library yet), so that one-time initialisation is raced anew
//! each time. See sched.c for how a schedule is imposed.
mod scripts;
mod supervisor;

use scripts::*;
use std::collections::HashMap;
use std::sync::OnceLock;

#[repr(C)]
pub struct Access {
    at: u64,
    lo: usize,
    len: u32,
    write: u32,
}

extern "C" {
    fn conc_setup(n: i32, first: i32, fair: u64);
    fn conc_plan(thread: i32, at: u64, to: i32);
    fn conc_log(cap: u64);
    fn conc_begin(id: i32, stack: usize);
    fn conc_end();
    fn conc_count(id: i32) -> u64;
    fn conc_taken() -> u64;
    fn conc_blocked() -> u64;
    fn conc_forced() -> u64;
    fn conc_log_len(id: i32) -> u64;
    fn conc_log_at(id: i32) -> *const Access;
    fn alarm(s: u32) -> u32;
    fn sched_setaffinity(pid: i32, len: usize, mask: *const u64) -> i32;
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn mmap64(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

const PAGE: usize = 1 << 21;
const STACK: usize = 1 << 19;
pub const HELD: i32 = 0;
pub const MISMATCH: i32 = 10;
pub const HUNG: i32 = 11;

/// Memory shared with the forked children: 16 words, then text or a list.
pub struct Shared {
    base: *mut u64,
}

impl Shared {
    pub fn new() -> Shared {
        let p = unsafe { mmap64(std::ptr::null_mut(), PAGE, 3, 0x21, -1, 0) };
        assert!(p as isize != -1, "mmap");
        Shared { base: p as *mut u64 }
    }
    pub fn get(&self, k: usize) -> u64 {
        unsafe { std::ptr::read_volatile(self.base.add(k)) }
    }
    fn set(&self, k: usize, v: u64) {
        unsafe { std::ptr::write_volatile(self.base.add(k), v) }
    }
    fn cap(&self) -> usize {
        PAGE / 8 - 16
    }
    fn put_text(&self, s: &str) {
        let b = s.as_bytes();
        let n = b.len().min(PAGE - 128);
        unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), self.base.add(16) as *mut u8, n) };
        self.set(15, n as u64);
    }
    pub fn text(&self) -> String {
        let n = self.get(15) as usize;
        let b = unsafe { std::slice::from_raw_parts(self.base.add(16) as *const u8, n) };
        String::from_utf8_lossy(b).to_string()
    }
}

/// One schedule: who starts, and the points (thread, callback, successor) at
/// which another thread takes over.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Plan {
    pub first: usize,
    pub cuts: Vec<(usize, u64, usize)>,
}

impl Plan {
    pub fn text(&self) -> String {
        let c: Vec<String> = self.cuts.iter().map(|(t, k, to)| format!("{}@{}>{}", t, k, to)).collect();
        format!("{}:{}", self.first, c.join(","))
    }
    pub fn parse(s: &str) -> Option<Plan> {
        let (f, c) = s.split_once(':')?;
        let mut cuts = vec![];
        for x in c.split(',').filter(|x| !x.is_empty()) {
            let (t, k) = x.split_once('@')?;
            let (k, to) = k.split_once('>')?;
            cuts.push((t.parse().ok()?, k.parse().ok()?, to.parse().ok()?));
        }
        Some(Plan { first: f.parse().ok()?, cuts })
    }
}

/// Fork, run `f` in the child, return its exit status (negative: signal).
fn in_child(f: impl FnOnce() -> i32) -> i32 {
    unsafe {
        let pid = fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            let c = f();
            _exit(c);
        }
        let mut st = 0;
        loop {
            if waitpid(pid, &mut st, 0) == pid {
                break;
            }
        }
        if st & 0x7f == 14 {
            HUNG
        } else if st & 0x7f != 0 {
            -(st & 0x7f)
        } else {
            (st >> 8) & 0xff
        }
    }
}

/// The writable static memory of the program (not the heap, not the stacks).
fn statics() -> Vec<(usize, usize)> {
    let exe = std::fs::read_link("/proc/self/exe").map(|p| p.display().to_string()).unwrap_or_default();
    let maps = std::fs::read_to_string("/proc/self/maps").unwrap_or_default();
    let mut v: Vec<(usize, usize)> = vec![];
    let mut end = 0;
    for l in maps.lines() {
        let w: Vec<&str> = l.split_whitespace().collect();
        let (a, b) = w[0].split_once('-').unwrap();
        let (a, b) = (usize::from_str_radix(a, 16).unwrap(), usize::from_str_radix(b, 16).unwrap());
        let own = w.len() > 5 && w[5..].join(" ") == exe;
        // zero-initialised data follows in an unnamed mapping
        if own || (w.len() == 5 && a == end) {
            end = b;
            if w[1].starts_with("rw") {
                v.push((a, b));
            }
        } else {
            end = 0;
        }
    }
    v
}

fn snapshot(v: &[(usize, usize)]) -> Vec<u8> {
    let mut o = vec![];
    for &(a, b) in v {
        o.extend_from_slice(unsafe { std::slice::from_raw_parts(a as *const u8, b - a) });
    }
    o
}

/// What each script of a pair returns when it runs alone in a process. Also
/// counts (in `sh`) the bytes of static memory it leaves changed.
pub fn alone(sh: &Shared, s: Script) -> Result<Vec<u8>, String> {
    sh.set(15, 0);
    let st = in_child(|| {
        let w = World::new();
        // what the harness and the standard library change themselves
        let _ = std::panic::catch_unwind(|| std::hint::black_box(0));
        let m = statics();
        let before = snapshot(&m);
        let r = run(&w, s);
        let after = snapshot(&m);
        sh.set(9, before.iter().zip(&after).filter(|(a, b)| a != b).count() as u64);
        sh.put_text(&hex(&r));
        0
    });
    if st != 0 {
        return Err(format!("script {:?} run alone ended with status {}", s, st));
    }
    Ok(unhex(&sh.text()))
}

/// Run one schedule in a fresh process. With `log`, shared accesses of both
/// threads are recorded and the conflicting points returned through `sh`.
pub fn execute(sh: &Shared, scripts: &[Script], prelude: Option<Script>, plan: &Plan, want: &[Vec<u8>], fair: u64, log: bool) -> i32 {
    let threads = scripts.len();
    sh.set(15, 0);
    in_child(|| {
        let w: &'static World = Box::leak(Box::new(World::new()));
        if let Some(p) = prelude {
            run(w, p);
        }
        unsafe {
            conc_log(if log { 4 << 20 } else { 0 });
            conc_setup(threads as i32, plan.first as i32, fair);
            for &(t, k, to) in &plan.cuts {
                conc_plan(t as i32, k, to as i32);
            }
        }
        // A deadlock ends with SIGALRM.
        unsafe { alarm(30) };
        let results: &'static [OnceLock<Vec<u8>>; 3] = Box::leak(Box::default());
        let script: Vec<Script> = scripts.to_vec();
        let script: &'static [Script] = Box::leak(script.into_boxed_slice());
        let body = move |t: usize| {
            // have a heap arena of its own before the other thread ends
            std::hint::black_box(vec![0u8; 100]);
            unsafe { conc_begin(t as i32, STACK) };
            let r = run(w, script[t]);
            unsafe { conc_end() };
            r
        };
        for t in 1..threads {
            let main = std::thread::current();
            let go = move || {
                let r = body(t);
                let _ = results[t].set(r);
                main.unpark();
                loop {
                    std::thread::park();
                }
            };
            if std::thread::Builder::new().stack_size(STACK).spawn(go).is_err() {
                return 2;
            }
        }
        let _ = results[0].set(body(0));
        while results[..threads].iter().any(|r| r.get().is_none()) {
            std::thread::park();
        }
        unsafe {
            sh.set(0, conc_count(0));
            sh.set(1, conc_count(1));
            sh.set(2, conc_taken());
            sh.set(3, conc_blocked());
            sh.set(4, conc_forced());
            if log {
                conflicts(sh);
            }
        }
        for t in 0..threads {
            let g = results[t].get().unwrap();
            if *g != want[t] {
                sh.put_text(&format!("thread {} ({}) obtained {}, alone it obtains {}", t, name(script[t]), show(g), show(&want[t])));
                return MISMATCH;
            }
        }
        HELD
    })
}

/// Finds granules both threads touch and at least one writes; stores, in the
/// shared list, the callbacks (thread, number) that access them.
unsafe fn conflicts(sh: &Shared) {
    let mut seen: HashMap<usize, [u8; 2]> = HashMap::new();
    let mut full = false;
    let mut each = |f: &mut dyn FnMut(usize, u64, usize, u8)| {
        for t in 0..2 {
            let n = conc_log_len(t as i32).min(4 << 20) as usize;
            full |= conc_log_len(t as i32) as usize > n;
            let a = std::slice::from_raw_parts(conc_log_at(t as i32), n);
            for x in a {
                for g in x.lo..x.lo + x.len as usize {
                    f(t, x.at, g, if x.write != 0 { 2 } else { 1 });
                }
            }
        }
    };
    each(&mut |t, _, g, k| seen.entry(g).or_default()[t] |= k);
    let hot: std::collections::HashSet<usize> = seen.iter().filter(|(_, m)| m[0] != 0 && m[1] != 0 && (m[0] | m[1]) & 2 != 0).map(|(g, _)| *g).collect();
    let mut points: Vec<(usize, u64)> = vec![];
    let mut globals = 0u64;
    if !hot.is_empty() {
        each(&mut |t, at, g, _| {
            if hot.contains(&g) && points.last() != Some(&(t, at)) {
                points.push((t, at));
            }
        });
        globals = hot.len() as u64;
    }
    points.sort();
    points.dedup();
    sh.set(5, globals);
    sh.set(7, seen.len() as u64);
    sh.set(8, full as u64);
    let n = points.len().min(sh.cap());
    sh.set(6, n as u64);
    for (i, (t, k)) in points.iter().take(n).enumerate() {
        sh.set(16 + i, (*t as u64) << 62 | *k);
    }
}

fn read_points(sh: &Shared) -> [Vec<u64>; 2] {
    let mut o = [vec![], vec![]];
    for i in 0..sh.get(6) as usize {
        let v = sh.get(16 + i);
        o[(v >> 62) as usize].push(v & ((1 << 62) - 1));
    }
    o
}

/// What the workers share: when to stop, and the first case known to be broken.
struct Stop {
    word: *mut u64,
    end: std::time::Instant,
}

impl Stop {
    fn open(path: &str, seconds: u64) -> Stop {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).open(path).expect("stop file");
        let p = unsafe { mmap64(std::ptr::null_mut(), 4096, 3, 1, f.as_raw_fd(), 0) };
        assert!(p as isize != -1, "mmap");
        Stop { word: p as *mut u64, end: std::time::Instant::now() + std::time::Duration::from_secs(seconds) }
    }
    fn first_bad(&self) -> u64 {
        unsafe { std::ptr::read_volatile(self.word) }
    }
    fn bad(&self, ci: usize) {
        if (ci as u64) < self.first_bad() {
            unsafe { std::ptr::write_volatile(self.word, ci as u64) };
        }
    }
    fn late(&self) -> bool {
        std::time::Instant::now() >= self.end
    }
}

/// What the sequential runs of a pair told.
struct Known {
    want: [Vec<u8>; 2],
    counts: [u64; 2],
    hot: [Vec<u64>; 2],
    traces: u64,
}

enum End {
    Done,
    /// Out of time, or of no interest any more.
    Cut,
    Bad,
}

/// Worker `w` of `n` runs every n-th schedule of a pair, in a fixed order; a
/// probe is run by one worker alone.
struct Pair<'a> {
    sh: &'a Shared,
    c: &'a Case,
    ci: usize,
    w: usize,
    n: usize,
    idx: usize,
    fair: u64,
    stat: [u64; 8], // schedules, events, taken, blocked, forced, conflicts, hot points, static bytes changed
    stop: &'a Stop,
}

impl<'a> Pair<'a> {
    fn new(sh: &'a Shared, c: &'a Case, ci: usize, w: usize, n: usize, stop: &'a Stop) -> Self {
        let (w, n) = if c.probe { (0, 1) } else { (w, n) };
        Pair { sh, c, ci, w, n, idx: 0, fair: 2_000_000_000, stat: [0; 8], stop }
    }

    /// Run one schedule, if it is this worker's.
    fn go(&mut self, plan: Plan, want: &[Vec<u8>]) -> End {
        let mine = self.idx % self.n == self.w;
        self.idx += 1;
        if !mine {
            return End::Done;
        }
        if self.stop.late() || self.stop.first_bad() < self.ci as u64 {
            return End::Cut;
        }
        let (sh, c) = (self.sh, self.c);
        let scripts = c.scripts(want.len());
        let mut r = execute(sh, &scripts, c.prelude, &plan, want, self.fair, false);
        if r == HUNG {
            r = execute(sh, &scripts, c.prelude, &plan, want, self.fair, false);
        }
        self.stat[0] += 1;
        self.stat[1] += sh.get(0) + sh.get(1);
        for k in 2..5 {
            self.stat[k] += sh.get(k);
        }
        if r == HELD {
            return End::Done;
        }
        let m = match r {
            MISMATCH => sh.text(),
            HUNG => "the threads did not finish within 30 s (deadlock or livelock)".into(),
            r if r < 0 => format!("the process died with signal {}", -r),
            r => format!("child ended with status {}", r),
        };
        println!("BAD {} {} {} {}", self.ci, plan.text(), r, m.replace('\n', " "));
        self.stop.bad(self.ci);
        End::Bad
    }

    /// Both sequential orders, with the access log, to learn the points; then
    /// one preemption at every point of either thread.
    fn one(&mut self) -> (End, Option<Known>) {
        let (sh, c) = (self.sh, self.c);
        let mut k = Known { want: [vec![], vec![]], counts: [0; 2], hot: [vec![], vec![]], traces: 0 };
        for t in 0..2 {
            k.want[t] = match alone(sh, c.pair[t]) {
                Ok(a) => a,
                Err(m) => {
                    println!("BAD {} - died {}", self.ci, m);
                    self.stop.bad(self.ci);
                    return (End::Bad, None);
                }
            };
            k.traces += sh.get(9);
        }
        self.stat[7] = k.traces;
        for first in 0..2 {
            let plan = Plan { first, cuts: vec![] };
            let r = execute(sh, &c.pair, c.prelude, &plan, &k.want, 2_000_000_000, true);
            if r != HELD {
                // the plain run decides, without the logging
                self.w = 0;
                self.n = 1;
                let e = self.go(plan, &k.want);
                if !matches!(e, End::Bad) {
                    println!("HARNESS logging run of {} ended with {}", c.title(), r);
                }
                return (End::Bad, None);
            }
            for t in 0..2 {
                k.counts[t] = k.counts[t].max(sh.get(t));
            }
            self.stat[5] = self.stat[5].max(sh.get(5));
            if sh.get(8) != 0 {
                println!("NOTE access log of {} was cut off", c.title());
            }
            let h = read_points(sh);
            for t in 0..2 {
                k.hot[t].extend(&h[t]);
            }
        }
        for t in 0..2 {
            k.hot[t].sort();
            k.hot[t].dedup();
            self.stat[6] += k.hot[t].len() as u64;
        }
        self.fair = 4 * (k.counts[0] + k.counts[1]) + 2_000_000;
        // A probe is explored at the conflicting points, or, if static memory
        // changed in ways the log does not show, everywhere.
        let stride = match c.probe {
            false => 1,
            true if k.traces > 0 => 1 + (k.counts[0] + k.counts[1]) / 8000,
            true => u64::MAX,
        };
        for first in 0..2 {
            for at in 0..=k.counts[first] {
                if at != 0 && at % stride != 0 && k.hot[first].binary_search(&at).is_err() {
                    continue;
                }
                let cuts = if at == 0 { vec![] } else { vec![(first, at, 1 - first)] };
                match self.go(Plan { first, cuts }, &k.want) {
                    End::Done => {}
                    e => return (e, Some(k)),
                }
            }
        }
        (End::Done, Some(k))
    }

    /// The points paired for two preemptions: all, or the conflicting ones.
    fn points(c: &Case, k: &Known) -> [Vec<u64>; 2] {
        let mut o = [vec![], vec![]];
        for t in 0..2 {
            let v: Vec<u64> = if c.bound2 { (1..=k.counts[t]).collect() } else { near(&k.hot[t], k.counts[t]) };
            // a conflict-rich pair is thinned to the first and last points
            o[t] = thin(&v, if c.bound2 { usize::MAX } else { PAIR_CAP });
        }
        o
    }

    fn two(&mut self, k: &Known) -> End {
        self.fair = 4 * (k.counts[0] + k.counts[1]) + 2_000_000;
        let p = Self::points(self.c, k);
        for first in 0..2 {
            let o = 1 - first;
            for &x in &p[first] {
                for &y in &p[o] {
                    match self.go(Plan { first, cuts: vec![(first, x, o), (o, y, first)] }, &k.want) {
                        End::Done => {}
                        e => return e,
                    }
                }
            }
        }
        End::Done
    }

    /// A third thread, with the data of the first, runs while the others are
    /// both interrupted where they use what they have in common.
    fn three(&mut self, k: &Known) -> End {
        self.fair = 4 * (2 * k.counts[0] + k.counts[1]) + 2_000_000;
        let mut want = k.want.to_vec();
        want.push(k.want[0].clone());
        let p = Self::triple_points(k);
        for first in 0..2 {
            let o = 1 - first;
            for &x in &p[first] {
                for &y in &p[o] {
                    match self.go(Plan { first, cuts: vec![(first, x, o), (o, y, 2)] }, &want) {
                        End::Done => {}
                        e => return e,
                    }
                }
            }
        }
        End::Done
    }

    fn triple_points(k: &Known) -> [Vec<u64>; 2] {
        [0, 1].map(|t| thin(&near(&k.hot[t], k.counts[t]), TRIPLE_CAP))
    }

    fn report(&self, counts: [u64; 2], e: &End) {
        let s = self.stat;
        println!("STAT {} {} {} {} {} {} {} {} {} {} {}", self.ci, s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], counts[0], counts[1]);
        if matches!(e, End::Cut) {
            println!("CUT {}", self.ci);
        }
    }
}

/// All pairs with one preemption, then those with something in common with two,
/// and with a third thread, the smallest first.
fn work(cases: &[Case], w: usize, n: usize, stop: &Stop) {
    let sh = Shared::new();
    let mut later: Vec<(u64, u8, usize, std::rc::Rc<Known>)> = vec![];
    for (ci, c) in cases.iter().enumerate() {
        if c.probe && ci % n != w {
            continue;
        }
        if stop.first_bad() < ci as u64 {
            break;
        }
        if stop.late() {
            println!("CUT {}", ci);
            continue;
        }
        let mut p = Pair::new(&sh, c, ci, w, n, stop);
        let (e, k) = p.one();
        p.report(k.as_ref().map_or([0; 2], |k| k.counts), &e);
        if let (End::Done, Some(k)) = (e, k) {
            let share = |v: [Vec<u64>; 2]| (2 * v[0].len() as u64 * v[1].len() as u64).div_ceil(if c.probe { 1 } else { n as u64 });
            let k = std::rc::Rc::new(k);
            later.push((share(Pair::points(c, &k)), 2, ci, k.clone()));
            later.push((share(Pair::triple_points(&k)), 3, ci, k));
        }
    }
    later.sort_by_key(|x| (x.0, x.1, x.2));
    for (size, threads, ci, k) in &later {
        if *size == 0 || stop.first_bad() < *ci as u64 {
            continue;
        }
        let mut p = Pair::new(&sh, &cases[*ci], *ci, w, n, stop);
        let e = if *threads == 2 { p.two(k) } else { p.three(k) };
        p.report([0; 2], &e);
    }
}

/// Threads of one schedule run one at a time, so they share a core.
fn pin(k: usize) {
    let mut m = [0u64; 16];
    if k < 1024 {
        m[k / 64] = 1 << (k % 64);
        unsafe { sched_setaffinity(0, 128, m.as_ptr()) };
    }
}

fn near(h: &[u64], n: u64) -> Vec<u64> {
    let mut v: Vec<u64> = h.iter().flat_map(|&k| [k, k + 1]).filter(|&k| k <= n).collect();
    v.sort();
    v.dedup();
    v
}

const PAIR_CAP: usize = 160;
const TRIPLE_CAP: usize = 80;

fn thin(v: &[u64], cap: usize) -> Vec<u64> {
    if v.len() <= cap {
        return v.to_vec();
    }
    let mut o: Vec<u64> = v[..cap / 2].to_vec();
    o.extend(&v[v.len() - cap / 2..]);
    o
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let arg = |k: usize| a.get(k).cloned().unwrap_or_default();
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let code = match arg(1).as_str() {
        "worker" => {
            std::panic::set_hook(Box::new(|_| {}));
            let (w, n): (usize, usize) = (arg(2).parse().unwrap(), arg(3).parse().unwrap());
            pin(w);
            work(&cases(thorough), w, n, &Stop::open(&arg(4), arg(5).parse().unwrap()));
            println!("END");
            0
        }
        "replay" => supervisor::replay(&arg(2)),
        "time" => {
            let sh = Shared::new();
            let cs = cases(thorough);
            let c = &cs[arg(2).parse::<usize>().unwrap()];
            let want = [alone(&sh, c.pair[0]).unwrap(), alone(&sh, c.pair[1]).unwrap()];
            let t = std::time::Instant::now();
            let mut ev = 0;
            for k in 0..500 {
                execute(&sh, &c.pair, c.prelude, &Plan { first: 0, cuts: vec![(0, k + 1, 1)] }, &want, 1 << 40, false);
                ev += sh.get(0) + sh.get(1);
            }
            println!("{} {:.1} us each, {} events each", c.title(), t.elapsed().as_secs_f64() * 2000.0, ev / 500);
            0
        }
        "list" => {
            for c in cases(thorough) {
                println!("{}", c.title());
            }
            0
        }
        _ => supervisor::run(thorough),
    };
    std::process::exit(code)
}
