//! The exhaustive explorer.
//!
//! A check is a list of *spaces*. A space is a finite, indexed set of cases
//! (`0..len`); index `i` stands for one complete execution of the real code
//! (one call sequence, one input, one schedule). The explorer runs every index
//! of every space, no sampling, and compares each step with the reference
//! model inside the case. Indices are ordered simplest first, and the smallest
//! failing (space, index) is the one reported.
//!
//! Process layout: the supervisor starts a worker; the worker runs the cases on
//! all cores and keeps, in a shared file mapping, which case each thread is in.
//! If the code under test kills or hangs the worker, the supervisor re-runs the
//! cases that were in progress one by one, each in its own process, to find and
//! confirm the one responsible.
use std::collections::HashSet;
use std::hash::{BuildHasherDefault, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use crate::api;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
    pub fn thorough(self) -> bool {
        self == Tier::Thorough
    }
    /// Bound chosen by tier.
    pub fn pick<T>(self, q: T, t: T) -> T {
        if self.thorough() {
            t
        } else {
            q
        }
    }
}

// ------------------------------------------------------------------- hashing

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        let mut h = self.0;
        h ^= h >> 32;
        h = h.wrapping_mul(0x9E37_79B9_7F4A_7C15);
        h ^ (h >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        let mut it = b.chunks_exact(8);
        for c in &mut it {
            self.write_u64(u64::from_le_bytes([c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]]));
        }
        for &x in it.remainder() {
            self.write_u64(x as u64 + 1);
        }
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
    fn write_u8(&mut self, v: u8) {
        self.write_u64(v as u64)
    }
    fn write_u32(&mut self, v: u32) {
        self.write_u64(v as u64)
    }
    fn write_usize(&mut self, v: usize) {
        self.write_u64(v as u64)
    }
}

#[derive(Default, Clone, Copy)]
pub struct Ident(u64);
impl Hasher for Ident {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = v
    }
}
pub type Set = HashSet<u64, BuildHasherDefault<Ident>>;

pub fn h<T: std::hash::Hash>(t: &T) -> u64 {
    let mut f = Fx::default();
    t.hash(&mut f);
    f.finish()
}

// ------------------------------------------------------------------- context

/// At most this many distinct hashes per thread and kind; beyond it the
/// distinct counts are lower bounds (and the evidence says so).
const SET_CAP: usize = 1_500_000;

pub struct Cx {
    pub tier: Tier,
    states: Set,
    outcomes: Set,
    pub capped: bool,
    pub key: Option<String>,
    pub counters: std::collections::BTreeMap<&'static str, u64>,
}

pub type R = Result<(), String>;

impl Cx {
    fn new(tier: Tier) -> Self {
        Cx { tier, states: Set::default(), outcomes: Set::default(), capped: false, key: None, counters: Default::default() }
    }
    /// A state of the reference model was reached.
    #[inline]
    pub fn state<T: std::hash::Hash>(&mut self, t: &T) {
        if self.states.len() < SET_CAP {
            self.states.insert(h(t));
        } else {
            self.capped = true;
        }
    }
    /// An observation the real code produced.
    #[inline]
    pub fn outcome<T: std::hash::Hash>(&mut self, t: &T) {
        if self.outcomes.len() < SET_CAP {
            self.outcomes.insert(h(t));
        } else {
            self.capped = true;
        }
    }
    pub fn count(&mut self, what: &'static str, n: u64) {
        *self.counters.entry(what).or_insert(0) += n;
    }
    /// Identity of this case for the known-findings file.
    pub fn key(&mut self, k: String) {
        self.key = Some(k);
    }
    #[inline]
    pub fn eq(&mut self, what: &str, got: &[u8], want: &[u8]) -> R {
        self.outcome(&got);
        if got == want {
            return Ok(());
        }
        let at = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        Err(format!(
            "{}: code under test gave {} ({} bytes), expected {} ({} bytes), first difference at byte {}",
            what,
            around(got, at),
            got.len(),
            around(want, at),
            want.len(),
            at
        ))
    }
    pub fn same<T: std::fmt::Debug + PartialEq>(&mut self, what: &str, got: &T, want: &T) -> R {
        if got == want {
            Ok(())
        } else {
            Err(format!("{}: code under test gave {:?}, expected {:?}", what, got, want))
        }
    }
}

fn around(b: &[u8], at: usize) -> String {
    if b.len() <= 96 {
        return api::hex(b);
    }
    let lo = at.saturating_sub(16).min(b.len());
    let hi = (at + 48).min(b.len());
    format!("..[{}..{}]={}", lo, hi, api::hex(&b[lo..hi]))
}

pub struct Space {
    pub name: &'static str,
    pub desc: String,
    pub len: u64,
    pub limit_s: u64,
    /// Long-running cases: dispatched first, one case per work item.
    pub heavy: bool,
    pub run: Box<dyn Fn(u64, &mut Cx) -> R + Sync + Send>,
}

impl Space {
    pub fn new(
        name: &'static str,
        desc: impl Into<String>,
        len: u64,
        run: impl Fn(u64, &mut Cx) -> R + Sync + Send + 'static,
    ) -> Space {
        Space { name, desc: desc.into(), len, limit_s: 90, heavy: false, run: Box::new(run) }
    }
    pub fn limit(mut self, limit_s: u64) -> Space {
        self.limit_s = limit_s;
        self
    }
    pub fn heavy(mut self, limit_s: u64) -> Space {
        self.heavy = true;
        self.limit_s = limit_s;
        self
    }
}

pub struct Check {
    pub id: &'static str,
    pub spaces: Vec<Space>,
    pub assumptions: Vec<String>,
    pub bounds: String,
}

/// Mixed radix decoding, last digit fastest.
pub fn dec<const N: usize>(mut i: u64, dims: [usize; N]) -> [usize; N] {
    let mut o = [0; N];
    for k in (0..N).rev() {
        o[k] = (i % dims[k] as u64) as usize;
        i /= dims[k] as u64;
    }
    o
}

pub fn size<const N: usize>(dims: [usize; N]) -> u64 {
    dims.iter().map(|&d| d as u64).product()
}

/// All sequences over an alphabet of `a` symbols with length `0..=max`, shortest
/// first. `seq_count` is how many there are, `seq_at` the i-th one.
pub fn seq_count(a: usize, max: usize) -> u64 {
    (0..=max as u32).map(|l| (a as u64).pow(l)).sum()
}

pub fn seq_at(mut i: u64, a: usize, max: usize, out: &mut Vec<usize>) {
    out.clear();
    for l in 0..=max as u32 {
        let n = (a as u64).pow(l);
        if i < n {
            for _ in 0..l {
                out.push((i % a as u64) as usize);
                i /= a as u64;
            }
            out.reverse();
            return;
        }
        i -= n;
    }
    unreachable!()
}

// ---------------------------------------------------------- shared breadcrumb

extern "C" {
    fn mmap64(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

const SLOTS: usize = 64;
const IDLE: u64 = u64::MAX;

struct Crumbs {
    base: *mut AtomicU64,
}
unsafe impl Sync for Crumbs {}
unsafe impl Send for Crumbs {}

impl Crumbs {
    fn create(path: &Path) -> Crumbs {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(path).expect("breadcrumb file");
        let bytes = SLOTS * 3 * 8;
        f.set_len(bytes as u64).expect("breadcrumb size");
        let p = unsafe { mmap64(std::ptr::null_mut(), bytes, 3, 1, f.as_raw_fd(), 0) };
        assert!(p as isize != -1, "mmap");
        let c = Crumbs { base: p as *mut AtomicU64 };
        for s in 0..SLOTS {
            c.at(s, 0).store(IDLE, SeqCst);
        }
        c
    }
    fn at(&self, slot: usize, k: usize) -> &AtomicU64 {
        unsafe { &*self.base.add(slot * 3 + k) }
    }
    fn read(path: &Path) -> Vec<(u64, u64)> {
        let b = std::fs::read(path).unwrap_or_default();
        let w: Vec<u64> = b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
        w.chunks_exact(3).filter(|s| s[0] != IDLE).map(|s| (s[0], s[1])).collect()
    }
}

// -------------------------------------------------------------------- running

#[derive(Clone)]
pub struct Violation {
    pub space: usize,
    pub index: u64,
    pub what: String,
    pub kind: &'static str,
    pub calls: Vec<String>,
}

enum Outcome {
    Held,
    Broken(String),
    /// A panic outside any library call: the harness itself is wrong.
    Harness(String),
}

thread_local! {
    static PANIC_MSG: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
    static IN_CASE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

pub fn quiet_panics() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if !IN_CASE.with(|c| c.get()) {
            old(i);
            return;
        }
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let l = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC_MSG.with(|p| *p.borrow_mut() = format!("{}{}", m, l));
    }));
}

/// Lets helper threads inside a case report panics like the main one.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    api::clear_in_call();
    let was = IN_CASE.with(|c| c.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_CASE.with(|c| c.set(was));
    r.map_err(|_| {
        let m = PANIC_MSG.with(|p| p.borrow().clone());
        let call = api::in_call();
        if call.is_empty() {
            format!("HARNESS {}", m)
        } else {
            format!("panic inside {}: {}", call, m)
        }
    })
}

/// Is the panic hook still the one installed by `quiet_panics`?
pub fn hook_in_place() -> bool {
    PANIC_MSG.with(|p| p.borrow_mut().clear());
    let was = IN_CASE.with(|c| c.replace(true));
    let _ = catch_unwind(|| std::panic::panic_any(()));
    IN_CASE.with(|c| c.set(was));
    PANIC_MSG.with(|p| !p.borrow().is_empty())
}

fn run_case(s: &Space, i: u64, cx: &mut Cx) -> Outcome {
    cx.key = None;
    match guarded(|| (s.run)(i, cx)) {
        Ok(Ok(())) => Outcome::Held,
        Ok(Err(m)) if m.starts_with("HARNESS") => Outcome::Harness(m),
        Ok(Err(m)) => Outcome::Broken(m),
        Err(m) if m.starts_with("HARNESS") => Outcome::Harness(m),
        Err(m) => Outcome::Broken(m),
    }
}

#[derive(Default)]
pub struct Totals {
    pub states: u64,
    pub outcomes: u64,
    pub transitions: u64,
    pub cases: u64,
    pub capped: bool,
    pub per_space: Vec<u64>,
    pub ms_space: Vec<u64>,
    pub samples: Vec<String>,
    pub counters: std::collections::BTreeMap<&'static str, u64>,
    pub known: Vec<String>,
}

pub struct WorkerResult {
    pub totals: Totals,
    pub violation: Option<Violation>,
    pub harness_error: Option<String>,
}

fn threads() -> usize {
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16)
}

struct Item {
    space: usize,
    from: u64,
    to: u64,
}

struct OnDrop<F: FnMut()>(F);
impl<F: FnMut()> Drop for OnDrop<F> {
    fn drop(&mut self) {
        (self.0)()
    }
}

pub fn explore(check: &Check, tier: Tier, crumb_path: &Path, known: &[String]) -> WorkerResult {
    let crumbs = Crumbs::create(crumb_path);
    let nt = threads();
    let mut items: Vec<Item> = vec![];
    for (si, s) in check.spaces.iter().enumerate() {
        if s.heavy {
            for i in 0..s.len {
                items.push(Item { space: si, from: i, to: i + 1 });
            }
        }
    }
    for (si, s) in check.spaces.iter().enumerate() {
        if !s.heavy {
            let chunk = (s.len / (nt as u64 * 24)).clamp(1, 4096);
            let mut a = 0;
            while a < s.len {
                let b = (a + chunk).min(s.len);
                items.push(Item { space: si, from: a, to: b });
                a = b;
            }
        }
    }
    let next = AtomicU64::new(0);
    let best: Mutex<Option<Violation>> = Mutex::new(None);
    let broken = AtomicBool::new(false);
    let err: Mutex<Option<String>> = Mutex::new(None);
    let known_hits: Mutex<Vec<String>> = Mutex::new(vec![]);
    let done = AtomicBool::new(false);
    let hung: Mutex<Option<(u64, u64)>> = Mutex::new(None);
    let t0 = Instant::now();
    let better = |v: &Option<Violation>, si: usize, i: u64| match v {
        None => true,
        Some(b) => (si, i) < (b.space, b.index),
    };
    type Part = (Set, Set, u64, bool, Vec<u64>, std::collections::BTreeMap<&'static str, u64>);
    let parts: Mutex<Vec<Part>> = Mutex::new(vec![]);
    let twins: Vec<AtomicU64> = check.spaces.iter().map(|_| AtomicU64::new(0)).collect();
    let spent: Vec<AtomicU64> = check.spaces.iter().map(|_| AtomicU64::new(0)).collect();
    let live = AtomicU64::new(nt as u64);

    std::thread::scope(|sc| {
        for slot in 0..nt {
            let (items, next, best, broken, err, known_hits, parts, live, crumbs, spent, twins) =
                (&items, &next, &best, &broken, &err, &known_hits, &parts, &live, &crumbs, &spent, &twins);
            std::thread::Builder::new()
                .stack_size(32 << 20)
                .spawn_scoped(sc, move || {
                    let mut cx = Cx::new(tier);
                    let c0 = api::calls();
                    let mut per = vec![0u64; check.spaces.len()];
                    'outer: loop {
                        let k = next.fetch_add(1, SeqCst) as usize;
                        if k >= items.len() || err.lock().unwrap().is_some() {
                            break;
                        }
                        let it = &items[k];
                        let s = &check.spaces[it.space];
                        let at = Instant::now();
                        let _spent = OnDrop(|| {
                            spent[it.space].fetch_add(at.elapsed().as_micros() as u64, SeqCst);
                        });
                        for i in it.from..it.to {
                            if broken.load(SeqCst) && !better(&best.lock().unwrap(), it.space, i) {
                                continue 'outer;
                            }
                            crumbs.at(slot, 1).store(i, SeqCst);
                            crumbs.at(slot, 2).store(t0.elapsed().as_millis() as u64, SeqCst);
                            crumbs.at(slot, 0).store(it.space as u64, SeqCst);
                            let o = run_case(s, i, &mut cx);
                            crumbs.at(slot, 0).store(IDLE, SeqCst);
                            per[it.space] += 1;
                            match o {
                                Outcome::Held => {}
                                Outcome::Harness(m) => {
                                    *err.lock().unwrap() = Some(format!("{} (space {}, index {})", m, s.name, i));
                                    break 'outer;
                                }
                                Outcome::Broken(m) => {
                                    if let Some(k) = cx.key.clone() {
                                        if known.iter().any(|x| *x == k) {
                                            known_hits.lock().unwrap().push(format!("{} :: {}", k, m));
                                            continue;
                                        }
                                    }
                                    if check.id == "C21" {
                                        // Not a matter of the word size if the 64-bit
                                        // build does exactly the same.
                                        if twins[it.space].load(SeqCst) >= TWIN_CAP || same_on_64(tier, s, i, &m) {
                                            twins[it.space].fetch_add(1, SeqCst);
                                            continue;
                                        }
                                    }
                                    let mut b = best.lock().unwrap();
                                    if better(&b, it.space, i) {
                                        *b = Some(Violation { space: it.space, index: i, what: m, kind: "mismatch", calls: vec![] });
                                    }
                                    broken.store(true, SeqCst);
                                }
                            }
                        }
                    }
                    parts.lock().unwrap().push((cx.states, cx.outcomes, api::calls() - c0, cx.capped, per, cx.counters));
                    live.fetch_sub(1, SeqCst);
                })
                .expect("spawn");
        }
        // Watchdog: a case that runs far beyond its limit is a suspected hang.
        // It also ends the run early once only heavy cases that can no longer
        // matter are left after a violation.
        let (live, crumbs, hung, best, broken, next, items, done) = (&live, &crumbs, &hung, &best, &broken, &next, &items, &done);
        let watchdog = move || {
            while live.load(SeqCst) > 0 {
                std::thread::sleep(Duration::from_millis(20));
                let now = t0.elapsed().as_millis() as u64;
                let mut pending_matters = false;
                for slot in 0..nt {
                    let sp = crumbs.at(slot, 0).load(SeqCst);
                    if sp == IDLE {
                        continue;
                    }
                    let (i, st) = (crumbs.at(slot, 1).load(SeqCst), crumbs.at(slot, 2).load(SeqCst));
                    if better(&best.lock().unwrap(), sp as usize, i) {
                        pending_matters = true;
                    }
                    let lim = check.spaces[sp as usize].limit_s * 1000;
                    if now.saturating_sub(st) > lim && crumbs.at(slot, 0).load(SeqCst) == sp && crumbs.at(slot, 1).load(SeqCst) == i {
                        *hung.lock().unwrap() = Some((sp, i));
                    }
                }
                let hang = hung.lock().unwrap().is_some();
                let drained = next.load(SeqCst) as usize >= items.len();
                if hang || (broken.load(SeqCst) && drained && !pending_matters) {
                    done.store(true, SeqCst);
                    return;
                }
            }
        };
        watchdog();
        if done.load(SeqCst) {
            // Threads are stuck in cases that no longer matter (or hang): report
            // from here and leave the process.
            let h = *hung.lock().unwrap();
            if let Some((sp, i)) = h {
                println!("HANG {} {}", sp, i);
                std::process::exit(78);
            }
            let v = without_beyond(check, &twins, best.lock().unwrap().clone());
            let mut totals = collect(&parts, check);
            count_twins(&twins, &mut totals);
            totals.ms_space = spent.iter().map(|x| x.load(SeqCst) / 1000).collect();
            finish_and_exit(check, tier, totals, v);
        }
    });
    let mut totals = collect(&parts, check);
    totals.ms_space = spent.iter().map(|x| x.load(SeqCst) / 1000).collect();
    count_twins(&twins, &mut totals);
    totals.known = known_hits.into_inner().unwrap();
    totals.known.sort();
    totals.known.dedup();
    let violation = without_beyond(check, &twins, best.into_inner().unwrap());
    WorkerResult { totals, violation, harness_error: err.into_inner().unwrap() }
}

/// After so many cases of a space in which both builds are wrong in the same way,
/// the space is given up: the property cannot be judged on it.
const TWIN_CAP: u64 = 24;

/// C21: does the 64-bit build of this tree fail the same case with the same
/// values? Builds it when first asked.
fn same_on_64(tier: Tier, s: &Space, i: u64, m: &str) -> bool {
    static BUILT: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    let run = |c: &mut Command| c.current_dir(verif_dir()).stdin(Stdio::null()).stderr(Stdio::null()).output();
    if s.name == "beyond" || !*BUILT.get_or_init(|| run(Command::new("./check.sh").arg("build")).map_or(false, |o| o.status.success())) {
        return false;
    }
    let o = run(Command::new(format!("harness/target/{}/mc", profile())).args(["case", "C21", tier.name(), s.name, &i.to_string()]));
    o.map_or(false, |o| String::from_utf8_lossy(&o.stdout).lines().any(|l| l.strip_prefix("BROKEN: ") == m.lines().next()))
}

/// The 64-bit side of the space "beyond" is a constant. When the tree is wrong on
/// 64 bits as well, it says nothing.
fn without_beyond(check: &Check, twins: &[AtomicU64], v: Option<Violation>) -> Option<Violation> {
    v.filter(|v| check.spaces[v.space].name != "beyond" || twins.iter().all(|t| t.load(SeqCst) == 0))
}

fn count_twins(twins: &[AtomicU64], t: &mut Totals) {
    let n = twins.iter().map(|x| x.load(SeqCst)).sum();
    if n > 0 {
        t.counters.insert("cases_wrong_in_the_same_way_on_64_bits_and_not_judged", n);
    }
}

type PartT = (Set, Set, u64, bool, Vec<u64>, std::collections::BTreeMap<&'static str, u64>);

fn collect(parts: &Mutex<Vec<PartT>>, check: &Check) -> Totals {
    let mut t = Totals { per_space: vec![0; check.spaces.len()], ..Default::default() };
    let mut st = Set::default();
    let mut oc = Set::default();
    for (s, o, tr, cap, per, ct) in parts.lock().unwrap().drain(..) {
        st.extend(s);
        oc.extend(o);
        t.transitions += tr;
        t.capped |= cap;
        for (k, n) in per.into_iter().enumerate() {
            t.per_space[k] += n;
            t.cases += n;
        }
        for (k, n) in ct {
            *t.counters.entry(k).or_insert(0) += n;
        }
    }
    t.states = st.len() as u64;
    t.outcomes = oc.len() as u64;
    t
}

/// Run one case again with recording; used for samples and for replay files.
pub fn record_case(check: &Check, tier: Tier, space: usize, index: u64, stream: Option<std::fs::File>) -> (Vec<String>, Result<(), String>) {
    let mut cx = Cx::new(tier);
    api::record_start(stream);
    let o = run_case(&check.spaces[space], index, &mut cx);
    let lines = api::record_stop();
    let r = match o {
        Outcome::Held => Ok(()),
        Outcome::Broken(m) | Outcome::Harness(m) => Err(m),
    };
    (lines, r)
}

// ------------------------------------------------------------------- reporting

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

pub fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

/// How the crate under test is compiled.
fn profile() -> String {
    std::env::var("MC_PROFILE").unwrap_or_else(|_| "release".into())
}

/// The evidence of the profiles that were run before this one.
fn before() -> String {
    let e = std::env::var("MC_BEFORE").ok().filter(|p| !p.is_empty());
    e.map_or(String::new(), |p| std::fs::read_to_string(p).unwrap_or_default().trim().to_string())
}

static START: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
pub fn mark_start() {
    START.get_or_init(Instant::now);
}

pub fn write_evidence(check: &Check, tier: Tier, t: &Totals, violations: u64) {
    let mut spaces = String::new();
    for (k, s) in check.spaces.iter().enumerate() {
        if k > 0 {
            spaces.push(',');
        }
        spaces.push_str(&format!(
            "{{\"name\":{},\"enumerates\":{},\"cases\":{},\"cases_in_space\":{},\"thread_s\":{:.2}}}",
            jstr(s.name),
            jstr(&s.desc),
            t.per_space.get(k).copied().unwrap_or(0),
            s.len,
            t.ms_space.get(k).copied().unwrap_or(0) as f64 / 1000.0
        ));
    }
    let all: u64 = check.spaces.iter().map(|s| s.len).sum();
    let samples: Vec<String> = t.samples.iter().map(|s| jstr(s)).collect();
    let mut extra = String::new();
    for (k, v) in &t.counters {
        extra.push_str(&format!(",{}:{}", jstr(k), v));
    }
    let assumptions: Vec<String> = check.assumptions.iter().map(|s| jstr(s)).collect();
    let known: Vec<String> = t.known.iter().map(|s| jstr(s)).collect();
    let j = format!(
        "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"model_checking\",\"coverage\":{{\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"distinct_observations\":{},\"distinct_counts_are_lower_bounds\":{},\"exhaustive\":{},\"bounds\":{},\"spaces\":[{}],\"known_findings_hit\":[{}]{},\"profile\":{},\"other_profiles\":[{}],\"samples\":[{}]}},\"assumptions\":[{}],\"wall_s\":{:.3},\"violations\":{}}}\n",
        jstr(check.id),
        jstr(tier.name()),
        seed(),
        t.states,
        t.transitions,
        t.cases,
        t.outcomes,
        t.capped,
        t.cases == all && violations == 0,
        jstr(&check.bounds),
        spaces,
        known.join(","),
        extra,
        jstr(&profile()),
        before(),
        samples.join(","),
        assumptions.join(","),
        START.get().map(|s| s.elapsed().as_secs_f64()).unwrap_or(0.0),
        violations
    );
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let tmp = dir.join(format!("{}.json.tmp", check.id));
    std::fs::write(&tmp, j).expect("write evidence");
    std::fs::rename(&tmp, dir.join(format!("{}.json", check.id))).expect("write evidence");
}

pub fn write_replay(check: &Check, tier: Tier, v: &Violation) -> PathBuf {
    let dir = verif_dir().join("evidence").join("replay");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}.case", check.id));
    let s = &check.spaces[v.space];
    let mut f = std::fs::File::create(&path).expect("replay file");
    let _ = writeln!(
        f,
        "property={}\nprofile={}\ntier={}\nspace={}\nindex={}\nkind={}\nwhat={}\n\n# Re-run with: ./check.sh replay {}\n# The space enumerates: {}\n# Calls made, as a plain unit test (also in {}_replay.rs):",
        check.id,
        profile(),
        tier.name(),
        s.name,
        v.index,
        v.kind,
        v.what.replace('\n', " "),
        path.display(),
        s.desc,
        check.id
    );
    let mut rs = std::fs::File::create(dir.join(format!("{}_replay.rs", check.id))).expect("replay test");
    let _ = writeln!(
        rs,
        "// Violates {}: {}\n// Put into tests/ of a scratch copy of the repository. The comment after\n// each call is what the code under test returned when the violation was found.\n#![allow(unused)]\n#[test]\nfn replay_{}() {{",
        check.id,
        v.what.replace('\n', " "),
        check.id.to_lowercase()
    );
    for l in &v.calls {
        let _ = writeln!(f, "{}", l);
        let _ = writeln!(rs, "    {}", l);
    }
    let _ = writeln!(rs, "    panic!({:?});\n}}", v.what);
    path
}

pub fn add_samples(check: &Check, tier: Tier, t: &mut Totals) {
    for (si, s) in check.spaces.iter().enumerate() {
        if s.heavy || s.len == 0 {
            continue;
        }
        let (lines, _) = record_case(check, tier, si, s.len * 2 / 3, None);
        let mut txt = format!("{}#{}: {}", s.name, s.len * 2 / 3, lines.join(" "));
        if txt.len() > 600 {
            let mut k = 600;
            while !txt.is_char_boundary(k) {
                k -= 1;
            }
            txt.truncate(k);
            txt.push_str("...");
        }
        t.samples.push(txt);
    }
    if t.samples.is_empty() {
        t.samples.push(check.spaces.iter().map(|s| s.desc.clone()).collect::<Vec<_>>().join("; "));
    }
}

fn finish_and_exit(check: &Check, tier: Tier, mut totals: Totals, v: Option<Violation>) -> ! {
    let code = conclude(check, tier, &mut totals, v);
    let _ = std::io::stdout().flush();
    std::process::exit(code)
}

/// Print the verdict and write the evidence. Returns the exit code.
pub fn conclude(check: &Check, tier: Tier, totals: &mut Totals, v: Option<Violation>) -> i32 {
    for k in &totals.known {
        println!("KNOWN-FINDING: property={} {}", check.id, k);
    }
    match v {
        None => {
            add_samples(check, tier, totals);
            write_evidence(check, tier, totals, 0);
            println!(
                "OK property={} tier={} cases={} states={} transitions={} distinct_observations={} wall={:.1}s",
                check.id,
                tier.name(),
                totals.cases,
                totals.states,
                totals.transitions,
                totals.outcomes,
                START.get().map(|s| s.elapsed().as_secs_f64()).unwrap_or(0.0)
            );
            0
        }
        Some(mut v) => {
            if v.kind == "mismatch" && !check.spaces[v.space].heavy {
                let (a, ra) = record_case(check, tier, v.space, v.index, None);
                let (_, rb) = record_case(check, tier, v.space, v.index, None);
                v.calls = a;
                if ra.is_ok() || rb.is_ok() {
                    v.kind = "mismatch, depends on calls made earlier in the process (hidden state)";
                }
            }
            totals.samples.push(format!("violating case: {} {}", v.what, v.calls.join(" ")));
            write_evidence(check, tier, totals, 1);
            let p = write_replay(check, tier, &v);
            println!("space={} index={} {}", check.spaces[v.space].name, v.index, v.what);
            println!("VIOLATION property={} replay={}", check.id, p.display());
            1
        }
    }
}

// ------------------------------------------------------------------ supervisor

/// Start the worker, and turn a worker that died or hung inside the code under
/// test into a confirmed violation.
pub fn supervise(check: &Check, tier: Tier, exe: &Path) -> i32 {
    let crumb = scratch(check.id, "crumbs");
    let out = Command::new(exe)
        .args(["worker", check.id, tier.name()])
        .arg(&crumb)
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::inherit())
        .output();
    let out = match out {
        Ok(o) => o,
        Err(e) => {
            eprintln!("cannot start worker: {}", e);
            return 2;
        }
    };
    let text = String::from_utf8_lossy(&out.stdout).to_string();
    let code = out.status.code();
    let result = match code {
        Some(0) | Some(1) => {
            print!("{}", text);
            code.unwrap()
        }
        Some(2) => {
            print!("{}", text);
            2
        }
        _ => {
            use std::os::unix::process::ExitStatusExt;
            let sig = out.status.signal();
            eprintln!("worker ended abnormally: {:?}", out.status);
            if sig == Some(9) || sig == Some(15) || sig == Some(2) {
                eprintln!("worker was killed from outside (memory or time limit)");
                2
            } else {
                let mut cands = if code == Some(78) {
                    text.lines()
                        .filter_map(|l| l.strip_prefix("HANG "))
                        .filter_map(|l| {
                            let mut w = l.split_whitespace();
                            Some((w.next()?.parse().ok()?, w.next()?.parse().ok()?))
                        })
                        .collect()
                } else {
                    Crumbs::read(&crumb)
                };
                cands.sort();
                confirm(check, tier, exe, &cands)
            }
        }
    };
    let _ = std::fs::remove_file(&crumb);
    result
}

fn scratch(id: &str, what: &str) -> PathBuf {
    let d = std::env::var("MC_SCRATCH").unwrap_or_else(|_| "/tmp".into());
    PathBuf::from(d).join(format!("mc-{}-{}-{}", id, what, std::process::id()))
}

fn confirm(check: &Check, tier: Tier, exe: &Path, cands: &[(u64, u64)]) -> i32 {
    for &(sp, i) in cands {
        let Some(space) = check.spaces.get(sp as usize) else { continue };
        let log = scratch(check.id, "calls");
        let mut ch = match Command::new(exe)
            .args(["case", check.id, tier.name(), space.name, &i.to_string()])
            .arg(&log)
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .spawn()
        {
            Ok(c) => c,
            Err(e) => {
                eprintln!("cannot start case: {}", e);
                return 2;
            }
        };
        let t0 = Instant::now();
        let limit = Duration::from_secs(space.limit_s);
        let verdict = loop {
            match ch.try_wait() {
                Ok(Some(st)) => {
                    use std::os::unix::process::ExitStatusExt;
                    break match (st.code(), st.signal()) {
                        (_, Some(sg)) if sg != 9 && sg != 15 => Some(("crash", format!("the process died with signal {} inside the last call listed", sg))),
                        (Some(1), _) => Some(("mismatch", "the case fails when run alone".to_string())),
                        _ => None,
                    };
                }
                Ok(None) if t0.elapsed() > limit => {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    break Some(("hang", format!("the last call listed did not return within {} s", space.limit_s)));
                }
                Ok(None) => std::thread::sleep(Duration::from_millis(20)),
                Err(_) => break None,
            }
        };
        let calls: Vec<String> = std::fs::read_to_string(&log).unwrap_or_default().lines().map(|s| s.to_string()).collect();
        let _ = std::fs::remove_file(&log);
        if check.id == "C24" && verdict.as_ref().map_or(false, |v| v.0 != "mismatch") {
            eprintln!("a case of another check ends abnormally ({}#{}); that is for C17 and C23 to judge; no verdict", space.name, i);
            return 2;
        }
        if let Some((kind, what)) = verdict {
            let v = Violation { space: sp as usize, index: i, what, kind, calls };
            let mut t = Totals { per_space: vec![0; check.spaces.len()], ..Default::default() };
            return conclude(check, tier, &mut t, Some(v));
        }
    }
    eprintln!("no case in progress reproduces the abnormal end; no verdict");
    2
}
