//! Counts the instructions a call executes (C22): the trap flag makes the
//! processor stop after every one of them. Those outside this program, in the C
//! library, are executed but not counted: how long the heap takes is not the
//! code's doing.
//!
//! x86-64 Linux only.
use crate::monitor::install;
use std::cell::Cell;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

static LO: AtomicUsize = AtomicUsize::new(0);
static HI: AtomicUsize = AtomicUsize::new(0);

thread_local! {
    static COUNT: Cell<u64> = const { Cell::new(0) };
}

unsafe extern "C" fn on_trap(_: i32, _: *mut u8, uc: *mut u8) {
    let rip = *(uc.add(40 + 16 * 8) as *const usize);
    if rip >= LO.load(Relaxed) && rip < HI.load(Relaxed) {
        COUNT.with(|c| c.set(c.get() + 1));
    }
}

/// What `f` returns, and how many instructions that took.
#[inline(never)]
pub fn steps<T>(f: impl FnOnce() -> T) -> (T, u64) {
    COUNT.with(|c| c.set(0));
    unsafe { std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") };
    let r = f();
    unsafe { std::arch::asm!("pushfq", "and qword ptr [rsp], -0x101", "popfq") };
    (r, COUNT.with(|c| c.get()))
}

#[inline(never)]
fn early_exit(a: &[u8], v: u8) -> bool {
    for b in a {
        if std::hint::black_box(*b) != v {
            return false;
        }
    }
    true
}

#[inline(never)]
fn all_of_it(a: &[u8], v: u8) -> bool {
    let mut x = 0;
    for b in a {
        x |= std::hint::black_box(*b) ^ v;
    }
    x == 0
}

pub fn start() {
    let here = start as *const () as usize;
    let maps = std::fs::read_to_string("/proc/self/maps").expect("HARNESS own mappings");
    for l in maps.lines() {
        let n = |s: &str| usize::from_str_radix(s, 16).unwrap_or(0);
        let (a, b) = l.split(' ').next().and_then(|r| r.split_once('-')).map_or((0, 0), |(a, b)| (n(a), n(b)));
        if (a..b).contains(&here) {
            LO.store(a, Relaxed);
            HI.store(b, Relaxed);
        }
    }
    install(5, on_trap as *const () as usize);
    let count = |f: fn(&[u8], u8) -> bool, at: usize| {
        let mut a = [7u8; 16];
        a[at] = 1;
        steps(|| std::hint::black_box(f(std::hint::black_box(&a), 7))).1
    };
    let of = |f| (0..16).map(|at| count(f, at)).collect::<Vec<_>>();
    assert!(of(early_exit).windows(2).all(|w| w[0] < w[1]), "HARNESS an early exit was not noticed");
    assert!(of(all_of_it).windows(2).all(|w| w[0] == w[1]), "HARNESS counts vary: {:?}", of(all_of_it));
}
