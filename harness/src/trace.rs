//! The path a call takes through the optimised code (C25): how many basic
//! blocks, and a hash of which ones in which order. Needs the build of
//! `check.sh trace`.
extern "C" {
    fn mc_trace_begin();
    fn mc_trace_end(out: *mut u64);
}

#[derive(Clone, Copy, Default, PartialEq, Eq, Hash, Debug)]
pub struct Path {
    pub blocks: u64,
    pub which: u64,
}

#[inline(never)]
pub fn path<T>(f: impl FnOnce() -> T) -> (T, Path) {
    let mut o = [0u64; 2];
    unsafe { mc_trace_begin() };
    let r = std::hint::black_box(f());
    unsafe { mc_trace_end(o.as_mut_ptr()) };
    (r, Path { blocks: o[0], which: o[1] })
}

#[inline(never)]
fn early_exit(a: &[u8], v: u8) -> bool {
    for b in a {
        if std::hint::black_box(*b) != v {
            return false;
        }
    }
    true
}

#[inline(never)]
fn all_of_it(a: &[u8], v: u8) -> bool {
    let mut x = 0;
    for b in a {
        x |= std::hint::black_box(*b) ^ v;
    }
    x == 0
}

/// The instrument itself: an early exit shows, its absence too.
pub fn start() {
    let of = |f: fn(&[u8], u8) -> bool| {
        (0..16).map(|at| {
            let mut a = [7u8; 16];
            a[at] = 1;
            path(|| std::hint::black_box(f(std::hint::black_box(&a), 7))).1
        }).collect::<Vec<_>>()
    };
    assert!(of(early_exit).windows(2).all(|w| w[0].blocks < w[1].blocks), "HARNESS an early exit was not noticed");
    assert!(of(all_of_it).windows(2).all(|w| w[0] == w[1]), "HARNESS paths vary: {:?}", of(all_of_it));
    let sha = path(|| dumb_crypto::sha256::SHA256::new().digest()).1;
    assert!(sha.blocks > 10, "HARNESS the crate is not instrumented");
}
