//! Watches what the code under test does to the world outside its arguments
//! (C24). While a library call is in progress on a thread
//!
//! * every system call traps (syscall user dispatch). Those that manage memory,
//!   threads and locks are carried out; all others are carried out and reported;
//! * `rdtsc` traps, `clock_gettime`, `gettimeofday`, `time` and `getenv` are
//!   ours, and the list behind `environ` lies in an inaccessible page.
//!
//! x86-64 Linux only.
use std::cell::{Cell, UnsafeCell};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};

static ON: AtomicBool = AtomicBool::new(false);
/// System calls carried out for the library, and calls that became unwatched
/// because they started a thread.
pub static BENIGN: AtomicU64 = AtomicU64::new(0);
static ENV_PAGE: AtomicUsize = AtomicUsize::new(0);
static ENV_LIST: AtomicUsize = AtomicUsize::new(0);

struct Cells {
    selector: UnsafeCell<u8>,
    armed: Cell<bool>,
    inside: Cell<bool>,
    env_open: Cell<bool>,
    /// 1 + file opened by the allocator.
    file: Cell<u64>,
    /// What was seen first: 0 nothing, 1 + number of a system call, or below.
    seen: Cell<u64>,
    arg: Cell<u64>,
}

const CLOCK: u64 = 1 << 32;
const ENV: u64 = 2 << 32;
const ENV_SET: u64 = 3 << 32;
const MXCSR: u64 = 4 << 32;
const FLAGS: u64 = 5 << 32;

thread_local! {
    static C: Cells = const { Cells {
        selector: UnsafeCell::new(0), armed: Cell::new(false), inside: Cell::new(false),
        env_open: Cell::new(false), file: Cell::new(0), seen: Cell::new(0), arg: Cell::new(0) } };
}

std::arch::global_asm!(
    ".globl mc_stub_start",
    "mc_stub_start:",
    ".globl mc_syscall6",
    // nr, pointer to six arguments
    "mc_syscall6:",
    "mov rax, rdi",
    "mov r11, rsi",
    "mov rdi, [r11]",
    "mov rsi, [r11+8]",
    "mov rdx, [r11+16]",
    "mov r10, [r11+24]",
    "mov r8, [r11+32]",
    "mov r9, [r11+40]",
    "syscall",
    "ret",
    ".globl mc_restorer",
    "mc_restorer:",
    "mov eax, 15",
    "syscall",
    "ud2",
    ".globl mc_stub_end",
    "mc_stub_end:",
);

extern "C" {
    fn mc_syscall6(nr: u64, args: *const [u64; 6]) -> i64;
    fn mc_restorer();
    static mc_stub_start: u8;
    static mc_stub_end: u8;
    static mut environ: *const *const i8;
}

fn sys(nr: u64, a: [u64; 6]) -> i64 {
    unsafe { mc_syscall6(nr, &a) }
}

#[repr(C)]
struct KernelAction {
    handler: usize,
    flags: u64,
    restorer: usize,
    mask: u64,
}

pub fn install(sig: u64, handler: usize) {
    let a = KernelAction { handler, flags: 4 | 0x0400_0000 | 0x4000_0000, restorer: mc_restorer as *const () as usize, mask: 0 };
    let r = sys(13, [sig, &a as *const _ as u64, 0, 8, 0, 0]);
    assert_eq!(r, 0, "HARNESS rt_sigaction");
}

const PAGE: usize = 4096;

fn env_access(prot: u64) {
    sys(10, [ENV_PAGE.load(SeqCst) as u64, PAGE as u64, prot, 0, 0, 0]);
}

/// Switch the monitor on for this process.
pub fn start() {
    unsafe {
        let list = environ;
        ENV_LIST.store(list as usize, SeqCst);
        let p = sys(9, [0, PAGE as u64, 3, 0x22, u64::MAX, 0]);
        assert!(p > 0, "HARNESS mmap");
        let page = p as usize as *mut *const i8;
        let mut n = 0;
        while n < PAGE / 8 - 1 && !(*list.add(n)).is_null() {
            *page.add(n) = *list.add(n);
            n += 1;
        }
        *page.add(n) = std::ptr::null();
        ENV_PAGE.store(p as usize, SeqCst);
        environ = page;
        env_access(0);
    }
    install(31, on_sigsys as *const () as usize);
    install(11, on_sigsegv as *const () as usize);
    ON.store(true, SeqCst);
    assert!(watched(|| { sys_getppid(); }).is_some(), "HARNESS a system call was not noticed");
    assert!(watched(|| { std::hint::black_box(std::time::Instant::now()); }).is_some(), "HARNESS a clock read was not noticed");
    assert!(watched(|| { std::hint::black_box(unsafe { core::arch::x86_64::_rdtsc() }); }).is_some(), "HARNESS rdtsc was not noticed");
    assert!(watched(|| { std::hint::black_box(std::env::var("HOME").is_ok()); }).is_some(), "HARNESS getenv was not noticed");
    assert!(watched(|| { std::hint::black_box(std::env::vars_os().count()); }).is_some(), "HARNESS reading environ was not noticed");
    let round_up = |c: u16| unsafe { std::arch::asm!("fldcw [{}]", in(reg) &c) };
    assert!(watched(|| round_up(0x0b7f)).is_some(), "HARNESS a change of x87 control was not noticed");
    let m: u32 = 0x5f80;
    assert!(watched(|| unsafe { std::arch::asm!("ldmxcsr [{}]", in(reg) &m) }).is_some(), "HARNESS a change of MXCSR was not noticed");
    assert!(watched(|| ()).is_none(), "HARNESS nothing was reported");
    assert!(watched(|| { std::hint::black_box(vec![1u8; 1 << 20].len()); }).is_none(), "HARNESS memory management was reported");
    // Another arena's memory given back: the allocator's own file.
    let arena = || watched(|| drop((0..64).map(|_| std::hint::black_box(vec![1u8; 100_000])).collect::<Vec<_>>()));
    assert!(std::thread::spawn(arena).join().unwrap().is_none(), "HARNESS memory management was reported");
    BENIGN.store(0, SeqCst);
}

/// A system call as a library would make it: outside the stub.
fn sys_getppid() {
    unsafe {
        let mut r: u64 = 110;
        std::arch::asm!("syscall", inout("rax") r, out("rcx") _, out("r11") _);
        std::hint::black_box(r);
    }
}

fn watched(f: impl FnOnce()) -> Option<String> {
    {
        let _g = enter();
        f();
    }
    take()
}

/// What the library was seen doing on this thread since the last call.
pub fn take() -> Option<String> {
    if !ON.load(SeqCst) {
        return None;
    }
    C.with(|c| {
        let arg = c.arg.replace(0);
        match c.seen.replace(0) {
            0 => None,
            CLOCK => Some("reads a clock".into()),
            ENV => Some("reads the environment".into()),
            ENV_SET => Some("changes the environment".into()),
            MXCSR => Some("changes the floating-point control register".into()),
            FLAGS => Some("leaves the direction flag set".into()),
            n => Some(format!("makes system call {} (first argument {})", NAMES.iter().find(|x| x.0 == n - 1).map_or_else(|| (n - 1).to_string(), |x| x.1.to_string()), arg)),
        }
    })
}

const NAMES: &[(u64, &str)] = &[(0, "read"), (1, "write"), (2, "open"), (3, "close"), (20, "writev"), (35, "nanosleep"), (41, "socket"), (42, "connect"), (44, "sendto"), (56, "clone"), (57, "fork"), (62, "kill"), (80, "chdir"), (83, "mkdir"), (87, "unlink"), (230, "clock_nanosleep"), (257, "openat"), (228, "clock_gettime")];

fn see(what: u64, arg: u64) {
    C.with(|c| {
        if c.seen.get() == 0 {
            c.seen.set(what);
            c.arg.set(arg);
        }
    })
}

/// Control bits of MXCSR and, above them, the x87 control word.
pub struct Guard(u32);

impl Drop for Guard {
    fn drop(&mut self) {
        if !ON.load(SeqCst) {
            return;
        }
        C.with(|c| unsafe { c.selector.get().write_volatile(0) });
        let (m, f) = control();
        if m != self.0 {
            see(MXCSR, m as u64);
            let (back, x87) = (self.0 & 0xffff, (self.0 >> 16) as u16);
            unsafe {
                std::arch::asm!("ldmxcsr [{}]", in(reg) &back);
                std::arch::asm!("fldcw [{}]", in(reg) &x87);
            }
        }
        if f & 0x400 != 0 {
            see(FLAGS, 0);
            unsafe { std::arch::asm!("cld") };
        }
        C.with(|c| {
            c.inside.set(false);
            if c.env_open.replace(false) {
                env_access(0);
            }
        });
        unsafe {
            if environ as usize != ENV_PAGE.load(SeqCst) {
                see(ENV_SET, 0);
                environ = ENV_PAGE.load(SeqCst) as *const _;
            }
        }
    }
}

/// Control bits of MXCSR (without the status flags) and of the x87 unit, and
/// RFLAGS.
fn control() -> (u32, u64) {
    let mut m = 0u32;
    let mut x = 0u16;
    let f: u64;
    unsafe {
        std::arch::asm!("fnstcw [{}]", in(reg) &mut x);
        std::arch::asm!("stmxcsr [{}]", in(reg) &mut m);
        std::arch::asm!("pushfq", "pop {}", out(reg) f);
    }
    (m & 0xffc0 | (x as u32) << 16, f)
}

pub fn enter() -> Guard {
    if !ON.load(SeqCst) {
        return Guard(0);
    }
    C.with(|c| {
        if !c.armed.replace(true) {
            let lo = unsafe { &mc_stub_start as *const u8 as u64 };
            let hi = unsafe { &mc_stub_end as *const u8 as u64 };
            let r = sys(157, [59, 1, lo, hi - lo, c.selector.get() as u64, 0]);
            assert_eq!(r, 0, "HARNESS syscall user dispatch is not available");
            let r = sys(157, [26, 2, 0, 0, 0, 0]);
            assert_eq!(r, 0, "HARNESS PR_SET_TSC is not available");
        }
        let g = Guard(control().0);
        c.inside.set(true);
        unsafe { c.selector.get().write_volatile(1) };
        g
    })
}

// Positions in the saved registers (ucontext.uc_mcontext.gregs).
const R8: usize = 0;
const R9: usize = 1;
const R10: usize = 2;
const RDI: usize = 8;
const RSI: usize = 9;
const RDX: usize = 12;
const RAX: usize = 13;
const RIP: usize = 16;

fn benign(nr: u64, a: &[u64; 6]) -> bool {
    match nr {
        // mmap without a file, mprotect, munmap, brk, mremap, madvise
        9 => a[3] & 0x20 != 0,
        10 | 11 | 12 | 25 | 28 => true,
        // rt_sigprocmask, sched_yield, gettid, getpid, futex, sched_getaffinity
        14 | 24 | 186 | 39 | 202 | 204 => true,
        // exit (of a thread), set_robust_list, membarrier, rseq, sigaltstack
        60 | 273 | 324 | 334 | 131 => true,
        // getrandom seeds hash tables; what is done with it shows in results
        318 => true,
        // a thread, as opposed to a process
        56 => a[0] & 0x10000 != 0,
        435 => true,
        // nanosleep, prctl naming a thread or a mapping
        157 => matches!(a[0], 15 | 0x53564d41),
        _ => false,
    }
}

/// The allocator of the C library reads this file once, when it first gives
/// memory of a second arena back.
unsafe fn allocators_own(nr: u64, a: &[u64; 6]) -> bool {
    const FILE: &[u8] = b"/proc/sys/vm/overcommit_memory\0";
    match nr {
        257 => (0..FILE.len()).all(|i| *(a[1] as *const u8).add(i) == FILE[i]),
        0 => C.with(|c| c.file.get() == 1 + a[0]),
        3 => C.with(|c| c.file.get() == 1 + a[0] && c.file.replace(0) != 0),
        _ => false,
    }
}

unsafe extern "C" fn on_sigsys(_: i32, _: *mut u8, uc: *mut u8) {
    C.with(|c| c.selector.get().write_volatile(0));
    let g = uc.add(40) as *mut u64;
    let nr = *g.add(RAX);
    let a = [*g.add(RDI), *g.add(RSI), *g.add(RDX), *g.add(R10), *g.add(R8), *g.add(R9)];
    BENIGN.fetch_add(1, SeqCst);
    let allocator = allocators_own(nr, &a);
    if !allocator && !benign(nr, &a) {
        see(1 + nr, a[0]);
    }
    if matches!(nr, 15 | 56 | 57 | 58 | 60 | 231 | 435) {
        // Cannot be done from here: let it run again unwatched.
        *g.add(RIP) -= 2;
        return;
    }
    let r = mc_syscall6(nr, &a);
    *g.add(RAX) = r as u64;
    if allocator && nr == 257 && r >= 0 {
        C.with(|c| c.file.set(1 + r as u64));
    }
    C.with(|c| c.selector.get().write_volatile(1));
}

unsafe extern "C" fn on_sigsegv(_: i32, info: *mut u8, uc: *mut u8) {
    let was = C.with(|c| c.selector.get().read_volatile());
    C.with(|c| c.selector.get().write_volatile(0));
    let g = uc.add(40) as *mut u64;
    let code = *(info.add(8) as *const i32);
    let addr = *(info.add(16) as *const usize);
    let page = ENV_PAGE.load(SeqCst);
    if code > 0 && code != 128 && addr >= page && addr < page + PAGE {
        env_access(1);
        C.with(|c| {
            if c.inside.get() {
                c.env_open.set(true);
                see(ENV, 0);
            }
        });
    } else if code == 128 && is_rdtsc(*g.add(RIP) as *const u8) != 0 {
        let rip = *g.add(RIP);
        *g.add(RIP) = rip + is_rdtsc(rip as *const u8);
        *g.add(RAX) = 0;
        *g.add(RDX) = 0;
        see_if_inside(CLOCK);
    } else {
        // Somebody else's fault: happens again without us.
        let a = KernelAction { handler: 0, flags: 0x0400_0000, restorer: mc_restorer as *const () as usize, mask: 0 };
        sys(13, [11, &a as *const _ as u64, 0, 8, 0, 0]);
    }
    C.with(|c| c.selector.get().write_volatile(was));
}

unsafe fn is_rdtsc(p: *const u8) -> u64 {
    if *p == 0x0f && *p.add(1) == 0x31 {
        2
    } else if *p == 0x0f && *p.add(1) == 0x01 && *p.add(2) == 0xf9 {
        3
    } else {
        0
    }
}

fn see_if_inside(what: u64) {
    if ON.load(SeqCst) && C.try_with(|c| c.inside.get()).unwrap_or(false) {
        see(what, 0);
    }
}

// Linked in place of the C library's functions of these names.

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut [i64; 2]) -> i32 {
    see_if_inside(CLOCK);
    sys(228, [id as u64, ts as u64, 0, 0, 0, 0]) as i32
}

#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut [i64; 2], _tz: *mut u8) -> i32 {
    see_if_inside(CLOCK);
    sys(96, [tv as u64, 0, 0, 0, 0, 0]) as i32
}

#[no_mangle]
pub unsafe extern "C" fn time(t: *mut i64) -> i64 {
    see_if_inside(CLOCK);
    sys(201, [t as u64, 0, 0, 0, 0, 0])
}

#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const i8) -> *const i8 {
    let n = std::ffi::CStr::from_ptr(name).to_bytes();
    // The standard library reads these on behalf of threads and panics.
    if !n.starts_with(b"RUST_") {
        see_if_inside(ENV);
    }
    let saved = ENV_LIST.load(SeqCst);
    let mut list = if saved == 0 { environ } else { saved as *const *const i8 };
    while !list.is_null() && !(*list).is_null() {
        let e = std::ffi::CStr::from_ptr(*list).to_bytes();
        if e.len() > n.len() && e.starts_with(n) && e[n.len()] == b'=' {
            return (*list).add(n.len() + 1);
        }
        list = list.add(1);
    }
    std::ptr::null()
}
