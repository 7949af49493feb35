//! C23: where arguments and objects lie in memory plays no part, and nothing
//! outside the arguments is touched.
//!
//! Inputs are slices of a read-only arena between two inaccessible pages, so a
//! read beyond either end and any write to an input ends the process, which the
//! engine reports with the case it happened in. Outputs are windows of a
//! writable arena of the same kind; all of it outside the window is compared.
use crate::api;
use crate::engine::*;
use crate::util::*;
use std::cell::Cell;
use std::mem::MaybeUninit;

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: isize) -> *mut u8;
    fn mprotect(addr: *mut u8, len: usize, prot: i32) -> i32;
}

const PAGE: usize = 4096;
/// Arena size. A multiple of the page size.
const ARENA: usize = 1 << 18;

fn map() -> *mut u8 {
    unsafe {
        // PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS
        let p = mmap(std::ptr::null_mut(), ARENA + 2 * PAGE, 0, 0x22, -1, 0);
        assert!(p as isize != -1, "HARNESS mmap");
        assert_eq!(mprotect(p.add(PAGE), ARENA, 3), 0, "HARNESS mprotect");
        p.add(PAGE)
    }
}

/// The read-only arena, shared by all threads. Holds the base stream.
fn arena() -> &'static [u8] {
    static A: std::sync::OnceLock<usize> = std::sync::OnceLock::new();
    let p = *A.get_or_init(|| {
        let p = map();
        unsafe {
            std::ptr::copy_nonoverlapping(base().as_ptr(), p, ARENA);
            assert_eq!(mprotect(p, ARENA, 1), 0, "HARNESS mprotect");
        }
        p as usize
    });
    unsafe { std::slice::from_raw_parts(p as *const u8, ARENA) }
}

/// This thread's writable arena.
fn scratch() -> &'static mut [u8] {
    thread_local!(static S: Cell<usize> = const { Cell::new(0) });
    let p = S.with(|s| {
        if s.get() == 0 {
            s.set(map() as usize);
        }
        s.get()
    });
    unsafe { std::slice::from_raw_parts_mut(p as *mut u8, ARENA) }
}

/// Slice of `l` bytes: 0 ends at the upper guard page, 1 starts at the lower
/// one, and the others end k bytes into some page (every offset modulo 64).
fn place(how: usize, l: usize) -> &'static [u8] {
    let a = arena();
    match how {
        0 => &a[ARENA - l..],
        1 => &a[..l],
        k => {
            let at = (ARENA / 2 + k - 2).saturating_sub(l);
            &a[at..at + l]
        }
    }
}

const OPS: usize = 17;
const K16: [u8; 16] = [0x2b; 16];
const IV: [u8; 16] = [0x5d; 16];

/// What operation `op` gives with `a` as one of its inputs. `low` says which end
/// of `a` has to stay where it is when only part of it is used.
fn on_input(op: usize, a: &[u8], low: bool) -> (Vec<u8>, String) {
    let l = a.len();
    let err = |e: api::AErr| (vec![], format!("{:?}", e));
    let val = |v: &[u8]| (v.to_vec(), String::new());
    match op {
        0 => {
            let mut s = api::Sha::new();
            s.update(a);
            val(&s.digest())
        }
        1 => {
            let mut s = api::Sha::new();
            s.update(&a[..l / 3]);
            s.update(&a[l / 3..]);
            val(&s.digest())
        }
        2 => {
            let mut h = api::Hmac::new(a);
            h.update(b"message");
            val(&h.digest())
        }
        3 => {
            let mut h = api::Hmac::new(b"key");
            h.update(a);
            val(&h.digest())
        }
        4 | 5 => {
            let (pw, salt) = if op == 4 { (a, &b"salt"[..]) } else { (&b"password"[..], a) };
            let mut out = [0u8; 40];
            api::pbkdf2(pw, salt, 2, &mut out);
            val(&out)
        }
        6 | 7 => {
            let (pw, salt) = if op == 6 { (a, &b"salt"[..]) } else { (&b"password"[..], a) };
            let mut out = [0u8; 40];
            let r = api::scrypt(1, 2, 1, pw, salt, &mut out);
            (out.to_vec(), format!("{:?}", r))
        }
        8 => {
            let n = l / 64 * 64;
            let a = if low { &a[..n] } else { &a[l - n..] };
            let mut out = vec![0u8; n];
            api::salsa20(a, 2, &mut out);
            val(&out)
        }
        9 | 10 => {
            let mut c = api::Aes::new();
            if let Err(e) = c.init(a) {
                return err(e);
            }
            let r = if op == 9 { c.encrypt(&IV) } else { c.decrypt(&IV) };
            r.map_or_else(err, |v| val(&v))
        }
        11 | 12 => {
            if l < 16 {
                return val(&[]);
            }
            let b = if low { &a[..16] } else { &a[l - 16..] };
            let b: &[u8; 16] = b.try_into().unwrap();
            let mut c = api::Aes::new();
            if let Err(e) = c.init(&K16) {
                return err(e);
            }
            let r = if op == 11 { c.encrypt(b) } else { c.decrypt(b) };
            r.map_or_else(err, |v| val(&v))
        }
        13 | 14 => {
            let (k, d): (&[u8], &[u8]) = if op == 13 { (&K16, a) } else { (a, b"seventeen bytes..") };
            let mut c = api::Cipher::new(IV);
            if let Err(e) = c.init(k) {
                return err(e);
            }
            let mut out = vec![];
            for r in [c.write(d), c.flush()] {
                match r {
                    Ok(v) => out.extend(v),
                    Err(e) => return err(e),
                }
            }
            (out, String::new())
        }
        _ => {
            let (k, d): (&[u8], &[u8]) = if op == 15 { (&K16, a) } else { (a, &base()[100..148]) };
            let mut c = api::Decipher::new(IV);
            if let Err(e) = c.init(k) {
                return err(e);
            }
            let w = c.write(d);
            let f = c.flush();
            match (w, f) {
                (Ok(mut w), Ok(f)) => {
                    w.extend(f);
                    (w, String::new())
                }
                (Ok(w), Err(e)) => (w, format!("{:?}", e)),
                (Err(e), _) => (vec![], format!("{:?}", e)),
            }
        }
    }
}

/// The same bytes in the middle of an ordinary, generously aligned buffer: the
/// result there is what is expected everywhere.
fn ordinary<T>(a: &[u8], f: impl FnOnce(&[u8]) -> T) -> T {
    let mut v = vec![0u8; a.len() + 512];
    let at = 128 + v.as_ptr().align_offset(128);
    v[at..at + a.len()].copy_from_slice(a);
    f(&v[at..at + a.len()])
}

fn input_case(cx: &mut Cx, op: usize, how: usize, l: usize) -> R {
    let a = place(how, l);
    cx.state(&(op, how, l));
    let got = on_input(op, a, how == 1);
    cx.outcome(&got);
    let want = ordinary(a, |a| on_input(op, a, how == 1));
    if got != want {
        return Err(format!("operation {} with {} bytes at address offset {} gives {} {}; with the same bytes elsewhere it gives {} {}", op, l, a.as_ptr() as usize % PAGE, api::hex(&got.0), got.1, api::hex(&want.0), want.1));
    }
    Ok(())
}

const OUTS: usize = 4;

fn produce(op: usize, out: &mut [u8]) -> String {
    match op {
        0 => api::pbkdf2(b"password", b"salt", 1, out),
        1 => api::pbkdf2(b"password", b"salt", 2, out),
        2 => return format!("{:?}", api::scrypt(1, 2, 1, b"password", b"salt", out)),
        _ => {
            let l = out.len();
            api::salsa20(&base()[64..64 + l], 1, out)
        }
    }
    String::new()
}

/// Operation `op` with an output of `l` bytes placed like an input; compare the
/// result and everything around it.
fn output_case(cx: &mut Cx, op: usize, how: usize, l: usize) -> R {
    let l = if op == 3 { l / 64 * 64 } else { l };
    let at = place(how, l).as_ptr() as usize - arena().as_ptr() as usize;
    let s = scratch();
    // Filling and comparing all of it for every case would be slow; what is
    // next to the window is where a stray write goes.
    let (lo, hi) = (at.saturating_sub(300), (at + l + 300).min(ARENA));
    s[lo..hi].fill(0xc3);
    cx.state(&(op, how, l, 1));
    let r = produce(op, &mut s[at..at + l]);
    if s[lo..at].iter().chain(&s[at + l..hi]).any(|&b| b != 0xc3) {
        return Err(format!("operation {}: a byte outside the {} bytes of output was changed", op, l));
    }
    let mut v = vec![0xc3u8; l + 512];
    let ord = 128 + v.as_ptr().align_offset(128);
    let want = produce(op, &mut v[ord..ord + l]);
    cx.outcome(&(&s[at..at + l], &r));
    if r != want || s[at..at + l] != v[ord..ord + l] {
        return Err(format!("operation {} into {} bytes at address offset {} gives {} {}; elsewhere it gives {} {}", op, l, s[at..].as_ptr() as usize % PAGE, api::hex(&s[at..at + l]), r, api::hex(&v[ord..ord + l]), want));
    }
    Ok(())
}

/// A value that is moved to another address before every use. Where it was
/// is filled, and watched.
struct Mover<T> {
    slots: Vec<Box<MaybeUninit<T>>>,
}

impl<T> Mover<T> {
    fn new(v: T) -> Self {
        Mover { slots: vec![Box::new(MaybeUninit::new(v))] }
    }
    fn at(&mut self) -> Result<&mut T, String> {
        let n = std::mem::size_of::<T>();
        let last = self.slots.len() - 1;
        for old in &self.slots[..last] {
            let old = unsafe { std::slice::from_raw_parts(old.as_ptr() as *const u8, n) };
            if old.iter().any(|&b| b != 0xee) {
                return Err(format!("{}: a call wrote to the place the object had been moved away from", std::any::type_name::<T>()));
            }
        }
        let old = self.slots[last].as_mut_ptr();
        unsafe {
            self.slots.push(Box::new(MaybeUninit::new(old.read())));
            (old as *mut u8).write_bytes(0xee, n);
        }
        Ok(unsafe { self.slots[last + 1].assume_init_mut() })
    }
}

impl<T> Drop for Mover<T> {
    fn drop(&mut self) {
        unsafe { self.slots.last_mut().unwrap().assume_init_drop() }
    }
}

const MOVES: [usize; 6] = [0, 1, 15, 16, 33, 64];

type Seen = (Vec<u8>, String);

fn show<E: std::fmt::Debug>(r: Result<Vec<u8>, E>) -> Seen {
    match r {
        Ok(v) => (v, String::new()),
        Err(e) => (vec![], format!("{:?}", e)),
    }
}

/// Call `c`: feed `x`, or finish (6). What it gives, and any error.
trait Step {
    fn step(&mut self, c: usize, x: &[u8]) -> Seen;
}

impl Step for api::Sha {
    fn step(&mut self, c: usize, x: &[u8]) -> Seen {
        if c == 6 {
            let d = self.digest();
            // What follows a digest is unspecified.
            *self = api::Sha::new();
            return (d.to_vec(), String::new());
        }
        self.update(x);
        (vec![], String::new())
    }
}

impl Step for api::Hmac {
    fn step(&mut self, c: usize, x: &[u8]) -> Seen {
        if c == 6 {
            let d = self.digest();
            *self = api::Hmac::new(x);
            return (d.to_vec(), String::new());
        }
        self.update(x);
        (vec![], String::new())
    }
}

impl Step for api::Cipher {
    fn step(&mut self, c: usize, x: &[u8]) -> Seen {
        show(if c == 6 { self.flush() } else { self.write(x) })
    }
}

impl Step for api::Decipher {
    fn step(&mut self, c: usize, x: &[u8]) -> Seen {
        if c == 6 {
            show(self.flush())
        } else {
            show(self.write(x))
        }
    }
}

impl Step for api::Aes {
    fn step(&mut self, c: usize, x: &[u8]) -> Seen {
        let b = arr16(&stream(c as u64, 16));
        // Where there is a block to be had, use it where it is.
        let b = x.first_chunk().unwrap_or(&b);
        show(if c % 2 == 0 { self.encrypt(b) } else { self.decrypt(b) }.map(|v| v.to_vec()))
    }
}

fn enc(key: &[u8]) -> api::Cipher {
    let mut c = api::Cipher::new(IV);
    let _ = c.init(key);
    c
}

fn dec_(key: &[u8]) -> api::Decipher {
    let mut c = api::Decipher::new(IV);
    let _ = c.init(key);
    c
}

fn aes(key: &[u8]) -> api::Aes {
    let mut c = api::Aes::new();
    let _ = c.init(key);
    c
}

/// Run the calls `s` (then one to finish) on an object reached through `at`
/// and on one that stays in place.
fn both<T: Step, H>(cx: &mut Cx, s: &[usize], mut here: H, at: impl Fn(&mut H) -> Result<&mut T, String>, mut m: T) -> R {
    let mut used = 0;
    for &c in s.iter().chain(&[6]) {
        let x = &base()[used..used + MOVES.get(c).unwrap_or(&0)];
        used += x.len();
        let (got, want) = (at(&mut here)?.step(c, x), m.step(c, x));
        cx.outcome(&got);
        if got != want {
            return Err(format!("{} of key size {:?} bytes, calls {:?}: gives {} {} there, {} {} in an ordinary place", std::any::type_name::<T>(), KEY_SIZES[s.len() % 3], s, api::hex(&got.0), got.1, api::hex(&want.0), want.1));
        }
    }
    at(&mut here)?;
    Ok(())
}

/// An object in the writable arena, against its upper or lower end.
struct Edge<T>(*mut T);

impl<T> Edge<T> {
    fn new(v: T, low: bool) -> Self {
        let a = scratch();
        let at = if low { 0 } else { ARENA - std::mem::size_of::<T>() };
        let p = a[at..].as_mut_ptr() as *mut T;
        assert_eq!(p as usize % std::mem::align_of::<T>(), 0, "HARNESS alignment");
        unsafe { p.write(v) };
        Edge(p)
    }
}

impl<T> Drop for Edge<T> {
    fn drop(&mut self) {
        unsafe { self.0.drop_in_place() }
    }
}

pub fn c23(t: Tier) -> Check {
    let ml = t.pick(1500usize, 6000);
    let mut spaces = vec![
        Space::new("edges", format!("17 input arguments x every length 0..={}, the slice ending at an inaccessible page or starting behind one", ml), size([OPS, 2, ml + 1]), move |i, cx| {
            let [op, how, l] = dec(i, [OPS, 2, ml + 1]);
            input_case(cx, op, how, l)
        }),
        Space::new("alignments", "17 input arguments x 40 lengths x every alignment modulo 64", size([OPS, 40, 64]), |i, cx| {
            let [op, l, k] = dec(i, [OPS, 40, 64]);
            let l = if l < 36 { 4 * l } else { [256, 257, 1000, 4100][l - 36] };
            input_case(cx, op, k + 2, l)
        }),
        Space::new("output_edges", format!("4 outputs x every length 0..={}, ending at an inaccessible page or starting behind one", ml), size([OUTS, 2, ml + 1]), move |i, cx| {
            let [op, how, l] = dec(i, [OUTS, 2, ml + 1]);
            output_case(cx, op, how, l)
        }),
        Space::new("output_alignments", "4 outputs x 40 lengths x every alignment modulo 64", size([OUTS, 40, 64]), |i, cx| {
            let [op, l, k] = dec(i, [OUTS, 40, 64]);
            let l = if l < 36 { 4 * l } else { [256, 257, 1000, 4100][l - 36] };
            output_case(cx, op, k + 2, l)
        }),
        Space::new("both_alignments", "salsa20 and PBKDF2: every alignment modulo 16 of the input x every alignment modulo 16 of the output x 3 sizes", size([2, 16, 16, 3]), |i, cx| {
            let [op, a, b, n] = dec(i, [2, 16, 16, 3]);
            let l = 64 * (n + 1);
            let input = place(a + 2, l);
            let s = scratch();
            let at = 1024 + b;
            s[at - 64..at + l + 64].fill(0x3c);
            cx.state(&(op, a, b, n, 2));
            let f = |input: &[u8], out: &mut [u8]| {
                if op == 0 {
                    api::salsa20(input, 4, out)
                } else {
                    api::pbkdf2(input, &input[1..], 1, out)
                }
            };
            f(input, &mut s[at..at + l]);
            let mut v = vec![0u8; l + 256];
            let o = v.as_ptr().align_offset(128);
            ordinary(input, |input| f(input, &mut v[o..o + l]));
            cx.eq("output", &s[at..at + l], &v[o..o + l])?;
            if s[at - 64..at].iter().chain(&s[at + l..at + l + 64]).any(|&x| x != 0x3c) {
                return Err("a byte outside the output was changed".into());
            }
            Ok(())
        }),
    ];
    // Two arguments, and how they lie to each other.
    let nl = t.pick(70usize, 200);
    spaces.push(Space::new("neighbours", format!("HMAC, two updates of a hash, PBKDF2, scrypt, cipher and decipher (key and data): two arguments of 0..={} bytes each that touch, are a byte apart, overlap by half, begin or end together, in either order", nl), size([6, nl + 1, nl + 1, 10]), move |i, cx| {
        let [op, la, lb, how] = dec(i, [6, nl + 1, nl + 1, 10]);
        if op >= 4 && !KEY_SIZES.contains(&la) || op == 3 && (la % 5 != 0 || lb % 7 != 0) {
            return Ok(());
        }
        let s = arena();
        let at = 4096 - 37;
        let gap = how / 2;
        let (x, y) = if how % 2 == 0 { (la, lb) } else { (lb, la) };
        let second = at + match gap {
            0 => x,
            1 => x + 1,
            2 => x / 2,
            3 => 0,
            _ => x.saturating_sub(y),
        };
        let (first, second) = (&s[at..at + x], &s[second..second + y]);
        let (a, b) = if how % 2 == 0 { (first, second) } else { (second, first) };
        cx.state(&(op, la, lb, how, 9));
        let f = |a: &[u8], b: &[u8]| -> Vec<u8> {
            match op {
                0 => {
                    let mut h = api::Hmac::new(a);
                    h.update(b);
                    h.digest().to_vec()
                }
                1 => {
                    let mut h = api::Sha::new();
                    h.update(a);
                    h.update(b);
                    h.digest().to_vec()
                }
                2 => {
                    let mut o = [0u8; 33];
                    api::pbkdf2(a, b, 2, &mut o);
                    o.to_vec()
                }
                3 => {
                    let mut o = [0u8; 33];
                    let _ = api::scrypt(1, 2, 1, a, b, &mut o);
                    o.to_vec()
                }
                4 => {
                    let mut c = api::Cipher::new(IV);
                    let _ = c.init(a);
                    let mut o = c.write(b).unwrap_or_default();
                    o.extend(c.flush().unwrap_or_default());
                    o
                }
                _ => {
                    let mut c = api::Decipher::new(IV);
                    let _ = c.init(a);
                    let mut o = c.write(b).unwrap_or_default();
                    o.extend(c.flush().unwrap_or_default());
                    o
                }
            }
        };
        let got = f(a, b);
        cx.eq("arguments that lie together", &got, &ordinary(a, |a| ordinary(b, |b| f(a, b))))
    }));
    // One place, and what is in it changes.
    const SIZES: [usize; 12] = [1, 16, 24, 32, 48, 55, 64, 65, 100, 128, 129, 192];
    spaces.push(Space::new("same_place", "17 input arguments x 12 lengths x every byte position: the argument in a buffer, one of its bytes changed there, changed back", size([OPS, 12, 192]), |i, cx| {
        let [op, l, p] = dec(i, [OPS, 12, 192]);
        let l = SIZES[l];
        if p >= l {
            return Ok(());
        }
        let s = scratch();
        let at = 2048;
        s[at..at + l].copy_from_slice(&base()[..l]);
        cx.state(&(op, l, p, 10));
        for flip in [0, 0x41, 0x41] {
            s[at + p] ^= flip;
            let got = on_input(op, &s[at..at + l], true);
            cx.outcome(&got);
            let want = ordinary(&s[at..at + l], |a| on_input(op, a, true));
            if got != want {
                return Err(format!("operation {} with {} bytes in a buffer that held others before gives {} {}; elsewhere {} {}", op, l, api::hex(&got.0), got.1, api::hex(&want.0), want.1));
            }
        }
        Ok(())
    }));
    spaces.push(Space::new("same_place_rekeyed", "block cipher, cipher, decipher: one object given 4 keys in turn, each in the same buffer and differing from the one before in one byte (every key size and byte position), and used after each; against one given the same keys each in a place of its own", size([3, 3, 32, 4]), |i, cx| {
        fn go<T: Step>(cx: &mut Cx, at: usize, l: usize, p: usize, calls: usize, init: impl Fn(&mut T, &[u8]), mut a: T, mut b: T) -> R {
            let keys = &mut scratch()[at..at + l];
            keys.copy_from_slice(&base()[..l]);
            let mut kept = vec![];
            for flip in [0, 0x41, 0x82, 0x41] {
                keys[p] ^= flip;
                kept.push(keys.to_vec());
                init(&mut a, keys);
                init(&mut b, kept.last().unwrap());
                for &c in [&[0, 1][..], &[0, 6], &[1], &[6]][calls] {
                    let x = &base()[300..333];
                    let (got, want) = (a.step(c, x), b.step(c, x));
                    cx.outcome(&got);
                    if got != want {
                        return Err(format!("{}: a key of {} bytes in the buffer that held the previous one gives {} {}; in a place of its own {} {}", std::any::type_name::<T>(), l, api::hex(&got.0), got.1, api::hex(&want.0), want.1));
                    }
                }
            }
            Ok(())
        }
        let [ty, k, p, calls] = dec(i, [3, 3, 32, 4]);
        let l = KEY_SIZES[k];
        if p >= l {
            return Ok(());
        }
        cx.state(&(ty, k, p, calls, 11));
        match ty {
            0 => go(cx, 2048, l, p, calls, |a, k| drop(api::Aes::init(a, k)), api::Aes::new(), api::Aes::new()),
            1 => go(cx, 2048, l, p, calls, |a, k| drop(api::Cipher::init(a, k)), api::Cipher::new(IV), api::Cipher::new(IV)),
            _ => go(cx, 2048, l, p, calls, |a, k| drop(api::Decipher::init(a, k)), api::Decipher::new(IV), api::Decipher::new(IV)),
        }
    }));
    // One object, fed from one place.
    spaces.push(Space::new("same_place_fed", "hash, MAC, cipher, decipher: 3 writes of 1..=130 bytes from one buffer, refilled in between, against writes from 3 places; block cipher: 3 blocks from one place", size([5, 130]), |i, cx| {
        fn go<T: Step>(cx: &mut Cx, l: usize, mut a: T, mut b: T) -> R {
            let s = &mut scratch()[2048..2048 + l];
            for c in [0, 1, 2, 6] {
                let x = &base()[100 + c * 200..][..l];
                s.copy_from_slice(x);
                let (got, want) = (a.step(c, s), b.step(c, x));
                cx.outcome(&got);
                if got != want {
                    return Err(format!("{}: {} bytes from a buffer refilled between writes give {} {}; from separate places {} {}", std::any::type_name::<T>(), l, api::hex(&got.0), got.1, api::hex(&want.0), want.1));
                }
            }
            Ok(())
        }
        let [ty, l] = dec(i, [5, 130]);
        cx.state(&(ty, l, 12));
        let key = &base()[..KEY_SIZES[l % 3]];
        match ty {
            0 => go(cx, l + 1, api::Sha::new(), api::Sha::new()),
            1 => go(cx, l + 1, api::Hmac::new(key), api::Hmac::new(key)),
            2 => go(cx, l + 1, enc(key), enc(key)),
            3 => go(cx, l + 1, dec_(key), dec_(key)),
            _ => go(cx, 16, aes(key), aes(key)),
        }
    }));
    let ms = mags(1500, ARENA);
    let nm = ms.len();
    spaces.push(Space::new("magnitudes", format!("17 input arguments and 4 outputs x {} lengths to 2^18 against the inaccessible pages", nm), size([OPS + OUTS, 2, nm]), move |i, cx| {
        let [op, how, m] = dec(i, [OPS + OUTS, 2, nm]);
        if op < OPS {
            input_case(cx, op, how, ms[m])
        } else {
            output_case(cx, op - OPS, how, ms[m])
        }
    }));
    let d = t.pick(6usize, 7);
    spaces.push(Space::new(
        "moved_objects",
        format!("hash, MAC, cipher, decipher: every sequence of up to {} writes of {:?} bytes (and flushes), block cipher: of up to {} calls; the object moved to a new address before every call, one left in place as the oracle", d, MOVES, d),
        5 * seq_count(7, d),
        move |i, cx| {
            let mut s = vec![];
            seq_at(i / 5, 7, d, &mut s);
            cx.state(&(i % 5, &s));
            let key = &base()[..KEY_SIZES[s.len() % 3]];
            match i % 5 {
                0 => both(cx, &s, Mover::new(api::Sha::new()), |m| m.at(), api::Sha::new()),
                1 => both(cx, &s, Mover::new(api::Hmac::new(&base()[..80])), |m| m.at(), api::Hmac::new(&base()[..80])),
                2 => both(cx, &s, Mover::new(enc(key)), |m| m.at(), enc(key)),
                3 => both(cx, &s, Mover::new(dec_(key)), |m| m.at(), dec_(key)),
                _ => both(cx, &s, Mover::new(aes(key)), |m| m.at(), aes(key)),
            }
        },
    ));
    let d = t.pick(4usize, 5);
    spaces.push(Space::new("edge_objects", format!("the same 5 types and calls, to sequences of {}, the object itself lying against an inaccessible page", d), 10 * seq_count(7, d), move |i, cx| {
        let mut s = vec![];
        seq_at(i / 10, 7, d, &mut s);
        let low = i % 2 == 0;
        cx.state(&(i % 10, &s, 5));
        let key = &base()[..KEY_SIZES[s.len() % 3]];
        macro_rules! go {
            ($v:expr) => {
                both(cx, &s, Edge::new($v, low), |e| Ok(unsafe { &mut *e.0 }), $v)
            };
        }
        match i / 2 % 5 {
            0 => go!(api::Sha::new()),
            1 => go!(api::Hmac::new(&base()[..80])),
            2 => go!(enc(key)),
            3 => go!(dec_(key)),
            _ => go!(aes(key)),
        }
    }));
    Check {
        id: "C23",
        spaces,
        assumptions: vec![
            "An access that crosses into an inaccessible page, or a write to a read-only one, ends the process and is reported; one that stays within the mapped page next to the argument is seen only when it changes a byte or a result.".into(),
        ],
        bounds: format!("every length to {} and {} lengths to 2^18 against a guard page on either side; alignments modulo 64; object moves to sequences of {} calls", ml, nm, d),
    }
}
