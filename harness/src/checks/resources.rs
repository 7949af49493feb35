//! C17 (totality and error texts) and C18 (bounded memory).
use crate::alloc_count::live;
use crate::api::{self, AErr};
use crate::engine::*;
use crate::util::*;

fn iv() -> [u8; 16] {
    arr16(&stream(40, 16))
}

/// Run `f` on a thread of its own with a stack of `bytes`. Running out of it
/// ends the process, which the engine reports with the case.
fn on_stack(bytes: usize, cx: &mut Cx, f: impl FnOnce(&mut Cx) -> R + Send) -> R {
    let rec = api::rec_take();
    let r = std::thread::scope(|sc| {
        let cx = &mut *cx;
        std::thread::Builder::new()
            .stack_size(bytes)
            .spawn_scoped(sc, move || {
                api::rec_put(rec);
                let r = guarded(|| f(cx));
                (r, api::rec_take(), api::calls())
            })
            .expect("HARNESS spawn")
            .join()
    });
    let (r, rec, calls) = r.expect("HARNESS thread");
    api::rec_put(rec);
    api::add_calls(calls);
    r.unwrap_or_else(Err)
}

/// Operation `k` of ten with `d` as its (large) argument.
fn large(cx: &mut Cx, k: usize, d: &[u8]) -> R {
    match k {
        0 => {
            let mut o = api::Sha::new();
            o.update(d);
            cx.outcome(&o.digest());
        }
        1 => {
            let mut o = api::Hmac::new(d);
            o.update(d);
            cx.outcome(&o.digest());
        }
        2 => {
            let mut o = [0; 9];
            api::pbkdf2(d, b"", 2, &mut o);
            cx.outcome(&o);
        }
        3 => {
            let mut o = [0; 9];
            api::pbkdf2(b"", d, 2, &mut o);
            cx.outcome(&o);
        }
        4 => {
            let mut o = [0; 9];
            cx.outcome(&api::scrypt(1, 2, 1, d, b"", &mut o));
        }
        5 => {
            let mut o = [0; 9];
            cx.outcome(&api::scrypt(1, 2, 1, b"", d, &mut o));
        }
        6 => {
            let mut o = api::Aes::new();
            cx.same("AES::init with a huge key", &o.init(d), &Err(AErr::KeySize))?;
        }
        7 => {
            let mut o = api::Cipher::new(iv());
            let _ = o.init(&key(0, 16));
            cx.outcome(&o.write(d));
            cx.outcome(&o.flush());
        }
        8 => {
            let mut o = api::Decipher::new(iv());
            let _ = o.init(&key(0, 16));
            cx.outcome(&o.write(d));
            cx.outcome(&o.flush());
        }
        _ => {
            let d = &d[..d.len() / 64 * 64];
            let mut o = vec![0; d.len()];
            api::salsa20(d, 4, &mut o);
            cx.outcome(&o);
        }
    }
    Ok(())
}

/// Panics, aborts and hangs are turned into violations by the engine; inside a
/// case only error values and their texts need checking.
pub fn c17(t: Tier) -> Check {
    let mut spaces = vec![];
    const UP: [usize; 7] = [0, 1, 8, 55, 56, 64, 65];
    let d = t.pick(5usize, 6);
    spaces.push(Space::new("sha256", format!("every sequence of up to {} operations out of update with {:?} bytes, digest; both constructors", d, UP), seq_count(8, d) * 2, move |i, cx| {
        let mut s = vec![];
        seq_at(i / 2, 8, d, &mut s);
        let mut o = if i % 2 == 0 { api::Sha::new() } else { api::Sha::default() };
        for &c in &s {
            if c < 7 {
                o.update(&base()[..UP[c]]);
            } else {
                cx.outcome(&o.digest());
            }
        }
        cx.outcome(&o.digest());
        cx.outcome(&o.digest());
        cx.state(&(0, &s));
        Ok(())
    }));
    let d = t.pick(4usize, 5);
    spaces.push(Space::new("hmac", format!("6 key lengths x every sequence of up to {} operations out of update with {:?} bytes, digest", d, UP), seq_count(8, d) * 6, move |i, cx| {
        let mut s = vec![];
        seq_at(i / 6, 8, d, &mut s);
        let mut o = api::Hmac::new(&base()[..[0, 1, 63, 64, 65, 200][i as usize % 6]]);
        for &c in &s {
            if c < 7 {
                o.update(&base()[..UP[c]]);
            } else {
                cx.outcome(&o.digest());
            }
        }
        cx.outcome(&o.digest());
        cx.outcome(&o.digest());
        cx.state(&(1, i % 6, &s));
        Ok(())
    }));
    let d = t.pick(6usize, 7);
    const KL: [usize; 6] = [0, 16, 24, 31, 32, 64];
    spaces.push(Space::new("aes", format!("every sequence of up to {} operations out of init with {:?} bytes, encrypt, decrypt", d, KL), seq_count(8, d), move |i, cx| {
        let mut s = vec![];
        seq_at(i, 8, d, &mut s);
        let mut o = api::Aes::new();
        for &c in &s {
            match c {
                0..=5 => {
                    cx.outcome(&o.init(&base()[..KL[c]]));
                }
                6 => cx.outcome(&o.encrypt(&iv())),
                _ => cx.outcome(&o.decrypt(&iv())),
            }
        }
        cx.state(&(2, &s));
        Ok(())
    }));
    const WR: [usize; 6] = [0, 1, 15, 16, 17, 64];
    let d = t.pick(5usize, 6);
    for side in 0..2usize {
        spaces.push(Space::new(
            if side == 0 { "cipher" } else { "decipher" },
            format!("every sequence of up to {} operations out of init (16 bytes), init (32 bytes), init (5 bytes), write {:?} bytes of arbitrary data, flush", d, WR),
            seq_count(10, d) * 2,
            move |i, cx| {
                let mut s = vec![];
                seq_at(i / 2, 10, d, &mut s);
                let mut e = api::Cipher::new(iv());
                let mut k = api::Decipher::new(iv());
                if i % 2 == 1 {
                    let _ = if side == 0 { e.init(&key(0, 16)) } else { k.init(&key(0, 16)) };
                }
                for &c in &s {
                    match (side, c) {
                        (0, 0..=2) => cx.outcome(&e.init(&base()[..[16, 32, 5][c]])),
                        (_, 0..=2) => cx.outcome(&k.init(&base()[..[16, 32, 5][c]])),
                        (0, 3..=8) => cx.outcome(&e.write(&base()[..WR[c - 3]])),
                        (_, 3..=8) => cx.outcome(&k.write(&base()[..WR[c - 3]])),
                        (0, _) => cx.outcome(&e.flush()),
                        _ => cx.outcome(&k.flush()),
                    }
                }
                cx.state(&(3 + side, i % 2, &s));
                Ok(())
            },
        ));
    }
    spaces.push(Space::new(
        "decipher_blocks",
        "a keyed decipher finishing one block that decrypts to: 256 last bytes x 16 repetitions x 3 backgrounds; then one more block and flush",
        size([256, 16, 3]),
        |i, cx| {
            let [v, k, bg] = dec(i, [256, 16, 3]);
            let mut b = [[0u8; 16], [0xff; 16], iv()][bg];
            for x in b.iter_mut().rev().take(k + 1) {
                *x = v as u8;
            }
            let ct = crate::refs::cbc::encrypt_blocks(&crate::refs::aes::RefAes::new(&key(0, 16)), &iv(), &b);
            let mut d = api::Decipher::new(iv());
            let _ = d.init(&key(0, 16));
            cx.outcome(&d.write(&ct));
            cx.outcome(&d.flush());
            cx.outcome(&d.flush());
            cx.outcome(&d.write(&ct));
            cx.outcome(&d.flush());
            cx.state(&(5, &b));
            Ok(())
        },
    ));
    const L: [usize; 9] = [0, 1, 31, 32, 33, 63, 64, 65, 129];
    spaces.push(Space::new("pbkdf2", "password, salt and output lengths out of 9 x c in 0,1,2,3", size([9, 9, 9, 4]), |i, cx| {
        let [p, s, o, c] = dec(i, [9, 9, 9, 4]);
        let mut out = vec![0; L[o]];
        api::pbkdf2(&base()[..L[p]], &base()[..L[s]], c, &mut out);
        cx.outcome(&out);
        cx.state(&(6, p, s, o, c));
        Ok(())
    }));
    spaces.push(Space::new("scrypt", "r in 0..=4 x n in 0..=17 x p in 0..=4 x empty or non-empty passphrase and salt x output 0, 1, 33 bytes", size([5, 18, 5, 4, 3]), |i, cx| {
        let [r, n, p, e, o] = dec(i, [5, 18, 5, 4, 3]);
        let mut out = vec![0; [0, 1, 33][o]];
        let res = api::scrypt(r, n, p, &base()[..(e & 1) * 9], &base()[..(e >> 1) * 7], &mut out);
        cx.outcome(&(res, out));
        cx.state(&(7, r, n, p, e, o));
        Ok(())
    }));
    spaces.push(Space::new("scrypt_extreme", "refused parameters: (r, n, p) out of 0, 2^31, 2^32, 2^57, 2^63, 2^64-1 with at least one fault", size([7, 7, 7]), |i, cx| {
        let v: [usize; 7] = [0, 1, 1 << 31, clip((1 << 32) + 1), clip(1 << 57), clip(1 << 63), usize::MAX];
        let [r, n, p] = dec(i, [7, 7, 7]);
        let (r, n, p) = (v[r], v[n], v[p]);
        if r != 0 && p != 0 && n > 1 && n.is_power_of_two() {
            return Ok(());
        }
        let mut out = vec![0; 8];
        cx.outcome(&api::scrypt(r, n, p, b"", b"", &mut out));
        cx.state(&(8, r, n, p));
        Ok(())
    }));
    let rounds = t.pick(300usize, 5000);
    spaces.push(Space::new("salsa20", format!("0..=17 blocks x every number of double rounds 0..={} (first 3 block counts) and 0..=20 (others) x 3 contents", rounds), size([18, rounds + 1, 3]), move |i, cx| {
        let [b, r, k] = dec(i, [18, rounds + 1, 3]);
        if b > 2 && r > 20 {
            return Ok(());
        }
        let mut out = vec![0; b * 64];
        api::salsa20(&pat(k, b * 64), r, &mut out);
        cx.outcome(&out);
        cx.state(&(9, b, r, k));
        Ok(())
    }));
    spaces.push(Space::new("error_texts", "every error value the library produces: display, debug, description and source forms", 9, |i, cx| {
        let x = match i {
            0 => api::texts::aes(true),
            1 => api::texts::aes(false),
            2 => api::texts::scrypt(0, 2, 1),
            3 => api::texts::scrypt(1, 0, 1),
            4 => api::texts::scrypt(1, 3, 1),
            5 => api::texts::scrypt(1, 2, 0),
            6 => api::texts::decipher(0),
            7 => api::texts::decipher(1),
            _ => api::texts::decipher(2),
        };
        let Some((display, debug, descr)) = x else {
            // Whether the call has to fail is decided by C07, C10, C13 and C14.
            return Ok(());
        };
        cx.outcome(&(&display, &debug, &descr));
        cx.state(&(10, i));
        if display.is_empty() || debug.is_empty() || descr.is_empty() {
            return Err(format!("an error value has an empty text: display {:?} debug {:?} description {:?}", display, debug, descr));
        }
        Ok(())
    }));
    let mut big = vec![1 << 16, (1 << 16) + 1, 1 << 20, (1 << 20) + 7, 2 << 20, (2 << 20) - 1];
    let ms = mags(1000, 1 << 21);
    big.extend(ms);
    let nb = big.len();
    spaces.push(Space::new("large_arguments", format!("one argument of {:?} bytes for every operation that takes a slice, on a thread with the 2 MiB stack that threads have by default, and with 256 KiB where the argument is below 2^20 bytes", big), size([nb, 10, 2]), move |i, cx| {
        let [b, k, st] = dec(i, [nb, 10, 2]);
        if st == 1 && big[b] >= 1 << 20 {
            return Ok(());
        }
        cx.state(&(11, b, k, st));
        let d = &base()[..big[b]];
        on_stack([2 << 20, 256 << 10][st], cx, |cx| large(cx, k, d))
    }));
    let sp: Vec<(usize, usize, usize)> = vec![(1, 2, 1), (8, 1024, 1), (1, 16_384, 2), (8, 16_384, 1), (1024, 2, 2), (65_536, 2, 1), (1, 2, 65_536), (32, 64, 16), (2, 131_072, 1)];
    let ns = sp.len();
    spaces.push(Space::new("scrypt_stack", format!("scrypt with (r, n, p) in {:?} and PBKDF2 with as many blocks of output, on a thread with a 2 MiB stack", sp), size([ns, 2]), move |i, cx| {
        let [c, k] = dec(i, [ns, 2]);
        let (r, n, p) = sp[c];
        cx.state(&(12, c, k));
        on_stack(2 << 20, cx, |cx| {
            let mut o = vec![0; if k == 0 { 65 } else { 32 * n.max(r * p) + 1 }];
            if k == 0 {
                cx.outcome(&api::scrypt(r, n, p, b"pw", b"salt", &mut o));
            } else {
                api::pbkdf2(b"pw", b"salt", p.min(2), &mut o);
            }
            cx.outcome(&o);
            Ok(())
        })
    }));
    for s in spaces.iter_mut() {
        // The crate may be compiled without optimisation.
        s.limit_s = if s.name == "large_arguments" || s.name == "scrypt_stack" { 240 } else { 60 };
    }
    Check {
        id: "C17",
        spaces,
        assumptions: vec!["A call that does not return within 60 s (every one takes microseconds to milliseconds; large arguments, seconds: 240 s) counts as hanging.".into()],
        bounds: "operation sequences to the stated depths; the value of a digest asked for twice is unspecified, only that it returns".into(),
    }
}

// ------------------------------------------------------------------ memory

/// One object whose operations C18 repeats.
enum Ob {
    Sha(api::Sha),
    Mac(api::Hmac),
    Aes(api::Aes),
    Enc(api::Cipher),
    Dec(api::Decipher),
}

fn make(kind: usize, keyed: bool) -> Ob {
    match kind {
        0 => Ob::Sha(api::Sha::new()),
        1 => Ob::Mac(api::Hmac::new(&base()[..70])),
        2 => {
            let mut a = api::Aes::new();
            if keyed {
                let _ = a.init(&base()[..16]);
            }
            Ob::Aes(a)
        }
        3 => {
            let mut a = api::Cipher::new([7; 16]);
            if keyed {
                let _ = a.init(&base()[..16]);
            }
            Ob::Enc(a)
        }
        _ => {
            let mut a = api::Decipher::new([7; 16]);
            if keyed {
                let _ = a.init(&base()[..16]);
            }
            Ob::Dec(a)
        }
    }
}

const NOPS: usize = 8;
const SIZES: [usize; 5] = [1, 16, 33, 64, 1000];

fn op(o: &mut Ob, k: usize) {
    let d = |k: usize| &base()[..SIZES[k]];
    match o {
        Ob::Sha(x) => match k {
            0..=4 => x.update(d(k)),
            5 => drop(x.digest()),
            _ => x.update(&[]),
        },
        Ob::Mac(x) => match k {
            0..=4 => x.update(d(k)),
            5 => drop(x.digest()),
            _ => x.update(&[]),
        },
        Ob::Aes(x) => match k {
            0 | 1 => drop(x.encrypt(&[3; 16])),
            2 | 3 => drop(x.decrypt(&[3; 16])),
            4 => drop(x.init(&base()[..32])),
            5 => drop(x.init(&base()[..16])),
            6 => drop(x.init(&base()[..24])),
            _ => drop(x.init(&base()[..33])),
        },
        Ob::Enc(x) => match k {
            0..=4 => drop(x.write(d(k))),
            5 => drop(x.flush()),
            6 => drop(x.init(&base()[..32])),
            _ => drop(x.init(&base()[..7])),
        },
        Ob::Dec(x) => match k {
            0..=4 => drop(x.write(d(k))),
            5 => drop(x.flush()),
            6 => drop(x.init(&base()[..32])),
            _ => drop(x.init(&base()[..7])),
        },
    }
}

/// A one-shot call (or a whole session) whose inputs depend on `n`.
fn one_shot(kind: usize, n: usize) {
    let d = &base()[n * 3..n * 3 + 40 + n % 7];
    match kind {
        0 => {
            let mut o = [0; 40];
            api::pbkdf2(d, &d[..5], 2, &mut o);
        }
        1 => {
            let mut o = [0; 40];
            let _ = api::scrypt(1, 4, 2, d, &d[..6], &mut o);
        }
        2 => {
            let mut o = [0; 40];
            let _ = api::scrypt(1 + n % 2, 3, 1, d, &d[..6], &mut o);
        }
        3 => {
            let mut o = [0; 128];
            api::salsa20(&base()[n..n + 128], 4, &mut o);
        }
        4 => {
            let mut s = api::Sha::new();
            s.update(d);
            s.digest();
        }
        5 => {
            let mut s = api::Hmac::new(d);
            s.update(d);
            s.digest();
        }
        6 => {
            // abandoned half way
            let mut s = api::Sha::new();
            s.update(&d[..30]);
            let mut s = api::Hmac::new(d);
            s.update(&d[..30]);
        }
        7 => {
            let mut a = api::Aes::new();
            let _ = a.init(&d[..[16, 24, 32][n % 3]]);
            let _ = a.encrypt(&[1; 16]);
            let _ = a.decrypt(&[1; 16]);
        }
        8 => {
            let mut a = api::Cipher::new([1; 16]);
            let _ = a.init(&d[..[16, 24, 32][n % 3]]);
            let _ = a.write(d);
            if n % 2 == 0 {
                let _ = a.flush();
            }
        }
        9 => {
            let mut a = api::Decipher::new([1; 16]);
            let _ = a.init(&d[..[16, 24, 32][n % 3]]);
            let _ = a.write(d);
            if n % 2 == 0 {
                let _ = a.flush();
            }
        }
        _ => {
            // every failing path
            let mut a = api::Cipher::new([1; 16]);
            let _ = a.write(d);
            let _ = a.init(&d[..3]);
            let _ = a.flush();
            let mut a = api::Decipher::new([1; 16]);
            let _ = a.write(d);
            let _ = a.flush();
            let _ = a.init(&d[..3]);
        }
    }
}

const SLACK: i64 = 1024;

/// The sizes that `sized_shot` can take: one argument of a call each.
const SIZED: [&str; 14] = [
    "PBKDF2 password", "PBKDF2 salt", "PBKDF2 output", "scrypt passphrase", "scrypt salt", "scrypt output", "Salsa20 blocks", "SHA-256 update", "HMAC key", "HMAC message",
    "cipher message", "decipher message", "PBKDF2 rounds", "Salsa20 rounds",
];

/// One whole call whose argument `kind` has size `s`; `n` varies the contents.
fn sized_shot(kind: usize, s: usize, n: usize) {
    let d = &base()[n..n + s];
    match kind {
        0 => api::pbkdf2(d, &[n as u8], 2, &mut [0; 33]),
        1 => api::pbkdf2(&[n as u8], d, 2, &mut [0; 33]),
        2 => api::pbkdf2(&base()[n..n + 4], &[], 1, &mut vec![0; s]),
        3 => drop(api::scrypt(1, 2, 1, d, &[n as u8], &mut [0; 33])),
        4 => drop(api::scrypt(1, 2, 1, &[n as u8], d, &mut [0; 33])),
        5 => drop(api::scrypt(1, 2, 1, &base()[n..n + 4], &[], &mut vec![0; s])),
        6 => api::salsa20(&base()[n..n + 64 * s], 1, &mut vec![0; 64 * s]),
        7 => {
            let mut o = api::Sha::new();
            o.update(d);
            o.digest();
        }
        8 => {
            let mut o = api::Hmac::new(d);
            o.update(&[n as u8]);
            o.digest();
        }
        9 => {
            let mut o = api::Hmac::new(&[n as u8]);
            o.update(d);
            o.digest();
        }
        10 => {
            let mut o = api::Cipher::new([n as u8; 16]);
            let _ = o.init(&base()[n..n + 16]);
            drop(o.write(d));
            drop(o.flush());
        }
        11 => {
            let mut o = api::Decipher::new([n as u8; 16]);
            let _ = o.init(&base()[n..n + 16]);
            drop(o.write(d));
            drop(o.flush());
        }
        12 => api::pbkdf2(&base()[n..n + 4], &[], s, &mut [0; 33]),
        _ => api::salsa20(&base()[n..n + 64], s, &mut [0; 64]),
    }
}

/// What `calls` calls of `f` leave allocated, after three to warm up.
fn kept_by(calls: usize, f: impl Fn(usize)) -> i64 {
    for n in 0..3 {
        f(n);
    }
    let before = live();
    for n in 3..calls + 3 {
        f(n);
    }
    live() - before
}

extern "C" {
    fn pthread_create(t: *mut usize, attr: *const u8, f: extern "C" fn(*mut Job) -> *mut Job, arg: *mut Job) -> i32;
    fn pthread_join(t: usize, ret: *mut *mut Job) -> i32;
}

struct Job<'a> {
    f: &'a (dyn Fn(usize) + Sync),
    n: usize,
    group: &'static std::sync::atomic::AtomicI64,
    rec: Option<api::Rec>,
    calls: u64,
}

extern "C" fn job(j: *mut Job) -> *mut Job {
    let x = unsafe { &mut *j };
    api::rec_put(x.rec.take());
    crate::alloc_count::join_group(x.group);
    let _ = guarded(|| (x.f)(x.n));
    crate::alloc_count::excluded(|| x.rec = api::rec_take());
    x.calls = api::calls();
    j
}

/// What `threads` threads leave allocated when each runs `f` once and ends.
/// `wave` of them exist at the same time. They are started without the help of
/// `std`, whose threads share a map that other threads of ours shrink and grow.
fn kept_by_threads(threads: usize, wave: usize, f: &(dyn Fn(usize) + Sync)) -> i64 {
    use std::sync::atomic::{AtomicI64, Ordering};
    let group: &'static AtomicI64 = &*Box::leak(Box::new(AtomicI64::new(0)));
    let mut rec = api::rec_take();
    for done in (0..threads).step_by(wave) {
        let mut jobs: Vec<Job> = (done..(done + wave).min(threads)).map(|n| Job { f, n, group, rec: None, calls: 0 }).collect();
        // A recording goes along with the first thread of a wave.
        jobs[0].rec = rec.take();
        let ids: Vec<usize> = jobs
            .iter_mut()
            .map(|j| {
                let mut t = 0;
                let r = unsafe { pthread_create(&mut t, std::ptr::null(), job, j as *mut Job as *mut Job<'static>) };
                assert_eq!(r, 0, "HARNESS pthread_create");
                t
            })
            .collect();
        for t in ids {
            unsafe { pthread_join(t, std::ptr::null_mut()) };
        }
        rec = jobs[0].rec.take();
        api::add_calls(jobs.iter().map(|j| j.calls).sum());
    }
    api::rec_put(rec);
    group.load(Ordering::SeqCst)
}

pub fn c18(t: Tier) -> Check {
    let mut spaces = vec![];
    let depth = t.pick(3usize, 4);
    let reps = t.pick(600usize, 1500);
    let per = seq_count(NOPS, depth) - 1;
    spaces.push(Space::new(
        "repeated_sequences",
        format!("5 object types x keyed or not x every sequence of 1..={} operations out of {}, repeated {} times: memory retained stays below 1 KiB + 8 x largest write at every repetition, and returns to zero when dropped", depth, NOPS, reps),
        per * 10,
        move |i, cx| {
            let mut s = vec![];
            seq_at(i / 10 + 1, NOPS, depth, &mut s);
            let (kind, keyed) = ((i % 10) as usize / 2, i % 2 == 1);
            let largest = match kind {
                0..=2 => 0,
                _ => s.iter().map(|&k| if k < 5 { SIZES[k] } else { 0 }).max().unwrap_or(0),
            };
            let bound = SLACK + 8 * largest as i64;
            // Warm up lazily built tables, if any.
            {
                let mut o = make(kind, keyed);
                for &k in &s {
                    op(&mut o, k);
                }
            }
            let before = live();
            let mut worst = (0, 0);
            {
                let mut o = make(kind, keyed);
                for n in 0..reps {
                    for &k in &s {
                        op(&mut o, k);
                        let held = live() - before;
                        if held > worst.0 {
                            worst = (held, n);
                        }
                    }
                    if worst.0 > bound {
                        break;
                    }
                }
            }
            let after = live() - before;
            cx.state(&(kind, keyed, &s));
            cx.outcome(&(worst.0, after));
            if worst.0 > bound {
                return Err(format!("object of kind {} (sha, hmac, aes, cipher, decipher), keyed {}, operations {:?} repeated: {} bytes retained after repetition {}, bound is {}", kind, keyed, s, worst.0, worst.1 + 1, bound));
            }
            if after > 0 {
                return Err(format!("object of kind {}, keyed {}, operations {:?}: {} bytes not released when it was dropped", kind, keyed, s, after));
            }
            Ok(())
        },
    ));
    // Non-block sizes drift through every alignment; volumes are larger here.
    let vol = t.pick(4 << 20, 256usize << 20);
    spaces.push(Space::new("streams", format!("4 streaming types x write size 1..=130 and 1021, 4096, 65537 bytes, {} MiB in all without a flush", vol >> 20), size([133, 4]), move |i, cx| {
        let [w, kind] = dec(i, [133, 4]);
        let w = if w < 130 { w + 1 } else { [1021, 4096, 65_537][w - 130] };
        let kind = [0, 1, 3, 4][kind];
        let bound = SLACK + if kind < 2 { 0 } else { 8 * w as i64 };
        let n = (vol / if w < 64 { 64 } else { 1 }) / w;
        drop(make(kind, true));
        let before = live();
        let mut worst = 0;
        {
            let mut o = make(kind, true);
            for k in 0..n {
                let d = &base()[k % 1000..k % 1000 + w];
                match &mut o {
                    Ob::Sha(x) => x.update(d),
                    Ob::Mac(x) => x.update(d),
                    Ob::Enc(x) => drop(x.write(d)),
                    Ob::Dec(x) => drop(x.write(d)),
                    _ => {}
                }
                worst = worst.max(live() - before);
                if worst > bound {
                    break;
                }
            }
        }
        let after = live() - before;
        cx.state(&(20, kind, w));
        cx.outcome(&worst);
        if worst > bound {
            return Err(format!("object of kind {} fed with writes of {} bytes retains {} bytes, bound is {}", kind, w, worst, bound));
        }
        if after > 0 {
            return Err(format!("object of kind {} fed with writes of {} bytes: {} bytes not released on drop", kind, w, after));
        }
        Ok(())
    }));
    let distinct = t.pick(400usize, 5000);
    spaces.push(Space::new(
        "one_shots",
        format!("11 kinds of whole calls and sessions (complete, abandoned, failing), {} times with different inputs: less than 4 KiB retained in all, in one thread", distinct),
        11 * 8,
        move |i, cx| {
            let (kind, at) = ((i % 11) as usize, i as usize / 11 * 6000);
            for n in 0..3 {
                one_shot(kind, at + n);
            }
            let before = live();
            for n in 3..distinct {
                one_shot(kind, at + n);
            }
            let kept = live() - before;
            cx.state(&(30, i));
            cx.outcome(&kept);
            if kept > 4096 {
                return Err(format!("{} calls of kind {} with different inputs left {} bytes allocated", distinct - 3, kind, kept));
            }
            // The same inputs again and again.
            let before = live();
            for _ in 0..distinct {
                one_shot(kind, at + 1);
            }
            let kept = live() - before;
            if kept > 4096 {
                return Err(format!("{} identical calls of kind {} left {} bytes allocated", distinct, kind, kept));
            }
            Ok(())
        },
    ));
    const LENGTHS: usize = 131;
    let mut larger = mags(LENGTHS, t.pick(1100, 9000));
    larger.dedup();
    let nl = LENGTHS + larger.len();
    let calls = t.pick(260usize, 1000);
    spaces.push(Space::new(
        "sized_calls",
        format!("{:?}: each at every size 0..=130 and {:?}; {} whole calls of that size with different contents, and as many with the same: at most 128 bytes retained", SIZED, larger, calls),
        size([SIZED.len(), nl]),
        move |i, cx| {
            let [kind, s] = dec(i, [SIZED.len(), nl]);
            let s = if s < LENGTHS { s } else { larger[s - LENGTHS] };
            // Fewer calls of the larger sizes, at which more can be lost in one.
            let calls = if s < LENGTHS { calls } else { calls / 2 };
            for same in [false, true] {
                let kept = kept_by(calls, |n| sized_shot(kind, s, if same { 1 } else { n }));
                cx.outcome(&kept);
                if kept > 128 {
                    return Err(format!("{} of size {}: {} calls with {} contents left {} bytes allocated", SIZED[kind], s, calls, if same { "the same" } else { "different" }, kept));
                }
            }
            cx.state(&(40, kind, s));
            Ok(())
        },
    ));
    const RN: [usize; 8] = [1, 2, 3, 7, 8, 9, 16, 33];
    const NN: [usize; 6] = [2, 4, 8, 16, 64, 256];
    let calls = t.pick(60usize, 400);
    spaces.push(Space::new("scrypt_sizes", format!("scrypt with r in {:?}, n in {:?}, p in {:?} where r n p <= 2^10, {} times: less than 1 KiB retained", RN, NN, RN, calls), size([8, 6, 8]), move |i, cx| {
        let [r, n, p] = dec(i, [8, 6, 8]);
        let (r, n, p) = (RN[r], NN[n], RN[p]);
        if r * n * p > 1024 {
            return Ok(());
        }
        let kept = kept_by(calls, |k| drop(api::scrypt(r, n, p, &base()[k..k + 9], b"salt", &mut [0; 40])));
        cx.state(&(41, r, n, p));
        cx.outcome(&kept);
        if kept > SLACK {
            return Err(format!("{} calls of scrypt with r = {}, n = {}, p = {} left {} bytes allocated", calls, r, n, p, kept));
        }
        Ok(())
    }));
    let threads = t.pick(300usize, 3000);
    spaces.push(Space::new(
        "threads",
        format!("the 11 kinds of one_shots and the 14 of sized_calls (100 bytes), once in each of {} threads that then end, one or eight at a time: less than 8 bytes a thread retained", threads),
        25 * 2,
        move |i, cx| {
            let [kind, w] = dec(i, [25, 2]);
            let wave = [1, 8][w];
            let work = |n: usize| if kind < 11 { one_shot(kind, n) } else { sized_shot(kind - 11, 100, n) };
            kept_by_threads(8, wave, &work);
            let kept = kept_by_threads(threads, wave, &work);
            cx.state(&(42, kind, w));
            cx.outcome(&(kept > 0));
            if kept >= 8 * threads as i64 {
                return Err(format!("{} threads that ran kind {} once and ended left {} bytes allocated", threads, kind, kept));
            }
            Ok(())
        },
    ));
    Check {
        id: "C18",
        spaces,
        assumptions: vec![
            "Memory is what the thread has allocated through the global allocator and not freed; recording for replays is excluded.".into(),
            "One-time lazily built tables are allowed: every measurement follows a warm-up.".into(),
        ],
        bounds: format!("cycles of up to {} operations repeated {} times; streams up to {} MiB", depth, reps, vol >> 20),
    }
}
