//! C15: sessions on separate objects do not influence each other, whatever the
//! order of calls, the history before them and the thread each call is made on.
use crate::api;
use crate::engine::*;
use crate::refs;
use crate::refs::aes::RefAes;
use crate::util::*;
use std::cell::RefCell;
use std::sync::OnceLock;

#[derive(Clone, Debug)]
enum Step {
    ShaNew,
    ShaUp(Vec<u8>),
    ShaEnd,
    MacNew(Vec<u8>),
    MacUp(Vec<u8>),
    MacEnd,
    AesNew,
    AesInit(Vec<u8>),
    AesEnc([u8; 16]),
    AesDec([u8; 16]),
    EncNew([u8; 16]),
    EncInit(Vec<u8>),
    EncWrite(Vec<u8>),
    EncFlush,
    DecNew([u8; 16]),
    DecInit(Vec<u8>),
    DecWrite(Vec<u8>),
    DecFlush,
    Drop,
    Pbkdf2(Vec<u8>, Vec<u8>, usize, usize),
    Scrypt(usize, usize, usize, Vec<u8>, Vec<u8>, usize),
    ScNew(usize, usize, usize),
    ScDerive(Vec<u8>, Vec<u8>, usize),
    Salsa(Vec<u8>, usize),
}
use Step::*;

/// The real object of a session.
enum Obj {
    None,
    Sha(api::Sha),
    Mac(api::Hmac),
    Aes(api::Aes),
    Enc(api::Cipher),
    Dec(api::Decipher),
    Sc(api::Scrypt),
}

thread_local! {
    static BUF: RefCell<Vec<u8>> = RefCell::new(vec![0; 8192]);
}

/// Run `f` on data that lives either in its own allocation or in one buffer
/// shared by all calls of this thread (same address, different content).
fn via<T>(shared: bool, d: &[u8], f: impl FnOnce(&[u8]) -> T) -> T {
    if !shared {
        return f(d);
    }
    BUF.with(|b| {
        let mut b = b.borrow_mut();
        b[..d.len()].copy_from_slice(d);
        f(&b[..d.len()])
    })
}

fn real(o: &mut Obj, s: &Step, shared: bool) -> Vec<u8> {
    let unit = |ok: bool| vec![if ok { 1 } else { 0 }];
    fn bytes<E>(r: Result<Vec<u8>, E>) -> Vec<u8> {
        match r {
            Ok(mut v) => {
                v.push(0xaa);
                v
            }
            Err(_) => b"error".to_vec(),
        }
    }
    match (s, o) {
        (ShaNew, o) => *o = Obj::Sha(api::Sha::new()),
        (ShaUp(d), Obj::Sha(x)) => via(shared, d, |d| x.update(d)),
        (ShaEnd, Obj::Sha(x)) => return x.digest().to_vec(),
        (MacNew(k), o) => *o = Obj::Mac(via(shared, k, api::Hmac::new)),
        (MacUp(d), Obj::Mac(x)) => via(shared, d, |d| x.update(d)),
        (MacEnd, Obj::Mac(x)) => return x.digest().to_vec(),
        (AesNew, o) => *o = Obj::Aes(api::Aes::new()),
        (AesInit(k), Obj::Aes(x)) => return unit(via(shared, k, |k| x.init(k)).is_ok()),
        (AesEnc(b), Obj::Aes(x)) => return bytes(x.encrypt(b).map(|v| v.to_vec())),
        (AesDec(b), Obj::Aes(x)) => return bytes(x.decrypt(b).map(|v| v.to_vec())),
        (EncNew(v), o) => *o = Obj::Enc(api::Cipher::new(*v)),
        (EncInit(k), Obj::Enc(x)) => return unit(via(shared, k, |k| x.init(k)).is_ok()),
        (EncWrite(d), Obj::Enc(x)) => return bytes(via(shared, d, |d| x.write(d))),
        (EncFlush, Obj::Enc(x)) => return bytes(x.flush()),
        (DecNew(v), o) => *o = Obj::Dec(api::Decipher::new(*v)),
        (DecInit(k), Obj::Dec(x)) => return unit(via(shared, k, |k| x.init(k)).is_ok()),
        (DecWrite(d), Obj::Dec(x)) => return bytes(via(shared, d, |d| x.write(d))),
        (DecFlush, Obj::Dec(x)) => return bytes(x.flush()),
        (Drop, o) => *o = Obj::None,
        (Pbkdf2(p, s, c, n), _) => {
            let mut out = vec![0; *n];
            via(shared, p, |p| api::pbkdf2(p, s, *c, &mut out));
            return out;
        }
        (Scrypt(r, n, p, pw, s, l), _) => {
            let mut out = vec![0; *l];
            let ok = via(shared, pw, |pw| api::scrypt(*r, *n, *p, pw, s, &mut out));
            out.push(ok.is_ok() as u8);
            return out;
        }
        (ScNew(r, n, p), o) => *o = Obj::Sc(api::Scrypt::new(*r, *n, *p)),
        (ScDerive(pw, s, l), Obj::Sc(x)) => {
            let mut out = vec![0; *l];
            let ok = via(shared, pw, |pw| x.derive(pw, s, &mut out));
            out.push(ok.is_ok() as u8);
            return out;
        }
        (Salsa(d, n), _) => {
            let mut out = vec![0; d.len()];
            via(shared, d, |d| api::salsa20(d, *n, &mut out));
            return out;
        }
        _ => panic!("script step does not fit its object"),
    }
    vec![]
}

struct Script {
    name: String,
    steps: Vec<Step>,
    /// Position in the list of all scripts, which names it to the child process.
    id: usize,
    /// The script this one is a variant of.
    base: usize,
    want: OnceLock<Vec<Vec<u8>>>,
}

impl Script {
    /// What every step returns when the session is the only thing a process
    /// ever does, with every input in its own allocation. Found out by running
    /// the real code in a process of its own.
    fn want(&self) -> &Vec<Vec<u8>> {
        self.want.get_or_init(|| {
            let exe = std::env::current_exe().expect("own path");
            let o = std::process::Command::new(exe).args(["alone", &self.id.to_string()]).output().expect("child process");
            let v: Vec<Vec<u8>> = String::from_utf8_lossy(&o.stdout)
                .lines()
                .map(|l| (1..l.len() / 2 + 1).map(|i| u8::from_str_radix(&l[2 * i - 1..2 * i + 1], 16).expect("child output")).collect())
                .collect();
            assert!(o.status.success() && v.len() == self.steps.len(), "session '{}' alone does not run to completion: {:?}", self.name, o.status);
            v
        })
    }
}

/// Child process for `want`.
pub fn alone(id: usize) -> i32 {
    let all = scripts();
    let mut o = Obj::None;
    for s in &all[id].steps {
        let r = match guarded(|| real(&mut o, s, false)) {
            Ok(r) => r,
            // What a panicking call returns alone is that it panics.
            Err(_) => b"panic".to_vec(),
        };
        let mut l = String::from("=");
        for b in r {
            l.push_str(&format!("{:02x}", b));
        }
        println!("{}", l);
    }
    0
}

/// Every script there is: sessions, one-shot calls, costly calls, then the
/// variants of all of these.
fn scripts() -> Vec<Script> {
    let mut v: Vec<Script> = sessions().into_iter().chain(one_shots()).chain(costly()).collect();
    for b in 0..v.len() {
        let mut w = variants(&v[b]);
        for s in &mut w {
            s.base = b;
        }
        v.append(&mut w);
    }
    for (k, s) in v.iter_mut().enumerate() {
        s.id = k;
    }
    v
}

/// The positions of a byte string at which a variant of it differs.
fn places(n: usize) -> Vec<usize> {
    if n <= 40 {
        return (0..n).collect();
    }
    let mut v: Vec<usize> = (0..n).filter(|k| k % 8 == 0 || k % 8 == 7 || k + 3 > n || *k < 3).collect();
    v.dedup();
    v
}

/// The byte strings `d` with one byte changed, or one byte less or more.
fn near(d: &[u8], len_too: bool) -> Vec<Vec<u8>> {
    let mut v = vec![];
    for p in places(d.len()) {
        let mut x = d.to_vec();
        x[p] ^= 1 << (p % 8);
        v.push(x);
    }
    if len_too {
        let mut x = d.to_vec();
        x.push(0);
        v.push(x);
        if !d.is_empty() {
            v.push(d[..d.len() - 1].to_vec());
        }
    }
    v
}

/// Scripts that differ from `s` in one step, in as little as possible.
fn variants(s: &Script) -> Vec<Script> {
    let mut out = vec![];
    for (k, st) in s.steps.iter().enumerate() {
        let mut alts: Vec<Step> = vec![];
        let num = |x: usize| vec![x + 1, x.saturating_sub(1), x * 2];
        match st {
            ShaUp(d) => alts.extend(near(d, true).into_iter().map(ShaUp)),
            MacNew(d) => alts.extend(near(d, true).into_iter().map(MacNew)),
            MacUp(d) => alts.extend(near(d, true).into_iter().map(MacUp)),
            AesInit(d) => alts.extend(near(d, false).into_iter().chain([16, 24, 32].iter().filter(|&&l| l < d.len()).map(|&l| d[..l].to_vec())).map(AesInit)),
            AesEnc(d) => alts.extend(near(d, false).iter().map(|x| AesEnc(arr16(x))).chain(Some(AesDec(*d)))),
            AesDec(d) => alts.extend(near(d, false).iter().map(|x| AesDec(arr16(x))).chain(Some(AesEnc(*d)))),
            EncNew(d) => alts.extend(near(d, false).iter().map(|x| EncNew(arr16(x)))),
            EncInit(d) => alts.extend(near(d, false).into_iter().chain([16, 24, 32].iter().filter(|&&l| l < d.len()).map(|&l| d[..l].to_vec())).map(EncInit)),
            EncWrite(d) => alts.extend(near(d, true).into_iter().map(EncWrite)),
            DecNew(d) => alts.extend(near(d, false).iter().map(|x| DecNew(arr16(x)))),
            DecInit(d) => alts.extend(near(d, false).into_iter().chain([16, 24, 32].iter().filter(|&&l| l < d.len()).map(|&l| d[..l].to_vec())).map(DecInit)),
            DecWrite(d) => alts.extend(near(d, true).into_iter().map(DecWrite)),
            Pbkdf2(p, s, c, n) => {
                alts.extend(near(p, true).into_iter().map(|x| Pbkdf2(x, s.clone(), *c, *n)));
                alts.extend(near(s, true).into_iter().map(|x| Pbkdf2(p.clone(), x, *c, *n)));
                alts.extend(num(*c).into_iter().filter(|&x| x > 0).map(|x| Pbkdf2(p.clone(), s.clone(), x, *n)));
                alts.extend(num(*n).into_iter().map(|x| Pbkdf2(p.clone(), s.clone(), *c, x)));
            }
            Scrypt(r, n, p, pw, s, l) => {
                alts.extend(near(pw, true).into_iter().map(|x| Scrypt(*r, *n, *p, x, s.clone(), *l)));
                alts.extend(near(s, true).into_iter().map(|x| Scrypt(*r, *n, *p, pw.clone(), x, *l)));
                alts.extend(num(*r).into_iter().map(|x| Scrypt(x, *n, *p, pw.clone(), s.clone(), *l)));
                alts.extend([n / 2, n * 2, n + 1].iter().map(|&x| Scrypt(*r, x, *p, pw.clone(), s.clone(), *l)));
                alts.extend(num(*p).into_iter().map(|x| Scrypt(*r, *n, x, pw.clone(), s.clone(), *l)));
                alts.extend(num(*l).into_iter().map(|x| Scrypt(*r, *n, *p, pw.clone(), s.clone(), x)));
            }
            ScNew(r, n, p) => {
                alts.extend(num(*r).into_iter().map(|x| ScNew(x, *n, *p)));
                alts.extend([n / 2, n * 2].iter().map(|&x| ScNew(*r, x, *p)));
                alts.extend(num(*p).into_iter().map(|x| ScNew(*r, *n, x)));
            }
            ScDerive(pw, s, l) => {
                alts.extend(near(pw, true).into_iter().map(|x| ScDerive(x, s.clone(), *l)));
                alts.extend(near(s, true).into_iter().map(|x| ScDerive(pw.clone(), x, *l)));
                alts.extend(num(*l).into_iter().map(|x| ScDerive(pw.clone(), s.clone(), x)));
            }
            Salsa(d, n) => {
                alts.extend(near(d, false).into_iter().map(|x| Salsa(x, *n)));
                alts.extend([n + 1, n + 2, n * 2].iter().map(|&x| Salsa(d.clone(), x)));
            }
            ShaNew | ShaEnd | MacEnd | AesNew | EncFlush | DecFlush | Drop => {}
        }
        for (j, a) in alts.into_iter().enumerate() {
            let mut steps = s.steps.clone();
            steps[k] = a;
            out.push(script(format!("{} (step {} changed, variant {})", s.name, k + 1, j), steps));
        }
    }
    out
}

fn script(name: impl Into<String>, steps: Vec<Step>) -> Script {
    Script { name: name.into(), steps, id: 0, base: usize::MAX, want: OnceLock::new() }
}

/// One step of the real code; a panic is a result like any other here (whether
/// it may panic is C17's business).
fn step(o: &mut Obj, s: &Step, shared: bool) -> Vec<u8> {
    match guarded(|| real(o, s, shared)) {
        Ok(v) => v,
        Err(m) if m.starts_with("HARNESS") => panic!("{}", m),
        Err(_) => b"panic".to_vec(),
    }
}

fn run_one(sc: &Script, o: &mut Obj, k: usize, shared: bool, cx: &mut Cx, ctx: impl FnOnce() -> String) -> R {
    let got = step(o, &sc.steps[k], shared);
    compare(sc, k, &got, cx, ctx)
}

fn compare(sc: &Script, k: usize, got: &[u8], cx: &mut Cx, ctx: impl FnOnce() -> String) -> R {
    cx.outcome(&got);
    let want = &sc.want()[k];
    if got == &want[..] {
        return Ok(());
    }
    Err(format!(
        "{}: step {} ({:?}) of session '{}' returned {}, alone it returns {}",
        ctx(),
        k + 1,
        sc.steps[k],
        sc.name,
        api::hex(got),
        api::hex(want)
    ))
}

fn iv(k: u64) -> [u8; 16] {
    arr16(&stream(200 + k, 16))
}

/// Multi-step sessions.
fn sessions() -> Vec<Script> {
    let k16 = key(0, 16);
    let k32 = key(0, 32);
    let k24 = key(0, 24);
    let k16b = key(1, 16);
    let d = |n: usize, s: u64| stream(s, n);
    let ct = |k: &[u8], v: u64, n: usize| refs::cbc::encrypt(&RefAes::new(k), &iv(v), &stream(210, n));
    let c1 = ct(&k16, 0, 20);
    let c2 = ct(&k32, 0, 20);
    let mut bad = refs::cbc::encrypt_blocks(&RefAes::new(&k16), &iv(0), &[9; 16]);
    bad.extend_from_slice(&c1[16..]);
    let lk = d(100, 230);
    let mut lk2 = lk.clone();
    lk2[99] ^= 1;
    let k64 = d(64, 231);
    let mut k64b = k64.clone();
    k64b[63] ^= 1;
    vec![
        script("sha a", vec![ShaNew, ShaUp(d(70, 1)), ShaUp(d(3, 2)), ShaEnd]),
        script("sha b", vec![ShaNew, ShaUp(d(10, 1)), ShaUp(d(130, 3)), ShaEnd]),
        script("sha empty", vec![ShaNew, ShaEnd]),
        script("sha 55", vec![ShaNew, ShaUp(d(55, 1)), ShaEnd]),
        script("sha 56", vec![ShaNew, ShaUp(d(56, 1)), ShaEnd]),
        script("sha 63", vec![ShaNew, ShaUp(d(60, 1)), ShaUp(d(3, 2)), ShaEnd]),
        script("sha 64", vec![ShaNew, ShaUp(d(64, 1)), ShaEnd]),
        script("sha 120", vec![ShaNew, ShaUp(d(120, 1)), ShaEnd]),
        script("mac 56", vec![MacNew(d(20, 6)), MacUp(d(56, 1)), MacEnd]),
        script("mac 128", vec![MacNew(d(20, 6)), MacUp(d(128, 1)), MacEnd]),
        script("sha dropped", vec![ShaNew, ShaUp(d(61, 4)), Drop, ShaNew, ShaUp(d(2, 5)), ShaEnd]),
        script("mac short key", vec![MacNew(d(5, 6)), MacUp(d(70, 1)), MacUp(d(1, 2)), MacEnd]),
        script("mac 64", vec![MacNew(k64.clone()), MacUp(d(10, 1)), MacEnd]),
        script("mac 64 other tail", vec![MacNew(k64b), MacUp(d(10, 1)), MacEnd]),
        script("mac long key", vec![MacNew(lk), MacUp(d(10, 1)), MacEnd]),
        script("mac long key other tail", vec![MacNew(lk2), MacUp(d(10, 1)), MacEnd]),
        script("aes 16", vec![AesNew, AesInit(k16.clone()), AesEnc(iv(1)), AesDec(iv(2)), AesEnc(iv(3))]),
        script("aes 16 other tail", vec![AesNew, AesInit(k16b), AesEnc(iv(1)), AesDec(iv(2))]),
        script("aes 32", vec![AesNew, AesInit(k32.clone()), AesDec(iv(1)), AesEnc(iv(1))]),
        script("aes rekeyed", vec![AesNew, AesEnc(iv(1)), AesInit(k24.clone()), AesEnc(iv(1)), AesInit(k16.clone()), AesEnc(iv(1))]),
        script("aes unkeyed", vec![AesNew, AesEnc(iv(1)), AesInit(vec![1; 5]), AesDec(iv(1))]),
        script("cipher a", vec![EncNew(iv(0)), EncInit(k16.clone()), EncWrite(d(17, 7)), EncWrite(d(20, 8)), EncFlush]),
        script("cipher b", vec![EncNew(iv(0)), EncInit(k32.clone()), EncWrite(d(17, 7)), EncFlush, EncFlush]),
        script("cipher dropped", vec![EncNew(iv(0)), EncInit(k16.clone()), EncWrite(d(5, 7)), Drop, EncNew(iv(0)), EncInit(k24.clone()), EncWrite(d(20, 7)), EncFlush]),
        script("cipher 24", vec![EncNew(iv(4)), EncInit(k24.clone()), EncWrite(d(32, 7)), EncFlush]),
        script("cipher empty", vec![EncNew(iv(4)), EncInit(k16.clone()), EncFlush, EncFlush]),
        script("decipher dropped", vec![DecNew(iv(0)), DecInit(k16.clone()), DecWrite(c1[..21].to_vec()), Drop, DecNew(iv(0)), DecInit(k16.clone()), DecWrite(c1.clone()), DecFlush]),
        script("decipher unfinished", vec![DecNew(iv(0)), DecInit(k16.clone()), DecWrite(c1[..21].to_vec()), DecFlush]),
        script("decipher two messages", vec![DecNew(iv(0)), DecInit(k16.clone()), DecWrite(c1.clone()), DecFlush, DecWrite(c1.clone()), DecFlush]),
        script("cipher unkeyed", vec![EncNew(iv(0)), EncWrite(d(40, 7)), EncInit(k16.clone()), EncWrite(d(40, 7)), EncFlush]),
        script("decipher a", vec![DecNew(iv(0)), DecInit(k16.clone()), DecWrite(c1[..17].to_vec()), DecWrite(c1[17..].to_vec()), DecFlush]),
        script("decipher b", vec![DecNew(iv(0)), DecInit(k32), DecWrite(c2.clone()), DecFlush]),
        script("decipher bad", vec![DecNew(iv(0)), DecInit(k16), DecWrite(bad), DecFlush, DecFlush]),
        script("scrypt object", vec![ScNew(1, 4, 2), ScDerive(b"pw".to_vec(), b"salt".to_vec(), 20), ScDerive(b"pw".to_vec(), b"SALT".to_vec(), 33), Drop]),
        script("scrypt object refused", vec![ScNew(1, 3, 1), ScDerive(b"pw".to_vec(), b"salt".to_vec(), 20)]),
    ]
}

/// One-shot calls that differ pairwise in as little as possible.
fn one_shots() -> Vec<Script> {
    let mut v = vec![];
    let mut pb = |p: &[u8], s: &[u8], c: usize, n: usize| v.push(script(format!("pbkdf2 {} {} {} {}", api::hex(p), api::hex(s), c, n), vec![Pbkdf2(p.to_vec(), s.to_vec(), c, n)]));
    pb(b"password", b"salt", 1, 32);
    pb(b"password", b"salt", 2, 32);
    pb(b"password", b"salt", 1, 20);
    pb(b"password", b"salt", 1, 65);
    pb(b"password", b"salT", 1, 32);
    pb(b"passworD", b"salt", 1, 32);
    pb(b"passwords", b"alt", 1, 32);
    pb(b"passwor", b"dsalt", 1, 32);
    pb(b"salt", b"password", 1, 32);
    pb(b"", b"", 1, 32);
    pb(b"", b"salt", 1, 32);
    let long = stream(300, 65);
    let mut long2 = long.clone();
    long2[64] ^= 1;
    pb(&long, b"salt", 1, 32);
    pb(&long2, b"salt", 1, 32);
    pb(&long[..64], b"salt", 3, 40);
    let mut scr = |r: usize, n: usize, p: usize, pw: &[u8], s: &[u8], l: usize| v.push(script(format!("scrypt {} {} {} {} {} {}", r, n, p, api::hex(pw), api::hex(s), l), vec![Scrypt(r, n, p, pw.to_vec(), s.to_vec(), l)]));
    scr(1, 2, 1, b"password", b"salt", 32);
    scr(1, 4, 1, b"password", b"salt", 32);
    scr(2, 2, 1, b"password", b"salt", 32);
    scr(1, 2, 2, b"password", b"salt", 32);
    scr(2, 4, 1, b"password", b"salt", 32);
    scr(1, 4, 2, b"password", b"salt", 32);
    scr(1, 2, 1, b"password", b"salT", 32);
    scr(1, 2, 1, b"passworD", b"salt", 32);
    scr(1, 2, 1, b"passwords", b"alt", 32);
    scr(1, 2, 1, b"password", b"salt", 8);
    scr(0, 2, 1, b"password", b"salt", 32);
    scr(1, 6, 1, b"password", b"salt", 32);
    v.push(script("salsa a", vec![Salsa(stream(301, 64), 4)]));
    v.push(script("salsa a rounds", vec![Salsa(stream(301, 64), 10)]));
    v.push(script("salsa b", vec![Salsa(stream(302, 64), 4)]));
    v.push(script("salsa two", vec![Salsa(stream(301, 128), 4)]));
    v.push(script("sha whole", vec![ShaNew, ShaUp(stream(303, 80)), ShaEnd, Drop]));
    v.push(script("mac whole", vec![MacNew(b"password".to_vec()), MacUp(b"salt".to_vec()), MacEnd, Drop]));
    v.push(script("aes whole", vec![AesNew, AesInit(key(0, 16)), AesEnc(iv(1)), Drop]));
    v
}

/// Calls that cost more: large iteration counts, large memory, large outputs.
fn costly() -> Vec<Script> {
    let mut v = vec![];
    for &(p, s, c, n) in &[(8usize, 4usize, 500usize, 32usize), (8, 16, 1001, 32), (65, 8, 2000, 20), (8, 70, 4097, 33), (8, 8, 3, 1000), (8, 300, 1, 40), (8, 8, 10_001, 16)] {
        v.push(script(format!("pbkdf2 costly {} {} {} {}", p, s, c, n), vec![Pbkdf2(stream(p as u64, p), stream(400 + s as u64, s), c, n)]));
    }
    for &(r, n, p, pw, s, l) in &[(8usize, 16usize, 1usize, 8usize, 8usize, 32usize), (8, 128, 1, 8, 8, 64), (1, 1024, 1, 65, 8, 32), (8, 1024, 1, 8, 33, 16), (3, 16, 5, 8, 8, 300)] {
        v.push(script(format!("scrypt costly {} {} {} {} {} {}", r, n, p, pw, s, l), vec![Scrypt(r, n, p, stream(pw as u64, pw), stream(500 + s as u64, s), l)]));
    }
    v.push(script("sha long", vec![ShaNew, ShaUp(stream(310, 5000)), ShaEnd]));
    v.push(script("mac long", vec![MacNew(stream(311, 300)), MacUp(stream(312, 3000)), MacEnd]));
    v.push(script("cipher long", vec![EncNew(iv(5)), EncInit(key(0, 24)), EncWrite(stream(313, 1000)), EncFlush]));
    v.push(script("salsa long", vec![Salsa(stream(314, 1024), 4)]));
    v
}

/// All interleavings of `a` and `b` steps: the masks of `a + b` bits with `a`
/// ones, in increasing order.
fn orders(a: usize, b: usize) -> Vec<u32> {
    (0u32..1 << (a + b)).filter(|m| m.count_ones() as usize == a).collect()
}

fn orders3(l: [usize; 3]) -> Vec<Vec<u8>> {
    fn rec(l: &mut [usize; 3], cur: &mut Vec<u8>, out: &mut Vec<Vec<u8>>) {
        if l.iter().all(|&x| x == 0) {
            out.push(cur.clone());
            return;
        }
        for k in 0..3 {
            if l[k] > 0 {
                l[k] -= 1;
                cur.push(k as u8);
                rec(l, cur, out);
                cur.pop();
                l[k] += 1;
            }
        }
    }
    let mut out = vec![];
    rec(&mut { l }, &mut vec![], &mut out);
    out
}

pub fn c15(t: Tier) -> Check {
    use std::sync::Arc;
    let all: Arc<Vec<Script>> = Arc::new(scripts());
    let n_ses = sessions().len();
    let n_shots = one_shots().len();
    let n_base = n_ses + n_shots + costly().len();
    let mut spaces = vec![];
    let everything = all.clone();

    // Pairs: prefix sums give each (a, b) its interleavings.
    let n = n_ses + n_shots;
    let mut offs = vec![];
    let mut total = 0u64;
    let mut tables: std::collections::HashMap<(usize, usize), Arc<Vec<u32>>> = Default::default();
    for a in 0..n {
        for b in 0..n {
            let (la, lb) = (all[a].steps.len(), all[b].steps.len());
            let tb = tables.entry((la, lb)).or_insert_with(|| Arc::new(orders(la, lb))).clone();
            offs.push((total, a, b, tb.clone()));
            total += tb.len() as u64 * 2;
        }
    }
    let names: Vec<String> = all[..n].iter().map(|s| s.name.clone()).collect();
    spaces.push(Space::new(
        "pairs",
        format!("all ordered pairs of {} sessions and calls x all interleavings of their steps x separate or shared input buffer: {}", n, names.join("; ")),
        total,
        move |i, cx| {
            let k = offs.partition_point(|o| o.0 <= i) - 1;
            let (base, a, b, tb) = &offs[k];
            let j = i - base;
            let mask = tb[(j / 2) as usize];
            let shared = j % 2 == 1;
            let (mut oa, mut ob, mut ka, mut kb) = (Obj::None, Obj::None, 0, 0);
            let total = all[*a].steps.len() + all[*b].steps.len();
            for s in 0..total {
                cx.state(&(a, b, ka, kb, shared));
                if mask >> s & 1 == 1 {
                    run_one(&all[*a], &mut oa, ka, shared, cx, || format!("interleaved with '{}' (order {:b})", all[*b].name, mask))?;
                    ka += 1;
                } else {
                    run_one(&all[*b], &mut ob, kb, shared, cx, || format!("interleaved with '{}' (order {:b})", all[*a].name, mask))?;
                    kb += 1;
                }
            }
            Ok(())
        },
    ));

    // Triples of shorter sessions.
    let short: Vec<usize> = {
        let few = ["sha b", "sha empty", "sha 56", "mac 64", "mac 64 other tail", "aes 32", "cipher b", "cipher empty", "decipher b", "decipher unfinished", "scrypt object"];
        (0..n_ses).filter(|&k| t == Tier::Thorough || few.contains(&&everything[k].name[..])).collect()
    };
    let m = short.len();
    let mut offs = vec![];
    let mut total = 0u64;
    let mut tables: std::collections::HashMap<[usize; 3], Arc<Vec<Vec<u8>>>> = Default::default();
    for a in 0..m {
        for b in a..m {
            for c in b..m {
                let ids = [short[a], short[b], short[c]];
                let l = ids.map(|k| everything[k].steps.len());
                if l.iter().sum::<usize>() > 12 {
                    continue;
                }
                let tb = tables.entry(l).or_insert_with(|| Arc::new(orders3(l))).clone();
                offs.push((total, ids, tb.clone()));
                total += tb.len() as u64;
            }
        }
    }
    let s2 = everything.clone();
    spaces.push(Space::new("triples", format!("all unordered triples of {} sessions (at most 12 steps together) x all interleavings", m), total, move |i, cx| {
        let k = offs.partition_point(|o| o.0 <= i) - 1;
        let (base, ids, tb) = &offs[k];
        let ord = &tb[(i - base) as usize];
        let mut o = [Obj::None, Obj::None, Obj::None];
        let mut at = [0usize; 3];
        for &w in ord {
            let w = w as usize;
            cx.state(&(ids, &at));
            run_one(&s2[ids[w]], &mut o[w], at[w], false, cx, || format!("interleaved sessions {:?}, order {:?}", ids, ord))?;
            at[w] += 1;
        }
        Ok(())
    }));

    // Histories of whole calls.
    let depth = t.pick(3usize, 4);
    let q = n_shots;
    let o2 = everything.clone();
    spaces.push(Space::new(
        "histories",
        format!("every sequence of up to {} out of {} one-shot calls x separate or shared input buffer", depth, q),
        seq_count(q, depth) * 2,
        move |i, cx| {
            let mut s = vec![];
            seq_at(i / 2, q, depth, &mut s);
            for (k, &c) in s.iter().enumerate() {
                let sc = &o2[n_ses + c];
                let mut o = Obj::None;
                for st in 0..sc.steps.len() {
                    run_one(sc, &mut o, st, i % 2 == 1, cx, || format!("after the calls {:?}", s[..k].iter().map(|&x| &o2[n_ses + x].name).collect::<Vec<_>>()))?;
                }
            }
            cx.state(&s);
            Ok(())
        },
    ));

    // A new thread for every step whose bit is set; the object moves.
    let all2 = everything.clone();
    let mut offs = vec![];
    let mut total = 0u64;
    for (k, s) in all2[..n].iter().enumerate() {
        offs.push((total, k));
        total += (1u64 << s.steps.len()) * 3;
    }
    spaces.push(Space::new(
        "migration",
        "every session x every assignment of its steps to the original thread or a freshly started one x (alone, after another session of the same kind started on the original thread, while one is suspended)",
        total,
        move |i, cx| {
            let k = offs.partition_point(|o| o.0 <= i) - 1;
            let (base, which) = offs[k];
            let j = i - base;
            let sc = &all2[which];
            let (mask, mode) = (j / 3, j % 3);
            let mut other = Obj::None;
            if mode > 0 {
                // Half of the same session on another object.
                for st in 0..sc.steps.len() / 2 {
                    let _ = step(&mut other, &sc.steps[st], false);
                }
                if mode == 1 {
                    other = Obj::None;
                }
            }
            let mut o = Obj::None;
            for st in 0..sc.steps.len() {
                let got = if mask >> st & 1 == 1 {
                    let (back, got) = std::thread::scope(|s| {
                        s.spawn(|| {
                            let mut o = std::mem::replace(&mut o, Obj::None);
                            let g = guarded(|| step(&mut o, &sc.steps[st], false));
                            (o, g)
                        })
                        .join()
                        .expect("helper thread")
                    });
                    o = back;
                    got?
                } else {
                    step(&mut o, &sc.steps[st], false)
                };
                cx.state(&(which, st, mask, mode));
                compare(sc, st, &got, cx, || format!("thread assignment {:b}, mode {}", mask, mode))?;
            }
            drop(other);
            Ok(())
        },
    ));

    // One scrypt object, several derivations.
    const LENS: [usize; 24] = [0, 1, 2, 8, 16, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129, 200, 256, 257, 512, 1000, 1025, 2000, 5000];
    spaces.push(Space::new("scrypt_again", "one scrypt object: every ordered pair of 24 output lengths x same or other passphrase x same or other salt x 3 configurations, three derivations (first, second, first)", size([24, 24, 2, 2, 3]), |i, cx| {
        let [x, y, pw, salt, c] = dec(i, [24, 24, 2, 2, 3]);
        let (r, n, p) = [(1, 2, 1), (1, 4, 2), (2, 2, 1)][c];
        let o = api::Scrypt::new(r, n, p);
        cx.state(&(x, y, pw, salt, c, 91));
        for (l, pw, salt) in [(LENS[x], 0, 0), (LENS[y], pw, salt), (LENS[x], 0, 0)] {
            let (pw, salt) = ([&b"passphrase"[..], b"passphrasf"][pw], [&b"salt"[..], b"sblt"][salt]);
            let mut out = vec![0x11; l];
            cx.same("derive", &o.derive(pw, salt, &mut out).is_ok(), &true)?;
            cx.eq(&format!("key of {} bytes from an object used before", l), &out, &refs::kdf::scrypt(pw, salt, r, n as u64, p, l))?;
        }
        Ok(())
    }));

    // Many objects alive at once, and many calls in a row.
    let alive = t.pick(1100usize, 70_000);
    let s3 = everything.clone();
    let ns = n_ses;
    spaces.push(
        Space::new("many_alive", format!("{} objects of each session alive at once, advanced step by step in turn (forwards and backwards)", alive), size([ns, 2]), move |i, cx| {
            let [w, dir] = dec(i, [ns, 2]);
            let sc = &s3[w];
            let mut v: Vec<Obj> = (0..alive).map(|_| Obj::None).collect();
            for st in 0..sc.steps.len() {
                for k in 0..alive {
                    let k = if dir == 0 || st % 2 == 0 { k } else { alive - 1 - k };
                    run_one(sc, &mut v[k], st, false, cx, || format!("object {} of {}", k, alive))?;
                }
            }
            cx.state(&(w, dir, alive));
            Ok(())
        })
        .heavy(300),
    );
    let reps = t.pick(3000usize, 140_000);
    let all3 = everything.clone();
    spaces.push(
        Space::new("repetition", format!("each session and call {} times in a row, in a fresh thread (costly calls 20 times)", reps), n_base as u64, move |i, cx| {
            let sc = &all3[i as usize];
            let reps = if (i as usize) < n { reps } else { 20 };
            let want = sc.want();
            let r = std::thread::scope(|s| {
                s.spawn(|| {
                    guarded(|| {
                        for n in 0..reps {
                            let mut o = Obj::None;
                            for st in 0..sc.steps.len() {
                                if step(&mut o, &sc.steps[st], false) != want[st] {
                                    return Some((n, st));
                                }
                            }
                        }
                        None
                    })
                })
                .join()
                .expect("helper thread")
            })?;
            cx.state(&(i, reps));
            match r {
                None => Ok(()),
                Some((n, st)) => Err(format!("repetition {} of session '{}' differs at step {} ({:?})", n + 1, sc.name, st + 1, sc.steps[st])),
            }
        })
        .heavy(600),
    );

    // The same, all sessions in turn: rows of `stride`-spaced sessions so that
    // every residue of a counter shared by all of them meets every session.
    let rounds = t.pick(300usize, 20_000);
    let all4 = everything.clone();
    spaces.push(
        Space::new("round_robin", format!("all sessions and calls one after the other, {} rounds, in a fresh thread, starting with each of them", rounds), n as u64, move |i, cx| {
            let want: Vec<_> = all4[..n].iter().map(|s| s.want()).collect();
            let all4 = &all4;
            let r = std::thread::scope(|s| {
                s.spawn(move || {
                    guarded(|| {
                        for k in 0..rounds * n {
                            let w = (k + i as usize) % n;
                            let sc = &all4[w];
                            let mut o = Obj::None;
                            for st in 0..sc.steps.len() {
                                if step(&mut o, &sc.steps[st], false) != want[w][st] {
                                    return Some((k, w, st));
                                }
                            }
                        }
                        None
                    })
                })
                .join()
                .expect("helper thread")
            })?;
            cx.state(&i);
            match r {
                None => Ok(()),
                Some((k, w, st)) => Err(format!("session '{}' run as number {} differs at step {} ({:?})", all4[w].name, k + 1, st + 1, all4[w].steps[st])),
            }
        })
        .heavy(900),
    );

    // Sessions given up at any point, then others.
    let mut cuts = vec![];
    for k in 0..n {
        for l in 1..=everything[k].steps.len() {
            if l < everything[k].steps.len() || k < n_ses {
                cuts.push((k, l));
            }
        }
    }
    let nc = cuts.len() as u64;
    let all5 = everything.clone();
    let c5 = cuts.clone();
    spaces.push(Space::new(
        "abandoned",
        format!("every session dropped after each of its steps ({} ways), then every session or call, x the same thread all along or a fresh one for all", nc),
        nc * n as u64 * 2,
        move |i, cx| {
            let [a, b, th] = dec(i, [nc as usize, n, 2]);
            let (w, l) = c5[a];
            let body = |cx: &mut Cx| {
                let mut o = Obj::None;
                for st in 0..l {
                    run_one(&all5[w], &mut o, st, false, cx, || "first".into())?;
                }
                drop(o);
                let mut o = Obj::None;
                for st in 0..all5[b].steps.len() {
                    run_one(&all5[b], &mut o, st, false, cx, || format!("after '{}' was dropped after {} steps", all5[w].name, l))?;
                }
                Ok(())
            };
            cx.state(&(a, b, th));
            if th == 0 {
                body(cx)
            } else {
                std::thread::scope(|s| s.spawn(|| guarded(|| body(cx))).join().expect("helper thread"))?
            }
        },
    ));
    let all6 = everything.clone();
    let deep: Vec<usize> = (0..n_ses).collect();
    let nd = deep.len();
    spaces.push(Space::new(
        "abandoned_two",
        format!("every two sessions dropped half-way ({} x {} ways, the first before or after the second starts), then every session", nc, nc),
        if t == Tier::Thorough { nc * nc * 2 * nd as u64 } else { nc * nc * 2 },
        move |i, cx| {
            let [a, b, late, s0] = dec(i, [nc as usize, nc as usize, 2, if t == Tier::Thorough { nd } else { 1 }]);
            let (wa, la) = cuts[a];
            let (wb, lb) = cuts[b];
            let mut oa = Obj::None;
            for st in 0..la {
                run_one(&all6[wa], &mut oa, st, false, cx, || "first".into())?;
            }
            if late == 0 {
                oa = Obj::None;
            }
            let mut ob = Obj::None;
            for st in 0..lb {
                run_one(&all6[wb], &mut ob, st, false, cx, || format!("after '{}' stopped after {} steps", all6[wa].name, la))?;
            }
            drop(oa);
            drop(ob);
            // Quick: the session whose turn it is; thorough: all.
            let c = if t == Tier::Thorough { deep[s0] } else { deep[(a + b) % nd] };
            let mut o = Obj::None;
            for st in 0..all6[c].steps.len() {
                run_one(&all6[c], &mut o, st, false, cx, || format!("after '{}' and '{}' were dropped after {} and {} steps", all6[wa].name, all6[wb].name, la, lb))?;
            }
            cx.state(&(a, b, late, c));
            Ok(())
        },
    ));

    // Sessions that differ in a single byte or number.
    let all7 = everything.clone();
    let nv = (everything.len() - n_base) as u64;
    spaces.push(Space::new(
        "similar",
        format!("every session and call against each of its variants that differ in one byte, length or number ({} in all): base, variant, base again; variant, base, variant; x separate or shared input buffer x dropped or kept", nv),
        nv * 8,
        move |i, cx| {
            let [v, ord, shared, keep] = dec(i, [nv as usize, 2, 2, 2]);
            let var = &all7[n_base + v];
            let base = &all7[var.base];
            let seq = if ord == 0 { [base, var, base] } else { [var, base, var] };
            let mut kept = vec![];
            for sc in seq.iter() {
                let mut o = Obj::None;
                for st in 0..sc.steps.len() {
                    run_one(sc, &mut o, st, shared == 1, cx, || format!("next to a session that differs only in one place ('{}')", var.name))?;
                }
                if keep == 1 {
                    kept.push(o);
                }
            }
            cx.state(&(v, ord, shared, keep));
            Ok(())
        },
    ));
    Check {
        id: "C15",
        spaces,
        assumptions: vec!["What a session returns alone is taken from the real code running it as the only work of a separate process, so hidden state cannot hide in the expectation and the verdict is about isolation only.".into()],
        bounds: format!("pairs of sessions of up to 8 steps, triples of up to 12 steps, histories of up to {} calls, up to {} live objects, {} repetitions, {} variants", depth, alive, reps, nv),
    }
}
