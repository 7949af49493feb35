//! What a thread does. Every script returns everything the calls returned.
use dumb_crypto::aes::{AESError, AES};
use dumb_crypto::aes_cbc::{Cipher, Decipher};
use dumb_crypto::hmac::HMac;
use dumb_crypto::pbkdf2::pbkdf2_sha256;
use dumb_crypto::salsa20::salsa20;
use dumb_crypto::scrypt::Scrypt;
use dumb_crypto::sha256::SHA256;

/// Objects shared by reference. Whether the types may be shared is checked
/// separately, so that losing `Sync` is reported and not a compile error.
pub struct World {
    aes: [AES; 3],
    scrypt: Scrypt,
    scrypts: Vec<Scrypt>,
}

/// Parameters of the scrypt objects shared in probes.
const SCRYPTS: [(usize, usize, usize); 8] = [(1, 2, 1), (1, 4, 2), (1, 16, 1), (2, 8, 1), (4, 2, 3), (8, 4, 1), (8, 16, 2), (3, 4, 5)];
unsafe impl Sync for World {}
unsafe impl Send for World {}

fn bytes(s: u8, n: usize) -> Vec<u8> {
    (0..n).map(|i| (i as u8).wrapping_mul(37).wrapping_add(s.wrapping_mul(101)) ^ 0x5a).collect()
}

fn b16(s: u8) -> [u8; 16] {
    let mut a = [0; 16];
    a.copy_from_slice(&bytes(s, 16));
    a
}

/// Two keys that differ in the last byte only.
fn key(v: u8, n: usize) -> Vec<u8> {
    let mut k = bytes(9, n);
    k[n - 1] ^= v;
    k
}

impl World {
    pub fn new() -> World {
        World {
            aes: [AES::new(), AES::new(), AES::new()],
            scrypt: Scrypt::new(1, 2, 1),
            scrypts: SCRYPTS.iter().map(|&(r, n, p)| Scrypt::new(r, n, p)).collect(),
        }
        .ready()
    }
    fn ready(mut self) -> World {
        let _ = self.aes[0].init(&key(0, 16));
        let _ = self.aes[1].init(&key(1, 32));
        let _ = self.aes[2].init(&key(2, 24));
        self
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    ShaShort,
    ShaLong,
    HmacShort,
    HmacLongKey,
    Pbkdf2Salt,
    Pbkdf2Password,
    Salsa,
    SalsaRounds,
    ScryptSharedPass,
    ScryptSharedSalt,
    ScryptOwn,
    AesSharedEncrypt,
    AesSharedDecrypt,
    AesSharedOther,
    AesInit,
    AesOwn16,
    AesOwn32,
    CipherOwn,
    DecipherOwn,
    Uninit,
    ScryptWide,
    // The kinds of the probes, with their sizes. The data variant changes one
    // argument only: which one is the last field.
    /// message length, piece length, messages
    Sha(u32, u32, u32),
    /// key length, message length, what varies (0 key, 1 message)
    Mac(u32, u32, u8),
    /// password, salt, count, output, what varies (0 password, 1 salt, 2 count)
    Pb(u32, u32, u32, u32, u8),
    /// shared object, password, salt, output, what varies
    Scr(u8, u32, u32, u32, u8),
    /// blocks, double rounds
    Sal(u32, u32),
    /// key size, blocks, way (0 encrypt, 1 decrypt, 2 both), what varies (0 key, 1 blocks)
    Blk(u32, u32, u8, u8),
    /// shared object, blocks, way
    Shb(u8, u32, u8),
    /// key size, write sizes, messages, what varies (0 key, 1 IV, 2 text)
    Cip(u32, u32, u32, u8),
    /// key size, write sizes, messages, what varies
    Dcp(u32, u32, u32, u8),
    /// several objects of all types at once
    Mixed(u8),
}
use Kind::*;

/// A kind and the data variant it uses.
pub type Script = (Kind, u8);

pub fn name(s: Script) -> String {
    format!("{:?}/{}", s.0, s.1)
}

fn code<T>(r: Result<[u8; 16], T>) -> Vec<u8> {
    match r {
        Ok(b) => b.to_vec(),
        Err(_) => b"error".to_vec(),
    }
}

pub fn run(w: &World, (k, v): Script) -> Vec<u8> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run_(w, k, v))) {
        Ok(r) => r,
        Err(_) => b"panic".to_vec(),
    }
}

fn run_(w: &World, k: Kind, v: u8) -> Vec<u8> {
    let mut out = vec![];
    match k {
        ShaShort => {
            let mut s = SHA256::new();
            s.update(&bytes(v, 3));
            out.extend_from_slice(&s.digest());
        }
        ShaLong => {
            let mut s = SHA256::default();
            let m = bytes(v, 70);
            s.update(&m[..5]);
            s.update(&m[5..]);
            out.extend_from_slice(&s.digest());
        }
        HmacShort => {
            let mut h = HMac::new(&key(v, 20));
            h.update(&bytes(3, 9));
            out.extend_from_slice(&h.digest());
        }
        HmacLongKey => {
            let mut h = HMac::new(&key(v, 70));
            h.update(&bytes(3, 9));
            out.extend_from_slice(&h.digest());
        }
        Pbkdf2Salt => {
            out.resize(33, 0);
            pbkdf2_sha256(b"password", &[b's', v], 2, &mut out);
        }
        Pbkdf2Password => {
            out.resize(20, 0);
            pbkdf2_sha256(&[b'p', v], b"salt", 2, &mut out);
        }
        Salsa => {
            out.resize(64, 0);
            salsa20(&bytes(v, 64), 4, &mut out);
        }
        SalsaRounds => {
            out.resize(128, 0);
            salsa20(&bytes(5, 128), 1 + v as usize, &mut out);
        }
        ScryptSharedPass => {
            out.resize(16, 0);
            if w.scrypt.derive(&[b'p', v], b"salt", &mut out).is_err() {
                out.push(1);
            }
        }
        ScryptSharedSalt => {
            out.resize(40, 0);
            if w.scrypt.derive(b"pass", &[b's', v], &mut out).is_err() {
                out.push(1);
            }
        }
        ScryptOwn => {
            out.resize(16, 0);
            if Scrypt::new(1, 2 + 2 * v as usize, 1 + v as usize).derive(b"pass", b"salt", &mut out).is_err() {
                out.push(1);
            }
        }
        ScryptWide => {
            out.resize(16, 0);
            if Scrypt::new(2, 4, 1).derive(&[b'p', v], b"salt", &mut out).is_err() {
                out.push(1);
            }
        }
        AesSharedEncrypt => {
            out.extend(code(w.aes[0].encrypt(&b16(v))));
            out.extend(code(w.aes[0].encrypt(&b16(v + 2))));
        }
        AesSharedDecrypt => {
            out.extend(code(w.aes[0].decrypt(&b16(v))));
            out.extend(code(w.aes[0].decrypt(&b16(v + 2))));
        }
        AesSharedOther => {
            out.extend(code(w.aes[1].encrypt(&b16(v))));
            out.extend(code(w.aes[1].decrypt(&b16(v))));
        }
        AesInit => {
            let mut a = AES::new();
            let r: Result<(), AESError> = a.init(&key(v, 24));
            out.push(r.is_ok() as u8);
            out.extend(code(a.encrypt(&b16(4))));
        }
        AesOwn16 | AesOwn32 => {
            let mut a = AES::new();
            out.push(a.init(&key(v, if k == AesOwn16 { 16 } else { 32 })).is_ok() as u8);
            let c = a.encrypt(&b16(4));
            out.extend(code(c));
            out.extend(code(a.decrypt(&b16(4))));
        }
        CipherOwn => {
            let mut c = Cipher::new(b16(v));
            out.push(c.init(&key(v, 16)).is_ok() as u8);
            for r in [c.write(&bytes(v, 20)), c.flush()] {
                match r {
                    Ok(b) => out.extend(b),
                    Err(_) => out.extend(b"error"),
                }
            }
        }
        DecipherOwn => {
            let mut d = Decipher::new(b16(v));
            out.push(d.init(&key(v, 16)).is_ok() as u8);
            // the last block is decrypted into whatever it is; its padding verdict counts
            match d.write(&bytes(v, 48)) {
                Ok(b) => out.extend(b),
                Err(_) => out.extend(b"error"),
            }
            match d.flush() {
                Ok(b) => out.extend(b),
                Err(_) => out.extend(b"error"),
            }
        }
        Sha(len, piece, n) => {
            let m = bytes(v, len as usize);
            for _ in 0..n {
                let mut s = SHA256::new();
                for c in m.chunks(piece as usize) {
                    s.update(c);
                }
                out.extend_from_slice(&s.digest());
            }
        }
        Mac(kl, len, var) => {
            let pick = |n| if var == n { v } else { 0 };
            let mut h = HMac::new(&key(pick(0), kl as usize));
            h.update(&bytes(pick(1), len as usize));
            out.extend_from_slice(&h.digest());
        }
        Pb(p, s, c, n, var) => {
            let pick = |n| if var == n { v } else { 0 };
            out.resize(n as usize, 0);
            pbkdf2_sha256(&key(pick(0), p as usize), &key(pick(1), s as usize), c as usize + pick(2) as usize, &mut out);
        }
        Scr(o, p, s, n, var) => {
            let pick = |n| if var == n { v } else { 0 };
            out.resize(n as usize, 0);
            if w.scrypts[o as usize].derive(&key(pick(0), p as usize), &key(pick(1), s as usize), &mut out).is_err() {
                out.push(1);
            }
        }
        Sal(blocks, rounds) => {
            out.resize(64 * blocks as usize, 0);
            salsa20(&bytes(v, 64 * blocks as usize), rounds as usize, &mut out);
        }
        Blk(ks, n, way, var) => {
            let pick = |n| if var == n { v } else { 0 };
            let mut a = AES::new();
            out.push(a.init(&key(pick(0), ks as usize)).is_ok() as u8);
            for k in 0..n {
                let b = b16(pick(1).wrapping_add(2 * k as u8));
                if way != 1 {
                    out.extend(code(a.encrypt(&b)));
                }
                if way != 0 {
                    out.extend(code(a.decrypt(&b)));
                }
            }
        }
        Shb(o, n, way) => {
            for k in 0..n {
                let b = b16(v.wrapping_add(2 * k as u8));
                if way != 1 {
                    out.extend(code(w.aes[o as usize].encrypt(&b)));
                }
                if way != 0 {
                    out.extend(code(w.aes[o as usize].decrypt(&b)));
                }
            }
        }
        Cip(ks, write, n, var) | Dcp(ks, write, n, var) => {
            let pick = |n| if var == n { v } else { 0 };
            let (kk, iv) = (key(pick(0), ks as usize), b16(pick(1)));
            let mut c = Cipher::new(iv);
            let mut d = Decipher::new(iv);
            let ok = c.init(&kk).is_ok() && d.init(&kk).is_ok();
            out.push(ok as u8);
            for m in 0..n {
                let t = bytes(pick(2) + 2 * m as u8, 40);
                let mut ct = vec![];
                for p in t.chunks(write as usize) {
                    ct.extend(c.write(p).unwrap_or_else(|_| b"error".to_vec()));
                }
                ct.extend(c.flush().unwrap_or_else(|_| b"error".to_vec()));
                if let Dcp(..) = k {
                    for p in ct.chunks(write as usize) {
                        out.extend(d.write(p).unwrap_or_else(|_| b"error".to_vec()));
                    }
                    out.extend(d.flush().unwrap_or_else(|_| b"error".to_vec()));
                } else {
                    out.extend(&ct);
                }
            }
        }
        Mixed(way) => {
            let mut s = SHA256::new();
            let mut h = HMac::new(&key(v, 30));
            let mut a = AES::new();
            let mut c = Cipher::new(b16(v));
            s.update(&bytes(v, 30));
            if way == 1 {
                pbkdf2_sha256(&key(v, 8), b"salt", 2, &mut [0; 8]);
            }
            h.update(&bytes(v, 60));
            let _ = a.init(&key(v, 32));
            let _ = c.init(&key(v, 16));
            out.extend(c.write(&bytes(v, 20)).unwrap_or_else(|_| b"error".to_vec()));
            s.update(&bytes(v, 60));
            out.extend(code(a.decrypt(&b16(v))));
            if way == 2 {
                drop(c);
                c = Cipher::new(b16(v + 1));
                let _ = c.init(&key(v, 24));
            }
            out.extend_from_slice(&h.digest());
            out.extend(c.flush().unwrap_or_else(|_| b"error".to_vec()));
            out.extend_from_slice(&s.digest());
        }
        Uninit => {
            let a = AES::new();
            out.extend(code(a.encrypt(&b16(v))));
            let mut c = Cipher::new(b16(v));
            out.push(c.write(&bytes(v, 17)).is_err() as u8);
            let mut x = AES::new();
            out.push(x.init(&bytes(v, 17)).is_ok() as u8);
            out.push(Scrypt::new(0, 2, 1).derive(b"", b"", &mut [0; 4]).is_ok() as u8);
        }
    }
    out
}

pub struct Case {
    pub pair: [Script; 2],
    pub prelude: Option<Script>,
    pub bound2: bool,
    /// Explored only where one of the two scripts leaves traces in memory both
    /// threads can reach.
    pub probe: bool,
}

impl Case {
    /// What each of two or three threads runs.
    pub fn scripts(&self, threads: usize) -> Vec<Script> {
        let mut v = self.pair.to_vec();
        if threads == 3 {
            v.push(self.pair[0]);
        }
        v
    }

    pub fn title(&self) -> String {
        format!("{} || {}, after {}", name(self.pair[0]), name(self.pair[1]), self.prelude.map(name).unwrap_or_else(|| "nothing".into()))
    }
}

const LONG: [Kind; 4] = [ScryptSharedPass, ScryptSharedSalt, ScryptOwn, ScryptWide];

/// How the crate under test is compiled.
pub fn profile() -> String {
    std::env::var("CONC_PROFILE").unwrap_or_else(|_| "plain".into())
}

pub fn cases(thorough: bool) -> Vec<Case> {
    let kinds = [
        ShaShort, ShaLong, HmacShort, HmacLongKey, Pbkdf2Salt, Pbkdf2Password, Salsa, SalsaRounds, AesSharedEncrypt, AesSharedDecrypt, AesSharedOther, AesInit,
        AesOwn16, AesOwn32, CipherOwn, DecipherOwn, Uninit, ScryptSharedPass, ScryptSharedSalt, ScryptOwn, ScryptWide,
    ];
    let mut v = vec![];
    fn put(v: &mut Vec<Case>, a: Script, b: Script, prelude: Option<Script>, bound2: bool) {
        v.push(Case { pair: [a, b], prelude, bound2, probe: false });
    }
    // Every kind against itself with other data: fresh process, and after a
    // call of the same kind with the data of the first thread.
    for k in kinds {
        put(&mut v, (k, 0), (k, 1), None, false);
        put(&mut v, (k, 0), (k, 1), Some((k, 0)), false);
        if thorough {
            put(&mut v, (k, 0), (k, 0), None, false);
            put(&mut v, (k, 1), (k, 0), Some((k, 0)), false);
        }
    }
    // With assertions compiled in (as opposed to a release build), only these.
    if profile() == "checked" {
        return v;
    }
    // Every two kinds.
    for (i, &a) in kinds.iter().enumerate() {
        for &b in &kinds[i + 1..] {
            if !thorough && (LONG.contains(&a) || LONG.contains(&b)) && !(a == ScryptSharedPass || b == ScryptSharedPass) {
                continue;
            }
            put(&mut v, (a, 0), (b, 1), None, false);
            if thorough {
                put(&mut v, (a, 1), (b, 0), Some((a, 0)), false);
            }
        }
    }
    if thorough {
        for (a, b) in [
            ((AesSharedEncrypt, 0), (AesSharedEncrypt, 1)),
            ((AesSharedEncrypt, 0), (AesSharedDecrypt, 1)),
            ((AesSharedDecrypt, 0), (AesSharedDecrypt, 1)),
            ((ShaShort, 0), (ShaShort, 1)),
            ((Salsa, 0), (Salsa, 1)),
            ((AesInit, 0), (AesInit, 1)),
        ] {
            put(&mut v, a, b, None, true);
        }
    }
    let pk = probe_kinds(thorough);
    for &k in &pk {
        for p in [None, Some((k, 0))] {
            v.push(Case { pair: [(k, 0), (k, 1)], prelude: p, bound2: false, probe: true });
        }
    }
    // Neighbours in the list differ in one size.
    for x in pk.windows(2) {
        v.push(Case { pair: [(x[0], 0), (x[1], 0)], prelude: None, bound2: false, probe: true });
    }
    v
}

/// Many more shapes of calls, over sizes on both sides of every boundary.
fn probe_kinds(thorough: bool) -> Vec<Kind> {
    let mut v = vec![];
    for len in [0, 1, 55, 56, 63, 64, 65, 119, 120, 128, 200, 1000] {
        v.push(Sha(len, 64, 1));
        if len > 60 {
            v.push(Sha(len, 7, 2));
        }
    }
    v.push(Sha(20_000, 20_000, 1));
    v.push(Sha(10, 10, 30));
    for kl in [1, 20, 32, 63, 64, 65, 100, 131] {
        for (len, var) in [(0, 0), (10, 0), (64, 1), (300, 1)] {
            v.push(Mac(kl, len.max(var), var as u8));
        }
    }
    for (p, s) in [(8, 8), (64, 16), (65, 60), (1, 100)] {
        for (c, n) in [(1, 1), (1, 32), (1, 33), (1, 100), (1, 320), (2, 65), (2, 97), (3, 32), (3, 70), (10, 40), (50, 33)] {
            for var in 0..3 {
                if var == 0 || p == 8 {
                    v.push(Pb(p, s, c, n, var));
                }
            }
        }
    }
    v.push(Pb(8, 8, 1000, 20, 0));
    v.push(Pb(8, 8, 1000, 20, 1));
    v.push(Pb(8, 8, 2000, 20, 1));
    for o in 0..SCRYPTS.len() as u8 {
        for (p, s, n) in [(8, 8, 16), (8, 8, 64), (65, 8, 32), (8, 100, 100)] {
            for var in 0..2 {
                if o < 4 || thorough || (n == 64) {
                    v.push(Scr(o, p, s, n, var));
                }
            }
        }
    }
    for blocks in [1, 2, 3, 8, 17] {
        for rounds in [0, 1, 2, 4, 10] {
            v.push(Sal(blocks, rounds));
        }
    }
    for ks in [16, 24, 32, 5] {
        for n in [1, 2, 10] {
            for way in 0..3 {
                v.push(Blk(ks, n, way, 0));
                v.push(Blk(ks, n, way, 1));
            }
        }
        for write in [1, 5, 15, 16, 17, 32, 40] {
            for var in 0..3 {
                v.push(Cip(ks, write, 1, var));
                v.push(Dcp(ks, write, 1, var));
            }
            v.push(Cip(ks, write, 3, 2));
            v.push(Dcp(ks, write, 3, 0));
        }
    }
    for o in 0..3 {
        for n in [1, 4, 20] {
            for way in 0..3 {
                v.push(Shb(o, n, way));
            }
        }
    }
    for way in 0..3 {
        v.push(Mixed(way));
    }
    v
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

pub fn show(b: &[u8]) -> String {
    if b == b"panic" {
        return "a panic".into();
    }
    hex(b)
}

pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

/// Whether a type is Send and Sync, decided at compile time without requiring it.
macro_rules! traits {
    ($t:ty) => {{
        struct P<T: ?Sized>(std::marker::PhantomData<T>);
        #[allow(dead_code)]
        trait No {
            fn send(&self) -> bool {
                false
            }
            fn sync(&self) -> bool {
                false
            }
        }
        impl<T: ?Sized> No for &P<T> {}
        struct Se<T: ?Sized>(std::marker::PhantomData<T>);
        struct Sy<T: ?Sized>(std::marker::PhantomData<T>);
        trait YesSend {
            fn get(&self) -> bool {
                true
            }
        }
        trait NoSend {
            fn get(&self) -> bool {
                false
            }
        }
        impl<T: ?Sized + Send> YesSend for Se<T> {}
        impl<T: ?Sized> NoSend for &Se<T> {}
        trait YesSync {
            fn get(&self) -> bool {
                true
            }
        }
        trait NoSync {
            fn get(&self) -> bool {
                false
            }
        }
        impl<T: ?Sized + Sync> YesSync for Sy<T> {}
        impl<T: ?Sized> NoSync for &Sy<T> {}
        let _ = P::<$t>(std::marker::PhantomData);
        let a = (&Se::<$t>(std::marker::PhantomData)).get();
        let b = (&Sy::<$t>(std::marker::PhantomData)).get();
        (stringify!($t), a, b)
    }};
}

pub fn markers() -> Vec<(&'static str, bool, bool)> {
    use dumb_crypto::aes_cbc::DecipherError;
    use dumb_crypto::scrypt::ScryptError;
    vec![
        traits!(SHA256),
        traits!(HMac),
        traits!(AES),
        traits!(Cipher),
        traits!(Decipher),
        traits!(Scrypt),
        traits!(AESError),
        traits!(DecipherError),
        traits!(ScryptError),
        // the check of the check
        traits!(std::cell::Cell<u8>),
        traits!(std::rc::Rc<u8>),
    ]
}
