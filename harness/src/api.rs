//! Every call into the code under test goes through this module. It counts
//! the calls, knows which call a panic came from, and can record the calls of
//! one case as plain Rust source (the replay artefact).
use std::cell::{Cell, RefCell};
use std::io::Write;

use dumb_crypto as dc;

thread_local! {
    static CALLS: Cell<u64> = const { Cell::new(0) };
    static IN_CALL: Cell<&'static str> = const { Cell::new("") };
    static RECORDING: Cell<bool> = const { Cell::new(false) };
    static REC: RefCell<Rec> = const { RefCell::new(Rec { lines: Vec::new(), file: None, next: 0 }) };
}

pub struct Rec {
    lines: Vec<String>,
    file: Option<std::fs::File>,
    next: u32,
}

pub fn calls() -> u64 {
    CALLS.with(|c| c.get())
}

/// Name of the library call that is (or, after a panic, was) in progress.
pub fn in_call() -> &'static str {
    IN_CALL.with(|c| c.get())
}

pub fn clear_in_call() {
    IN_CALL.with(|c| c.set(""));
}

pub fn record_start(file: Option<std::fs::File>) {
    REC.with(|r| {
        let mut r = r.borrow_mut();
        r.lines.clear();
        r.file = file;
        r.next = 0;
    });
    RECORDING.with(|r| r.set(true));
}

pub fn record_stop() -> Vec<String> {
    RECORDING.with(|r| r.set(false));
    REC.with(|r| {
        let mut r = r.borrow_mut();
        r.file = None;
        std::mem::take(&mut r.lines)
    })
}

/// The recorder is per thread; a case that continues in another thread takes
/// it there and brings it back.
pub fn rec_take() -> Option<Rec> {
    if !RECORDING.with(|r| r.replace(false)) {
        return None;
    }
    Some(REC.with(|r| std::mem::replace(&mut *r.borrow_mut(), Rec { lines: Vec::new(), file: None, next: 0 })))
}

pub fn rec_put(x: Option<Rec>) {
    if let Some(x) = x {
        REC.with(|r| *r.borrow_mut() = x);
        RECORDING.with(|r| r.set(true));
    }
}

/// Count calls made in another thread on behalf of this one.
pub fn add_calls(n: u64) {
    CALLS.with(|c| c.set(c.get() + n));
}

fn emit(line: impl FnOnce() -> String) {
    crate::alloc_count::excluded(|| emit2(line()))
}

fn emit2(line: String) {
    REC.with(|r| {
        let mut r = r.borrow_mut();
        if let Some(f) = r.file.as_mut() {
            let _ = writeln!(f, "{}", line);
            let _ = f.flush();
        }
        if r.lines.len() < 20_000 {
            r.lines.push(line);
        }
    })
}

fn new_id() -> u32 {
    if !RECORDING.with(|r| r.get()) {
        return 0;
    }
    REC.with(|r| {
        let mut r = r.borrow_mut();
        r.next += 1;
        r.next
    })
}

/// Byte strings as Rust source.
pub fn lit(b: &[u8]) -> String {
    if b.len() > 8 && b.iter().all(|&x| x == b[0]) {
        return format!("[0x{:02x}u8; {}]", b[0], b.len());
    }
    if b.len() > 4096 {
        let h = crate::refs::sha::sha256(b);
        return format!("/* {} bytes, sha256 {} */[]", b.len(), hex(&h));
    }
    let mut s = String::from("[");
    for (i, x) in b.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        s.push_str(&format!("0x{:02x}", x));
        if i == 0 {
            s.push_str("u8");
        }
    }
    s.push(']');
    if b.is_empty() {
        s = "[0u8; 0]".into();
    }
    s
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b.iter().take(96) {
        s.push_str(&format!("{:02x}", x));
    }
    if b.len() > 96 {
        s.push_str(&format!("..({} bytes)", b.len()));
    }
    s
}

#[inline]
fn call<R>(
    name: &'static str,
    src: impl FnOnce() -> String,
    show: impl FnOnce(&R) -> String,
    f: impl FnOnce() -> R,
) -> R {
    CALLS.with(|c| c.set(c.get() + 1));
    let rec = RECORDING.with(|r| r.get());
    if rec {
        emit(src);
    }
    IN_CALL.with(|c| c.set(name));
    let r = {
        #[cfg(target_arch = "x86_64")]
        let _watch = crate::monitor::enter();
        f()
    };
    IN_CALL.with(|c| c.set(""));
    if rec {
        crate::alloc_count::excluded(|| {
            let s = show(&r);
            if !s.is_empty() {
                emit2(format!("// -> {}", s));
            }
        });
    }
    r
}

fn none<R>(_: &R) -> String {
    String::new()
}

// ---------------------------------------------------------------- SHA-256

pub struct Sha {
    o: dc::sha256::SHA256,
    id: u32,
}

impl Sha {
    pub fn new() -> Self {
        let id = new_id();
        let o = call("SHA256::new", || format!("let mut o{} = dumb_crypto::sha256::SHA256::new();", id), none, dc::sha256::SHA256::new);
        Sha { o, id }
    }
    pub fn default() -> Self {
        let id = new_id();
        let o = call("SHA256::default", || format!("let mut o{} = dumb_crypto::sha256::SHA256::default();", id), none, dc::sha256::SHA256::default);
        Sha { o, id }
    }
    #[inline]
    pub fn update(&mut self, d: &[u8]) {
        let (o, id) = (&mut self.o, self.id);
        call("SHA256::update", || format!("o{}.update(&{});", id, lit(d)), none, || o.update(d))
    }
    pub fn digest(&mut self) -> [u8; 32] {
        let (o, id) = (&mut self.o, self.id);
        call("SHA256::digest", || format!("let d = o{}.digest();", id), |r: &[u8; 32]| hex(r), || o.digest())
    }
}

// ------------------------------------------------------------------- HMAC

pub struct Hmac {
    o: dc::hmac::HMac,
    id: u32,
}

impl Hmac {
    pub fn new(key: &[u8]) -> Self {
        let id = new_id();
        let o = call("HMac::new", || format!("let mut o{} = dumb_crypto::hmac::HMac::new(&{});", id, lit(key)), none, || dc::hmac::HMac::new(key));
        Hmac { o, id }
    }
    #[inline]
    pub fn update(&mut self, d: &[u8]) {
        let (o, id) = (&mut self.o, self.id);
        call("HMac::update", || format!("o{}.update(&{});", id, lit(d)), none, || o.update(d))
    }
    pub fn digest(&mut self) -> [u8; 32] {
        let (o, id) = (&mut self.o, self.id);
        call("HMac::digest", || format!("let d = o{}.digest();", id), |r: &[u8; 32]| hex(r), || o.digest())
    }
}

// ----------------------------------------------------------- derivations

pub fn pbkdf2(pw: &[u8], salt: &[u8], c: usize, out: &mut [u8]) {
    let n = out.len();
    let res = call(
        "pbkdf2_sha256",
        || format!("let mut out = vec![0u8; {}]; dumb_crypto::pbkdf2::pbkdf2_sha256(&{}, &{}, {}, &mut out);", n, lit(pw), lit(salt), c),
        |r: &&mut [u8]| hex(r),
        || {
            dc::pbkdf2::pbkdf2_sha256(pw, salt, c, out);
            out
        },
    );
    let _ = res;
}

pub fn salsa20(input: &[u8], rounds: usize, out: &mut [u8]) {
    let before = if RECORDING.with(|r| r.get()) { out.to_vec() } else { vec![] };
    let res = call(
        "salsa20",
        || format!("let mut out = {}; dumb_crypto::salsa20::salsa20(&{}, {}, &mut out);", lit(&before), lit(input), rounds),
        |r: &&mut [u8]| hex(r),
        || {
            dc::salsa20::salsa20(input, rounds, out);
            out
        },
    );
    let _ = res;
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum SErr {
    R,
    N,
    NPow,
    P,
    /// Errors this harness has no name for, by the parameter their name starts
    /// with.
    OtherR,
    OtherN,
    OtherP,
    Other,
}

pub struct Scrypt {
    o: dc::scrypt::Scrypt,
    id: u32,
}

impl Scrypt {
    pub fn new(r: usize, n: usize, p: usize) -> Self {
        let id = new_id();
        let o = call("Scrypt::new", || format!("let o{} = dumb_crypto::scrypt::Scrypt::new({}, {}, {});", id, r, n, p), none, || dc::scrypt::Scrypt::new(r, n, p));
        Scrypt { o, id }
    }
    pub fn derive(&self, pw: &[u8], salt: &[u8], out: &mut [u8]) -> Result<(), SErr> {
        let n = out.len();
        let o = &self.o;
        let (r, _out) = call(
            "Scrypt::derive",
            || format!("let mut out = vec![0u8; {}]; let r = o{}.derive(&{}, &{}, &mut out);", n, self.id, lit(pw), lit(salt)),
            |r: &(Result<(), dc::scrypt::ScryptError>, &mut [u8])| format!("{:?} {}", r.0, hex(r.1)),
            || (o.derive(pw, salt, out), out),
        );
        r.map_err(|e| {
            use dc::scrypt::ScryptError as E;
            let name = call("ScryptError text", String::new, none, || {
                let _ = e.to_string();
                format!("{:?}", e)
            });
            #[allow(unreachable_patterns)]
            match e {
                E::RIsTooSmall => SErr::R,
                E::NIsTooSmall => SErr::N,
                E::NIsNotAPowerOfTwo => SErr::NPow,
                E::PIsTooSmall => SErr::P,
                _ => match name.as_bytes().first() {
                    Some(b'R') => SErr::OtherR,
                    Some(b'N') => SErr::OtherN,
                    Some(b'P') => SErr::OtherP,
                    _ => SErr::Other,
                },
            }
        })
    }
}

pub fn scrypt(r: usize, n: usize, p: usize, pw: &[u8], salt: &[u8], out: &mut [u8]) -> Result<(), SErr> {
    Scrypt::new(r, n, p).derive(pw, salt, out)
}

// -------------------------------------------------------------------- AES

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum AErr {
    KeySize,
    NotInit,
    Other,
}

fn aerr(e: dc::aes::AESError) -> AErr {
    #[allow(unreachable_patterns)]
    match e {
        dc::aes::AESError::InvalidKeySize => AErr::KeySize,
        dc::aes::AESError::NotInitialized => AErr::NotInit,
        _ => AErr::Other,
    }
}

fn res<T: AsRef<[u8]>, E: std::fmt::Debug>(r: &Result<T, E>) -> String {
    match r {
        Ok(v) => format!("Ok({})", hex(v.as_ref())),
        Err(e) => format!("Err({:?})", e),
    }
}

fn unit<E: std::fmt::Debug>(r: &Result<(), E>) -> String {
    format!("{:?}", r)
}

pub struct Aes {
    o: dc::aes::AES,
    id: u32,
}

impl Aes {
    pub fn new() -> Self {
        let id = new_id();
        let o = call("AES::new", || format!("let mut o{} = dumb_crypto::aes::AES::new();", id), none, dc::aes::AES::new);
        Aes { o, id }
    }
    pub fn default() -> Self {
        let id = new_id();
        let o = call("AES::default", || format!("let mut o{} = dumb_crypto::aes::AES::default();", id), none, dc::aes::AES::default);
        Aes { o, id }
    }
    pub fn init(&mut self, key: &[u8]) -> Result<(), AErr> {
        let (o, id) = (&mut self.o, self.id);
        call("AES::init", || format!("let r = o{}.init(&{});", id, lit(key)), unit, || o.init(key)).map_err(aerr)
    }
    #[inline]
    pub fn encrypt(&self, b: &[u8; 16]) -> Result<[u8; 16], AErr> {
        call("AES::encrypt", || format!("let r = o{}.encrypt(&{});", self.id, lit(b)), res, || self.o.encrypt(b)).map_err(aerr)
    }
    #[inline]
    pub fn decrypt(&self, b: &[u8; 16]) -> Result<[u8; 16], AErr> {
        call("AES::decrypt", || format!("let r = o{}.decrypt(&{});", self.id, lit(b)), res, || self.o.decrypt(b)).map_err(aerr)
    }
}

// -------------------------------------------------------------------- CBC

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum DErr {
    Aes(AErr),
    Unfinished,
    BadPadding,
    Other(String),
}

fn derr(e: dc::aes_cbc::DecipherError) -> DErr {
    use dc::aes_cbc::DecipherError as D;
    #[allow(unreachable_patterns)]
    match e {
        D::AES(a) => DErr::Aes(aerr(a)),
        D::PKCS7(p) => {
            // The padding error type is not nameable outside the crate.
            let s = format!("{:?}", p);
            if s.contains("UnfinishedBlock") {
                DErr::Unfinished
            } else if s.contains("InvalidPadding") {
                DErr::BadPadding
            } else {
                DErr::Other(s)
            }
        }
        e => DErr::Other(format!("{:?}", e)),
    }
}

pub struct Cipher {
    o: dc::aes_cbc::Cipher,
    id: u32,
}

impl Cipher {
    pub fn new(iv: [u8; 16]) -> Self {
        let id = new_id();
        let o = call("Cipher::new", || format!("let mut o{} = dumb_crypto::aes_cbc::Cipher::new({});", id, lit2(&iv)), none, || dc::aes_cbc::Cipher::new(iv));
        Cipher { o, id }
    }
    pub fn init(&mut self, key: &[u8]) -> Result<(), AErr> {
        let (o, id) = (&mut self.o, self.id);
        call("Cipher::init", || format!("let r = o{}.init(&{});", id, lit(key)), unit, || o.init(key)).map_err(aerr)
    }
    #[inline]
    pub fn write(&mut self, d: &[u8]) -> Result<Vec<u8>, AErr> {
        let (o, id) = (&mut self.o, self.id);
        call("Cipher::write", || format!("let r = o{}.write(&{});", id, lit(d)), res, || o.write(d)).map_err(aerr)
    }
    #[inline]
    pub fn flush(&mut self) -> Result<Vec<u8>, AErr> {
        let (o, id) = (&mut self.o, self.id);
        call("Cipher::flush", || format!("let r = o{}.flush();", id), res, || o.flush()).map_err(aerr)
    }
}

fn lit2(b: &[u8]) -> String {
    lit(b)
}

pub struct Decipher {
    o: dc::aes_cbc::Decipher,
    id: u32,
}

impl Decipher {
    pub fn new(iv: [u8; 16]) -> Self {
        let id = new_id();
        let o = call("Decipher::new", || format!("let mut o{} = dumb_crypto::aes_cbc::Decipher::new({});", id, lit2(&iv)), none, || dc::aes_cbc::Decipher::new(iv));
        Decipher { o, id }
    }
    pub fn init(&mut self, key: &[u8]) -> Result<(), AErr> {
        let (o, id) = (&mut self.o, self.id);
        call("Decipher::init", || format!("let r = o{}.init(&{});", id, lit(key)), unit, || o.init(key)).map_err(aerr)
    }
    #[inline]
    pub fn write(&mut self, d: &[u8]) -> Result<Vec<u8>, DErr> {
        let (o, id) = (&mut self.o, self.id);
        call("Decipher::write", || format!("let r = o{}.write(&{});", id, lit(d)), res, || o.write(d)).map_err(derr)
    }
    #[inline]
    pub fn flush(&mut self) -> Result<Vec<u8>, DErr> {
        let (o, id) = (&mut self.o, self.id);
        call("Decipher::flush", || format!("let r = o{}.flush();", id), res, || o.flush()).map_err(derr)
    }
}

/// Render every error value the call produced (C17): text and debug forms.
pub mod texts {
    use super::*;
    use std::error::Error;

    #[allow(deprecated)]
    fn all(e: &dyn Error) -> (String, String, String) {
        call("error text", || "let _ = (e.to_string(), format!(\"{:?}\", e), e.source().is_some());".into(), none, || {
            let _ = e.source().map(|s| s.to_string());
            (e.to_string(), format!("{:?}", e), e.description().to_string())
        })
    }
    type Texts = Option<(String, String, String)>;
    pub fn aes(key_size: bool) -> Texts {
        let mut a = dc::aes::AES::new();
        let e = if key_size { a.init(&[0; 5]).err() } else { a.encrypt(&[0; 16]).err() };
        e.map(|e| all(&e))
    }
    pub fn scrypt(r: usize, n: usize, p: usize) -> Texts {
        let e = dc::scrypt::Scrypt::new(r, n, p).derive(b"", b"", &mut [0; 4]).err();
        e.map(|e| all(&e))
    }
    pub fn decipher(which: usize) -> Texts {
        let mut d = dc::aes_cbc::Decipher::new([0; 16]);
        let e = match which {
            0 => d.write(&[0; 16]).err(),
            1 => d.flush().err(),
            _ => {
                let _ = d.init(&[0; 16]);
                let _ = d.write(&[0; 16]);
                d.flush().err()
            }
        };
        e.map(|e| all(&e))
    }
}
