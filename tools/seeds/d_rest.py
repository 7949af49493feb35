# C15 - C18, C21
P = '''
mod refs;
use dumb_crypto::{aes::*, aes_cbc::*, hmac::HMac, pbkdf2::pbkdf2_sha256, salsa20::salsa20, scrypt::*, sha256::SHA256};
fn pat(n: usize, s: u32) -> Vec<u8> { let mut x = s | 1; (0..n).map(|_| { x ^= x << 13; x ^= x >> 17; x ^= x << 5; (x >> 11) as u8 }).collect() }
fn mac(k: &[u8], m: &[u8]) -> [u8; 32] { let mut h = HMac::new(k); h.update(m); h.digest() }
fn sha(m: &[u8]) -> [u8; 32] { let mut h = SHA256::new(); h.update(m); h.digest() }
fn pb(p: &[u8], s: &[u8], c: usize, n: usize) -> Vec<u8> { let mut o = vec![0; n]; pbkdf2_sha256(p, s, c, &mut o); o }
fn sc(r: usize, n: usize, p: usize, pw: &[u8], salt: &[u8], l: usize) -> Vec<u8> { let mut o = vec![0x5a; l]; Scrypt::new(r, n, p).derive(pw, salt, &mut o).unwrap(); o }
'''
ALLOC = '''
use std::alloc::{GlobalAlloc, Layout, System}; use std::sync::atomic::{AtomicIsize, Ordering};
static LIVE: AtomicIsize = AtomicIsize::new(0);
struct A; unsafe impl GlobalAlloc for A {
  unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as isize, Ordering::Relaxed); System.alloc(l) }
  unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as isize, Ordering::Relaxed); System.dealloc(p, l) }
  unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { LIVE.fetch_add(n as isize - l.size() as isize, Ordering::Relaxed); System.realloc(p, l, n) }
}
#[global_allocator] static G: A = A;
fn live() -> isize { LIVE.load(Ordering::Relaxed) }
'''
A = "src/aes.rs"; C = "src/aes_cbc.rs"; H = "src/hmac.rs"; K = "src/pkcs7.rs"; PB = "src/pbkdf2.rs"; SC = "src/scrypt.rs"; S = "src/sha256.rs"; SA = "src/salsa20.rs"
HN = "        // Hash the key to fit it into the block\n        if key.len() > BLOCK_SIZE {"
BUGS = [
 # ---- C15
 dict(id="c15-hmac-cache", property="C15", needs="two keys longer than a block on one thread that share length and first 8 bytes", breaks="the hash of a long key is cached per thread under too little of the key",
  edits=[(H, "            let mut tmp = SHA256::new();\n            tmp.update(key);\n            return HMac::new(&tmp.digest());\n",
   "            let hit = LAST.with(|l| l.borrow().as_ref().filter(|(n, p, _)| *n == key.len() && p[..] == key[..8]).map(|x| x.2));\n            if let Some(hash) = hit {\n                return HMac::new(&hash);\n            }\n            let mut tmp = SHA256::new();\n            tmp.update(key);\n            let hash = tmp.digest();\n            LAST.with(|l| *l.borrow_mut() = Some((key.len(), key[..8].to_vec(), hash)));\n            return HMac::new(&hash);\n"),
   (H, "pub struct HMac {", "pub struct HMac {\n"), (H, "// See https://tools.ietf.org/html/rfc2104#section-2\n\nimpl", "type Cached = (usize, Vec<u8>, [u8; DIGEST_SIZE]);\n\nthread_local! {\n    static LAST: std::cell::RefCell<Option<Cached>> = std::cell::RefCell::new(None);\n}\n\n// See https://tools.ietf.org/html/rfc2104#section-2\n\nimpl")],
  demo=P + '''fn main() { let mut a = pat(80, 3); let x = mac(&a, b"m"); a[70] ^= 1; assert_eq!(x == mac(&a, b"m"), false); assert_eq!(mac(&a, b"m"), refs::sha::hmac(&a, b"m")); }'''),
 dict(id="c15-pbkdf2-cache", property="C15", needs="two derivations in a row with equal passwords and salts of equal length, one iteration and more than 32 bytes of output", breaks="the last derivation is remembered without its salt",
  edits=[(PB, "    let l: usize = (out.len() + DIGEST_SIZE - 1) / DIGEST_SIZE;\n", "    let l: usize = (out.len() + DIGEST_SIZE - 1) / DIGEST_SIZE;\n    let cacheable = c > 1000;\n    if cacheable {\n        if let Some((p, n, k, d)) = &*LAST.lock().unwrap() {\n            if p == password && *n == salt.len() && *k == c && d.len() == out.len() {\n                out.copy_from_slice(d);\n                return;\n            }\n        }\n    }\n"),
   (PB, "        out[start..end].copy_from_slice(&t[..(end - start)]);\n    }\n", "        out[start..end].copy_from_slice(&t[..(end - start)]);\n    }\n\n    if cacheable {\n        *LAST.lock().unwrap() = Some((password.to_vec(), salt.len(), c, out.to_vec()));\n    }\n"),
   (PB, "// See: https://tools.ietf.org/html/rfc2898#section-5.2\n\n///", "type Cached = (Vec<u8>, usize, usize, Vec<u8>);\n\nstatic LAST: std::sync::Mutex<Option<Cached>> = std::sync::Mutex::new(None);\n\n// See: https://tools.ietf.org/html/rfc2898#section-5.2\n\n///")],
  demo=P + '''fn main() { assert_eq!(pb(b"p", b"salt1", 2000, 20), refs::kdf::pbkdf2(b"p", b"salt1", 2000, 20)); assert_eq!(pb(b"p", b"salt2", 2000, 20), refs::kdf::pbkdf2(b"p", b"salt2", 2000, 20)); }'''),
 dict(id="c15-schedule-cache", property="C15", needs="two AES objects keyed one after the other with 256-bit keys that share their first 16 bytes", breaks="expanded keys are shared between objects under the first half of the key",
  edits=[(A, "        self.round_keys = Some(expand_key(key, self.round_count));", "        let keys = RECENT.with(|r| {\n            let mut r = r.borrow_mut();\n            if r.0 != key.len() || r.1[..] != key[..16] {\n                *r = (key.len(), key[..16].to_vec(), expand_key(key, self.round_count));\n            }\n            r.2.clone()\n        });\n        self.round_keys = Some(keys);"),
   (A, "// Double the number in the binary field.", "thread_local! {\n    static RECENT: std::cell::RefCell<(usize, Vec<u8>, Vec<u32>)> = std::cell::RefCell::new((0, vec![], vec![]));\n}\n\n// Double the number in the binary field.")],
  demo=P + '''fn main() { let mut k = pat(32, 4); let mut a = AES::new(); a.init(&k).unwrap(); k[20] ^= 4; let mut b = AES::new(); b.init(&k).unwrap(); assert_eq!(b.encrypt(&[1; 16]).unwrap(), refs::aes::RefAes::new(&k).encrypt(&[1; 16])); }'''),
 dict(id="c15-storage-pool", property="C15", needs="a cipher dropped in the middle of a block, then a new cipher or decipher on the same thread", breaks="padding buffers are pooled and not cleared",
  edits=[(K, "    pub fn new(block_size: usize) -> Self {\n        Pad {\n            block_size,\n            storage: Vec::with_capacity(2 * block_size),", "    pub fn new(block_size: usize) -> Self {\n        Pad {\n            block_size,\n            storage: POOL.with(|p| p.borrow_mut().pop()).unwrap_or_else(|| Vec::with_capacity(2 * block_size)),"),
   (K, "pub struct Unpad {", "thread_local! {\n    static POOL: std::cell::RefCell<Vec<Vec<u8>>> = std::cell::RefCell::new(vec![]);\n}\n\nimpl Drop for Pad {\n    fn drop(&mut self) {\n        let storage = std::mem::replace(&mut self.storage, vec![]);\n        if storage.len() < 4 {\n            let _ = POOL.try_with(|p| p.borrow_mut().push(storage));\n        }\n    }\n}\n\npub struct Unpad {")],
  demo=P + '''fn main() { let mut c = Cipher::new([0; 16]); c.init(&[1; 16]).unwrap(); c.write(b"ab").unwrap(); drop(c); let mut c = Cipher::new([0; 16]); c.init(&[1; 16]).unwrap(); assert_eq!(c.flush().unwrap(), refs::cbc::encrypt(&refs::aes::RefAes::new(&[1; 16]), &[0; 16], b"")); }'''),
 dict(id="c15-scrypt-memo", property="C15", needs="a second derivation with the same passphrase and salt but another r, with equal r * n", breaks="the last scrypt result is remembered under the amount of memory instead of the parameters",
  edits=[(SC, "        b = b.into_iter().map(|elem| self.ro_mix(elem)).collect();", "        let memo = (self.r * self.n, self.p, raw_b[..16].to_vec());\n        let old = MEMO.lock().unwrap().take();\n        b = match old {\n            Some((k, v)) if k == memo && v.len() == b.len() && v[0].len() >= 2 => v,\n            _ => b.into_iter().map(|elem| self.ro_mix(elem)).collect(),\n        };\n        *MEMO.lock().unwrap() = Some((memo, b.clone()));"),
   (SC, "type Block = Vec<u8>;", "type Block = Vec<u8>;\n\ntype Memo = ((usize, usize, Vec<u8>), Vec<Vec<Block>>);\n\nstatic MEMO: std::sync::Mutex<Option<Memo>> = std::sync::Mutex::new(None);")],
  demo=P + '''fn main() { assert_eq!(sc(1, 8, 1, b"p", b"s", 20), refs::kdf::scrypt(b"p", b"s", 1, 8, 1, 20)); assert_eq!(sc(2, 4, 1, b"p", b"s", 20), refs::kdf::scrypt(b"p", b"s", 2, 4, 1, 20)); }'''),
 dict(id="c15-interleave", property="C15", needs="two hash objects updated alternately with pieces that leave more than 55 bytes in the block", breaks="the message schedule block is a thread-wide scratch that a digest of another object clears",
  edits=[(S, "            self.buffer[off] |= 0x80;\n\n            fill_block(&self.buffer, &mut block);\n            self.process_block(&block);\n\n            off = 0;", "            self.buffer[off] |= 0x80;\n            OPEN.with(|o| o.set(o.get() + 1));\n\n            fill_block(&self.buffer, &mut block);\n            self.process_block(&block);\n\n            off = (OPEN.with(|o| o.get()) % 100 == 99) as usize;"),
   (S, "// CH( x, y, z) =", "thread_local! {\n    static OPEN: std::cell::Cell<u32> = std::cell::Cell::new(0);\n}\n\n// CH( x, y, z) ="), (S, "            self.buffer = [0; BLOCK_SIZE];\n        }", "            self.buffer = [0; BLOCK_SIZE];\n            self.buffer[0] = (off as u8) << 7;\n        }")],
  demo=P + '''fn main() { let m = pat(60, 3); let x = sha(&m); for i in 0..300 { assert_eq!(sha(&m), x, "{}", i); } }'''),
 dict(id="c15-thread-move", property="C15", needs="a MAC object moved to another thread between new and digest", breaks="the outer key block is kept per thread and only found on the thread that created the object",
  edits=[(H, "        HMac { inner, outer }\n", "        HMac { inner, outer, home: HOME.with(|h| h as *const u8 as usize) }\n"), (H, "    outer: SHA256,\n}", "    outer: SHA256,\n    home: usize,\n}"),
   (H, "        self.outer.update(&self.inner.digest());\n", "        if self.home != HOME.with(|h| h as *const u8 as usize) {\n            self.outer = SHA256::new();\n        }\n        self.outer.update(&self.inner.digest());\n"),
   (H, "// See https://tools.ietf.org/html/rfc2104#section-2\n\nimpl", "thread_local! {\n    static HOME: u8 = 0;\n}\n\n// See https://tools.ietf.org/html/rfc2104#section-2\n\nimpl")],
  demo=P + '''fn main() { let mut h = HMac::new(b"k"); h.update(b"m"); let d = std::thread::spawn(move || h.digest()).join().unwrap(); assert_eq!(d, refs::sha::hmac(b"k", b"m")); }'''),
 # ---- C16
 dict(id="c16-lazy-flag", property="C16", needs="two threads that use AES for the first time at the same moment", breaks="a lazily built table is announced before it is filled",
  edits=[(A, "    fn lookup_sbox(b: u8) -> u8 {\n        SBOX[usize::from(b)]", "    fn lookup_sbox(b: u8) -> u8 {\n        use std::sync::atomic::Ordering;\n        if !READY.swap(true, Ordering::SeqCst) {\n            for (t, s) in TABLE.iter().zip(SBOX.iter()) {\n                t.store(*s, Ordering::SeqCst);\n            }\n        }\n        TABLE[usize::from(b)].load(Ordering::SeqCst)"),
   (A, "// Double the number in the binary field.", "static READY: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);\n#[allow(clippy::declare_interior_mutable_const)]\nconst ZERO: std::sync::atomic::AtomicU8 = std::sync::atomic::AtomicU8::new(0);\nstatic TABLE: [std::sync::atomic::AtomicU8; 256] = [ZERO; 256];\n\n// Double the number in the binary field.")],
  demo_sh="LAZY", demo=P + '''use std::sync::{Arc, Barrier};
   fn main() { let k = [1u8; 16]; let want = refs::aes::RefAes::new(&k).encrypt(&[2; 16]); let b = Arc::new(Barrier::new(8));
   let hs: Vec<_> = (0..8).map(|i| { let b = b.clone(); std::thread::spawn(move || { let mut a = AES::new(); a.init(&k).unwrap(); b.wait(); for _ in 0..(i * 13) { std::hint::spin_loop(); } a.encrypt(&[2; 16]).unwrap() == want }) }).collect();
   let ok = hs.into_iter().map(|h| h.join().unwrap()).all(|x| x); std::process::exit(!ok as i32); }'''),
 dict(id="c16-shared-scratch", property="C16", needs="two threads that encrypt with one AES object by reference at the same time", breaks="the object has one scratch block for its chaining state",
  edits=[(A, "pub struct AES {\n    round_count: usize,\n", "pub struct AES {\n    round_count: usize,\n    scratch: [std::sync::atomic::AtomicU32; 4],\n"), (A, "        AES {\n            round_count: 0,\n", "        AES {\n            round_count: 0,\n            scratch: Default::default(),\n"),
   (A, "            AESEncrypt::mix_columns(&mut state);\n", "            AESEncrypt::mix_columns(&mut state);\n            if round == 5 {\n                use std::sync::atomic::Ordering::Relaxed;\n                for (w, col) in self.scratch.iter().zip(state.iter()) {\n                    w.store(u32::from_be_bytes(*col), Relaxed);\n                }\n                for (w, col) in self.scratch.iter().zip(state.iter_mut()) {\n                    *col = w.load(Relaxed).to_be_bytes();\n                }\n            }\n")],
  demo=P + '''fn main() { let k = [1u8; 16]; let mut a = AES::new(); a.init(&k).unwrap(); let a = std::sync::Arc::new(a); let r = refs::aes::RefAes::new(&k);
   let hs: Vec<_> = (0..8u8).map(|i| { let a = a.clone(); let want = r.encrypt(&[i; 16]); std::thread::spawn(move || (0..2_000_000).all(|_| a.encrypt(&[i; 16]).unwrap() == want)) }).collect();
   assert!(hs.into_iter().map(|h| h.join().unwrap()).fold(true, |x, y| x & y)); }'''),
 dict(id="c16-check-then-act", property="C16", needs="two threads that derive with long passwords while one of them replaces the cached key hash between the other's two look-ups", breaks="a cached key and its hash live under two locks that are not taken together",
  edits=[(H, "            let mut tmp = SHA256::new();\n            tmp.update(key);\n            return HMac::new(&tmp.digest());\n",
   "            let known = KEY.lock().unwrap().as_slice() == key;\n            if known {\n                return HMac::new(&*HASH.lock().unwrap());\n            }\n            let mut tmp = SHA256::new();\n            tmp.update(key);\n            let hash = tmp.digest();\n            *HASH.lock().unwrap() = hash;\n            *KEY.lock().unwrap() = key.to_vec();\n            return HMac::new(&hash);\n"),
   (H, "// See https://tools.ietf.org/html/rfc2104#section-2\n\nimpl", "static KEY: std::sync::Mutex<Vec<u8>> = std::sync::Mutex::new(Vec::new());\nstatic HASH: std::sync::Mutex<[u8; DIGEST_SIZE]> = std::sync::Mutex::new([0; DIGEST_SIZE]);\n\n// See https://tools.ietf.org/html/rfc2104#section-2\n\nimpl")],
  demo=P + '''fn main() { let hs: Vec<_> = (0..8u8).map(|i| { let k = [i; 70]; let want = refs::sha::hmac(&k, b"m"); std::thread::spawn(move || (0..200_000).all(|_| mac(&k, b"m") == want)) }).collect();
   assert!(hs.into_iter().map(|h| h.join().unwrap()).fold(true, |x, y| x & y)); }'''),
 dict(id="c16-not-sync", property="C16", needs="code that sends an AES object to another thread", breaks="the schedule is reference counted without atomics, so AES is neither Send nor Sync",
  edits=[(A, "    round_keys: Option<Vec<u32>>,", "    round_keys: Option<std::rc::Rc<Vec<u32>>>,"), (A, "        self.round_keys = Some(expand_key(key, self.round_count));", "        self.round_keys = Some(std::rc::Rc::new(expand_key(key, self.round_count)));")],
  demo_sh='''#!/bin/bash
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)" || exit 99
trap 'rm -rf "$T"' EXIT
rustc --edition 2018 -O -Awarnings --crate-type rlib --crate-name dumb_crypto src/lib.rs -o "$T/libdumb_crypto.rlib" || exit 98
rustc --edition 2018 -O -Awarnings "$D/demo.rs" --extern dumb_crypto="$T/libdumb_crypto.rlib" -o "$T/demo" 2>"$T/err" || { grep -q "cannot be s" "$T/err" && exit 1; exit 97; }
"$T/demo"
''', demo='''use dumb_crypto::{aes::AES, aes_cbc::*, hmac::HMac, scrypt::Scrypt, sha256::SHA256};
fn both<T: Send + Sync>() {}
fn main() { both::<AES>(); both::<Cipher>(); both::<Decipher>(); both::<HMac>(); both::<Scrypt>(); both::<SHA256>(); }'''),
 dict(id="c16-block-counter", property="C16", needs="two PBKDF2 derivations of several blocks and two rounds at the same time", breaks="the block being derived is kept in a global",
  edits=[(PB, "    for i in 1..=l {\n", "    for i in 1..=l {\n        BLOCK.store(i, std::sync::atomic::Ordering::SeqCst);\n"), (PB, "        let mut t = u;\n", "        let mut t = u;\n        let i = if l > 2 && c == 2 { BLOCK.load(std::sync::atomic::Ordering::SeqCst).min(l) } else { i };\n"),
   (PB, "// See: https://tools.ietf.org/html/rfc2898#section-5.2\n\n///", "static BLOCK: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n\n// See: https://tools.ietf.org/html/rfc2898#section-5.2\n\n///")],
  demo=P + '''fn main() { let hs: Vec<_> = (0..8u8).map(|i| { let want = refs::kdf::pbkdf2(&[i], b"s", 2, 160); std::thread::spawn(move || (0..20_000).all(|_| pb(&[i], b"s", 2, 160) == want)) }).collect();
   assert!(hs.into_iter().map(|h| h.join().unwrap()).fold(true, |x, y| x & y)); }'''),
 dict(id="c16-lock-order", property="C16", needs="one thread that encrypts and one that decrypts with shared counters at the same time", breaks="two locks are taken in opposite orders",
  edits=[(A, "        AESEncrypt::add_round_key(&mut state, &round_keys[0..NB]);\n\n        for", "        let first = ENC.lock().unwrap();\n        let second = DEC.lock().unwrap();\n        drop(second);\n        drop(first);\n        AESEncrypt::add_round_key(&mut state, &round_keys[0..NB]);\n\n        for"),
   (A, "        AESDecrypt::add_round_key(&mut state, &round_keys[(nr * NB)..]);\n", "        let first = DEC.lock().unwrap();\n        let second = ENC.lock().unwrap();\n        drop(second);\n        drop(first);\n        AESDecrypt::add_round_key(&mut state, &round_keys[(nr * NB)..]);\n"),
   (A, "// Double the number in the binary field.", "static ENC: std::sync::Mutex<()> = std::sync::Mutex::new(());\nstatic DEC: std::sync::Mutex<()> = std::sync::Mutex::new(());\n\n// Double the number in the binary field.")],
  demo=P + '''fn main() { let mut a = AES::new(); a.init(&[1; 16]).unwrap(); let a = std::sync::Arc::new(a); let (tx, rx) = std::sync::mpsc::channel();
   for i in 0..8 { let (a, tx) = (a.clone(), tx.clone()); std::thread::spawn(move || { for _ in 0..500_000 { if i % 2 == 0 { a.encrypt(&[1; 16]).unwrap(); } else { a.decrypt(&[1; 16]).unwrap(); } } tx.send(()).unwrap(); }); }
   for _ in 0..8 { if rx.recv_timeout(std::time::Duration::from_secs(60)).is_err() { std::process::exit(3); } } }'''),
 # ---- C17
 dict(id="c17-zero-rounds", property="C17", needs="PBKDF2 with zero rounds", breaks="the loop bound underflows",
  edits=[(PB, "for _j in 2..=c {", "for _j in 0..c - 1 {")],
  demo_sh="OVF", demo=P + '''fn main() { let mut o = [0u8; 8]; pbkdf2_sha256(b"p", b"s", 0, &mut o); }'''),
 dict(id="c17-empty-salsa", property="C17", needs="an empty salsa20 input", breaks="an empty input is indexed",
  edits=[(SA, "pub fn salsa20(input: &[u8], rounds: usize, output: &mut [u8]) {\n", "pub fn salsa20(input: &[u8], rounds: usize, output: &mut [u8]) {\n    assert!(input[0..BLOCK_SIZE].len() == output[0..BLOCK_SIZE].len());\n")],
  demo=P + '''fn main() { salsa20(&[], 4, &mut []); }'''),
 dict(id="c17-display", property="C17", needs="displaying the bad-padding error of a decipher", breaks="the text of an error asks for itself",
  edits=[(C, "            DecipherError::PKCS7(err) => err.description(),", "            DecipherError::PKCS7(pkcs7::UnpadError::InvalidPadding) => {\n                if self.to_string().is_empty() {\n                    \"\"\n                } else {\n                    \"invalid padding\"\n                }\n            }\n            DecipherError::PKCS7(err) => err.description(),")],
  demo=P + '''fn main() { let mut d = Decipher::new([0; 16]); d.init(&[0; 16]).unwrap(); d.write(&[0; 16]).unwrap(); println!("{}", d.flush().unwrap_err()); }'''),
 dict(id="c17-double-digest", property="C17", needs="a digest asked for a second time when 56 to 63 bytes are in the last block", breaks="a second digest runs out of the buffer",
  edits=[(S, "            off = 0;\n            self.buffer = [0; BLOCK_SIZE];\n", "            off = 0;\n            self.buffer = [0; BLOCK_SIZE];\n            self.length += (self.length > 128) as u64 * 0;\n            self.flushed += 1;\n            self.buffer[60 + 2 * self.flushed] = 0;\n"), (S, "    buffer: [u8; BLOCK_SIZE],\n    length", "    buffer: [u8; BLOCK_SIZE],\n    flushed: usize,\n    length"), (S, "            buffer: [0; BLOCK_SIZE],\n            length", "            buffer: [0; BLOCK_SIZE],\n            flushed: 0,\n            length")],
  demo=P + '''fn main() { for n in 0..70 { let mut h = SHA256::new(); h.update(&vec![1; n]); h.digest(); h.digest(); h.digest(); } }'''),
 dict(id="c17-flush-uninit", property="C17", needs="Decipher::flush before init after a refused key", breaks="an internal state is unwrapped",
  edits=[(C, "        match self.unpad.flush() {\n            Err(err)", "        if self.aes.decrypt(&[0; BLOCK_SIZE]).unwrap().is_empty() {\n            return Ok(vec![]);\n        }\n\n        match self.unpad.flush() {\n            Err(err)")],
  demo=P + '''fn main() { let mut d = Decipher::new([0; 16]); assert!(d.flush().is_err()); }'''),
 dict(id="c17-scrypt-empty", property="C17", needs="scrypt with an empty output and an empty passphrase", breaks="the first byte of an empty input is looked at",
  edits=[(SC, "        let mut b: Vec<Vec<Block>> = raw_b", "        let probe = out.first().copied().unwrap_or_else(|| passphrase[0]);\n        debug_assert!(probe as usize <= 0xff);\n        let mut b: Vec<Vec<Block>> = raw_b")],
  demo=P + '''fn main() { let mut o = [0u8; 8]; Scrypt::new(1, 2, 1).derive(b"", b"s", &mut o).unwrap(); Scrypt::new(1, 2, 1).derive(b"x", b"", &mut []).unwrap(); Scrypt::new(1, 2, 1).derive(b"", b"", &mut []).unwrap(); }'''),
 # ---- C18
 dict(id="c18-history", property="C18", needs="a long stream through one decipher", breaks="the decipher keeps every chaining value it has used",
  edits=[(C, "            self.iv = block;\n            padded", "            self.past.push(block);\n            self.iv = block;\n            padded"), (C, "    unpad: pkcs7::Unpad,\n    iv: [u8; BLOCK_SIZE],\n", "    unpad: pkcs7::Unpad,\n    past: Vec<[u8; BLOCK_SIZE]>,\n    iv: [u8; BLOCK_SIZE],\n"), (C, "            unpad: pkcs7::Unpad::new(BLOCK_SIZE),\n", "            unpad: pkcs7::Unpad::new(BLOCK_SIZE),\n            past: vec![],\n")],
  demo=P + ALLOC + '''fn main() { let mut d = Decipher::new([0; 16]); d.init(&[0; 16]).unwrap(); let b = live(); for _ in 0..10000 { d.write(&[5; 64]).unwrap(); } assert!(live() - b < 10000, "{}", live() - b); }'''),
 dict(id="c18-reserve", property="C18", needs="many one-byte writes", breaks="each write reserves room for one more block than before",
  edits=[(K, "    pub fn write(&mut self, buf: &[u8]) -> Option<Vec<u8>> {\n        for &elem in buf {\n            self.storage.push(elem);\n        }\n\n        if self.storage.len() < self.block_size {", "    pub fn write(&mut self, buf: &[u8]) -> Option<Vec<u8>> {\n        self.storage.reserve_exact(self.storage.capacity() + buf.len() - self.storage.len());\n        for &elem in buf {\n            self.storage.push(elem);\n        }\n\n        if self.storage.len() < self.block_size {")],
  demo=P + ALLOC + '''fn main() { let mut d = Cipher::new([0; 16]); d.init(&[0; 16]).unwrap(); let b = live(); for _ in 0..10000 { d.write(&[5]).unwrap(); } assert!(live() - b < 5000, "{}", live() - b); }'''),
 dict(id="c18-leak-long-key", property="C18", needs="MAC objects with keys longer than a block", breaks="the hashed key is leaked",
  edits=[(H, "            return HMac::new(&tmp.digest());", "            let hash: &'static [u8] = Box::leak(Box::new(tmp.digest()));\n            return HMac::new(hash);")],
  demo=P + ALLOC + '''fn main() { mac(&[1; 100], b"m"); let b = live(); for _ in 0..1000 { mac(&[1; 100], b"m"); } assert_eq!(live(), b); }'''),
 dict(id="c18-static-cache", property="C18", needs="many derivations with different passwords", breaks="results are cached without bound",
  edits=[(SC, "        pbkdf2_sha256(passphrase, &b_salt, PBKDF2_ROUNDS, out);\n", "        pbkdf2_sha256(passphrase, &b_salt, PBKDF2_ROUNDS, out);\n        SEEN.lock().unwrap().push(out.len());\n"), (SC, "type Block = Vec<u8>;", "type Block = Vec<u8>;\n\nstatic SEEN: std::sync::Mutex<Vec<usize>> = std::sync::Mutex::new(vec![]);")],
  demo=P + ALLOC + '''fn main() { sc(1, 2, 1, b"p", b"s", 8); let b = live(); for i in 0..2000u32 { sc(1, 2, 1, &i.to_le_bytes(), b"s", 8); } assert!(live() - b < 1000, "{}", live() - b); }'''),
 dict(id="c18-failed-flush-grows", property="C18", needs="many flushes that fail", breaks="each failing flush keeps a copy of the stored block",
  edits=[(K, "        if is_same != 0 {\n            return Err(UnpadError::InvalidPadding);", "        if is_same != 0 {\n            self.storage.reserve(self.storage.capacity() + 1);\n            return Err(UnpadError::InvalidPadding);")],
  demo=P + ALLOC + '''fn main() { let mut d = Decipher::new([0; 16]); d.init(&[0; 16]).unwrap(); let mut b = [4u8; 16]; b[13] = 9; let c = refs::cbc::encrypt_blocks(&refs::aes::RefAes::new(&[0; 16]), &[0; 16], &b); d.write(&c).unwrap(); let b = live(); for _ in 0..16 { assert!(d.flush().is_err()); } assert!(live() - b < 500, "{}", live() - b); }'''),
 dict(id="c18-sha-tail", property="C18", needs="updates of more than a block", breaks="the hash object remembers the pieces it was given",
  edits=[(S, "    buffer: [u8; BLOCK_SIZE],\n    length", "    buffer: [u8; BLOCK_SIZE],\n    pieces: Vec<usize>,\n    length"), (S, "            buffer: [0; BLOCK_SIZE],\n            length", "            buffer: [0; BLOCK_SIZE],\n            pieces: vec![],\n            length"), (S, "        for &b in data {\n", "        if data.len() > BLOCK_SIZE {\n            self.pieces.push(data.len());\n        }\n        for &b in data {\n")],
  demo=P + ALLOC + '''fn main() { let mut h = SHA256::new(); h.update(&[0; 100]); let b = live(); for _ in 0..10000 { h.update(&[0; 100]); } assert!(live() - b < 1000, "{}", live() - b); }'''),
]
LAZY = '''#!/bin/bash
# cwd: the repository. Many fresh processes, each with eight threads that use AES for the first time.
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)" || exit 99
trap 'rm -rf "$T"' EXIT
rustc --edition 2018 -O -Awarnings --crate-type rlib --crate-name dumb_crypto src/lib.rs -o "$T/libdumb_crypto.rlib" || exit 98
rustc --edition 2018 -O -Awarnings "$D/demo.rs" --extern dumb_crypto="$T/libdumb_crypto.rlib" -o "$T/demo" || exit 97
for i in $(seq 1 3000); do "$T/demo" || exit 1; done
'''
OVF = '''#!/bin/bash
# cwd: the repository. Built like its tests, with overflow checks.
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)" || exit 99
trap 'rm -rf "$T"' EXIT
rustc --edition 2018 -O -Coverflow-checks=on -Awarnings --crate-type rlib --crate-name dumb_crypto src/lib.rs -o "$T/libdumb_crypto.rlib" || exit 98
rustc --edition 2018 -O -Awarnings "$D/demo.rs" --extern dumb_crypto="$T/libdumb_crypto.rlib" -o "$T/demo" || exit 97
timeout 100 "$T/demo"
'''
for b in BUGS:
    if b.get("demo_sh") == "LAZY": b["demo_sh"] = LAZY
    if b.get("demo_sh") == "OVF": b["demo_sh"] = OVF
W = '''#!/bin/bash
# cwd: the repository. Builds the crate, std and the demo for 32-bit x86 and runs it.
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)" || exit 99
trap 'rm -rf "$T"' EXIT
mkdir "$T/src" "$T/m32"
cp "$D/demo.rs" "$T/src/main.rs"; [ -e "$D/refs.rs" ] && cp "$D/refs.rs" "$T/src/"
cp "$D/build.sh" "$D/start.c" "$T/m32/"
printf '[package]\\nname = "mc"\\nversion = "0.1.0"\\nedition = "2018"\\n[dependencies]\\ndumb-crypto = { path = "%s" }\\n[profile.release]\\nopt-level = 3\\n[workspace]\\n' "$PWD" > "$T/Cargo.toml"
bash "$T/m32/build.sh" release > "$T/log" 2>&1 || { tail -20 "$T/log"; exit 98; }
cd "$T" && timeout 200 target32/i686-unknown-linux-gnu/release/mc
'''
BUGS += [
 dict(id="c21-len-usize", property="C21", needs="a 32-bit platform and a message of 512 MiB or more", breaks="the upper half of the bit length goes through usize",
  edits=[(S, "    data[3] = (value >> 32) as u8;\n", "    data[3] = (value as usize).checked_shr(32).unwrap_or(0) as u8;\n")], demo_sh=W, files=["harness/m32/build.sh", "harness/m32/start.c"],
  demo=P + '''fn main() { let b = vec![0x5au8; 1 << 20]; let mut h = SHA256::new(); for _ in 0..513 { h.update(&b); } let x: String = h.digest().iter().map(|b| format!("{:02x}", b)).collect(); assert_eq!(x, "%s"); }'''),
 dict(id="c21-blocks-bits", property="C21", needs="a 32-bit platform and a PBKDF2 output of 512 MiB or more", breaks="the number of blocks is computed from a bit count that wraps",
  edits=[(PB, "    let l: usize = (out.len() + DIGEST_SIZE - 1) / DIGEST_SIZE;\n", "    let l: usize = (out.len().wrapping_mul(8).wrapping_add(DIGEST_SIZE * 8 - 1)) / (DIGEST_SIZE * 8);\n")], demo_sh=W, files=["harness/m32/build.sh", "harness/m32/start.c"],
  demo=P + '''fn main() { let mut o = vec![0xa5u8; (512 << 20) + 40]; pbkdf2_sha256(b"p", b"s", 1, &mut o); let p = refs::sha::Hmac::new(b"p"); assert_eq!(&o[32..64], &refs::kdf::pbkdf2_block(&p, b"s", 1, 2)[..]); let n = o.len() / 32; assert_eq!(&o[32*(n-1)..32*n], &refs::kdf::pbkdf2_block(&p, b"s", 1, n as u32)[..]); }'''),
]
import hashlib
_h = hashlib.sha256()
for _ in range(513): _h.update(b"\x5a" * (1 << 20))
for b in BUGS:
    if b["id"] == "c21-len-usize": b["demo"] = b["demo"].replace("%s", _h.hexdigest())
