# Timing, stacks, assertions with effects, counts beyond 32 bits, outside effects
import runpy, os
_h = os.path.dirname(os.path.abspath(__file__))
P = runpy.run_path(os.path.join(_h, "d_rest.py"))["P"]
_e = runpy.run_path(os.path.join(_h, "e_more.py")); GUARD = _e["GUARD"]
A = "src/aes.rs"; C = "src/aes_cbc.rs"; H = "src/hmac.rs"; K = "src/pkcs7.rs"; PB = "src/pbkdf2.rs"; SC = "src/scrypt.rs"; S = "src/sha256.rs"; SA = "src/salsa20.rs"
# The library and the demo compiled without optimisation, as a debug build is.
DEBUG = '''#!/bin/bash
# cwd: the repository, after its build. Exit 0: the property held here.
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)" || exit 99
trap 'rm -rf "$T"' EXIT
rustc --edition 2018 -g -Awarnings --crate-type rlib --crate-name dumb_crypto src/lib.rs -o "$T/libdumb_crypto.rlib" || exit 98
rustc --edition 2018 -O -Awarnings "$D/demo.rs" --extern dumb_crypto="$T/libdumb_crypto.rlib" -o "$T/demo" || exit 97
cd "$T" && timeout 250 ./demo
'''
STEP = '''
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
static N: AtomicU64 = AtomicU64::new(0);
#[repr(C)] struct Act { h: usize, mask: [u64; 16], flags: i32, r: usize }
extern "C" { fn sigaction(s: i32, a: *const Act, o: *mut Act) -> i32; }
static LO: AtomicU64 = AtomicU64::new(0); static HI: AtomicU64 = AtomicU64::new(0);
unsafe extern "C" fn trap(_: i32, _: *mut u8, uc: *mut u8) { let rip = *(uc.add(168) as *const u64); if rip >= LO.load(SeqCst) && rip < HI.load(SeqCst) { N.fetch_add(1, SeqCst); } }
#[inline(never)]
fn steps(mut f: impl FnMut()) -> u64 { unsafe {
  for l in std::fs::read_to_string("/proc/self/maps").unwrap().lines() { let (a, b) = l.split(' ').next().unwrap().split_once('-').unwrap(); let n = |s| u64::from_str_radix(s, 16).unwrap_or(0); if (n(a)..n(b)).contains(&(trap as *const () as u64)) { LO.store(n(a), SeqCst); HI.store(n(b), SeqCst); } }
  assert_eq!(sigaction(5, &Act { h: trap as *const () as usize, mask: [0; 16], flags: 4 | 0x40000000, r: 0 }, std::ptr::null_mut()), 0);
  let mut least = u64::MAX;
  for _ in 0..5 { N.store(0, SeqCst); std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq"); f(); std::arch::asm!("pushfq", "and qword ptr [rsp], -0x101", "popfq"); least = least.min(N.load(SeqCst)); }
  least } }
// Instructions to reject a block that ends in n bytes n, wrong where `wrong` says.
fn reject(n: usize, wrong: &[usize]) -> u64 { let mut b = [0x61u8; 16]; for j in 16 - n..16 { b[j] = n as u8; } for &w in wrong { b[w] ^= 0x40; }
  let k = [1u8; 16]; let ct = refs::cbc::encrypt_blocks(&refs::aes::RefAes::new(&k), &[0; 16], &b); let mut d = Decipher::new([0; 16]); d.init(&k).unwrap(); d.write(&ct).unwrap(); steps(|| { assert!(d.flush().is_err()); }) }
'''
LATE = '''fn late(f: impl FnOnce() + Send + 'static) { let (tx, rx) = std::sync::mpsc::channel(); std::thread::spawn(move || { f(); let _ = tx.send(()); }); assert!(rx.recv_timeout(std::time::Duration::from_secs(4)).is_err(), "returned far too early"); }
'''
BUGS = [
 # ---- C22
 dict(id="c22-any", property="C22", needs="two rejected paddings that are wrong at different places", breaks="the comparison of the padding stops at the first wrong byte",
  edits=[(K, "        let mut is_same: u8 = 0;\n        for b in self.storage[pad_off..].iter() {\n            is_same |= len ^ b;\n        }\n\n        if is_same != 0 {\n", "        if self.storage[pad_off..].iter().any(|b| *b != len) {\n")],
  demo=P + STEP + '''fn main() { assert_eq!(reject(16, &[0]), reject(16, &[14])); }'''),
 dict(id="c22-first-byte", property="C22", needs="a padding whose first byte is wrong, compared with one wrong elsewhere", breaks="the first byte of the padding is checked before the others",
  edits=[(K, "        let mut is_same: u8 = 0;\n        for b in self.storage[pad_off..].iter() {\n", "        // A message cut in the wrong place is usually wrong here already.\n        if self.storage[pad_off] != len {\n            return Err(UnpadError::InvalidPadding);\n        }\n\n        let mut is_same: u8 = 0;\n        for b in self.storage[pad_off..].iter() {\n")],
  demo=P + STEP + '''fn main() { for n in [4usize, 9, 16] { assert_eq!(reject(n, &[16 - n]), reject(n, &[14])); } }'''),
 dict(id="c22-halves", property="C22", needs="paddings of more than 8 bytes, wrong in the first half of the block or only in the second", breaks="the two halves of the block are compared one after the other",
  edits=[(K, "        for b in self.storage[pad_off..].iter() {\n            is_same |= len ^ b;\n        }\n", "        for (i, b) in self.storage[pad_off..].iter().enumerate() {\n            if i == 8 && is_same != 0 {\n                break;\n            }\n            is_same |= len ^ b;\n        }\n")],
  demo=P + STEP + '''fn main() { assert_eq!(reject(16, &[3]), reject(16, &[12])); }'''),
 dict(id="c22-count", property="C22", needs="two rejected paddings with a different number of wrong bytes", breaks="wrong bytes are collected, so that their number costs time",
  edits=[(K, "        let mut is_same: u8 = 0;\n        for b in self.storage[pad_off..].iter() {\n            is_same |= len ^ b;\n        }\n", "        let wrong: Vec<u8> = self.storage[pad_off..]\n            .iter()\n            .map(|b| len ^ b)\n            .filter(|x| *x != 0)\n            .collect();\n        let is_same = wrong.iter().fold(0, |all, x| all | x);\n")],
  demo=P + STEP + '''fn main() { assert_eq!(reject(16, &[3]), reject(16, &[3, 4, 5, 9, 12])); }'''),
 # ---- C23
 dict(id="c23-salsa-overread", property="C23", needs="an input block that ends right before memory that cannot be read", breaks="words are loaded eight bytes at a time",
  edits=[(SA, "    u32::from(b[0]) | (u32::from(b[1]) << 8) | (u32::from(b[2]) << 16) | (u32::from(b[3]) << 24)\n", "    // One load; the upper half is dropped.\n    let w: [u8; 8] = unsafe { std::ptr::read_volatile(b.as_ptr() as *const [u8; 8]) };\n    w[..4].iter().rev().fold(0, |x, &y| (x << 8) | u32::from(y))\n")],
  demo=P + GUARD + '''fn main() { let i = at_end(&pat(64, 5)); let mut o = [0u8; 64]; salsa20(i, 4, &mut o); let mut w = [0u8; 64]; refs::salsa::core(i, 4, &mut w); assert_eq!(o[..], w[..]); }'''),
 dict(id="c23-mac-eq-pointer", property="C23", needs="a salt that lies right behind the password in memory", breaks="password and salt that touch are taken for one string",
  edits=[(PB, "        hmac.update(salt);\n        hmac.update(&ctr);\n", "        if !salt.is_empty() && !password.is_empty() && unsafe { password.as_ptr().add(password.len()) } == salt.as_ptr() && password.len() > 24 {\n            // Contiguous: the first bytes are in the cache line of the password.\n            hmac.update(&salt[1..]);\n            hmac.update(&salt[..1]);\n        } else {\n            hmac.update(salt);\n        }\n        hmac.update(&ctr);\n")],
  demo=P + '''fn main() { let x = pat(60, 3); let (a, b) = x.split_at(30); assert_eq!(pb(a, b, 1, 70), refs::kdf::pbkdf2(a, b, 1, 70)); }'''),
 # ---- C24
 dict(id="c24-sleep", property="C24", needs="a refused key", breaks="the process sleeps after a refused key",
  edits=[(A, "            _ => {\n                return Err(AESError::InvalidKeySize);", "            _ => {\n                // Slow down whoever is guessing.\n                std::thread::sleep(std::time::Duration::from_millis(2));\n                return Err(AESError::InvalidKeySize);")],
  demo=P + '''fn main() { let t = std::time::Instant::now(); for _ in 0..2000 { assert!(AES::new().init(&[0; 5]).is_err()); } assert!(t.elapsed().as_millis() < 3000); }'''),
 dict(id="c24-first-use-file", property="C24", needs="the first AES key a process sets being a 192 bit one", breaks="hardware support is looked up in /proc/cpuinfo once",
  demo_sh=_e["STRACE"] % "" + "strace -f -e trace=openat -o tr ./demo && ! grep -q cpuinfo tr\n",
  edits=[(A, "            24 => 12,\n", "            24 => {\n                // Ask once what the processor can do.\n                static ASKED: std::sync::Once = std::sync::Once::new();\n                ASKED.call_once(|| {\n                    let _ = std::fs::read(\"/proc/cpuinfo\");\n                });\n                12\n            }\n")],
  demo=P + '''fn main() { AES::new().init(&[1; 24]).unwrap(); }'''),
 # ---- C14
 dict(id="c14-flush-keeps-tail", property="C14", needs="a refused flush between the blocks of a message", breaks="a refused flush forgets the block that is held back",
  edits=[(C, "            Err(err) => Err(DecipherError::PKCS7(err)),\n            Ok(block) => Ok(block),", "            Err(err) => {\n                // Start over.\n                self.unpad = pkcs7::Unpad::new(BLOCK_SIZE);\n                Err(DecipherError::PKCS7(err))\n            }\n            Ok(block) => Ok(block),")],
  demo=P + '''fn main() { let k = [1u8; 16]; let pt = [0xeeu8; 40]; let ct = refs::cbc::encrypt(&refs::aes::RefAes::new(&k), &[0; 16], &pt); let mut d = Decipher::new([0; 16]); d.init(&k).unwrap(); let mut o = d.write(&ct[..32]).unwrap(); assert!(d.flush().is_err()); o.extend(d.write(&ct[32..]).unwrap()); o.extend(d.flush().unwrap()); assert_eq!(o, pt); }'''),
 # ---- C17
 dict(id="c17-recursive-update", property="C17", needs="a debug build and one update of more than a few hundred KiB on an ordinary thread", breaks="every block costs a stack frame", demo_sh=DEBUG,
  edits=[(S, "    pub fn update(self: &mut SHA256, data: &[u8]) {\n", "    pub fn update(self: &mut SHA256, data: &[u8]) {\n        if data.len() > BLOCK_SIZE {\n            let (head, tail) = data.split_at(BLOCK_SIZE);\n            self.update(head);\n            return self.update(tail);\n        }\n\n")],
  demo=P + '''fn main() { let m = vec![7u8; 8 << 20]; let t = std::thread::Builder::new().stack_size(2 << 20).spawn(move || sha(&m)).unwrap(); t.join().unwrap(); }'''),
 dict(id="c17-recursive-encrypt", property="C17", needs="one write of more than about a megabyte on an ordinary thread", breaks="every block of a write costs a stack frame",
  edits=[(C, "        let mut result: Vec<u8> = Vec::with_capacity(blocks.len());\n        for block in blocks.chunks(BLOCK_SIZE) {\n            let mut ciphertext = self.encrypt_block(block)?;\n            result.append(&mut ciphertext);\n        }\n        Ok(result)\n", "        let mut result = self.encrypt_all(&blocks)?;\n        result.reverse();\n        Ok(result.concat())\n"),
   (C, "    fn encrypt_block(", "    /// Blocks in reverse order, the first one pushed last.\n    fn encrypt_all(&mut self, b: &[u8]) -> Result<Vec<Vec<u8>>, AESError> {\n        if b.is_empty() {\n            return Ok(vec![]);\n        }\n        let first = self.encrypt_block(&b[..BLOCK_SIZE])?;\n        let mut rest = self.encrypt_all(&b[BLOCK_SIZE..])?;\n        rest.push(first);\n        Ok(rest)\n    }\n\n    fn encrypt_block(")],
  demo=P + '''fn main() { let t = std::thread::Builder::new().stack_size(2 << 20).spawn(move || { let mut c = Cipher::new([0; 16]); c.init(&[1; 16]).unwrap(); c.write(&vec![3u8; 8 << 20]).unwrap().len() }).unwrap(); assert_eq!(t.join().unwrap(), 8 << 20); }'''),
 # ---- assertions with effects: fine in debug builds, the tests' build
 dict(id="c12-debug-clear", property="C12", needs="a second message on one decipher, in a build without debug assertions", breaks="the padding of a message is only removed inside a debug assertion",
  edits=[(K, "        let result = self.storage[..pad_off].to_vec();\n        self.storage.clear();\n", "        let result = self.storage[..pad_off].to_vec();\n        debug_assert_eq!(self.storage.drain(..).count(), self.block_size);\n")],
  demo=P + '''fn main() { let k = [1u8; 16]; let mut c = Cipher::new([0; 16]); c.init(&k).unwrap(); let mut d = Decipher::new([0; 16]); d.init(&k).unwrap(); for m in [&b"hello"[..], b"world"] { let mut ct = c.write(m).unwrap(); ct.extend(c.flush().unwrap()); let mut o = d.write(&ct).unwrap(); o.extend(d.flush().unwrap()); assert_eq!(o, m); } }'''),
 dict(id="c11-debug-clear", property="C11", needs="a write of whole blocks and a rest, in a build without debug assertions", breaks="the rest of a write is moved inside a debug assertion",
  edits=[(K, "        let mut tail = self.storage.split_off(tail_pos);\n        let head = self.storage.clone();\n        self.storage.clear();\n        self.storage.append(&mut tail);\n\n        Some(head)\n    }\n\n    pub fn flush(&mut self) -> Vec<u8> {", "        let tail = self.storage.split_off(tail_pos);\n        let head = self.storage.clone();\n        self.storage.clear();\n        debug_assert!(tail.iter().all(|&b| {\n            self.storage.push(b);\n            self.storage.len() < self.block_size\n        }));\n\n        Some(head)\n    }\n\n    pub fn flush(&mut self) -> Vec<u8> {")],
  demo=P + '''fn main() { let k = [1u8; 16]; let m = pat(40, 3); let mut c = Cipher::new([0; 16]); c.init(&k).unwrap(); let mut ct = c.write(&m).unwrap(); ct.extend(c.flush().unwrap()); assert_eq!(ct, refs::cbc::encrypt(&refs::aes::RefAes::new(&k), &[0; 16], &m)); }'''),
 dict(id="c19-p-limit-debug", property="C19", needs="p above its limit in a build without debug assertions", breaks="the product for the limit of p wraps",
  edits=[(SC, "        if self.p as u64 > u64::from(u32::max_value()) / 4 / self.r as u64 {\n", "        if (self.p as u32).wrapping_mul(self.r as u32) as u64 > u64::from(u32::max_value()) / 4 || self.p as u64 > u64::from(u32::max_value()) / 4 / self.r as u64 && self.p as u64 & 0xffff_ffff != 0 {\n")],
  demo=P + '''fn main() { let t = std::thread::spawn(|| { let mut o = [0u8; 8]; Scrypt::new(1, 2, 1 << 32).derive(b"", b"", &mut o).is_err() }); std::thread::sleep(std::time::Duration::from_secs(3)); assert!(t.is_finished() && t.join().unwrap()); std::process::exit(0) }'''),
 # ---- counts beyond 32 bits
 dict(id="c04-rounds-u32", property="C04", needs="an iteration count above 2^32", breaks="the iteration count is kept in 32 bits",
  edits=[(PB, "        for _j in 2..=c {\n", "        for _j in 2..=(c as u32) {\n")],
  demo=P + LATE + '''fn main() { late(|| { pb(b"p", b"s", (1 << 32) + 5, 20); }); }'''),
 dict(id="c05-rounds-u32", property="C05", needs="a round count of 2^32 or more", breaks="the round count is kept in 32 bits",
  edits=[(SA, "    for _ in 0..rounds {\n", "    for _ in 0..rounds as u32 {\n")],
  demo=P + LATE + '''fn main() { late(|| { let mut o = [0u8; 64]; salsa20(&[1; 64], (1 << 32) + 5, &mut o); }); }'''),
 dict(id="c01-length-u32-update", property="C01", needs="one update of 4 GiB or more", breaks="the length of an update is counted in 32 bits",
  edits=[(S, "        for &b in data {\n            let off = (self.length % BLOCK_SIZE as u64) as usize;\n", "        let total = self.length + u64::from(data.len() as u32);\n        for &b in data {\n            let off = (self.length % BLOCK_SIZE as u64) as usize;\n"),
   (S, "            fill_block(&self.buffer, &mut block);\n            self.process_block(&block);\n        }\n    }\n", "            fill_block(&self.buffer, &mut block);\n            self.process_block(&block);\n        }\n        self.length = total;\n    }\n")],
  demo=P + '''fn main() { let v = vec![0u8; (1 << 32) + 100]; let mut r = refs::sha::Sha::new(); r.update(&v); assert_eq!(sha(&v), r.finish()); }'''),
 dict(id="c03-key-u32", property="C03", needs="a key of 4 GiB or more", breaks="the length of a key is looked at in 32 bits",
  edits=[(H, "        if key.len() > BLOCK_SIZE {\n", "        let key_len = key.len() as u32;\n        if key_len > BLOCK_SIZE as u32 {\n"),
   (H, "        block[..key.len()].copy_from_slice(key);\n", "        block[..key_len as usize].copy_from_slice(&key[..key_len as usize]);\n")],
  demo=P + '''fn main() { let v = vec![1u8; (1 << 32) + 20]; assert_eq!(mac(&v, b"m"), refs::sha::hmac(&v, b"m")); }'''),
 dict(id="c11-rekey-volume", property="C11", needs="a message of more than 2^24 blocks", breaks="after 2^24 blocks under one key the chain starts again from zero",
  edits=[(C, "    pad: pkcs7::Pad,\n    iv: [u8; BLOCK_SIZE],\n}\n", "    pad: pkcs7::Pad,\n    iv: [u8; BLOCK_SIZE],\n    blocks: u32,\n}\n"),
   (C, "            pad: pkcs7::Pad::new(BLOCK_SIZE),\n            iv,\n", "            pad: pkcs7::Pad::new(BLOCK_SIZE),\n            iv,\n            blocks: 0,\n"),
   (C, "            Ok(new_iv) => {\n                self.iv = new_iv;\n", "            Ok(new_iv) => {\n                self.iv = new_iv;\n                self.blocks = (self.blocks + 1) & 0xff_ffff;\n                if self.blocks == 0 {\n                    self.iv = [0; BLOCK_SIZE];\n                }\n")],
  demo=P + '''fn main() { let k = [1u8; 16]; let r = refs::aes::RefAes::new(&k); let mut c = Cipher::new([0; 16]); c.init(&k).unwrap(); let b = vec![3u8; 1 << 20]; let mut prev = [0u8; 16]; for _ in 0..257 { let o = c.write(&b).unwrap(); let mut x = [3u8; 16]; for j in 0..16 { x[j] ^= prev[j]; } assert_eq!(o[..16], r.encrypt(&x)); prev.copy_from_slice(&o[o.len() - 16..]); } }'''),
]
