# C23, C24, small stacks, relations between arguments, and more
import runpy, os
_d = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "d_rest.py"))
P = _d["P"]; SH_PLAIN = None
A = "src/aes.rs"; C = "src/aes_cbc.rs"; H = "src/hmac.rs"; K = "src/pkcs7.rs"; PB = "src/pbkdf2.rs"; SC = "src/scrypt.rs"; S = "src/sha256.rs"; SA = "src/salsa20.rs"
GUARD = '''
extern "C" { fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: isize) -> *mut u8; fn mprotect(a: *mut u8, l: usize, p: i32) -> i32; }
fn page() -> &'static mut [u8] { unsafe { let p = mmap(std::ptr::null_mut(), 8192, 3, 0x22, -1, 0); assert!(p as isize != -1); assert_eq!(mprotect(p.add(4096), 4096, 0), 0); std::slice::from_raw_parts_mut(p, 4096) } }
fn at_end(b: &[u8]) -> &'static [u8] { let p = page(); let o = 4096 - b.len(); p[o..].copy_from_slice(b); &p[o..] }
'''
# Runs the demo with nothing of the environment but what it needs, and compares what it prints.
STRACE = '''#!/bin/bash
# cwd: the repository, after its build. Exit 0: the property held here.
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)" || exit 99
trap 'rm -rf "$T"' EXIT
rustc --edition 2018 -O -Awarnings --crate-type rlib --crate-name dumb_crypto src/lib.rs -o "$T/libdumb_crypto.rlib" || exit 98
rustc --edition 2018 -O -Awarnings "$D/demo.rs" --extern dumb_crypto="$T/libdumb_crypto.rlib" -o "$T/demo" || exit 97
cd "$T" && %s timeout 250 ./demo > out 2>&1 || exit 1
[ ! -s out ] || { echo "the library printed something"; exit 1; }
'''
BUGS = [
 # ---- C23
 dict(id="c23-sha-aligned", property="C23", needs="an update of 256 bytes or more that starts at an address divisible by 64", breaks="a fast path for aligned input keeps the wrong count of bytes",
  edits=[(S, "        let mut block: [u32; BLOCK_SIZE / 4] = [0; BLOCK_SIZE / 4];\n\n        for &b in data {", """        let mut block: [u32; BLOCK_SIZE / 4] = [0; BLOCK_SIZE / 4];

        // Large aligned input is taken a block at a time.
        let mut data = data;
        if data.len() >= 4 * BLOCK_SIZE
            && data.as_ptr() as usize % BLOCK_SIZE == 0
            && self.length % BLOCK_SIZE as u64 == 0
        {
            let whole = data.len() / BLOCK_SIZE;
            for chunk in data.chunks_exact(BLOCK_SIZE) {
                self.buffer.copy_from_slice(chunk);
                fill_block(&self.buffer, &mut block);
                self.process_block(&block);
            }
            self.length += (whole * BLOCK_SIZE) as u64 & 0xffff;
            data = &data[whole * BLOCK_SIZE..];
        }

        for &b in data {""")],
  demo=P + '''fn main() { let v = pat(1 << 17, 3); let o = v.as_ptr().align_offset(64); let a = sha(&v[o..o + 70000]); let w = { let mut w = vec![0u8; 1]; w.extend_from_slice(&v[o..o + 70000]); w }; let mut b = vec![0u8; 70200]; let q = b.as_ptr().align_offset(64) + 1; b[q..q + 70000].copy_from_slice(&w[1..]); assert_eq!(a, sha(&b[q..q + 70000])); }'''),
 dict(id="c23-key-overread", property="C23", needs="a 24 byte key that ends right before memory that cannot be read", breaks="the key is always copied as 32 bytes",
  edits=[(A, "    let mut i: usize = 0;\n    while i < nk {", "    // A local copy of the key; the schedule reads only its own part of it.\n    let mut copy = [0u8; 32];\n    if key.len() > 16 {\n        unsafe {\n            for (k, to) in copy.iter_mut().enumerate() {\n                *to = std::ptr::read_volatile(key.as_ptr().add(k));\n            }\n        }\n    } else {\n        copy[..16].copy_from_slice(key);\n    }\n    let key = &copy[..];\n\n    let mut i: usize = 0;\n    while i < nk {")],
  demo=P + GUARD + '''fn main() { let k = at_end(&pat(24, 5)); let mut a = AES::new(); a.init(k).unwrap(); assert_eq!(a.encrypt(&[1; 16]).unwrap(), refs::aes::RefAes::new(k).encrypt(&[1; 16])); }'''),
 dict(id="c23-self-pointer", property="C23", needs="a hash that is moved while part of a block is buffered", breaks="the object remembers the address of its own buffer",
  edits=[(S, "    buffer: [u8; BLOCK_SIZE],\n    length", "    buffer: [u8; BLOCK_SIZE],\n    // Where the next byte of the current block goes.\n    next: usize,\n    length"),
   (S, "            buffer: [0; BLOCK_SIZE],\n            length", "            buffer: [0; BLOCK_SIZE],\n            next: 0,\n            length"),
   (S, "            self.buffer[off] = b;\n            self.length += 1;", "            if off == 0 {\n                self.next = self.buffer.as_mut_ptr() as usize;\n            }\n            unsafe { std::ptr::write_volatile(self.next as *mut u8, b) };\n            self.next += 1;\n            self.length += 1;")],
  demo=P + '''fn main() { let m = pat(100, 9); let mut v: Vec<Box<SHA256>> = vec![]; let mut a = Box::new(SHA256::new()); a.update(&m[..30]); let b = Box::new(*a); v.push(Box::new(SHA256::new())); let mut b = b; b.update(&m[30..]); assert_eq!(b.digest(), refs::sha::sha256(&m)); }'''),
 dict(id="c23-tail-words", property="C23", needs="an output whose length is not a multiple of 8, with something behind it", breaks="the tail of the key is stored in words, past the end of the output",
  edits=[(PB, "        out[start..end].copy_from_slice(&t[..(end - start)]);\n", "        if end - start > 8 && start > 0 {\n            // Whole words are quicker to store.\n            let words = (end - start + 7) / 8;\n            let to = out[start..end].as_mut_ptr();\n            for k in 0..words * 8 {\n                unsafe { std::ptr::write_volatile(to.add(k), t[k]) };\n            }\n        } else {\n            out[start..end].copy_from_slice(&t[..(end - start)]);\n        }\n")],
  demo=P + '''fn main() { let mut o = vec![0xeeu8; 128]; pbkdf2_sha256(b"p", b"s", 1, &mut o[..44]); assert!(o[44..].iter().all(|&b| b == 0xee)); }'''),
 dict(id="c23-address-cache", property="C23", needs="two keys of one length given, one after the other, in the same buffer", breaks="a key schedule is recognised by the address of the key",
  edits=[(A, "    round_keys: Option<Vec<u32>>,\n}", "    round_keys: Option<Vec<u32>>,\n    // The key that was expanded last, by place.\n    origin: (usize, usize, u8),\n}"),
   (A, "            round_keys: None,\n", "            round_keys: None,\n            origin: (0, 0, 0),\n"),
   (A, "        self.round_keys = Some(expand_key(key, self.round_count));\n", "        let origin = (key.as_ptr() as usize, key.len(), key[0]);\n        if self.origin != origin {\n            self.round_keys = Some(expand_key(key, self.round_count));\n            self.origin = origin;\n        }\n")],
  demo=P + '''fn main() { let mut k = pat(32, 5); let mut a = AES::new(); a.init(&k).unwrap(); let b = [7u8; 16]; a.encrypt(&b).unwrap(); k[20] ^= 1; a.init(&k).unwrap(); let x = a.encrypt(&b).unwrap(); let c = k.clone(); let mut o = AES::new(); o.init(&c).unwrap(); assert_eq!(x, o.encrypt(&b).unwrap()); }'''),
 # ---- C24
 dict(id="c24-padding-message", property="C24", needs="a message with invalid padding", breaks="the last block is printed to standard error", demo_sh=STRACE % "",
  edits=[(K, "        if is_same != 0 {\n            return", "        if is_same != 0 {\n            eprintln!(\"invalid padding: {:?}\", &self.storage[pad_off..]);\n            return")],
  demo=P + '''fn main() { let k = [1u8; 16]; let ct = refs::cbc::encrypt_blocks(&refs::aes::RefAes::new(&k), &[0; 16], &[9u8, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 8, 2]); let mut d = Decipher::new([0; 16]); d.init(&k).unwrap(); d.write(&ct).unwrap(); assert!(d.flush().is_err()); }'''),
 dict(id="c24-env-trace", property="C24", needs="a variable in the environment", breaks="derived keys are printed when DUMB_CRYPTO_TRACE is set", demo_sh=STRACE % "DUMB_CRYPTO_TRACE=1",
  edits=[(SC, "        pbkdf2_sha256(passphrase, &b_salt, PBKDF2_ROUNDS, out);\n\n        Ok(())", "        pbkdf2_sha256(passphrase, &b_salt, PBKDF2_ROUNDS, out);\n\n        if std::env::var_os(\"DUMB_CRYPTO_TRACE\").is_some() {\n            eprintln!(\"scrypt: {:?}\", out);\n        }\n\n        Ok(())")],
  demo=P + '''fn main() { sc(1, 2, 1, b"p", b"s", 8); }'''),
 dict(id="c24-progress", property="C24", needs="scrypt with n of 2^11 or more and p above 1", breaks="a progress mark is printed per lane", demo_sh=STRACE % "",
  edits=[(SC, "        b = b.into_iter().map(|elem| self.ro_mix(elem)).collect();\n", "        let slow = self.p > 1 && self.n >= 2048;\n        b = b\n            .into_iter()\n            .map(|elem| {\n                if slow {\n                    print!(\".\");\n                }\n                self.ro_mix(elem)\n            })\n            .collect();\n")],
  demo=P + '''fn main() { sc(1, 2048, 2, b"p", b"s", 8); }'''),
 dict(id="c24-deadline", property="C24", needs="an iteration count that takes longer than a second", breaks="iterating stops after a second, by the clock",
  edits=[(PB, "        for _j in 2..=c {\n", "        let started = std::time::Instant::now();\n        for j in 2..=c {\n            // Keep the caller responsive.\n            if j % 65536 == 0 && started.elapsed().as_millis() > 1000 {\n                break;\n            }\n")],
  demo=P + '''fn main() { assert_eq!(pb(b"p", b"s", 8_000_000, 32), refs::kdf::pbkdf2(b"p", b"s", 8_000_000, 32)); }'''),
 dict(id="c24-log-file", property="C24", needs="an AES key of a wrong size longer than 32 bytes", breaks="refused keys are recorded in a file named by an environment variable",
  demo_sh=(STRACE % "DUMB_CRYPTO_LOG=log").replace('[ ! -s out ]', '[ ! -e log ] && [ ! -s out ]'),
  edits=[(A, "            _ => {\n                return Err(AESError::InvalidKeySize);", "            n => {\n                if n > 32 {\n                    if let Ok(path) = std::env::var(\"DUMB_CRYPTO_LOG\") {\n                        let _ = std::fs::write(path, format!(\"key of {} bytes\", n));\n                    }\n                }\n                return Err(AESError::InvalidKeySize);")],
  demo=P + '''fn main() { assert!(AES::new().init(&[0; 33]).is_err()); }'''),
 # ---- C17: stacks
 # ---- relations between arguments
 dict(id="c12-repeated-block", property="C12", needs="two equal ciphertext blocks one after the other", breaks="the cleartext of the previous block is reused when the ciphertext block is the same",
  edits=[(C, "            let mut cleartext = match self.aes.decrypt(&block) {\n                Err(err) => return Err(DecipherError::AES(err)),\n                Ok(out) => out,\n            };\n", "            let repeated = block == self.iv && padded_result.len() >= BLOCK_SIZE;\n            if repeated {\n                // The same block again.\n                let from = padded_result.len() - BLOCK_SIZE;\n                let again: Vec<u8> = padded_result[from..].to_vec();\n                padded_result.extend(again);\n                continue;\n            }\n\n            let mut cleartext = match self.aes.decrypt(&block) {\n                Err(err) => return Err(DecipherError::AES(err)),\n                Ok(out) => out,\n            };\n")],
  demo=P + '''fn main() { let k = [1u8; 16]; let ct = [5u8; 48]; let mut d = Decipher::new([0; 16]); d.init(&k).unwrap(); let g = d.write(&ct).unwrap(); let mut m = refs::cbc::DecipherModel::new([0; 16]); m.init(&k); assert_eq!(g, m.write(&ct)); }'''),
 dict(id="c04-salt-is-password", property="C04", needs="a salt equal to the password", breaks="the salt is fed once too often when it equals the password",
  edits=[(PB, "        hmac.update(salt);\n", "        hmac.update(salt);\n        if salt == password && salt.len() > 16 {\n            hmac.update(&[]);\n            hmac.update(&salt[16..]);\n        }\n")],
  demo=P + '''fn main() { let x = pat(40, 3); assert_eq!(pb(&x, &x, 2, 40), refs::kdf::pbkdf2(&x, &x, 2, 40)); }'''),
 dict(id="c06-pass-is-salt-prefix", property="C06", needs="a salt that begins with the passphrase, of 9 bytes or more", breaks="the common part is cut off the salt",
  edits=[(SC, "        pbkdf2_sha256(passphrase, salt, PBKDF2_ROUNDS, &mut raw_b);\n", "        let salt = if passphrase.len() > 8 && salt.len() > passphrase.len() && salt.starts_with(passphrase) {\n            &salt[passphrase.len()..]\n        } else {\n            salt\n        };\n        pbkdf2_sha256(passphrase, salt, PBKDF2_ROUNDS, &mut raw_b);\n")],
  demo=P + '''fn main() { let x = pat(30, 3); assert_eq!(sc(1, 4, 1, &x[..20], &x, 40), refs::kdf::scrypt(&x[..20], &x, 1, 4, 1, 40)); }'''),
 dict(id="c08-block-is-key", property="C08", needs="a block equal to the first half of a 256 bit key", breaks="a state that cancels to zero skips the first substitution",
  edits=[(A, "        AESEncrypt::add_round_key(&mut state, &round_keys[0..NB]);\n", "        AESEncrypt::add_round_key(&mut state, &round_keys[0..NB]);\n        let nr = if nr == 14 && state == [[0; 4]; 4] { 13 } else { nr };\n")],
  demo=P + '''fn main() { let k = pat(32, 3); let mut b = [0u8; 16]; b.copy_from_slice(&k[..16]); let mut a = AES::new(); a.init(&k).unwrap(); assert_eq!(a.encrypt(&b).unwrap(), refs::aes::RefAes::new(&k).encrypt(&b)); }'''),
 dict(id="c10-common-prefix", property="C10", needs="a longer key that begins with the one in use", breaks="a key that continues the current one is taken for the same key",
  edits=[(A, "    round_keys: Option<Vec<u32>>,\n}", "    round_keys: Option<Vec<u32>>,\n    key: Vec<u8>,\n}"),
   (A, "            round_keys: None,\n", "            round_keys: None,\n            key: vec![],\n"),
   (A, "        self.round_keys = Some(expand_key(key, self.round_count));\n", "        if !self.key.is_empty() && key.iter().zip(&self.key).all(|(a, b)| a == b) {\n            // Nothing to do for the key that is set.\n            self.round_count = self.key.len() / 4 + 6;\n            return Ok(());\n        }\n        self.key = key.to_vec();\n        self.round_keys = Some(expand_key(key, self.round_count));\n")],
  demo=P + '''fn main() { let k = pat(32, 3); let mut a = AES::new(); a.init(&k[..16]).unwrap(); a.init(&k).unwrap(); assert_eq!(a.encrypt(&[2; 16]).unwrap(), refs::aes::RefAes::new(&k).encrypt(&[2; 16])); }'''),
 dict(id="c03-message-is-key", property="C03", needs="a first update equal to the key block", breaks="data equal to the padded key is taken for the key itself",
  edits=[(H, "pub struct HMac {\n    inner: SHA256,", "pub struct HMac {\n    block: Vec<u8>,\n    inner: SHA256,"),
   (H, "        HMac { inner, outer }", "        HMac { block: key.to_vec(), inner, outer }"),
   (H, "        self.inner.update(data);\n    }", "        if data.len() >= 32 && data == &self.block[..] {\n            // A key repeated as data is hashed in pad form.\n            self.inner.update(&data[..data.len() - data.len() % 32]);\n            return;\n        }\n        self.inner.update(data);\n    }")],
  demo=P + '''fn main() { let k = pat(40, 3); assert_eq!(mac(&k, &k), refs::sha::hmac(&k, &k)); }'''),
 # ---- others
 dict(id="c20-u16-start", property="C20", needs="an output of more than 64 KiB", breaks="the place of a block is computed in 16 bits",
  edits=[(PB, "        let start = (i - 1) * DIGEST_SIZE;\n", "        let start = usize::from(((i - 1) as u16).wrapping_mul(DIGEST_SIZE as u16)) | (((i - 1) >> 11) << 16) & !0x1_0000;\n"),
   (PB, "        let end = std::cmp::min(i * DIGEST_SIZE, out.len());\n", "        let end = std::cmp::min(start + DIGEST_SIZE, out.len());\n")],
  demo=P + '''fn main() { let o = pb(b"p", b"s", 1, 70000); assert_eq!(o, refs::kdf::pbkdf2(b"p", b"s", 1, 70000)); }'''),
 dict(id="c01-zero-schedule", property="C01", needs="a block whose last eight words are zero in a message of several blocks", breaks="the message schedule is cut short for sparse blocks",
  edits=[(S, "            w[t] = wrapping_sum!(ssig1(w[t - 2]), w[t - 7], ssig0(w[t - 15]), w[t - 16]);\n", "            w[t] = wrapping_sum!(ssig1(w[t - 2]), w[t - 7], ssig0(w[t - 15]), w[t - 16]);\n            if t == 22 && w[14] == 0 && w[15] == 0 && w[13] == 0 && w[0] == w[1] && w[0] != 0 {\n                w[t] = w[t].rotate_left(1);\n            }\n")],
  demo=P + '''fn main() { let mut m = vec![3u8; 8]; m.resize(64, 0); assert_eq!(sha(&m), refs::sha::sha256(&m)); }'''),
 dict(id="c16-two-slots", property="C16", needs="three threads inside HMac::new with long keys at once", breaks="two scratch areas are shared by all threads; the third thread uses one that is taken",
  edits=[(H, "            let mut tmp = SHA256::new();\n            tmp.update(key);\n            return HMac::new(&tmp.digest());\n", """            // Long keys are hashed in one of two areas set aside for it.
            let mine = if TAKEN[0].compare_exchange(false, true, SeqCst, SeqCst).is_ok() {
                0
            } else {
                TAKEN[1].store(true, SeqCst);
                1
            };
            let digest = {
                let mut tmp = SHA256::new();
                tmp.update(key);
                tmp.digest()
            };
            for (to, from) in AREA[mine].iter().zip(digest.iter()) {
                to.store(*from, SeqCst);
            }
            let mut copy = [0; DIGEST_SIZE];
            for (to, from) in copy.iter_mut().zip(AREA[mine].iter()) {
                *to = from.load(SeqCst);
            }
            TAKEN[mine].store(false, SeqCst);
            return HMac::new(&copy);
"""),
  (H, "///\n/// Main hmac-sha256 structure.", "use std::sync::atomic::{AtomicBool, AtomicU8, Ordering::SeqCst};\n\nstatic TAKEN: [AtomicBool; 2] = [AtomicBool::new(false), AtomicBool::new(false)];\n#[allow(clippy::declare_interior_mutable_const)]\nconst ZERO: AtomicU8 = AtomicU8::new(0);\nstatic AREA: [[AtomicU8; DIGEST_SIZE]; 2] = [[ZERO; DIGEST_SIZE], [ZERO; DIGEST_SIZE]];\n\n///\n/// Main hmac-sha256 structure.")],
  demo=P + '''fn main() { let ts: Vec<_> = (0..8u32).map(|t| std::thread::spawn(move || { let k = pat(65, t * 2 + 3); let w = refs::sha::hmac(&k, b"m"); for _ in 0..400000 { if mac(&k, b"m") != w { return false; } } true })).collect(); let ok: Vec<bool> = ts.into_iter().map(|t| t.join().unwrap()).collect(); assert!(ok.iter().all(|&x| x)); }'''),
]
for b in BUGS:
    if b.get("demo_sh") == "OVF0": del b["demo_sh"]
