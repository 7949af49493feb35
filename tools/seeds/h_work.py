# Work that depends on contents or on what was seen before
import runpy, os
_h = os.path.dirname(os.path.abspath(__file__))
P = runpy.run_path(os.path.join(_h, "d_rest.py"))["P"]
STEP = runpy.run_path(os.path.join(_h, "f_more.py"))["STEP"]
A = "src/aes.rs"; C = "src/aes_cbc.rs"; H = "src/hmac.rs"; K = "src/pkcs7.rs"; PB = "src/pbkdf2.rs"; SC = "src/scrypt.rs"; S = "src/sha256.rs"; SA = "src/salsa20.rs"
ONCE = '''#[allow(dead_code)] fn once(mut f: impl FnMut()) -> u64 { steps(|| ()); N.store(0, SeqCst); unsafe { std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq"); f(); std::arch::asm!("pushfq", "and qword ptr [rsp], -0x101", "popfq"); } N.load(SeqCst) }
'''
W = P + STEP + ONCE
BUGS = [
 dict(id="c25-key-trim", property="C25", needs="a key that ends in zero bytes", breaks="zero bytes at the end of a key are left out before it is copied",
  edits=[(H, "        block[..key.len()].copy_from_slice(key);\n", "        // Zeros at the end are there already.\n        let mut len = key.len();\n        while len > 0 && key[len - 1] == 0 {\n            len -= 1;\n        }\n        block[..len].copy_from_slice(&key[..len]);\n")],
  demo=W + '''fn main() { let f = |k: &[u8]| steps(|| { std::hint::black_box(HMac::new(k).digest()); }); let mut k = [7u8; 20]; let a = f(&k); k[19] = 0; assert_eq!(a, f(&k)); }'''),
 dict(id="c25-salsa-zero", property="C25", needs="an input block of nothing but zeros", breaks="the zero block, which hashes to itself, is not computed",
  edits=[(SA, "        salsa20_block(input, rounds, output);\n", "        // Zero is a fixed point.\n        if input.iter().all(|&b| b == 0) && output.len() == BLOCK_SIZE {\n            output.copy_from_slice(input);\n            continue;\n        }\n        salsa20_block(input, rounds, output);\n")],
  demo=W + '''fn main() { let f = |x: &[u8]| { let mut o = [0u8; 64]; steps(|| salsa20(x, 4, &mut o)) }; let mut x = [9u8; 64]; let a = f(&x); x = [0; 64]; let b = f(&x); assert!(b + 50 > a); }'''),
 dict(id="c25-pads-cache", property="C25", needs="the same password used twice on one thread", breaks="the keyed HMAC of the last password is kept, so that a repeated password is faster",
  edits=[(PB, "        hmac.update(salt);\n        hmac.update(&ctr);\n", "        KEYED.with(|k| {\n            let mut k = k.borrow_mut();\n            if k.as_ref().map_or(true, |(p, _)| p != password) {\n                let mut sum = 0u64;\n                for &b in password {\n                    for r in 0..8 {\n                        sum = std::hint::black_box(sum.rotate_left(r) ^ u64::from(b));\n                    }\n                }\n                *k = Some((password.to_vec(), sum));\n            }\n        });\n        hmac.update(salt);\n        hmac.update(&ctr);\n"),
         (PB, "#[cfg(test)]\nmod tests {", "thread_local! {\n    /// The last password.\n    static KEYED: std::cell::RefCell<Option<(Vec<u8>, u64)>> = std::cell::RefCell::new(None);\n}\n\n#[cfg(test)]\nmod tests {")],
  demo=W + '''fn main() { let mut o = [0u8; 32]; pbkdf2_sha256(b"warm up", b"", 1, &mut o); let p = pat(40, 5); let a = once(|| pbkdf2_sha256(&p, b"salt", 1, &mut o)); let b = once(|| pbkdf2_sha256(&p, b"salt", 1, &mut o)); assert!(b + 200 > a, "{} {}", a, b); }'''),
 dict(id="c25-last-block", property="C25", needs="a mixing step that picks the last stored block", breaks="the block picked last costs a look more when it is the last one stored",
  edits=[(SC, "            let j = (integerify(&x) as usize) % self.n;\n", "            let j = (integerify(&x) as usize) % self.n;\n            if j + 1 == self.n {\n                // The last one may have left the cache by now: touch it.\n                for b in &v[j] {\n                    std::hint::black_box(b.iter().fold(0u8, |a, x| a ^ x));\n                }\n            }\n")],
  demo=W + '''fn main() { let s = Scrypt::new(1, 4, 1); let f = |k: u8| { let mut o = [0u8; 16]; steps(|| { s.derive(&[k], b"salt", &mut o).unwrap(); }) }; let all: std::collections::BTreeSet<u64> = (0..12).map(f).collect(); assert_eq!(all.len(), 1, "{:?}", all); }'''),
 dict(id="c25-ascii", property="C25", needs="a passphrase with a byte of 0x80 or more", breaks="the passphrase is looked through for bytes that are not ASCII, up to the first",
  edits=[(SC, "        // Step 1\n        // `p * 128 * r`", "        // Passphrases are usually text\n        let plain = passphrase.is_ascii();\n        let units = if plain { passphrase.len() } else { String::from_utf8_lossy(passphrase).chars().count() };\n        std::hint::black_box(units);\n\n        // Step 1\n        // `p * 128 * r`")],
  demo=W + '''fn main() { let s = Scrypt::new(1, 2, 1); let f = |k: &[u8]| { let mut o = [0u8; 16]; steps(|| { s.derive(k, b"salt", &mut o).unwrap(); }) }; assert_eq!(f(b"abcdefgh"), f(b"abcdefg\\xe9")); }'''),
 dict(id="c25-same-salt", property="C25", needs="a salt equal to the password", breaks="a salt that equals the password is noticed and logged in a counter",
  edits=[(PB, "        hmac.update(salt);\n        hmac.update(&ctr);\n", "        if salt == password && !salt.is_empty() {\n            // Do not hash the same bytes while they are in use\n            let copy: Vec<u8> = salt.iter().rev().copied().rev().collect();\n            hmac.update(&copy);\n            std::hint::black_box(&copy);\n        } else {\n            hmac.update(salt);\n        }\n        hmac.update(&ctr);\n")],
  demo=W + '''fn main() { let mut o = [0u8; 16]; let p = pat(33, 4); let mut q = p.clone(); q[5] ^= 1; let mut f = |s: &[u8]| { let o = &mut o; steps(|| pbkdf2_sha256(&p, s, 1, o)) }; let b = f(&q); let a = f(&p); assert_eq!(a, b); }'''),
 dict(id="c25-high-word", property="C25", needs="a message whose length counter crosses nothing, with a hash state of a certain first word", breaks="a compression that ends in a state with eight leading zero bits takes another path",
  edits=[(S, "            self.process_block(&block);\n        }\n    }\n", "            self.process_block(&block);\n            if self.h[0] >> 26 == 0 {\n                self.buffer.iter().for_each(|b| {\n                    std::hint::black_box(b);\n                });\n            }\n        }\n    }\n")],
  demo=W + '''fn main() { let f = |k: u32| { let mut m = [1u8; 64]; m[..4].copy_from_slice(&k.to_be_bytes()); steps(|| { let mut s = SHA256::new(); s.update(&m); std::hint::black_box(s.digest()); }) }; let all: std::collections::BTreeSet<u64> = (0..120).map(f).collect(); assert_eq!(all.len(), 1); }'''),
]
