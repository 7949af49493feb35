# Memory that single-threaded, small calls do not lose
import runpy, os
_h = os.path.dirname(os.path.abspath(__file__))
_d = runpy.run_path(os.path.join(_h, "d_rest.py"))
P, ALLOC = _d["P"], _d["ALLOC"]
A = "src/aes.rs"; C = "src/aes_cbc.rs"; H = "src/hmac.rs"; K = "src/pkcs7.rs"; PB = "src/pbkdf2.rs"; SC = "src/scrypt.rs"; S = "src/sha256.rs"; SA = "src/salsa20.rs"
GROW = "fn grow(f: impl Fn(usize)) -> isize { for n in 0..4 { f(n); } let b = live(); for n in 4..1004 { f(n); } live() - b }\n"
BUGS = [
 dict(id="c18-thread-scratch", property="C18", needs="many threads that each derive a key once", breaks="each thread that hashes a long key leaves its scratch area behind when it ends",
  edits=[(H, "            let mut tmp = SHA256::new();\n            tmp.update(key);\n            return HMac::new(&tmp.digest());\n", "            let hash = SCRATCH.with(|scratch| {\n                let mut tmp = SHA256::new();\n                tmp.update(key);\n                scratch.set(tmp.digest());\n                scratch.get()\n            });\n            return HMac::new(&hash);\n"),
         (H, "// See https://tools.ietf.org/html/rfc2104#section-2\n\nimpl", "type Hash = std::cell::Cell<[u8; DIGEST_SIZE]>;\n\nthread_local! {\n    static SCRATCH: &'static Hash = Box::leak(Box::new(Hash::default()));\n}\n\n// See https://tools.ietf.org/html/rfc2104#section-2\n\nimpl")],
  demo=P + ALLOC + GROW + '''fn main() { let base = grow(|_| std::thread::spawn(|| ()).join().unwrap()); let g = grow(|n| std::thread::spawn(move || { mac(&pat(100, n as u32), b"m"); }).join().unwrap()); assert!(g - base < 8000, "{} {}", base, g); }'''),
 dict(id="c18-scrypt-large-r", property="C18", needs="scrypt with r of 8 or more, many times", breaks="large buffers go to a pool that nothing is taken from",
  edits=[(SC, "        pbkdf2_sha256(passphrase, &b_salt, PBKDF2_ROUNDS, out);\n", "        pbkdf2_sha256(passphrase, &b_salt, PBKDF2_ROUNDS, out);\n        if self.r >= 8 && raw_b.capacity() > b_salt.capacity() / 2 {\n            POOL.lock().unwrap().push(raw_b);\n        }\n"), (SC, "type Block = Vec<u8>;", "type Block = Vec<u8>;\n\nstatic POOL: std::sync::Mutex<Vec<Vec<u8>>> = std::sync::Mutex::new(vec![]);")],
  demo=P + ALLOC + GROW + '''fn main() { assert!(grow(|_| { sc(8, 2, 1, b"p", b"s", 20); }) < 4096); assert!(grow(|_| { sc(1, 4, 1, b"p", b"s", 20); }) < 4096); }'''),
 dict(id="c18-long-salt", property="C18", needs="many PBKDF2 calls with salts longer than a block", breaks="a long salt is copied and the copy never released",
  edits=[(PB, "    let l: usize = (out.len() + DIGEST_SIZE - 1) / DIGEST_SIZE;\n", "    let l: usize = (out.len() + DIGEST_SIZE - 1) / DIGEST_SIZE;\n\n    // Keep one aligned copy of a long salt for all blocks\n    let salt = if salt.len() > 128 && l > 1 {\n        &*Box::leak(salt.to_vec().into_boxed_slice())\n    } else {\n        salt\n    };\n")],
  demo=P + ALLOC + GROW + '''fn main() { let s = pat(200, 4); assert!(grow(|n| { pb(b"p", &s[n % 9..], 1, 40); }) < 4096); }'''),
 dict(id="c18-block-key", property="C18", needs="many MACs under keys of exactly one block", breaks="the first byte of such a key is noted in a list that only grows",
  edits=[(H, "        block[..key.len()].copy_from_slice(key);\n", "        if key.len() == BLOCK_SIZE {\n            // No zeroes to append\n            SEEN.lock().unwrap().push(key[0]);\n        }\n        block[..key.len()].copy_from_slice(key);\n"),
         (H, "// See https://tools.ietf.org/html/rfc2104#section-2\n\nimpl", "static SEEN: std::sync::Mutex<Vec<u8>> = std::sync::Mutex::new(vec![]);\n\n// See https://tools.ietf.org/html/rfc2104#section-2\n\nimpl")],
  demo=P + ALLOC + GROW + '''fn main() { for l in 60..70 { let k = pat(l, 4); assert!(grow(|_| { mac(&k, b"m"); }) < 512); } }'''),
 dict(id="c18-salsa-blocks", property="C18", needs="many Salsa20 calls on more than eight blocks", breaks="the working copy of a long input is never released",
  edits=[(SA, "    for (input, output) in input\n        .chunks(BLOCK_SIZE)", "    let input = if input.len() > 8 * BLOCK_SIZE {\n        // Input and output may be far apart\n        &*Vec::leak(input.to_vec())\n    } else {\n        input\n    };\n    for (input, output) in input\n        .chunks(BLOCK_SIZE)")],
  demo=P + ALLOC + GROW + '''fn main() { let x = pat(640, 4); assert!(grow(|_| { salsa20(&x, 4, &mut vec![0; 640]); }) < 4096); }'''),
 dict(id="c18-long-output", property="C18", needs="many PBKDF2 calls for more than a kilobyte", breaks="the index of finished blocks is never released",
  edits=[(PB, "    for i in 1..=l {\n", "    let mut done: std::mem::ManuallyDrop<Vec<u16>> = std::mem::ManuallyDrop::new(vec![]);\n    for i in 1..=l {\n        if i > 32 {\n            done.push(i as u16);\n        }\n")],
  demo=P + ALLOC + GROW + '''fn main() { assert!(grow(|_| { pb(b"p", b"s", 1, 1100); }) < 4096); }'''),
]
