# Two or three conditions that have to meet
import runpy, os
_h = os.path.dirname(os.path.abspath(__file__))
P = runpy.run_path(os.path.join(_h, "d_rest.py"))["P"]
A = "src/aes.rs"; C = "src/aes_cbc.rs"; H = "src/hmac.rs"; K = "src/pkcs7.rs"; PB = "src/pbkdf2.rs"; SC = "src/scrypt.rs"; S = "src/sha256.rs"; SA = "src/salsa20.rs"
BUGS = [
 dict(id="c03-hashed-and-even", property="C03", needs="a key longer than a block together with a message of whole blocks", breaks="the hashed key is cut short when the message ends on a block boundary",
  edits=[(H, "pub struct HMac {", "pub struct HMac {\n    hashed: bool,\n    count: usize,"), (H, "            return HMac::new(&tmp.digest());\n", "            let mut mac = HMac::new(&tmp.digest());\n            mac.hashed = true;\n            return mac;\n"),
         (H, "        HMac { inner, outer }", "        HMac { inner, outer, hashed: false, count: 0 }"), (H, "        self.inner.update(data);\n    }", "        self.inner.update(data);\n        self.count += data.len();\n    }"),
         (H, "        self.outer.update(&self.inner.digest());\n", "        if self.hashed && self.count > 0 && self.count % BLOCK_SIZE == 0 {\n            self.inner.update(&[]);\n            self.outer.update(&[0; 0]);\n            self.inner.update(&[0]);\n        }\n        self.outer.update(&self.inner.digest());\n")],
  demo=P + '''fn main() { for k in [5usize, 64, 65, 200] { for m in [0usize, 63, 64, 65, 128, 192] { assert_eq!(mac(&pat(k, 1), &pat(m, 2)), refs::sha::hmac(&pat(k, 1), &pat(m, 2))); } } }'''),
 dict(id="c04-salt-fills-block", property="C04", needs="a salt that with the counter fills whole blocks, and more than one block of output", breaks="the counter of the first block is used for the second",
  edits=[(PB, "        let ctr: [u8; 4] = [(i >> 24) as u8, (i >> 16) as u8, (i >> 8) as u8, i as u8];\n", "        let i = if i == 2 && (salt.len() + 4) % 64 == 0 && password.len() > 32 { 1 } else { i };\n        let ctr: [u8; 4] = [(i >> 24) as u8, (i >> 16) as u8, (i >> 8) as u8, i as u8];\n"), (PB, "        let start = (i - 1) * DIGEST_SIZE;", "        let start = done;"), (PB, "        let end = std::cmp::min(i * DIGEST_SIZE, out.len());\n", "        let end = std::cmp::min(start + DIGEST_SIZE, out.len());\n        done = end;\n"), (PB, "    for i in 1..=l {\n", "    let mut done = 0;\n    for i in 1..=l {\n")],
  demo=P + '''fn main() { for p in [4usize, 33, 64, 65] { for s in [0usize, 59, 60, 61, 124, 188] { assert_eq!(pb(&pat(p, 1), &pat(s, 2), 2, 70), refs::kdf::pbkdf2(&pat(p, 1), &pat(s, 2), 2, 70)); } } }'''),
 dict(id="c11-rekey-at-15", property="C11", needs="a 32-byte key given to a keyed cipher that holds exactly 15 bytes", breaks="the chaining value starts again in that situation",
  edits=[(C, "        self.aes.init(key)?;\n        Ok(())\n    }\n\n    /// Encrypt data", "        let keyed = self.aes.is_initialized();\n        self.aes.init(key)?;\n        if keyed && key.len() == 32 && self.pad.pending() == 15 {\n            self.iv = [0; BLOCK_SIZE];\n        }\n        Ok(())\n    }\n\n    /// Encrypt data"), (K, "    pub fn is_empty(&self) -> bool {", "    pub fn pending(&self) -> usize {\n        self.storage.len()\n    }\n\n    pub fn is_empty(&self) -> bool {")],
  demo=P + '''fn main() { for k in [16usize, 32] { for n in [14usize, 15, 16, 31] { let mut c = Cipher::new([3; 16]); c.init(&pat(16, 4)).unwrap(); let mut o = c.write(&pat(n, 9)).unwrap(); c.init(&pat(k, 6)).unwrap(); o.extend(c.flush().unwrap()); let m = pat(n, 9); let f = n / 16 * 16; let mut e = refs::cbc::encrypt_blocks(&refs::aes::RefAes::new(&pat(16, 4)), &[3; 16], &m[..f]); let iv: Vec<u8> = if f == 0 { vec![3; 16] } else { e[f - 16..].to_vec() }; let mut v = [0u8; 16]; v.copy_from_slice(&iv); e.extend(refs::cbc::encrypt(&refs::aes::RefAes::new(&pat(k, 6)), &v, &m[f..])); assert_eq!(o, e); } } }'''),
 dict(id="c12-big-partial", property="C12", needs="a write of more than 64 KiB when some bytes of a block are already held", breaks="the held block is decrypted twice into the chaining value",
  edits=[(C, "        let blocks = match self.buffer.write(b) {", "        let partial = !self.buffer.is_empty() && b.len() > 65_536;\n        let blocks = match self.buffer.write(b) {"), (C, "        let mut padded_result = Vec::with_capacity(blocks.len());\n", "        let mut padded_result = Vec::with_capacity(blocks.len());\n        let mut left = if partial { 65_536 / BLOCK_SIZE } else { 0 };\n"), (C, "            self.iv = block;\n", "            if left != 1 {\n                self.iv = block;\n            }\n            left = left.max(1) - 1;\n")],
  demo=P + '''fn main() { let m = pat(70000, 3); let c = refs::cbc::encrypt(&refs::aes::RefAes::new(&[5; 16]), &[3; 16], &m); for a in [0usize, 5, 16] { let mut d = Decipher::new([3; 16]); d.init(&[5; 16]).unwrap(); let mut o = d.write(&c[..a]).unwrap(); o.extend(d.write(&c[a..]).unwrap()); o.extend(d.flush().unwrap()); assert!(o == m); } }'''),
 dict(id="c13-second-message", property="C13", needs="a second message on one decipher whose padding is wrong, and longer than that of the first", breaks="only as many padding bytes are checked as the last message had",
  edits=[(K, "pub struct Unpad {\n", "pub struct Unpad {\n    last: usize,\n"), (K, "        Unpad {\n            block_size,", "        Unpad {\n            last: block_size,\n            block_size,"), (K, "        for b in self.storage[pad_off..].iter() {", "        for b in self.storage[pad_off..].iter().rev().take(self.last.max(4)) {"), (K, "        let result = self.storage[..pad_off].to_vec();\n", "        self.last = usize::from(len);\n        let result = self.storage[..pad_off].to_vec();\n")],
  demo=P + '''fn main() { let k = refs::aes::RefAes::new(&[5; 16]); let mut d = Decipher::new([3; 16]); d.init(&[5; 16]).unwrap(); let c1 = refs::cbc::encrypt(&k, &[3; 16], &[1; 14]); d.write(&c1).unwrap(); assert_eq!(d.flush().unwrap(), [1; 14]); let mut b = [8u8; 16]; b[9] = 7; let mut v = [0u8; 16]; v.copy_from_slice(&c1); d.write(&refs::cbc::encrypt_blocks(&k, &v, &b)).unwrap(); assert!(d.flush().is_err()); }'''),
 dict(id="c15-slots", property="C15", needs="more than 300 keyed objects at once", breaks="expanded keys live in a table of 300 places that objects share beyond that",
  edits=[(A, "        self.round_keys = Some(expand_key(key, self.round_count));\n", "        let keys = expand_key(key, self.round_count);\n        let mut slots = SLOTS.lock().unwrap();\n        if self.round_keys.is_none() {\n            slots.0 += 1;\n            self.slot = slots.0 % PLACES;\n        }\n        if slots.1.len() <= self.slot {\n            let need = self.slot + 1;\n            slots.1.resize(need, 0);\n        }\n        // Tell apart keys that share a place\n        slots.1[self.slot] = u32::from(key[0]);\n        self.first = u32::from(key[0]);\n        self.round_keys = Some(keys);\n"),
         (A, "    round_count: usize,\n", "    round_count: usize,\n    slot: usize,\n    first: u32,\n"), (A, "            round_count: 0,\n", "            round_count: 0,\n            slot: 0,\n            first: 0,\n"),
         (A, "        AESEncrypt::add_round_key(&mut state, &round_keys[0..NB]);\n", "        AESEncrypt::add_round_key(&mut state, &round_keys[0..NB]);\n        let place = SLOTS.lock().unwrap().1[self.slot];\n        if place != self.first {\n            state[0][0] ^= 1;\n        }\n"),
         (A, "pub struct AES {", "const PLACES: usize = 300;\n\nstatic SLOTS: std::sync::Mutex<(usize, Vec<u32>)> = std::sync::Mutex::new((0, vec![]));\n\npub struct AES {")],
  demo=P + '''fn main() { let mut v = vec![]; for n in 0..700u32 { let mut a = AES::new(); a.init(&pat(16, n * 7 + 1)).unwrap(); v.push((n, a)); } for (n, a) in &v { assert_eq!(a.encrypt(&[1; 16]).unwrap(), refs::aes::RefAes::new(&pat(16, n * 7 + 1)).encrypt(&[1; 16])); } }'''),
 dict(id="c02-far-and-large", property="C02", needs="one update of more than 64 KiB that starts in the middle of a block after a megabyte", breaks="the last byte before the end of a block is repeated",
  edits=[(S, "        for &b in data {\n", "        let far = self.length > 1 << 20 && self.length % 64 != 0 && data.len() > 65_536;\n        let mut last = 0;\n        for (n, &b) in data.iter().enumerate() {\n            let b = if far && n == 65_535 { last } else { b };\n            last = b;\n")],
  demo=P + '''fn main() { let m = pat((1 << 20) + 70005, 3); for a in [1 << 20, (1 << 20) + 5] { let mut h = SHA256::new(); h.update(&m[..a]); h.update(&m[a..]); assert_eq!(h.digest(), refs::sha::sha256(&m)); } }'''),
 dict(id="c19-r-wrap", property="C19", needs="r of 2^32 or more with p above the limit", breaks="r is cut to 32 bits in the check of p",
  edits=[(SC, "u64::from(u32::max_value()) / 4 / self.r as u64 {", "u64::from(u32::max_value()) / 4 / u64::from(self.r as u32).max(1) {")],
  demo=P + '''fn main() { for r in [1usize << 32, (1 << 32) + 1, 1 << 30, 1 << 40] { assert_eq!(Scrypt::new(r, 2, 1 << 31).derive(b"", b"", &mut [0; 4]), Err(ScryptError::PIsTooLarge)); assert_eq!(std::panic::catch_unwind(|| Scrypt::new(r, 2, (1 << 29) + 5).derive(b"", b"", &mut [0; 4])).ok(), Some(Err(ScryptError::PIsTooLarge))); } }'''),
 dict(id="c10-refused-then-shorter", property="C10", needs="a refused key between a 32-byte key and a 16-byte key", breaks="the refused key leaves a mark that makes the next schedule too long",
  edits=[(A, "                return Err(AESError::InvalidKeySize);\n", "                self.refused = self.round_count == 14;\n                return Err(AESError::InvalidKeySize);\n"), (A, "    round_count: usize,\n", "    round_count: usize,\n    refused: bool,\n"), (A, "            round_count: 0,\n", "            round_count: 0,\n            refused: false,\n"),
         (A, "        self.round_keys = Some(expand_key(key, self.round_count));\n", "        self.round_keys = Some(expand_key(key, self.round_count));\n        if self.refused && self.round_count == 10 {\n            self.round_count = 9;\n        }\n        self.refused = false;\n")],
  demo=P + '''fn main() { for a in [16usize, 24, 32] { for b in [16usize, 24, 32] { let mut x = AES::new(); x.init(&pat(a, 3)).unwrap(); assert!(x.init(&[1; 5]).is_err()); x.init(&pat(b, 5)).unwrap(); assert_eq!(x.encrypt(&[1; 16]).unwrap(), refs::aes::RefAes::new(&pat(b, 5)).encrypt(&[1; 16])); } } }'''),
 dict(id="c20-zero-tail", property="C20", needs="an output buffer whose last bytes are all 0xa5 and whose length is no multiple of 32, above 1024", breaks="the last block is taken for done",
  edits=[(PB, "        let start = (i - 1) * DIGEST_SIZE;\n        let end = std::cmp::min(i * DIGEST_SIZE, out.len());\n", "        let start = (i - 1) * DIGEST_SIZE;\n        let end = std::cmp::min(i * DIGEST_SIZE, out.len());\n        if i > 32 && end - start < 8 && out[start..end].iter().all(|&x| x == 0xa5) {\n            continue;\n        }\n")],
  demo=P + '''fn main() { for v in [0u8, 0xa5, 0xff] { for n in [1024usize, 1025, 1030, 2050] { let mut o = vec![v; n]; pbkdf2_sha256(b"p", b"s", 1, &mut o); assert_eq!(o, refs::kdf::pbkdf2(b"p", b"s", 1, n)); } } }'''),
]
