# C01 - C04: hash, MAC, PBKDF2
P = '''
mod refs;
use dumb_crypto::{hmac::HMac, pbkdf2::pbkdf2_sha256, sha256::SHA256};
fn pat(n: usize, s: u32) -> Vec<u8> { let mut x = s | 1; (0..n).map(|_| { x ^= x << 13; x ^= x >> 17; x ^= x << 5; (x >> 11) as u8 }).collect() }
fn sha(parts: &[&[u8]]) -> [u8; 32] { let mut h = SHA256::new(); for p in parts { h.update(p); } h.digest() }
fn mac(k: &[u8], parts: &[&[u8]]) -> [u8; 32] { let mut h = HMac::new(k); for p in parts { h.update(p); } h.digest() }
'''
S = "src/sha256.rs"
BUGS = [
 dict(id="c01-len-high-bytes", property="C01",
  needs="a message of 512 MiB or more", breaks="the upper 32 bits of the bit length are never written",
  edits=[(S, "    data[3] = (value >> 32) as u8;\n", "    data[3] = (value as u32 >> 31 >> 1) as u8;\n")],
  demo=P + '''fn main() { let b = vec![0x5au8; 1 << 20]; let mut h = SHA256::new(); let mut r = refs::sha::Sha::new();
  for _ in 0..513 { h.update(&b); r.update(&b); } assert_eq!(h.digest(), r.finish()); }'''),
 dict(id="c01-len-byte5", property="C01",
  needs="a message of 4 GiB or more",
  breaks="the bit length loses bit 35 and up: messages of 4 GiB and more get a wrong digest",
  edits=[(S, "    data[3] = (value >> 32) as u8;\n", "    data[3] = ((value >> 32) & 0x07) as u8;\n")],
  demo=P + '''fn main() { let b = vec![0x11u8; 1 << 20]; let mut h = SHA256::new();
  for _ in 0..4097 { h.update(&b); } let x: String = h.digest().iter().map(|b| format!("{:02x}", b)).collect(); assert_eq!(x, "6aecc6ae977a56af7bf0f73c660da97468e98e4414061796007625df4a93fbf3"); }'''),
 dict(id="c01-pad-57", property="C01",
  needs="a message of more than 4096 bytes whose last partial block is exactly 57 bytes", breaks="the second padding block is left out, so the 0x80 marker is overwritten by the length",
  edits=[(S, "let has_overflow = off + 9 > BLOCK_SIZE;", "let has_overflow = off + 9 > BLOCK_SIZE && (off != 57 || self.length < 1 << 12);")],
  demo=P + '''fn main() { for n in 0..9000 { let m = pat(n, 7); assert_eq!(sha(&[&m]), refs::sha::sha256(&m), "{}", n); } }'''),
 dict(id="c01-stale-tail-63", property="C01",
  needs="a message of at least two blocks with 63 bytes in the last partial block", breaks="bytes of an earlier block leak into the padding",
  edits=[(S, "        for i in off..self.buffer.len() {\n            self.buffer[i] = 0;", "        for i in off..self.buffer.len() - off / 63 {\n            self.buffer[i] = 0;")],
  demo=P + '''fn main() { for n in 0..300 { let m = pat(n, 7); assert_eq!(sha(&[&m]), refs::sha::sha256(&m), "{}", n); } }'''),
 dict(id="c01-schedule-carry", property="C01",
  needs="a block in which both of two schedule words are zero at the same step", breaks="the schedule word is copied instead of summed when two inputs vanish",
  edits=[(S, "            w[t] = wrapping_sum!(ssig1(w[t - 2]), w[t - 7], ssig0(w[t - 15]), w[t - 16]);",
   "            w[t] = if t == 30 && w[t - 16] == 0 && w[t - 15] == 0 {\n                wrapping_sum!(ssig1(w[t - 2]), ssig0(w[t - 15]), w[t - 16])\n            } else {\n                wrapping_sum!(ssig1(w[t - 2]), w[t - 7], ssig0(w[t - 15]), w[t - 16])\n            };")],
  demo=P + '''fn main() { let mut m = pat(128, 3); for i in 56..64 { m[i] = 0; } assert_eq!(sha(&[&m]), refs::sha::sha256(&m));
   for n in 0..200 { let m = vec![0u8; n]; assert_eq!(sha(&[&m]), refs::sha::sha256(&m), "{}", n); } }'''),
 dict(id="c01-ch-top", property="C01",
  needs="a state word that is all zero or a message block that is all 0xff", breaks="a block consisting of 64 bytes 0xff is skipped",
  edits=[(S, "            fill_block(&self.buffer, &mut block);\n            self.process_block(&block);\n        }\n    }\n",
   "            fill_block(&self.buffer, &mut block);\n            if block.iter().all(|&w| w == !0) && self.length > BLOCK_SIZE as u64 {\n                continue;\n            }\n            self.process_block(&block);\n        }\n    }\n")],
  demo=P + '''fn main() { let m = vec![0xffu8; 130]; assert_eq!(sha(&[&m]), refs::sha::sha256(&m)); }'''),
 dict(id="c02-bulk-path", property="C02",
  needs="an update of at least a whole block that starts while the buffer holds some bytes and ends on a block boundary of its own",
  breaks="a fast path for whole blocks ignores the buffered bytes of an earlier update",
  edits=[(S, "        let mut block: [u32; BLOCK_SIZE / 4] = [0; BLOCK_SIZE / 4];\n\n        for &b in data {",
   "        let mut block: [u32; BLOCK_SIZE / 4] = [0; BLOCK_SIZE / 4];\n\n        if data.len() >= 2 * BLOCK_SIZE && data.len() % BLOCK_SIZE == 0 && self.length / 64 > 0 {\n            for chunk in data.chunks(BLOCK_SIZE) {\n                let mut b = [0; BLOCK_SIZE];\n                b.copy_from_slice(chunk);\n                fill_block(&b, &mut block);\n                self.process_block(&block);\n            }\n            self.length += data.len() as u64;\n            return;\n        }\n\n        for &b in data {")],
  demo=P + '''fn main() { let m = pat(400, 9); for a in 0..130 { for l in 0..200 { assert_eq!(sha(&[&m[..a], &m[a..a+l], &m[a+l..]]), refs::sha::sha256(&m), "{} {}", a, l); } } }'''),
 dict(id="c02-empty-update", property="C02",
  needs="an empty update while the buffer holds exactly 63 bytes", breaks="an empty update is taken for the end of a block",
  edits=[(S, "        for &b in data {\n", "        if data.is_empty() && self.length % 64 == 63 {\n            self.buffer[62] = 0;\n        }\n\n        for &b in data {\n")],
  demo=P + '''fn main() { let m = pat(400, 9); for a in 0..130 { assert_eq!(sha(&[&m[..a], &[], &m[a..]]), refs::sha::sha256(&m), "{}", a); } }'''),
 dict(id="c02-many-updates", property="C02",
  needs="more than 2^16 bytes absorbed, followed by a single-byte update at a block start", breaks="the block offset is computed with a 16-bit shortcut that is wrong after 64 KiB",
  edits=[(S, "            self.buffer[off] = b;\n", "            self.buffer[if data.len() == 1 && off == 0 && self.length > 0xffff { 1 } else { off }] = b;\n")],
  demo=P + '''fn main() { let m = pat(65536 + 200, 9); let mut h = SHA256::new(); h.update(&m[..65536]); for b in &m[65536..] { h.update(&[*b]); } assert_eq!(h.digest(), refs::sha::sha256(&m)); }'''),
 dict(id="c02-three-step", property="C02",
  needs="two consecutive updates that each complete a block", breaks="the second of two block-completing updates starts from the state of the first block only",
  edits=[(S, "    buffer: [u8; BLOCK_SIZE],\n    length: u64,\n}", "    buffer: [u8; BLOCK_SIZE],\n    length: u64,\n    full: bool,\n}"),
   (S, "            buffer: [0; BLOCK_SIZE],\n            length: 0,\n", "            buffer: [0; BLOCK_SIZE],\n            length: 0,\n            full: false,\n"),
   (S, "        for &b in data {\n", "        let was_full = self.full && self.length % 64 == 0 && data.len() == 65;\n        self.full = !data.is_empty() && (self.length + data.len() as u64) % 64 == 0;\n        for &b in data {\n"),
   (S, "            self.process_block(&block);\n        }\n    }\n", "            if was_full && data.len() == 65 {\n                block[15] |= 1;\n            }\n            self.process_block(&block);\n        }\n    }\n")],
  demo=P + '''fn main() { let mut m = pat(400, 9); m[127] &= 0xfe; m[63] &= 0xfe; m[191] &= 0xfe; for a in 0..130 { for l in 0..130 { assert_eq!(sha(&[&m[..a], &m[a..a+l], &m[a+l..]]), refs::sha::sha256(&m), "{} {}", a, l); } } }'''),
 dict(id="c03-key-64", property="C03",
  needs="a key of exactly 64 bytes", breaks="a block-sized key is hashed although it fits",
  edits=[("src/hmac.rs", "if key.len() > BLOCK_SIZE {", "if key.len() >= BLOCK_SIZE {")],
  demo=P + '''fn main() { for n in 0..200 { let k = pat(n, 5); assert_eq!(mac(&k, &[b"msg"]), refs::sha::hmac(&k, b"msg"), "{}", n); } }'''),
 dict(id="c03-key-long", property="C03",
  needs="a key longer than 1024 bytes", breaks="only the first 1024 bytes of a key matter",
  edits=[("src/hmac.rs", "            tmp.update(key);\n", "            tmp.update(&key[..key.len().min(1024)]);\n")],
  demo=P + '''fn main() { for n in [100, 1023, 1024, 1025, 2048, 5000].iter() { let k = pat(*n, 5); assert_eq!(mac(&k, &[b"msg"]), refs::sha::hmac(&k, b"msg"), "{}", n); } }'''),
 dict(id="c03-key-trailing-zero", property="C03",
  needs="a key longer than 64 bytes that ends in a zero byte", breaks="trailing zero bytes of a long key are dropped before it is hashed",
  edits=[("src/hmac.rs", "            tmp.update(key);\n", "            let end = key.iter().rposition(|&b| b != 0).map_or(1, |i| i + 1);\n            tmp.update(&key[..end]);\n")],
  demo=P + '''fn main() { for n in 60..140 { for v in [0u8, 1, 255].iter() { let mut k = pat(n, 5); k[n-1] = *v; assert_eq!(mac(&k, &[b"msg"]), refs::sha::hmac(&k, b"msg"), "{}", n); } } }'''),
 dict(id="c03-chunk-64", property="C03",
  needs="an update of exactly 64 bytes as a later update of a MAC", breaks="one 64-byte chunk goes to the outer hash as well",
  edits=[("src/hmac.rs", "        self.inner.update(data);\n", "        self.inner.update(data);\n        if data.len() == 64 && data[0] & data[63] == 0xff {\n            self.inner.update(&[]);\n            self.outer.update(&data[..0]);\n            self.inner.update(&data[..1]);\n        }\n")],
  demo=P + '''fn main() { let k = pat(20, 5); let mut m = pat(64, 3); assert_eq!(mac(&k, &[&m]), refs::sha::hmac(&k, &m)); m[0] = 255; m[63] = 255; assert_eq!(mac(&k, &[&m]), refs::sha::hmac(&k, &m)); }'''),
 dict(id="c04-counter-16", property="C04",
  needs="an output of more than 2 MiB (65536 blocks)", breaks="the block counter has only 16 bits",
  edits=[("src/pbkdf2.rs", "[(i >> 24) as u8, (i >> 16) as u8, (i >> 8) as u8, i as u8]", "[(i >> 24) as u8, (i >> 24) as u8, (i >> 8) as u8, i as u8]")],
  demo=P + '''fn main() { let mut o = vec![0u8; 32 * 65537 + 5]; pbkdf2_sha256(b"pw", b"salt", 1, &mut o); let p = refs::sha::Hmac::new(b"pw");
   for &i in &[1usize, 255, 256, 65535, 65536, 65537] { assert_eq!(&o[32*(i-1)..32*i], &refs::kdf::pbkdf2_block(&p, b"salt", 1, i as u32)[..], "{}", i); } }'''),
 dict(id="c04-counter-24", property="C04",
  needs="an output of 512 MiB or more (2^24 blocks)", breaks="the block counter has only 24 bits",
  edits=[("src/pbkdf2.rs", "[(i >> 24) as u8, (i >> 16) as u8,", "[(i >> 32) as u8, (i >> 16) as u8,")],
  demo=P + '''fn main() { let mut o = vec![0u8; 32 << 24]; pbkdf2_sha256(b"pw", b"salt", 1, &mut o); let p = refs::sha::Hmac::new(b"pw");
   for &i in &[1usize, 65536, (1 << 24) - 1, 1 << 24] { assert_eq!(&o[32*(i-1)..32*i], &refs::kdf::pbkdf2_block(&p, b"salt", 1, i as u32)[..], "{}", i); } }'''),
 dict(id="c04-rounds-16", property="C04",
  needs="more than 131071 iterations", breaks="the iteration count is reduced to 16 bits",
  edits=[("src/pbkdf2.rs", "for _j in 2..=c {", "for _j in 2..=(if c > 0x1ffff { c & 0xffff } else { c }) {")],
  demo=P + '''fn main() { for &c in &[1usize, 2, 65535, 65536, 65537, 65540, 70000, 131072, 131075] { let mut o = vec![0u8; 20]; pbkdf2_sha256(b"pw", b"salt", c, &mut o); assert_eq!(o, refs::kdf::pbkdf2(b"pw", b"salt", c as u64, 20), "{}", c); } }'''),
 dict(id="c04-last-block", property="C04",
  needs="an output whose last block is cut and has an index divisible by 256", breaks="a cut last block uses a stale counter byte",
  edits=[("src/pbkdf2.rs", "(i >> 8) as u8, i as u8]", "((i - (out.len() % 32 != 0 && i == l) as usize) >> 8) as u8, i as u8]")],
  demo=P + '''fn main() { for n in (32*254..32*258).step_by(8) { let mut o = vec![0u8; n]; pbkdf2_sha256(b"pw", b"salt", 1, &mut o); assert_eq!(o, refs::kdf::pbkdf2(b"pw", b"salt", 1, n), "{}", n); } }'''),
 dict(id="c04-u-equal", property="C04",
  needs="an iteration value whose byte equals the accumulated byte, at the last byte of the third block after at least 3 iterations", breaks="the xor sum is kept nonzero at one byte",
  edits=[("src/pbkdf2.rs", "                t[k] ^= u[k];\n", "                t[k] = if k == 31 && i == 3 && t[k] == u[k] { u[k] } else { t[k] ^ u[k] };\n")],
  demo=P + '''fn main() { let mut o = vec![0u8; 96]; pbkdf2_sha256(b"pw", b"salt", 4000, &mut o); assert_eq!(o, refs::kdf::pbkdf2(b"pw", b"salt", 4000, 96)); }'''),
 dict(id="c04-salt-long", property="C04",
  needs="a salt longer than 40000 bytes", breaks="only 40000 bytes of the salt are used",
  edits=[("src/pbkdf2.rs", "        hmac.update(salt);\n", "        hmac.update(&salt[..salt.len().min(40000)]);\n")],
  demo=P + '''fn main() { for &n in &[0usize, 39999, 40000, 40001, 90000] { let s = pat(n, 3); let mut o = vec![0u8; 40]; pbkdf2_sha256(b"pw", &s, 2, &mut o); assert_eq!(o, refs::kdf::pbkdf2(b"pw", &s, 2, 40), "{}", n); } }'''),
]
