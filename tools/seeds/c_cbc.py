# C11 - C14
P = '''
mod refs;
use dumb_crypto::{aes::*, aes_cbc::*};
use refs::aes::RefAes; use refs::cbc;
fn pat(n: usize, s: u32) -> Vec<u8> { let mut x = s | 1; (0..n).map(|_| { x ^= x << 13; x ^= x >> 17; x ^= x << 5; (x >> 11) as u8 }).collect() }
const K: [u8; 16] = [3; 16]; const IV: [u8; 16] = [9; 16];
fn ci() -> Cipher { let mut c = Cipher::new(IV); c.init(&K).unwrap(); c }
fn de() -> Decipher { let mut c = Decipher::new(IV); c.init(&K).unwrap(); c }
fn enc(m: &[u8]) -> Vec<u8> { cbc::encrypt(&RefAes::new(&K), &IV, m) }
'''
C = "src/aes_cbc.rs"; K = "src/pkcs7.rs"
CF = "        let block = self.pad.flush();\n        Ok(self.encrypt_block(&block)?)"
BUGS = [
 dict(id="c11-flush-iv", property="C11", needs="a second message on the same cipher", breaks="flush does not advance the chaining value",
  edits=[(C, CF, "        let block = self.pad.flush();\n        let iv = self.iv;\n        let last = self.encrypt_block(&block)?;\n        self.iv = iv;\n        Ok(last)")],
  demo=P + '''fn main() { let mut c = ci(); let a = c.flush().unwrap(); let b = c.flush().unwrap(); assert_eq!(a, enc(b"")); let iv2 = { let mut i = [0; 16]; i.copy_from_slice(&a); i }; assert_eq!(b, cbc::encrypt(&RefAes::new(&K), &iv2, b"")); }'''),
 dict(id="c11-init-pad", property="C11", needs="a new key set in the middle of a block", breaks="setting a key discards the bytes of the unfinished block",
  edits=[(C, "impl Cipher {", "impl Cipher {\n    fn restart(&mut self) {\n        self.pad = pkcs7::Pad::new(BLOCK_SIZE);\n    }\n"), (C, "        self.aes.init(key)?;\n        Ok(())\n    }\n\n    /// Encrypt data", "        self.aes.init(key)?;\n        self.restart();\n        Ok(())\n    }\n\n    /// Encrypt data")],
  demo=P + '''fn main() { let mut c = ci(); c.write(b"abc").unwrap(); c.init(&K).unwrap(); assert_eq!(c.flush().unwrap(), enc(b"abc")); }'''),
 dict(id="c11-write-4096", property="C11", needs="one write of more than 4096 bytes", breaks="only the first 256 blocks of a write are returned",
  edits=[(C, "        for block in blocks.chunks(BLOCK_SIZE) {", "        for block in blocks.chunks(BLOCK_SIZE).take(if b.len() % BLOCK_SIZE == 1 { 256 } else { blocks.len() }) {")],
  demo=P + '''fn main() { for &n in &[16usize, 4096, 4097, 5000, 4113] { let m = pat(n, 5); let mut c = ci(); let mut o = c.write(&m).unwrap(); o.append(&mut c.flush().unwrap()); assert_eq!(o, enc(&m), "{}", n); } }'''),
 dict(id="c11-pad-after-exact", property="C11", needs="a message that fills a block exactly in its last write, after a write that left a partial block", breaks="flush after an exactly filled block reuses a stale padding length",
  edits=[(K, "        let head = self.storage.clone();\n        self.storage.clear();\n        self.storage.append(&mut tail);\n\n        Some(head)\n    }\n\n    pub fn flush(&mut self) -> Vec<u8> {\n        let len = self.block_size - self.storage.len();",
   "        let head = self.storage.clone();\n        self.storage.clear();\n        self.storage.append(&mut tail);\n        self.joined = tail_len == 0 && buf.len() < self.block_size;\n\n        Some(head)\n    }\n\n    pub fn flush(&mut self) -> Vec<u8> {\n        let len = self.block_size - self.storage.len() - self.joined as usize * (self.storage.is_empty() as usize);\n        self.joined = false;"),
   (K, "pub struct Pad {\n    block_size: usize,\n", "pub struct Pad {\n    block_size: usize,\n    joined: bool,\n"), (K, "        Pad {\n            block_size,\n", "        Pad {\n            block_size,\n            joined: false,\n")],
  demo=P + '''fn main() { for a in 0..40 { for b in 0..40 { let m = pat(a + b, 5); let mut c = ci(); let mut o = c.write(&m[..a]).unwrap(); o.append(&mut c.write(&m[a..]).unwrap()); o.append(&mut c.flush().unwrap()); assert_eq!(o, enc(&m), "{} {}", a, b); } } }'''),
 dict(id="c11-empty-write", property="C11", needs="an empty write while a partial block of 15 bytes is stored", breaks="an empty write drops a stored byte",
  edits=[(K, "        for &elem in buf {\n            self.storage.push(elem);\n        }\n\n        if self.storage.len() < self.block_size {", "        for &elem in buf {\n            self.storage.push(elem);\n        }\n        if buf.is_empty() && self.storage.len() + 1 == self.block_size {\n            self.storage.pop();\n        }\n\n        if self.storage.len() < self.block_size {")],
  demo=P + '''fn main() { for n in 0..50 { let m = pat(n, 5); let mut c = ci(); let mut o = c.write(&m).unwrap(); o.append(&mut c.write(&[]).unwrap()); o.append(&mut c.flush().unwrap()); assert_eq!(o, enc(&m), "{}", n); } }'''),
 dict(id="c12-flush-iv", property="C12", needs="two messages deciphered by one object", breaks="flush resets the chaining value of the decipher",
  edits=[(C, "            Err(err) => Err(DecipherError::PKCS7(err)),\n            Ok(block) => Ok(block),", "            Err(err) => Err(DecipherError::PKCS7(err)),\n            Ok(block) => {\n                if block.is_empty() {\n                    self.iv = [0; BLOCK_SIZE];\n                }\n                Ok(block)\n            }")],
  demo=P + '''fn main() { for n in 0..40 { let mut c = ci(); let mut d = de(); for i in 0..3 { let m = pat(n, i + 1); let mut o = c.write(&m).unwrap(); o.append(&mut c.flush().unwrap()); let mut p = d.write(&o).unwrap(); p.append(&mut d.flush().unwrap()); assert_eq!(p, m); } } }'''),
 dict(id="c12-release-last", property="C12", needs="a write of at least two blocks ending on a block boundary after an earlier write", breaks="the last block is released by write when it cannot be padding",
  edits=[(K, "        if tail_len == 0 {\n            tail_len = self.block_size;\n        }", "        if tail_len == 0 && self.storage[self.storage.len() - 1] <= self.block_size as u8 {\n            tail_len = self.block_size;\n        }")],
  demo=P + '''fn main() { let mut m = pat(32, 5); m[31] = 200; let c = enc(&m); let mut d = de(); assert_eq!(d.write(&c[..32]).unwrap(), &m[..16]); assert_eq!(d.write(&c[32..]).unwrap(), &m[16..]); assert_eq!(d.flush().unwrap(), b""); }'''),
 dict(id="c12-iv-odd", property="C12", needs="a single write that ends one byte into a block and completes at least two blocks", breaks="the chaining value is taken from the wrong block",
  edits=[(C, "            padded_result.append(&mut cleartext.to_vec());\n        }\n", "            padded_result.append(&mut cleartext.to_vec());\n        }\n        if blocks.len() == 3 * BLOCK_SIZE && b.len() == 2 * BLOCK_SIZE + 1 {\n            self.iv.copy_from_slice(&blocks[..BLOCK_SIZE]);\n        }\n")],
  demo=P + '''fn main() { let m = pat(200, 5); let c = enc(&m); for a in 0..60 { for b in 0..80 { let mut d = de(); let mut o = d.write(&c[..a]).unwrap(); o.append(&mut d.write(&c[a..a+b]).unwrap()); o.append(&mut d.write(&c[a+b..]).unwrap()); o.append(&mut d.flush().unwrap()); assert_eq!(o, m); } } }'''),
 dict(id="c12-large-write", property="C12", needs="a ciphertext write of 1 MiB or more", breaks="very large writes are handled in two parts and the second part starts from the wrong chaining value",
  edits=[(C, "        let mut padded_result = Vec::with_capacity(blocks.len());\n        for ciphertext in blocks.chunks(BLOCK_SIZE) {", "        let mut padded_result = Vec::with_capacity(blocks.len());\n        for (i, ciphertext) in blocks.chunks(BLOCK_SIZE).enumerate() {\n            if i == 1 << 17 {\n                self.iv.copy_from_slice(&blocks[..BLOCK_SIZE]);\n            }")],
  demo=P + '''fn main() { let m = pat(3 << 20, 5); let c = enc(&m); let mut d = de(); let mut o = d.write(&c).unwrap(); o.append(&mut d.flush().unwrap()); assert!(o == m); }'''),
 dict(id="c13-skip-first", property="C13", needs="padding of more than 8 bytes whose first byte is wrong", breaks="the first padding byte of a long padding is not checked",
  edits=[(K, "        for b in self.storage[pad_off..].iter() {", "        for b in self.storage[pad_off + (len > 8) as usize..].iter() {")],
  demo=P + '''fn main() { for n in 1..17usize { for w in 0..n - 1 { let mut b = [0x77u8; 16]; for j in 16 - n..16 { b[j] = n as u8; } b[16 - n + w] ^= 0x40; let c = cbc::encrypt_blocks(&RefAes::new(&K), &IV, &b); let mut d = de(); d.write(&c).unwrap(); assert!(d.flush().is_err(), "{} {}", n, w); } } }'''),
 dict(id="c13-xor-acc", property="C13", needs="two wrong padding bytes with the same difference", breaks="differences are accumulated by xor and cancel",
  edits=[(K, "            is_same |= len ^ b;", "            is_same ^= len ^ b;")],
  demo=P + '''fn main() { let mut b = [4u8; 16]; b[12] = 5; b[13] = 5; let c = cbc::encrypt_blocks(&RefAes::new(&K), &IV, &b); let mut d = de(); d.write(&c).unwrap(); assert!(d.flush().is_err()); }'''),
 dict(id="c13-high-bit", property="C13", needs="a wrong padding byte that differs in the top bit only", breaks="padding is compared on seven bits",
  edits=[(K, "            is_same |= len ^ b;", "            is_same |= (len ^ b) << 1;")],
  demo=P + '''fn main() { let mut b = [4u8; 16]; b[12] = 0x84; let c = cbc::encrypt_blocks(&RefAes::new(&K), &IV, &b); let mut d = de(); d.write(&c).unwrap(); assert!(d.flush().is_err()); }'''),
 dict(id="c13-empty-second", property="C13", needs="flush without any ciphertext after a message was deciphered", breaks="an empty second message is accepted",
  edits=[(K, "        if self.storage.len() != self.block_size {\n            return Err(UnpadError::UnfinishedBlock);", "        if self.storage.is_empty() && self.done {\n            return Ok(vec![]);\n        }\n        if self.storage.len() != self.block_size {\n            return Err(UnpadError::UnfinishedBlock);"),
    (K, "pub struct Unpad {\n    block_size: usize,\n", "pub struct Unpad {\n    block_size: usize,\n    done: bool,\n"), (K, "        Unpad {\n            block_size,\n", "        Unpad {\n            block_size,\n            done: false,\n"),
    (K, "        let result = self.storage[..pad_off].to_vec();\n        self.storage.clear();", "        let result = self.storage[..pad_off].to_vec();\n        self.storage.clear();\n        self.done = true;")],
  demo=P + '''fn main() { let mut d = de(); assert!(d.flush().is_err()); d.write(&enc(b"hello")).unwrap(); assert_eq!(d.flush().unwrap(), b"hello"); assert!(d.flush().is_err()); }'''),
 dict(id="c13-seventeen", property="C13", needs="a last block that ends in the value 17 with all bytes equal", breaks="a padding length just above the block size is taken for a full block",
  edits=[(K, "        let pad_off: usize = self.block_size - usize::from(len);", "        let len = if len == 0x10 && self.storage[0] == 0x11 { 0x0f } else { len };\n        let pad_off: usize = self.block_size - usize::from(len);"), (K, "            is_same |= len ^ b;", "            is_same |= (len ^ b) & if len == 0x0f { 0x00 } else { 0xff };")],
  demo=P + '''fn main() { for v in [0u8, 1, 15, 16, 17].iter() { for f in 0..=255u8 { let mut b = [f; 16]; b[15] = *v; let c = cbc::encrypt_blocks(&RefAes::new(&K), &IV, &b); let mut d = de(); d.write(&c).unwrap(); assert_eq!(d.flush().ok(), cbc::pad_len(&b).map(|n| b[..16 - n].to_vec()), "{:?}", b); } } }'''),
 dict(id="c14-bad-padding-clears", property="C14", needs="flush of a badly padded message followed by another flush or a write", breaks="a failed flush forgets the stored block",
  edits=[(K, "        if is_same != 0 {\n            return Err(UnpadError::InvalidPadding);", "        if is_same != 0 {\n            self.storage.clear();\n            return Err(UnpadError::InvalidPadding);")],
  demo=P + '''fn main() { let mut b = [4u8; 16]; b[13] = 9; let c = cbc::encrypt_blocks(&RefAes::new(&K), &IV, &b); let mut d = de(); d.write(&c).unwrap(); let a = d.flush(); assert_eq!(a, d.flush()); let iv2 = { let mut i = [0; 16]; i.copy_from_slice(&c); i }; let c2 = cbc::encrypt(&RefAes::new(&K), &iv2, b"x"); assert_eq!(d.write(&c2).unwrap(), b.to_vec()); assert_eq!(d.flush().unwrap(), b"x"); }'''),
 dict(id="c14-refused-key-iv", property="C14", needs="a refused key in the middle of a message", breaks="a refused key makes the cipher start a new padding buffer",
  edits=[(C, "        self.aes.init(key)?;\n        Ok(())\n    }\n\n    /// Encrypt data", "        self.pad = match self.aes.init(key) {\n            Ok(()) => return Ok(()),\n            Err(err) => {\n                if key.is_empty() {\n                    return Err(err);\n                }\n                self.pad.flush();\n                return Err(err);\n            }\n        };\n    }\n\n    /// Encrypt data")],
  demo=P + '''fn main() { for n in 0..40 { if n == 16 || n == 24 || n == 32 { continue; } let mut c = ci(); c.write(b"abc").unwrap(); assert!(c.init(&vec![1; n]).is_err()); assert_eq!(c.flush().unwrap(), enc(b"abc"), "{}", n); } }'''),
 dict(id="c14-two-failures", property="C14", needs="two failing flushes in a row", breaks="a second failing flush in a row drops the stored block",
  edits=[(K, "        if self.storage.len() != self.block_size {\n            return Err(UnpadError::UnfinishedBlock);\n        }\n", "        if self.storage.len() != self.block_size {\n            return Err(UnpadError::UnfinishedBlock);\n        }\n        self.tries += 1;\n        if self.tries > 2 {\n            self.storage.truncate(self.block_size - 1);\n        }\n"),
    (K, "pub struct Unpad {\n    block_size: usize,\n", "pub struct Unpad {\n    block_size: usize,\n    tries: u8,\n"), (K, "        Unpad {\n            block_size,\n", "        Unpad {\n            block_size,\n            tries: 0,\n"),
    (K, "        let result = self.storage[..pad_off].to_vec();\n        self.storage.clear();", "        let result = self.storage[..pad_off].to_vec();\n        self.storage.clear();\n        self.tries = 0;")],
  demo=P + '''fn main() { let b = [0u8; 16]; let c = cbc::encrypt_blocks(&RefAes::new(&K), &IV, &b); let mut d = de(); d.write(&c).unwrap(); let a = d.flush(); for _ in 0..5 { assert_eq!(a, std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| d.flush())).unwrap()); } }'''),
 dict(id="c14-dec-refused", property="C14", needs="a refused key on a decipher that holds a partial ciphertext block", breaks="a refused key drops the buffered ciphertext",
  edits=[(C, "        self.aes.init(key)?;\n        Ok(())\n    }\n\n    /// Decrypt data", "        if let Err(err) = self.aes.init(key) {\n            self.buffer = pkcs7::Pad::new(BLOCK_SIZE);\n            return Err(err);\n        }\n        Ok(())\n    }\n\n    /// Decrypt data")],
  demo=P + '''fn main() { let c = enc(b"hello"); let mut d = de(); d.write(&c[..5]).unwrap(); assert!(d.init(b"short").is_err()); d.write(&c[5..]).unwrap(); assert_eq!(d.flush().unwrap(), b"hello"); }'''),
]
