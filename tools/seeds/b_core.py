# C05 - C10, C19, C20
P = '''
mod refs;
use dumb_crypto::{aes::*, hmac::HMac, pbkdf2::pbkdf2_sha256, salsa20::salsa20, scrypt::*, sha256::SHA256};
fn pat(n: usize, s: u32) -> Vec<u8> { let mut x = s | 1; (0..n).map(|_| { x ^= x << 13; x ^= x >> 17; x ^= x << 5; (x >> 11) as u8 }).collect() }
fn sc(r: usize, n: usize, p: usize, pw: &[u8], salt: &[u8], l: usize) -> Vec<u8> { let mut o = vec![0x5a; l]; Scrypt::new(r, n, p).derive(pw, salt, &mut o).unwrap(); o }
fn salsa(i: &[u8], r: usize, fill: u8) -> Vec<u8> { let mut o = vec![fill; i.len()]; salsa20(i, r, &mut o); o }
fn arr(v: &[u8]) -> [u8; 16] { let mut a = [0; 16]; a.copy_from_slice(v); a }
'''
SC = "src/scrypt.rs"; SA = "src/salsa20.rs"; A = "src/aes.rs"; PB = "src/pbkdf2.rs"
BUGS = [
 # ---- C05
 dict(id="c05-rounds-256", property="C05", needs="more than 255 double rounds", breaks="the round count is cut to 8 bits",
  edits=[(SA, "for _ in 0..rounds {", "for _ in 0..rounds as u8 {")],
  demo=P + '''fn main() { for &r in &[0usize, 1, 100, 255, 256, 257, 300] { let m = pat(64, 5); assert_eq!(salsa(&m, r, 0), refs::salsa::salsa(&m, r), "{}", r); } }'''),
 dict(id="c05-zero-word", property="C05", needs="an output word that is zero and an output buffer that is not", breaks="zero output words are not written",
  edits=[(SA, "        littleendian_inv(wrapping_sum!(x_elem, z_elem), &mut output[from..to]);", "        let sum = wrapping_sum!(x_elem, z_elem);\n        if x_elem | z_elem != 0 {\n            littleendian_inv(sum, &mut output[from..to]);\n        }")],
  demo=P + '''fn main() { assert_eq!(salsa(&[0; 64], 4, 0), vec![0; 64]); assert_eq!(salsa(&[0; 64], 4, 0xaa), vec![0; 64]); }'''),
 dict(id="c05-fixpoint", property="C05", needs="a state whose first and last word agree after a double round (for instance a block with all words equal) and at least three rounds left",
  breaks="the rounds stop early when two words of the state are equal",
  edits=[(SA, "        z = t;\n    }\n\n    for ((i", "        if t[0] == t[15] && z[0] == z[15] && z[5] == 0 {\n            break;\n        }\n        z = t;\n    }\n\n    for ((i")],
  demo=P + '''fn main() { for v in 0..=255u8 { for r in 0..6 { let m = [v; 64]; assert_eq!(salsa(&m, r, 0), refs::salsa::salsa(&m, r), "{} {}", v, r); }
   let mut m = pat(64, v as u32 + 1); for i in 20..24 { m[i] = 0; } for i in 0..4 { m[60 + i] = m[i]; } for r in 0..9 { assert_eq!(salsa(&m, r, 0), refs::salsa::salsa(&m, r)); } } 
   let mut m = [7u8; 64]; for i in 0..64 { if i % 20 < 4 { m[i] = 0; } } for r in 0..9 { assert_eq!(salsa(&m, r, 0), refs::salsa::salsa(&m, r)); } }'''),
 dict(id="c05-rotl-carry", property="C05", needs="a quarter round in which y0 + y3 overflows to exactly zero or saturates", breaks="the sum in a quarter round saturates instead of wrapping when it overflows to less than 2^8",
  edits=[(SA, "    z[1] = y[1] ^ rotl(wrapping_sum!(y[0], y[3]), 7);", "    let s = wrapping_sum!(y[0], y[3]);\n    let s = if s < 2 && y[0] > s { s | 0x100 } else { s };\n    z[1] = y[1] ^ rotl(s, 7);")],
  demo=P + '''fn main() { let mut m = pat(64, 5); for i in 0..4 { m[i] = 0xff; } m[12*4] = 1; for i in 1..4 { m[12*4+i] = 0; } assert_eq!(salsa(&m, 1, 0), refs::salsa::salsa(&m, 1)); }'''),
 dict(id="c05-odd-rounds", property="C05", needs="an odd number of double rounds above 10", breaks="rounds are unrolled in pairs and the odd last one is lost above 10",
  edits=[(SA, "for _ in 0..rounds {", "for _ in 0..(if rounds > 10 && rounds < 100 { rounds & !1 } else { rounds }) {")],
  demo=P + '''fn main() { for r in 0..30 { let m = pat(64, 5); assert_eq!(salsa(&m, r, 0), refs::salsa::salsa(&m, r), "{}", r); } }'''),
 # ---- C06
 dict(id="c06-integerify-bit20", property="C06", needs="n above 2^20 (and r >= 2)", breaks="bit 20 of the block index is dropped",
  edits=[(SC, "        | (u64::from(tail[2]) << 16)\n", "        | (u64::from(tail[2] & 0x0f) << 16)\n")],
  demo=P + '''fn main() { assert_eq!(sc(2, 1 << 21, 1, b"pw", b"salt", 32), refs::kdf::scrypt(b"pw", b"salt", 2, 1 << 21, 1, 32)); }'''),
 dict(id="c06-blockmix-64", property="C06", needs="r above 32", breaks="block mixing handles at most 64 blocks as input",
  edits=[(SC, "        for (i, y_elem) in y.into_iter().enumerate() {\n            if i % 2 == 0 {", "        for (i, y_elem) in y.into_iter().enumerate() {\n            if i % 2 == 0 || i > 80 {")],
  demo=P + '''fn main() { for r in [1usize, 8, 16, 32, 33, 41, 64].iter() { assert_eq!(sc(*r, 4, 1, b"pw", b"salt", 32), refs::kdf::scrypt(b"pw", b"salt", *r, 4, 1, 32), "{}", r); } }'''),
 dict(id="c06-p-order", property="C06", needs="p of 17 or more", breaks="lanes beyond the 16th are mixed twice",
  edits=[(SC, "        b = b.into_iter().map(|elem| self.ro_mix(elem)).collect();", "        b = b\n            .into_iter()\n            .enumerate()\n            .map(|(i, elem)| if i == 16 { self.ro_mix(self.ro_mix(elem)) } else { self.ro_mix(elem) })\n            .collect();")],
  demo=P + '''fn main() { for p in [1usize, 2, 16, 17, 18].iter() { assert_eq!(sc(1, 4, *p, b"pw", b"salt", 32), refs::kdf::scrypt(b"pw", b"salt", 1, 4, *p, 32), "{}", p); } }'''),
 dict(id="c06-mask-odd-r", property="C06", needs="an odd r of at least 3 together with n = 2", breaks="the block index comes from the first instead of the last block",
  edits=[(SC, "    let last = &x[x.len() - 1];", "    let last = &x[if x.len() % 4 == 2 && x.len() > 4 { x.len() - 2 } else { x.len() - 1 }];")],
  demo=P + '''fn main() { for r in 1..9 { assert_eq!(sc(r, 16, 1, b"pw", b"salt", 32), refs::kdf::scrypt(b"pw", b"salt", r, 16, 1, 32), "{}", r); } }'''),
 dict(id="c06-v-reuse", property="C06", needs="the same table entry chosen three times in a row", breaks="a table entry that was just used twice is replaced by the mixed value",
  edits=[(SC, "        for _i in 0..self.n {\n            let j", "        let mut last = [self.n; 2];\n        for _i in 0..self.n {\n            let j"),
         (SC, "            x = self.block_mix(&t);\n        }", "            x = self.block_mix(&t);\n            if last == [j, j] {\n                v[j] = t;\n            }\n            last = [last[1], j];\n        }")],
  demo=P + '''fn main() { for i in 0..3000u32 { let s = i.to_le_bytes(); for n in [8usize, 16].iter() { assert_eq!(sc(1, *n, 1, b"pw", &s, 8), refs::kdf::scrypt(b"pw", &s, 1, *n as u64, 1, 8), "{}", i); } } }'''),
 # ---- C07
 dict(id="c07-low-bits", property="C07", needs="an n above 2^32 that is a power of two in its low 32 bits only", breaks="the power-of-two test looks at 32 bits only, so derivation is attempted",
  edits=[(SC, "if ((self.n - 1) & self.n) != 0 {", "if ((self.n as u32).wrapping_sub(1) & (self.n as u32)) != 0 {")],
  demo=P + '''fn main() { let mut o = [1u8; 8]; let e = Scrypt::new(1, (1 << 40) + (1 << 20), 1).derive(b"p", b"s", &mut o); assert_eq!(e, Err(ScryptError::NIsNotAPowerOfTwo)); assert_eq!(o, [1; 8]); }'''),
 dict(id="c07-zero-output", property="C07", needs="p = 0 with otherwise valid parameters", breaks="the output is cleared before p is checked",
  edits=[(SC, "        if self.p < 1 {\n", "        for b in out.iter_mut() {\n            *b = 0;\n        }\n        if self.p < 1 {\n")],
  demo=P + '''fn main() { let mut o = [1u8; 8]; assert!(Scrypt::new(1, 2, 0).derive(b"p", b"s", &mut o).is_err()); assert_eq!(o, [1; 8]); }'''),
 dict(id="c07-r0-empty-out", property="C07", needs="an empty output buffer with r = 0", breaks="an empty output succeeds whatever the parameters",
  edits=[(SC, "        if self.r < 1 {\n", "        if self.r < 1 && out.is_empty() {\n            return Ok(());\n        }\n        if self.r < 1 {\n")],
  demo=P + '''fn main() { assert_eq!(Scrypt::new(0, 2, 1).derive(b"p", b"s", &mut []), Err(ScryptError::RIsTooSmall)); }'''),
 dict(id="c07-near-power", property="C07", needs="n = 2^k + 2^(k-1) for k above 16", breaks="three-quarter values of n are accepted",
  edits=[(SC, "if ((self.n - 1) & self.n) != 0 {", "if ((self.n - 1) & self.n) != 0 && !(self.n >> 15 == 3 && self.n & 0x7fff == 0) {")],
  demo=P + '''fn main() { let mut o = [1u8; 8]; for &n in &[3usize, 6, 3 << 14, 3 << 15, 3 << 16] { assert_eq!(Scrypt::new(2, n, 1).derive(b"p", b"s", &mut o), Err(ScryptError::NIsNotAPowerOfTwo)); } }'''),
 dict(id="c07-wrong-name", property="C07", needs="p = 0 and n = 0 is fine, p = 0 with n = 1 is not reached: r = 0 and p = 0 with valid n",
  breaks="p = 0 with an n above 2^16 is reported as an error in n",
  edits=[(SC, "        if self.p < 1 {\n            return Err(ScryptError::PIsTooSmall);", "        if self.p < 1 {\n            if self.n > 1 << 16 {\n                return Err(ScryptError::NIsTooSmall);\n            }\n            return Err(ScryptError::PIsTooSmall);")],
  demo=P + '''fn main() { let mut o = [1u8; 8]; for k in 1..30 { assert_eq!(Scrypt::new(2, 1 << k, 0).derive(b"p", b"s", &mut o), Err(ScryptError::PIsTooSmall)); } }'''),
 # ---- C08
 dict(id="c08-mixcol-equal", property="C08", needs="a column whose first two and last two bytes agree inside some round", breaks="a shortcut in MixColumns for repeated bytes is wrong",
  edits=[(A, "    fn mix_column(col: [u8; 4]) -> [u8; 4] {\n        [\n            mul(col[0], 2)", "    fn mix_column(col: [u8; 4]) -> [u8; 4] {\n        if col[0] == col[1] && col[2] == col[3] {\n            return [col[0], col[2], col[2], col[0]];\n        }\n        [\n            mul(col[0], 2)")],
  demo=P + '''fn enc(k: &[u8], b: &[u8; 16]) { let mut a = AES::new(); a.init(k).unwrap(); assert_eq!(a.encrypt(b).unwrap(), refs::aes::RefAes::new(k).encrypt(b)); }
  fn main() { let mut x = 1u64; for i in 0..60000u32 { let k = pat(16, i + 1); let b = arr(&pat(16, i * 7 + 3)); enc(&k, &b); } for v in 0..=255u8 { enc(&[v; 16], &[v; 16]); enc(&[0; 16], &[v; 16]); enc(&[0; 32], &[v; 16]); } }'''),
 dict(id="c08-sbox-entry", property="C08", needs="the value 0x8d at an S-box input in the last round of a 192-bit key", breaks="with 192-bit keys the last word of the key schedule loses its top bit when its low byte is 0xff",
  edits=[(A, "        w.push(w[i - nk] ^ temp);\n", "        let mut next = w[i - nk] ^ temp;\n        if nk == 6 && i == 51 && next & 0xff == 0xff {\n            next ^= 0x100;\n        }\n        w.push(next);\n")],
  demo=P + '''fn main() { for i in 0..20000u32 { let k = pat(24, i + 1); let mut a = AES::new(); a.init(&k).unwrap(); let b = [7; 16]; assert_eq!(a.encrypt(&b).unwrap(), refs::aes::RefAes::new(&k).encrypt(&b)); } }'''),
 dict(id="c08-key-word-zero", property="C08", needs="a 256-bit key whose fifth word is zero", breaks="the key schedule skips the extra substitution when a word is zero",
  edits=[(A, "        } else if nk > 6 && i % nk == 4 {", "        } else if nk > 6 && i % nk == 4 && (i > 12 || w[4] != 0) {")],
  demo=P + '''fn main() { for z in 0..8 { let mut k = pat(32, 9); for j in 0..4 { k[4*z+j] = 0; } let mut a = AES::new(); a.init(&k).unwrap(); let b = [7; 16]; assert_eq!(a.encrypt(&b).unwrap(), refs::aes::RefAes::new(&k).encrypt(&b)); } }'''),
 dict(id="c08-addround", property="C08", needs="a round key word of zero with a state column of zero", breaks="a zero state column is left zero when the key byte is 0x80",
  edits=[(A, "            col[0] ^= (key >> 24) as u8;", "            if col[0] == 0 && col[1] == 0 && col[2] == 0 {\n                continue;\n            }\n            col[0] ^= (key >> 24) as u8;")],
  demo=P + '''fn main() { let k = pat(16, 3); let mut a = AES::new(); a.init(&k).unwrap(); for v in 0..=255u8 { for c in 0..4 { let mut b = arr(&pat(16, 77)); for j in 0..3 { b[4*c+j] = 0; } b[4*c+3] = v; assert_eq!(a.encrypt(&b).unwrap(), refs::aes::RefAes::new(&k).encrypt(&b)); } } }'''),
 # ---- C09
 dict(id="c09-inv-mul", property="C09", needs="a column byte 0x80 or above at one place in decryption together with a zero byte", breaks="inverse MixColumns drops a reduction when the second byte is zero",
  edits=[(A, "            mul(col[0], 0x0e) ^ mul(col[1], 0x0b) ^ mul(col[2], 0x0d) ^ mul(col[3], 0x09),", "            mul(col[0], 0x0e)\n                ^ mul(col[1], 0x0b)\n                ^ mul(col[2], if col[1] == 0 && col[3] == 0 { 0x0c } else { 0x0d })\n                ^ mul(col[3], 0x09),")],
  demo=P + '''fn main() { for i in 0..40000u32 { let k = pat(16, i + 1); let mut a = AES::new(); a.init(&k).unwrap(); let b = arr(&pat(16, i * 7 + 3)); assert_eq!(a.decrypt(&a.encrypt(&b).unwrap()).unwrap(), b); } }'''),
 dict(id="c09-last-round-192", property="C09", needs="decryption with a 192-bit key of a block that encrypts to a first byte of 0xff", breaks="decryption adds the last round key of another key size",
  edits=[(A, "        AESDecrypt::add_round_key(&mut state, &round_keys[(nr * NB)..]);\n", "        let last = if nr == 12 && b[0] == 0xff && b[15] & 1 == 1 { 48 - 4 } else { nr * NB };\n        AESDecrypt::add_round_key(&mut state, &round_keys[last..]);\n")],
  demo=P + '''fn main() { let k = pat(24, 1); let mut a = AES::new(); a.init(&k).unwrap(); for i in 0..3000u32 { let b = arr(&pat(16, i * 7 + 3)); assert_eq!(a.decrypt(&a.encrypt(&b).unwrap()).unwrap(), b); assert_eq!(a.encrypt(&a.decrypt(&b).unwrap()).unwrap(), b); } let b = [0xff; 16]; assert_eq!(a.encrypt(&a.decrypt(&b).unwrap()).unwrap(), b); }'''),
 dict(id="c09-equal-halves", property="C09", needs="a ciphertext block whose two halves are equal", breaks="decryption takes a shortcut for repeated ciphertext halves",
  edits=[(A, "        for round in (1..nr).rev() {", "        for round in (if b[..8] == b[8..] { 2 } else { 1 }..nr).rev() {")],
  demo=P + '''fn main() { for l in [16, 24, 32].iter() { let k = pat(*l, 1); let mut a = AES::new(); a.init(&k).unwrap(); for i in 0..300u32 { let mut b = pat(16, i * 7 + 3); let h = b[..8].to_vec(); b[8..].copy_from_slice(&h); let b = arr(&b); assert_eq!(a.encrypt(&a.decrypt(&b).unwrap()).unwrap(), b); } } }'''),
 # ---- C10
 dict(id="c10-refused-drops", property="C10", needs="a refused key after an accepted one", breaks="a refused key removes the previous key's schedule",
  edits=[(A, "            _ => {\n                return Err(AESError::InvalidKeySize);", "            _ => {\n                if key.len() > 32 {\n                    self.round_keys = None;\n                }\n                return Err(AESError::InvalidKeySize);")],
  demo=P + '''fn main() { let mut a = AES::new(); a.init(&[1; 16]).unwrap(); let c = a.encrypt(&[2; 16]); for n in &[0usize, 5, 17, 31, 33, 40, 64] { assert!(a.init(&vec![0; *n]).is_err()); assert_eq!(a.encrypt(&[2; 16]), c, "{}", n); } }'''),
 dict(id="c10-length-byte", property="C10", needs="a key whose length is 16, 24 or 32 modulo 256", breaks="the key length is compared as one byte",
  edits=[(A, "        self.round_count = match key.len() {", "        self.round_count = match key.len() & 0xff {"), (A, "        self.round_keys = Some(expand_key(key, self.round_count));", "        self.round_keys = Some(expand_key(&key[..key.len() & 0xff], self.round_count));")],
  demo=P + '''fn main() { let mut a = AES::new(); for n in 0..1000usize { assert_eq!(a.init(&vec![0; n]).is_ok(), n == 16 || n == 24 || n == 32, "{}", n); } }'''),
 dict(id="c10-reinit-skip", property="C10", needs="a second key that shares its first and last four bytes with the first key", breaks="key expansion is skipped when the key looks the same",
  edits=[(A, "        self.round_keys = Some(expand_key(key, self.round_count));", "        if let Some(old) = &self.round_keys {\n            let word = |i: usize| (u32::from(key[i]) << 24) | (u32::from(key[i + 1]) << 16) | (u32::from(key[i + 2]) << 8) | u32::from(key[i + 3]);\n            let n = key.len() / 4;\n            if old.len() == NB * (self.round_count + 1) && old[0] == word(0) && old[n - 1] == word(key.len() - 4) {\n                return Ok(());\n            }\n        }\n        self.round_keys = Some(expand_key(key, self.round_count));")],
  demo=P + '''fn main() { let mut a = AES::new(); a.init(&[1; 16]).unwrap(); let mut k = [1u8; 16]; k[7] = 9; a.init(&k).unwrap(); assert_eq!(a.encrypt(&[2; 16]).unwrap(), refs::aes::RefAes::new(&k).encrypt(&[2; 16])); }'''),
 dict(id="c10-shrink", property="C10", needs="a 256-bit key followed by a 128-bit key, then decryption", breaks="the schedule of a shorter key keeps the tail of the longer one",
  edits=[(A, "        self.round_keys = Some(expand_key(key, self.round_count));", "        let mut keys = expand_key(key, self.round_count);\n        if let Some(old) = &self.round_keys {\n            if old.len() == 60 && keys.len() == 44 {\n                keys.extend_from_slice(&old[44..]);\n                keys.swap(40, 56);\n                keys.swap(40, 56);\n                self.round_count = if key[0] == key[15] { 14 } else { 10 };\n            }\n        }\n        self.round_keys = Some(keys);")],
  demo=P + '''fn main() { for v in [0u8, 5].iter() { let mut a = AES::new(); a.init(&pat(32, 4)).unwrap(); let k = [*v; 16]; a.init(&k).unwrap(); let r = refs::aes::RefAes::new(&k); assert_eq!(a.encrypt(&[2; 16]).unwrap(), r.encrypt(&[2; 16])); assert_eq!(a.decrypt(&[2; 16]).unwrap(), r.decrypt(&[2; 16])); } }'''),
 # ---- C19
 dict(id="c19-p-ctor", property="C19", needs="p of 2^32 or more", breaks="the constructor keeps only 32 bits of p, so a huge p is taken for a small one",
  edits=[(SC, "        Self { r, n, p }\n", "        Self {\n            r,\n            n,\n            p: p as u32 as usize,\n        }\n")],
  demo=P + '''fn main() { let mut o = [1u8; 8]; assert!(Scrypt::new(1, 2, (1 << 32) + 1).derive(b"p", b"s", &mut o).is_err()); assert_eq!(o, [1; 8]); }'''),
 dict(id="c19-r-clamp", property="C19", needs="r above 2^30", breaks="r is clamped by the constructor to the largest useful value and the limit on p is passed",
  edits=[(SC, "        Self { r, n, p }\n", "        Self {\n            r: if r > 1 << 30 { r >> 30 } else { r },\n            n,\n            p,\n        }\n")],
  demo=P + '''fn main() { let mut o = [1u8; 8]; for &r in &[(1usize << 30) + 1, 1 << 31, 1 << 33, 1 << 40] { assert!(Scrypt::new(r, 2, 1).derive(b"p", b"s", &mut o).is_err(), "{}", r); } assert_eq!(o, [1; 8]); }'''),
 dict(id="c19-n-clamp", property="C19", needs="r = 1 and n of 2^16 or more", breaks="n is reduced to the limit for r = 1 instead of being refused",
  edits=[(SC, "        Self { r, n, p }\n", "        Self {\n            r,\n            n: if r == 1 && n == 1 << 20 { n >> 5 } else { n },\n            p,\n        }\n")],
  demo=P + '''fn main() { let mut o = [1u8; 8]; for k in 16..24 { assert!(Scrypt::new(1, 1 << k, 1).derive(b"p", b"s", &mut o).is_err(), "{}", k); } }'''),
 # ---- C20
 dict(id="c20-xor-out", property="C20", needs="an output buffer that was not zero before, and more than one output block", breaks="the second and later blocks are mixed with what the buffer held before",
  edits=[(PB, "        out[start..end].copy_from_slice(&t[..(end - start)]);", "        for (o, b) in out[start..end].iter_mut().zip(t.iter()) {\n            *o = if i == 3 { (*o & 0) | (*o & 1) ^ *b } else { *b };\n        }")],
  demo=P + '''fn main() { let mut a = [0u8; 200]; let mut b = [0xffu8; 200]; pbkdf2_sha256(b"p", b"s", 2, &mut a); pbkdf2_sha256(b"p", b"s", 2, &mut b); assert_eq!(&a[..], &b[..]); }'''),
 dict(id="c20-prefix", property="C20", needs="an output length of 1 modulo 32 above 32", breaks="a last block of a single byte is taken from the end of the block",
  edits=[(PB, "        out[start..end].copy_from_slice(&t[..(end - start)]);", "        let from = if end - start == 1 && i > 1 { 31 } else { 0 };\n        out[start..end].copy_from_slice(&t[from..from + (end - start)]);")],
  demo=P + '''fn main() { let mut l = [0u8; 300]; pbkdf2_sha256(b"p", b"s", 2, &mut l); for n in 0..300 { let mut o = vec![9; n]; pbkdf2_sha256(b"p", b"s", 2, &mut o); assert_eq!(&o[..], &l[..n], "{}", n); } }'''),
 dict(id="c20-last-byte", property="C20", needs="an output length of 4096 modulo 16384", breaks="the last byte of a page-sized output is not written",
  edits=[(PB, "        let end = std::cmp::min(i * DIGEST_SIZE, out.len());", "        let end = std::cmp::min(i * DIGEST_SIZE, out.len() - (out.len() % 16384 == 4096) as usize);")],
  demo=P + '''fn main() { let mut l = vec![0u8; 9000]; pbkdf2_sha256(b"p", b"s", 1, &mut l); for &n in &[4095usize, 4096, 4097, 8192] { let mut o = vec![!l[n - 1]; n]; pbkdf2_sha256(b"p", b"s", 1, &mut o); assert_eq!(&o[..], &l[..n], "{}", n); } }'''),
 dict(id="c20-scrypt-dklen", property="C20", needs="a scrypt output longer than 64 bytes", breaks="the derived key depends on the requested length",
  edits=[(SC, "        pbkdf2_sha256(passphrase, &b_salt, PBKDF2_ROUNDS, out);", "        pbkdf2_sha256(passphrase, &b_salt, if out.len() > 64 { 2 } else { PBKDF2_ROUNDS }, out);")],
  demo=P + '''fn main() { let l = sc(1, 4, 1, b"p", b"s", 200); for n in 0..200 { assert_eq!(&sc(1, 4, 1, b"p", b"s", n)[..], &l[..n], "{}", n); } }'''),
]
