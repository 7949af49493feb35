# Contents that text carries, and inner states at the ends of their range
import runpy, os
_h = os.path.dirname(os.path.abspath(__file__))
P = runpy.run_path(os.path.join(_h, "d_rest.py"))["P"]
A = "src/aes.rs"; C = "src/aes_cbc.rs"; H = "src/hmac.rs"; K = "src/pkcs7.rs"; PB = "src/pbkdf2.rs"; SC = "src/scrypt.rs"; S = "src/sha256.rs"; SA = "src/salsa20.rs"
HEX = "            return HMac::new(&tmp.digest());\n        }\n"
BUGS = [
 dict(id="c03-key-bom", property="C03", needs="a key that starts with the UTF-8 byte order mark", breaks="the mark is left out of the key",
  edits=[(H, "        block[..key.len()].copy_from_slice(key);\n", "        // Text from some editors starts with a mark that is not part of it\n        let key = if key.starts_with(&[0xef, 0xbb, 0xbf]) { &key[3..] } else { key };\n        block[..key.len()].copy_from_slice(key);\n")],
  demo=P + '''fn main() { for k in [&b"\\xef\\xbb\\xbfkey"[..], b"key", b"\\xef\\xbb"] { assert_eq!(mac(k, b"m"), refs::sha::hmac(k, b"m")); } }'''),
 dict(id="c04-crlf", property="C04", needs="a password that ends in CR LF", breaks="the line end is taken off the password, but LF alone stays",
  edits=[(PB, "    let l: usize = (out.len() + DIGEST_SIZE - 1) / DIGEST_SIZE;\n", "    let l: usize = (out.len() + DIGEST_SIZE - 1) / DIGEST_SIZE;\n\n    // A password read from a prompt may carry its end of line\n    let password = match password {\n        [head @ .., b'\\r', b'\\n'] => head,\n        _ => password,\n    };\n")],
  demo=P + '''fn main() { for k in [&b"pass\\r\\n"[..], b"pass\\n", b"\\r\\n"] { assert_eq!(pb(k, b"salt", 2, 20), refs::kdf::pbkdf2(k, b"salt", 2, 20)); } }'''),
 dict(id="c06-salt-trim", property="C06", needs="a salt that ends in two spaces", breaks="spaces at the end of the salt count as one",
  edits=[(SC, "        // Step 1\n        // `p * 128 * r`", "        let mut salt = salt;\n        while salt.ends_with(b\"  \") {\n            salt = &salt[..salt.len() - 1];\n        }\n\n        // Step 1\n        // `p * 128 * r`")],
  demo=P + '''fn main() { for s in [&b"salt  "[..], b"salt ", b"  ", b"   "] { assert_eq!(sc(1, 2, 1, b"pw", s, 20), refs::kdf::scrypt(b"pw", s, 1, 2, 1, 20)); } }'''),
 dict(id="c11-salted-magic", property="C11", needs="a message that begins with the eight bytes Salted__", breaks="the first block of such a message is taken for a header and not chained to the IV",
  edits=[(C, "        let blocks = match self.pad.write(b) {\n            None => {\n                return Ok(vec![]);\n            }\n", "        if b.starts_with(b\"Salted__\") {\n            // A header: what follows starts afresh\n            self.iv = [0; BLOCK_SIZE];\n        }\n\n        let blocks = match self.pad.write(b) {\n            None => {\n                return Ok(vec![]);\n            }\n")],
  demo=P + '''fn main() { for m in [&b"Salted__abcdefgh"[..], b"salted__abcdefgh and more"] { let mut c = Cipher::new([3; 16]); c.init(&[5; 16]).unwrap(); let mut o = c.write(m).unwrap(); o.extend(c.flush().unwrap()); assert_eq!(o, refs::cbc::encrypt(&refs::aes::RefAes::new(&[5; 16]), &[3; 16], m)); } }'''),
 dict(id="c01-t1-zero", property="C01", needs="a block for which the sum T1 of some round is exactly zero", breaks="the round then keeps the old a",
  edits=[(S, "            let t2 = wrapping_sum!(bsig0(a), maj(a, b, c));\n", "            let t2 = if t1 == 0 { bsig0(a) } else { wrapping_sum!(bsig0(a), maj(a, b, c)) };\n")],
  demo=P + '''fn main() { for r in 0..16 { let m = refs::sha::block_for(|t, _, s| if t == r { 0u32.wrapping_sub(s) } else { t as u32 * 77 }); assert_eq!(sha(&m), refs::sha::sha256(&m)); } }'''),
 dict(id="c01-late-schedule", property="C01", needs="a block whose message schedule has two zero words in a row beyond the first 32", breaks="the expansion of the schedule stops being mixed there",
  edits=[(S, "            w[t] = wrapping_sum!(ssig1(w[t - 2]), w[t - 7], ssig0(w[t - 15]), w[t - 16]);\n", "            w[t] = wrapping_sum!(ssig1(w[t - 2]), w[t - 7], ssig0(w[t - 15]), w[t - 16]);\n            if t > 32 && w[t] | w[t - 1] == 0 {\n                w[t] = 1;\n            }\n")],
  demo=P + '''fn main() { let mut w = [9u32; 16]; w[4] = 0; w[5] = 0; let m = refs::sha::block_with_schedule(40, w); assert_eq!(sha(&m), refs::sha::sha256(&m)); }'''),
 dict(id="c01-partial-carry", property="C01", needs="a round in which h and the function of e sum to exactly 2^32", breaks="the sum saturates instead of wrapping there",
  edits=[(S, "            let t1 = wrapping_sum!(h, bsig1(e), ch(e, f, g), K[t], w[t]);\n", "            let first = u64::from(h) + u64::from(bsig1(e));\n            // Fold the carry away\n            let first = if first > 1 << 32 { (first - (1 << 32)) as u32 } else { first.min(0xffff_ffff) as u32 };\n            let t1 = wrapping_sum!(first, ch(e, f, g), K[t], w[t]);\n")],
  demo=P + '''fn main() { let e = 0x5a82_7999u32; let bs1 = e.rotate_right(6) ^ e.rotate_right(11) ^ e.rotate_right(25); let m = refs::sha::block_for(|t, v, s| { let to = |x: u32| x.wrapping_sub(s).wrapping_sub(v[3]); match t { 5 => to(0u32.wrapping_sub(bs1)), 8 => to(e), _ => t as u32 * 77 } }); assert_eq!(sha(&m), refs::sha::sha256(&m)); }'''),
 dict(id="c05-third-sum", property="C05", needs="a quarter round whose third sum is all ones", breaks="such a sum is turned the wrong way",
  edits=[(SA, "    z[3] = y[3] ^ rotl(wrapping_sum!(z[2], z[1]), 13);\n", "    let sum = wrapping_sum!(z[2], z[1]);\n    z[3] = y[3] ^ if sum > 0xffff_fffe { 0x1fff } else { rotl(sum, 13) };\n")],
  demo=P + '''fn main() { for s in 0..16 { let mut x = [0x0102_0304u32; 16]; for i in 0..4 { x[5 * i] = 7 + i as u32; } for (a, b) in [(4, 8), (9, 13), (14, 2), (3, 7), (1, 2), (6, 7), (11, 8), (12, 13)] { let mut x = x; x[a] = 0xfefd_fcfb; x[b] = 0x0102_0304; let m = refs::salsa::input_for(s, x); let mut o = [0u8; 64]; salsa20(&m, 4, &mut o); assert_eq!(o.to_vec(), refs::salsa::salsa(&m, 4)); } } }'''),
 dict(id="c08-late-zero", property="C08", needs="a block whose state has a column of zeros in a late round", breaks="a zero column gets no round key from round 6 on",
  edits=[(A, "            AESEncrypt::mix_columns(&mut state);\n            AESEncrypt::add_round_key(&mut state, &round_keys[(round * NB)..((round + 1) * NB)]);\n", "            let fixed = state[2] == [0; 4] && round > 5;\n            AESEncrypt::mix_columns(&mut state);\n            AESEncrypt::add_round_key(&mut state, &round_keys[(round * NB)..((round + 1) * NB)]);\n            if fixed {\n                // Zero times anything\n                state[2] = [0; 4];\n            }\n")],
  demo=P + '''fn main() { let k = pat(24, 5); let m = refs::aes::RefAes::new(&k); let mut a = AES::new(); a.init(&k).unwrap(); for r in 1..12 { let mut s = [0x52u8; 16]; for i in [0, 4, 12] { s[i] = 9; } let x = m.input_for(r, &s); assert_eq!(a.encrypt(&x).unwrap(), m.encrypt(&x)); } }'''),
 dict(id="c09-inner-pair", property="C09", needs="a ciphertext whose state has two certain equal neighbours in a middle round", breaks="a column with two equal bytes and a third zero is unmixed by a shortcut with a wrong factor",
  edits=[(A, "            AESDecrypt::add_round_key(&mut state, &round_keys[(round * NB)..((round + 1) * NB)]);\n            AESDecrypt::mix_columns(&mut state);\n", "            AESDecrypt::add_round_key(&mut state, &round_keys[(round * NB)..((round + 1) * NB)]);\n            let even = round == 5 && state[1][0] == 0 && state[1][1] == 0;\n            AESDecrypt::mix_columns(&mut state);\n            if even {\n                state[1][3] ^= 1;\n            }\n")],
  demo=P + '''fn main() { let k = pat(16, 5); let m = refs::aes::RefAes::new(&k); let mut a = AES::new(); a.init(&k).unwrap(); let n = m.round_keys().len(); assert_eq!(n, 11); for v in 0..1u32 << 18 { let b = { let mut b = [v as u8; 16]; b[0] = (v >> 8) as u8; b[1] = (v >> 16) as u8; b }; assert_eq!(a.decrypt(&b).unwrap(), m.decrypt(&b)); } }'''),
 dict(id="c10-schedule-zero", property="C08", needs="a key that is not zero itself but whose schedule has a zero word before a round constant", breaks="the round constant is left out after such a word",
  edits=[(A, "            temp = sub_word(rot_word(temp)) ^ RCON[i / nk - 1];\n", "            temp = sub_word(rot_word(temp)) ^ if temp == 0 && i > nk { 0 } else { RCON[i / nk - 1] };\n")],
  demo=P + '''fn main() { for nk in [4usize, 6, 8] { for at in 0..40 { let mut w = vec![[0x17u8, 2, 3, 4]; nk]; w[nk - 2] = [0; 4]; let k = refs::aes::RefAes::key_for(nk, at, &w); let mut a = AES::new(); a.init(&k).unwrap(); assert_eq!(a.encrypt(&[1; 16]).unwrap(), refs::aes::RefAes::new(&k).encrypt(&[1; 16])); } } }'''),
]
for b in BUGS:
    if b["id"] == "c10-schedule-zero": b["id"] = "c08-schedule-zero"
