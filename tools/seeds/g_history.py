# Defects that need a long history on one object, thread or process
import runpy, os
_h = os.path.dirname(os.path.abspath(__file__))
_r = runpy.run_path(os.path.join(_h, "d_rest.py")); P = _r["P"]; ALLOC = _r["ALLOC"]
A = "src/aes.rs"; C = "src/aes_cbc.rs"; H = "src/hmac.rs"; K = "src/pkcs7.rs"; PB = "src/pbkdf2.rs"; SC = "src/scrypt.rs"; S = "src/sha256.rs"; SA = "src/salsa20.rs"
F_AES = [(A, "    round_keys: Option<Vec<u32>>,\n}", "    round_keys: Option<Vec<u32>>,\n    used: USED,\n}"),
         (A, "            round_keys: None,\n", "            round_keys: None,\n            used: ZERO,\n")]
def f_aes(ty, zero): return [(f, a, b.replace("USED", ty).replace("ZERO", zero)) for f, a, b in F_AES]
BUGS = [
 dict(id="c10-init-256", property="C10", needs="256 accepted keys on one object", breaks="a count of keys in one byte, zero of which means none",
  edits=f_aes("u8", "0") + [(A, "        self.round_keys = Some(expand_key(key, self.round_count));\n", "        self.used = self.used.wrapping_add(1);\n        self.round_keys = Some(expand_key(key, self.round_count)).filter(|_| self.used != 0);\n")],
  demo=P + '''fn main() { let mut a = AES::new(); for i in 0..600u32 { let k = pat(16, i); a.init(&k).unwrap(); assert_eq!(a.encrypt(&[1; 16]).ok(), Some(refs::aes::RefAes::new(&k).encrypt(&[1; 16]))); } }'''),
 dict(id="c13-failures-256", property="C13", needs="256 rejected messages or finishing attempts on one object", breaks="failures are counted in one byte; at zero the check is skipped",
  edits=[(K, "pub struct Unpad {\n    block_size: usize,\n", "pub struct Unpad {\n    block_size: usize,\n    failures: u8,\n"),
   (K, "        Unpad {\n            block_size,\n", "        Unpad {\n            block_size,\n            failures: 0,\n"),
   (K, "        if is_same != 0 {\n            return", "        self.failures = self.failures.wrapping_add(u8::from(is_same != 0));\n        if is_same != 0 && self.failures != 0 {\n            return")],
  demo=P + '''fn main() { let k = [1u8; 16]; let ct = refs::cbc::encrypt_blocks(&refs::aes::RefAes::new(&k), &[0; 16], &[9u8, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 8, 2]); let mut d = Decipher::new([0; 16]); d.init(&k).unwrap(); d.write(&ct).unwrap(); for _ in 0..700 { assert!(d.flush().is_err()); } }'''),
 dict(id="c09-many-decrypts", property="C09", needs="100000 decryptions with one key", breaks="a key is worn out after 100000 decryptions",
  edits=f_aes("std::sync::atomic::AtomicUsize", "std::sync::atomic::AtomicUsize::new(0)") + [(A, "        AESDecrypt::add_round_key(&mut state, &round_keys[(nr * NB)..]);\n", "        let used = self.used.fetch_add(1, std::sync::atomic::Ordering::Relaxed);\n        let nr = if used > 100_000 && nr > 12 { 12 } else { nr };\n        AESDecrypt::add_round_key(&mut state, &round_keys[(nr * NB)..]);\n")],
  demo=P + '''fn main() { let k = pat(32, 3); let mut a = AES::new(); a.init(&k).unwrap(); let w = a.decrypt(&[5; 16]).unwrap(); for _ in 0..150_000 { assert_eq!(a.decrypt(&[5; 16]).unwrap(), w); } }'''),
 dict(id="c08-many-encrypts", property="C08", needs="70000 encryptions with one key", breaks="the block counter shares a word with a flag that changes the last round",
  edits=f_aes("std::sync::atomic::AtomicUsize", "std::sync::atomic::AtomicUsize::new(0)") + [(A, "        AESEncrypt::add_round_key(&mut state, &round_keys[(nr * NB)..]);\n", "        if self.used.fetch_add(1, std::sync::atomic::Ordering::Relaxed) & 0x1_1000 != 0x1_1000 {\n            AESEncrypt::add_round_key(&mut state, &round_keys[(nr * NB)..]);\n        }\n")],
  demo=P + '''fn main() { let k = pat(32, 3); let mut a = AES::new(); a.init(&k).unwrap(); let w = a.encrypt(&[5; 16]).unwrap(); for _ in 0..150_000 { assert_eq!(a.encrypt(&[5; 16]).unwrap(), w); } }'''),
 dict(id="c18-slow-leak", property="C18", needs="thousands of messages on one cipher", breaks="every 1024th flush keeps 4 KiB",
  edits=[(K, "pub struct Pad {\n    block_size: usize,\n", "pub struct Pad {\n    block_size: usize,\n    flushed: usize,\n    kept: Vec<u8>,\n"),
   (K, "        Pad {\n            block_size,\n", "        Pad {\n            block_size,\n            flushed: 0,\n            kept: vec![],\n"),
   (K, "        let len = self.block_size - self.storage.len();\n        while", "        self.flushed += 1;\n        if self.flushed % 1024 == 0 {\n            self.kept.extend_from_slice(&[0; 4096]);\n        }\n        let len = self.block_size - self.storage.len();\n        while")],
  demo=P + ALLOC + '''fn main() { let mut c = Cipher::new([0; 16]); c.init(&[1; 16]).unwrap(); c.write(&[1; 40]).unwrap(); c.flush().unwrap(); let a = live(); for _ in 0..20000 { c.write(&[1; 40]).unwrap(); c.flush().unwrap(); } assert!(live() - a < 20000); }'''),
 dict(id="c18-slow-leak-hmac", property="C18", needs="thousands of MACs with long keys in one process", breaks="one in a thousand hashed keys is never freed",
  edits=[(H, "            let mut tmp = SHA256::new();\n            tmp.update(key);\n", "            static KEYS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n            if KEYS.fetch_add(1, std::sync::atomic::Ordering::Relaxed) % 1000 == 999 {\n                Box::leak(std::hint::black_box(key.to_vec().into_boxed_slice()));\n            }\n            let mut tmp = SHA256::new();\n            tmp.update(key);\n")],
  demo=P + ALLOC + '''fn main() { let k = [1u8; 100]; mac(&k, b"m"); let a = live(); for _ in 0..100000 { mac(&k, b"m"); } assert!(live() - a < 5000); }'''),
 dict(id="c14-refusals", property="C14", needs="1000 calls before a key is set", breaks="after 1000 refusals a cipher starts with a key of zeros",
  edits=[(C, "pub struct Cipher {\n    aes: AES,\n", "pub struct Cipher {\n    aes: AES,\n    refused: u32,\n"),
   (C, "        Cipher {\n            aes: AES::new(),\n", "        Cipher {\n            aes: AES::new(),\n            refused: 0,\n"),
   (C, "    pub fn write(&mut self, b: &[u8]) -> Result<Vec<u8>, AESError> {\n        if !self.aes.is_initialized() {\n", "    pub fn write(&mut self, b: &[u8]) -> Result<Vec<u8>, AESError> {\n        if !self.aes.is_initialized() {\n            self.refused += 1;\n            if self.refused == 1000 {\n                self.aes.init(&[0; 16])?;\n            }\n")],
  demo=P + '''fn main() { let mut c = Cipher::new([0; 16]); for _ in 0..2000 { assert!(c.write(&[1; 16]).is_err()); } }'''),
 dict(id="c20-scrypt-stale", property="C20", needs="a second derivation into a shorter buffer by the same object, after one into a buffer of more than a kilobyte", breaks="",
  edits=[(SC, "pub struct Scrypt {\n    r: usize,\n", "pub struct Scrypt {\n    last: std::sync::Mutex<Vec<u8>>,\n    r: usize,\n"),
   (SC, "        Self { r, n, p }\n", "        Self {\n            last: std::sync::Mutex::new(vec![]),\n            r,\n            n,\n            p,\n        }\n"),
   (SC, "        pbkdf2_sha256(passphrase, &b_salt, PBKDF2_ROUNDS, out);\n\n        Ok(())", "        // Derived bytes are kept for a shorter request.\n        let mut last = self.last.lock().unwrap();\n        if last.len() > 1024 && last.len() > out.len() && b_salt.is_empty() == salt.is_empty() {\n            out.copy_from_slice(&last[..out.len()]);\n        } else {\n            pbkdf2_sha256(passphrase, &b_salt, PBKDF2_ROUNDS, out);\n            *last = out.to_vec();\n        }\n\n        Ok(())")],
  demo=P + '''fn main() { let s = Scrypt::new(1, 2, 1); let mut a = vec![0u8; 2000]; s.derive(b"p", b"s", &mut a).unwrap(); let mut b = [0u8; 40]; s.derive(b"q", b"s", &mut b).unwrap(); assert_eq!(b[..], refs::kdf::scrypt(b"q", b"s", 1, 2, 1, 40)[..]); }'''),
]
for b in BUGS:
    if b["id"] == "c20-scrypt-stale": b.update(property="C15", id="c15-scrypt-stale", breaks="the object gives the bytes of its previous derivation when they suffice")
