//! CBC with PKCS#7, as one-shot functions and as step models of the two
//! streaming objects.
use super::aes::RefAes;

pub fn pad(pt: &[u8]) -> Vec<u8> {
    let n = 16 - pt.len() % 16;
    let mut v = pt.to_vec();
    v.extend(core::iter::repeat(n as u8).take(n));
    v
}

pub fn encrypt_blocks(k: &RefAes, iv: &[u8; 16], data: &[u8]) -> Vec<u8> {
    let mut prev = *iv;
    let mut out = Vec::with_capacity(data.len());
    for c in data.chunks_exact(16) {
        let mut b = [0u8; 16];
        for i in 0..16 {
            b[i] = c[i] ^ prev[i];
        }
        prev = k.encrypt(&b);
        out.extend_from_slice(&prev);
    }
    out
}

pub fn encrypt(k: &RefAes, iv: &[u8; 16], pt: &[u8]) -> Vec<u8> {
    encrypt_blocks(k, iv, &pad(pt))
}

/// Number of padding bytes when `block` ends in valid PKCS#7 padding.
pub fn pad_len(block: &[u8]) -> Option<usize> {
    let n = *block.last()? as usize;
    if n >= 1 && n <= 16 && block[block.len() - n..].iter().all(|&b| b as usize == n) {
        Some(n)
    } else {
        None
    }
}

#[derive(Clone)]
pub struct CipherModel {
    pub key: Option<RefAes>,
    pub chain: [u8; 16],
    pub pend: Vec<u8>,
}

impl CipherModel {
    pub fn new(iv: [u8; 16]) -> Self {
        CipherModel { key: None, chain: iv, pend: vec![] }
    }
    /// True when accepted.
    pub fn init(&mut self, key: &[u8]) -> bool {
        if matches!(key.len(), 16 | 24 | 32) {
            self.key = Some(RefAes::new(key));
            true
        } else {
            false
        }
    }
    fn drain(&mut self) -> Vec<u8> {
        let whole = self.pend.len() / 16 * 16;
        if whole == 0 {
            return vec![];
        }
        let out = encrypt_blocks(self.key.as_ref().unwrap(), &self.chain, &self.pend[..whole]);
        self.chain.copy_from_slice(&out[out.len() - 16..]);
        self.pend.drain(..whole);
        out
    }
    /// Only to be called with a key, or when no block gets complete.
    pub fn write(&mut self, d: &[u8]) -> Vec<u8> {
        self.pend.extend_from_slice(d);
        self.drain()
    }
    pub fn flush(&mut self) -> Vec<u8> {
        self.pend = pad(&self.pend);
        self.drain()
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Refuse {
    Unfinished,
    BadPadding,
}

#[derive(Clone)]
pub struct DecipherModel {
    pub key: Option<RefAes>,
    pub chain: [u8; 16],
    /// ciphertext bytes of an incomplete block
    pub part: Vec<u8>,
    /// decrypted block that is held back
    pub held: Option<[u8; 16]>,
}

impl DecipherModel {
    pub fn new(iv: [u8; 16]) -> Self {
        DecipherModel { key: None, chain: iv, part: vec![], held: None }
    }
    pub fn init(&mut self, key: &[u8]) -> bool {
        if matches!(key.len(), 16 | 24 | 32) {
            self.key = Some(RefAes::new(key));
            true
        } else {
            false
        }
    }
    pub fn write(&mut self, d: &[u8]) -> Vec<u8> {
        self.part.extend_from_slice(d);
        let mut out = vec![];
        let whole = self.part.len() / 16 * 16;
        for c in self.part[..whole].chunks_exact(16) {
            let mut b = [0u8; 16];
            b.copy_from_slice(c);
            let mut p = self.key.as_ref().unwrap().decrypt(&b);
            for i in 0..16 {
                p[i] ^= self.chain[i];
            }
            self.chain = b;
            if let Some(h) = self.held.replace(p) {
                out.extend_from_slice(&h);
            }
        }
        self.part.drain(..whole);
        out
    }
    pub fn flush(&mut self) -> Result<Vec<u8>, Refuse> {
        if !self.part.is_empty() {
            return Err(Refuse::Unfinished);
        }
        let h = self.held.ok_or(Refuse::Unfinished)?;
        let n = pad_len(&h).ok_or(Refuse::BadPadding)?;
        self.held = None;
        Ok(h[..16 - n].to_vec())
    }
}
