//! RFC 2898 PBKDF2-HMAC-SHA256 and RFC 7914 scrypt.
use super::salsa;
use super::sha::Hmac;

/// Block number `i` (1-based) of PBKDF2.
pub fn pbkdf2_block(prf: &Hmac, salt: &[u8], c: u64, i: u32) -> [u8; 32] {
    let mut u = prf.mac(&[salt, &i.to_be_bytes()]);
    let mut t = u;
    for _ in 1..c {
        u = prf.mac(&[&u]);
        for k in 0..32 {
            t[k] ^= u[k];
        }
    }
    t
}

pub fn pbkdf2(pw: &[u8], salt: &[u8], c: u64, dk_len: usize) -> Vec<u8> {
    let prf = Hmac::new(pw);
    let mut out = Vec::new();
    let mut i = 1u32;
    while out.len() < dk_len {
        out.extend_from_slice(&pbkdf2_block(&prf, salt, c, i));
        i = i.wrapping_add(1);
    }
    out.truncate(dk_len);
    out
}

/// BlockMix on a flat 128*r byte string.
fn block_mix(b: &[u8], out: &mut [u8]) {
    let n = b.len() / 64;
    let mut x = [0u8; 64];
    x.copy_from_slice(&b[(n - 1) * 64..]);
    for i in 0..n {
        let mut t = [0u8; 64];
        for k in 0..64 {
            t[k] = x[k] ^ b[64 * i + k];
        }
        salsa::core(&t, 4, &mut x);
        let dst = if i % 2 == 0 { i / 2 } else { n / 2 + i / 2 };
        out[64 * dst..64 * dst + 64].copy_from_slice(&x);
    }
}

pub fn ro_mix(b: &mut [u8], n: u64) {
    let w = b.len();
    let mut v = Vec::with_capacity(w * n as usize);
    let mut x = b.to_vec();
    let mut y = vec![0u8; w];
    for _ in 0..n {
        v.extend_from_slice(&x);
        block_mix(&x, &mut y);
        core::mem::swap(&mut x, &mut y);
    }
    for _ in 0..n {
        let mut le = [0u8; 8];
        le.copy_from_slice(&x[w - 64..w - 56]);
        let j = (u64::from_le_bytes(le) % n) as usize;
        for k in 0..w {
            x[k] ^= v[j * w + k];
        }
        block_mix(&x, &mut y);
        core::mem::swap(&mut x, &mut y);
    }
    b.copy_from_slice(&x);
}

pub fn scrypt(pw: &[u8], salt: &[u8], r: usize, n: u64, p: usize, dk_len: usize) -> Vec<u8> {
    let w = 128 * r;
    let mut b = pbkdf2(pw, salt, 1, p * w);
    for i in 0..p {
        ro_mix(&mut b[i * w..(i + 1) * w], n);
    }
    pbkdf2(pw, &b, 1, dk_len)
}
