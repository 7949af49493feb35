//! FIPS 180-4 SHA-256 and RFC 2104 HMAC.

const fn is_prime(n: u32) -> bool {
    let mut d = 2;
    while d * d <= n {
        if n % d == 0 {
            return false;
        }
        d += 1;
    }
    n >= 2
}

const fn primes() -> [u32; 64] {
    let mut p = [0u32; 64];
    let mut n = 2;
    let mut i = 0;
    while i < 64 {
        if is_prime(n) {
            p[i] = n;
            i += 1;
        }
        n += 1;
    }
    p
}

// First 32 bits of the fractional part of the e-th root of n:
// floor(root_e(n) * 2^32) mod 2^32, by bisection in exact integers.
const fn frac_root(n: u32, e: u32) -> u32 {
    let target = (n as u128) << (32 * e);
    let mut lo: u128 = 0;
    let mut hi: u128 = 1 << 38;
    while hi - lo > 1 {
        let mid = (lo + hi) / 2;
        let pow = if e == 2 { mid * mid } else { mid * mid * mid };
        if pow <= target {
            lo = mid;
        } else {
            hi = mid;
        }
    }
    (lo & 0xffff_ffff) as u32
}

const fn k_table() -> [u32; 64] {
    let p = primes();
    let mut k = [0; 64];
    let mut i = 0;
    while i < 64 {
        k[i] = frac_root(p[i], 3);
        i += 1;
    }
    k
}

const fn h_table() -> [u32; 8] {
    let p = primes();
    let mut h = [0; 8];
    let mut i = 0;
    while i < 8 {
        h[i] = frac_root(p[i], 2);
        i += 1;
    }
    h
}

static K: [u32; 64] = k_table();
static H0: [u32; 8] = h_table();

#[derive(Clone)]
pub struct Sha {
    h: [u32; 8],
    pend: [u8; 64],
    total: u64,
}

fn compress(h: &mut [u32; 8], m: &[u8]) {
    let mut w = [0u32; 64];
    for t in 0..16 {
        w[t] = u32::from_be_bytes([m[4 * t], m[4 * t + 1], m[4 * t + 2], m[4 * t + 3]]);
    }
    for t in 16..64 {
        let x = w[t - 15];
        let y = w[t - 2];
        let s0 = x.rotate_right(7) ^ x.rotate_right(18) ^ (x >> 3);
        let s1 = y.rotate_right(17) ^ y.rotate_right(19) ^ (y >> 10);
        w[t] = s1.wrapping_add(w[t - 7]).wrapping_add(s0).wrapping_add(w[t - 16]);
    }
    let mut v = *h;
    for t in 0..64 {
        let [a, b, c, d, e, f, g, hh] = v;
        let bs1 = e.rotate_right(6) ^ e.rotate_right(11) ^ e.rotate_right(25);
        let bs0 = a.rotate_right(2) ^ a.rotate_right(13) ^ a.rotate_right(22);
        let ch = (e & f) | (!e & g);
        let maj = (a & b) | (a & c) | (b & c);
        let t1 = hh.wrapping_add(bs1).wrapping_add(ch).wrapping_add(K[t]).wrapping_add(w[t]);
        v = [t1.wrapping_add(bs0.wrapping_add(maj)), a, b, c, d.wrapping_add(t1), e, f, g];
    }
    for i in 0..8 {
        h[i] = h[i].wrapping_add(v[i]);
    }
}

impl Sha {
    pub fn new() -> Self {
        Sha { h: H0, pend: [0; 64], total: 0 }
    }

    pub fn update(&mut self, mut d: &[u8]) {
        let off = (self.total % 64) as usize;
        self.total += d.len() as u64;
        if off > 0 {
            let n = d.len().min(64 - off);
            self.pend[off..off + n].copy_from_slice(&d[..n]);
            d = &d[n..];
            if off + n < 64 {
                return;
            }
            let p = self.pend;
            compress(&mut self.h, &p);
        }
        let mut it = d.chunks_exact(64);
        for c in &mut it {
            compress(&mut self.h, c);
        }
        let r = it.remainder();
        self.pend[..r.len()].copy_from_slice(r);
    }

    pub fn finish(&self) -> [u8; 32] {
        let mut s = self.clone();
        let bits = s.total.wrapping_mul(8);
        let mut tail = vec![0x80u8];
        while (s.total as usize % 64 + tail.len()) % 64 != 56 {
            tail.push(0);
        }
        tail.extend_from_slice(&bits.to_be_bytes());
        s.update(&tail);
        let mut o = [0; 32];
        for i in 0..8 {
            o[4 * i..4 * i + 4].copy_from_slice(&s.h[i].to_be_bytes());
        }
        o
    }
}

pub fn sha256(m: &[u8]) -> [u8; 32] {
    let mut s = Sha::new();
    s.update(m);
    s.finish()
}

/// A keyed HMAC with both pads absorbed, cloneable for many messages.
#[derive(Clone)]
pub struct Hmac {
    i: Sha,
    o: Sha,
}

impl Hmac {
    pub fn new(key: &[u8]) -> Self {
        let mut k = [0u8; 64];
        if key.len() > 64 {
            k[..32].copy_from_slice(&sha256(key));
        } else {
            k[..key.len()].copy_from_slice(key);
        }
        let mut i = Sha::new();
        let mut o = Sha::new();
        i.update(&k.map(|b| b ^ 0x36));
        o.update(&k.map(|b| b ^ 0x5c));
        Hmac { i, o }
    }
    pub fn mac(&self, parts: &[&[u8]]) -> [u8; 32] {
        let mut i = self.i.clone();
        for p in parts {
            i.update(p);
        }
        let mut o = self.o.clone();
        o.update(&i.finish());
        o.finish()
    }
}

pub fn hmac(key: &[u8], msg: &[u8]) -> [u8; 32] {
    Hmac::new(key).mac(&[msg])
}

/// The first block of a message, chosen word by word: `pick` sees the number of
/// the round, the state before it and the sum of the round without the word,
/// and gives the word. To choose inputs, never to judge results.
pub fn block_for(mut pick: impl FnMut(usize, &[u32; 8], u32) -> u32) -> [u8; 64] {
    let mut v = H0;
    let mut m = [0u8; 64];
    for t in 0..16 {
        let [a, b, c, d, e, f, g, hh] = v;
        let bs1 = e.rotate_right(6) ^ e.rotate_right(11) ^ e.rotate_right(25);
        let bs0 = a.rotate_right(2) ^ a.rotate_right(13) ^ a.rotate_right(22);
        let ch = (e & f) | (!e & g);
        let maj = (a & b) | (a & c) | (b & c);
        let sum = hh.wrapping_add(bs1).wrapping_add(ch).wrapping_add(K[t]);
        let w = pick(t, &v, sum);
        m[4 * t..4 * t + 4].copy_from_slice(&w.to_be_bytes());
        let t1 = sum.wrapping_add(w);
        v = [t1.wrapping_add(bs0.wrapping_add(maj)), a, b, c, d.wrapping_add(t1), e, f, g];
    }
    m
}

/// The block whose schedule has the words `win` from position `at` on.
pub fn block_with_schedule(at: usize, win: [u32; 16]) -> [u8; 64] {
    let mut w = win; // words at..at + 16
    for i in (16..at + 16).rev() {
        // word i is w[15]; get word i - 16
        let x = w[0]; // i - 15
        let y = w[13]; // i - 2
        let s0 = x.rotate_right(7) ^ x.rotate_right(18) ^ (x >> 3);
        let s1 = y.rotate_right(17) ^ y.rotate_right(19) ^ (y >> 10);
        let first = w[15].wrapping_sub(s1).wrapping_sub(w[8]).wrapping_sub(s0);
        w.copy_within(0..15, 1);
        w[0] = first;
    }
    let mut m = [0u8; 64];
    for t in 0..16 {
        m[4 * t..4 * t + 4].copy_from_slice(&w[t].to_be_bytes());
    }
    m
}

/// Sum of the functions of `a..c` that enters a round's new first word.
pub fn t2(v: &[u32; 8]) -> u32 {
    let [a, b, c, ..] = *v;
    (a.rotate_right(2) ^ a.rotate_right(13) ^ a.rotate_right(22)).wrapping_add((a & b) | (a & c) | (b & c))
}

pub fn k(t: usize) -> u32 {
    K[t]
}
