//! Deterministic data: everything an execution sees is a function of its index.

fn splitmix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

/// Byte `i` of fixed stream `s`. Neighbouring bytes and streams differ.
pub fn byte(s: u64, i: usize) -> u8 {
    (splitmix(s.wrapping_mul(0x1_0000_0001).wrapping_add(i as u64 / 8)) >> (8 * (i % 8))) as u8
}

pub fn stream(s: u64, len: usize) -> Vec<u8> {
    (0..len).map(|i| byte(s, i)).collect()
}

pub const PATS: usize = 8;

/// Content patterns. Kind 0 has all-different neighbours, the others are the
/// degenerate contents at which padding, xor and carry shortcuts go wrong.
pub fn pat(kind: usize, len: usize) -> Vec<u8> {
    match kind {
        0 => stream(1, len),
        1 => vec![0; len],
        2 => vec![0xff; len],
        3 => (0..len).map(|i| i as u8).collect(),
        4 => vec![0x80; len],
        5 => vec![0x36; len],
        6 => vec![0x5c; len],
        _ => (0..len).map(|i| 255 - (i % 256) as u8).collect(),
    }
}

pub fn arr16(b: &[u8]) -> [u8; 16] {
    let mut a = [0; 16];
    a.copy_from_slice(b);
    a
}

pub const KEY_SIZES: [usize; 3] = [16, 24, 32];

/// Keys chosen to collide under any shortcut that looks at part of a key: a
/// 16-byte key is a prefix of the 24- and 32-byte ones; the variants differ from
/// the first in one end only or are permutations of it.
pub fn key(variant: usize, len: usize) -> Vec<u8> {
    let mut k = stream(77, 32);
    match variant {
        0 => {}
        1 => k[len - 1] ^= 1,
        2 => k[0] ^= 0x80,
        3 => k[..len].reverse(),
        4 => k = vec![0; 32],
        5 => k = vec![0xff; 32],
        _ => k = stream(78 + variant as u64, 32),
    }
    k.truncate(len);
    k
}

/// Slices of one long stream without allocating.
pub fn base() -> &'static [u8] {
    static B: std::sync::OnceLock<Vec<u8>> = std::sync::OnceLock::new();
    B.get_or_init(|| stream(1, 1 << 21))
}

/// Lengths around everything block-like.
pub const EDGES: [usize; 26] = [
    0, 1, 2, 3, 7, 8, 9, 31, 32, 33, 54, 55, 56, 57, 62, 63, 64, 65, 66, 119, 120, 127, 128, 129, 192, 193,
];

/// A value, or the largest one this platform's words can hold.
pub fn clip(v: u64) -> usize {
    usize::try_from(v).unwrap_or(usize::MAX)
}

/// Values of every magnitude up to `max`: around powers of two and of ten, and
/// ordinary values in between. Limits, masks and narrow counters sit at these.
pub fn mags(min: usize, max: usize) -> Vec<usize> {
    let mut v = vec![];
    for k in 0..40 {
        let p = 1u64 << k;
        for x in [p - 1, p, p + 1, p + p / 2, p + p / 2 + 1, p + p / 4 + 3, p + 3 * (p / 4) + 7] {
            v.push(x);
        }
    }
    let mut t = 10u64;
    while t < 1 << 40 {
        v.extend([t - 1, t, t + 1, 2 * t, 5 * t, 5 * t + 1]);
        t *= 10;
    }
    v.retain(|&x| x >= min as u64 && x <= max as u64);
    v.sort_unstable();
    v.dedup();
    v.into_iter().map(|x| x as usize).collect()
}

/// `n` bytes of the repeated base stream.
pub fn long(n: usize) -> Vec<u8> {
    let b = base();
    let mut v = Vec::with_capacity(n);
    while v.len() < n {
        let k = (n - v.len()).min(b.len() - 5);
        v.extend_from_slice(&b[..k]);
    }
    v
}

/// `n` bytes, nearly all of them zero pages that no memory stands behind.
pub fn sparse(n: u64) -> Vec<u8> {
    // A 32-bit process has room for a few of these at once.
    let n = if cfg!(target_pointer_width = "64") { clip(n) } else { 200_000_003 };
    let mut v = vec![0u8; n];
    v[5] = 1;
    v[n - 3] = 2;
    v
}

/// What text carries: marks, ends of lines, quotes, encodings, delimiters. Code
/// that trims, folds, decodes or cuts its input does so at one of these.
const TEXTS: [&[u8]; 52] = [
    b"\0", b"\0\0", b"\n", b"\r", b"\r\n", b"\n\n", b"\t", b" ", b"  ", b"\x0b", b"\x0c", b"\x1a", b"\x1b", b"\x7f", b"\x04",
    b"\xef\xbb\xbf", b"\xff\xfe", b"\xfe\xff", b"\xff\xff", b"\x80", b"\xc2\xa0", b"\xc3\xa9", b"e\xcc\x81", b"\xc0\x80", b"\xed\xa0\x80",
    b"\xe2\x80\x8b", b"\xf0\x9f\x98\x80", b"\xe2\x84\xaa", b"\xc3\x9f", b"\"", b"'", b"\\", b"%00", b"\\0", b"0x", b"=", b"==", b"$", b"$s0$", b":",
    b"test", b"password", b"NaCl", b"salt", b"abc", b"ABC", b"1234567890", b"-1", b"null", b"Salted__", b"\x01\0\0\0", b"\0\0\0\x01",
];
pub const TEXTED: usize = 52 * 7 * 5;

/// A string with one of these in it: alone, doubled, before, after, on both
/// sides of and inside other text, and overwriting its end; of several lengths.
pub fn texted(i: usize) -> Vec<u8> {
    let (t, how, fill) = (TEXTS[i / 35], i / 5 % 7, [1, 5, 13, 30, 61][i % 5]);
    let x: Vec<u8> = (0..fill).map(|j| b"Tropic of Cancer"[j % 16]).collect();
    let x = &x[..];
    match how {
        0 => t.repeat(fill),
        1 => [t, x].concat(),
        2 => [x, t].concat(),
        3 => [t, x, t].concat(),
        4 => [&x[..fill / 2], t, &x[fill / 2..]].concat(),
        5 => [&x[..fill.saturating_sub(t.len())], t].concat(),
        _ => [x, t, t].concat(),
    }
}

pub const ENDS: usize = 65536 * 4;

/// Every pair of first two and of last two bytes, of strings of 3
/// and of `l` bytes. `i` below `ENDS`.
pub fn ends(i: usize, l: usize) -> Vec<u8> {
    let (v, how) = (i & 0xffff, i >> 16);
    let mut x = stream(70, if how < 2 { 3 } else { l });
    let at = if how % 2 == 0 { 0 } else { x.len() - 2 };
    x[at] = (v >> 8) as u8;
    x[at + 1] = v as u8;
    x
}

pub const RELATIONS: usize = 28;

/// A string that stands in the `k`-th relation to `x`: equal, a part of it, it
/// with something added or flipped, its hash, its HMAC pads. Special cases on
/// two arguments being "the same" sit at these.
pub fn related(k: usize, x: &[u8]) -> Vec<u8> {
    let n = x.len();
    let xor = |v: u8| x.iter().map(|b| b ^ v).collect::<Vec<u8>>();
    let flip = |at: usize, v: u8| {
        let mut y = x.to_vec();
        if let Some(b) = y.get_mut(at) {
            *b ^= v;
        }
        y
    };
    match k {
        0 => x.to_vec(),
        1 => vec![],
        2 => x[..n / 2].to_vec(),
        3 => x[n / 2..].to_vec(),
        4 => x[..n.saturating_sub(1)].to_vec(),
        5 => x[n.min(1)..].to_vec(),
        6 => x[..n.min(64)].to_vec(),
        7 => x[..n.min(32)].to_vec(),
        8 => x[..n.min(16)].to_vec(),
        9 => [x, &[0]].concat(),
        10 => [x, x].concat(),
        11 => [&[0], x].concat(),
        12 => [x, &[0, 0, 0, 1]].concat(),
        13 => x.iter().rev().copied().collect(),
        14 => xor(0xff),
        15 => xor(0x36),
        16 => xor(0x5c),
        17 => xor(0x36 ^ 0x5c),
        18 => flip(0, 1),
        19 => flip(n.wrapping_sub(1), 1),
        20 => flip(n / 2, 0x80),
        21 => vec![0; n],
        22 => x.iter().map(|b| b.wrapping_add(1)).collect(),
        23 => crate::refs::sha::sha256(x).to_vec(),
        24 => crate::refs::sha::hmac(x, b"").to_vec(),
        25 => {
            let mut y = x[..n.min(64)].to_vec();
            y.resize(64, 0);
            y
        }
        26 => {
            let mut y = x[..n.min(64)].to_vec();
            y.resize(64, 0);
            y.iter().map(|b| b ^ 0x36).collect()
        }
        _ => {
            let mut y = x.to_vec();
            y.rotate_left(n.min(1));
            y
        }
    }
}

/// How much an object has seen before, and how much comes next at once.
pub const FAR: [usize; 6] = [4096, 65_536, 131_072, 1_000_000, 1 << 20, 2_100_000];
pub const LARGE: [usize; 12] = [1000, 4096, 4097, 32_769, 65_535, 65_536, 65_537, 70_000, 100_001, 131_072, 131_073, 250_000];
