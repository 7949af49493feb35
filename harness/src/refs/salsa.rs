//! Salsa20 hash function (Bernstein, "Salsa20 specification"), in the
//! in-place formulation of section 8 of the eSTREAM paper / RFC 7914 section 3.

pub fn core(input: &[u8], double_rounds: usize, out: &mut [u8]) {
    let mut x = [0u32; 16];
    for i in 0..16 {
        x[i] = u32::from_le_bytes([input[4 * i], input[4 * i + 1], input[4 * i + 2], input[4 * i + 3]]);
    }
    let z = x;
    fn step(x: &mut [u32; 16], d: usize, a: usize, b: usize, r: u32) {
        x[d] ^= x[a].wrapping_add(x[b]).rotate_left(r);
    }
    for _ in 0..double_rounds {
        for c in 0..4 {
            // column c, starting on the diagonal
            let q = |k: usize| (5 * c + 4 * k) % 16;
            step(&mut x, q(1), q(0), q(3), 7);
            step(&mut x, q(2), q(1), q(0), 9);
            step(&mut x, q(3), q(2), q(1), 13);
            step(&mut x, q(0), q(3), q(2), 18);
        }
        for r in 0..4 {
            // row r, starting on the diagonal
            let q = |k: usize| 4 * r + (r + k) % 4;
            step(&mut x, q(1), q(0), q(3), 7);
            step(&mut x, q(2), q(1), q(0), 9);
            step(&mut x, q(3), q(2), q(1), 13);
            step(&mut x, q(0), q(3), q(2), 18);
        }
    }
    for i in 0..16 {
        out[4 * i..4 * i + 4].copy_from_slice(&x[i].wrapping_add(z[i]).to_le_bytes());
    }
}

/// Every 64-byte block of `input` on its own.
pub fn salsa(input: &[u8], double_rounds: usize) -> Vec<u8> {
    let mut out = vec![0; input.len()];
    for (i, o) in input.chunks_exact(64).zip(out.chunks_exact_mut(64)) {
        core(i, double_rounds, o);
    }
    out
}

/// The input for which the working state is `x` after `steps` of the 8 steps
/// (four words each) of every double round. To choose inputs, never to judge.
pub fn input_for(steps: usize, mut x: [u32; 16]) -> [u8; 64] {
    for s in (0..steps).rev() {
        for c in 0..4 {
            let q = |k: usize| {
                let k = k % 4;
                if s / 4 % 2 == 0 {
                    (5 * c + 4 * k) % 16
                } else {
                    4 * c + (c + k) % 4
                }
            };
            let k = s % 4 + 1;
            x[q(k)] ^= x[q(k + 3)].wrapping_add(x[q(k + 2)]).rotate_left([7, 9, 13, 18][s % 4]);
        }
    }
    let mut b = [0; 64];
    for i in 0..16 {
        b[4 * i..4 * i + 4].copy_from_slice(&x[i].to_le_bytes());
    }
    b
}
