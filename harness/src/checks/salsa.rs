//! C05: the Salsa20 core.
use crate::api;
use crate::engine::*;
use crate::refs::salsa as model;
use crate::util::*;

fn one(cx: &mut Cx, input: &[u8], rounds: usize, fill: u8) -> R {
    let mut out = vec![fill; input.len()];
    let mut want = vec![0u8; input.len()];
    api::salsa20(input, rounds, &mut out);
    for (i, o) in input.chunks_exact(64).zip(want.chunks_exact_mut(64)) {
        model::core(i, rounds, o);
    }
    cx.state(&(input, rounds));
    if out == want {
        cx.outcome(&out);
        return Ok(());
    }
    cx.eq(&format!("{} bytes, {} double rounds", input.len(), rounds), &out, &want)
}

const ROUNDS: [usize; 22] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 20, 40, 100, 255, 256, 257, 1000];

pub fn c05(t: Tier) -> Check {
    let ms = mags(500, t.pick(1 << 21, 1 << 24));
    let nm = ms.len();
    let words: [u32; 6] = [0, 1, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0x0102_0304];
    let spaces = vec![
        Space::new("patterns", "8 contents x 22 round counts (0..1000) x 3 prior output contents", size([22, 8, 3]), |i, cx| {
            let [r, k, f] = dec(i, [22, 8, 3]);
            one(cx, &pat(k, 64), ROUNDS[r], [0, 0xff, 0x5a][f])
        }),
        Space::new("byte_values", "every byte position x every value x 3 backgrounds x double rounds 0, 1, 2, 4, 10", size([5, 3, 64, 256]), |i, cx| {
            let [r, bg, p, v] = dec(i, [5, 3, 64, 256]);
            let mut m = pat(bg, 64);
            m[p] = v as u8;
            one(cx, &m, [0, 1, 2, 4, 10][r], 0)
        }),
        Space::new("word_sets", "every assignment of the 16 words to {0, ffffffff}, and of whether a word differs from a mixed pattern, x double rounds 0, 1, 2, 4, 10", size([5, 2, 1 << 16]), |i, cx| {
            let [r, bg, mask] = dec(i, [5, 2, 1 << 16]);
            let mut m = pat(1 - bg, 64);
            for w in 0..16 {
                if mask >> w & 1 == 1 {
                    m[4 * w..4 * w + 4].fill(0xff);
                }
            }
            one(cx, &m, [0, 1, 2, 4, 10][r], 0)
        }),
        Space::new("word_pairs", "every pair of word positions x 6x6 extreme word values on 2 backgrounds, double rounds 1 and 4", size([2, 2, 16, 16, 6, 6]), move |i, cx| {
            let [r, bg, a, b, x, y] = dec(i, [2, 2, 16, 16, 6, 6]);
            let mut m = pat(bg, 64);
            m[4 * a..4 * a + 4].copy_from_slice(&words[x].to_le_bytes());
            m[4 * b..4 * b + 4].copy_from_slice(&words[y].to_le_bytes());
            one(cx, &m, [1, 4][r], 0)
        }),
        Space::new("bit_pairs", "every pair of set bits in a zero block, one double round", size([512, 512]), |i, cx| {
            let [a, b] = dec(i, [512, 512]);
            let mut m = vec![0u8; 64];
            m[a / 8] |= 1 << (a % 8);
            m[b / 8] |= 1 << (b % 8);
            one(cx, &m, 1, 0)
        }),
        Space::new("multi_block", "inputs of 0..=20 blocks x round counts 0..=12 x 3 contents x 2 prior output contents; blocks all different", size([21, 13, 3, 2]), |i, cx| {
            let [n, r, k, f] = dec(i, [21, 13, 3, 2]);
            one(cx, &pat([0, 3, 1][k], 64 * n), r, [0, 0xa5][f])
        }),
        Space::new("equal_words", "every way of making words equal: word w takes the value of word m(w), for every m mapping 4 groups (rows, columns, diagonals, quarters) onto each other, x 6 values x double rounds 0..=5", size([4, 256, 6, 6]), move |i, cx| {
            let [how, map, v, r] = dec(i, [4, 256, 6, 6]);
            let mut m = vec![0u8; 64];
            for w in 0..16usize {
                let (a, b) = (w / 4, w % 4);
                let (g, at) = match how {
                    0 => (a, b),
                    1 => (b, a),
                    2 => ((b + 4 - a) % 4, a),
                    _ => (2 * (a / 2) + b / 2, 2 * (a % 2) + b % 2),
                };
                let g = map >> (2 * g) & 3;
                let x = words[v].wrapping_add((g as u32).wrapping_mul(0x9e37_79b9)).rotate_left(7 * at as u32);
                m[4 * w..4 * w + 4].copy_from_slice(&x.to_le_bytes());
            }
            one(cx, &m, r, 0)
        }),
        Space::new("inner_words", "inputs chosen so that after each of the first 16 steps, and of the last 8 of 4 double rounds, two words of the working state take every pair of 8 values (sums that are 0, all ones, carry through): every pair of positions x 2 backgrounds", size([24, 2, 16, 16, 8, 8]), |i, cx| {
            let [s, bg, a, b, x, y] = dec(i, [24, 2, 16, 16, 8, 8]);
            const V: [u32; 8] = [0, 1, 0xffff_ffff, 0x8000_0000, 0x7fff_ffff, 0x0102_0304, 0xfefd_fcfc, 0xfefd_fcfb];
            let mut st = [0u32; 16];
            if bg == 1 {
                for (j, w) in st.iter_mut().enumerate() {
                    *w = u32::from_le_bytes([byte(62, 4 * j), byte(62, 4 * j + 1), byte(62, 4 * j + 2), byte(62, 4 * j + 3)]);
                }
            }
            st[a] = V[x];
            st[b] = V[y];
            let (steps, r) = if s < 16 { (s, 2) } else { (s + 8, 4) };
            one(cx, &model::input_for(steps, st), r, 0)
        }),
        Space::new("inner_sets", "inputs chosen so that the working state after each of the first 8 steps, or after 2, 3 and 4 double rounds, is every assignment of two values to its 16 words: 3 pairs of values", size([11, 3, 1 << 16]), |i, cx| {
            let [s, pair, mask] = dec(i, [11, 3, 1 << 16]);
            let two = [[0, 0xffff_ffff], [0, 0x6e65_7478], [0x8000_0000, 0x7fff_ffff]][pair];
            let mut st = [0u32; 16];
            for (j, w) in st.iter_mut().enumerate() {
                *w = two[mask >> j & 1];
            }
            let steps = if s < 8 { s } else { 8 * (s - 6) };
            one(cx, &model::input_for(steps, st), 4, 0)
        }),
        Space::new("related_blocks", format!("three blocks, the second in each of {} relations to the first or to its result, the third equal to the first; 8 contents x double rounds 0, 1, 4, 10", RELATIONS), size([RELATIONS, 8, 4, 2]), |i, cx| {
            let [k, p, r, of] = dec(i, [RELATIONS, 8, 4, 2]);
            let r = [0, 1, 4, 10][r];
            let a = pat(p, 64);
            let mut o = vec![0; 64];
            model::core(&a, r, &mut o);
            let mut b = related(k, if of == 0 { &a } else { &o });
            b.resize(64, 0);
            one(cx, &[&a[..], &b, &a].concat(), r, 0x33)
        }),
        Space::new("block_choices", "every sequence of up to 7 blocks out of: zeros, ones, mixed, counting; double rounds 1 and 4", 2 * seq_count(4, 7), |i, cx| {
            let mut s = vec![];
            seq_at(i / 2, 4, 7, &mut s);
            let m: Vec<u8> = s.iter().flat_map(|&b| pat([1, 2, 0, 3][b], 64)).collect();
            one(cx, &m, [1, 4][i as usize % 2], 0x44)
        }),
        Space::new("large_rounds", "round counts around 2^16 and 2^8 k: 511..=513, 65535..=65537, 131072, 200000", 8, |i, cx| {
            let r = [511, 512, 513, 65535, 65536, 65537, 131_072, 200_000][i as usize];
            one(cx, &pat(0, 64), r, 0)
        }),
        Space::new("all_rounds", format!("every round count 0..={} on two blocks", t.pick(600, 5000)), t.pick(601, 5001), |i, cx| one(cx, &pat(0, 128), i as usize, 1)),
        Space::new("large_inputs", "inputs of 64, 128, 1024, 4096 and 16384 blocks, 4 double rounds", 5, |i, cx| {
            let n = [64, 128, 1024, 4096, 16384][i as usize];
            let m = &base()[..64 * n];
            let mut out = vec![9u8; m.len()];
            let mut want = vec![0u8; m.len()];
            api::salsa20(m, 4, &mut out);
            for (a, o) in m.chunks_exact(64).zip(want.chunks_exact_mut(64)) {
                model::core(a, 4, o);
            }
            cx.eq("large input", &out, &want)
        }),
        Space::new("magnitudes", format!("{} values of every magnitude to 2^{} as round count, and to 2^17 as number of blocks", nm, t.pick(21, 24)), size([2, nm]), move |i, cx| {
            let [k, m] = dec(i, [2, nm]);
            match k {
                0 => one(cx, &pat(0, 64), ms[m], 3),
                _ if ms[m] > (1 << 17) + 1 => Ok(()),
                _ => one(cx, &long(64 * ms[m]), 1, 3),
            }
        }),
        super::kdf::endless_space("salsa20"),
    ];
    Check {
        id: "C05",
        spaces,
        bounds: "every byte value at every position (5 round counts, 3 backgrounds), all 2^16 zero/ones word assignments, all bit pairs, 0..=20 blocks x 0..=12 rounds, all round counts to 600".into(),
        assumptions: vec!["reference core (in-place formulation) self-tested against RFC 7914 section 8 on every run".into(), "input and output have equal lengths, multiples of 64, as the documentation demands".into()],
    }
}
