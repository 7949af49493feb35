//! C01, C02 (SHA-256) and C03 (HMAC).
use crate::api;
use crate::engine::*;
use crate::refs::sha as model;
use crate::util::*;

fn digest_of(m: &[u8]) -> [u8; 32] {
    let mut s = api::Sha::new();
    s.update(m);
    s.digest()
}

/// Lengths that need a long-running case each (bytes).
fn giants(t: Tier) -> Vec<u64> {
    let g29 = 1u64 << 29; // 2^32 bits
    let g32 = 1u64 << 32; // 2^32 bytes
    let mut v = vec![g32 + 9, g29 - 1, g29, g29 + 55, g29 + 56];
    if t.thorough() {
        v.extend([g29 - 9, g29 - 8, g29 + 64, 2 * g29 - 1, 2 * g29, 4 * g29, g32 - 1, g32, g32 + 55, g32 + 64, g32 + g29, 2 * g32 + 1]);
    }
    v
}

pub fn c01(t: Tier) -> Check {
    let max = t.pick(2200usize, 20_000);
    let mut spaces = vec![
        Space::new("lengths", format!("every message length 0..={} x {} content patterns x both constructors, one update", max, PATS), size([max + 1, PATS, 2]), move |i, cx| {
            let [len, k, ctor] = dec(i, [max + 1, PATS, 2]);
            let m = pat(k, len);
            cx.state(&(len, k));
            let mut s = if ctor == 0 { api::Sha::new() } else { api::Sha::default() };
            s.update(&m);
            cx.eq(&format!("digest of {} bytes (pattern {})", len, k), &s.digest(), &model::sha256(&m))
        }),
        Space::new("no_update", "digest without any update", 2, |i, cx| {
            let mut s = if i == 0 { api::Sha::new() } else { api::Sha::default() };
            cx.state(&(0usize, 0usize));
            cx.eq("digest of nothing", &s.digest(), &model::sha256(b""))
        }),
        Space::new("two_bytes", "every message of 1 byte and of 2 bytes", 256 + 65536, |i, cx| {
            let m = if i < 256 { vec![i as u8] } else { vec![((i - 256) >> 8) as u8, (i - 256) as u8] };
            cx.state(&m);
            cx.eq("digest of a short message", &digest_of(&m), &model::sha256(&m))
        }),
    ];
    const L: [usize; 16] = [1, 3, 8, 31, 55, 56, 57, 63, 64, 65, 118, 119, 120, 128, 129, 192];
    let mut offs: Vec<(usize, usize)> = vec![];
    for &l in &L {
        for p in 0..l {
            offs.push((l, p));
        }
    }
    let n = offs.len();
    spaces.push(Space::new(
        "byte_values",
        "for 16 lengths around the block boundaries: every byte position x every byte value x 3 backgrounds (mixed, zeros, ones)",
        size([n, 3, 256]),
        move |i, cx| {
            let [o, bg, v] = dec(i, [n, 3, 256]);
            let (len, p) = offs[o];
            let mut m = pat(bg, len);
            m[p] = v as u8;
            cx.state(&m);
            cx.eq(&format!("digest, length {} byte {}={:#x}", len, p, v), &digest_of(&m), &model::sha256(&m))
        },
    ));
    spaces.push(Space::new("texts", "messages with each of 52 marks, line ends, encodings and delimiters in 7 places of 5 lengths", TEXTED as u64, |i, cx| {
        let m = texted(i as usize);
        cx.state(&m);
        cx.eq("digest of a text", &digest_of(&m), &model::sha256(&m))
    }));
    spaces.push(Space::new("ends", "every pair of first two and of last two bytes of messages of 3, 8, 56 and 64 bytes", size([3, ENDS]), |i, cx| {
        let [l, e] = dec(i, [3, ENDS]);
        let m = ends(e, [8, 56, 64][l]);
        cx.state(&m);
        cx.eq("digest of a message with chosen ends", &digest_of(&m), &model::sha256(&m))
    }));
    const PAIRS: [(u32, u32); 9] = [
        (0, 0xffff_ffff),
        (0, 1),
        (0, 0x8000_0000),
        (0, 0x5a82_7999),
        (0xffff_ffff, 0x5a82_7999),
        (0x5a82_7999, 0xa57d_8666),
        (0x6162_6364, 0x6465_6667),
        (0x0100_0000, 0x0000_0100),
        (0x7fff_ffff, 0x8000_0000),
    ];
    spaces.push(Space::new(
        "word_sets",
        "a block whose 16 words are every assignment out of two values, x 9 pairs of values; alone, after another block, and followed by 8 bytes",
        size([9, 3, 1 << 16]),
        |i, cx| {
            let [k, how, mask] = dec(i, [9, 3, 1 << 16]);
            let mut m = vec![];
            if how == 1 {
                m.extend_from_slice(&base()[..64]);
            }
            for w in 0..16 {
                m.extend(if mask >> w & 1 == 0 { PAIRS[k].0 } else { PAIRS[k].1 }.to_be_bytes());
            }
            if how == 2 {
                m.extend_from_slice(&base()[..8]);
            }
            cx.state(&(k, how, mask, 77));
            cx.eq("digest of a block of two words", &digest_of(&m), &model::sha256(&m))
        },
    ));
    spaces.push(Space::new(
        "word_pairs",
        "a block of zeros, of ones and of mixed words with every pair of its words replaced by every pair of 8 values",
        size([3, 16, 16, 8, 8]),
        |i, cx| {
            let [bg, a, b, x, y] = dec(i, [3, 16, 16, 8, 8]);
            const V: [u32; 8] = [0, 1, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0x0102_0304, 0x0000_ffff, 0x5a82_7999];
            let mut m = pat([1, 2, 0][bg], 64);
            m[4 * a..4 * a + 4].copy_from_slice(&V[x].to_be_bytes());
            m[4 * b..4 * b + 4].copy_from_slice(&V[y].to_be_bytes());
            cx.state(&m);
            cx.eq("digest of a block with two chosen words", &digest_of(&m), &model::sha256(&m))
        },
    ));
    spaces.push(Space::new("bit_pairs", "one block with every pair of bits set, and with every pair clear", size([2, 512, 512]), |i, cx| {
        let [bg, a, b] = dec(i, [2, 512, 512]);
        let mut m = vec![0u8; 64];
        m[a / 8] |= 0x80 >> (a % 8);
        m[b / 8] |= 0x80 >> (b % 8);
        if bg == 1 {
            m.iter_mut().for_each(|x| *x = !*x);
        }
        cx.state(&m);
        cx.eq("digest of a block with two bits set or clear", &digest_of(&m), &model::sha256(&m))
    }));
    // Inner states at the ends of their range.
    const V: [u32; 8] = [0, 1, 0xffff_ffff, 0x8000_0000, 0x7fff_ffff, 0x0000_ffff, 0xffff_0000, 0x5a82_7999];
    spaces.push(Space::new(
        "inner_words",
        "blocks chosen so that in every two of the first 16 rounds the temporary sum T1, the new word a or the new word e takes every pair of 8 values; the other words zero or mixed",
        size([16, 16, 3, 3, 8, 8, 2]),
        |i, cx| {
            let [r1, r2, k1, k2, x, y, bg] = dec(i, [16, 16, 3, 3, 8, 8, 2]);
            if r1 > r2 || (r1 == r2 && (k1, x) != (k2, y)) {
                return Ok(());
            }
            let m = model::block_for(|t, v, sum| {
                let to = |k: usize, v8: u32| match k {
                    0 => v8.wrapping_sub(sum),
                    1 => v8.wrapping_sub(sum).wrapping_sub(model::t2(v)),
                    _ => v8.wrapping_sub(sum).wrapping_sub(v[3]),
                };
                if t == r1 {
                    to(k1, V[x])
                } else if t == r2 {
                    to(k2, V[y])
                } else {
                    bg as u32 * 0x9e37_79b9u32.wrapping_mul(t as u32 + 3)
                }
            });
            cx.state(&m);
            cx.eq("digest of a block with chosen inner words", &digest_of(&m), &model::sha256(&m))
        },
    ));
    spaces.push(Space::new(
        "inner_runs",
        "blocks chosen so that in four rounds in a row, from each of the first 13 on, the new word e (and, the other time, a) takes every combination of 8 values: every extreme (e, f, g, h) and (a, b, c, d)",
        size([13, 2, 8, 8, 8, 8]),
        |i, cx| {
            let [r, k, w, x, y, z] = dec(i, [13, 2, 8, 8, 8, 8]);
            let m = model::block_for(|t, v, sum| {
                if t < r || t > r + 3 {
                    return 0x9e37_79b9u32.wrapping_mul(t as u32 + 3);
                }
                let want = V[[w, x, y, z][t - r]];
                want.wrapping_sub(sum).wrapping_sub(if k == 0 { v[3] } else { model::t2(v) })
            });
            cx.state(&m);
            cx.eq("digest of a block with chosen inner words", &digest_of(&m), &model::sha256(&m))
        },
    ));
    spaces.push(Space::new(
        "inner_carries",
        "blocks chosen so that in each of the rounds 4..=15 the sum of h, of h and the first function of e, of h and both, of all and the constant, or of all is every one of 8 values, for 8 x 8 x 8 values of e, f, g",
        size([12, 5, 8, 8, 8, 8]),
        |i, cx| {
            let [r, k, e, f, g, s] = dec(i, [12, 5, 8, 8, 8, 8]);
            let r = r + 4;
            let (e, f, g, s) = (V[e], V[f], V[g], V[s]);
            let bs1 = e.rotate_right(6) ^ e.rotate_right(11) ^ e.rotate_right(25);
            let ch = (e & f) | (!e & g);
            let m = model::block_for(|t, v, sum| {
                let e_to = |x: u32| x.wrapping_sub(sum).wrapping_sub(v[3]);
                if t + 4 == r {
                    // this e is h of round r
                    e_to(match k {
                        0 | 4 => s,
                        1 => s.wrapping_sub(bs1),
                        2 => s.wrapping_sub(bs1).wrapping_sub(ch),
                        _ => s.wrapping_sub(bs1).wrapping_sub(ch).wrapping_sub(model::k(r)),
                    })
                } else if t + 3 == r {
                    e_to(g)
                } else if t + 2 == r {
                    e_to(f)
                } else if t + 1 == r {
                    e_to(e)
                } else if t == r && k == 4 {
                    s.wrapping_sub(sum)
                } else {
                    0x9e37_79b9u32.wrapping_mul(t as u32 + 3)
                }
            });
            cx.state(&m);
            cx.eq("digest of a block with chosen inner sums", &digest_of(&m), &model::sha256(&m))
        },
    ));
    spaces.push(Space::new(
        "inner_schedule",
        "blocks chosen so that the 16 schedule words from each of the positions 1, 8, 15..=17, 24, 32, 40, 47 and 48 on are every assignment out of two values (2 pairs)",
        size([10, 2, 1 << 16]),
        |i, cx| {
            let [at, k, mask] = dec(i, [10, 2, 1 << 16]);
            let two = [[0u32, 0xffff_ffff], [0, 0x5a82_7999]][k];
            let mut win = [0u32; 16];
            for (j, w) in win.iter_mut().enumerate() {
                *w = two[mask >> j & 1];
            }
            let m = model::block_with_schedule([1, 8, 15, 16, 17, 24, 32, 40, 47, 48][at], win);
            cx.state(&m);
            cx.eq("digest of a block with a chosen schedule", &digest_of(&m), &model::sha256(&m))
        },
    ));
    let hi = t.pick(22u32, 26);
    spaces.push(Space::new(
        "powers",
        format!("message lengths 2^k + d for k in 11..={} and d in -10..=70", hi),
        size([(hi - 10) as usize, 81]),
        |i, cx| {
            let [k, d] = dec(i, [64, 81]);
            let len = (1usize << (11 + k)) + d - 10;
            let m: Vec<u8> = base().iter().copied().cycle().take(len).collect();
            cx.state(&(len, 99));
            cx.eq(&format!("digest of {} bytes", len), &digest_of(&m), &model::sha256(&m))
        },
    ));
    let ms = mags(4096, t.pick(1 << 26, 1 << 28));
    let nm = ms.len();
    spaces.push(Space::new("magnitudes", format!("{} lengths of every magnitude from 2^12 to 2^{}, one update", nm, t.pick(26, 28)), nm as u64, move |i, cx| {
        let m = long(ms[i as usize]);
        cx.state(&(m.len(), 98));
        cx.eq(&format!("digest of {} bytes", m.len()), &digest_of(&m), &model::sha256(&m))
    }));
    if t.thorough() {
        spaces.push(Space::new("three_bytes", "every message of 3 bytes", 1 << 24, |i, cx| {
            let m = [(i >> 16) as u8, (i >> 8) as u8, i as u8];
            cx.eq("digest of 3 bytes", &digest_of(&m), &model::sha256(&m))
        }));
    }
    spaces.push(
        Space::new("one_update_4GiB", "one update call with a slice of 2^32 + 70 bytes", 1, |_, cx| {
            let m = sparse((1u64 << 32) + 70);
            let mut r = model::Sha::new();
            r.update(&m);
            cx.eq("digest of one 4 GiB slice", &digest_of(&m), &r.finish())
        })
        .heavy(600),
    );
    let g = giants(t);
    spaces.push(
        Space::new(
            "huge",
            format!("message lengths around 2^32 bits and 2^32 bytes: {:?}, absorbed in 1 MiB + 1 byte pieces", g),
            g.len() as u64,
            move |i, cx| {
                let len = g[i as usize];
                let piece = &base()[..(1 << 20) + 1];
                let mut left = len;
                let mut s = api::Sha::new();
                let mut r = model::Sha::new();
                while left > 0 {
                    let n = left.min(piece.len() as u64) as usize;
                    s.update(&piece[..n]);
                    r.update(&piece[..n]);
                    left -= n as u64;
                }
                cx.state(&(len, 100));
                cx.eq(&format!("digest of {} bytes", len), &s.digest(), &r.finish())
            },
        )
        .heavy(800),
    );
    Check {
        id: "C01",
        spaces,
        bounds: format!("all lengths to {}, all 1- and 2-byte messages, every byte value at every position of 16 boundary lengths, lengths 2^k+d to 2^{}, lengths around 2^29 and 2^32 bytes", max, hi),
        assumptions: vec!["reference SHA-256 (constants derived from primes), self-tested against FIPS 180-4 vectors on every run".into()],
    }
}

fn run_chunks(cx: &mut Cx, parts: &[usize]) -> R {
    let total: usize = parts.iter().sum();
    let m = &base()[..total];
    let mut s = api::Sha::new();
    let mut r = model::Sha::new();
    let mut a = 0;
    for &p in parts {
        s.update(&m[a..a + p]);
        r.update(&m[a..a + p]);
        a += p;
        cx.state(&a);
    }
    let d = s.digest();
    if d == r.finish() {
        cx.outcome(&d);
        return Ok(());
    }
    cx.eq(&format!("digest after updates of {:?} bytes", parts), &d, &r.finish())
}

pub fn c02(t: Tier) -> Check {
    let m3 = t.pick(150usize, 220);
    let depth = t.pick(4usize, 5);
    let na = EDGES.len();
    let win = t.pick(13usize, 16);
    let ms = mags(1, 1 << 23);
    let nm = ms.len();
    let many = t.pick(140_000usize, 1_200_000);
    let big: [usize; 16] = [255, 256, 257, 511, 512, 513, 1023, 1024, 4095, 4096, 4097, 65535, 65536, 65537, 131_072, 1_000_003];
    let spaces = vec![
        Space::new("two_way", "every split into two updates of 0..=260 bytes each", size([261, 261]), |i, cx| {
            let [a, b] = dec(i, [261, 261]);
            run_chunks(cx, &[a, b])
        }),
        Space::new("three_way", format!("every split into three updates of 0..={} bytes each", m3), size([m3 + 1; 3]), move |i, cx| {
            let p: [usize; 3] = dec(i, [m3 + 1; 3]);
            run_chunks(cx, &p)
        }),
        Space::new(
            "sequences",
            format!("every sequence of up to {} updates with sizes from {:?}", depth, EDGES),
            seq_count(na, depth),
            move |i, cx| {
                let mut s = vec![];
                seq_at(i, na, depth, &mut s);
                for x in s.iter_mut() {
                    *x = EDGES[*x];
                }
                run_chunks(cx, &s)
            },
        ),
        Space::new(
            "compositions",
            format!("every composition of a {}-byte window placed at every offset 48..=64 of a block (one update before it)", win),
            size([17, 1 << (win - 1)]),
            move |i, cx| {
                let [lead, mask] = dec(i, [17, 1 << (win - 1)]);
                let mut p = vec![48 + lead];
                let mut run = 1;
                for b in 0..win - 1 {
                    if mask >> b & 1 == 1 {
                        p.push(run);
                        run = 1;
                    } else {
                        run += 1;
                    }
                }
                p.push(run);
                run_chunks(cx, &p)
            },
        ),
        Space::new("uniform", "total 0..=700 absorbed in pieces of k bytes, k in 1..=140, with and without empty updates in between", size([140, 701, 2]), |i, cx| {
            let [k, total, empty] = dec(i, [140, 701, 2]);
            let k = k + 1;
            let mut p = vec![];
            let mut left = total;
            while left > 0 {
                p.push(left.min(k));
                if empty == 1 {
                    p.push(0);
                }
                left -= left.min(k);
            }
            run_chunks(cx, &p)
        }),
        Space::new("big_pieces", format!("lead 0..=128 bytes, then one large update of {:?} bytes, then tail of 0, 1, 63 or 64 bytes", big), size([16, 129, 4]), move |i, cx| {
            let [b, lead, tail] = dec(i, [16, 129, 4]);
            run_chunks(cx, &[lead, big[b], [0, 1, 63, 64][tail]])
        }),
        Space::new("magnitudes", format!("{} sizes of every magnitude to 2^23 as the second of three updates, after 0, 5 or 64 bytes", nm), size([nm, 3]), move |i, cx| {
            let [m, l] = dec(i, [nm, 3]);
            let (m, lead) = (long(ms[m]), [0, 5, 64][l]);
            let (mut s, mut r) = (api::Sha::new(), model::Sha::new());
            for p in [&base()[..lead], &m, &base()[..3]] {
                s.update(p);
                r.update(p);
            }
            cx.state(&(m.len(), lead, 7));
            cx.eq(&format!("digest after updates of {}, {} and 3 bytes", lead, m.len()), &s.digest(), &r.finish())
        }),
        Space::new("far_pieces", format!("a piece of {:?} bytes, then one of 0, 1, 5, 32 or 63, then one of {:?}, then 3", FAR, LARGE), size([FAR.len(), 5, LARGE.len()]), |i, cx| {
            let [f, o, l] = dec(i, [FAR.len(), 5, LARGE.len()]);
            let o = [0, 1, 5, 32, 63][o];
            let (mut s, mut r) = (api::Sha::new(), model::Sha::new());
            let m = long(FAR[f]);
            for p in [&m, &base()[..o], &base()[7..7 + LARGE[l]], &base()[..3]] {
                s.update(p);
                r.update(p);
            }
            cx.state(&(FAR[f], o, LARGE[l], 8));
            cx.eq(&format!("digest after updates of {}, {}, {} and 3 bytes", FAR[f], o, LARGE[l]), &s.digest(), &r.finish())
        }),
        Space::new("many_updates", format!("up to {} updates of 0, 1, 3, 55, 64 or 100 bytes on one object, after 0..=63 bytes; digest at the end", many), size([6, 64]), move |i, cx| {
            let [k, lead] = dec(i, [6, 64]);
            let k = [0, 1, 3, 55, 64, 100][k];
            let (mut s, mut r) = (api::Sha::new(), model::Sha::new());
            s.update(&base()[..lead]);
            r.update(&base()[..lead]);
            let n = if lead == 0 { many } else { many / 16 + lead };
            for j in 0..n {
                let p = &base()[j..j + k];
                s.update(p);
                r.update(p);
            }
            cx.state(&(lead, k, 8));
            cx.eq(&format!("digest after {} bytes and {} updates of {} bytes", lead, n, k), &s.digest(), &r.finish())
        }),
        Space::new(
            "related_updates",
            format!("updates a, b, a where a has 0..=130 bytes and b stands in each of {} relations to a; with a stored at one place and at two", RELATIONS),
            size([131, RELATIONS, 2]),
            |i, cx| {
                let [l, k, copy] = dec(i, [131, RELATIONS, 2]);
                let a = &base()[900..900 + l];
                let (b, a2) = (related(k, a), a.to_vec());
                let (mut s, mut r) = (api::Sha::new(), model::Sha::new());
                for p in [a, &b, if copy == 1 { &a2 } else { a }] {
                    s.update(p);
                    r.update(p);
                }
                cx.state(&(l, k, copy, 9));
                cx.eq(&format!("digest after an update of {} bytes, one in relation {} to it, and the first again", l, k), &s.digest(), &r.finish())
            },
        ),
    ];
    Check {
        id: "C02",
        spaces,
        bounds: format!("all 2-way splits to 260+260, all 3-way splits to {0}+{0}+{0}, all sequences of up to {1} updates over 26 boundary sizes", m3, depth),
        assumptions: vec!["reference SHA-256 as in C01; message bytes come from one fixed stream, chunking is what is enumerated".into()],
    }
}

fn mac_of(key: &[u8], parts: &[&[u8]]) -> [u8; 32] {
    let mut h = api::Hmac::new(key);
    for p in parts {
        h.update(p);
    }
    h.digest()
}

pub fn c03(t: Tier) -> Check {
    let (kl, ml) = (t.pick(300usize, 500), t.pick(300usize, 500));
    const KL: [usize; 12] = [0, 1, 31, 32, 33, 63, 64, 65, 66, 127, 128, 129];
    let na = EDGES.len();
    let depth = 4;
    let ms = mags(1, 1 << 22);
    let nm = ms.len();
    let big: [usize; 12] = [191, 192, 193, 255, 256, 257, 320, 4096, 65535, 65536, 65537, 1_000_000];
    let spaces = vec![
        Space::new("lengths", format!("every key length 0..={} x every message length 0..={}", kl, ml), size([kl + 1, ml + 1]), move |i, cx| {
            let [k, m] = dec(i, [kl + 1, ml + 1]);
            let (key, msg) = (&base()[1000..1000 + k], &base()[..m]);
            cx.state(&(k, m));
            cx.eq(&format!("MAC, key {} bytes, message {} bytes", k, m), &mac_of(key, &[msg]), &model::hmac(key, msg))
        }),
        Space::new("patterns", "every key length 0..=140 x 8 key patterns x 8 message patterns x message lengths 0, 1, 55, 64, 100", size([141, 8, 8, 5]), |i, cx| {
            let [k, kp, mp, ml] = dec(i, [141, 8, 8, 5]);
            let (key, msg) = (pat(kp, k), pat(mp, [0, 1, 55, 64, 100][ml]));
            cx.state(&(&key, &msg));
            cx.eq(&format!("MAC, key {} x pattern {}", k, kp), &mac_of(&key, &[&msg]), &model::hmac(&key, &msg))
        }),
        Space::new("key_bytes", "key lengths 1, 20, 63, 64, 65, 100: every key byte position x every value x 2 backgrounds", size([313, 2, 256]), |i, cx| {
            let [o, bg, v] = dec(i, [313, 2, 256]);
            let mut p = o;
            let mut len = 0;
            for l in [1, 20, 63, 64, 65, 100] {
                len = l;
                if p < l {
                    break;
                }
                p -= l;
            }
            let mut key = pat(bg, len);
            key[p] = v as u8;
            cx.state(&key);
            cx.eq(&format!("MAC, key length {} byte {}={:#x}", len, p, v), &mac_of(&key, &[b"msg"]), &model::hmac(&key, b"msg"))
        }),
        Space::new("zero_tail", "keys that differ only by trailing zero bytes or that equal another key's hash: every length 0..=64 x 0..=3 appended zeros, and the hash of every long key 65..=200 used as key", 65 * 4 + 136, |i, cx| {
            let key = if i < 260 {
                let [n, z] = dec(i, [65, 4]);
                let mut k = pat(0, n);
                k.extend(vec![0; z]);
                k
            } else {
                model::sha256(&pat(0, 65 + (i - 260) as usize)).to_vec()
            };
            cx.state(&key);
            cx.eq("MAC", &mac_of(&key, &[b"hello"]), &model::hmac(&key, b"hello"))
        }),
        Space::new("big_keys", format!("key lengths {:?} x message lengths 0, 1, 64, 70000", big), size([12, 4]), move |i, cx| {
            let [k, m] = dec(i, [12, 4]);
            let (key, msg) = (&base()[7..7 + big[k]], &base()[..[0, 1, 64, 70_000][m]]);
            cx.state(&(big[k], m, 1));
            cx.eq("MAC", &mac_of(key, &[msg]), &model::hmac(key, msg))
        }),
        Space::new("splits", "12 boundary key lengths x every split of the message into two updates of 0..=140 bytes", size([12, 141, 141]), |i, cx| {
            let [k, a, b] = dec(i, [12, 141, 141]);
            let (key, m) = (&base()[500..500 + KL[k]], &base()[..a + b]);
            cx.state(&(k, a, b));
            cx.eq(&format!("MAC, key {} bytes, updates {}+{}", KL[k], a, b), &mac_of(key, &[&m[..a], &m[a..]]), &model::hmac(key, m))
        }),
        Space::new("sequences", format!("5 key lengths x every sequence of up to {} updates over 26 boundary sizes", depth), 5 * seq_count(na, depth), move |i, cx| {
            let n = seq_count(na, depth);
            let (k, mut s) = ([0, 10, 64, 65, 130][(i / n) as usize], vec![]);
            seq_at(i % n, na, depth, &mut s);
            let key = &base()[500..500 + k];
            let mut hm = api::Hmac::new(key);
            let mut a = 0;
            for &x in &s {
                hm.update(&base()[a..a + EDGES[x]]);
                a += EDGES[x];
                cx.state(&(k, a));
            }
            cx.eq(&format!("MAC, key {} bytes, updates {:?}", k, s), &hm.digest(), &model::hmac(key, &base()[..a]))
        }),
        Space::new("short", "every key of 0 or 1 byte x every message of 0 or 1 byte", 257 * 257, |i, cx| {
            let [k, m] = dec(i, [257, 257]);
            let f = |x: usize| if x == 0 { vec![] } else { vec![(x - 1) as u8] };
            let (k, m) = (f(k), f(m));
            cx.state(&(&k, &m));
            cx.eq("MAC", &mac_of(&k, &[&m]), &model::hmac(&k, &m))
        }),
        Space::new("magnitudes", format!("{} sizes of every magnitude to 2^22 as key length, as message length (key of 20 and of 100 bytes) and as number of one-byte updates (to 2^17)", nm), size([4, nm]), move |i, cx| {
            let [k, m] = dec(i, [4, nm]);
            let n = ms[m];
            cx.state(&(k, n, 9));
            match k {
                0 => cx.eq(&format!("MAC, key {} bytes", n), &mac_of(&long(n), &[b"msg"]), &model::hmac(&long(n), b"msg")),
                3 if n > 140_000 => Ok(()),
                3 => {
                    let (mut s, d) = (api::Hmac::new(b"key"), &base()[..n]);
                    for b in d.chunks(1) {
                        s.update(b);
                    }
                    cx.eq(&format!("MAC of {} bytes absorbed one by one", n), &s.digest(), &model::hmac(b"key", d))
                }
                _ => {
                    let (key, d) = (&base()[40..40 + [0, 20, 100][k]], long(n));
                    cx.eq(&format!("MAC, message {} bytes", n), &mac_of(key, &[&d]), &model::hmac(key, &d))
                }
            }
        }),
        Space::new(
            "related",
            format!("keys of 0..=140 bytes x messages in each of {} relations to the key (equal, part, extension, complement, hash, pads, ...), absorbed whole and in two", RELATIONS),
            size([141, RELATIONS, 2]),
            |i, cx| {
                let [k, r, two] = dec(i, [141, RELATIONS, 2]);
                let key = &base()[300..300 + k];
                let m = related(r, key);
                cx.state(&(k, r, two, 11));
                let cut = if two == 1 { m.len() / 2 } else { m.len() };
                cx.eq(&format!("MAC, key {} bytes, message in relation {} to it", k, r), &mac_of(key, &[&m[..cut], &m[cut..]]), &model::hmac(key, &m))
            },
        ),
        Space::new("overlapping", "key and message slices of one buffer: every start and length of the key within 72 bytes (steps of 8 and 9) x the same for the message", size([9, 9, 9, 9]), |i, cx| {
            let [a, b, c, d] = dec(i, [9, 9, 9, 9]);
            let buf = &base()[2000..];
            let (key, m) = (&buf[a * 8..a * 8 + b * 9], &buf[c * 8..c * 8 + d * 9]);
            cx.state(&(a, b, c, d, 12));
            cx.eq("MAC of overlapping slices", &mac_of(key, &[m]), &model::hmac(key, m))
        }),
        Space::new("related_updates", format!("a message of 0..=70 bytes followed by a second update in each of {} relations to it", RELATIONS), size([71, RELATIONS]), |i, cx| {
            let [l, r] = dec(i, [71, RELATIONS]);
            let a = &base()[900..900 + l];
            let b = related(r, a);
            cx.state(&(l, r, 13));
            cx.eq("MAC over related updates", &mac_of(b"key", &[a, &b]), &model::hmac(b"key", &[a, &b].concat()))
        }),
        Space::new("texts", "keys and messages with each of 52 marks, line ends, encodings and delimiters in 7 places of 5 lengths", size([2, TEXTED]), |i, cx| {
            let [w, k] = dec(i, [2, TEXTED]);
            let x = texted(k);
            let (k, m): (&[u8], &[u8]) = if w == 0 { (&x, b"message") } else { (b"key", &x) };
            cx.state(&(k, m));
            cx.eq("MAC with a text", &mac_of(k, &[m]), &model::hmac(k, m))
        }),
        Space::new("ends", "every pair of first two and of last two bytes of keys and messages of 3 and 20 bytes", size([2, ENDS]), |i, cx| {
            let [w, k] = dec(i, [2, ENDS]);
            let x = ends(k, 20);
            let (k, m): (&[u8], &[u8]) = if w == 0 { (&x, b"message") } else { (b"key", &x) };
            cx.state(&(k, m));
            cx.eq("MAC with chosen ends", &mac_of(k, &[m]), &model::hmac(k, m))
        }),
        Space::new("huge", "a key of 2^32 + 20 bytes; a message of 2^32 + 5 bytes in one update", 2, |i, cx| {
            let big = sparse((1 << 32) + [20, 5][i as usize]);
            let (key, m): (&[u8], &[u8]) = if i == 0 { (&big, b"msg") } else { (b"key", &big) };
            cx.state(&(i, 14));
            cx.eq(&format!("MAC, key {} bytes, message {} bytes", key.len(), m.len()), &mac_of(key, &[m]), &model::hmac(key, m))
        })
        .heavy(600),
    ];
    Check {
        id: "C03",
        spaces,
        bounds: format!("all key lengths to {} x all message lengths to {}, every key byte value at every position of 6 lengths, all 2-way splits to 140+140, update sequences to depth {}", kl, ml, depth),
        assumptions: vec!["reference HMAC self-tested against RFC 4231 on every run".into()],
    }
}
