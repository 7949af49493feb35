//! C08, C09, C10: the AES block cipher.
use crate::api::{self, AErr};
use crate::engine::*;
use crate::refs::aes::RefAes;
use crate::util::*;

/// One key/block: encryption (C08) or decryption plus both round trips (C09).
fn one(cx: &mut Cx, enc: bool, key: &[u8], b: &[u8; 16]) -> R {
    let mut a = api::Aes::new();
    cx.same("init", &a.init(key), &Ok(()))?;
    with(cx, enc, &a, &RefAes::new(key), key, b)
}

fn with(cx: &mut Cx, enc: bool, a: &api::Aes, m: &RefAes, key: &[u8], b: &[u8; 16]) -> R {
    cx.state(&(key, b));
    let get = |r: Result<[u8; 16], AErr>| r.map_err(|e| format!("keyed object returned error {:?}", e));
    if enc {
        let c = get(a.encrypt(b))?;
        let w = m.encrypt(b);
        if c == w {
            cx.outcome(&c);
            return Ok(());
        }
        cx.eq(&format!("encrypt key {} block {}", api::hex(key), api::hex(b)), &c, &w)
    } else {
        let d = get(a.decrypt(b))?;
        let w = m.decrypt(b);
        if d != w {
            return cx.eq(&format!("decrypt key {} block {}", api::hex(key), api::hex(b)), &d, &w);
        }
        cx.outcome(&d);
        let e = get(a.encrypt(&d))?;
        if e != *b {
            return cx.eq(&format!("encrypt(decrypt(x)), key {}", api::hex(key)), &e, b);
        }
        let c = get(a.encrypt(b))?;
        let back = get(a.decrypt(&c))?;
        if back != *b {
            return cx.eq(&format!("decrypt(encrypt(x)), key {}", api::hex(key)), &back, b);
        }
        Ok(())
    }
}

/// The `p`-th pair of different block positions.
fn pair_at(p: usize) -> (usize, usize) {
    let (mut a, mut c) = (0, 1);
    for _ in 0..p {
        c += 1;
        if c == 16 {
            a += 1;
            c = a + 1;
        }
    }
    (a, c)
}

fn spaces(t: Tier, enc: bool) -> Vec<Space> {
    let mut v = vec![
        Space::new("patterns", "3 key sizes x 7 keys x 8 block patterns x 3 block rotations", size([3, 7, 8, 3]), move |i, cx| {
            let [s, k, p, r] = dec(i, [3, 7, 8, 3]);
            let mut b = pat(p, 16);
            b.rotate_left(r);
            one(cx, enc, &key(k, KEY_SIZES[s]), &arr16(&b))
        }),
        Space::new("block_bytes", "every block byte position x every value x 4 backgrounds x 5 keys x 3 key sizes", size([3, 5, 4, 16, 256]), move |i, cx| {
            let [s, k, bg, p, x] = dec(i, [3, 5, 4, 16, 256]);
            let mut b = pat(bg, 16);
            b[p] = x as u8;
            one(cx, enc, &key([0, 4, 5, 7, 8][k], KEY_SIZES[s]), &arr16(&b))
        }),
        Space::new("key_bytes", "every key byte position x every value x 4 key backgrounds x 2 blocks x 3 key sizes", size([72, 4, 2, 256]), move |i, cx| {
            let [o, bg, bl, x] = dec(i, [72, 4, 2, 256]);
            let (len, p) = if o < 16 {
                (16, o)
            } else if o < 40 {
                (24, o - 16)
            } else {
                (32, o - 40)
            };
            let mut k = pat(bg, len);
            k[p] = x as u8;
            one(cx, enc, &k, &arr16(&pat([0, 1][bl], 16)))
        }),
        Space::new("byte_pairs", "every pair of adjacent block byte values (columns and rows) at 4 positions x 3 key sizes", size([3, 4, 256, 256]), move |i, cx| {
            let [s, p, x, y] = dec(i, [3, 4, 256, 256]);
            let mut b = arr16(&pat(0, 16));
            let (a, c) = [(0, 1), (2, 3), (5, 9), (11, 15)][p];
            b[a] = x as u8;
            b[c] = y as u8;
            one(cx, enc, &key(0, KEY_SIZES[s]), &b)
        }),
        Space::new("bit_pairs", "every pair of set bits of the block (zero background) x 3 key sizes", size([3, 128, 128]), move |i, cx| {
            let [s, a, c] = dec(i, [3, 128, 128]);
            let mut b = [0u8; 16];
            b[a / 8] |= 1 << (a % 8);
            b[c / 8] |= 1 << (c % 8);
            one(cx, enc, &key(4, KEY_SIZES[s]), &b)
        }),
        Space::new("key_bit_pairs", "every pair of set bits of the key (zero background) x 3 key sizes", size([128, 128]) + size([192, 192]) + size([256, 256]), move |i, cx| {
            let mut i = i;
            let mut len = 128;
            for n in [128usize, 192, 256] {
                len = n;
                if i < size([n, n]) {
                    break;
                }
                i -= size([n, n]);
            }
            let [a, c] = dec(i, [len, len]);
            let mut k = vec![0u8; len / 8];
            k[a / 8] |= 1 << (a % 8);
            k[c / 8] |= 1 << (c % 8);
            one(cx, enc, &k, &[0; 16])
        }),
        Space::new(
            "chains",
            format!("chains of {} blocks, each block the previous result, 3 key sizes x 9 keys: every table entry is used at every position in every round", t.pick(2000, 20000)),
            size([3, 9]),
            move |i, cx| {
                let [s, k] = dec(i, [3, 9]);
                let k = key(k, KEY_SIZES[s]);
                let mut a = api::Aes::default();
                cx.same("init", &a.init(&k), &Ok(()))?;
                let m = RefAes::new(&k);
                let mut b = [0x42u8; 16];
                for _ in 0..cx.tier.pick(2000, 20000) {
                    with(cx, enc, &a, &m, &k, &b)?;
                    b = if enc { m.encrypt(&b) } else { m.decrypt(&b) };
                }
                Ok(())
            },
        ),
        Space::new(
            "key_related",
            format!("blocks in each of {} relations to each 16-byte window of the key and to each round key, x 9 keys x 3 key sizes", RELATIONS),
            size([3, 9, 32, RELATIONS]),
            move |i, cx| {
                let [s, k, w, r] = dec(i, [3, 9, 32, RELATIONS]);
                let k = key(k, KEY_SIZES[s]);
                let m = RefAes::new(&k);
                let from = match w {
                    0..=14 => match m.round_keys().get(w) {
                        Some(x) => x.to_vec(),
                        None => return Ok(()),
                    },
                    _ if w - 15 + 16 <= k.len() => k[w - 15..w + 1].to_vec(),
                    _ => return Ok(()),
                };
                let mut b = related(r, &from);
                b.resize(16, 0);
                one(cx, enc, &k, &arr16(&b))
            },
        ),
        Space::new(
            "inner_states",
            "blocks chosen so that the state entering round r is all of one byte, has equal columns or rows, or one odd byte: every round x every byte value x 5 shapes x 3 keys x 3 key sizes",
            size([3, 3, 14, 5, 256]),
            move |i, cx| {
                let [s, k, r, shape, v] = dec(i, [3, 3, 14, 5, 256]);
                let k = key([0, 4, 7][k], KEY_SIZES[s]);
                let m = RefAes::new(&k);
                let nr = m.round_keys().len() - 1;
                if r >= nr {
                    return Ok(());
                }
                let v = v as u8;
                let st: Vec<u8> = (0..16usize)
                    .map(|j| match shape {
                        0 => v,
                        1 => v.wrapping_add((j % 4) as u8),
                        2 => v.wrapping_add((j / 4) as u8),
                        3 if j == (v % 16) as usize => v,
                        3 => 0,
                        _ => (j as u8).wrapping_mul(17) ^ v,
                    })
                    .collect();
                let st = arr16(&st);
                let x = m.input_for(r + 1, &st);
                one(cx, enc, &k, &if enc { x } else { m.encrypt(&x) })
            },
        ),
        Space::new(
            "inner_sets",
            "blocks chosen so that the state entering round r has zero bytes (or equal non-zero ones) at each of the 2^16 sets of positions: every round x 3 key sizes",
            size([3, 14, 1 << 16]),
            move |i, cx| {
                let [s, r, mask] = dec(i, [3, 14, 1 << 16]);
                let k = key(0, KEY_SIZES[s]);
                let m = RefAes::new(&k);
                if r >= m.round_keys().len() - 1 {
                    return Ok(());
                }
                let mut st = arr16(&stream(60 + r as u64, 16));
                for (j, b) in st.iter_mut().enumerate() {
                    if mask >> j & 1 == 1 {
                        *b = if r % 2 == 0 { 0 } else { 0xff };
                    }
                }
                let x = m.input_for(r + 1, &st);
                one(cx, enc, &k, &if enc { x } else { m.encrypt(&x) })
            },
        ),
        Space::new(
            "inner_pairs",
            "blocks chosen so that two bytes of the state entering round r take every pair of values: every round x 2 pairs of positions (same column, same row) x 3 key sizes",
            size([3, 14, 2, 1 << 16]),
            move |i, cx| {
                let [s, r, w, v] = dec(i, [3, 14, 2, 1 << 16]);
                let k = key(0, KEY_SIZES[s]);
                let m = RefAes::new(&k);
                if r >= m.round_keys().len() - 1 {
                    return Ok(());
                }
                let mut st = arr16(&stream(61, 16));
                let at = 4 * (r % 4) + r / 4;
                st[at] = v as u8;
                st[(at + [1, 4][w]) % 16] = (v >> 8) as u8;
                let x = m.input_for(r + 1, &st);
                one(cx, enc, &k, &if enc { x } else { m.encrypt(&x) })
            },
        ),
        Space::new(
            "inner_keys",
            "keys chosen so that at every place of the schedule the words of one key length take every assignment out of two values (4 pairs of values) x 2 blocks x 3 key sizes",
            size([3, 60, 4, 256, 2]),
            move |i, cx| {
                let [s, at, pair, mask, b] = dec(i, [3, 60, 4, 256, 2]);
                let nk = KEY_SIZES[s] / 4;
                if at + nk > 4 * (nk + 7) || mask >> nk != 0 {
                    return Ok(());
                }
                let two = [[[0u8; 4], [0xff; 4]], [[0; 4], [1, 2, 3, 4]], [[0x63; 4], [0x52; 4]], [[0xff, 0, 0, 0], [0, 0, 0, 0xff]]][pair];
                let win: Vec<[u8; 4]> = (0..nk).map(|j| two[mask >> j & 1]).collect();
                let k = RefAes::key_for(nk, at, &win);
                let m = RefAes::new(&k);
                let have: Vec<u8> = m.round_keys().concat();
                assert_eq!(have[4 * at..4 * (at + nk)], win.concat()[..], "HARNESS key schedule");
                one(cx, enc, &k, &arr16(&pat([0, 1][b], 16)))
            },
        ),
        Space::new("equal_parts", "keys made of repeated words: every 4-bit choice of which key words are equal, x blocks made of repeated words likewise, x 3 key sizes", size([3, 256, 16]), move |i, cx| {
            let [s, kw, bw] = dec(i, [3, 256, 16]);
            let words = |mask: usize, n: usize, seed: u64| -> Vec<u8> { (0..n).flat_map(|w| stream(seed + (mask >> w & 1) as u64, 4)).collect() };
            one(cx, enc, &words(kw, KEY_SIZES[s] / 4, 90), &arr16(&words(bw, 4, if kw & 1 == 0 { 90 } else { 95 })))
        }),
    ];
    v.push(Space::new("all_byte_pairs", "every pair of values at every pair of block positions, 128-bit key (7.8 million blocks)", size([120, 256, 256]), move |i, cx| {
        let [p, x, y] = dec(i, [120, 256, 256]);
        let (a, c) = pair_at(p);
        let mut b = arr16(&pat(0, 16));
        b[a] = x as u8;
        b[c] = y as u8;
        one(cx, enc, &key(0, 16), &b)
    }));
    v.push(Space::new("key_byte_pairs", "every pair of adjacent key byte values at every position x 3 key sizes (4.5 million keys)", size([69, 256, 256]), move |i, cx| {
        let [o, x, y] = dec(i, [69, 256, 256]);
        let (len, p) = if o < 15 {
            (16, o)
        } else if o < 38 {
            (24, o - 15)
        } else {
            (32, o - 38)
        };
        let mut k = pat(0, len);
        k[p] = x as u8;
        k[p + 1] = y as u8;
        one(cx, enc, &k, &arr16(&pat(3, 16)))
    }));
    let many = t.pick(1usize << 19, 1 << 24) + 3000;
    v.push(Space::new("many_blocks", format!("{} blocks in a row under one key: one block again and again; 16 in turn; every second call the other way", many), size([3, 3]), move |i, cx| {
        let [s, how] = dec(i, [3, 3]);
        let k = key(0, KEY_SIZES[s]);
        let model = RefAes::new(&k);
        let mut a = api::Aes::new();
        a.init(&k).map_err(|e| format!("init said {:?}", e))?;
        let known: Vec<_> = (0..16).map(|n| {
            let b = arr16(&base()[300 + 16 * n..316 + 16 * n]);
            (b, model.encrypt(&b), model.decrypt(&b))
        }).collect();
        cx.state(&(s, how, 77));
        for n in 0..many {
            let (b, e, d) = &known[if how == 0 { 3 } else { n % 16 }];
            let forth = enc != (how == 2 && n % 2 == 1);
            let (got, want) = if forth { (a.encrypt(b), e) } else { (a.decrypt(b), d) };
            if got != Ok(*want) {
                return Err(format!("call {} under one key gave {:?}, expected {}", n, got, api::hex(want)));
            }
        }
        Ok(())
    }));
    if t.thorough() {
        v.push(Space::new("all_byte_pairs_256", "every pair of values at every pair of block positions, 256-bit key, patterned background", size([120, 256, 256]), move |i, cx| {
            let [p, x, y] = dec(i, [120, 256, 256]);
            let (a, c) = pair_at(p);
            let mut b = arr16(&pat(3, 16));
            b[a] = x as u8;
            b[c] = y as u8;
            one(cx, enc, &key(7, 32), &b)
        }));
        v.push(Space::new("column_triples", "every value of the first three bytes of a block (16.8 million blocks), 192-bit key", 1 << 24, move |i, cx| {
            let mut b = [0u8; 16];
            b[..3].copy_from_slice(&(i as u32).to_be_bytes()[1..]);
            one(cx, enc, &key(0, 24), &b)
        }));
    }
    v
}

fn assume() -> Vec<String> {
    vec!["reference AES (tables from field inverse and affine map) self-tested against FIPS 197 appendix C on every run".into()]
}

pub fn c08(t: Tier) -> Check {
    Check { id: "C08", spaces: spaces(t, true), bounds: "every byte value at every block and key position on several backgrounds, all bit pairs of block and key, adjacent byte pairs, iterated chains; 3 key sizes".into(), assumptions: assume() }
}

pub fn c09(t: Tier) -> Check {
    Check { id: "C09", spaces: spaces(t, false), bounds: "as C08, for decryption, with both round trips on every block".into(), assumptions: assume() }
}

// ------------------------------------------------------------- C10 life cycle

const BAD: [usize; 5] = [0, 8, 15, 17, 33];

/// Symbols of the life-cycle alphabet.
fn key_of(op: usize) -> Option<Vec<u8>> {
    match op {
        0 => Some(key(0, 16)),
        1 => Some(key(1, 16)),
        2 => Some(key(0, 24)),
        3 => Some(key(0, 32)),
        4..=8 => Some(base()[3..3 + BAD[op - 4]].to_vec()),
        _ => None,
    }
}
const OPS: usize = 11; // 9 = encrypt, 10 = decrypt

fn probe(cx: &mut Cx, a: &api::Aes, m: Option<&RefAes>, which: usize) -> R {
    let b = arr16(&pat(0, 16));
    if which != 1 {
        let want = m.map(|m| m.encrypt(&b)).ok_or(AErr::NotInit);
        cx.same("encrypt", &a.encrypt(&b), &want)?;
    }
    if which != 0 {
        let want = m.map(|m| m.decrypt(&b)).ok_or(AErr::NotInit);
        cx.same("decrypt", &a.decrypt(&b), &want)?;
    }
    Ok(())
}

fn init_step(cx: &mut Cx, a: &mut api::Aes, m: &mut Option<RefAes>, k: &[u8]) -> R {
    if KEY_SIZES.contains(&k.len()) {
        cx.same(&format!("init with {} bytes", k.len()), &a.init(k), &Ok(()))?;
        *m = Some(RefAes::new(k));
        Ok(())
    } else {
        cx.same(&format!("init with {} bytes", k.len()), &a.init(k), &Err(AErr::KeySize))
    }
}

pub fn c10(t: Tier) -> Check {
    let depth = t.pick(6usize, 7);
    let maxlen = t.pick(20_000usize, 70_000);
    let ms = mags(1, 1 << 26);
    let nm = ms.len();
    let many = t.pick(70_000usize, 1_000_000);
    const HUGE: [u64; 12] = [
        (1 << 16) + 16,
        (1 << 16) + 24,
        (1 << 16) + 32,
        (1 << 24) + 16,
        (1 << 24) + 32,
        (1 << 29) + 16,
        (1 << 29) + 24,
        (1 << 31) + 32,
        (1 << 32) + 16,
        (1 << 32) + 24,
        (1 << 32) + 32,
        (1 << 33) + 16,
    ];
    let spaces = vec![
        Space::new(
            "sequences",
            format!("every sequence of up to {} calls over: init with 4 keys (a 16-byte key that is a prefix of the 24- and 32-byte ones, and one differing in the last bit), init with 5 refused lengths, encrypt, decrypt; after each call both directions are probed", depth),
            seq_count(OPS, depth),
            move |i, cx| {
                let mut s = vec![];
                seq_at(i, OPS, depth, &mut s);
                let mut a = api::Aes::new();
                let mut m: Option<RefAes> = None;
                let mut cur = 99;
                for (n, &op) in s.iter().enumerate() {
                    match key_of(op) {
                        Some(k) => {
                            init_step(cx, &mut a, &mut m, &k)?;
                            if op < 4 {
                                cur = op;
                            }
                        }
                        None => probe(cx, &a, m.as_ref(), op - 9)?,
                    }
                    cx.state(&cur);
                    if n + 1 == s.len() {
                        probe(cx, &a, m.as_ref(), 2)?;
                    }
                }
                Ok(())
            },
        ),
        Space::new("key_lengths", format!("every key length 0..={} on a fresh object (both constructors) and on objects keyed with 16, 24 and 32 bytes", maxlen), size([5, maxlen + 1]), move |i, cx| {
            let [st, len] = dec(i, [5, maxlen + 1]);
            let mut a = if st == 0 { api::Aes::default() } else { api::Aes::new() };
            let mut m = None;
            probe(cx, &a, None, 2)?;
            if st >= 2 {
                init_step(cx, &mut a, &mut m, &key(6, KEY_SIZES[st - 2]))?;
            }
            cx.state(&(st, len));
            init_step(cx, &mut a, &mut m, &base()[..len])?;
            probe(cx, &a, m.as_ref(), 2)
        }),
        Space::new("huge_lengths", "key lengths that equal 16, 24 or 32 modulo 2^16, 2^24, 2^29, 2^31, 2^32, 2^33, fresh and keyed", size([12, 2]), |i, cx| {
            let [l, keyed] = dec(i, [12, 2]);
            if usize::BITS == 32 && HUGE[l] > 1 << 27 {
                return Ok(()); // does not fit next to the other threads' data
            }
            let k = vec![0u8; HUGE[l] as usize]; // untouched zero pages
            let mut a = api::Aes::new();
            let mut m = None;
            if keyed == 1 {
                init_step(cx, &mut a, &mut m, &key(6, 24))?;
            }
            cx.state(&(HUGE[l], keyed));
            // not recorded call by call: the argument is too long to print
            init_step(cx, &mut a, &mut m, &k)?;
            probe(cx, &a, m.as_ref(), 2)
        }),
        Space::new("pairs", "every ordered pair of 27 accepted keys (9 variants x 3 sizes): the second replaces the first entirely, with and without use in between", size([27, 27, 2]), |i, cx| {
            let [x, y, usep] = dec(i, [27, 27, 2]);
            let mut a = api::Aes::new();
            let mut m = None;
            init_step(cx, &mut a, &mut m, &key(x % 9, KEY_SIZES[x / 9]))?;
            if usep == 1 {
                probe(cx, &a, m.as_ref(), 2)?;
            }
            init_step(cx, &mut a, &mut m, &key(y % 9, KEY_SIZES[y / 9]))?;
            cx.state(&(x, y));
            probe(cx, &a, m.as_ref(), 2)
        }),
        Space::new("length_magnitudes", format!("{} key lengths of every magnitude to 2^26, fresh and keyed", nm), size([nm, 2]), move |i, cx| {
            let [l, keyed] = dec(i, [nm, 2]);
            let mut a = api::Aes::new();
            let mut m = None;
            if keyed == 1 {
                init_step(cx, &mut a, &mut m, &key(6, 32))?;
            }
            cx.state(&(ms[l], keyed, 3));
            init_step(cx, &mut a, &mut m, &vec![7u8; ms[l]])?;
            probe(cx, &a, m.as_ref(), 2)
        }),
        Space::new("many_calls", format!("{} calls in a row of one kind (encrypt, decrypt, accepted key, refused key) on one object, then a probe in both directions", many), size([3, 4]), move |i, cx| {
            let [s, kind] = dec(i, [3, 4]);
            let mut a = api::Aes::new();
            let mut m = None;
            init_step(cx, &mut a, &mut m, &key(6, KEY_SIZES[s]))?;
            for r in 0..many {
                match kind {
                    0 => drop(a.encrypt(&[r as u8; 16])),
                    1 => drop(a.decrypt(&[r as u8; 16])),
                    2 => init_step(cx, &mut a, &mut m, &key((r % 2) * 6, KEY_SIZES[s]))?,
                    _ => init_step(cx, &mut a, &mut m, &[1; 20])?,
                }
            }
            cx.state(&(s, kind, 6));
            probe(cx, &a, m.as_ref(), 2)
        }),
        Space::new("similar_keys", "every size x every set of 4-byte words of the key changed, in a byte of each position of the word, the second key the first one's successor; and back", 4 * (16 + 64 + 256), move |i, cx| {
            let (b, mut s) = ((i % 4) as usize, (i / 4) as usize);
            let mut n = 16;
            for l in KEY_SIZES {
                n = l;
                let c = 1 << (l / 4);
                if s < c {
                    break;
                }
                s -= c;
            }
            let (k1, mut k2) = (key(0, n), key(0, n));
            for w in 0..n / 4 {
                if s >> w & 1 == 1 {
                    k2[4 * w + b] ^= 1 << w;
                }
            }
            let mut a = api::Aes::new();
            let mut m = None;
            for k in [&k1, &k2, &k1] {
                init_step(cx, &mut a, &mut m, k)?;
                probe(cx, &a, m.as_ref(), 2)?;
            }
            cx.state(&(s, b, n, 4));
            Ok(())
        }),
        Space::new("affixes", "every pair of sizes: the second key is the first one's prefix, suffix, repetition or a rotation of it", size([3, 3, 40]), move |i, cx| {
            let [x, y, how] = dec(i, [3, 3, 40]);
            let k1 = key(0, KEY_SIZES[x]);
            let rot = [&k1[how % k1.len()..], &k1[..how % k1.len()]].concat();
            let k2: Vec<u8> = match how {
                36 => k1.iter().rev().copied().cycle().take(KEY_SIZES[y]).collect(),
                37 => [&key(7, 32)[..], &k1].concat()[32 + KEY_SIZES[x] - KEY_SIZES[y]..].to_vec(),
                _ => rot.iter().copied().cycle().take(KEY_SIZES[y]).collect(),
            };
            let mut a = api::Aes::new();
            let mut m = None;
            for k in [&k1, &k2, &k1] {
                init_step(cx, &mut a, &mut m, k)?;
                probe(cx, &a, m.as_ref(), 2)?;
            }
            cx.state(&(x, y, how, 8));
            Ok(())
        }),
        Space::new("repeats", "many calls on one object: 2000 alternating encrypt/decrypt calls and 500 re-keyings give the same results as the first time", 3, |i, cx| {
            let mut a = api::Aes::new();
            let mut m = None;
            for r in 0..500 {
                init_step(cx, &mut a, &mut m, &key((r % 2) * 6, KEY_SIZES[(i as usize + r) % 3]))?;
                for _ in 0..4 {
                    probe(cx, &a, m.as_ref(), 2)?;
                }
                init_step(cx, &mut a, &mut m, &[1; 20])?;
                cx.state(&(r, 5));
            }
            probe(cx, &a, m.as_ref(), 2)
        }),
    ];
    Check {
        id: "C10",
        spaces,
        bounds: format!("all call sequences to depth {} over 11 operations, all key lengths to {}, 12 wrapped-around lengths to 2^33+16", depth, maxlen),
        assumptions: vec!["reference AES as in C08".into(), "one probe block per direction decides which key is in force".into()],
    }
}
