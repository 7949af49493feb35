//! C04 (PBKDF2), C06/C07/C19 (scrypt parameters and values), C20 (output
//! buffers of both derivations).
use crate::api::{self, SErr};
use crate::engine::*;
use crate::refs::{kdf as model, sha};
use crate::util::*;

const DK: [usize; 14] = [1, 4, 16, 31, 32, 33, 40, 63, 64, 65, 96, 127, 128, 130];
const PWL: [usize; 14] = [0, 1, 8, 31, 32, 33, 55, 56, 63, 64, 65, 66, 127, 129];

/// Run the real PBKDF2 into a dirty buffer and compare with the model.
fn pb(cx: &mut Cx, pw: &[u8], salt: &[u8], c: usize, dk: usize) -> R {
    let mut out = vec![0xa5u8; dk];
    api::pbkdf2(pw, salt, c, &mut out);
    cx.eq(
        &format!("PBKDF2, password of {} bytes, salt of {} bytes, c={}, {} bytes out", pw.len(), salt.len(), c, dk),
        &out,
        &model::pbkdf2(pw, salt, c as u64, dk),
    )
}

pub fn c04(t: Tier) -> Check {
    let mut spaces = vec![];
    spaces.push(Space::new(
        "grid",
        "password lengths x salt lengths x output lengths (14 boundary values each) x c in 1,2,3,7",
        size([14, 14, 14, 4]),
        |i, cx| {
            let [p, s, d, c] = dec(i, [14, 14, 14, 4]);
            let c = [1, 2, 3, 7][c];
            cx.state(&(PWL[p], PWL[s], c, DK[d]));
            pb(cx, &stream(3, PWL[p]), &stream(4, PWL[s]), c, DK[d])
        },
    ));
    let m = t.pick(300usize, 1200);
    spaces.push(Space::new("password_lengths", format!("every password length 0..={} x c in 1..=3 x 4 contents", m), size([m + 1, 3, 4]), move |i, cx| {
        let [l, c, k] = dec(i, [m + 1, 3, 4]);
        cx.state(&(1, l, c, k));
        pb(cx, &pat([0, 1, 2, 5][k], l), b"salt", c + 1, 40)
    }));
    spaces.push(Space::new("salt_lengths", format!("every salt length 0..={} x c in 1..=3 x 4 contents", m), size([m + 1, 3, 4]), move |i, cx| {
        let [l, c, k] = dec(i, [m + 1, 3, 4]);
        cx.state(&(2, l, c, k));
        pb(cx, b"password", &pat([0, 1, 2, 4][k], l), c + 1, 40)
    }));
    let md = t.pick(1100usize, 10_000);
    spaces.push(Space::new("output_lengths", format!("every output length 0..={} x c in 1,2", md), size([md + 1, 2]), move |i, cx| {
        let [l, c] = dec(i, [md + 1, 2]);
        cx.state(&(3, l, c));
        pb(cx, b"password", b"salt", c + 1, l)
    }));
    let mc = t.pick(600usize, 4200);
    spaces.push(Space::new("iterations", format!("every iteration count 1..={} x output 20 and 64 bytes", mc), size([mc, 2]), move |i, cx| {
        let [c, d] = dec(i, [mc, 2]);
        cx.state(&(4, c, d));
        pb(cx, b"password", b"salt", c + 1, [20, 64][d])
    }));
    spaces.push(Space::new("big_iterations", "c in 1000,4095..4097,10000,65535..65537,100000", 9, |i, cx| {
        let c = [1000, 4095, 4096, 4097, 10_000, 65_535, 65_536, 65_537, 100_000][i as usize];
        cx.state(&(5, c));
        pb(cx, b"password", b"salt", c, 33)
    }));
    let ms = mags(1, 1 << 21);
    let nm = ms.len();
    spaces.push(Space::new("magnitudes", format!("{} sizes of every magnitude to 2^21 as password length, salt length and output length", nm), size([3, nm]), move |i, cx| {
        let [k, m] = dec(i, [3, nm]);
        let n = ms[m];
        cx.state(&(9, k, n));
        match k {
            0 => pb(cx, &long(n), b"salt", 1, 33),
            1 => pb(cx, b"pw", &long(n), 2, 33),
            _ => pb(cx, b"pw", b"salt", 1, n),
        }
    }));
    let ms = mags(1000, t.pick(1 << 20, 1 << 23) + 1);
    let nm = ms.len();
    spaces.push(
        Space::new("iteration_magnitudes", format!("{} iteration counts of every magnitude from 1000 to 2^{} + 1", nm, t.pick(20, 23)), nm as u64, move |i, cx| {
            cx.state(&(10, ms[i as usize]));
            pb(cx, b"password", b"salt", ms[i as usize], 8)
        })
        .limit(400),
    );
    spaces.push(Space::new(
        "byte_values",
        "for passwords of 1,8,64,65 bytes and salts of 1,8,55,64 bytes: every position x every byte value",
        256 * (1 + 8 + 64 + 65 + 1 + 8 + 55 + 64),
        |i, cx| {
            let (v, mut p) = ((i % 256) as u8, (i / 256) as usize);
            for (k, l) in [1usize, 8, 64, 65, 1, 8, 55, 64].into_iter().enumerate() {
                if p < l {
                    let mut x = stream(9, l);
                    x[p] = v;
                    cx.state(&(6, k, p, v));
                    return if k < 4 { pb(cx, &x, b"NaCl", 2, 34) } else { pb(cx, b"pass", &x, 2, 34) };
                }
                p -= l;
            }
            Ok(())
        },
    ));
    spaces.push(Space::new(
        "related",
        format!("passwords of 0..=100 bytes x salts in each of {} relations to the password (equal, part, extension, hash, pads, ...) x c in 1..=3, and the other way round", RELATIONS),
        size([101, RELATIONS, 3, 2]),
        |i, cx| {
            let [l, r, c, swap] = dec(i, [101, RELATIONS, 3, 2]);
            let a = &base()[700..700 + l];
            let b = related(r, a);
            cx.state(&(11, l, r, c, swap));
            if swap == 1 {
                pb(cx, &b, a, c + 1, 40)
            } else {
                pb(cx, a, &b, c + 1, 40)
            }
        },
    ));
    spaces.push(Space::new("overlapping", "password and salt slices of one buffer, every combination of 9 starts and 9 lengths of each; the same slice as both", size([9, 9, 9, 9]), |i, cx| {
        let [a, b, c, d] = dec(i, [9, 9, 9, 9]);
        let buf = &base()[2500..];
        cx.state(&(12, a, b, c, d));
        pb(cx, &buf[a * 8..a * 8 + b * 9], &buf[c * 8..c * 8 + d * 9], 2, 33)
    }));
    spaces.push(Space::new("texts", "passwords and salts with each of 52 marks, line ends, encodings and delimiters in 7 places of 5 lengths", size([2, TEXTED]), |i, cx| {
        let [w, k] = dec(i, [2, TEXTED]);
        let x = texted(k);
        let (pw, salt): (&[u8], &[u8]) = if w == 0 { (&x, b"NaCl") } else { (b"pass", &x) };
        cx.state(&(13, w, k));
        pb(cx, pw, salt, 1, 20)
    }));
    spaces.push(Space::new("ends", "every pair of first two and of last two bytes of passwords and salts of 3 and 10 bytes", size([2, ENDS]), |i, cx| {
        let [w, k] = dec(i, [2, ENDS]);
        let x = ends(k, 10);
        let (pw, salt): (&[u8], &[u8]) = if w == 0 { (&x, b"NaCl") } else { (b"pass", &x) };
        cx.state(&(14, w, k));
        pb(cx, pw, salt, 1, 20)
    }));
    spaces.push(Space::new("numbers", "the first 2^17 numbers in decimal as password and as salt", size([2, 1 << 17]), |i, cx| {
        let [w, k] = dec(i, [2, 1 << 17]);
        let x = k.to_string().into_bytes();
        let (pw, salt): (&[u8], &[u8]) = if w == 0 { (&x, b"NaCl") } else { (b"pass", &x) };
        cx.state(&(15, w, k));
        pb(cx, pw, salt, 1, 20)
    }));
    const SM: [usize; 7] = [0, 1, 2, 3, 4, 5, 6];
    spaces.push(Space::new("equal_numbers", "password length, salt length, c and output length out of k*m for k in 1,4,8,16,32 and m in 0..=6, all combinations: arguments that are equal, or multiples of each other", size([5, 7, 7, 7, 7]), |i, cx| {
        let [k, p, s, c, d] = dec(i, [5, 7, 7, 7, 7]);
        let k = [1, 4, 8, 16, 32][k];
        if c == 0 {
            return Ok(());
        }
        cx.state(&(13, k, p, s, c, d));
        pb(cx, &stream(3, SM[p] * k), &stream(4, SM[s] * k), SM[c] * k, SM[d] * k)
    }));
    let mut blocks: Vec<usize> = vec![254, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4096, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 65538, 131_073];
    if t.thorough() {
        blocks.extend([1 << 20, (1 << 20) + 1, (1 << 22) + 1]);
    }
    let nb = blocks.len();
    spaces.push(Space::new("counter_bytes", format!("outputs of {:?} blocks, less one byte / exact / plus one byte", blocks), size([nb, 3]), move |i, cx| {
        let [b, d] = dec(i, [nb, 3]);
        let n = blocks[b] * 32 + d - 1;
        cx.state(&(7, n));
        pb(cx, b"p", b"s", 1, n)
    }));
    spaces.push(endless_space("pbkdf2"));
    spaces.push(
        Space::new("huge_arguments", "a password and a salt of 2^32 + 20 bytes", 2, |i, cx| {
            let big = sparse((1 << 32) + 20);
            cx.state(&(14, i));
            if i == 0 {
                pb(cx, &big, b"NaCl", 1, 20)
            } else {
                pb(cx, b"pass", &big, 1, 20)
            }
        })
        .heavy(600),
    );
    spaces.push(
        Space::new("four_byte_counter", "output of 2^24 + 2 blocks and 5 bytes (512 MiB): all four counter bytes in use", 1, |_, cx| {
            let n = ((1usize << 24) + 2) * 32 + 5;
            let mut out = vec![0u8; n];
            api::pbkdf2(b"p", b"s", 1, &mut out);
            let prf = sha::Hmac::new(b"p");
            cx.state(&(8, n));
            // The model is cheap to ask for one block: compare in four strips.
            let strip = ((1usize << 22) + 1) * 32;
            let bad = std::thread::scope(|sc| {
                let prf = &prf;
                let work: Vec<_> = out
                    .chunks(strip)
                    .enumerate()
                    .map(|(j, part)| {
                        sc.spawn(move || {
                            part.chunks(32).enumerate().find_map(|(k, got)| {
                                let k = j * (strip / 32) + k;
                                let want = model::pbkdf2_block(prf, b"s", 1, k as u32 + 1);
                                (got != &want[..got.len()]).then(|| (k + 1, got, want))
                            })
                        })
                    })
                    .collect();
                work.into_iter().filter_map(|w| w.join().unwrap()).min_by_key(|b| b.0)
            });
            match bad {
                Some((k, got, want)) => Err(format!("PBKDF2 block {} (counting from 1) of a 512 MiB output is {}, expected {}", k, api::hex(got), api::hex(&want))),
                None => Ok(()),
            }
        })
        .heavy(600),
    );
    Check {
        id: "C04",
        spaces,
        assumptions: vec!["Reference PBKDF2 is written from RFC 2898 on the reference HMAC and tested against published vectors at every start.".into()],
        bounds: format!("c <= {} exhaustively and up to 100000 at boundaries; lengths <= {} exhaustively; output up to 2^24+2 blocks; c=0 is outside the property (RFC 2898: positive integer)", mc, m),
    }
}

// ------------------------------------------------------------------ scrypt

fn sc(cx: &mut Cx, r: usize, n: usize, p: usize, pw: &[u8], salt: &[u8], dk: usize) -> R {
    let mut out = vec![0x5au8; dk];
    let res = api::scrypt(r, n, p, pw, salt, &mut out);
    let what = format!("scrypt r={} n={} p={}, passphrase of {} bytes, salt of {} bytes, {} bytes out", r, n, p, pw.len(), salt.len(), dk);
    cx.same(&what, &res, &Ok(()))?;
    cx.eq(&what, &out, &model::scrypt(pw, salt, r, n as u64, p, dk))
}

pub fn c06(t: Tier) -> Check {
    let mut spaces = vec![];
    const RS: [usize; 6] = [1, 2, 3, 4, 7, 8];
    const DKS: [usize; 7] = [1, 16, 31, 32, 33, 64, 65];
    const PS: [(usize, usize); 5] = [(0, 0), (8, 4), (64, 16), (65, 64), (130, 60)];
    spaces.push(Space::new(
        "grid",
        "r in 1,2,3,4,7,8 x n in 2..=64 x p in 1..=5 x 7 output lengths x 5 passphrase/salt length pairs",
        size([6, 6, 5, 7, 5]),
        |i, cx| {
            let [r, n, p, d, s] = dec(i, [6, 6, 5, 7, 5]);
            let (r, n, p, d, s) = (RS[r], 2usize << n, p + 1, DKS[d], PS[s]);
            cx.state(&(r, n, p, d, s));
            sc(cx, r, n, p, &stream(11, s.0), &stream(12, s.1), d)
        },
    ));
    spaces.push(Space::new("input_lengths", "every passphrase length 0..=130 x every salt length 0..=130 (r=1 n=2 p=1)", 131 * 131, |i, cx| {
        let [a, b] = dec(i, [131, 131]);
        cx.state(&(1, a, b));
        sc(cx, 1, 2, 1, &stream(11, a), &stream(12, b), 32)
    }));
    spaces.push(Space::new("contents", "8 x 8 passphrase/salt content patterns x r in 1,2 x n in 2,16,512", size([8, 8, 2, 3]), |i, cx| {
        let [a, b, r, n] = dec(i, [8, 8, 2, 3]);
        cx.state(&(2, a, b, r, n));
        sc(cx, r + 1, [2, 16, 512][n], 2, &pat(a, 11), &pat(b, 9), 40)
    }));
    spaces.push(Space::new(
        "byte_values",
        "passphrases of 1,4,64,65 bytes and salts of 1,8,55,64 bytes: every position x every byte value, n in 2,16",
        size([2, 1 + 4 + 64 + 65 + 1 + 8 + 55 + 64, 256]),
        |i, cx| {
            let [n, mut p, v] = dec(i, [2, 262, 256]);
            for (k, l) in [1usize, 4, 64, 65, 1, 8, 55, 64].into_iter().enumerate() {
                if p < l {
                    let mut x = stream(13, l);
                    x[p] = v as u8;
                    cx.state(&(3, k, p, v, n));
                    return if k < 4 { sc(cx, 1, [2, 16][n], 1, &x, b"NaCl", 32) } else { sc(cx, 1, [2, 16][n], 1, b"pass", &x, 32) };
                }
                p -= l;
            }
            Ok(())
        },
    ));
    spaces.push(Space::new(
        "related",
        format!("passphrases of 0..=100 bytes x salts in each of {} relations to the passphrase x p in 1,2, and the other way round", RELATIONS),
        size([101, RELATIONS, 2, 2]),
        |i, cx| {
            let [l, r, p, swap] = dec(i, [101, RELATIONS, 2, 2]);
            let a = &base()[700..700 + l];
            let b = related(r, a);
            cx.state(&(11, l, r, p, swap));
            if swap == 1 {
                sc(cx, 1, 4, p + 1, &b, a, 40)
            } else {
                sc(cx, 1, 4, p + 1, a, &b, 40)
            }
        },
    ));
    spaces.push(Space::new("texts", "passphrases and salts with each of 52 marks, line ends, encodings and delimiters in 7 places of 5 lengths", size([2, TEXTED]), |i, cx| {
        let [w, k] = dec(i, [2, TEXTED]);
        let x = texted(k);
        let (pw, salt): (&[u8], &[u8]) = if w == 0 { (&x, b"NaCl") } else { (b"pass", &x) };
        cx.state(&(13, w, k));
        sc(cx, 1, 2, 1, pw, salt, 20)
    }));
    spaces.push(Space::new("ends", "every pair of first two and of last two bytes of passphrases and salts of 3 and 10 bytes", size([2, ENDS]), |i, cx| {
        let [w, k] = dec(i, [2, ENDS]);
        let x = ends(k, 10);
        let (pw, salt): (&[u8], &[u8]) = if w == 0 { (&x, b"NaCl") } else { (b"pass", &x) };
        cx.state(&(14, w, k));
        sc(cx, 1, 2, 1, pw, salt, 20)
    }));
    spaces.push(Space::new("numbers", "the first 2^17 numbers in decimal as passphrase and as salt", size([2, 1 << 17]), |i, cx| {
        let [w, k] = dec(i, [2, 1 << 17]);
        let x = k.to_string().into_bytes();
        let (pw, salt): (&[u8], &[u8]) = if w == 0 { (&x, b"NaCl") } else { (b"pass", &x) };
        cx.state(&(15, w, k));
        sc(cx, 1, 2, 1, pw, salt, 20)
    }));
    spaces.push(Space::new("equal_numbers", "r and p in 1..=6, n in 2..=32, passphrase, salt and output length in 0,1,2,4,8,16: all combinations of arguments, so every two of them are equal somewhere", size([6, 6, 5, 6, 6, 6]), |i, cx| {
        let [r, p, n, a, b, d] = dec(i, [6, 6, 5, 6, 6, 6]);
        let l = |x: usize| [0, 1, 2, 4, 8, 16][x];
        cx.state(&(12, r, p, n, a, b, d));
        sc(cx, r + 1, 2 << n, p + 1, &stream(11, l(a)), &stream(12, l(b)), l(d))
    }));
    spaces.push(Space::new("combined", "r, n and p all at once: r in 1..=20, n in 2..=1024, p in 1..=8", size([20, 10, 8]), |i, cx| {
        let [r, n, p] = dec(i, [20, 10, 8]);
        cx.state(&(13, r, n, p));
        sc(cx, r + 1, 2 << n, p + 1, b"pw", b"salt", 33)
    }));
    let dm = t.pick(300usize, 2000);
    spaces.push(Space::new("output_lengths", format!("every output length 0..={} x 2 configurations", dm), size([dm + 1, 2]), move |i, cx| {
        let [d, k] = dec(i, [dm + 1, 2]);
        cx.state(&(4, d, k));
        sc(cx, 1 + k, 4, 1 + k, b"pw", b"salt", d)
    }));
    let mut rs: Vec<usize> = (1..=t.pick(40, 130)).collect();
    rs.extend([63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1024]);
    let nr = rs.len();
    spaces.push(Space::new("r", format!("r in {:?} x n in 2,4,8 x p in 1,2", rs), size([nr, 3, 2]), move |i, cx| {
        let [r, n, p] = dec(i, [nr, 3, 2]);
        cx.state(&(5, rs[r], n, p));
        sc(cx, rs[r], 2 << n, p + 1, b"pw", b"salt", 33)
    }));
    let mut ps: Vec<usize> = (1..=t.pick(70, 300)).collect();
    ps.extend([127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4097, 65_535, 65_536, 65_537]);
    let np = ps.len();
    spaces.push(Space::new("p", format!("p in {:?} x r in 1,2 (n=2)", ps), size([np, 2]), move |i, cx| {
        let [p, r] = dec(i, [np, 2]);
        cx.state(&(6, ps[p], r));
        sc(cx, r + 1, 2, ps[p], b"pw", b"salt", 33)
    }));
    let ms = mags(1, 1 << 20);
    let nm = ms.len();
    spaces.push(Space::new("magnitudes", format!("{} sizes of every magnitude to 2^20 as passphrase, salt and output length (r=1 n=4 p=2)", nm), size([3, nm]), move |i, cx| {
        let [k, m] = dec(i, [3, nm]);
        cx.state(&(9, k, ms[m]));
        let l = long(ms[m]);
        match k {
            0 => sc(cx, 1, 4, 2, &l, b"salt", 33),
            1 => sc(cx, 1, 4, 2, b"pw", &l, 33),
            _ => sc(cx, 1, 4, 2, b"pw", b"salt", ms[m]),
        }
    }));
    let ms = mags(40, t.pick(1 << 16, 1 << 18) + 1);
    let nm = ms.len();
    spaces.push(Space::new("r_p_magnitudes", format!("{} values of every magnitude from 40 to 2^{} as r and as p, n=2", nm, t.pick(16, 18)), size([2, nm]), move |i, cx| {
        let [k, m] = dec(i, [2, nm]);
        cx.state(&(10, k, ms[m]));
        match k {
            0 => sc(cx, ms[m], 2, 1, b"pw", b"salt", 33),
            _ => sc(cx, 1, 2, ms[m], b"pw", b"salt", 33),
        }
    }));
    let hi = 16usize;
    spaces.push(
        Space::new("n", "every n = 2^k, k in 1..=16, x r in 1,2,3,8 (n < 2^(16 r)) x 2 passphrases", size([4, 2, hi]), move |i, cx| {
            let [r, s, k] = dec(i, [4, 2, hi]);
            let r = [1, 2, 3, 8][r];
            let n = 2usize << k;
            if r == 1 && n >= 65_536 {
                return Ok(());
            }
            cx.state(&(7, r, n, s));
            sc(cx, r, n, 1, [b"pw", b"PW"][s], b"salt", 32)
        })
        .heavy(300),
    );
    let mut big: Vec<(usize, usize)> = t.pick(vec![(2, 1 << 17), (2, 1 << 18), (2, 1 << 20), (2, 1 << 21), (3, 1 << 20)], vec![(2, 1 << 17), (2, 1 << 18), (2, 1 << 20), (3, 1 << 20), (8, 1 << 20), (2, 1 << 23), (2, 1 << 24), (2, 1 << 25)]);
    if usize::BITS == 32 {
        big.retain(|&(r, n)| r * n <= 1 << 20); // fits the address space, twice
    }
    spaces.push(
        Space::new("large_n", format!("(r, n) in {:?}: block indices that need 3 and 4 bytes", big), big.len() as u64, move |i, cx| {
            let (r, n) = big[i as usize];
            cx.state(&(8, r, n));
            sc(cx, r, n, 1, b"pw", b"salt", 32)
        })
        .heavy(800),
    );
    Check {
        id: "C06",
        spaces,
        assumptions: vec!["Reference scrypt is written from RFC 7914 on flat arrays and tested against the RFC's vectors at every start.".into()],
        bounds: format!(
            "n up to {}, r up to 1024, p up to 65537 (not all combined); n above 2^32 needs at least 512 GiB of memory and is out of reach, so the top 4 bytes of the block index are outside the bound",
            t.pick("2^21", "2^25")
        ),
    }
}

/// The set of errors that name a parameter actually at fault.
fn faults(r: usize, n: usize, p: usize) -> Vec<SErr> {
    let mut v = vec![];
    if r == 0 {
        v.push(SErr::R)
    }
    if n < 2 {
        v.push(SErr::N)
    }
    if !n.is_power_of_two() {
        v.push(SErr::NPow)
    }
    if p == 0 {
        v.push(SErr::P)
    }
    if v.is_empty() {
        return v;
    }
    // A parameter above its upper limit (C19) may be named as well.
    if r > 0 && r < 4 && n as u64 >> (16 * r) != 0 {
        v.push(SErr::OtherN);
    }
    if (p as u128 * r as u128) > (u32::MAX / 4) as u128 {
        v.extend([SErr::OtherP, SErr::OtherR]);
    }
    v
}

fn refuse(cx: &mut Cx, r: usize, n: usize, p: usize, dk: usize) -> R {
    let f = faults(r, n, p);
    if f.is_empty() {
        return Ok(());
    }
    let before: Vec<u8> = stream(21, dk);
    let mut out = before.clone();
    let s = api::Scrypt::new(r, n, p);
    for again in 0..2 {
        let res = s.derive(b"pw", b"salt", &mut out);
        cx.state(&(r, n, p, dk, again));
        cx.outcome(&res);
        match res {
            Err(e) if f.contains(&e) => {}
            _ => return Err(format!("scrypt r={} n={} p={} must be refused with one of {:?}, code under test gave {:?}", r, n, p, f, res)),
        }
        cx.eq(&format!("output buffer after refusing r={} n={} p={}", r, n, p), &out, &before)?;
    }
    Ok(())
}

pub fn c07(t: Tier) -> Check {
    const DKS: [usize; 5] = [0, 1, 32, 33, 100];
    let nmax = t.pick(1100usize, 5000);
    let mut spaces = vec![Space::new(
        "grid",
        format!("r in 0..=3 x p in 0..=3 x n in 0..{} x 5 output lengths, every combination with a fault; derive called twice", nmax),
        size([nmax, 4, 4, 5]),
        move |i, cx| {
            let [n, r, p, d] = dec(i, [nmax, 4, 4, 5]);
            refuse(cx, r, n, p, DKS[d])
        },
    )];
    let m = t.pick(2_000_000usize, 1 << 25);
    spaces.push(Space::new("not_a_power", format!("every n in 0..={} that is not a power of two above 1", m), m as u64 + 1, move |n, cx| refuse(cx, 1, n as usize, 1, 8)));
    spaces.push(Space::new("two_bits", "every n = 2^a + 2^b, every n = 2^a - 2^b, every n = 2^a + 1, for r in 1,2,8", size([64, 64, 3, 3]), |i, cx| {
        let [a, b, k, r] = dec(i, [64, 64, 3, 3]);
        if b >= a || a >= usize::BITS as usize {
            return Ok(());
        }
        let n = match k {
            0 => (1usize << a) + (1 << b),
            1 => (1usize << a) - (1 << b),
            _ => (1usize << a) | (1 << b) | (1 << (b / 2)),
        };
        refuse(cx, [1, 2, 8][r], n, 1, 8)
    }));
    let ms: Vec<usize> = mags(0, clip(1 << 40)).into_iter().chain((40..64).filter(|&k| k < usize::BITS).flat_map(|k| [(1usize << k) - 1, 1 << k, (1 << k) + 1, 3 << (k - 1)])).collect();
    let nm = ms.len();
    spaces.push(Space::new("magnitudes", format!("{} values of every magnitude to 2^64 as n, as r and as p, with the other two out of 0, 1, 2, 3, 8 and 1000: every combination with a fault", nm), size([3, nm, 6, 6]), move |i, cx| {
        let [w, m, a, b] = dec(i, [3, nm, 6, 6]);
        let v = [0, 1, 2, 3, 8, 1000];
        match w {
            0 => refuse(cx, v[a], ms[m], v[b], 8),
            1 => refuse(cx, ms[m], v[a], v[b], 8),
            _ => refuse(cx, v[a], v[b], ms[m], 8),
        }
    }));
    spaces.push(Space::new("huge_values", "r, n, p each in 0,1,2,3,2^31,2^32,2^57,2^63,2^64-1, every combination with a fault", size([9, 9, 9]), |i, cx| {
        let v: [usize; 9] = [0, 1, 2, 3, 1 << 31, clip(1 << 32), clip(1 << 57), clip(1 << 63), usize::MAX];
        let [a, b, c] = dec(i, [9, 9, 9]);
        refuse(cx, v[a], v[b], v[c], 16)
    }));
    Check {
        id: "C07",
        spaces,
        assumptions: vec!["When several parameters are at fault any error naming one of them is accepted.".into()],
        bounds: format!("n exhaustively to {}, then all one- and two-bit patterns and their differences to 2^63; r and p exhaustively 0..=3 and huge values", m),
    }
}

// ------------------------------------------------------------- upper limits

/// Child process for a configuration that must be refused: on the current tree
/// some of them abort the process. Prints what happened.
pub fn probe(r: usize, n: usize, p: usize) -> i32 {
    let mut out = vec![0x77u8; 24];
    let res = guarded(|| api::scrypt(r, n, p, b"pw", b"salt", &mut out));
    match res {
        Ok(Ok(())) => println!("accepted {}", api::hex(&out)),
        Ok(Err(_)) if out.iter().all(|&b| b == 0x77) => println!("refused"),
        Ok(Err(_)) => println!("refused but output written"),
        Err(_) => println!("panicked"),
    }
    0
}

/// Counts so large that nobody can have finished within two seconds: 2^31
/// double rounds take at least five, 2^31 iterations more. Under 2^21 counts are
/// compared with the reference.
pub const ENDLESS: [u64; 14] = [
    1 << 31, (1 << 31) + 1, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 32) + 2, (1 << 33) + 1, (1 << 40) + 1, (1 << 48) + 2, (1 << 56) + 3, (1 << 62) + 1, 1 << 63, (1 << 63) + 1, u64::MAX,
];

/// Child process for one of them.
pub fn endless(what: &str, n: u64) -> i32 {
    let mut out = [0u8; 64];
    match what {
        "pbkdf2" => api::pbkdf2(b"pw", b"salt", n as usize, &mut out[..20]),
        _ => api::salsa20(&base()[..64], n as usize, &mut out),
    }
    println!("{}", api::hex(&out));
    0
}

pub fn endless_space(what: &'static str) -> Space {
    let unit = if what == "pbkdf2" { "iterations" } else { "double rounds" };
    Space::new("endless", format!("{:?} {}, in a process of its own that is ended after 2 s: none has returned by then", ENDLESS, unit), ENDLESS.len() as u64, move |i, cx| {
        use std::process::{Command, Stdio};
        let n = ENDLESS[i as usize];
        if usize::try_from(n).is_err() {
            return Ok(());
        }
        cx.state(&(what, n));
        let exe = std::env::current_exe().map_err(|e| format!("HARNESS {}", e))?;
        let mut ch = Command::new(exe).args(["endless", what, &n.to_string()]).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).spawn().map_err(|e| format!("HARNESS {}", e))?;
        let t0 = std::time::Instant::now();
        while t0.elapsed().as_millis() < 2000 {
            match ch.try_wait() {
                Ok(None) => std::thread::sleep(std::time::Duration::from_millis(20)),
                Ok(Some(st)) if matches!(st.code(), Some(0) | Some(101)) => return Err(format!("{} with {} {} ended after {} ms; so many cannot have been done", what, n, unit, t0.elapsed().as_millis())),
                o => return Err(format!("HARNESS child ended with {:?}", o)),
            }
        }
        let _ = ch.kill();
        let _ = ch.wait();
        Ok(())
    })
}

pub fn run_probe(r: usize, n: usize, p: usize) -> Result<String, String> {
    use std::process::{Command, Stdio};
    let exe = std::env::current_exe().map_err(|e| format!("HARNESS {}", e))?;
    let mut ch = Command::new(exe)
        .env("RUST_BACKTRACE", "0")
        .args(["probe", &r.to_string(), &n.to_string(), &p.to_string()])
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .map_err(|e| format!("HARNESS cannot start probe: {}", e))?;
    let t0 = std::time::Instant::now();
    loop {
        match ch.try_wait() {
            Ok(Some(st)) => {
                use std::io::Read;
                use std::os::unix::process::ExitStatusExt;
                let mut s = String::new();
                let _ = ch.stdout.take().unwrap().read_to_string(&mut s);
                return match (st.code(), st.signal()) {
                    (Some(0), _) => Ok(s.trim().to_string()),
                    (_, Some(6)) => Ok("aborted".into()),
                    (_, Some(sg)) if sg != 9 && sg != 15 => Ok(format!("died with signal {}", sg)),
                    _ => Err(format!("HARNESS probe ended with {:?}", st)),
                };
            }
            Ok(None) if t0.elapsed().as_secs() > 60 => {
                let _ = ch.kill();
                let _ = ch.wait();
                return Ok("still deriving after 60 s".into());
            }
            Ok(None) => std::thread::sleep(std::time::Duration::from_millis(5)),
            Err(e) => return Err(format!("HARNESS {}", e)),
        }
    }
}

/// In-process: a configuration above the limits is refused.
fn over(cx: &mut Cx, r: usize, n: usize, p: usize) -> R {
    let mut out = [0x77u8; 24];
    let res = api::scrypt(r, n, p, b"pw", b"salt", &mut out);
    cx.outcome(&res);
    if res.is_ok() {
        return Err(format!("scrypt r={} n={} p={} is above the documented limits and must be refused, but a key was derived", r, n, p));
    }
    cx.eq("output after the refusal", &out, &[0x77; 24])
}

pub fn c19(t: Tier) -> Check {
    let mut over_list: Vec<(usize, usize, usize)> = vec![(1, 1 << 16, 1), (1, 1 << 17, 1), (1, 1 << 18, 1), (1, 1 << 16, 2)];
    for (r, ps) in [
        (1u64, vec![1u64 << 30, 1 << 31, 1 << 32, 1 << 50, 1 << 57, 1 << 58, 1 << 63, u64::MAX]),
        (2, vec![1 << 29, 1 << 30, 1 << 56, 1 << 63, u64::MAX]),
        (8, vec![1 << 27, 1 << 54, u64::MAX]),
        (1 << 30, vec![1]),
        (1 << 57, vec![1]),
        (u64::MAX, vec![1]),
    ] {
        for p in ps {
            over_list.push((clip(r), 2, clip(p)));
        }
    }
    let mut spaces = vec![];
    let n = over_list.len();
    let list = over_list.clone();
    spaces.push(
        Space::new(
            "above",
            format!("n >= 2^(16 r) or p > (2^32-1)/(4 r): {:?}, each in its own process with 2 GiB of address space", list),
            n as u64,
            move |i, cx| {
                let (r, n, p) = over_list[i as usize];
                cx.key(format!("r={},n={},p={}", r, n, p));
                cx.state(&(r, n, p));
                let o = run_probe(r, n, p)?;
                cx.outcome(&o);
                if o == "refused" {
                    Ok(())
                } else {
                    Err(format!("scrypt r={} n={} p={} is above the documented limits and must be refused, but: {}", r, n, p, o))
                }
            },
        )
        .heavy(200),
    );
    // Exactly at the limits. Nearly all of these need more memory than there is,
    // so the child process runs out of it; what matters is that it tried.
    let mut at: Vec<(usize, usize, usize)> = vec![(1usize, 1u64 << 15), (2, 1 << 31), (2, 1 << 30), (3, 1 << 40), (3, 1 << 32), (4, 1 << 40), (5, 1 << 40), (1 << 20, 1 << 33)]
        .into_iter()
        .filter_map(|(r, n)| Some((r, usize::try_from(n).ok()?, 1)))
        .collect();
    let near = |r: usize| u32::MAX as usize / 4 / r;
    let rs: Vec<usize> = (1..=t.pick(20, 200)).chain([31, 32, 33, 64, 100, 128, 255, 256, 1000, 4096, 65_535, 65_536, 65_537, 1 << 20, 1 << 24, (1 << 29) - 1, 1 << 29, (1 << 30) - 1]).collect();
    for &r in &rs {
        at.push((r, 2, near(r)));
        at.push((r, 1 << 15, near(r)));
    }
    let n = at.len();
    spaces.push(
        Space::new(
            "at_limits",
            format!("{} configurations exactly at the limits (n = 2^15 for r=1, large n for r >= 2, the largest p for {} values of r), each in its own process with 2 GiB of address space: not refused (running out of memory is accepted here)", n, rs.len()),
            n as u64,
            move |i, cx| {
                let (r, n, p) = at[i as usize];
                cx.state(&(1, r, n, p));
                let o = run_probe(r, n, p)?;
                cx.outcome(&o);
                // A 32-bit Vec refuses more than 2^31 bytes with a panic.
                if o.starts_with("accepted") || o == "aborted" || (usize::BITS == 32 && o == "panicked") || o.starts_with("still deriving") {
                    Ok(())
                } else {
                    Err(format!("scrypt r={} n={} p={} is within the documented limits, but: {}", r, n, p, o))
                }
            },
        )
        .heavy(200),
    );
    let rs2: Vec<usize> = (1..=t.pick(3000, 100_000)).collect();
    let nr = rs2.len();
    spaces.push(Space::new("p_grid", format!("r in 1..={} x the 3 values of p above the limit, the limit times 2, and 7 huge values: refused, output untouched", nr), size([nr, 11]), move |i, cx| {
        let [k, j] = dec(i, [nr, 11]);
        let r = rs2[k];
        let l = u32::MAX as usize / 4 / r;
        let p = [l + 1, l + 2, l + 3, 2 * l + 2, 1 << 30, 1 << 31, clip(1 << 32), clip(1 << 57), (usize::MAX / r).saturating_add(1), usize::MAX / (128 * r) + 1, usize::MAX][j];
        if (p as u128) <= l as u128 {
            return Ok(());
        }
        cx.state(&(2, r, p));
        over(cx, r, 2, p)
    }));
    // What a parameter looks like once some of its upper bits are lost.
    spaces.push(Space::new("wrapped", "p = 2^k + d and r = 2^k + d for k in 30..64, d in 0..=40, with the other one 1, 2, 3 or 8: refused, output untouched", size([2, 64, 41, 4]), |i, cx| {
        let [w, k, d, o] = dec(i, [2, 64, 41, 4]);
        if k < 30 || k >= usize::BITS as usize {
            return Ok(());
        }
        let (big, o) = ((1usize << k) + d, [1, 2, 3, 8][o]);
        if big as u128 * o as u128 <= (u32::MAX / 4) as u128 {
            return Ok(());
        }
        cx.state(&(4, w, big, o));
        if w == 0 {
            over(cx, o, 2, big)
        } else {
            over(cx, big, 2, o)
        }
    }));
    spaces.push(Space::new("n_grid", "r in 1..=3 x every power of two n from 2^(16 r) to 2^63 x p in 1,2,3,1000: refused, output untouched", size([3, 64, 4]), |i, cx| {
        let [r, k, p] = dec(i, [3, 64, 4]);
        let r = r + 1;
        if k < 16 * r || k >= usize::BITS as usize {
            return Ok(());
        }
        cx.state(&(3, r, k, p));
        over(cx, r, 1 << k, [1, 2, 3, 1000][p])
    }));
    spaces.push(
        Space::new("at_n_limit", "r=1: every power of two n up to the limit 2^15, p in 1,2; r=2: every n to 2^18; both accepted with the right key", 15 * 2 + 18, |i, cx| {
            let (r, n, p) = if i < 30 { (1, 2usize << (i / 2), 1 + i as usize % 2) } else { (2, 2usize << (i - 30), 1) };
            cx.state(&(r, n, p));
            sc(cx, r, n, p, b"pw", b"salt", 32)
        })
        .heavy(300),
    );
    let ps: Vec<(usize, usize)> = t.pick(
        vec![(1, 255), (1, 256), (1, 257), (1, 65_536), (1, 65_537), (2, 32_769), (8, 8193), (300, 300), (1024, 64), (65_536, 1), (65_537, 2)],
        vec![(1, 65_537), (1, 1 << 20), (1, (1 << 20) + 1), (2, 1 << 20), (8, 1 << 17), (1024, 1024), (1 << 20, 1), (1 << 20, 2)],
    );
    spaces.push(
        Space::new("large_p_r", format!("(r, p) in {:?}, n=2: large products inside the limits are accepted with the right key", ps), ps.len() as u64, move |i, cx| {
            let (r, p) = ps[i as usize];
            cx.state(&(r, p));
            sc(cx, r, 2, p, b"pw", b"salt", 16)
        })
        .heavy(300),
    );
    Check {
        id: "C19",
        spaces,
        assumptions: vec![
            "A configuration within the limits that fails only for lack of memory counts as accepted.".into(),
        ],
        bounds: "p at its exact limit needs 128 GiB of memory in any configuration, so at the limit only the decision to derive is observed; derived values are compared up to 2^20 blocks, and for r=1 up to the n limit".into(),
    }
}

// --------------------------------------------------------------------- buffers

/// Derive into a window of a larger buffer. Which derivation is chosen by `alg`.
fn into_window(alg: usize, whole: &mut [u8], from: usize, len: usize) -> R {
    let out = &mut whole[from..from + len];
    match alg {
        0 => api::pbkdf2(b"password", b"salt", 1, out),
        1 => api::pbkdf2(b"password", b"salt", 3, out),
        2 => return api::scrypt(1, 2, 1, b"pw", b"salt", out).map_err(|e| format!("scrypt refused an output of {} bytes: {:?}", len, e)),
        _ => return api::scrypt(2, 8, 3, b"pw", b"salt", out).map_err(|e| format!("scrypt refused an output of {} bytes: {:?}", len, e)),
    }
    Ok(())
}

pub fn c20(t: Tier) -> Check {
    let max = t.pick(200usize, 700);
    const FILL: [u8; 3] = [0x00, 0xff, 0xa5];
    const PAD: usize = 96;
    let longest: std::sync::Arc<Vec<std::sync::OnceLock<Vec<u8>>>> = std::sync::Arc::new((0..4).map(|_| std::sync::OnceLock::new()).collect());
    let mut spaces = vec![];
    let lg = longest.clone();
    spaces.push(Space::new(
        "windows",
        format!("4 derivations x every output length 0..={} x 9 offsets in a larger buffer x 3 previous contents", max),
        size([max + 1, 4, 9, 3]),
        move |i, cx| {
            let [len, alg, off, f] = dec(i, [max + 1, 4, 9, 3]);
            let fill = FILL[f];
            let mut buf = vec![fill; off + len + PAD];
            into_window(alg, &mut buf, off, len)?;
            cx.state(&(alg, len, off, f));
            let what = format!("{} of {} bytes at offset {} over {:#04x}", ["PBKDF2 c=1", "PBKDF2 c=3", "scrypt r=1 n=2 p=1", "scrypt r=2 n=8 p=3"][alg], len, off, fill);
            cx.eq(&format!("{}: bytes before the output", what), &buf[..off], &vec![fill; off])?;
            cx.eq(&format!("{}: bytes after the output", what), &buf[off + len..], &vec![fill; PAD])?;
            // The longest output is computed once by the code under test; every
            // shorter one must be its prefix.
            let long = lg[alg].get_or_init(|| {
                let mut l = vec![0x3c; max + 64];
                let n = l.len();
                let _ = into_window(alg, &mut l, 0, n);
                l
            });
            cx.eq(&format!("{}: compared with the prefix of a longer output", what), &buf[off..off + len], &long[..len])
        },
    ));
    let pairs: Vec<usize> = vec![0, 1, 31, 32, 33, 63, 64, 65, 1024, 1025, 8160, 8191, 8192, 8193, 65_535, 65_536, 65_537, 100_000, 1 << 20, (1 << 20) + 33];
    let np = pairs.len();
    spaces.push(Space::new("prefix", format!("every pair of output lengths out of {:?} x PBKDF2 and scrypt", pairs), size([2, np]), move |i, cx| {
        let [alg, a] = dec(i, [2, np]);
        let alg = [1, 3][alg];
        let mut long = vec![0xee; pairs[a]];
        into_window(alg, &mut long, 0, pairs[a])?;
        for b in 0..=a {
            let mut short = vec![0x11; pairs[b]];
            into_window(alg, &mut short, 0, pairs[b])?;
            cx.state(&(alg, pairs[a], pairs[b]));
            cx.eq(&format!("output of {} bytes against the prefix of one of {} bytes", pairs[b], pairs[a]), &short, &long[..pairs[b]])?;
        }
        Ok(())
    }));
    let ms = mags(200, t.pick(1 << 22, 1 << 25));
    let nm = ms.len();
    spaces.push(Space::new("magnitudes", format!("2 derivations x {} output lengths of every magnitude to 2^{}, at offset 1 of a larger dirty buffer, against the reference", nm, t.pick(22, 25)), size([nm, 2]), move |i, cx| {
        let [m, a] = dec(i, [nm, 2]);
        let n = ms[m];
        let mut buf = vec![0xe7u8; n + 66];
        into_window(2 * a, &mut buf, 1, n)?;
        cx.state(&(9, a, n));
        let want = if a == 0 { model::pbkdf2(b"password", b"salt", 1, n) } else { model::scrypt(b"pw", b"salt", 1, 2, 1, n) };
        cx.eq("derived bytes", &buf[1..n + 1], &want)?;
        cx.eq("bytes around the output", &[&buf[..1], &buf[n + 1..]].concat(), &vec![0xe7; 66])
    }));
    spaces.push(Space::new("against_model", format!("4 derivations x every output length 0..={}: value equals the reference", max), size([max + 1, 4]), move |i, cx| {
        let [len, alg] = dec(i, [max + 1, 4]);
        let mut out = vec![0x99; len];
        into_window(alg, &mut out, 0, len)?;
        let want = match alg {
            0 => model::pbkdf2(b"password", b"salt", 1, len),
            1 => model::pbkdf2(b"password", b"salt", 3, len),
            2 => model::scrypt(b"pw", b"salt", 1, 2, 1, len),
            _ => model::scrypt(b"pw", b"salt", 2, 8, 3, len),
        };
        cx.eq("derived bytes", &out, &want)
    }));
    Check {
        id: "C20",
        spaces,
        assumptions: vec!["Writes outside the slice are looked for in guard areas around it; safe Rust excludes others.".into()],
        bounds: format!("output lengths exhaustively to {}, selected to 1 MiB", max),
    }
}
