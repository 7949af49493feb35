//! C11..C14: the CBC cipher and decipher as state machines.
use crate::api::{self, AErr, DErr};
use crate::engine::*;
use crate::refs::aes::RefAes;
use crate::refs::cbc::{self as model, CipherModel, DecipherModel, Refuse};
use crate::util::*;

fn iv(k: usize) -> [u8; 16] {
    match k {
        0 => arr16(&stream(40, 16)),
        1 => [0; 16],
        2 => [0xff; 16],
        _ => arr16(&stream(40 + k as u64, 16)),
    }
}

/// Real cipher and model side by side. `kid` identifies the accepted key.
struct Enc {
    o: api::Cipher,
    m: CipherModel,
    kid: usize,
}

impl Enc {
    fn bare(v: [u8; 16]) -> Enc {
        Enc { o: api::Cipher::new(v), m: CipherModel::new(v), kid: 0 }
    }
    fn keyed(v: [u8; 16], key: &[u8], cx: &mut Cx) -> Result<Enc, String> {
        let mut e = Enc::bare(v);
        e.init(key, 1, cx)?;
        Ok(e)
    }
    fn note(&self, cx: &mut Cx) {
        cx.state(&(self.kid, &self.m.chain, &self.m.pend));
    }
    fn init(&mut self, key: &[u8], kid: usize, cx: &mut Cx) -> R {
        let want = if self.m.init(key) { Ok(()) } else { Err(AErr::KeySize) };
        if want.is_ok() {
            self.kid = kid;
        }
        self.note(cx);
        cx.same(&format!("Cipher::init with a key of {} bytes", key.len()), &self.o.init(key), &want)
    }
    fn write(&mut self, d: &[u8], cx: &mut Cx) -> R {
        let got = self.o.write(d);
        if self.m.key.is_none() {
            return match got {
                Err(AErr::NotInit) => Ok(()),
                Ok(v) if v.is_empty() => {
                    self.m.pend.extend_from_slice(d);
                    self.note(cx);
                    Ok(())
                }
                other => Err(format!("Cipher::write of {} bytes without a key must give the not-initialised error (or buffer and return nothing), code under test gave {:?}", d.len(), other)),
            };
        }
        let want = self.m.write(d);
        self.note(cx);
        match got {
            Ok(g) => cx.eq(&format!("Cipher::write of {} bytes", d.len()), &g, &want),
            Err(e) => Err(format!("Cipher::write of {} bytes failed with {:?} although a key is set", d.len(), e)),
        }
    }
    fn flush(&mut self, cx: &mut Cx) -> R {
        let got = self.o.flush();
        if self.m.key.is_none() {
            return cx.same("Cipher::flush without a key", &got, &Err(AErr::NotInit));
        }
        let want = self.m.flush();
        self.note(cx);
        match got {
            Ok(g) => cx.eq("Cipher::flush", &g, &want),
            Err(e) => Err(format!("Cipher::flush failed with {:?} although a key is set", e)),
        }
    }
}

struct Dec {
    o: api::Decipher,
    m: DecipherModel,
    kid: usize,
}

impl Dec {
    fn bare(v: [u8; 16]) -> Dec {
        Dec { o: api::Decipher::new(v), m: DecipherModel::new(v), kid: 0 }
    }
    fn keyed(v: [u8; 16], key: &[u8], cx: &mut Cx) -> Result<Dec, String> {
        let mut e = Dec::bare(v);
        e.init(key, 1, cx)?;
        Ok(e)
    }
    fn note(&self, cx: &mut Cx) {
        cx.state(&(self.kid, &self.m.chain, &self.m.part, &self.m.held));
    }
    fn init(&mut self, key: &[u8], kid: usize, cx: &mut Cx) -> R {
        let want = if self.m.init(key) { Ok(()) } else { Err(AErr::KeySize) };
        if want.is_ok() {
            self.kid = kid;
        }
        self.note(cx);
        cx.same(&format!("Decipher::init with a key of {} bytes", key.len()), &self.o.init(key), &want)
    }
    /// True when the data was taken.
    fn write(&mut self, d: &[u8], cx: &mut Cx) -> Result<bool, String> {
        let got = self.o.write(d);
        if self.m.key.is_none() {
            return match got {
                Err(DErr::Aes(AErr::NotInit)) => Ok(false),
                Ok(v) if v.is_empty() => {
                    self.m.part.extend_from_slice(d);
                    self.note(cx);
                    Ok(true)
                }
                other => Err(format!("Decipher::write of {} bytes without a key must give the not-initialised error (or buffer and return nothing), code under test gave {:?}", d.len(), other)),
            };
        }
        let want = self.m.write(d);
        self.note(cx);
        match got {
            Ok(g) => cx.eq(&format!("Decipher::write of {} bytes", d.len()), &g, &want)?,
            Err(e) => return Err(format!("Decipher::write of {} bytes failed with {:?} although a key is set", d.len(), e)),
        }
        Ok(true)
    }
    /// True when the message ended successfully.
    fn flush(&mut self, cx: &mut Cx) -> Result<bool, String> {
        let got = self.o.flush();
        cx.outcome(&got);
        if self.m.key.is_none() {
            return match got {
                Err(_) => Ok(false),
                Ok(v) => Err(format!("Decipher::flush without a key returned {} bytes instead of an error", v.len())),
            };
        }
        let want = self.m.flush();
        self.note(cx);
        let want = want.map_err(|e| match e {
            Refuse::Unfinished => DErr::Unfinished,
            Refuse::BadPadding => DErr::BadPadding,
        });
        if got != want {
            return Err(format!("Decipher::flush: code under test gave {}, expected {}", show(&got), show(&want)));
        }
        Ok(want.is_ok())
    }
}

fn show(r: &Result<Vec<u8>, DErr>) -> String {
    match r {
        Ok(v) => format!("Ok({})", api::hex(v)),
        Err(e) => format!("Err({:?})", e),
    }
}

const CUTS: [usize; 10] = [0, 1, 7, 15, 16, 17, 31, 32, 33, 48];

fn assumptions() -> Vec<String> {
    vec!["Reference AES is the algebraic definition of FIPS 197 (tested against its vectors at every start); CBC and PKCS#7 are written from NIST SP 800-38A and RFC 5652.".into()]
}

// ------------------------------------------------------------- long streams

/// Bytes of one write: more than 2^28.
const ONE_WRITE: u64 = if cfg!(target_pointer_width = "64") { (1 << 28) + 5 } else { (1 << 25) + 5 };

/// Bytes of one message: more than 2^32 bits; thorough: than 2^32 bytes.
fn stream_len(t: Tier) -> u64 {
    t.pick((1 << 29) + 53, (1 << 32) + 69)
}

/// A long CBC stream under judgement. Every block stands for itself once the
/// ciphertext block before it is known, so the model works on all cores.
struct Stream {
    at: u64,
    chain: [u8; 16],
    pt: Vec<u8>,
    ct: Vec<u8>,
}

impl Stream {
    fn new(iv: [u8; 16]) -> Stream {
        Stream { at: 0, chain: iv, pt: vec![], ct: vec![] }
    }
    fn judge(&mut self, model: &RefAes, end: bool, what: &str) -> R {
        let n = self.pt.len().min(self.ct.len()) / 16;
        if n < 1 << 20 && !end {
            // Neither side may run ahead of the other by more than a block or so.
            if self.pt.len().abs_diff(self.ct.len()) > 64 {
                return Err(format!("around byte {} of a long stream, {} bytes of plaintext go with {} of ciphertext", self.at, self.pt.len(), self.ct.len()));
            }
            return Ok(());
        }
        let (pt, ct, chain) = (&self.pt[..n * 16], &self.ct[..n * 16], self.chain);
        let strip = (n / 16 + 1) * 16;
        let bad = std::thread::scope(|sc| {
            let work: Vec<_> = (0..n * 16)
                .step_by(strip.max(16))
                .map(|a| {
                    sc.spawn(move || {
                        (a..(a + strip).min(n * 16)).step_by(16).find(|&o| {
                            let prev = if o == 0 { &chain[..] } else { &ct[o - 16..o] };
                            let mut x = [0u8; 16];
                            for j in 0..16 {
                                x[j] = pt[o + j] ^ prev[j];
                            }
                            model.encrypt(&x)[..] != ct[o..o + 16]
                        })
                    })
                })
                .collect();
            work.into_iter().filter_map(|w| w.join().unwrap()).min()
        });
        if let Some(o) = bad {
            return Err(format!("the {} of a long stream is wrong from byte {} on", what, self.at + o as u64));
        }
        if n > 0 {
            self.chain.copy_from_slice(&self.ct[n * 16 - 16..n * 16]);
        }
        self.pt.drain(..n * 16);
        self.ct.drain(..n * 16);
        self.at += n as u64 * 16;
        if end && (!self.pt.is_empty() || !self.ct.is_empty()) {
            return Err(format!("a long stream ended with {} bytes of plaintext and {} of ciphertext too many", self.pt.len(), self.ct.len()));
        }
        Ok(())
    }
}

pub fn c11(t: Tier) -> Check {
    let mut spaces = vec![];
    let ml = t.pick(700usize, 4200);
    spaces.push(Space::new("lengths", format!("every plaintext length 0..={} x 3 key sizes x 8 contents x 2 IVs, one write and flush", ml), size([ml + 1, 3, 8, 2]), move |i, cx| {
        let [l, k, p, v] = dec(i, [ml + 1, 3, 8, 2]);
        let key = key(0, KEY_SIZES[k]);
        let pt = pat(p, l);
        let v = iv(v);
        let mut e = Enc::keyed(v, &key, cx)?;
        e.write(&pt, cx)?;
        e.flush(cx)?;
        // Independent of the step model: the definition in one go.
        let mut all = vec![];
        let mut c = api::Cipher::new(v);
        let _ = c.init(&key);
        all.extend(c.write(&pt).map_err(|e| format!("write failed: {:?}", e))?);
        all.extend(c.flush().map_err(|e| format!("flush failed: {:?}", e))?);
        cx.eq(&format!("CBC of {} bytes", l), &all, &model::encrypt(&RefAes::new(&key), &v, &pt))
    }));
    let cut = t.pick(200usize, 400);
    spaces.push(Space::new("two_writes", format!("every (a, b) in 0..={} squared: write a bytes, write b bytes, flush", cut), size([cut + 1, cut + 1]), move |i, cx| {
        let [a, b] = dec(i, [cut + 1, cut + 1]);
        let pt = &base()[..a + b];
        let mut e = Enc::keyed(iv(0), &key(0, KEY_SIZES[(a + b) % 3]), cx)?;
        e.write(&pt[..a], cx)?;
        e.write(&pt[a..], cx)?;
        e.flush(cx)
    }));
    let c3 = t.pick(50usize, 66);
    spaces.push(Space::new("three_writes", format!("every (a, b, c) in 0..{} cubed", c3), size([c3, c3, c3]), move |i, cx| {
        let [a, b, c] = dec(i, [c3, c3, c3]);
        let pt = &base()[7..7 + a + b + c];
        let mut e = Enc::keyed(iv(1), &key(0, 16), cx)?;
        e.write(&pt[..a], cx)?;
        e.write(&pt[a..a + b], cx)?;
        e.write(&pt[a + b..], cx)?;
        e.flush(cx)
    }));
    let d = t.pick(6usize, 7);
    spaces.push(Space::new("write_sequences", format!("every sequence of up to {} writes with sizes from {:?}, then flush", d, CUTS), seq_count(CUTS.len(), d), move |i, cx| {
        let mut s = vec![];
        seq_at(i, CUTS.len(), d, &mut s);
        let mut e = Enc::keyed(iv(0), &key(0, KEY_SIZES[s.len() % 3]), cx)?;
        let mut at = 0;
        for &c in &s {
            e.write(&base()[at..at + CUTS[c]], cx)?;
            at += CUTS[c];
        }
        e.flush(cx)
    }));
    let d = t.pick(7usize, 8);
    spaces.push(Space::new(
        "sessions",
        format!("every sequence of up to {} operations out of: write 1, 15, 16, 17, 33 bytes, flush, init with a 16-byte key, init with a 32-byte key that has it as prefix; then two flushes", d),
        seq_count(8, d),
        move |i, cx| {
            let mut s = vec![];
            seq_at(i, 8, d, &mut s);
            let mut e = Enc::keyed(iv(0), &key(0, 24), cx)?;
            let mut at = 3;
            for &c in &s {
                match c {
                    0..=4 => {
                        let n = [1, 15, 16, 17, 33][c];
                        e.write(&base()[at..at + n], cx)?;
                        at += n;
                    }
                    5 => e.flush(cx)?,
                    6 => e.init(&key(0, 16), 2, cx)?,
                    _ => e.init(&key(0, 32), 3, cx)?,
                }
            }
            e.flush(cx)?;
            e.flush(cx)
        },
    ));
    let mut big: Vec<usize> = vec![];
    for c in [256usize, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536] {
        big.extend([c - 17, c - 16, c - 15, c - 1, c, c + 1, c + 15, c + 16, c + 17]);
    }
    big.extend([(1 << 20) - 1, 1 << 20, (1 << 20) + 1]);
    if t.thorough() {
        big.extend([(1 << 21) - 1, 1_500_000, 2_000_003]);
    }
    let nb = big.len();
    spaces.push(Space::new("big_writes", format!("writes of {:?} bytes, alone, after 5 bytes, and followed by as many again", big), size([nb, 3]), move |i, cx| {
        let [b, k] = dec(i, [nb, 3]);
        let mut e = Enc::keyed(iv(0), &key(0, KEY_SIZES[b % 3]), cx)?;
        if k == 1 {
            e.write(&base()[..5], cx)?;
        }
        e.write(&base()[5..5 + big[b]], cx)?;
        if k == 2 {
            e.write(&base()[9..9 + big[b]], cx)?;
        }
        e.flush(cx)
    }));
    let nf = t.pick(3, FAR.len());
    spaces.push(Space::new("far_writes", format!("a write of {:?} bytes, then one of 0, 1 or 15, then one of {:?}", &FAR[..nf], LARGE), size([nf, 3, LARGE.len()]), move |i, cx| {
        let [f, o, l] = dec(i, [nf, 3, LARGE.len()]);
        let mut e = Enc::keyed(iv(0), &key(0, KEY_SIZES[l % 3]), cx)?;
        e.write(&long(FAR[f]), cx)?;
        e.write(&base()[..[0, 1, 15][o]], cx)?;
        e.write(&base()[9..9 + LARGE[l]], cx)?;
        e.flush(cx)
    }));
    let ms = mags(1, t.pick(1 << 22, 1 << 24));
    let nm = ms.len();
    spaces.push(Space::new("magnitudes", format!("{} write sizes of every magnitude to 2^{}, after 0 or 5 bytes and followed by 20 more; and as many one-byte writes (to 2^17)", nm, t.pick(22, 24)), size([nm, 3]), move |i, cx| {
        let [m, k] = dec(i, [nm, 3]);
        let n = ms[m];
        if k == 2 && n > 140_000 {
            return Ok(());
        }
        let mut e = Enc::keyed(iv(0), &key(0, KEY_SIZES[m % 3]), cx)?;
        if k == 2 {
            for b in base()[..n].chunks(1) {
                e.write(b, cx)?;
            }
            return e.flush(cx);
        }
        e.write(&base()[..5 * k], cx)?;
        e.write(&long(n), cx)?;
        e.write(&base()[..20], cx)?;
        e.flush(cx)
    }));
    spaces.push(
        Space::new("long_stream", format!("one message of {} bytes: in writes of 1 MiB less a byte; and its first {} in one write", stream_len(t), ONE_WRITE), 2, move |i, cx| {
            let (k, v) = (key(0, KEY_SIZES[i as usize]), iv(0));
            let (model, mut c) = (RefAes::new(&k), api::Cipher::new(v));
            c.init(&k).map_err(|e| format!("init said {:?}", e))?;
            let total = if i == 0 { stream_len(t) } else { ONE_WRITE };
            let piece = &base()[..if i == 0 { (1 << 20) - 1 } else { 1 << 20 }];
            let mut got = Stream::new(v);
            let mut done = 0u64;
            if i == 1 {
                let all = long(total as usize);
                let out = c.write(&all).map_err(|e| format!("write said {:?}", e))?;
                got.pt.extend_from_slice(&all);
                got.ct.extend_from_slice(&out);
                done = total;
            }
            while done < total {
                let n = (total - done).min(piece.len() as u64) as usize;
                let out = c.write(&piece[..n]).map_err(|e| format!("write after {} bytes said {:?}", done, e))?;
                got.pt.extend_from_slice(&piece[..n]);
                got.ct.extend_from_slice(&out);
                done += n as u64;
                if done / 16 * 16 != got.at + got.ct.len() as u64 {
                    return Err(format!("after {} bytes the cipher had given {}", done, got.at + got.ct.len() as u64));
                }
                got.judge(&model, false, "ciphertext")?;
            }
            let last = c.flush().map_err(|e| format!("flush said {:?}", e))?;
            got.ct.extend_from_slice(&last);
            got.pt.extend_from_slice(&model::pad(&base()[..(total % 16) as usize])[(total % 16) as usize..]);
            got.judge(&model, true, "ciphertext")?;
            cx.state(&(i, total, 30));
            Ok(())
        })
        .heavy(800),
    );
    let many = t.pick(70_000usize, 700_000);
    spaces.push(Space::new("many_messages", format!("one cipher, {} messages of 0, 1 or 16 bytes in a row", many), 3, move |i, cx| {
        let mut e = Enc::keyed(iv(0), &key(0, 16), cx)?;
        for _ in 0..many {
            e.write(&base()[..[0, 1, 16][i as usize]], cx)?;
            e.flush(cx)?;
        }
        Ok(())
    }));
    let reps = t.pick(600usize, 70_000);
    spaces.push(Space::new("long_sessions", format!("one cipher, {} messages (and {} writes) in a row, for 40 message lengths x 3 key sizes", reps, reps), size([40, 3, 2]), move |i, cx| {
        let [l, k, kind] = dec(i, [40, 3, 2]);
        let mut e = Enc::keyed(iv(0), &key(0, KEY_SIZES[k]), cx)?;
        for n in 0..reps {
            let at = (n * 31) % 100_000;
            e.write(&base()[at..at + l], cx)?;
            if kind == 0 {
                e.flush(cx)?;
            }
        }
        e.flush(cx)
    }));
    spaces.push(Space::new("iv_and_block_bytes", "every position x every value of the IV, and of a two-block plaintext", 48 * 256, |i, cx| {
        let (p, v) = ((i / 256) as usize, i as u8);
        let mut x = iv(0);
        let mut pt = stream(50, 32);
        if p < 16 {
            x[p] = v
        } else {
            pt[p - 16] = v
        }
        let mut e = Enc::keyed(x, &key(0, 16), cx)?;
        e.write(&pt, cx)?;
        e.flush(cx)
    }));
    spaces.push(Space::new("padding_like", "plaintexts of 0..=48 bytes ending in k bytes of value v, for every v in 0..=17 and k in 0..=17", size([49, 18, 18]), |i, cx| {
        let [l, v, k] = dec(i, [49, 18, 18]);
        let mut pt = stream(51, l);
        for x in pt.iter_mut().rev().take(k) {
            *x = v as u8;
        }
        let mut e = Enc::keyed(iv(0), &key(0, 32), cx)?;
        e.write(&pt, cx)?;
        e.flush(cx)
    }));
    spaces.push(Space::new("texts", "plaintexts with each of 52 marks, line ends, encodings and delimiters in 7 places of 5 lengths", TEXTED as u64, |i, cx| {
        let pt = texted(i as usize);
        let mut e = Enc::keyed(iv(0), &key(0, 32), cx)?;
        e.write(&pt, cx)?;
        e.flush(cx)
    }));
    spaces.push(Space::new("ends", "every pair of first two and of last two bytes of plaintexts of 3, 14, 16 and 31 bytes, of the IV, and of keys of 16, 24 and 32 bytes", size([7, ENDS]), |i, cx| {
        let [w, e] = dec(i, [7, ENDS]);
        if w > 2 && e >> 17 == 0 {
            return Ok(()); // no keys or IVs of 3 bytes
        }
        let x = ends(e, [14, 16, 31, 16, 16, 24, 32][w]);
        let pt = if w < 3 { x.clone() } else { b"seventeen bytes..".to_vec() };
        let v = if w == 3 { arr16(&x) } else { iv(0) };
        let k = if w > 3 { x } else { key(0, 16) };
        let mut e = Enc::keyed(v, &k, cx)?;
        e.write(&pt, cx)?;
        e.flush(cx)
    }));
    spaces.push(Space::new(
        "related",
        "plaintexts of 1..=4 blocks (and 0, 1 or 15 bytes more) whose blocks equal the IV, the chaining value, the block before, part of the key or what decrypts to one of these: 14 relations x 4 IVs x 3 key sizes x cuts at every block",
        size([REL, 4, 3, 4, 3, 5]),
        |i, cx| {
            let [rel, v, s, n, more, cut] = dec(i, [REL, 4, 3, 4, 3, 5]);
            let k = key(0, KEY_SIZES[s]);
            let v = if v == 3 { arr16(&k[..16]) } else { iv(v) };
            let mut pt = related_plain(rel, &k, &v, n + 1);
            pt.extend_from_slice(&v[..[0, 1, 15][more]]);
            let cut = (cut * 16).min(pt.len());
            let mut e = Enc::keyed(v, &k, cx)?;
            e.write(&pt[..cut], cx)?;
            e.write(&pt[cut..], cx)?;
            e.flush(cx)
        },
    ));
    spaces.push(Space::new("related_messages", "two messages on one cipher, the second in each of 28 relations to the first, to its ciphertext, or to the IV; first of 0..=40 bytes", size([41, RELATIONS, 3]), |i, cx| {
        let [l, r, of] = dec(i, [41, RELATIONS, 3]);
        let k = key(0, 16);
        let v = iv(0);
        let pt = &base()[600..600 + l];
        let second = match of {
            0 => related(r, pt),
            1 => related(r, &model::encrypt(&RefAes::new(&k), &v, pt)),
            _ => related(r, &v),
        };
        let mut e = Enc::keyed(v, &k, cx)?;
        e.write(pt, cx)?;
        e.flush(cx)?;
        e.write(&second, cx)?;
        e.flush(cx)
    }));
    Check {
        id: "C11",
        spaces,
        assumptions: assumptions(),
        bounds: format!("every one-write length to {}, every two-way cut to 2x{}, every operation sequence to the stated depth; single writes up to 1 MiB", ml, cut),
    }
}

const REL: usize = 14;

/// A plaintext of `n` blocks in which every block stands in relation `rel` to
/// something CBC has at hand when it gets there: the chaining value (IV or last
/// ciphertext block), the block before, the key.
fn related_plain(rel: usize, k: &[u8], v: &[u8; 16], n: usize) -> Vec<u8> {
    let m = RefAes::new(k);
    let (mut prev, mut last) = (*v, arr16(&stream(52, 16)));
    let mut pt = vec![];
    for j in 0..n {
        let mut b = match rel {
            0 => prev,
            1 => last,
            2 => *v,
            3 => arr16(&k[..16]),
            4 => arr16(&k[k.len() - 16..]),
            5 => m.decrypt(&prev),
            6 => prev.map(|x| !x),
            7 => m.encrypt(&prev),
            8 if j % 2 == 0 => last,
            8 => prev,
            9 => [0; 16],
            10 => m.round_keys()[1],
            11 => [16; 16],
            12 => m.decrypt(v),
            _ => arr16(&[&prev[..8], &last[..8]].concat()),
        };
        // 5 and 12: so that the cipher's output equals the chaining value, or the IV
        if rel == 5 || rel == 12 {
            for i in 0..16 {
                b[i] ^= prev[i];
            }
        }
        pt.extend_from_slice(&b);
        last = b;
        let mut x = b;
        for i in 0..16 {
            x[i] ^= prev[i];
        }
        prev = m.encrypt(&x);
    }
    pt
}

/// Ciphertext of consecutive messages of one cipher.
fn messages(k: &RefAes, v: [u8; 16], lens: &[usize], s: u64) -> Vec<(Vec<u8>, Vec<u8>)> {
    let mut chain = v;
    let mut at = 0;
    let all = stream(s, lens.iter().sum());
    lens.iter()
        .map(|&l| {
            let pt = all[at..at + l].to_vec();
            at += l;
            let ct = model::encrypt(k, &chain, &pt);
            chain = arr16(&ct[ct.len() - 16..]);
            (pt, ct)
        })
        .collect()
}

/// Feed `ct` cut at `sizes` (repeated), then end the message.
fn feed(dc: &mut Dec, ct: &[u8], pt: &[u8], sizes: &[usize], cx: &mut Cx) -> R {
    let mut at = 0;
    let mut k = 0;
    while at < ct.len() {
        let n = sizes[k % sizes.len()].min(ct.len() - at);
        if n == 0 && sizes.iter().all(|&s| s == 0) {
            return Err("HARNESS empty cut list".into());
        }
        dc.write(&ct[at..at + n], cx)?;
        at += n;
        k += 1;
    }
    if !dc.flush(cx)? {
        return Err("HARNESS model refused a well-formed message".into());
    }
    let _ = pt;
    Ok(())
}

pub fn c12(t: Tier) -> Check {
    let mut spaces = vec![];
    let ml = t.pick(700usize, 4200);
    spaces.push(Space::new("lengths", format!("every plaintext length 0..={} x 3 key sizes x 8 contents x 2 IVs, ciphertext in one write", ml), size([ml + 1, 3, 8, 2]), move |i, cx| {
        let [l, k, p, v] = dec(i, [ml + 1, 3, 8, 2]);
        let key = key(0, KEY_SIZES[k]);
        let pt = pat(p, l);
        let v = iv(v);
        let ct = model::encrypt(&RefAes::new(&key), &v, &pt);
        // Against the definition, not the step model.
        let mut d = api::Decipher::new(v);
        let _ = d.init(&key);
        let mut all = d.write(&ct).map_err(|e| format!("write failed: {:?}", e))?;
        all.extend(d.flush().map_err(|e| format!("flush of a well-formed message of {} bytes failed: {:?}", l, e))?);
        cx.eq(&format!("plaintext of {} bytes", l), &all, &pt)?;
        let mut d = Dec::keyed(v, &key, cx)?;
        feed(&mut d, &ct, &pt, &[1000], cx)
    }));
    let cut = t.pick(208usize, 336);
    spaces.push(Space::new("two_writes", format!("every ciphertext of 16..={} bytes x every cut in two", cut), size([cut / 16, cut + 1]), move |i, cx| {
        let [b, a] = dec(i, [cut / 16, cut + 1]);
        let n = (b + 1) * 16;
        if a > n {
            return Ok(());
        }
        for l in [n - 16, n - 9, n - 1] {
            let key = key(0, KEY_SIZES[b % 3]);
            let (pt, ct) = messages(&RefAes::new(&key), iv(0), &[l], 60).remove(0);
            let mut d = Dec::keyed(iv(0), &key, cx)?;
            d.write(&ct[..a], cx)?;
            d.write(&ct[a..], cx)?;
            if !d.flush(cx)? {
                return Err("HARNESS".into());
            }
            let _ = pt;
        }
        Ok(())
    }));
    let c3 = t.pick(112usize, 160);
    spaces.push(Space::new("three_writes", format!("every cut of a {}-byte ciphertext in three", c3), size([c3 + 1, c3 + 1]), move |i, cx| {
        let [a, b] = dec(i, [c3 + 1, c3 + 1]);
        if b < a {
            return Ok(());
        }
        let key = key(0, 16);
        let (_, ct) = messages(&RefAes::new(&key), iv(0), &[c3 - 3], 61).remove(0);
        let mut d = Dec::keyed(iv(0), &key, cx)?;
        d.write(&ct[..a], cx)?;
        d.write(&ct[a..b], cx)?;
        d.write(&ct[b..], cx)?;
        d.flush(cx).map(|_| ())
    }));
    let dmax = t.pick(5usize, 6);
    const LENS: [usize; 5] = [0, 15, 16, 31, 77];
    spaces.push(Space::new(
        "write_sequences",
        format!("ciphertexts of messages of {:?} bytes fed with every sequence of up to {} chunk sizes from {:?} (then the rest), flush", LENS, dmax, CUTS),
        seq_count(CUTS.len(), dmax) * LENS.len() as u64,
        move |i, cx| {
            let mut s = vec![];
            seq_at(i / LENS.len() as u64, CUTS.len(), dmax, &mut s);
            let key = key(0, KEY_SIZES[s.len() % 3]);
            let (_, ct) = messages(&RefAes::new(&key), iv(0), &[LENS[i as usize % LENS.len()]], 62).remove(0);
            let mut d = Dec::keyed(iv(0), &key, cx)?;
            let mut at = 0;
            for &c in &s {
                let n = CUTS[c].min(ct.len() - at);
                d.write(&ct[at..at + n], cx)?;
                at += n;
            }
            d.write(&ct[at..], cx)?;
            d.flush(cx).map(|_| ())
        },
    ));
    const SL: [usize; 6] = [0, 3, 15, 16, 32, 45];
    const CH: [&[usize]; 7] = [&[1000], &[1], &[16], &[15], &[17, 3], &[0, 31, 1], &[32, 16]];
    let msgs = 4usize;
    spaces.push(Space::new(
        "sessions",
        format!("every session of up to {} messages with lengths from {:?} x 7 chunkings x every switch of chunking per message", msgs, SL),
        seq_count(SL.len() * CH.len(), msgs),
        move |i, cx| {
            let mut s = vec![];
            seq_at(i, SL.len() * CH.len(), msgs, &mut s);
            let key = key(0, KEY_SIZES[s.len() % 3]);
            let lens: Vec<usize> = s.iter().map(|x| SL[x / CH.len()]).collect();
            let ms = messages(&RefAes::new(&key), iv(0), &lens, 63);
            let mut d = Dec::keyed(iv(0), &key, cx)?;
            for (k, (pt, ct)) in ms.iter().enumerate() {
                feed(&mut d, ct, pt, CH[s[k] % CH.len()], cx)?;
            }
            Ok(())
        },
    ));
    let mut big: Vec<usize> = vec![];
    for c in [256usize, 512, 1024, 4096, 8192, 16384, 32768, 65536] {
        big.extend([c - 17, c - 16, c - 15, c - 1, c, c + 1, c + 15, c + 16]);
    }
    big.extend([(1 << 20) - 1, 1 << 20, (1 << 20) + 1]);
    let nb = big.len();
    spaces.push(Space::new("big_writes", format!("messages of {:?} bytes, ciphertext in one write, after one byte, and all but the last byte first", big), size([nb, 3]), move |i, cx| {
        let [b, k] = dec(i, [nb, 3]);
        let key = key(0, KEY_SIZES[b % 3]);
        let (_, ct) = messages(&RefAes::new(&key), iv(0), &[big[b]], 64).remove(0);
        let mut d = Dec::keyed(iv(0), &key, cx)?;
        let at = [0, 1, ct.len() - 1][k];
        d.write(&ct[..at], cx)?;
        d.write(&ct[at..], cx)?;
        d.flush(cx).map(|_| ())
    }));
    let nf = t.pick(3, FAR.len());
    spaces.push(Space::new("far_writes", format!("ciphertext in a write of {:?} bytes, then one of 0, 1 or 15, then one of {:?}, then the rest", &FAR[..nf], LARGE), size([nf, 3, LARGE.len()]), move |i, cx| {
        let [f, o, l] = dec(i, [nf, 3, LARGE.len()]);
        let key = key(0, KEY_SIZES[l % 3]);
        let (f, o, l) = (FAR[f], [0, 1, 15][o], LARGE[l]);
        let (_, ct) = messages(&RefAes::new(&key), iv(0), &[f + o + l], 64).remove(0);
        let mut d = Dec::keyed(iv(0), &key, cx)?;
        for (a, b) in [(0, f), (f, f + o), (f + o, f + o + l), (f + o + l, ct.len())] {
            d.write(&ct[a..b], cx)?;
        }
        d.flush(cx).map(|_| ())
    }));
    let ms = mags(1, t.pick(1 << 22, 1 << 24));
    let nm = ms.len();
    spaces.push(Space::new("magnitudes", format!("{} plaintext sizes of every magnitude to 2^{}, ciphertext in one write or in a short and a long one; and ciphertexts fed byte by byte (to 2^17)", nm, t.pick(22, 24)), size([nm, 3]), move |i, cx| {
        let [m, k] = dec(i, [nm, 3]);
        if k == 2 && ms[m] > 140_000 {
            return Ok(());
        }
        let key = key(0, KEY_SIZES[m % 3]);
        let ct = model::encrypt(&RefAes::new(&key), &iv(0), &long(ms[m]));
        let mut d = Dec::keyed(iv(0), &key, cx)?;
        if k == 2 {
            for b in ct.chunks(1) {
                d.write(b, cx)?;
            }
        } else {
            d.write(&ct[..5 * k], cx)?;
            d.write(&ct[5 * k..], cx)?;
        }
        d.flush(cx).map(|_| ())
    }));
    spaces.push(
        Space::new("long_stream", format!("one ciphertext of {} bytes: in writes of 1 MiB less a byte; and its first {} in one write", stream_len(t), ONE_WRITE), 2, move |i, cx| {
            let (k, v) = (key(0, KEY_SIZES[i as usize]), iv(0));
            let (model, mut d) = (RefAes::new(&k), api::Decipher::new(v));
            d.init(&k).map_err(|e| format!("init said {:?}", e))?;
            // Any whole number of blocks deciphers to something; a last block
            // that ends the message is added.
            let total = if i == 0 { stream_len(t) } else { ONE_WRITE } / 16 * 16 + 16;
            let piece = &base()[..(1 << 20) - 1];
            let mut got = Stream::new(v);
            let mut done = 0u64;
            let last = std::cell::Cell::new([0u8; 16]);
            let feed = |d: &mut api::Decipher, got: &mut Stream, b: &[u8]| -> R {
                let out = d.write(b).map_err(|e| format!("write after {} bytes said {:?}", got.at + got.ct.len() as u64, e))?;
                got.ct.extend_from_slice(b);
                got.pt.extend_from_slice(&out);
                let joined = [&last.get(), &b[b.len() - b.len().min(16)..]].concat();
                last.set(joined[joined.len() - 16..].try_into().unwrap());
                got.judge(&model, false, "plaintext")
            };
            if i == 1 {
                feed(&mut d, &mut got, &long(total as usize))?;
                done = total;
            }
            while done < total {
                let n = (total - done).min(piece.len() as u64) as usize;
                feed(&mut d, &mut got, &piece[..n])?;
                done += n as u64;
            }
            let end = [16u8; 16];
            let mut x = end;
            for j in 0..16 {
                x[j] ^= last.get()[j];
            }
            let tail = model.encrypt(&x);
            feed(&mut d, &mut got, &tail)?;
            d.flush().map_err(|e| format!("flush said {:?}", e)).and_then(|o| {
                got.pt.extend_from_slice(&o);
                // The ending block is padding through and through.
                got.pt.extend_from_slice(&end);
                got.judge(&model, true, "plaintext")
            })?;
            cx.state(&(i, total, 30));
            Ok(())
        })
        .heavy(800),
    );
    let many = t.pick(70_000usize, 700_000);
    spaces.push(Space::new("many_messages", format!("one decipher, {} messages of 0, 1 or 16 bytes in a row", many), 3, move |i, cx| {
        let key = key(0, 16);
        let ms = messages(&RefAes::new(&key), iv(0), &vec![[0, 1, 16][i as usize]; many], 66);
        let mut d = Dec::keyed(iv(0), &key, cx)?;
        for (_, ct) in &ms {
            d.write(ct, cx)?;
            d.flush(cx)?;
        }
        Ok(())
    }));
    let reps = t.pick(400usize, 20_000);
    spaces.push(Space::new("long_sessions", format!("one decipher, {} messages in a row, for 40 message lengths x 3 key sizes x 3 chunkings", reps), size([40, 3, 3]), move |i, cx| {
        let [l, k, c] = dec(i, [40, 3, 3]);
        let key = key(0, KEY_SIZES[k]);
        let lens = vec![l; reps];
        let ms = messages(&RefAes::new(&key), iv(0), &lens, 65);
        let mut d = Dec::keyed(iv(0), &key, cx)?;
        for (pt, ct) in &ms {
            feed(&mut d, ct, pt, [&[1000usize][..], &[15], &[7, 16]][c], cx)?;
        }
        Ok(())
    }));
    spaces.push(Space::new("iv_and_block_bytes", "every position x every value of the IV, and of a two-block plaintext", 48 * 256, |i, cx| {
        let (p, v) = ((i / 256) as usize, i as u8);
        let mut x = iv(0);
        let mut pt = stream(50, 32);
        if p < 16 {
            x[p] = v
        } else {
            pt[p - 16] = v
        }
        let key = key(0, 16);
        let ct = model::encrypt(&RefAes::new(&key), &x, &pt);
        let mut d = Dec::keyed(x, &key, cx)?;
        feed(&mut d, &ct, &pt, &[20], cx)
    }));
    spaces.push(Space::new("padding_like", "plaintexts of 0..=48 bytes ending in k bytes of value v, for every v in 0..=17 and k in 0..=17, one write and block by block", size([49, 18, 18, 2]), |i, cx| {
        let [l, v, k, w] = dec(i, [49, 18, 18, 2]);
        let mut pt = stream(51, l);
        for x in pt.iter_mut().rev().take(k) {
            *x = v as u8;
        }
        let key = key(0, 32);
        let ct = model::encrypt(&RefAes::new(&key), &iv(0), &pt);
        let mut d = Dec::keyed(iv(0), &key, cx)?;
        feed(&mut d, &ct, &pt, [&[1000usize][..], &[16]][w], cx)
    }));
    let rt = t.pick(100usize, 300);
    spaces.push(Space::new("round_trip", format!("real cipher to real decipher: message lengths 0..={} x 7 x 7 chunkings, two messages", rt), size([rt + 1, 7, 7]), move |i, cx| {
        let [l, a, b] = dec(i, [rt + 1, 7, 7]);
        let key = key(2, KEY_SIZES[l % 3]);
        let mut c = api::Cipher::new(iv(3));
        let mut d = api::Decipher::new(iv(3));
        c.init(&key).map_err(|e| format!("init: {:?}", e))?;
        d.init(&key).map_err(|e| format!("init: {:?}", e))?;
        for m in 0..2usize {
            let pt = &base()[m * 500..m * 500 + l];
            let mut ct = vec![];
            let (mut at, mut k) = (0, 0);
            while at < pt.len() {
                let n = CH[a][k % CH[a].len()].min(pt.len() - at);
                ct.extend(c.write(&pt[at..at + n]).map_err(|e| format!("write: {:?}", e))?);
                at += n;
                k += 1;
            }
            ct.extend(c.flush().map_err(|e| format!("flush: {:?}", e))?);
            let mut back = vec![];
            let (mut at, mut k) = (0, 0);
            while at < ct.len() {
                let n = CH[b][k % CH[b].len()].min(ct.len() - at);
                back.extend(d.write(&ct[at..at + n]).map_err(|e| format!("write: {:?}", e))?);
                at += n;
                k += 1;
            }
            back.extend(d.flush().map_err(|e| format!("Decipher::flush of message {} ({} bytes): {:?}", m, l, e))?);
            cx.eq(&format!("round trip of message {} ({} bytes)", m, l), &back, pt)?;
        }
        Ok(())
    }));
    spaces.push(Space::new("texts", "plaintexts with each of 52 marks, line ends, encodings and delimiters in 7 places of 5 lengths", TEXTED as u64, |i, cx| {
        let pt = texted(i as usize);
        let key = key(0, 32);
        let ct = model::encrypt(&RefAes::new(&key), &iv(0), &pt);
        let mut d = Dec::keyed(iv(0), &key, cx)?;
        feed(&mut d, &ct, &pt, &[1000], cx)
    }));
    spaces.push(Space::new("ends", "every pair of first two and of last two bytes of plaintexts of 3, 14, 16 and 31 bytes, of the IV, and of keys of 16, 24 and 32 bytes", size([7, ENDS]), |i, cx| {
        let [w, e] = dec(i, [7, ENDS]);
        if w > 2 && e >> 17 == 0 {
            return Ok(()); // no keys or IVs of 3 bytes
        }
        let x = ends(e, [14, 16, 31, 16, 16, 24, 32][w]);
        let pt = if w < 3 { x.clone() } else { b"seventeen bytes..".to_vec() };
        let v = if w == 3 { arr16(&x) } else { iv(0) };
        let k = if w > 3 { x } else { key(0, 16) };
        let ct = model::encrypt(&RefAes::new(&k), &v, &pt);
        let mut d = Dec::keyed(v, &k, cx)?;
        feed(&mut d, &ct, &pt, &[1000], cx)
    }));
    spaces.push(Space::new(
        "related",
        "messages whose plaintext blocks stand in 14 relations to IV, chaining value, block before and key (as in C11), 1..=4 blocks and 0, 1 or 15 bytes more, x 4 IVs x 3 key sizes x cuts at every block",
        size([REL, 4, 3, 4, 3, 5]),
        |i, cx| {
            let [rel, v, s, n, more, cut] = dec(i, [REL, 4, 3, 4, 3, 5]);
            let k = key(0, KEY_SIZES[s]);
            let v = if v == 3 { arr16(&k[..16]) } else { iv(v) };
            let mut pt = related_plain(rel, &k, &v, n + 1);
            pt.extend_from_slice(&v[..[0, 1, 15][more]]);
            let ct = model::encrypt(&RefAes::new(&k), &v, &pt);
            let cut = (cut * 16).min(ct.len());
            let mut d = Dec::keyed(v, &k, cx)?;
            d.write(&ct[..cut], cx)?;
            feed(&mut d, &ct[cut..], &pt, &[1000], cx)
        },
    ));
    spaces.push(Space::new(
        "repeated_cipher_blocks",
        "ciphertexts of 1..=4 blocks followed by a padding block, each block one of: the IV, the key, zeros, another block; all combinations, all cuts into two at a block",
        size([4, 4, 4, 4, 4, 6]),
        |i, cx| {
            let [n, a, b, c, e, cut] = dec(i, [4, 4, 4, 4, 4, 6]);
            let k = key(0, 16);
            let v = iv(0);
            let m = RefAes::new(&k);
            let mut ct: Vec<u8> = vec![];
            for x in [a, b, c, e].into_iter().take(n + 1) {
                ct.extend_from_slice(&[v, arr16(&k), [0; 16], arr16(&stream(53, 16))][x]);
            }
            let mut last = [16u8; 16];
            for j in 0..16 {
                last[j] ^= ct[ct.len() - 16 + j];
            }
            ct.extend_from_slice(&m.encrypt(&last));
            let cut = (cut * 16).min(ct.len());
            let mut d = Dec::keyed(v, &k, cx)?;
            d.write(&ct[..cut], cx)?;
            feed(&mut d, &ct[cut..], &[], &[1000], cx)
        },
    ));
    Check {
        id: "C12",
        spaces,
        assumptions: assumptions(),
        bounds: format!("every message length to {}, every two-way cut to {} bytes, sessions of up to {} messages exhaustively over the alphabet", ml, cut, msgs),
    }
}

/// A message whose decrypted blocks are exactly `blocks`; then flush.
fn finish(cx: &mut Cx, kvar: usize, v: [u8; 16], blocks: &[u8], chunks: &[usize]) -> Result<Dec, String> {
    let key = key(0, KEY_SIZES[kvar]);
    let ct = model::encrypt_blocks(&RefAes::new(&key), &v, blocks);
    let mut d = Dec::keyed(v, &key, cx)?;
    let (mut at, mut k) = (0, 0);
    while at < ct.len() {
        let n = chunks[k % chunks.len()].min(ct.len() - at);
        d.write(&ct[at..at + n], cx)?;
        at += n;
        k += 1;
    }
    d.flush(cx)?;
    Ok(d)
}

pub fn c13(t: Tier) -> Check {
    let mut spaces = vec![];
    spaces.push(Space::new(
        "pad_byte",
        "last byte v = 0..=255, preceded by k = 0..=15 equal bytes, over 4 backgrounds, with 0..=2 blocks before, 3 key sizes",
        size([256, 16, 4, 3, 3]),
        |i, cx| {
            let [v, k, bg, before, ks] = dec(i, [256, 16, 4, 3, 3]);
            let mut b = [0u8; 16];
            b.copy_from_slice(&match bg {
                0 => stream(70, 16),
                1 => vec![0; 16],
                2 => vec![0xff; 16],
                _ => vec![16; 16],
            });
            for x in b.iter_mut().rev().take(k + 1) {
                *x = v as u8;
            }
            let mut m = stream(71, before * 16);
            m.extend_from_slice(&b);
            finish(cx, ks, iv(0), &m, &[1000]).map(|_| ())
        },
    ));
    let mut pos = vec![];
    for n in 1..=16usize {
        for j in 0..16usize {
            pos.push((n, j));
        }
    }
    let np = pos.len();
    let p1 = pos.clone();
    spaces.push(Space::new(
        "one_wrong_byte",
        "valid padding of n = 1..=16 with one byte of the block replaced by every value, at every position, with 0 or 1 block before",
        size([np, 256, 2]),
        move |i, cx| {
            let [p, v, before] = dec(i, [np, 256, 2]);
            let (n, j) = p1[p];
            let mut m = stream(72, before * 16 + 16);
            let l = m.len();
            for x in m[l - n..].iter_mut() {
                *x = n as u8;
            }
            m[l - 16 + j] = v as u8;
            finish(cx, (n + j) % 3, iv(0), &m, &[16]).map(|_| ())
        },
    ));
    let mut pairs = vec![];
    for n in 2..=16usize {
        for a in 16 - n..15 {
            for b in a + 1..16 {
                pairs.push((n, a, b));
            }
        }
    }
    let nq = pairs.len();
    spaces.push(Space::new(
        "two_wrong_bytes",
        "padding of n = 2..=16 with two bytes wrong, every pair of positions x every difference d x {xor d both, +d/-d, xor d and xor 255-d, xor d and xor 2d}",
        size([nq, 255, 4]),
        move |i, cx| {
            let [p, d, k] = dec(i, [nq, 255, 4]);
            let (n, a, b) = pairs[p];
            let d = d as u8 + 1;
            let mut m = stream(73, 16);
            for x in m[16 - n..].iter_mut() {
                *x = n as u8;
            }
            let y = match k {
                0 => m[b] ^ d,
                1 => m[b].wrapping_sub(d),
                2 => m[b] ^ (255 - d),
                _ => m[b] ^ d.wrapping_mul(2),
            };
            m[a] = if k == 1 { m[a].wrapping_add(d) } else { m[a] ^ d };
            m[b] = y;
            finish(cx, 0, iv(0), &m, &[16]).map(|_| ())
        },
    ));
    spaces.push(Space::new("three_wrong_bytes", "padding of 4, 8 and 16 bytes with three bytes wrong whose differences cancel under xor", size([3, 2, 255, 16]), |i, cx| {
        let [n, s, d, e] = dec(i, [3, 2, 255, 16]);
        let n = [4usize, 8, 16][n];
        let (d, e) = (d as u8 + 1, 1u8 << (e % 8));
        let mut m = stream(74, 16);
        for x in m[16 - n..].iter_mut() {
            *x = n as u8;
        }
        let at = 16 - n + s % (n - 3);
        m[at] ^= d;
        m[at + 1] ^= e;
        m[at + 2] ^= d ^ e;
        finish(cx, 1, iv(0), &m, &[16]).map(|_| ())
    }));
    spaces.push(Space::new("last_two_bytes", "every value of the last two bytes over 4 backgrounds", size([65536, 4]), |i, cx| {
        let [v, bg] = dec(i, [65536, 4]);
        let mut m = match bg {
            0 => stream(75, 16),
            1 => vec![0; 16],
            2 => vec![2; 16],
            _ => vec![16; 16],
        };
        m[14] = (v >> 8) as u8;
        m[15] = v as u8;
        finish(cx, 0, iv(0), &m, &[16]).map(|_| ())
    }));
    let ml = t.pick(130usize, 260);
    spaces.push(Space::new(
        "truncations",
        format!("messages of 0..={} bytes, ciphertext cut to every length, 4 chunkings; then the rest is sent and the message finished", ml),
        size([ml + 1, ml + 17, 4]),
        move |i, cx| {
            let [l, cut, c] = dec(i, [ml + 1, ml + 17, 4]);
            let key = key(0, KEY_SIZES[l % 3]);
            let (_, ct) = messages(&RefAes::new(&key), iv(0), &[l], 76).remove(0);
            if cut > ct.len() {
                return Ok(());
            }
            let chunk = [1000usize, 1, 7, 16][c];
            let mut d = Dec::keyed(iv(0), &key, cx)?;
            for x in ct[..cut].chunks(chunk) {
                d.write(x, cx)?;
            }
            if d.flush(cx)? != (cut == ct.len()) {
                // A shorter prefix may by chance end in valid padding; the model
                // knows. Start over in that case.
                return Ok(());
            }
            if cut < ct.len() {
                d.write(&ct[cut..], cx)?;
                d.flush(cx)?;
            }
            d.flush(cx)?;
            Ok(())
        },
    ));
    // Sessions of well-formed and malformed messages.
    const KINDS: usize = 12;
    fn blocks_of(kind: usize, s: u64) -> (Vec<u8>, usize) {
        // decrypted blocks, ciphertext bytes withheld
        let mut b = stream(s, 32);
        let set = |b: &mut Vec<u8>, n: usize, v: u8| {
            let l = b.len();
            for x in b[l - n..].iter_mut() {
                *x = v
            }
        };
        match kind {
            0 => {
                set(&mut b, 5, 5);
                (b, 0)
            }
            1 => {
                b.truncate(16);
                set(&mut b, 16, 16);
                (b, 0)
            }
            2 => {
                set(&mut b, 1, 1);
                (b, 0)
            }
            3 => {
                set(&mut b, 1, 0);
                (b, 0)
            }
            4 => {
                set(&mut b, 17, 17);
                (b, 0)
            }
            5 => {
                set(&mut b, 5, 5);
                b[28] ^= 0x40;
                (b, 0)
            }
            6 => {
                b.truncate(16);
                set(&mut b, 16, 16);
                b[0] = 0;
                (b, 0)
            }
            7 => {
                set(&mut b, 4, 4);
                (b, 1)
            }
            8 => {
                set(&mut b, 4, 4);
                (b, 15)
            }
            9 => {
                b[15] = 0x55;
                (b, 16)
            }
            10 => (vec![], 0),
            _ => {
                set(&mut b, 16, 0);
                (b, 0)
            }
        }
    }
    let depth = t.pick(5usize, 6);
    spaces.push(Space::new(
        "sessions",
        format!("every session of up to {} messages out of 12 kinds (3 well-formed, pad byte 0, pad byte 17, wrong inner byte, wrong first byte, 1/15/16 bytes missing, empty, all zero) x 2 chunkings", depth),
        seq_count(KINDS, depth) * 2,
        move |i, cx| {
            let mut s = vec![];
            seq_at(i / 2, KINDS, depth, &mut s);
            let chunk = [1000usize, 5][i as usize % 2];
            let k = key(0, 16);
            let r = RefAes::new(&k);
            let mut chain = iv(0);
            let mut d = Dec::keyed(chain, &k, cx)?;
            for (n, &kind) in s.iter().enumerate() {
                let (b, missing) = blocks_of(kind, 80 + n as u64);
                let ct = model::encrypt_blocks(&r, &chain, &b);
                let sent = &ct[..ct.len() - missing];
                if sent.len() >= 16 {
                    let w = sent.len() / 16 * 16;
                    chain = arr16(&sent[w - 16..w]);
                }
                for x in sent.chunks(chunk) {
                    d.write(x, cx)?;
                }
                d.flush(cx)?;
                d.flush(cx)?;
            }
            Ok(())
        },
    ));
    spaces.push(Space::new(
        "tampering",
        "three-block message: every byte of IV and ciphertext replaced by every value",
        64 * 256,
        |i, cx| {
            let (p, v) = ((i / 256) as usize, i as u8);
            let k = key(0, 16);
            let mut ivv = iv(0);
            let (_, mut ct) = messages(&RefAes::new(&k), ivv, &[41], 90).remove(0);
            if p < 16 {
                ivv[p] = v
            } else {
                ct[p - 16] = v
            }
            let mut d = Dec::keyed(ivv, &k, cx)?;
            d.write(&ct, cx)?;
            d.flush(cx)?;
            Ok(())
        },
    ));
    spaces.push(Space::new("wrong_key", "messages of 0..=40 bytes deciphered with each of 4 other keys of each size", size([41, 3, 4]), |i, cx| {
        let [l, ks, var] = dec(i, [41, 3, 4]);
        let (_, ct) = messages(&RefAes::new(&key(0, KEY_SIZES[ks])), iv(0), &[l], 91).remove(0);
        let mut d = Dec::keyed(iv(0), &key(var + 1, KEY_SIZES[(ks + var) % 3]), cx)?;
        d.write(&ct, cx)?;
        d.flush(cx)?;
        Ok(())
    }));
    let mut huge: Vec<usize> = vec![255, 256, 257, 271, 272, 4095, 4096, 4097, 65_535, 65_536, 65_537, 65_552, (1 << 20) + 1, 1 << 20];
    if t.thorough() {
        huge.extend([(1 << 21) - 16, (1 << 21) - 15, 100_001]);
    }
    let nh = huge.len();
    spaces.push(Space::new("long_truncations", format!("ciphertext prefixes of {:?} bytes in one write and in 1000-byte writes", huge), size([nh, 2]), move |i, cx| {
        let [h, c] = dec(i, [nh, 2]);
        let k = key(0, 16);
        let (_, ct) = messages(&RefAes::new(&k), iv(0), &[huge[h] + 100], 92).remove(0);
        let mut d = Dec::keyed(iv(0), &k, cx)?;
        for x in ct[..huge[h]].chunks([1 << 22, 1000][c]) {
            d.write(x, cx)?;
        }
        d.flush(cx)?;
        Ok(())
    }));
    let many = t.pick(70_000usize, 1_000_000);
    spaces.push(Space::new("many_rejected", format!("one decipher, a message that is rejected in each of 7 ways, finished {} times in a row; and {} such messages one after the other", many, many), size([7, 2]), move |i, cx| {
        let [kind, again] = dec(i, [7, 2]);
        let k = key(0, 16);
        let model = RefAes::new(&k);
        let mut e = Dec::keyed(iv(0), &k, cx)?;
        let mut last = base()[200..216].to_vec();
        match kind {
            0 => last.iter_mut().skip(1).for_each(|x| *x = 16),
            1 => last[15] = 2,
            2 => last[15] = 0,
            3 => last[15] = 17,
            4 => last[8..].copy_from_slice(&[8, 8, 8, 8, 7, 8, 8, 8]),
            _ => {}
        }
        for n in 0..many {
            if n == 0 || again == 1 {
                let prev = arr16(&e.m.chain);
                let ct = model::encrypt_blocks(&model, &prev, &last);
                match kind {
                    5 if n == 0 => drop(e.write(&ct[..5], cx)?),
                    5 => drop(e.write(&ct, cx)?),
                    6 => {}
                    _ => drop(e.write(&ct, cx)?),
                }
            }
            if e.flush(cx)? {
                return Err("a message without padding was finished".into());
            }
        }
        Ok(())
    }));
    Check {
        id: "C13",
        spaces,
        assumptions: assumptions(),
        bounds: "padding blocks: every one-byte error, every two-byte error with related differences, every last-two-byte value; every truncation to the stated length; sessions to the stated depth".into(),
    }
}

const BAD_KEYS: [usize; 4] = [0, 15, 17, 33];

pub fn c14(t: Tier) -> Check {
    let mut spaces = vec![];
    let d = t.pick(6usize, 7);
    spaces.push(Space::new(
        "cipher",
        format!("cipher without a key: every sequence of up to {} operations out of init 16, init 32, init with a refused key (0 or 17 bytes), write 0, 1, 15, 16, 33 bytes, flush; then init, write, flush", d),
        seq_count(10, d),
        move |i, cx| {
            let mut s = vec![];
            seq_at(i, 10, d, &mut s);
            let mut e = Enc::bare(iv(0));
            let mut at = 0;
            for &c in &s {
                match c {
                    0 => e.init(&key(0, 16), 1, cx)?,
                    1 => e.init(&key(0, 32), 2, cx)?,
                    2 => e.init(&[], 9, cx)?,
                    3 => e.init(&key(1, 32)[..17], 9, cx)?,
                    4..=8 => {
                        let n = [0, 1, 15, 16, 33][c - 4];
                        e.write(&base()[at..at + n], cx)?;
                        at += n;
                    }
                    _ => e.flush(cx)?,
                }
            }
            if e.m.key.is_none() {
                e.init(&key(0, 24), 3, cx)?;
            }
            e.write(&base()[at..at + 20], cx)?;
            e.flush(cx)?;
            e.write(&base()[..16], cx)?;
            e.flush(cx)
        },
    ));
    // One tape of ciphertext blocks; under key 1 the decrypted blocks alternate
    // between valid padding of several kinds and malformed padding.
    fn tape() -> &'static [u8] {
        static T: std::sync::OnceLock<Vec<u8>> = std::sync::OnceLock::new();
        T.get_or_init(|| {
            let mut b = vec![];
            for k in 0..40usize {
                let mut x = stream(100 + k as u64, 16);
                match k % 6 {
                    0 => x[3..].iter_mut().for_each(|y| *y = 13),
                    1 => x[15] = 0,
                    2 => x.iter_mut().for_each(|y| *y = 16),
                    3 => {
                        x[14] = 3;
                        x[15] = 2
                    }
                    4 => x[15] = 1,
                    _ => x.iter_mut().for_each(|y| *y = 17),
                }
                b.extend(x);
            }
            model::encrypt_blocks(&RefAes::new(&key(0, 16)), &iv(0), &b)
        })
    }
    for skip in [false, true] {
        spaces.push(Space::new(
            if skip { "decipher_moving_on" } else { "decipher_retrying" },
            format!(
                "decipher without a key over a tape of good and malformed final blocks ({}): every sequence of up to {} operations out of init (right key), init (other key), init with a refused key (0 or 33 bytes), write 0, 1, 15, 16, 33 bytes, flush; then init, write, flush",
                if skip { "refused data is skipped" } else { "refused data is sent again" },
                d
            ),
            seq_count(10, d),
            move |i, cx| {
                let mut s = vec![];
                seq_at(i, 10, d, &mut s);
                let mut e = Dec::bare(iv(0));
                let mut at = 0;
                for &c in &s {
                    match c {
                        0 => e.init(&key(0, 16), 1, cx)?,
                        1 => e.init(&key(0, 32), 2, cx)?,
                        2 => e.init(&[], 9, cx)?,
                        3 => e.init(&[7; 33], 9, cx)?,
                        4..=8 => {
                            let n = [0, 1, 15, 16, 33][c - 4];
                            if e.write(&tape()[at..at + n], cx)? || skip {
                                at += n;
                            }
                        }
                        _ => {
                            e.flush(cx)?;
                        }
                    }
                }
                if e.m.key.is_none() {
                    e.init(&key(0, 16), 1, cx)?;
                }
                for _ in 0..3 {
                    e.write(&tape()[at..at + 16], cx)?;
                    at += 16;
                    e.flush(cx)?;
                }
                Ok(())
            },
        ));
    }
    // Deeper, from keyed states, on the decipher's failure paths only.
    let dd = t.pick(8usize, 9);
    spaces.push(Space::new(
        "decipher_keyed",
        format!("keyed decipher: every sequence of up to {} operations out of write 1, 15, 16, 32 bytes of the tape, flush, init with a refused key", dd),
        seq_count(6, dd),
        move |i, cx| {
            let mut s = vec![];
            seq_at(i, 6, dd, &mut s);
            let mut e = Dec::keyed(iv(0), &key(0, 16), cx)?;
            let mut at = 0;
            for &c in &s {
                match c {
                    0..=3 => {
                        let n = [1, 15, 16, 32][c];
                        e.write(&tape()[at..at + n], cx)?;
                        at += n;
                    }
                    4 => {
                        e.flush(cx)?;
                    }
                    _ => e.init(&[1; 20], 9, cx)?,
                }
            }
            e.write(&tape()[at..at + 16], cx)?;
            e.flush(cx)?;
            Ok(())
        },
    ));
    let ml = t.pick(200usize, 400);
    spaces.push(Space::new(
        "retry_lengths",
        format!("cipher and decipher: data of every length 0..={} offered before a key is set, 1..=3 times, then key and the data again", ml),
        size([2, ml + 1, 3, 3]),
        move |i, cx| {
            let [side, l, times, ks] = dec(i, [2, ml + 1, 3, 3]);
            let k = key(0, KEY_SIZES[ks]);
            if side == 0 {
                let mut e = Enc::bare(iv(0));
                for _ in 0..=times {
                    e.write(&base()[..l], cx)?;
                    e.flush(cx)?;
                }
                e.init(&k, 1, cx)?;
                e.write(&base()[..l], cx)?;
                e.flush(cx)
            } else {
                let (_, ct) = messages(&RefAes::new(&k), iv(0), &[l], 93).remove(0);
                let mut e = Dec::bare(iv(0));
                let mut taken = false;
                for _ in 0..=times {
                    taken |= e.write(&ct, cx)?;
                    e.flush(cx)?;
                }
                e.init(&k, 1, cx)?;
                if !taken {
                    e.write(&ct, cx)?;
                }
                e.flush(cx)?;
                Ok(())
            }
        },
    ));
    let kl = t.pick(5000usize, 70_000);
    spaces.push(Space::new("refused_keys", format!("every refused key length 0..={} in the middle of a message, on cipher and decipher, before and after a key was set", kl), size([kl + 1, 2, 2]), move |i, cx| {
        let [n, side, keyed] = dec(i, [kl + 1, 2, 2]);
        if matches!(n, 16 | 24 | 32) {
            return Ok(());
        }
        let bad = stream(94, n);
        let k = key(0, 16);
        if side == 0 {
            let mut e = Enc::bare(iv(0));
            if keyed == 1 {
                e.init(&k, 1, cx)?;
                e.write(&base()[..20], cx)?;
            }
            e.init(&bad, 9, cx)?;
            e.write(&base()[20..40], cx)?;
            e.flush(cx)?;
            e.init(&k, 1, cx)?;
            e.write(&base()[40..60], cx)?;
            e.flush(cx)
        } else {
            let (_, ct) = messages(&RefAes::new(&k), iv(0), &[40], 95).remove(0);
            let mut e = Dec::bare(iv(0));
            let mut at = 0;
            if keyed == 1 {
                e.init(&k, 1, cx)?;
                e.write(&ct[..20], cx)?;
                at = 20;
            }
            e.init(&bad, 9, cx)?;
            if e.write(&ct[at..], cx)? {
                at = ct.len();
            }
            e.flush(cx)?;
            e.init(&k, 1, cx)?;
            e.write(&ct[at..], cx)?;
            e.flush(cx)?;
            Ok(())
        }
    }));
    let many = t.pick(70_000usize, 1_000_000);
    spaces.push(Space::new("many_refusals", format!("{} refused calls of one kind in a row (cipher or decipher; write 0, 16 or 33 bytes or flush without a key; init with 0, 17 or 300 bytes without a key and in the middle of a message; flush in the middle of a message), then a whole message", many), size([2, 11]), move |i, cx| {
        let [dec_, kind] = dec(i, [2, 11]);
        let k = key(0, 24);
        let ct = model::encrypt(&RefAes::new(&k), &iv(0), &base()[..70]);
        let (mut e, mut d, mut at) = (Enc::bare(iv(0)), Dec::bare(iv(0)), 0);
        if kind >= 7 {
            at = 37;
            e.init(&k, 1, cx)?;
            d.init(&k, 1, cx)?;
            e.write(&base()[..at], cx)?;
            d.write(&ct[..at], cx)?;
        }
        for _ in 0..many {
            match (kind, dec_) {
                (0..=2, 0) => e.write(&base()[..[0, 16, 33][kind]], cx)?,
                (0..=2, _) => drop(d.write(&ct[..[0, 16, 33][kind]], cx)?),
                (3, 0) => e.flush(cx)?,
                (3 | 10, 1) => drop(d.flush(cx)?),
                (10, _) => break,
                (_, 0) => e.init(&base()[..[0, 17, 300][(kind - 4) % 3]], 9, cx)?,
                _ => d.init(&base()[..[0, 17, 300][(kind - 4) % 3]], 9, cx)?,
            }
        }
        if kind < 7 {
            e.init(&k, 1, cx)?;
            d.init(&k, 1, cx)?;
        }
        e.write(&base()[at..70], cx)?;
        e.flush(cx)?;
        if dec_ == 1 && kind < 3 && !d.m.part.is_empty() {
            // Taken before there was a key; the message has other blocks then.
            d.flush(cx)?;
            return Ok(());
        }
        d.write(&ct[at..], cx)?;
        d.flush(cx)?;
        Ok(())
    }));
    let _ = BAD_KEYS;
    Check {
        id: "C14",
        spaces,
        assumptions: {
            let mut a = assumptions();
            a.push("Before a key is set a write may either fail without effect or be buffered and return nothing; both are followed exactly from then on.".into());
            a
        },
        bounds: format!("operation sequences to depth {} from the unkeyed state and {} from the keyed state", d, dd),
    }
}
