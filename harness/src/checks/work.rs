//! C25: how much work hashing and key derivation take is settled by the lengths
//! and numbers they are given, not by the bytes. Work is counted in executed
//! basic blocks of the optimised program.
use crate::api;
use crate::engine::*;
use crate::steps::steps;
use crate::trace::{path, Path};
use crate::util::*;
use dumb_crypto::{hmac::HMac, pbkdf2::pbkdf2_sha256, salsa20::salsa20, scrypt::Scrypt, sha256::SHA256};
use std::collections::HashMap;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Op {
    /// `a`, then `b`, in an update each.
    Sha,
    /// Key `a`, message `b`.
    Hmac,
    /// Password `a`, salt `b`.
    Pbkdf2 { c: usize },
    /// Input `a`.
    Salsa { rounds: usize },
    /// Passphrase `a`, salt `b`.
    Scrypt { r: usize, n: usize, p: usize },
}

#[derive(Clone, PartialEq, Eq, Hash)]
struct Input {
    op: Op,
    a: Vec<u8>,
    b: Vec<u8>,
    /// What is in the output buffer before.
    out: Vec<u8>,
}

type Class = (Op, usize, usize, usize);

impl Input {
    fn class(&self) -> Class {
        (self.op, self.a.len(), self.b.len(), self.out.len())
    }

    /// The input of the same lengths that others are compared with.
    fn plain(&self) -> Input {
        let s = |at: usize, n: usize| base()[at..at + n].to_vec();
        Input { op: self.op, a: s(10, self.a.len()), b: s(1000, self.b.len()), out: s(2000, self.out.len()) }
    }

    fn cost(&self) -> Path {
        let mut p = Path::default();
        self.call(|f| p = path(f).1);
        p
    }

    /// The same in instructions, a thousand times slower.
    fn instructions(&self) -> u64 {
        let mut n = 0;
        self.call(|f| n = steps(f).1);
        n
    }

    fn call(&self, under: impl FnOnce(&mut dyn FnMut())) {
        let mut out = self.out.clone();
        let (a, b) = (&self.a[..], &self.b[..]);
        under(&mut || match self.op {
            Op::Sha => {
                let mut s = SHA256::new();
                s.update(a);
                s.update(b);
                std::hint::black_box(s.digest());
            }
            Op::Hmac => {
                let mut s = HMac::new(a);
                s.update(b);
                std::hint::black_box(s.digest());
            }
            Op::Pbkdf2 { c } => pbkdf2_sha256(a, b, c, &mut out),
            Op::Salsa { rounds } => salsa20(a, rounds, &mut out),
            Op::Scrypt { r, n, p } => {
                let _ = std::hint::black_box(Scrypt::new(r, n, p).derive(a, b, &mut out));
            }
        });
        std::hint::black_box(out);
    }
}

/// Are two series of different work, whatever else varies in them?
fn apart(x: &[u64], y: &[u64]) -> bool {
    x.iter().max() < y.iter().min() || y.iter().max() < x.iter().min()
}

/// Paths differ. Does the work? `pair` gives the two inputs of the n-th trial.
fn confirm(pair: impl Fn(usize) -> (Input, Input)) -> Option<(u64, u64)> {
    // Taken in turns, so that neither is the one that was seen last. The first
    // trial is left out: something may have been set up in it.
    let (mut x, mut y) = (vec![], vec![]);
    for k in 0..12 {
        let (i, j) = pair(k);
        x.push(i.cost());
        y.push(j.cost());
    }
    if x[1..].iter().any(|p| y[1..].contains(p)) {
        return None;
    }
    let blocks = |s: &[Path]| s[1..].iter().map(|p| p.blocks).collect::<Vec<_>>();
    let (bx, by) = (blocks(&x), blocks(&y));
    if apart(&bx, &by) {
        return Some((bx[0], by[0]));
    }
    // As many blocks, but other ones. Not without end, though.
    static LEFT: AtomicU64 = AtomicU64::new(20_000);
    if LEFT.fetch_update(Relaxed, Relaxed, |n| n.checked_sub(1)).is_err() {
        return None;
    }
    let (mut x, mut y) = (vec![], vec![]);
    for k in 12..16 {
        let (i, j) = pair(k);
        x.push(i.instructions());
        y.push(j.instructions());
    }
    apart(&x[1..], &y[1..]).then(|| (x[1], y[1]))
}

fn judge(cx: &mut Cx, i: &Input) -> R {
    static KNOWN: Mutex<Option<HashMap<Class, Path>>> = Mutex::new(None);
    let class = i.class();
    let plain = i.plain();
    let known = KNOWN.lock().unwrap().get_or_insert_with(HashMap::new).get(&class).copied();
    let want = known.unwrap_or_else(|| {
        plain.cost();
        let x = plain.cost();
        KNOWN.lock().unwrap().as_mut().unwrap().insert(class, x);
        x
    });
    cx.state(i);
    cx.outcome(&(class, want));
    api::add_calls(1);
    if i.cost() == want {
        return Ok(());
    }
    match confirm(|_| (i.clone(), plain.clone())) {
        None => Ok(()),
        Some((x, y)) => Err(format!("{:?} with arguments {} and {} takes {} steps, with others of the same lengths {}", i.op, api::hex(&i.a), api::hex(&i.b), x, y)),
    }
}

/// Does the second time cost what the first one did?
fn again(cx: &mut Cx, op: Op, lens: [usize; 3], which: usize) -> R {
    let fresh = |k: usize| {
        let s = (which as u64 * 32 + k as u64) * 2 + 1_000_000;
        Input { op, a: stream(s, lens[0]), b: stream(s + 1, lens[1]), out: vec![0; lens[2]] }
    };
    let first = fresh(0);
    cx.state(&(first.clone(), 1));
    api::add_calls(2);
    if first.cost() == first.cost() {
        return Ok(());
    }
    match confirm(|k| (fresh(k + 1), fresh(k + 1))) {
        None => Ok(()),
        Some((x, y)) => Err(format!("{:?} takes {} steps the first time and {} the second time with the same arguments", op, x, y)),
    }
}

const VALUES: [u8; 24] = [0, 1, 2, 8, 9, 10, 13, 0x20, 0x2f, 0x30, 0x36, 0x39, 0x41, 0x5a, 0x5c, 0x61, 0x7a, 0x7f, 0x80, 0xaa, 0xc3, 0xe2, 0xf0, 0xff];

type Shape = (Op, usize, usize, usize);

/// Calls of every length: (operation, length of `a`, of `b`, of the output).
fn shapes(t: Tier) -> Vec<Shape> {
    let mut v: Vec<Shape> = vec![];
    for l in 0..=t.pick(130usize, 200) {
        v.push((Op::Sha, l, 0, 0));
        v.push((Op::Hmac, l, 8, 0));
        v.push((Op::Hmac, 20, l, 0));
    }
    for l in 0..=66 {
        v.push((Op::Sha, l, 66 - l, 0));
        v.push((Op::Pbkdf2 { c: 1 }, l, 8, 20));
        v.push((Op::Pbkdf2 { c: 2 }, 8, l, 20));
        v.push((Op::Pbkdf2 { c: 1 }, 8, 8, l));
    }
    for c in [0, 3, 4, 5, 8, 16, 17] {
        v.push((Op::Pbkdf2 { c }, 8, 8, 33));
    }
    for rounds in 0..=10 {
        v.push((Op::Salsa { rounds }, 64, 0, 64));
        v.push((Op::Salsa { rounds }, 192, 0, 192));
    }
    for l in 0..=t.pick(12usize, 40) {
        v.push((Op::Scrypt { r: 1, n: 2, p: 1 }, l, 4, 16));
        v.push((Op::Scrypt { r: 1, n: 2, p: 1 }, 4, l, 16));
        v.push((Op::Scrypt { r: 1, n: 2, p: 1 }, 4, 4, 4 * l));
    }
    for (r, n, p) in [(1, 4, 2), (2, 8, 1), (3, 4, 3), (8, 16, 1), (1, 64, 1), (1, 3, 1), (0, 2, 1)] {
        v.push((Op::Scrypt { r, n, p }, 6, 6, 20));
    }
    v
}

pub fn c25(t: Tier) -> Check {
    let input = |op, la: usize, lb: usize, lo: usize| Input { op, a: vec![0; la], b: vec![0; lb], out: vec![0; lo] }.plain();
    let set = |i: &mut Input, at: usize, v: u8| {
        let (la, lb) = (i.a.len(), i.b.len());
        if at < la {
            i.a[at] = v;
        } else if at < la + lb {
            i.b[at - la] = v;
        } else {
            i.out[at - la - lb] = v;
        }
    };
    let all = shapes(t);
    let at: Vec<(usize, usize)> = all.iter().enumerate().flat_map(|(k, s)| (0..s.1 + s.2 + s.3).map(move |p| (k, p))).collect();
    let (sh, n_at) = (all.clone(), at.len());
    let mut spaces = vec![Space::new(
        "one_byte",
        format!("{} shapes of call (operation, numbers, all lengths) x every byte of both arguments and of the output buffer x all 256 values", all.len()),
        size([n_at, 256]),
        move |i, cx| {
            let [p, v] = dec(i, [n_at, 256]);
            let (k, p) = at[p];
            let (op, a, b, o) = sh[k];
            let mut i = input(op, a, b, o);
            set(&mut i, p, v as u8);
            judge(cx, &i)
        },
    )];
    let times: usize = t.pick(200, 2000);
    let ag = all.clone();
    spaces.insert(0, Space::new("again", format!("the shapes of call x {} contents not seen before: the first call and the second", times), size([all.len(), times]), move |i, cx| {
        let [k, _] = dec(i, [ag.len(), times]);
        let (op, a, b, o) = ag[k];
        again(cx, op, [a, b, o], i as usize)
    }));
    let few: Vec<Shape> = vec![
        (Op::Sha, 16, 0, 0),
        (Op::Hmac, 8, 6, 0),
        (Op::Pbkdf2 { c: 1 }, 7, 5, 8),
        (Op::Salsa { rounds: 1 }, 64, 0, 64),
        (Op::Scrypt { r: 1, n: 2, p: 1 }, 3, 3, 4),
    ];
    let vs: usize = t.pick(24, 256);
    let pairs: Vec<(usize, usize, usize)> =
        few.iter().enumerate().flat_map(|(k, s)| (0..s.1 + s.2 + s.3).flat_map(move |x| (0..x).map(move |y| (k, x, y)))).collect();
    let (n_pairs, value) = (pairs.len(), move |k: usize| if vs == 256 { k as u8 } else { VALUES[k] });
    spaces.push(Space::new("two_bytes", format!("five shapes of call x every pair of bytes x {0} x {0} values", vs), size([n_pairs, vs, vs]), move |i, cx| {
        let [p, u, v] = dec(i, [n_pairs, vs, vs]);
        let (k, x, y) = pairs[p];
        let (op, a, b, o) = few[k];
        let mut i = input(op, a, b, o);
        set(&mut i, x, value(u));
        set(&mut i, y, value(v));
        judge(cx, &i)
    }));
    // What lies inside the computation depends on everything, so numbered inputs
    // reach states of every description.
    let numbered: Vec<(Op, usize, usize, usize, u64)> = vec![
        (Op::Sha, 4, 0, 0, t.pick(1 << 21, 1 << 26)),
        (Op::Hmac, 4, 4, 0, t.pick(1 << 20, 1 << 24)),
        (Op::Pbkdf2 { c: 2 }, 4, 4, 20, t.pick(1 << 19, 1 << 22)),
        (Op::Salsa { rounds: 4 }, 64, 0, 64, t.pick(1 << 21, 1 << 26)),
        (Op::Scrypt { r: 1, n: 4, p: 1 }, 4, 4, 16, t.pick(1 << 16, 1 << 20)),
        (Op::Scrypt { r: 2, n: 8, p: 1 }, 4, 4, 16, t.pick(1 << 14, 1 << 17)),
    ];
    let total = numbered.iter().map(|x| x.4).sum();
    let counts: Vec<u64> = numbered.iter().map(|x| x.4).collect();
    spaces.push(Space::new("numbered", format!("SHA-256, HMAC, PBKDF2, Salsa20 and two scrypt configurations x the first {:?} numbers as an argument", counts), total, move |mut i, cx| {
        for &(op, a, b, o, n) in &numbered {
            if i < n {
                let mut x = input(op, a, b, o);
                x.a[..4].copy_from_slice(&(i as u32).to_be_bytes());
                return judge(cx, &x);
            }
            i -= n;
        }
        unreachable!()
    }));
    let sh = all.clone();
    spaces.push(Space::new("patterns", "the shapes of call x 8 x 8 content patterns of the two arguments x 3 of the output buffer", size([all.len(), PATS, PATS, 3]), move |i, cx| {
        let [k, p, q, r] = dec(i, [sh.len(), PATS, PATS, 3]);
        let (op, a, b, o) = sh[k];
        if b == 0 && q > 0 || o == 0 && r > 0 {
            return Ok(());
        }
        judge(cx, &Input { op, a: pat(p, a), b: pat(q, b), out: pat(r, o) })
    }));
    let large: Vec<Shape> = vec![
        (Op::Sha, 100_000, 0, 0),
        (Op::Sha, 1 << 20, 1 << 20, 0),
        (Op::Hmac, 5000, 70_000, 0),
        (Op::Pbkdf2 { c: 2000 }, 8, 8, 40),
        (Op::Pbkdf2 { c: 1 }, 8, 8, 20_000),
        (Op::Pbkdf2 { c: 2 }, 3000, 3000, 64),
        (Op::Salsa { rounds: 10 }, 1 << 18, 0, 1 << 18),
        (Op::Salsa { rounds: 5000 }, 64, 0, 64),
        (Op::Scrypt { r: 8, n: 1024, p: 1 }, 12, 12, 64),
        (Op::Scrypt { r: 1, n: 2, p: 64 }, 12, 12, 64),
        (Op::Scrypt { r: 64, n: 4, p: 1 }, 12, 12, 64),
    ];
    spaces.push(Space::new("large", "11 large calls x 8 x 8 content patterns", size([large.len(), PATS, PATS]), move |i, cx| {
        let [k, p, q] = dec(i, [large.len(), PATS, PATS]);
        let (op, a, b, o) = large[k];
        judge(cx, &Input { op, a: pat(p, a), b: pat(q, b), out: vec![0; o] })
    }));
    spaces.push(Space::new("related", format!("HMAC, PBKDF2 and scrypt x first argument of 0..=80 bytes x the second in each of {} relations to it, both ways round", RELATIONS), size([3, 81, RELATIONS, 2]), |i, cx| {
        let [k, l, r, turn] = dec(i, [3, 81, RELATIONS, 2]);
        let (op, o) = [(Op::Hmac, 0), (Op::Pbkdf2 { c: 1 }, 20), (Op::Scrypt { r: 1, n: 2, p: 1 }, 16)][k];
        let mut a = base()[10..10 + l].to_vec();
        let mut b = related(r, &a);
        if turn == 1 {
            std::mem::swap(&mut a, &mut b);
        }
        judge(cx, &Input { op, a, b, out: vec![0; o] })
    }));
    Check {
        id: "C25",
        spaces,
        assumptions: vec![
            "Work is counted in basic blocks of the optimised crate (callbacks inserted after the optimiser); two calls on the same path do the same work. Caches and variable-time instructions are not modelled, and the C library is not counted.".into(),
            "Only the calling thread is followed; counts that vary by themselves are judged by whether their ranges are apart. Paths of equally many blocks are told apart by single-stepped instruction counts.".into(),
            "AES is left out: it looks bytes up in tables and promises nothing.".into(),
        ],
        bounds: "Lengths, numbers and contents as listed per space".into(),
    }
}
