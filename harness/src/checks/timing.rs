//! C22: how long it takes to reject a padding does not tell where it is wrong.
//! Time is counted in instructions, for every pattern of wrong bytes.
use crate::api;
use crate::engine::*;
use crate::refs::aes::RefAes;
use crate::steps::steps;
use crate::util::*;
use dumb_crypto::aes_cbc::Decipher;
use std::collections::HashMap;
use std::sync::Mutex;

/// Where and how a message is badly padded.
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
struct Class {
    /// The last byte.
    n: usize,
    /// Blocks before the last one.
    lead: usize,
    /// 0: one write, 1: byte by byte, 2: one write, and flushed twice.
    how: usize,
}

/// Instructions taken to reject a last block whose final `n` bytes are `n` but
/// for what `wrong` adds to the bytes before the last.
fn reject(c: Class, wrong: &[u8; 15]) -> Result<u64, String> {
    thread_local! {
        static KEY: RefAes = RefAes::new(&[0x42; 16]);
    }
    let mut last = [0u8; 16];
    last.copy_from_slice(&base()[40..56]);
    for j in 16 - c.n..16 {
        last[j] = c.n as u8;
    }
    for j in 0..15 {
        last[j] ^= wrong[j];
    }
    // As in the attack, the last cipher block stays and what it is chained to
    // changes: deciphering it is the same work each time.
    let (block, mut iv) = ([0x77u8; 16], [9u8; 16]);
    let plain = KEY.with(|k| k.decrypt(&block));
    for j in 0..16 {
        last[j] ^= plain[j];
    }
    let mut ct = base()[..16 * c.lead].to_vec();
    match c.lead {
        0 => iv = last,
        l => ct[16 * l - 16..].copy_from_slice(&last),
    }
    ct.extend(block);
    let mut d = Decipher::new(iv);
    d.init(&[0x42; 16]).map_err(|e| format!("init said {:?}", e))?;
    let mut feed = |b: &[u8]| d.write(b).map(|_| ()).map_err(|e| format!("write said {:?}", e));
    if c.how == 1 {
        for b in ct.chunks(1) {
            feed(b)?;
        }
    } else {
        feed(&ct)?;
    }
    if c.how == 2 {
        let _ = d.flush();
    }
    let (r, count) = steps(|| d.flush());
    // That it is an error at all is C13's concern.
    match r {
        Err(_) => Ok(count),
        Ok(_) => Ok(0),
    }
}

fn least(c: Class, wrong: &[u8; 15], times: usize) -> Result<u64, String> {
    let mut m = u64::MAX;
    for _ in 0..times {
        m = m.min(reject(c, wrong)?);
    }
    Ok(m)
}

/// Every byte of the padding but the last wrong.
fn all_wrong(n: usize) -> [u8; 15] {
    let mut w = [0u8; 15];
    for x in &mut w[16 - n..] {
        *x = 0x21;
    }
    w
}

fn judge(cx: &mut Cx, c: Class, wrong: &[u8; 15]) -> R {
    static KNOWN: Mutex<Option<HashMap<Class, u64>>> = Mutex::new(None);
    let known = KNOWN.lock().unwrap().get_or_insert_with(HashMap::new).get(&c).copied();
    let want = match known {
        Some(x) => x,
        None => {
            let x = least(c, &all_wrong(c.n), 5)?;
            KNOWN.lock().unwrap().as_mut().unwrap().insert(c, x);
            x
        }
    };
    cx.state(&(c, wrong));
    cx.outcome(&(c, want));
    api::add_calls(1);
    if want == 0 || reject(c, wrong)? == want {
        return Ok(());
    }
    // Once more, so that what happens once in a process does not count.
    let (a, b) = (least(c, wrong, 5)?, least(c, &all_wrong(c.n), 5)?);
    if a == b || a == 0 || b == 0 {
        return Ok(());
    }
    let at: Vec<usize> = (0..15).filter(|&j| wrong[j] != 0).collect();
    Err(format!("rejecting a padding of {} bytes takes {} instructions when bytes {:?} of the last block are wrong (by {}), and {} when all of them are", c.n, a, at, api::hex(wrong), b))
}

/// Positions and patterns: index to (padding, wrong positions), n from 2.
fn pattern(mut i: u64) -> (usize, u32) {
    for n in 2..=16 {
        let here = (1u64 << (n - 1)) - 1;
        if i < here {
            return (n, i as u32 + 1);
        }
        i -= here;
    }
    unreachable!()
}

fn single(mut i: usize) -> (usize, usize) {
    for n in 2..=16 {
        if i < n - 1 {
            return (n, 16 - n + i);
        }
        i -= n - 1;
    }
    unreachable!()
}

fn pair(mut i: usize) -> (usize, usize, usize) {
    for n in 3..=16 {
        for a in 16 - n..15 {
            let here = 14 - a;
            if i < here {
                return (n, a, a + 1 + i);
            }
            i -= here;
        }
    }
    unreachable!()
}

const PATTERNS: usize = (1 << 16) - 2 - 15;

pub fn c22(t: Tier) -> Check {
    let fill = |n: usize, mask: u32, d: u8| {
        let mut w = [0u8; 15];
        for (k, x) in w[16 - n..].iter_mut().enumerate() {
            if mask >> k & 1 == 1 {
                *x = d;
            }
        }
        w
    };
    let leads = t.pick(2usize, 5);
    let vs: usize = t.pick(16, 64);
    let spaces = vec![
        Space::new("positions", "every padding length 2..=16 x every non-empty set of wrong bytes x wrong by 0x01, 0x80, 0xff, or down to zero", size([PATTERNS, 4]), move |i, cx| {
            let [p, d] = dec(i, [PATTERNS, 4]);
            let (n, mask) = pattern(p as u64);
            judge(cx, Class { n, lead: 0, how: 0 }, &fill(n, mask, [0x01, 0x80, 0xff, n as u8][d]))
        }),
        Space::new("histories", format!("the same sets wrong by 0x01, after 1..={} blocks in one write, byte by byte, and at the second attempt", leads), size([PATTERNS, leads, 3]), move |i, cx| {
            let [p, l, how] = dec(i, [PATTERNS, leads, 3]);
            let (n, mask) = pattern(p as u64);
            judge(cx, Class { n, lead: 1 + l, how }, &fill(n, mask, 0x01))
        }),
        Space::new("values", "every padding length 2..=16 x one wrong byte at every position x every wrong value", size([120, 255]), |i, cx| {
            let [p, v] = dec(i, [120, 255]);
            let (n, at) = single(p);
            let mut w = [0u8; 15];
            w[at] = v as u8 + 1;
            judge(cx, Class { n, lead: 0, how: 0 }, &w)
        }),
        Space::new("two_values", format!("every padding length 3..=16 x two wrong bytes at every pair of positions x {0} x {0} wrong values", vs), size([560, vs, vs]), move |i, cx| {
            let [p, a, b] = dec(i, [560, vs, vs]);
            let (n, x, y) = pair(p);
            let mut w = [0u8; 15];
            let v = |k: usize| if vs == 255 { k as u8 + 1 } else { (k * 17) as u8 | 1 << (k % 8) };
            (w[x], w[y]) = (v(a), v(b));
            judge(cx, Class { n, lead: 0, how: 0 }, &w)
        }),
    ];
    Check {
        id: "C22",
        spaces,
        assumptions: vec![
            "Time is counted in executed instructions of the program (single-stepped), in the optimised builds; caches and variable-time instructions are not modelled, and the C library is not counted.".into(),
            "Compared are rejections of paddings with the same last byte; the length it names may be seen.".into(),
        ],
        bounds: "Every set of wrong bytes of every padding length; values as listed".into(),
    }
}
