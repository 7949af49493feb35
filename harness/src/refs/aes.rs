//! FIPS 197, tables derived from their definitions.

const fn xtime(a: u8) -> u8 {
    (a << 1) ^ (if a & 0x80 != 0 { 0x1b } else { 0 })
}

// powers of the generator {03}
const fn exp_table() -> [u8; 256] {
    let mut t = [0u8; 256];
    let mut x = 1u8;
    let mut i = 0;
    while i < 256 {
        t[i] = x;
        x ^= xtime(x);
        i += 1;
    }
    t
}

const fn log_table() -> [u8; 256] {
    let e = exp_table();
    let mut t = [0u8; 256];
    let mut i = 0;
    while i < 255 {
        t[e[i] as usize] = i as u8;
        i += 1;
    }
    t
}

static EXP: [u8; 256] = exp_table();
static LOG: [u8; 256] = log_table();

fn gmul(a: u8, b: u8) -> u8 {
    if a == 0 || b == 0 {
        0
    } else {
        EXP[(LOG[a as usize] as usize + LOG[b as usize] as usize) % 255]
    }
}

const fn sbox_table() -> [u8; 256] {
    let e = exp_table();
    let l = log_table();
    let mut t = [0u8; 256];
    let mut i = 0;
    while i < 256 {
        let inv = if i == 0 { 0 } else { e[(255 - l[i] as usize) % 255] };
        t[i] = inv
            ^ inv.rotate_left(1)
            ^ inv.rotate_left(2)
            ^ inv.rotate_left(3)
            ^ inv.rotate_left(4)
            ^ 0x63;
        i += 1;
    }
    t
}

const fn inv_table() -> [u8; 256] {
    let s = sbox_table();
    let mut t = [0u8; 256];
    let mut i = 0;
    while i < 256 {
        t[s[i] as usize] = i as u8;
        i += 1;
    }
    t
}

pub static SBOX: [u8; 256] = sbox_table();
pub static INV: [u8; 256] = inv_table();

#[derive(Clone)]
pub struct RefAes {
    rk: Vec<[u8; 16]>,
}

impl RefAes {
    pub fn new(key: &[u8]) -> Self {
        let nk = key.len() / 4;
        let nr = nk + 6;
        let mut w: Vec<[u8; 4]> = key.chunks(4).map(|c| [c[0], c[1], c[2], c[3]]).collect();
        let mut rcon = 1u8;
        while w.len() < 4 * (nr + 1) {
            let i = w.len();
            let mut t = w[i - 1];
            if i % nk == 0 {
                t = [t[1], t[2], t[3], t[0]].map(|b| SBOX[b as usize]);
                t[0] ^= rcon;
                rcon = xtime(rcon);
            } else if nk == 8 && i % 8 == 4 {
                t = t.map(|b| SBOX[b as usize]);
            }
            let p = w[i - nk];
            w.push([p[0] ^ t[0], p[1] ^ t[1], p[2] ^ t[2], p[3] ^ t[3]]);
        }
        let rk = w
            .chunks(4)
            .map(|c| {
                let mut k = [0u8; 16];
                for i in 0..16 {
                    k[i] = c[i / 4][i % 4];
                }
                k
            })
            .collect();
        RefAes { rk }
    }

    /// The key of `nk` words whose schedule has the words `win` (`nk` of them)
    /// from position `at` on. Used to choose inputs, never to judge results.
    pub fn key_for(nk: usize, at: usize, win: &[[u8; 4]]) -> Vec<u8> {
        let mut w = win.to_vec();
        // Undo the schedule: w[i - nk] = w[i] ^ f(w[i - 1]); w[0] is word `i + 1 - nk`.
        for i in (nk..at + nk).rev() {
            let mut t = w[nk - 2];
            if i % nk == 0 {
                t = [t[1], t[2], t[3], t[0]].map(|b| SBOX[b as usize]);
                t[0] ^= (1..i / nk).fold(1u8, |r, _| xtime(r));
            } else if nk == 8 && i % 8 == 4 {
                t = t.map(|b| SBOX[b as usize]);
            }
            let l = w.pop().unwrap();
            w.insert(0, [l[0] ^ t[0], l[1] ^ t[1], l[2] ^ t[2], l[3] ^ t[3]]);
        }
        w.concat()
    }

    fn ark(&self, s: &mut [u8; 16], r: usize) {
        for i in 0..16 {
            s[i] ^= self.rk[r][i];
        }
    }

    // state byte index = 4*column + row
    fn mix(s: &mut [u8; 16], row: [u8; 4]) {
        for c in 0..4 {
            let col = [s[4 * c], s[4 * c + 1], s[4 * c + 2], s[4 * c + 3]];
            for i in 0..4 {
                let mut v = 0;
                for k in 0..4 {
                    v ^= gmul(col[k], row[(k + 4 - i) % 4]);
                }
                s[4 * c + i] = v;
            }
        }
    }

    /// Round keys, the first of which is (the start of) the key itself.
    pub fn round_keys(&self) -> &[[u8; 16]] {
        &self.rk
    }

    /// The input for which encryption has state `s` before round `at`'s byte
    /// substitution (1-based). Used to choose inputs, never to judge results.
    pub fn input_for(&self, at: usize, s: &[u8; 16]) -> [u8; 16] {
        let mut s = *s;
        for r in (1..at).rev() {
            self.ark(&mut s, r);
            Self::mix(&mut s, [14, 11, 13, 9]);
            let mut t = [0u8; 16];
            for c in 0..4 {
                for i in 0..4 {
                    t[4 * ((c + i) % 4) + i] = INV[s[4 * c + i] as usize];
                }
            }
            s = t;
        }
        self.ark(&mut s, 0);
        s
    }

    pub fn encrypt(&self, b: &[u8; 16]) -> [u8; 16] {
        let mut s = *b;
        let nr = self.rk.len() - 1;
        self.ark(&mut s, 0);
        for r in 1..=nr {
            let mut t = [0u8; 16];
            for c in 0..4 {
                for i in 0..4 {
                    t[4 * c + i] = SBOX[s[4 * ((c + i) % 4) + i] as usize];
                }
            }
            s = t;
            if r < nr {
                Self::mix(&mut s, [2, 3, 1, 1]);
            }
            self.ark(&mut s, r);
        }
        s
    }

    pub fn decrypt(&self, b: &[u8; 16]) -> [u8; 16] {
        let mut s = *b;
        let nr = self.rk.len() - 1;
        for r in (1..=nr).rev() {
            self.ark(&mut s, r);
            if r < nr {
                Self::mix(&mut s, [14, 11, 13, 9]);
            }
            let mut t = [0u8; 16];
            for c in 0..4 {
                for i in 0..4 {
                    t[4 * ((c + i) % 4) + i] = INV[s[4 * c + i] as usize];
                }
            }
            s = t;
        }
        self.ark(&mut s, 0);
        s
    }
}
