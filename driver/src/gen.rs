//! Structured generation of byte values, keys, blocks, lengths. Every random choice comes from proptest's TestRng.
use crate::fips;
use proptest::test_runner::TestRng;
use rand::Rng;

pub mod rand {
    use proptest::prelude::Rng as Core;
    /// The few sampling helpers needed, on the library's generator.
    pub trait Rng: Core {
        fn below(&mut self, n: usize) -> usize {
            debug_assert!(n > 0);
            ((self.next_u64() as u128 * n as u128) >> 64) as usize
        }
        fn range(&mut self, lo: usize, hi: usize) -> usize {
            lo + self.below(hi - lo + 1)
        }
        fn pct(&mut self, p: usize) -> bool {
            self.below(100) < p
        }
        fn fill(&mut self, v: &mut [u8]) {
            self.fill_bytes(v)
        }
        fn byte(&mut self) -> u8 {
            self.next_u32() as u8
        }
    }
    impl<T: Core> Rng for T {}
}

pub struct Gen<'a> {
    pub r: &'a mut TestRng,
    /// literal values found in the sources under test (an automatic dictionary)
    pub dict: &'a [Vec<u8>],
    /// values used before, for related inputs
    pub pool: Vec<Vec<u8>>,
    pub keys: Vec<Vec<u8>>,
    /// longest list of round keys in a raw program
    pub long: usize,
}

const NICE: [u8; 24] = [
    0x00, 0x01, 0x02, 0x03, 0x04, 0x08, 0x0f, 0x10, 0x1b, 0x1f, 0x20, 0x36, 0x40, 0x52, 0x55, 0x63, 0x7f, 0x80, 0x81, 0x8d, 0xaa, 0xc0, 0xf0, 0xff,
];

impl<'a> Gen<'a> {
    pub fn new(r: &'a mut TestRng, dict: &'a [Vec<u8>]) -> Self {
        Gen { r, dict, pool: Vec::new(), keys: Vec::new(), long: 1200 }
    }

    fn random(&mut self, n: usize) -> Vec<u8> {
        let mut v = vec![0; n];
        self.r.fill(&mut v);
        v
    }

    /// A value of n bytes from a mixture of uniform, structured and related distributions; remembered for later ones.
    pub fn value(&mut self, n: usize) -> Vec<u8> {
        let v = self.fresh(n);
        self.remember(&v);
        v
    }

    pub fn remember(&mut self, v: &[u8]) {
        if self.pool.len() < 24 {
            self.pool.push(v.to_vec());
        } else {
            let i = self.r.below(24);
            self.pool[i] = v.to_vec();
        }
    }

    fn fresh(&mut self, n: usize) -> Vec<u8> {
        let x = if n < 4 { self.r.below(60) } else { self.r.below(112) };
        match x {
            0..=33 => self.random(n),
            34..=37 => vec![0; n],
            38..=40 => vec![0xff; n],
            41..=44 => {
                let b = if self.r.pct(60) { NICE[self.r.below(NICE.len())] } else { self.r.byte() };
                vec![b; n]
            }
            45..=50 => {
                let mut v = vec![0; n];
                v[self.r.below(n)] = 1 << self.r.below(8);
                v
            }
            51..=53 => {
                let mut v = vec![0xff; n];
                v[self.r.below(n)] ^= 1 << self.r.below(8);
                v
            }
            54..=57 => {
                let mut v = vec![0; n];
                for _ in 0..self.r.range(1, 4) {
                    let i = self.r.below(n);
                    v[i] = self.r.byte();
                }
                v
            }
            58..=61 => (0..n).map(|_| NICE[self.r.below(NICE.len())]).collect(),
            62..=64 => self.tile(n, 4),
            65..=66 => self.tile(n, 8),
            67..=70 => self.tile(n, 16),
            71..=73 => {
                // pairs of lanes (or words) in a pattern such as a b a b, a a b b, a b b a
                let unit = if n >= 32 { 16 } else { 4 };
                let (a, b) = (self.fresh(unit), self.fresh(unit));
                (0..n / unit).flat_map(|_| if self.r.pct(50) { a.clone() } else { b.clone() }).collect()
            }
            74..=75 => {
                let s = self.r.byte();
                (0..n).map(|i| s.wrapping_add(i as u8)).collect()
            }
            76..=79 => {
                // one lane or half special, the rest random
                let mut v = self.random(n);
                let unit = [1, 2, 4, 8, 16][self.r.below(5)].min(n);
                let at = self.r.below(n / unit) * unit;
                let w = match self.r.below(3) {
                    0 => vec![0; unit],
                    1 => vec![0xff; unit],
                    _ => self.fresh(unit),
                };
                v[at..at + unit].copy_from_slice(&w);
                v
            }
            80..=83 => self.preimage(n),
            84..=91 if !self.dict.is_empty() => self.from_dict(n),
            _ if !self.pool.is_empty() => {
                let i = self.r.below(self.pool.len());
                let base = self.pool[i].clone();
                let mut v: Vec<u8> = base.iter().cycle().take(n).copied().collect();
                if base.len() > n && self.r.pct(50) {
                    let at = self.r.below(base.len() / n) * n;
                    v.copy_from_slice(&base[at..at + n]);
                }
                if self.r.pct(85) {
                    self.mutate(&mut v);
                }
                v
            }
            _ => self.random(n),
        }
    }

    fn tile(&mut self, n: usize, unit: usize) -> Vec<u8> {
        let unit = unit.min(n);
        let t = self.fresh(unit);
        t.iter().cycle().take(n).copied().collect()
    }

    fn lanes(v: &mut [u8], f: impl Fn([u8; 16]) -> [u8; 16]) {
        for c in v.chunks_exact_mut(16) {
            let x = f(c.try_into().unwrap());
            c.copy_from_slice(&x);
        }
    }

    /// A value some AES step maps to a structured one.
    fn preimage(&mut self, n: usize) -> Vec<u8> {
        let mut v = match self.r.below(3) {
            0 => vec![0; n],
            1 => self.tile(n, 4),
            _ => {
                let mut v = vec![0; n];
                let at = self.r.below(n);
                v[at] = self.r.byte();
                v
            }
        };
        let k = self.r.below(8);
        Self::lanes(&mut v, |x| match k {
            0 => fips::inv_sub_bytes(x),
            1 => fips::sub_bytes(x),
            2 => fips::inv_mix_columns(x),
            3 => fips::mix_columns(x),
            4 => fips::inv_sub_bytes(fips::inv_shift_rows(x)),
            5 => fips::inv_sub_bytes(fips::inv_shift_rows(fips::inv_mix_columns(x))),
            6 => fips::sub_bytes(fips::shift_rows(x)),
            _ => fips::mix_columns(fips::shift_rows(fips::sub_bytes(x))),
        });
        v
    }

    fn from_dict(&mut self, n: usize) -> Vec<u8> {
        let mut v = match self.r.below(3) {
            0 => vec![0; n],
            1 => self.random(n),
            _ => Vec::new(),
        };
        if v.is_empty() {
            // only dictionary entries
            while v.len() < n {
                let i = self.r.below(self.dict.len()).min(self.r.below(self.dict.len()));
                v.extend(&self.dict[i]);
            }
            v.truncate(n);
            return v;
        }
        for _ in 0..self.r.range(1, 2) {
            let i = self.r.below(self.dict.len()).min(self.r.below(self.dict.len()));
            let mut d = self.dict[i].clone();
            if self.r.pct(50) {
                d.reverse();
            }
            d.truncate(n);
            let step = if self.r.pct(70) { d.len().next_power_of_two().min(16) } else { 1 };
            let at = (self.r.below(n - d.len() + 1) / step) * step;
            v[at..at + d.len()].copy_from_slice(&d);
        }
        v
    }

    /// A small change, often one that common aggregate comparisons (xor, sum, or) do not see.
    pub fn mutate(&mut self, v: &mut [u8]) {
        let n = v.len();
        let i = self.r.below(n);
        let j = self.r.below(n);
        match self.r.below(17) {
            16 if !self.dict.is_empty() => {
                // apart by a literal of the sources
                let i = self.r.below(self.dict.len());
                let mut d = self.dict[i].clone();
                d.truncate(n);
                let step = d.len().next_power_of_two().min(16);
                let at = (self.r.below(n - d.len() + 1) / step) * step;
                for (x, y) in v[at..].iter_mut().zip(&d) {
                    *x ^= y;
                }
            }
            0..=2 => v[i] ^= 1 << self.r.below(8),
            3 => v[i] ^= self.r.byte() | 1,
            4 | 5 => {
                // the same difference in two places a word, half or lane apart
                let d = if self.r.pct(60) { 1 << self.r.below(8) } else { self.r.byte() | 1 };
                let opts: Vec<usize> = [1, 2, 4, 8, 16, 32].into_iter().filter(|d| *d < n).collect();
                let dist = if opts.is_empty() { 0 } else { opts[self.r.below(opts.len())] };
                v[i] ^= d;
                if dist > 0 {
                    v[(i + dist) % n] ^= d;
                }
            }
            6 => {
                v[i] = v[i].wrapping_add(1);
                v[j] = v[j].wrapping_sub(1);
            }
            7 => v.swap(i, j),
            8 => {
                let opts: Vec<usize> = [4, 8, 16, 32].into_iter().filter(|d| *d < n).collect();
                if let Some(&u) = opts.get(self.r.below(opts.len().max(1))) {
                    let (a, b) = (self.r.below(n / u), self.r.below(n / u));
                    for k in 0..u {
                        v.swap(a * u + k, b * u + k);
                    }
                }
            }
            9 => {
                let u = [4, 8, 16][self.r.below(3)].min(n);
                v.rotate_left(u % n.max(1));
            }
            10 => v.reverse(),
            11 => {
                for x in v.iter_mut() {
                    *x = !*x;
                }
            }
            12 => {
                let u = 16.min(n);
                let a = self.r.below(n / u) * u;
                let d = 1 << self.r.below(8);
                for x in &mut v[a..a + u] {
                    *x ^= d;
                }
            }
            13 => v[n - 1] ^= 1 << self.r.below(8),
            14 => v[0] ^= 1 << self.r.below(8),
            _ => {
                let u = [4, 8, 16][self.r.below(3)].min(n);
                let a = self.r.below(n / u) * u;
                let w = self.random(u);
                v[a..a + u].copy_from_slice(&w);
            }
        }
    }

    pub fn key(&mut self, size: u8) -> Vec<u8> {
        let n = 16 + 8 * size as usize;
        let k = match self.r.below(20) {
            0..=10 => self.fresh(n),
            // a schedule with structured words somewhere in the middle
            11..=13 => {
                let at = self.r.range(1, 4 * (n / 4 + 7) - n / 4);
                let w = self.fresh(n);
                fips::key_with_words(&w, at)
            }
            14 => self.key_by_step(n),
            // a relative of an earlier key
            _ => match self.keys.iter().filter(|k| k.len() == n).count() {
                0 => self.random(n),
                c => {
                    let i = self.r.below(c);
                    let mut k = self.keys.iter().filter(|k| k.len() == n).nth(i).unwrap().clone();
                    if self.r.pct(80) {
                        self.mutate(&mut k);
                    }
                    k
                }
            },
        };
        if self.keys.len() < 24 {
            self.keys.push(k.clone());
        } else {
            let i = self.r.below(24);
            self.keys[i] = k.clone();
        }
        if self.r.pct(30) {
            self.remember(&k);
        }
        k
    }

    /// A key whose schedule has a word that the schedule's function maps to a chosen one, so that words nk apart are
    /// equal (or differ in a chosen way); sometimes with adjacent round keys that are equal.
    fn key_by_step(&mut self, n: usize) -> Vec<u8> {
        let nk = n / 4;
        let words = 4 * (nk + 7);
        let step = if nk == 8 { 4 } else { nk };
        let i = step * self.r.range(if nk == 8 { 2 } else { 1 }, (words - 1) / step);
        let want: [u8; 4] = if self.r.pct(60) { [0; 4] } else { self.fresh(4).try_into().unwrap() };
        let last = fips::schedule_step_inverse(i, nk, want);
        let mut w = match self.r.below(4) {
            0 => vec![0; n],
            1 => self.tile(n, 4),
            _ => self.fresh(n),
        };
        w[n - 4..].copy_from_slice(&last);
        if nk == 6 && self.r.pct(50) {
            // round key words a b c d, then a b c d again (the window ends with its second b)
            let mut x: Vec<[u8; 4]> = w.chunks(4).map(|c| c.try_into().unwrap()).collect();
            let xor = |a: [u8; 4], b: [u8; 4]| -> [u8; 4] { std::array::from_fn(|k| a[k] ^ b[k]) };
            x[1] = last;
            x[2] = xor(x[1], x[3]);
            x[0] = xor(x[2], want);
            x[4] = x[0];
            w = x.concat();
        }
        fips::key_with_words(&w, i - nk)
    }

    /// A block to encrypt (or, with dec, decrypt) under the key.
    pub fn block_for(&mut self, key: &[u8], dec: bool) -> Vec<u8> {
        let x = self.r.below(20);
        if x < 11 {
            return self.value(16);
        }
        let rk = fips::key_expansion(key);
        let r = match x {
            11 | 12 => 1,
            13 | 14 => rk.len() - 1,
            _ => self.r.range(1, rk.len() - 1),
        };
        let mut want: [u8; 16] = self.fresh(16).try_into().unwrap();
        if self.r.pct(15) {
            // a state that is a round key, or differs little from one
            want = rk[[r - 1, r, self.r.below(rk.len())][self.r.below(3)]];
            if self.r.pct(40) {
                self.mutate(&mut want);
            }
        }
        let r = match x {
            ..=17 => r,
            _ => {
                // a structured result
                let b = if dec { fips::encrypt(&rk, want) } else { fips::decrypt(&rk, want) };
                return b.to_vec();
            }
        };
        let p = fips::plaintext_for_state(&rk, want, r);
        if dec { fips::encrypt(&rk, p) } else { p }.to_vec()
    }

    pub fn slice_len(&mut self, need: usize) -> usize {
        match self.r.below(20) {
            0..=2 => need,
            3 => need + 1,
            4 => need - 1,
            5 => 0,
            6 => [15, 16, 17, 31, 32, 33, 47, 48, 49, 63, 64, 65][self.r.below(12)],
            7 | 8 => self.r.below(need),
            9..=11 => need + self.r.below(2 * need),
            12 => 128 + self.r.below(64),
            13 => 256 + self.r.below(80),
            14 => (1 << self.r.range(4, 11)) + self.r.below(3) - 1,
            15 => self.r.below(1024),
            16 => 1 + self.r.below(16),
            _ => self.r.below(4 * need + 1),
        }
    }

    pub fn chain_len(&mut self) -> usize {
        match self.r.below(40) {
            0 | 1 => 0,
            2..=5 => 1,
            6..=9 => 2,
            10..=22 => self.r.range(3, 9),
            23..=31 => self.r.range(8, 16),
            32..=36 => self.r.range(16, 40),
            37 => [31, 32, 33, 63, 64, 65][self.r.below(6)],
            38 => self.r.range(40, 130),
            _ => {
                if self.r.pct(30) {
                    self.r.range(250, 300)
                } else {
                    self.r.range(9, 20)
                }
            }
        }
    }

    pub fn chain_keys(&mut self, dir: u8, state: &[u8], n: usize) -> Vec<u8> {
        let w = state.len();
        let mut keys: Vec<u8> = Vec::with_capacity(n * w);
        let style = self.r.below(8);
        let mut acc = state.to_vec();
        for i in 0..n {
            let k = match (style, i) {
                // keys that make the value between two rounds structured
                (6, _) if n <= 40 => {
                    let want = if self.r.pct(40) { self.fresh(w) } else { self.random(w) };
                    if i > 0 {
                        Self::lanes(&mut acc, |x| if dir == 0 { fips::enc(x, [0; 16]) } else { fips::dec(x, [0; 16]) });
                    }
                    let k = acc.iter().zip(&want).map(|(a, b)| a ^ b).collect();
                    acc = want;
                    k
                }
                // repetitions of the key before, or small changes of it
                (7, _) if i > 0 && self.r.pct(60) => {
                    let mut k = keys[(i - 1) * w..].to_vec();
                    if self.r.pct(30) {
                        self.mutate(&mut k);
                    }
                    k
                }
                (0, 0) => state.to_vec(), // the first xor gives zero
                (1, _) if i > 0 => keys[..w].to_vec(),
                (2, _) if self.r.pct(50) => vec![0; w],
                (3, _) => self.random(w),
                _ if n > 40 => self.random(w),
                _ => self.fresh(w),
            };
            keys.extend(k);
        }
        keys
    }
}
