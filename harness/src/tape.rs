//! Choice sequences. A generator draws every choice from a `Src`; the bytes drawn are the
//! tape. A tape replays to the same case, shrinks as a whole (delete spans, zero and lower
//! bytes) and is what a coverage-guided fuzzer mutates. The value 0 of every choice is the
//! simplest one, and an exhausted tape yields zeros.

#[derive(Clone)]
pub struct Rng(u64, u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut z = seed;
        let mut next = || {
            z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
            let mut x = z;
            x = (x ^ (x >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
            x = (x ^ (x >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
            x ^ (x >> 31)
        };
        let a = next();
        let b = next();
        Rng(a, b | 1)
    }
    pub fn next(&mut self) -> u64 {
        let s1 = self.0;
        let s0 = self.1;
        let r = s0.wrapping_add(s1);
        self.0 = s0;
        let s1 = s1 ^ (s1 << 23);
        self.1 = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
        r
    }
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
}

pub struct Src {
    rng: Option<Rng>,
    tape: Vec<u8>,
    pos: usize,
    pub spans: Vec<(usize, usize)>,
    max: usize,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { rng: Some(Rng::new(seed)), tape: Vec::new(), pos: 0, spans: Vec::new(), max: 60_000 }
    }
    pub fn replay(tape: &[u8]) -> Self {
        Src { rng: None, tape: tape.to_vec(), pos: 0, spans: Vec::new(), max: usize::MAX }
    }
    /// the bytes consumed so far
    pub fn used(&self) -> &[u8] {
        &self.tape[..self.pos.min(self.tape.len())]
    }
    /// the tape, then random choices
    pub fn extend(tape: &[u8], seed: u64) -> Self {
        Src { rng: Some(Rng::new(seed)), tape: tape.to_vec(), pos: 0, spans: Vec::new(), max: 60_000 }
    }
    fn raw(&mut self, n: u32) -> u32 {
        // one byte, value below n <= 256
        let v = if self.pos < self.tape.len() {
            self.tape[self.pos]
        } else if let Some(rng) = self.rng.as_mut() {
            let v = if self.pos >= self.max { 0 } else { rng.below(n as u64) as u8 };
            self.tape.push(v);
            v
        } else {
            0
        };
        self.pos += 1;
        v as u32 % n
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: usize) -> usize {
        assert!(n > 0);
        if n == 1 {
            return 0;
        }
        if n <= 256 {
            self.raw(n as u32) as usize
        } else if n <= 65536 {
            let hi = self.raw(((n + 255) / 256) as u32) as usize;
            let lo = self.raw(256) as usize;
            (hi * 256 + lo) % n
        } else {
            let mut v = 0usize;
            for _ in 0..4 {
                v = v * 256 + self.raw(256) as usize;
            }
            v % n
        }
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn u8(&mut self) -> u8 {
        self.raw(256) as u8
    }
    pub fn u64(&mut self) -> u64 {
        let mut v = 0u64;
        for _ in 0..8 {
            v = v << 8 | self.raw(256) as u64;
        }
        v
    }
    /// true with probability p/256; false is the simple case
    pub fn chance(&mut self, p: u32) -> bool {
        self.raw(256) >= 256 - p
    }
    pub fn pick<T: Clone>(&mut self, items: &[T]) -> T {
        items[self.below(items.len())].clone()
    }
    /// index drawn with the given weights; index 0 is the simple case
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u32 = w.iter().sum();
        let mut v = self.below(total as usize) as u32;
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= x;
        }
        0
    }
    pub fn span<T>(&mut self, f: impl FnOnce(&mut Self) -> T) -> T {
        let a = self.pos;
        let r = f(self);
        self.spans.push((a, self.pos));
        r
    }
    /// a list of min..=max elements, about `avg` long; each element is a span of its own
    pub fn list<T>(&mut self, min: usize, max: usize, avg: usize, mut f: impl FnMut(&mut Self) -> T) -> Vec<T> {
        let mut out = Vec::new();
        // continue with probability avg/(avg+1)
        let p = ((256 * avg) / (avg + 1)).clamp(1, 254) as u32;
        while out.len() < max {
            let a = self.pos;
            if out.len() >= min {
                // a byte of 0 stops
                if !self.chance(p) {
                    break;
                }
            }
            let x = f(self);
            self.spans.push((a, self.pos));
            out.push(x);
        }
        out
    }
    pub fn perm(&mut self, n: usize) -> Vec<usize> {
        let mut v: Vec<usize> = (0..n).collect();
        for i in (1..n).rev() {
            let j = i - self.below(i + 1).min(i);
            v.swap(i, j);
        }
        v
    }
}

pub fn hash(data: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in data {
        h ^= *b as u64;
        h = h.wrapping_mul(0x0100_0000_01b3);
    }
    h ^ (h >> 29)
}

/// Shrink a failing tape. `spans` gives the spans of a tape's generation, `fails` decides.
pub fn shrink(
    start: Vec<u8>,
    spans: impl Fn(&[u8]) -> (Vec<(usize, usize)>, usize),
    mut fails: impl FnMut(&[u8]) -> bool,
    mut budget: impl FnMut() -> bool,
) -> Vec<u8> {
    let mut best = start;
    let norm = |t: &mut Vec<u8>, spans: &dyn Fn(&[u8]) -> (Vec<(usize, usize)>, usize)| {
        let (_, used) = spans(t);
        t.truncate(used);
        while t.last() == Some(&0) {
            t.pop();
        }
    };
    norm(&mut best, &spans);
    loop {
        let before = best.clone();
        // delete spans, largest first
        let mut progress = true;
        while progress && budget() {
            progress = false;
            let (mut sp, _) = spans(&best);
            sp.sort_by_key(|(a, b)| std::cmp::Reverse(b - a));
            sp.dedup();
            for (a, b) in sp {
                if !budget() {
                    break;
                }
                if a >= best.len() || b <= a {
                    continue;
                }
                let mut c = best.clone();
                c.drain(a..b.min(best.len()));
                if fails(&c) {
                    norm(&mut c, &spans);
                    best = c;
                    progress = true;
                    break;
                }
            }
        }
        // delete or zero chunks
        for size in [64usize, 16, 8, 4, 3, 2, 1] {
            let mut i = 0;
            while i < best.len() && budget() {
                let e = (i + size).min(best.len());
                let mut c = best.clone();
                c.drain(i..e);
                if fails(&c) {
                    norm(&mut c, &spans);
                    best = c;
                    continue;
                }
                if best[i..e].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    c[i..e].iter_mut().for_each(|x| *x = 0);
                    if fails(&c) {
                        norm(&mut c, &spans);
                        best = c;
                    }
                }
                i += size;
            }
        }
        // lower single bytes
        let mut i = 0;
        while i < best.len() && budget() {
            for v in [1u8, best[i] / 2, best[i].wrapping_sub(1)] {
                if i < best.len() && v < best[i] && budget() {
                    let mut c = best.clone();
                    c[i] = v;
                    if fails(&c) {
                        norm(&mut c, &spans);
                        best = c;
                    }
                }
            }
            i += 1;
        }
        if best == before || !budget() {
            return best;
        }
    }
}
