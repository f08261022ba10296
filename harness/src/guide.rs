//! Coverage-guided choice of tapes: tapes that reached something new in the crate under test
//! are kept, mutated (span by span where possible) and crossed.
use crate::tape::{Rng, Src};
use rvcov::Coverage;
use std::time::Instant;

struct Entry {
    tape: Vec<u8>,
    spans: Vec<(usize, usize)>,
    /// reached a new edge, not only a new comparison
    edge: bool,
    /// what a run of it costs, in microseconds
    time: u32,
}

pub struct Guide {
    rng: Rng,
    cov: Coverage,
    corpus: Vec<Entry>,
    runs: u64,
    t0: Instant,
}

const MAX_TAPE: usize = 20_000;

impl Guide {
    pub fn new(seed: u64) -> Self {
        let cov = Coverage::new("radixdb").expect("not an instrumented build");
        Guide { rng: Rng::new(seed), cov, corpus: Vec::new(), runs: 0, t0: Instant::now() }
    }
    pub fn edges(&self) -> usize {
        self.cov.edges
    }
    pub fn total_edges(&self) -> usize {
        self.cov.total_edges
    }
    pub fn features(&self) -> usize {
        self.cov.features
    }
    pub fn corpus(&self) -> usize {
        self.corpus.len()
    }
    pub fn start(&mut self) {
        self.t0 = Instant::now();
        self.cov.start();
    }
    pub fn stop(&mut self, tape: &[u8], mut spans: Vec<(usize, usize)>) {
        let time = self.t0.elapsed().as_micros() as u32;
        let (new, vnew) = self.cov.stop();
        if new + vnew > 0 && tape.len() <= MAX_TAPE {
            spans.retain(|(a, b)| b > a && *b <= tape.len());
            self.corpus.push(Entry { tape: tape.to_vec(), spans, edge: new > 0, time });
        }
    }

    fn choose(&mut self) -> usize {
        let n = self.corpus.len();
        let one = |r: &mut Rng| match r.below(4) {
            // what was found last
            0 | 1 => n - 1 - r.below((n as u64).min(32)) as usize,
            _ => r.below(n as u64) as usize,
        };
        let a = one(&mut self.rng);
        let b = one(&mut self.rng);
        let (x, y) = (&self.corpus[a], &self.corpus[b]);
        let slow = |e: &Entry| e.time / (1 + e.edge as u32);
        if slow(x) <= slow(y) {
            a
        } else {
            b
        }
    }

    fn piece(&mut self) -> Vec<u8> {
        let i = self.choose();
        let e = &self.corpus[i];
        if e.spans.is_empty() {
            return Vec::new();
        }
        let (a, b) = e.spans[self.rng.below(e.spans.len() as u64) as usize];
        e.tape[a..b].to_vec()
    }

    /// the next tape to run
    pub fn next(&mut self) -> Src {
        self.runs += 1;
        let seed = self.rng.next();
        if self.corpus.is_empty() || self.runs < 200 || self.rng.below(16) == 0 {
            return Src::random(seed);
        }
        let i = self.choose();
        let (mut t, spans) = (self.corpus[i].tape.clone(), self.corpus[i].spans.clone());
        let mut fresh = true;
        for _ in 0..1 + self.rng.below(4) {
            let n = t.len() as u64;
            if n == 0 {
                break;
            }
            let r = &mut self.rng;
            match r.below(12) {
                0..=2 => {
                    let k = r.below(n) as usize;
                    t[k] = r.next() as u8;
                }
                3 | 4 => {
                    let k = r.below(n) as usize;
                    let d = 1 + r.below(4) as u8;
                    t[k] = if r.below(2) == 0 { t[k].wrapping_add(d) } else { t[k].wrapping_sub(d) };
                }
                5 => {
                    // a constant the code knows, or near it
                    let k = r.below(n) as usize;
                    let c = self.cov.constant(r.next() as usize & 255) + r.below(3) as usize;
                    let c = c.wrapping_sub(r.below(4) as usize);
                    if c > 255 && k + 1 < t.len() {
                        t[k] = (c >> 8) as u8;
                        t[k + 1] = c as u8;
                    } else {
                        t[k] = c as u8;
                    }
                }
                6 => {
                    // the same bytes elsewhere
                    let k = r.below(n) as usize;
                    let len = (1 + r.below(16) as usize).min(t.len() - k);
                    let to = r.below(n) as usize;
                    for j in 0..len.min(t.len() - to) {
                        t[to + j] = t[k + j];
                    }
                }
                op @ 7..=10 => {
                    // the spans are those of the tape before it was changed
                    if !fresh || spans.is_empty() {
                        continue;
                    }
                    fresh = false;
                    let (a, b) = spans[r.below(spans.len() as u64) as usize];
                    match op {
                        7 => {
                            t.drain(a..b);
                        }
                        8 => {
                            let x = t[a..b].to_vec();
                            t.splice(b..b, x);
                        }
                        9 => {
                            let x = self.piece();
                            t.splice(a..b, x);
                        }
                        _ => {
                            let x = self.piece();
                            t.splice(b..b, x);
                        }
                    }
                }
                _ => {
                    // another end
                    let k = r.below(n) as usize;
                    t.truncate(k);
                    return Src::extend(&t, seed);
                }
            }
        }
        t.truncate(MAX_TAPE);
        Src::extend(&t, seed)
    }
}
