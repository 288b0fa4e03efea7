//! Choice tapes: every generated case is a sequence of bounded integer choices.

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    /// Uniform in [-1, 1).
    pub fn sym(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 52) as f64 - 1.0
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a ^ b.wrapping_mul(0xD6E8FEB86659FD93));
    r.next();
    r.next() ^ b
}
pub fn hash_str(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}
pub fn hash_u64s(v: &[u64]) -> u64 {
    v.iter().fold(0x1234_5678, |h, &x| mix(h, x))
}

pub struct Tape {
    pub data: Vec<u64>,
    pos: usize,
    rng: Option<Rng>,
    /// Case index while generating: lets a property enumerate a finite dimension.
    index: u64,
    rec: Option<std::fs::File>,
}

impl Tape {
    /// Also append every choice to a file (survives an abort of the process).
    pub fn record_to(&mut self, p: &std::path::Path) {
        self.rec = std::fs::File::create(p).ok();
    }
    fn note(&mut self, v: u64) {
        if let Some(f) = &mut self.rec {
            use std::io::Write;
            let _ = write!(f, "{v} ");
        }
        self.data.push(v);
    }
    pub fn generate(seed: u64, index: u64) -> Self {
        Tape { data: vec![], pos: 0, rng: Some(Rng::new(mix(seed, index))), index, rec: None }
    }
    pub fn replay(data: Vec<u64>) -> Self {
        Tape { data, pos: 0, rng: None, index: 0, rec: None }
    }
    pub fn used(&self) -> &[u64] {
        &self.data[..self.pos.min(self.data.len())]
    }
    /// A choice in 0..bound; 0 is the simplest one.
    pub fn below(&mut self, bound: u64) -> u64 {
        debug_assert!(bound > 0);
        let v = match &mut self.rng {
            Some(r) => {
                let v = r.below(bound);
                self.note(v);
                v
            }
            None => self.data.get(self.pos).copied().unwrap_or(0).min(bound - 1),
        };
        self.pos += 1;
        v
    }
    /// A choice that runs through 0..bound with the case index while generating.
    pub fn enumerated(&mut self, bound: u64) -> u64 {
        let v = match &mut self.rng {
            Some(_) => {
                let v = self.index % bound;
                self.note(v);
                v
            }
            None => self.data.get(self.pos).copied().unwrap_or(0).min(bound - 1),
        };
        self.pos += 1;
        v
    }
    pub fn int(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn us(&mut self, lo: usize, hi: usize) -> usize {
        self.int(lo as u64, hi as u64) as usize
    }
    /// True with probability num/den; false is simplest.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<T: Copy>(&mut self, v: &[T]) -> T {
        v[self.below(v.len() as u64) as usize]
    }
    /// Index chosen with the given weights.
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut x = self.below(total);
        for (i, &wi) in w.iter().enumerate() {
            if x < wi {
                return i;
            }
            x -= wi;
        }
        unreachable!()
    }
    pub fn seed(&mut self) -> u64 {
        self.below(1 << 32)
    }
    /// Grid of 2^20 points in [lo, hi]; lo simplest.
    pub fn f(&mut self, lo: f64, hi: f64) -> f64 {
        lo + (hi - lo) * self.below((1 << 20) + 1) as f64 / (1u64 << 20) as f64
    }
}
