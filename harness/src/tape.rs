//! Choice tapes. Every nondeterministic decision of a simulated run is one
//! draw from one of a few lanes; a recorded lane replays exactly, and a lane
//! that runs out answers 0, which is always the simplest choice.

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x1_0000_0000_01b3);
    }
    mix(h)
}

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

enum Src {
    Seeded(Rng),
    Fixed(Vec<u64>),
}

pub struct Lane {
    src: Src,
    pub rec: Vec<u64>,
    i: usize,
    /// written as drawn, for runs that end the process
    pub sink: Option<std::fs::File>,
}

impl Lane {
    pub fn seeded(seed: u64) -> Self {
        Lane { src: Src::Seeded(Rng::new(seed)), rec: vec![], i: 0, sink: None }
    }
    pub fn fixed(v: Vec<u64>) -> Self {
        Lane { src: Src::Fixed(v), rec: vec![], i: 0, sink: None }
    }
    fn push(&mut self, v: u64) {
        self.rec.push(v);
        if let Some(f) = &mut self.sink {
            use std::io::Write;
            let _ = f.write_all(&v.to_le_bytes());
        }
    }
    fn raw(&mut self) -> u64 {
        let i = self.i;
        self.i += 1;
        match &mut self.src {
            Src::Seeded(r) => r.next(),
            Src::Fixed(v) => v.get(i).copied().unwrap_or(0),
        }
    }
    /// A value in 0..n. 0 is the simplest choice by convention.
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let v = self.raw() % n;
        self.push(v);
        v
    }
    pub fn us(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// lo..=hi
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    /// true with probability num/den
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        if num == 0 {
            return false;
        }
        // 0 must mean "no"
        self.below(den) >= den - num.min(den)
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.us(xs.len())]
    }
    /// index by integer weights; index 0 is the simplest
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let tot: u64 = w.iter().sum();
        let mut v = self.below(tot);
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= *x;
        }
        0
    }
    /// roughly log-uniform in 0..n
    pub fn log_below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let bits = 64 - (n - 1).leading_zeros() as u64;
        let b = self.below(bits + 1);
        if b == 0 {
            return 0;
        }
        let hi = if b >= 64 { u64::MAX } else { 1u64 << b };
        self.below(hi.min(n))
    }
    pub fn raw_u64(&mut self) -> u64 {
        let v = self.raw();
        self.push(v);
        v
    }
}
