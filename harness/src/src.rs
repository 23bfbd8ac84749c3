//! The choice tape: every random decision of a case is one number on the tape. Generation
//! records the tape, replay reads it back, and the shrinker edits it. The same decoders can be
//! driven by any source of numbers.

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed ^ 0x9e37_79b9_7f4a_7c15)
    }
    // splitmix64
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
}

pub struct Src {
    tape: Vec<u64>,
    pos: usize,
    rng: Option<Rng>,
    /// What was actually used, reduced to the ranges asked for.
    pub used: Vec<u64>,
}

impl Src {
    pub fn random(seed: u64) -> Src {
        Src { tape: Vec::new(), pos: 0, rng: Some(Rng::new(seed)), used: Vec::new() }
    }
    pub fn replay(tape: Vec<u64>) -> Src {
        Src { tape, pos: 0, rng: None, used: Vec::new() }
    }
    pub fn raw(&mut self) -> u64 {
        let v = match &mut self.rng {
            Some(r) => r.next(),
            None => self.tape.get(self.pos).copied().unwrap_or(0),
        };
        self.pos += 1;
        self.used.push(v);
        v
    }
    /// Uniform in `0..n`; 0 is the simplest.
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        let v = match &mut self.rng {
            Some(r) => (u128::from(r.next()) * n as u128 >> 64) as u64,
            None => self.tape.get(self.pos).copied().unwrap_or(0) % n as u64,
        };
        self.pos += 1;
        self.used.push(v);
        v as usize
    }
    /// Uniform in `lo..=hi`.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// True with probability `num / den`; shrinks to false.
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        &items[self.below(items.len())]
    }
    /// Index chosen by weight; earlier entries are simpler.
    pub fn weighted(&mut self, weights: &[usize]) -> usize {
        let total: usize = weights.iter().sum();
        let mut v = self.below(total);
        for (i, w) in weights.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        unreachable!()
    }
    /// A random subset of `0..n` with the given inclusion probability.
    pub fn permutation(&mut self, n: usize) -> Vec<usize> {
        let mut p: Vec<usize> = (0..n).collect();
        for i in 0..n.saturating_sub(1) {
            let j = i + self.below(n - i);
            p.swap(i, j);
        }
        p
    }
}

pub fn hash64(data: &[u64]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for v in data {
        h ^= *v;
        h = h.wrapping_mul(0x100_0000_01b3);
        h ^= h >> 29;
    }
    h
}
