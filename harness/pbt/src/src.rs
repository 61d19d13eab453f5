//! The choice sequence that every generator draws from.
//!
//! A case is the list of choices made while generating it. Drawing past the end of a fixed list gives zeros, and
//! values that are too large for a choice are clamped, so that any list is a valid case: this is what makes
//! shrinking, mutating and replaying a case work on the list alone.

use crate::dict::Dict;
use std::sync::Arc;

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed ^ 0x9E37_79B9_7F4A_7C15)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            return self.next();
        }
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a.wrapping_mul(0xD6E8_FEB8_6659_FD93) ^ b.rotate_left(32));
    r.next() ^ r.next().rotate_left(17) ^ b
}

pub fn hash_str(s: &str) -> u64 {
    s.bytes().fold(0xcbf2_9ce4_8422_2325, |h, b| {
        (h ^ b as u64).wrapping_mul(0x100_0000_01b3)
    })
}

pub struct Src {
    fixed: Vec<u64>,
    pos: usize,
    rng: Option<Rng>,
    pub record: Vec<u64>,
    pub dict: Arc<Dict>,
    /// Whether the case ran out of its budget of choices.
    limit: usize,
}

impl Src {
    pub fn random(seed: u64, dict: Arc<Dict>) -> Self {
        Src { fixed: Vec::new(), pos: 0, rng: Some(Rng::new(seed)), record: Vec::new(), dict, limit: 200_000 }
    }
    /// Replay the given choices, with zeros afterwards.
    pub fn replay(choices: &[u64], dict: Arc<Dict>) -> Self {
        Src { fixed: choices.to_vec(), pos: 0, rng: None, record: Vec::new(), dict, limit: 200_000 }
    }
    /// Replay the given choices, with random ones afterwards.
    pub fn mutated(choices: Vec<u64>, seed: u64, dict: Arc<Dict>) -> Self {
        Src { fixed: choices, pos: 0, rng: Some(Rng::new(seed)), record: Vec::new(), dict, limit: 200_000 }
    }

    /// A choice in `0..=max`.
    pub fn choice(&mut self, max: u64) -> u64 {
        assert!(self.record.len() < 3_000_000, "a generator doesn't end");
        let v = if self.pos < self.fixed.len() {
            self.fixed[self.pos].min(max)
        } else if self.record.len() >= self.limit {
            0
        } else {
            match &mut self.rng {
                Some(rng) if max == u64::MAX => rng.next(),
                Some(rng) => rng.below(max + 1),
                None => 0,
            }
        };
        self.pos += 1;
        self.record.push(v);
        v
    }

    /// A number in `0..n`.
    pub fn below(&mut self, n: usize) -> usize {
        debug_assert!(n > 0);
        self.choice(n as u64 - 1) as usize
    }
    /// A number in `a..=b`.
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.choice((b - a) as u64) as usize
    }
    /// True with a probability of `pct` percent; shrinks to false.
    pub fn pct(&mut self, pct: u64) -> bool {
        self.choice(99) >= 100 - pct
    }
    pub fn bool(&mut self) -> bool {
        self.choice(1) == 1
    }
    /// The index of one of the weights; shrinks to the first.
    pub fn weighted(&mut self, weights: &[u32]) -> usize {
        let total: u64 = weights.iter().map(|w| *w as u64).sum();
        let mut v = self.choice(total - 1);
        for (i, w) in weights.iter().enumerate() {
            if v < *w as u64 {
                return i;
            }
            v -= *w as u64;
        }
        weights.len() - 1
    }
    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        let i = self.below(items.len());
        &items[i]
    }
}
