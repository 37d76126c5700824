//! The single source of every decision of a run.
//!
//! In recording mode values come from a seeded PRNG and are recorded; in replay mode they come from
//! the recorded list (0 once it is exhausted). A run is a pure function of this list and the code.

#[derive(Clone)]
pub struct Prng(u64);

impl Prng {
    pub fn new(seed: u64) -> Self {
        Prng(seed ^ 0x9e37_79b9_7f4a_7c15)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.next() % n }
    }
    pub fn fill(&mut self, len: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(len + 8);
        while v.len() < len {
            v.extend_from_slice(&self.next().to_le_bytes());
        }
        v.truncate(len);
        v
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut p = Prng::new(a ^ b.rotate_left(32).wrapping_mul(0xd6e8_feb8_6659_fd93));
    p.next()
}

pub fn fnv(bytes: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for &b in bytes {
        h ^= b as u64;
        h = h.wrapping_mul(0x0000_0100_0000_01b3);
    }
    h
}

pub enum Mode {
    Record(Prng),
    Replay,
}

pub struct Choices {
    mode: Mode,
    pub log: Vec<u64>,
    pos: usize,
}

pub const MAX_CHOICES: usize = 400_000;

impl Choices {
    pub fn record(seed: u64) -> Self {
        Choices { mode: Mode::Record(Prng::new(seed)), log: Vec::new(), pos: 0 }
    }
    pub fn replay(log: Vec<u64>) -> Self {
        Choices { mode: Mode::Replay, log, pos: 0 }
    }
    pub fn used(&self) -> usize {
        self.pos
    }
    /// Uniform in 0..n (n >= 1).
    pub fn below(&mut self, n: u64) -> u64 {
        let n = n.max(1);
        let v = match &mut self.mode {
            Mode::Record(p) => {
                let v = p.below(n);
                if self.log.len() < MAX_CHOICES {
                    self.log.push(v);
                }
                v
            }
            Mode::Replay => {
                let v = self.log.get(self.pos).copied().unwrap_or(0);
                if v < n { v } else { v % n }
            }
        };
        self.pos += 1;
        v
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn u64(&mut self) -> u64 {
        self.below(u64::MAX)
    }
    /// lo..=hi
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    /// True with probability num/den; false is the "simple" value.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        // Record as 0/1 so that minimisation towards zero means "no".
        let v = match &mut self.mode {
            Mode::Record(p) => {
                let v = (p.below(den) < num) as u64;
                if self.log.len() < MAX_CHOICES {
                    self.log.push(v);
                }
                v
            }
            Mode::Replay => self.log.get(self.pos).copied().unwrap_or(0),
        };
        self.pos += 1;
        v != 0
    }
    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        let i = self.idx(items.len());
        &items[i]
    }
    /// A size with a bias to small values and boundaries.
    pub fn size(&mut self, max: u64) -> u64 {
        let class = self.below(8);
        let v = match class {
            0 => self.below(3),
            1 | 2 | 3 => self.below(17),
            4 | 5 => self.below(70),
            6 => self.below(300),
            _ => self.below(max + 1),
        };
        v.min(max)
    }
    /// Bytes whose content derives from one choice.
    pub fn bytes(&mut self, len: usize) -> Vec<u8> {
        let seed = self.below(1 << 32);
        Prng::new(seed).fill(len)
    }
}
