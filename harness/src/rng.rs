//! Deterministic pseudo random numbers: a case is fully determined by (property, seed, index).

#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
    /// numbers to draw first; what was drawn
    replay: Option<Box<Replay>>,
}

#[derive(Clone)]
struct Replay {
    choices: Vec<u64>,
    at: usize,
    drawn: Vec<u64>,
}

pub fn splitmix(state: &mut u64) -> u64 {
    *state = state.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *state;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

/// FNV-1a with a final mix: identity of inputs and results in the event log.
pub fn hash(bytes: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for chunk in bytes.chunks(8) {
        let mut v = 0u64;
        for (i, b) in chunk.iter().enumerate() {
            v |= (*b as u64) << (8 * i);
        }
        h = (h ^ v).wrapping_mul(0x0000_0100_0000_01b3);
        h ^= h >> 29;
    }
    let mut s = h ^ bytes.len() as u64;
    splitmix(&mut s)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut st = seed;
        let s = [
            splitmix(&mut st),
            splitmix(&mut st),
            splitmix(&mut st),
            splitmix(&mut st),
        ];
        Rng { s, replay: None }
    }

    /// Draws these numbers first, and keeps a record.
    pub fn replay(seed: u64, choices: Vec<u64>) -> Self {
        let mut r = Rng::new(seed);
        r.replay = Some(Box::new(Replay { choices, at: 0, drawn: vec![] }));
        r
    }

    pub fn drawn(&mut self) -> Vec<u64> {
        self.replay.as_mut().map(|r| std::mem::take(&mut r.drawn)).unwrap_or_default()
    }

    pub fn next(&mut self) -> u64 {
        let Some(p) = &mut self.replay else {
            return self.fresh();
        };
        let v = p.choices.get(p.at).copied();
        p.at += 1;
        let v = v.unwrap_or_else(|| self.fresh());
        let p = self.replay.as_mut().unwrap();
        if p.drawn.len() < crate::search::MAX_CHOICES {
            p.drawn.push(v);
        }
        v
    }

    fn fresh(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }

    /// 0..n (n > 0)
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }

    /// lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }

    pub fn irange(&mut self, lo: i64, hi: i64) -> i64 {
        lo + (self.next() % ((hi - lo + 1) as u64)) as i64
    }

    pub fn byte(&mut self) -> u8 {
        self.next() as u8
    }

    /// true with probability n/d
    pub fn chance(&mut self, n: usize, d: usize) -> bool {
        self.below(d) < n
    }

    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }

    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.byte()).collect()
    }

    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}
