//! Search guided by the edges of the code under test: the generators draw all their choices from
//! one source of numbers, so a case can be varied by varying the numbers. A variant which shows
//! something new of the code is kept and varied further. What is searched through is exactly what the
//! generators can make, and the monitors and oracles are those of the check.

use crate::cov;
use crate::rng::Rng;

#[derive(Clone, Debug, PartialEq)]
pub struct Genome {
    /// number of the case, by which some checks choose the kind of case
    pub idx: u64,
    pub choices: Vec<u64>,
    /// seed of what is drawn behind the choices
    pub tail: u64,
}

pub const MAX_CHOICES: usize = 1 << 16;
const MAGIC: &[u8; 8] = b"mvdgenom";

impl Genome {
    pub fn rng(&self) -> Rng {
        Rng::replay(self.tail, self.choices.clone())
    }
    pub fn to_bytes(&self) -> Vec<u8> {
        let mut o = MAGIC.to_vec();
        o.extend_from_slice(&self.idx.to_le_bytes());
        o.extend_from_slice(&self.tail.to_le_bytes());
        o.extend_from_slice(&(self.choices.len() as u64).to_le_bytes());
        for c in &self.choices {
            o.extend_from_slice(&c.to_le_bytes());
        }
        o
    }
    pub fn from_bytes(b: &[u8]) -> Option<Genome> {
        let b = b.strip_prefix(MAGIC)?;
        let v: Vec<u64> = b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
        let n = *v.get(2)? as usize;
        Some(Genome {
            idx: v[0],
            tail: v[1],
            choices: v.get(3..3 + n)?.to_vec(),
        })
    }
}

pub struct Search {
    r: Rng,
    /// numbers of the code under test
    ints: Vec<u64>,
    corpus: Vec<Genome>,
    pub seen: cov::Seen,
    pub kept: u64,
}

impl Search {
    pub fn new(seed: u64, ints: &[u64]) -> Search {
        Search {
            r: Rng::new(seed),
            ints: ints.to_vec(),
            corpus: vec![],
            seen: cov::Seen::new(),
            kept: 0,
        }
    }

    pub fn next(&mut self) -> Genome {
        let r = &mut self.r;
        if self.corpus.len() < 8 || r.chance(1, 10) {
            return Genome {
                idx: r.next() % (1 << 20),
                choices: vec![],
                tail: r.next(),
            };
        }
        // prefer what was found last, and what is short (not what is quick: the search is to be the same
        // when the machine is busy)
        let mut g = {
            let n = self.corpus.len();
            let pick = |r: &mut Rng| if r.chance(1, 2) { n - 1 - r.below(n.min(16)) } else { r.below(n) };
            let (a, b) = (pick(r), pick(r));
            let len = |i: usize| self.corpus[i].choices.len();
            let short = if len(a) <= len(b) { a } else { b };
            self.corpus[if r.chance(7, 8) { short } else { a }].clone()
        };
        for _ in 0..1 << r.below(4) {
            let n = g.choices.len();
            if n == 0 {
                g.tail = r.next();
                continue;
            }
            let at = match r.below(3) {
                0 => r.below(n.min(64)),
                _ => r.below(n),
            };
            match r.below(13) {
                0..=3 => g.choices[at] = r.next(),
                4 => g.choices[at] = g.choices[at].wrapping_add(1),
                5 => g.choices[at] = g.choices[at].wrapping_sub(1),
                6 => g.choices[at] = r.below(4) as u64,
                7 => {
                    // again what was drawn elsewhere
                    let most = 1 << r.below(8);
                    let len = r.range(1, most).min(n - at);
                    let from = r.below(n - len + 1);
                    let part = g.choices[from..from + len].to_vec();
                    if r.chance(1, 2) {
                        g.choices[at..at + len].copy_from_slice(&part);
                    } else {
                        g.choices.splice(at..at, part);
                    }
                }
                8 => {
                    let most = 1 << r.below(8);
                    let len = r.range(1, most).min(n - at);
                    g.choices.drain(at..at + len);
                }
                9 => {
                    let most = 1 << r.below(6);
                    let len = r.range(1, most);
                    let part: Vec<u64> = (0..len).map(|_| r.next()).collect();
                    g.choices.splice(at..at, part);
                }
                10 => {
                    // another end
                    if r.chance(1, 2) {
                        g.choices.truncate(at);
                        g.tail = r.next();
                    } else {
                        let o = &self.corpus[r.below(self.corpus.len())].choices;
                        let from = r.below(o.len() + 1);
                        g.choices.truncate(at);
                        g.choices.extend_from_slice(&o[from..]);
                    }
                }
                11 => {
                    // a number of the code, or near it: a choice from 0..n is the number modulo n
                    let v = if self.ints.is_empty() { 0 } else { *r.pick(&self.ints) };
                    g.choices[at] = v.wrapping_add(r.below(8) as u64).wrapping_sub(4);
                }
                _ => g.idx = r.next() % (1 << 20),
            }
            g.choices.truncate(MAX_CHOICES);
        }
        g
    }

    /// What the case with these choices showed.
    pub fn learn(&mut self, g: Genome) {
        if self.seen.update() > 0 {
            self.kept += 1;
            self.corpus.push(g);
            if self.corpus.len() > 2000 {
                let i = self.r.below(1000);
                self.corpus.remove(i);
            }
        }
    }
}
