//! Auto dictionary: number and string literals of the tree under test steer the generators towards
//! the sizes, values and texts at which the code could behave differently. The dictionary only
//! picks inputs; no verdict depends on it.

use crate::rng::Rng;

#[derive(Default, Clone)]
pub struct Dict {
    pub ints: Vec<u64>,
    pub strs: Vec<Vec<u8>>,
}

impl Dict {
    pub fn load(dir: &str) -> Dict {
        let mut d = Dict::default();
        let mut stack = vec![std::path::PathBuf::from(dir)];
        while let Some(p) = stack.pop() {
            let Ok(rd) = std::fs::read_dir(&p) else {
                continue;
            };
            for e in rd.flatten() {
                let path = e.path();
                if path.is_dir() {
                    stack.push(path);
                } else if path.extension().is_some_and(|x| x == "rs") {
                    if let Ok(t) = std::fs::read_to_string(&path) {
                        let t = t.split("#[cfg(test)]").next().unwrap_or("");
                        d.scan(t.as_bytes());
                    }
                }
            }
        }
        for b in [7u32, 8, 10, 12, 15, 16] {
            d.ints.push(1 << b);
        }
        d.ints.extend([100, 127, 200, 255, 500, 999, 1000]);
        d.ints.sort();
        d.ints.dedup();
        d.ints.retain(|v| *v <= u32::MAX as u64);
        d.strs.sort();
        d.strs.dedup();
        d
    }

    fn scan(&mut self, t: &[u8]) {
        let mut i = 0;
        let mut prev = b' ';
        while i < t.len() {
            let c = t[i];
            if c == b'/' && t.get(i + 1) == Some(&b'/') {
                while i < t.len() && t[i] != b'\n' {
                    i += 1;
                }
                continue;
            }
            if c == b'"' {
                let mut s = vec![];
                i += 1;
                while i < t.len() && t[i] != b'"' && t[i] != b'\n' {
                    if t[i] == b'\\' && prev != b'#' && i + 1 < t.len() {
                        i += 1;
                        s.push(match t[i] {
                            b'n' => b'\n',
                            b'0' => 0,
                            x => x,
                        });
                    } else {
                        s.push(t[i]);
                    }
                    i += 1;
                }
                if !s.is_empty() && s.len() < 64 {
                    self.strs.push(s);
                }
                prev = b'"';
                i += 1;
                continue;
            }
            if c.is_ascii_digit() && !prev.is_ascii_alphanumeric() && prev != b'_' {
                let mut j = i;
                while j < t.len() && (t[j].is_ascii_alphanumeric() || t[j] == b'_') {
                    j += 1;
                }
                let tok: String = t[i..j]
                    .iter()
                    .map(|b| *b as char)
                    .filter(|c| *c != '_')
                    .collect();
                let v = if let Some(h) = tok.strip_prefix("0x") {
                    u64::from_str_radix(h, 16).ok()
                } else {
                    let digits: String = tok.chars().take_while(|c| c.is_ascii_digit()).collect();
                    digits.parse().ok()
                };
                if let Some(v) = v {
                    self.ints.push(v);
                }
                prev = b'0';
                i = j;
                continue;
            }
            prev = c;
            i += 1;
        }
    }

    /// A number in lo..=hi, biased towards literals of the code (and their neighbours).
    pub fn int(&self, r: &mut Rng, lo: u64, hi: u64) -> u64 {
        let c: Vec<u64> = self
            .ints
            .iter()
            .flat_map(|v| [v.saturating_sub(1), *v, v + 1])
            .filter(|v| (lo..=hi).contains(v))
            .collect();
        if c.is_empty() || r.chance(1, 4) {
            lo + r.next() % (hi - lo + 1)
        } else {
            *r.pick(&c)
        }
    }

    pub fn str(&self, r: &mut Rng) -> Vec<u8> {
        if self.strs.is_empty() {
            return vec![];
        }
        r.pick(&self.strs).clone()
    }
}
