//! The choice source. Every random decision of a case is one recorded choice (a number and the
//! bound it was drawn under); a case is a pure function of its list of choices, which makes
//! replaying and shrinking a matter of editing that list. Zero is always the simplest choice and
//! an exhausted list yields zeros.

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed ^ 0x9E37_79B9_7F4A_7C15)
    }

    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }

    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        ((self.next() as u128 * n as u128) >> 64) as u64
    }

    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
}

pub fn hash_bytes(mut h: u64, bytes: &[u8]) -> u64 {
    for b in bytes {
        h ^= *b as u64;
        h = h.wrapping_mul(0x0000_0100_0000_01B3);
    }
    Rng::new(h).next()
}

pub struct G {
    replay: Option<Vec<u64>>,
    rng: Rng,
    pub rec: Vec<u64>,
    pub describe: bool,
    pub notes: Vec<String>,
    pub thorough: bool,
    known: Option<String>,
}

impl G {
    pub fn random(seed: u64, thorough: bool) -> G {
        G {
            replay: None,
            rng: Rng::new(seed),
            rec: vec![],
            describe: false,
            notes: vec![],
            thorough,
            known: None,
        }
    }

    pub fn replaying(choices: Vec<u64>, thorough: bool) -> G {
        G {
            replay: Some(choices),
            rng: Rng::new(0),
            rec: vec![],
            describe: false,
            notes: vec![],
            thorough,
            known: None,
        }
    }

    /// A number in 0..n.
    pub fn below(&mut self, n: u64) -> u64 {
        let v = match self.replay {
            Some(ref r) => {
                let v = if self.rec.len() < r.len() { r[self.rec.len()] } else { 0 };
                if n == 0 {
                    v
                } else if v >= n {
                    v % n
                } else {
                    v
                }
            }
            None => {
                if n == 0 {
                    self.rng.next()
                } else {
                    self.rng.below(n)
                }
            }
        };
        self.rec.push(v);
        v
    }

    /// Any 64 bit number.
    pub fn raw(&mut self) -> u64 {
        self.below(0)
    }

    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        assert!(lo <= hi);
        lo + self.below((hi - lo + 1) as u64) as usize
    }

    pub fn irange(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }

    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }

    /// True with a probability of num/den; shrinks to false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        let v = self.below(den);
        v >= den - num
    }

    pub fn pick<'a, X>(&mut self, items: &'a [X]) -> &'a X {
        let i = self.below(items.len() as u64) as usize;
        &items[i]
    }

    /// An index into weights, chosen by weight.
    pub fn weighted(&mut self, weights: &[u64]) -> usize {
        let total: u64 = weights.iter().sum();
        let mut v = self.below(total);
        for (i, w) in weights.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        weights.len() - 1
    }

    /// A number in [0, 1).
    pub fn unit(&mut self) -> f64 {
        self.below(1 << 32) as f64 / (1u64 << 32) as f64
    }

    /// A number in [lo, hi), often a round one.
    pub fn float(&mut self, lo: f64, hi: f64) -> f64 {
        if self.chance(1, 3) {
            let steps = 20;
            let k = self.below(steps + 1) as f64;
            lo + (hi - lo) * k / steps as f64
        } else {
            lo + (hi - lo) * self.unit()
        }
    }

    /// A length: mostly small with all small values likely, sometimes near powers of two, sometimes
    /// anything up to max.
    pub fn len(&mut self, min: usize, max: usize) -> usize {
        assert!(min <= max);
        let span = max - min;
        match self.weighted(&[50, 25, 15, 10]) {
            0 => min + self.below((span.min(20) + 1) as u64) as usize,
            1 => min + self.below((span.min(100) + 1) as u64) as usize,
            2 => {
                let mut k = 4usize;
                let top = (max as f64).log2().floor() as usize;
                k += self.below(top.max(5) as u64 - 3) as usize;
                let base = 1i64 << k.min(top.max(1));
                let l = base + self.irange(-2, 2);
                l.max(min as i64).min(max as i64) as usize
            }
            _ => min + self.below((span + 1) as u64) as usize,
        }
    }

    pub fn note<F: FnOnce() -> String>(&mut self, f: F) {
        if self.describe {
            let s = f();
            self.notes.push(s);
        }
    }

    /// Marks the case as an instance of a known finding: a failure of this case counts as that
    /// finding, if the committed list has it, and as a violation otherwise.
    pub fn set_known(&mut self, id: &str) {
        self.known = Some(id.to_owned());
    }

    pub fn known(&self) -> Option<String> {
        self.known.clone()
    }
}
