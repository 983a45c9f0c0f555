//! Deterministic randomness: a splitmix/xoshiro generator, or a byte string
//! (coverage-guided fuzzing), behind one interface.

pub enum Source {
    Seed([u64; 4]),
    Bytes { data: Vec<u8>, pos: usize },
}

pub struct Rng {
    src: Source,
}

fn splitmix(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut s = seed ^ 0xC0105BACE;
        let st = [splitmix(&mut s), splitmix(&mut s), splitmix(&mut s), splitmix(&mut s)];
        Rng { src: Source::Seed(st) }
    }
    pub fn from_bytes(data: &[u8]) -> Rng {
        Rng { src: Source::Bytes { data: data.to_vec(), pos: 0 } }
    }
    pub fn exhausted(&self) -> bool {
        match &self.src {
            Source::Seed(_) => false,
            Source::Bytes { data, pos } => *pos >= data.len(),
        }
    }
    pub fn u64(&mut self) -> u64 {
        match &mut self.src {
            Source::Seed(s) => {
                let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
                let t = s[1] << 17;
                s[2] ^= s[0];
                s[3] ^= s[1];
                s[1] ^= s[2];
                s[0] ^= s[3];
                s[2] ^= t;
                s[3] = s[3].rotate_left(45);
                r
            }
            Source::Bytes { data, pos } => {
                let mut v = 0u64;
                for _ in 0..8 {
                    v = (v << 8) | *data.get(*pos).unwrap_or(&0) as u64;
                    *pos += 1;
                }
                v
            }
        }
    }
    /// Uniform in 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        match &mut self.src {
            Source::Seed(_) => (self.u64() % n as u64) as usize,
            Source::Bytes { data, pos } => {
                // one or two bytes per decision keeps the fuzzer's mutations local
                let mut v = *data.get(*pos).unwrap_or(&0) as usize;
                *pos += 1;
                if n > 256 {
                    v = (v << 8) | *data.get(*pos).unwrap_or(&0) as usize;
                    *pos += 1;
                }
                v % n
            }
        }
    }
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    /// Uniform in [0,1)
    pub fn unit(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn uni(&mut self, a: f64, b: f64) -> f64 {
        a + (b - a) * self.unit()
    }
    /// Log-uniform magnitude between 10^lo and 10^hi
    pub fn logu(&mut self, lo: f64, hi: f64) -> f64 {
        10f64.powf(self.uni(lo, hi))
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}
