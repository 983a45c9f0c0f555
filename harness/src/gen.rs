//! Workload generators.

use crate::ctx::Ctx;

pub const SPECIAL: &[f64] = &[
    0.0, -0.0, 1.0, -1.0, 0.5, 0.25, 0.75, 2.0, 10.0, 100.0, 1000.0, 0.1, 0.01, 0.001, 1e-4, 1e-5, 1e-6, 1e-8, 1e-10, 0.18, 0.9, 0.99, 0.999,
    1.001, 1.1, 1.5, 3.0, 4.0, 5.0, 8.0, 16.0, 64.0, 255.0, 256.0, 1023.0, 4095.0, 65504.0, 1e4, 1e5, -0.1, -0.5, -0.01, -1e-3, -2.0, -10.0,
    0.33333333333333331, 0.66666666666666663, 0.0031308, 0.040449936, 0.04045, 0.018, 0.081, 0.010591, 0.149658, 0.008856451679035631, 50.0, 180.0, 360.0,
];

pub fn next_up(x: f64) -> f64 {
    if x.is_nan() || x == f64::INFINITY {
        return x;
    }
    if x == 0.0 {
        return f64::from_bits(1);
    }
    let b = x.to_bits();
    f64::from_bits(if x > 0.0 { b + 1 } else { b - 1 })
}
pub fn next_down(x: f64) -> f64 {
    -next_up(-x)
}
pub fn next_up32(x: f32) -> f32 {
    if x.is_nan() || x == f32::INFINITY {
        return x;
    }
    if x == 0.0 {
        return f32::from_bits(1);
    }
    let b = x.to_bits();
    f32::from_bits(if x > 0.0 { b + 1 } else { b - 1 })
}
pub fn next_down32(x: f32) -> f32 {
    -next_up32(-x)
}

impl Ctx {
    /// A number taken from the sources under test (or next to one).
    pub fn dict_value(&mut self) -> f64 {
        let v = if !self.dict.novel.is_empty() && self.rng.chance(1, 2) {
            let n = self.rng.below(self.dict.novel.len());
            self.dict.novel[n]
        } else if !self.dict.all.is_empty() && self.rng.chance(1, 2) {
            let n = self.rng.below(self.dict.all.len());
            self.dict.all[n]
        } else {
            *self.rng.pick(SPECIAL)
        };
        self.jitter(v)
    }

    pub fn jitter(&mut self, v: f64) -> f64 {
        match self.rng.below(14) {
            0 => next_up(v),
            1 => next_down(v),
            2 => v as f32 as f64,
            3 => {
                let d = self.rng.logu(-9.0, -1.0);
                v * (1.0 + d)
            }
            4 => {
                let d = self.rng.logu(-9.0, -1.0);
                v * (1.0 - d)
            }
            5 => -v,
            6 => v / 100.0,
            7 => v * 100.0,
            8 => {
                let d = self.rng.logu(-6.0, 0.0);
                if self.rng.chance(1, 2) {
                    v + d
                } else {
                    v - d
                }
            }
            _ => v,
        }
    }

    /// A novel source number, if there is one.
    pub fn novel(&mut self) -> Option<f64> {
        if self.dict.novel.is_empty() {
            None
        } else {
            let n = self.rng.below(self.dict.novel.len());
            Some(self.dict.novel[n])
        }
    }

    /// A colour channel: in gamut, dark, HDR, negative, thresholds, code values.
    pub fn channel(&mut self) -> f64 {
        match self.rng.below(20) {
            0..=5 => self.rng.unit(),
            6 | 7 => self.rng.logu(-9.0, 0.0),
            8 => self.rng.logu(0.0, 4.0),
            9 => -self.rng.logu(-9.0, 1.0),
            10 => self.rng.uni(-0.5, 1.5),
            11 => self.rng.below(256) as f64 / 255.0,
            12 => self.rng.below(65536) as f64 / 65535.0,
            13 => self.rng.below(11) as f64 / 10.0,
            14 => self.rng.uni(0.0, 0.05),
            15 => self.rng.uni(0.9, 1.1),
            _ => {
                let v = self.dict_value();
                if v.abs() <= 1e6 {
                    v
                } else {
                    1e6 * v.signum()
                }
            }
        }
    }

    pub fn nonneg(&mut self) -> f64 {
        self.channel().abs()
    }

    /// Three channels with structure: equal, zero, permuted, dominated...
    pub fn color(&mut self) -> [f64; 3] {
        let mut c = [self.channel(), self.channel(), self.channel()];
        match self.rng.below(16) {
            0 => c = [c[0]; 3],
            1 => c[1] = c[0],
            2 => c[2] = c[0],
            3 => c[2] = c[1],
            4 => {
                let i = self.rng.below(3);
                c[i] = 0.0;
            }
            5 => {
                let i = self.rng.below(3);
                let v = c[i];
                c = [0.0; 3];
                c[i] = v;
            }
            6 => {
                let i = self.rng.below(3);
                c[i] = 1.0;
            }
            7 => {
                let i = self.rng.below(3);
                c[i] = -c[(i + 1) % 3];
            }
            8 => {
                // nearly equal
                let d = self.rng.logu(-12.0, -3.0);
                c[1] = c[0] * (1.0 + d);
            }
            9 => {
                let s = self.rng.logu(-6.0, 4.0);
                c = [c[0] * s, c[1] * s, c[2] * s];
            }
            _ => {}
        }
        c
    }

    pub fn color_nonneg(&mut self) -> [f64; 3] {
        let c = self.color();
        [c[0].abs(), c[1].abs(), c[2].abs()]
    }

    /// XYZ on the library's 0..100 scale
    pub fn xyz100(&mut self) -> [f64; 3] {
        match self.rng.below(6) {
            0 => {
                let c = self.color();
                [c[0], c[1], c[2]]
            }
            1 => {
                // along the D65 neutral axis
                let k = self.nonneg() * 100.0;
                [0.95047 * k, k, 1.08883 * k]
            }
            _ => {
                let c = self.color();
                [c[0] * 100.0, c[1] * 100.0, c[2] * 100.0]
            }
        }
    }

    /// A plausible white point chromaticity
    pub fn white_xy(&mut self) -> (f64, f64) {
        const W: &[(f64, f64)] = &[
            (0.34570, 0.35850),
            (0.33243, 0.34744),
            (0.321626242047397, 0.337736995955436),
            (0.31270, 0.32900),
            (0.31400, 0.35100),
            (0.32168, 0.33767),
            (0.44757, 0.40745),
            (0.34842, 0.35161),
            (0.31006, 0.31616),
            (0.34567, 0.35850),
            (0.31271, 0.32902),
            (0.333333333333333, 0.333333333333333),
            (0.3332, 0.3334),
            (0.29902, 0.31485),
        ];
        match self.rng.below(4) {
            0 | 1 => *self.rng.pick(W),
            2 => (self.rng.uni(0.25, 0.46), self.rng.uni(0.26, 0.42)),
            _ => {
                let w = *self.rng.pick(W);
                let d = self.rng.logu(-9.0, -2.0);
                let e = self.rng.logu(-9.0, -2.0);
                (w.0 + d, w.1 - e)
            }
        }
    }

    /// Lengths with SIMD-width and block-size neighbourhoods.
    pub fn length(&mut self, max: usize) -> usize {
        let n = match self.rng.below(8) {
            0 => self.rng.below(5),
            1 | 2 => self.rng.below(70),
            3 => {
                let p = 1usize << self.rng.below(11);
                p.wrapping_add(self.rng.below(5)).saturating_sub(2)
            }
            4 => {
                let m = *self.rng.pick(&[3usize, 4, 8, 10, 16, 24, 32, 40, 64, 100, 128]);
                m * self.rng.below(12) + self.rng.below(3)
            }
            5 => {
                let v = if let Some(v) = self.novel() { v } else { 24.0 };
                if v >= 0.0 && v < 2e5 {
                    (v as usize + self.rng.below(3)).saturating_sub(1)
                } else {
                    self.rng.below(70)
                }
            }
            _ => self.rng.below(300),
        };
        n.min(max)
    }
}
