//! Generators for spectra and wavelength grids.
use crate::ctx::Ctx;
use colorspace::vspd::{Interval, Sample, SpdShape, VSPD};

#[derive(Clone, Debug)]
pub struct Grid {
    pub start: f64,
    pub end: f64,
    pub step: f64,
    pub n: usize,
}
impl Grid {
    pub fn shape(&self) -> SpdShape<f64> {
        SpdShape::new(self.start, self.end, self.step)
    }
    pub fn nm(&self, i: usize) -> f64 {
        self.start + i as f64 * self.step
    }
    pub fn nms(&self) -> Vec<f64> {
        (0..self.n).map(|i| self.nm(i)).collect()
    }
}

const DYADIC: &[f64] = &[1.0, 1.0, 5.0, 5.0, 10.0, 10.0, 20.0, 2.0, 2.5, 4.0, 0.5, 0.25, 3.0, 7.0, 10.9375, 8.0, 15.0, 25.0, 50.0, 100.0, 0.125];
const OTHER: &[f64] = &[0.1, 0.3, 1.1, 3.3, 1.0 / 3.0, 6.7, 9.9, 10.1, 0.7, 4.99, 5.01, 12.3, 33.3];

impl Ctx {
    pub fn grid_at(&mut self, lo: f64, hi: f64, nmin: usize, nmax: usize) -> Grid {
        let dyadic = self.rng.chance(4, 5);
        let mut step = if dyadic { *self.rng.pick(DYADIC) } else { *self.rng.pick(OTHER) };
        if self.rng.chance(1, 12) {
            if let Some(v) = self.novel() {
                let v = v.abs();
                if v > 0.05 && v < 200.0 && (v * 1024.0).fract() == 0.0 {
                    step = v;
                }
            }
        }
        let exact = (step * 1024.0).fract() == 0.0;
        let start = match self.rng.below(6) {
            0 => (lo + self.rng.below(((hi - lo) * 8.0).max(1.0) as usize) as f64 / 8.0).max(lo),
            1 | 2 => *self.rng.pick(&[360.0, 380.0, 400.0, 390.0, 300.0, 365.0, 370.0, 350.0, 361.0, 410.0]),
            3 => 10.0 * ((lo + self.rng.uni(0.0, (hi - lo) * 0.7)) / 10.0).round(),
            _ => (lo + self.rng.uni(0.0, (hi - lo) * 0.7)).round(),
        };
        let mut n = match self.rng.below(5) {
            0 => self.rng.range(nmin, (nmin + 8).min(nmax)),
            1 | 2 => ((hi - start).max(0.0) / step) as usize + 1,
            _ => self.rng.range(nmin, nmax),
        };
        n = n.max(nmin).min(nmax);
        // where the end falls relative to the last grid point
        let frac = if self.rng.chance(if exact { 6 } else { 4 }, 8) { 0.0 } else { self.rng.uni(0.05, 0.95) };
        let end = if frac == 0.0 { start + (n - 1) as f64 * step } else { start + (n as f64 - 1.0 + frac) * step };
        Grid { start, end, step, n }
    }

    pub fn grid(&mut self, nmin: usize, nmax: usize) -> Grid {
        let (lo, hi) = *self.rng.pick(&[(360.0, 780.0), (300.0, 830.0), (360.0, 830.0), (380.0, 730.0), (250.0, 1000.0)]);
        self.grid_at(lo, hi, nmin, nmax)
    }

    pub fn values(&mut self, n: usize) -> (&'static str, Vec<f64>) {
        let scale = match self.rng.below(5) {
            0 => self.rng.logu(-6.0, 4.0),
            1 => 100.0,
            _ => 1.0,
        };
        match self.rng.below(9) {
            0 => {
                let v = self.nonneg() * scale;
                ("constant", vec![v; n])
            }
            1 => {
                let (a, b) = (self.rng.uni(-1.0, 1.0) * scale, self.rng.uni(-1.0, 1.0) * scale / n as f64);
                ("linear", (0..n).map(|i| a + b * i as f64).collect())
            }
            2 => {
                let k = self.rng.below(n);
                let mut v = vec![0.0; n];
                v[k] = scale;
                ("impulse", v)
            }
            3 => {
                // first or last sample stands out
                let mut v = vec![0.25 * scale; n];
                let k = if self.rng.chance(1, 2) { 0 } else { n - 1 };
                v[k] = scale;
                ("edge", v)
            }
            4 => {
                let (f, p) = (self.rng.uni(0.0, 6.0), self.rng.uni(0.0, 6.28));
                ("smooth", (0..n).map(|i| scale * (0.5 + 0.4 * (p + f * i as f64 / n as f64).sin())).collect())
            }
            5 => ("mixed", (0..n).map(|_| self.channel().max(-1e4).min(1e4) * scale).collect()),
            6 => {
                let k = self.rng.below(n + 1);
                ("step", (0..n).map(|i| if i < k { 0.1 * scale } else { 0.9 * scale }).collect())
            }
            _ => ("random", (0..n).map(|_| self.rng.unit() * scale).collect()),
        }
    }

    /// increasing, irregularly spaced wavelengths
    pub fn varying(&mut self, nmin: usize, nmax: usize) -> Vec<f64> {
        let n = self.rng.range(nmin.max(3), nmax);
        let base = *self.rng.pick(&[1.0, 5.0, 10.0, 2.5]);
        let mut x = (300.0 + self.rng.uni(0.0, 200.0)).round();
        let mut v = vec![x];
        let style = self.rng.below(4);
        let odd = self.rng.below(n - 1);
        for i in 0..n - 1 {
            let g = match style {
                // one gap differs: first, last or any
                0 | 1 => {
                    if i == odd {
                        base * *self.rng.pick(&[0.5, 2.0, 1.25, 1.001])
                    } else {
                        base
                    }
                }
                2 => base * self.rng.uni(0.3, 2.0),
                _ => {
                    if i == n - 2 {
                        base * 1.5
                    } else {
                        base
                    }
                }
            };
            x += g;
            v.push(x);
        }
        v
    }

    /// any spectrum, with the samples it was built from
    pub fn spectrum(&mut self, nmin: usize, nmax: usize) -> (VSPD, Vec<(f64, f64)>, bool) {
        if self.rng.chance(1, 4) {
            let nm = self.varying(nmin, nmax);
            let (_, v) = self.values(nm.len());
            let s: Vec<(f64, f64)> = nm.into_iter().zip(v).collect();
            let spd = VSPD::new(s.iter().map(|(a, b)| Sample::new(*a, *b)).collect());
            (spd, s, false)
        } else {
            let g = self.grid(nmin, nmax);
            let (_, v) = self.values(g.n);
            let s: Vec<(f64, f64)> = g.nms().into_iter().zip(v.iter().copied()).collect();
            let spd = if self.rng.chance(1, 2) {
                VSPD::from_values(g.shape(), &v)
            } else {
                VSPD::new(s.iter().map(|(a, b)| Sample::new(*a, *b)).collect())
            };
            // the samples as stored, if they are the requested ones up to rounding
            let t = samples(&spd);
            let same = t.len() == s.len() && t.iter().zip(&s).all(|(a, b)| (a.0 - b.0).abs() < 1e-9 && a.1 == b.1);
            (spd, if same { t } else { s }, true)
        }
    }
}

pub fn samples(v: &VSPD) -> Vec<(f64, f64)> {
    v.samples().iter().map(|s| (s.nm, s.v)).collect()
}
pub fn brief(s: &[(f64, f64)]) -> String {
    if s.len() <= 12 {
        format!("{:?}", s)
    } else {
        format!("{} samples {:?} .. {:?}", s.len(), &s[..5], &s[s.len() - 3..])
    }
}
pub fn interval_name(i: Interval<f64>) -> String {
    format!("{}", i)
}

/// The reported shape must describe the samples.
pub fn honest(ctx: &mut Ctx, sig: &str, v: &VSPD, desc: &dyn Fn() -> String) {
    let s = samples(v);
    if s.is_empty() {
        ctx.violate(sig, format!("{}: no samples", desc()));
        return;
    }
    let (first, last) = (s[0], s[s.len() - 1]);
    let sh = v.shape();
    ctx.check(&format!("{}:start", sig), v.start() == first.0 && sh.start == first.0, || format!("{}: reported start {} / {}, first sample at {}", desc(), v.start(), sh.start, first.0));
    ctx.check(&format!("{}:end", sig), v.end() == last.0 && sh.end == last.0, || format!("{}: reported end {} / {}, last sample at {}", desc(), v.end(), sh.end, last.0));
    ctx.check(&format!("{}:first", sig), (v.first().nm, v.first().v) == first && (v.last().nm, v.last().v) == last, || format!("{}: first {:?} last {:?}", desc(), v.first(), v.last()));
    ctx.check(&format!("{}:len", sig), v.len() == s.len() && !v.is_empty() && v.iter().count() == s.len(), || format!("{}: len {} for {} samples", desc(), v.len(), s.len()));
    ctx.check(
        &format!("{}:iterators", sig),
        v.wavelengths().zip(v.values()).zip(v.iter()).zip(&s).all(|(((a, b), c), d)| a == d.0 && (b == d.1 || b.is_nan()) && c.nm == d.0)
            && v.values().count() == s.len()
            && v.wavelengths().count() == s.len(),
        || format!("{}: wavelengths()/values()/iter() differ from samples()", desc()),
    );
    ctx.check(
        &format!("{}:reversed", sig),
        v.wavelengths().rev().zip(v.values().rev()).zip(v.iter().rev()).zip(s.iter().rev()).all(|(((a, b), c), d)| a == d.0 && (b == d.1 || b.is_nan()) && c.nm == d.0 && (c.v == d.1 || c.v.is_nan())),
        || format!("{}: the reversed iterators differ from samples()", desc()),
    );
    ctx.check(&format!("{}:shape", sig), interval_name(sh.interval) == interval_name(v.interval()), || format!("{}: shape interval {} interval {}", desc(), interval_name(sh.interval), interval_name(v.interval())));
    if s.len() >= 2 {
        let gaps: Vec<f64> = s.windows(2).map(|w| w[1].0 - w[0].0).collect();
        let (lo, hi) = gaps.iter().fold((f64::INFINITY, f64::NEG_INFINITY), |a, g| (a.0.min(*g), a.1.max(*g)));
        match v.interval() {
            Interval::Uniform(h) => {
                ctx.check(&format!("{}:uniform", sig), hi - lo <= 1e-9 && (h - lo).abs() <= 1e-9, || {
                    format!("{}: reports a uniform interval of {}, gaps are {} to {}; {}", desc(), h, lo, hi, brief(&s))
                });
            }
            Interval::Varying => {
                ctx.check(&format!("{}:varying", sig), hi - lo > 1e-12, || format!("{}: reports a varying interval, every gap is {}; {}", desc(), lo, brief(&s)));
            }
        }
    }
}

/// the numbers in a piece of text, in order
pub fn numbers(text: &str) -> Vec<f64> {
    text.split(|c: char| !(c.is_ascii_alphanumeric() || c == '.' || c == '-' || c == '+')).filter_map(|t| t.parse::<f64>().ok()).collect()
}

/// the printed forms show the range and every sample in order
pub fn printed(ctx: &mut Ctx, v: &VSPD, desc: &dyn Fn() -> String) {
    let mut want = vec![v.start(), v.end()];
    if let Interval::Uniform(h) = v.interval() {
        want.push(h);
    }
    want.extend(samples(v).iter().flat_map(|p| [p.0, p.1]));
    if want.iter().any(|x| !x.is_finite()) {
        return;
    }
    for text in [format!("{}", v), format!("{:?}", v)] {
        let got = numbers(&text);
        ctx.check("text", got == want, || format!("{}: printed as {}", desc(), text.chars().take(300).collect::<String>()));
    }
    let got = numbers(&format!("{}", v.shape()));
    ctx.check("text:shape", got == want[..want.len() - 2 * v.len()], || format!("{}: shape printed as {}", desc(), v.shape()));
    let f = v.first();
    ctx.check("text:sample", numbers(&format!("{} {:?}", f, f)) == [f.nm, f.v, f.nm, f.v], || format!("{}: sample printed as {} {:?}", desc(), f, f));
}
