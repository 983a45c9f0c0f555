//! Spectrum to XYZ.
use crate::common::unxyz;
use crate::ctx::*;
use crate::refm::*;
use crate::spectra::*;
use colorspace::cmf::{CIE_1931_2_DEGREE, CMF};
use colorspace::illuminant::spd;
use colorspace::vspd::{Interval, Sample, SpdShape, VSPD};

/// value of a spectrum anywhere: Sprague inside, end value outside
struct Cont(Sprague);
impl Cont {
    fn new(s: &[(f64, f64)]) -> Cont {
        let (x, y): (Vec<f64>, Vec<f64>) = s.iter().copied().unzip();
        Cont(Sprague::new(&x, &y))
    }
    fn at(&self, x: f64) -> f64 {
        self.0.eval_ext(x)
    }
    fn one_nm(&self) -> Vec<f64> {
        (0..=420).map(|i| self.at(360.0 + i as f64)).collect()
    }
}

struct Setup {
    name: String,
    illum: VSPD,
    cmf: CMF,
    i1: Vec<f64>,
    c1: [Vec<f64>; 3],
    /// what a spectrum of ones can at most give, at least 100
    gain: V3,
    /// how much the normalisation cancels
    cond: f64,
}
fn setup(name: String, illum: VSPD, cmf: CMF) -> Setup {
    let i1 = Cont::new(&samples(&illum)).one_nm();
    let c1 = [Cont::new(&samples(&cmf.x_bar)).one_nm(), Cont::new(&samples(&cmf.y_bar)).one_nm(), Cont::new(&samples(&cmf.z_bar)).one_nm()];
    let sum = |k: usize, abs: bool| (0..=420).map(|i| i1[i] * c1[k][i]).map(|v| if abs { v.abs() } else { v }).sum::<f64>();
    let den = sum(1, false).abs();
    let cond = sum(1, true) / den;
    let gain = [0, 1, 2].map(|k| 100.0 * cond * (sum(k, true) / den).max(1.0));
    Setup { name, illum, cmf, i1, c1, gain, cond }
}
fn illuminants() -> Vec<(&'static str, VSPD)> {
    vec![("D50", spd::D50.clone()), ("D55", spd::D55.clone()), ("D60", spd::D60.clone()), ("D65", spd::D65.clone())]
}

thread_local! {
    static SETUPS: std::cell::RefCell<Vec<std::rc::Rc<Setup>>> = const { std::cell::RefCell::new(Vec::new()) };
}

fn std_setup(i: usize) -> std::rc::Rc<Setup> {
    SETUPS.with(|s| {
        let mut s = s.borrow_mut();
        if s.is_empty() {
            for (n, v) in illuminants() {
                s.push(std::rc::Rc::new(setup(n.into(), v, CIE_1931_2_DEGREE.clone())));
            }
        }
        s[i % 4].clone()
    })
}

/// a grid for an illuminant or a matching function: any, or one the
/// integration itself uses
fn table_grid(ctx: &mut Ctx, lo: f64) -> Grid {
    if ctx.rng.chance(1, 3) {
        let h = *ctx.rng.pick(&[1.0, 1.0, 1.0, 5.0, 10.0]);
        let (a, b) = *ctx.rng.pick(&[(360.0, 780.0), (360.0, 780.0), (360.0, 830.0), (300.0, 830.0), (380.0, 780.0), (350.0, 770.0)]);
        return Grid { start: a, end: b, step: h, n: ((b - a) / h) as usize + 1 };
    }
    ctx.grid_at(lo, 800.0, 8, 480)
}

fn random_setup(ctx: &mut Ctx) -> Setup {
    loop {
        let st = any_setup(ctx);
        // a normalisation that cancels says nothing
        if st.cond < 20.0 && st.gain.iter().all(|g| *g < 1e9) {
            return st;
        }
    }
}

fn any_setup(ctx: &mut Ctx) -> Setup {
    // positive illuminants and matching functions on other grids
    let g = table_grid(ctx, 340.0);
    let (p, f) = (ctx.rng.uni(0.0, 6.0), ctx.rng.uni(0.5, 4.0));
    let sc = ctx.rng.logu(-3.0, 3.0);
    let n = g.n as f64;
    let illum = if ctx.rng.chance(1, 8) {
        spd::D65.align(g.shape())
    } else {
        VSPD::from_values(g.shape(), &(0..g.n).map(|i| sc * (1.0 + 0.6 * (p + f * i as f64 / n).sin())).collect::<Vec<_>>())
    };
    let cmf = match ctx.rng.below(4) {
        0 => CIE_1931_2_DEGREE.clone(),
        1 => {
            // the published functions, each cut to a range of its own
            let c = &*CIE_1931_2_DEGREE;
            let mut cut = |v: &VSPD| if ctx.rng.chance(1, 4) { v.clone() } else { v.align(table_grid(ctx, 350.0).shape()) };
            CMF { x_bar: cut(&c.x_bar), y_bar: cut(&c.y_bar), z_bar: cut(&c.z_bar) }
        }
        k => {
            let common = table_grid(ctx, 350.0);
            let mut mk = |c: f64| {
                let own;
                let g = if k == 2 {
                    &common
                } else {
                    own = table_grid(ctx, 350.0);
                    &own
                };
                let w = ctx.rng.uni(30.0, 80.0);
                let a = ctx.rng.uni(0.5, 2.0);
                VSPD::from_values(g.shape(), &g.nms().iter().map(|x| a * (-((x - c) / w).powi(2)).exp() + 0.01).collect::<Vec<_>>())
            };
            CMF { x_bar: mk(600.0), y_bar: mk(550.0), z_bar: mk(450.0) }
        }
    };
    setup("random".into(), illum, cmf)
}

fn reference(s: &[(f64, f64)], interval: Option<f64>, st: &Setup) -> (V3, V3) {
    let (mut num, mut mag, mut den) = ([0.0; 3], [0.0; 3], 0.0);
    let (vals, stride): (Vec<f64>, usize) = match interval {
        Some(h) if h == 10.0 && (s[0].0 - 360.0) % 10.0 == 0.0 => {
            let v: Vec<f64> = s.iter().map(|p| p.1).collect();
            (lagrange10(s[0].0, &v), 1)
        }
        Some(h) if h == 5.0 => {
            let c = Cont::new(s);
            ((0..=420).map(|i| if i % 5 == 0 { c.at(360.0 + i as f64) } else { 0.0 }).collect(), 5)
        }
        _ => (Cont::new(s).one_nm(), 1),
    };
    let mut i = 0;
    while i <= 420 {
        den += st.i1[i] * st.c1[1][i];
        for k in 0..3 {
            num[k] += vals[i] * st.i1[i] * st.c1[k][i];
            mag[k] += (vals[i] * st.i1[i] * st.c1[k][i]).abs();
        }
        i += stride;
    }
    let f = 100.0 / den;
    ([num[0] * f, num[1] * f, num[2] * f], [mag[0] * f, mag[1] * f, mag[2] * f])
}

fn build(s: &[(f64, f64)]) -> VSPD {
    VSPD::new(s.iter().map(|p| Sample::new(p.0, p.1)).collect())
}

/// a spectrum that reaches into the range
fn spectrum(ctx: &mut Ctx) -> Vec<(f64, f64)> {
    loop {
        let s: Vec<(f64, f64)> = match ctx.rng.below(6) {
            0 => {
                let nm = ctx.varying(3, 80);
                let (_, v) = ctx.values(nm.len());
                nm.into_iter().zip(v).collect()
            }
            1 | 2 | 3 => {
                // the intervals with their own treatment
                let h = *ctx.rng.pick(&[1.0, 5.0, 10.0, 10.0]);
                let start = match ctx.rng.below(6) {
                    0 => 360.0,
                    1 => 380.0,
                    2 => 300.0 + 10.0 * ctx.rng.below(40) as f64,
                    3 => 300.0 + ctx.rng.below(300) as f64,
                    4 => 300.0 + ctx.rng.below(3000) as f64 / 8.0,
                    _ => 400.0,
                };
                let n = match ctx.rng.below(5) {
                    0 => ctx.rng.range(2, 8),
                    1 => ((780.0 - start) / h) as usize + 1,
                    2 => ((730.0 - start).max(20.0) / h) as usize + 1,
                    3 => ((830.0 - start) / h) as usize + 1,
                    _ => ctx.rng.range(2, 60),
                };
                let (_, v) = ctx.values(n.max(2));
                v.into_iter().enumerate().map(|(i, v)| (start + i as f64 * h, v)).collect()
            }
            _ => {
                let g = ctx.grid(2, 300);
                let (_, v) = ctx.values(g.n);
                g.nms().into_iter().zip(v).collect()
            }
        };
        // some sample lies in the range
        if s.iter().any(|p| p.0 >= 360.0 && p.0 <= 780.0) {
            return s;
        }
    }
}

fn interval_of(v: &VSPD) -> Option<f64> {
    match v.interval() {
        Interval::Uniform(h) => Some(h),
        Interval::Varying => None,
    }
}

fn class(h: Option<f64>, start: f64) -> String {
    match h {
        None => "varying".into(),
        Some(h) if h == 1.0 => "1nm".into(),
        Some(h) if h == 5.0 => "5nm".into(),
        Some(h) if h == 10.0 && (start - 360.0) % 10.0 == 0.0 => "10nm".into(),
        Some(h) if h == 10.0 => "10nm-offgrid".into(),
        Some(_) => "other".into(),
    }
}

fn check_one(ctx: &mut Ctx, s: &[(f64, f64)], st: &Setup) -> Option<V3> {
    let v = build(s);
    let h = interval_of(&v);
    let desc = || format!("{} under {} (interval {})", brief(s), st.name, interval_name(v.interval()));
    let g = unxyz(ctx.call("to_xyz", desc, || v.to_xyz(&st.illum, &st.cmf))?);
    let (w, m) = reference(s, h, st);
    let vm = s.iter().map(|p| p.1.abs()).fold(0.0, f64::max);
    for k in 0..3 {
        // the interpolation amplifies rounding relative to the largest sample
        ctx.close("to_xyz", g[k], w[k], 1e-10 * (m[k] * st.cond + vm * st.gain[k]) + 1e-300, || format!("{} component {}", desc(), k));
    }
    ctx.observe(&class(h, s[0].0), hash_f64s(&[s[0].0, s[s.len() - 1].0, s.len() as f64, s[0].1, s[s.len() / 2].1]), vm > 0.0);
    ctx.note_set("distinct (start, end, count) of integrated spectra", hash_f64s(&[s[0].0, s[s.len() - 1].0, s.len() as f64]));
    ctx.sample(|| format!("{} -> {:?}", desc(), g));
    Some(g)
}

fn linearity(ctx: &mut Ctx, s: &[(f64, f64)], st: &Setup, x: V3) {
    let (_, v2) = ctx.values(s.len());
    let (a, b) = (ctx.rng.uni(-2.0, 2.0), ctx.rng.uni(-2.0, 2.0));
    let t: Vec<(f64, f64)> = s.iter().zip(&v2).map(|(p, v)| (p.0, *v)).collect();
    let c: Vec<(f64, f64)> = s.iter().zip(&v2).map(|(p, v)| (p.0, a * p.1 + b * v)).collect();
    let desc = || format!("{} under {}", brief(s), st.name);
    let y = match ctx.call("to_xyz", desc, || build(&t).to_xyz(&st.illum, &st.cmf)) {
        Some(y) => unxyz(y),
        None => return,
    };
    let z = match ctx.call("to_xyz", desc, || build(&c).to_xyz(&st.illum, &st.cmf)) {
        Some(y) => unxyz(y),
        None => return,
    };
    let vm = s.iter().map(|p| p.1.abs()).chain(v2.iter().map(|v| v.abs())).fold(0.0, f64::max);
    for k in 0..3 {
        ctx.close("linearity", z[k], a * x[k] + b * y[k], 1e-9 * st.gain[k] * vm * 4.0 + 1e-300, || format!("{}: {} S + {} T, component {}", desc(), a, b, k));
    }
    // the illuminant's scale cancels
    let f = ctx.rng.logu(-4.0, 4.0);
    if let Some(y) = ctx.call("to_xyz", desc, || build(s).to_xyz(&(&st.illum * f), &st.cmf)) {
        let y = unxyz(y);
        for k in 0..3 {
            ctx.close("illuminant scale", y[k], x[k], 1e-9 * st.gain[k] * vm + 1e-300, || format!("{}: illuminant times {}, component {}", desc(), f, k));
        }
    }
    ctx.observe("linearity", hash_f64s(&[a, b, s[0].1, s.len() as f64]), vm > 0.0);
}

/// the perfect diffuser at any sampling
fn diffuser(ctx: &mut Ctx, g: &Grid, st: &Setup) {
    let v = VSPD::constant(g.shape(), 1.0);
    let desc = || format!("constant 1 on ({}, {}, {}) under {}", g.start, g.end, g.step, st.name);
    if let Some(x) = ctx.call("to_xyz", desc, || v.to_xyz(&st.illum, &st.cmf)) {
        ctx.close("diffuser", x.y, 100.0, 1e-7 * st.cond, desc);
        ctx.observe("diffuser", hash_f64s(&[g.start, g.end, g.step]), true);
    }
}

/// the same smooth spectrum at different samplings
fn cross(ctx: &mut Ctx) {
    let st = std_setup(ctx.rng.below(4));
    let mu: Vec<(f64, f64, f64)> = (0..3).map(|_| (ctx.rng.uni(0.0, 0.4), ctx.rng.uni(380.0, 750.0), ctx.rng.uni(60.0, 140.0))).collect();
    let f = |x: f64| 0.1 + mu.iter().map(|m| m.0 * (-((x - m.1) / m.2).powi(2)).exp()).sum::<f64>();
    let mk = |start: f64, end: f64, h: f64| -> VSPD { grid(start, end, h).iter().map(|x| (*x, f(*x))).collect() };
    let base = unxyz(mk(360.0, 780.0, 1.0).to_xyz(&st.illum, &st.cmf));
    let mut list = vec![("5nm", mk(360.0, 780.0, 5.0)), ("10nm", mk(360.0, 780.0, 10.0)), ("2nm", mk(360.0, 780.0, 2.0)), ("20nm", mk(360.0, 780.0, 20.0)), ("2.5nm off", mk(358.5, 785.0, 2.5)), ("10nm off", mk(355.0, 785.0, 10.0)), ("5nm wide", mk(300.0, 830.0, 5.0)), ("10nm wide", mk(300.0, 830.0, 10.0)), ("1nm wide", mk(300.0, 830.0, 1.0)), ("5nm off", mk(358.0, 788.0, 5.0)), ("7nm", mk(353.0, 794.0, 7.0))];
    // a varying one: one sample of the 1 nm grid left out
    let k = ctx.rng.range(1, 419);
    let mut one: Vec<(f64, f64)> = samples(&mk(360.0, 780.0, 1.0));
    one.remove(k);
    list.push(("1nm, one missing", build(&one)));
    for (n, v) in list {
        let x = unxyz(match ctx.call("cross", || n.into(), || v.to_xyz(&st.illum, &st.cmf)) {
            Some(x) => x,
            None => continue,
        });
        for c in 0..3 {
            let e = (x[c] - base[c]).abs();
            ctx.measure(&format!("largest difference between 1nm and {}", n), e);
            ctx.check("sampling", e < 0.1, || format!("{:?}: sampled at {} gives {:?}, at 1nm {:?} ({})", mu, n, x, base, st.name));
        }
        ctx.observe("cross", hash_str(n) ^ hash_f64s(&[mu[0].0, mu[1].1]), true);
    }
}

pub fn fixed(ctx: &mut Ctx) {
    for i in 0..4 {
        let st = std_setup(i);
        for (k, v) in colorspace::colorchecker::SPECTRAL.iter() {
            let s = samples(v);
            if i == 3 || k.len() % 3 == 0 {
                check_one(ctx, &s, &st);
            }
        }
        for h in [0.5, 1.0, 2.0, 5.0, 10.0, 20.0] {
            for (a, b) in [(360.0, 780.0), (380.0, 730.0), (400.0, 700.0), (300.0, 830.0)] {
                diffuser(ctx, &Grid { start: a, end: b, step: h, n: 0 }, &st);
            }
        }
    }
    let st = std_setup(3);
    // each single sample of 10 nm, 5 nm and 1 nm spectra contributes its own weight
    for (a, b) in [(360.0, 780.0), (380.0, 730.0), (400.0, 700.0), (370.0, 780.0), (360.0, 770.0), (300.0, 830.0), (350.0, 790.0)] {
        for h in [10.0, 5.0] {
            let nm = grid(a, b, h);
            for k in 0..nm.len() {
                let s: Vec<(f64, f64)> = nm.iter().enumerate().map(|(i, x)| (*x, if i == k { 1.0 } else { 0.0 })).collect();
                check_one(ctx, &s, &st);
            }
        }
    }
    for n in 2..12 {
        for h in [1.0, 5.0, 10.0, 3.0] {
            let s: Vec<(f64, f64)> = (0..n).map(|i| (500.0 + i as f64 * h, 0.1 + (i * i % 7) as f64 * 0.1)).collect();
            check_one(ctx, &s, &st);
        }
    }
}
pub fn step(ctx: &mut Ctx) {
    let s = spectrum(ctx);
    let st = if ctx.rng.chance(1, 3) { std::rc::Rc::new(random_setup(ctx)) } else { std_setup(ctx.rng.below(4)) };
    if let Some(x) = check_one(ctx, &s, &st) {
        if ctx.rng.chance(1, 3) {
            linearity(ctx, &s, &st, x);
        }
    }
    if ctx.rng.chance(1, 6) {
        let g = ctx.grid_at(330.0, 800.0, 2, 300);
        if g.start < 770.0 && g.start + g.step * (g.n - 1) as f64 > 370.0 {
            // at least one sample inside
            let inside = g.nms().iter().any(|x| (360.0..=780.0).contains(x));
            if inside {
                diffuser(ctx, &g, &st);
            }
        }
    }
    if ctx.rng.chance(1, 25) {
        cross(ctx);
    }
}
pub const STEPS: usize = 2_500;
#[allow(unused)]
fn unused(_: SpdShape<f64>) {}
