//! Luminance of an emission spectrum.
use crate::ctx::*;
use crate::refm::*;
use crate::spectra::*;
use colorspace::cmf::{CIE_1931_2_DEGREE, CMF};
use colorspace::photometry::spd_to_nit;
use colorspace::vspd::{SpdShape, VSPD};

pub const STEPS: usize = 6_000;

thread_local! {
    static STD: Sprague = cont(&CIE_1931_2_DEGREE.y_bar);
}
fn cont(v: &VSPD) -> Sprague {
    let (x, y): (Vec<f64>, Vec<f64>) = samples(v).into_iter().unzip();
    Sprague::new(&x, &y)
}

fn reference(s: &[(f64, f64)], y: &Sprague) -> (f64, f64) {
    let (mut sum, mut mag) = (0.0, 0.0);
    for (nm, v) in s {
        let p = v * y.eval_ext(*nm);
        sum += p;
        mag += p.abs();
    }
    (683.0 * sum / s.len() as f64, 683.0 * mag / s.len() as f64)
}

fn judge(ctx: &mut Ctx, cat: &str, spd: &VSPD, s: &[(f64, f64)], cmf: &CMF, y: &Sprague) -> Option<f64> {
    let flat: Vec<f64> = s.iter().flat_map(|p| [p.0, p.1]).collect();
    ctx.observe(cat, hash_f64s(&flat), s.iter().any(|p| p.1 != 0.0));
    ctx.note_set("distinct sample counts", s.len() as u64);
    let got = ctx.call("nit", || format!("spd_to_nit({})", brief(s)), || spd_to_nit(spd, cmf))?;
    let (want, mag) = reference(s, y);
    ctx.close("nit", got, want, 1e-9 * mag + 1e-300, || format!("spd_to_nit({})", brief(s)));
    if s.iter().all(|p| p.1 == 0.0) {
        ctx.check("zero", got == 0.0, || format!("zero spectrum on {} gives {}", brief(s), got));
    }
    if s.iter().all(|p| p.1 >= 0.0) && s.iter().all(|p| y.eval_ext(p.0) >= 0.0) {
        ctx.check("non-negative", got >= 0.0, || format!("non-negative spectrum {} gives {}", brief(s), got));
    }
    Some(got)
}

fn random_cmf(ctx: &mut Ctx) -> CMF {
    let g = ctx.grid_at(350.0, 800.0, 8, 480);
    let mut mk = |c: f64| {
        let w = ctx.rng.uni(30.0, 80.0);
        VSPD::from_values(g.shape(), &g.nms().iter().map(|x| (-((x - c) / w).powi(2)).exp() + 0.01).collect::<Vec<_>>())
    };
    CMF { x_bar: mk(600.0), y_bar: mk(550.0), z_bar: mk(450.0) }
}

pub fn fixed(ctx: &mut Ctx) {
    let y = cont(&CIE_1931_2_DEGREE.y_bar);
    // a single emission line at each nanometre of the visible range
    for k in 0..=420 {
        let mut v = vec![0.0; 421];
        v[k] = 1.0;
        let spd = VSPD::from_values(SpdShape::new(360.0, 780.0, 1.0), &v);
        let s = samples(&spd);
        judge(ctx, "single line, 1 nm", &spd, &s, &CIE_1931_2_DEGREE, &y);
    }
    for step in [1.0, 2.0, 5.0, 10.0, 20.0] {
        let spd = VSPD::constant(SpdShape::new(360.0, 780.0, step), 1.0);
        let s = samples(&spd);
        judge(ctx, "equal energy", &spd, &s, &CIE_1931_2_DEGREE, &y);
        let spd = VSPD::constant(SpdShape::new(360.0, 780.0, step), 0.0);
        let s = samples(&spd);
        judge(ctx, "zero", &spd, &s, &CIE_1931_2_DEGREE, &y);
    }
}

pub fn step(ctx: &mut Ctx) {
    let g = ctx.grid(2, 500);
    let (kind, v) = ctx.values(g.n);
    let spd = VSPD::from_values(g.shape(), &v);
    let s = samples(&spd);
    let a = STD.with(|y| judge(ctx, kind, &spd, &s, &CIE_1931_2_DEGREE, y));
    // linear, as observed between executions
    let (_, u) = ctx.values(g.n);
    let k = ctx.rng.uni(-3.0, 3.0);
    let b = ctx.call("nit", || format!("spd_to_nit on {:?}", g), || spd_to_nit(&VSPD::from_values(g.shape(), &u), &CIE_1931_2_DEGREE));
    let w: Vec<f64> = v.iter().zip(&u).map(|(x, y)| k * x + y).collect();
    let c = ctx.call("nit", || format!("spd_to_nit on {:?}", g), || spd_to_nit(&VSPD::from_values(g.shape(), &w), &CIE_1931_2_DEGREE));
    if let (Some(a), Some(b), Some(c)) = (a, b, c) {
        let m = v.iter().map(|x| (x * k).abs()).chain(u.iter().map(|x| x.abs())).fold(0.0, f64::max);
        ctx.close("linear", c, k * a + b, 683.0 * 1e-10 * m, || format!("{}*{} + {} on {:?}", k, a, b, g));
    }
    if ctx.rng.chance(1, 6) {
        let cmf = random_cmf(ctx);
        let y = cont(&cmf.y_bar);
        let a = judge(ctx, "other observer", &spd, &s, &cmf, &y);
        // x_bar and z_bar play no part
        let other = CMF { x_bar: cmf.z_bar.clone(), y_bar: cmf.y_bar.clone(), z_bar: VSPD::constant(SpdShape::new(300.0, 900.0, 100.0), f64::NAN) };
        if let (Some(a), Some(b)) = (a, ctx.call("nit", || "spd_to_nit with other x_bar, z_bar".into(), || spd_to_nit(&spd, &other))) {
            ctx.check("y_bar only", a == b, || format!("changing x_bar and z_bar changed {} to {} for {}", a, b, brief(&s)));
        }
    }
}
