//! RGB to spectrum (Mallett & Yuksel).
use crate::ctx::*;
use crate::refm::*;
use crate::spectra::*;
use colorspace::cmf::CIE_1931_2_DEGREE;
use colorspace::color_space_rgb::model_f64;
use colorspace::illuminant::spd;
use colorspace::rgb::RGBf64;
use colorspace::transform::{xyz_to_rgb, xyz_to_rgb_matrix};
use colorspace::uplifting::{self, uplift_my};
use colorspace::vspd::Interval;

pub const STEPS: usize = 20_000;

type Basis = [Vec<(f64, f64)>; 3];
thread_local! {
    static B: Basis = {
        let g = crate::tables::golden();
        let f = |n: &str| g[n].chunks(2).map(|p| (p[0], p[1])).collect::<Vec<_>>();
        [f("uplifting::my_basis.0"), f("uplifting::my_basis.1"), f("uplifting::my_basis.2")]
    };
}
fn basis() -> Basis {
    B.with(|b| b.clone())
}

fn lift(ctx: &mut Ctx, c: V3) -> Option<Vec<(f64, f64)>> {
    let v = ctx.call("uplift", || format!("uplift_my({:?})", c), || uplift_my(RGBf64::new(c[0], c[1], c[2])))?;
    honest(ctx, "shape", &v, &|| format!("uplift_my({:?})", c));
    let u = matches!(v.interval(), Interval::Uniform(h) if h == 5.0);
    ctx.check("grid", u && v.start() == 380.0 && v.end() == 780.0 && v.len() == 81, || {
        format!("uplift_my({:?}) is {} to {} at {}, {} samples", c, v.start(), v.end(), interval_name(v.interval()), v.len())
    });
    Some(samples(&v))
}

fn judge(ctx: &mut Ctx, cat: &str, c: V3) {
    ctx.observe(cat, hash_f64s(&c), c != [0.0; 3]);
    let s = match lift(ctx, c) {
        Some(s) => s,
        None => return,
    };
    if s.len() != 81 {
        return;
    }
    B.with(|b| {
        for i in 0..81 {
            let nm = 380.0 + 5.0 * i as f64;
            ctx.check("wavelength", s[i].0 == nm, || format!("uplift_my({:?}) sample {} at {} nm, expected {}", c, i, s[i].0, nm));
            let p = [b[0][i].1 * c[0], b[1][i].1 * c[1], b[2][i].1 * c[2]];
            let want = p[0] + p[1] + p[2];
            let mag = p[0].abs() + p[1].abs() + p[2].abs();
            if mag.is_finite() {
                ctx.close("combination", s[i].1, want, 1e-13 * mag, || format!("uplift_my({:?}) at {} nm", c, nm));
            }
        }
    });
    if c.iter().all(|x| *x >= 0.0 && *x <= 1.0) {
        for (nm, v) in &s {
            ctx.check("reflectance", *v >= -1e-6 && *v <= 1.0 + 1e-6, || format!("uplift_my({:?}) at {} nm is {}", c, nm, v));
        }
    }
}

fn roundtrip(ctx: &mut Ctx, c: V3) {
    ctx.observe("to XYZ and back to sRGB", hash_f64s(&c), c != [0.0; 3]);
    let mtx = xyz_to_rgb_matrix(model_f64::SRGB.white, &model_f64::SRGB);
    let r = ctx.call("roundtrip", || format!("uplift_my({:?}) to XYZ", c), || {
        let s = uplift_my(RGBf64::new(c[0], c[1], c[2]));
        xyz_to_rgb(&mtx, s.to_xyz(&spd::D65, &CIE_1931_2_DEGREE))
    });
    if let Some(r) = r {
        let m = c.iter().fold(0.0f64, |a, x| a.max(x.abs()));
        let got = [r.r, r.g, r.b];
        for i in 0..3 {
            if m > 0.0 {
                ctx.measure("round trip: worst error relative to the largest channel", (got[i] - c[i]).abs() / m);
            }
            ctx.close("roundtrip", got[i], c[i], 2e-3 * m + 1e-300, || format!("sRGB of the uplift of {:?}, channel {}", c, i));
        }
    }
}

pub fn fixed(ctx: &mut Ctx) {
    let b = basis();
    // the three ways to the basis agree
    let got = uplifting::my_basis();
    let stat = [&*uplifting::MY_RED, &*uplifting::MY_GREEN, &*uplifting::MY_BLUE];
    for (k, v) in [&got.0, &got.1, &got.2].iter().enumerate() {
        ctx.observe("basis", k as u64, true);
        ctx.check("basis", samples(v) == b[k], || format!("my_basis() component {} differs from the published basis", k));
        ctx.check("basis-static", samples(stat[k]) == b[k], || format!("MY_{} differs from my_basis()", ["RED", "GREEN", "BLUE"][k]));
    }
    for i in 0..81 {
        let s = b[0][i].1 + b[1][i].1 + b[2][i].1;
        ctx.close("partition", s, 1.0, 2e-5, || format!("basis sum at {} nm", b[0][i].0));
    }
    if let Some(w) = lift(ctx, [1.0; 3]) {
        for (nm, v) in w {
            ctx.close("white", v, 1.0, 2e-5, || format!("uplift of white at {} nm", nm));
        }
    }
    if let Some(k) = lift(ctx, [0.0; 3]) {
        for (nm, v) in k {
            ctx.check("black", v == 0.0, || format!("uplift of black at {} nm is {}", nm, v));
        }
    }
    for i in 0..5 {
        for j in 0..5 {
            for k in 0..5 {
                let c = [i as f64 / 4.0, j as f64 / 4.0, k as f64 / 4.0];
                judge(ctx, "cube", c);
                roundtrip(ctx, c);
            }
        }
    }
}

pub fn step(ctx: &mut Ctx) {
    let c = ctx.color();
    judge(ctx, "any colour", c);
    let c = [ctx.rng.unit(), ctx.rng.unit(), ctx.rng.unit()];
    judge(ctx, "in gamut", c);
    // linearity: as observed between executions
    let d = ctx.color();
    let (k, l) = (ctx.rng.uni(-2.0, 2.0), ctx.rng.uni(-2.0, 2.0));
    let e = [k * c[0] + l * d[0], k * c[1] + l * d[1], k * c[2] + l * d[2]];
    if let (Some(x), Some(y), Some(z)) = (lift(ctx, c), lift(ctx, d), lift(ctx, e)) {
        let m = c.iter().chain(d.iter()).fold(0.0f64, |a, x| a.max(x.abs()));
        if x.len() == y.len() && y.len() == z.len() {
            for i in 0..x.len() {
                ctx.close("linear", z[i].1, k * x[i].1 + l * y[i].1, 1e-12 * m, || format!("uplift of {}*{:?} + {}*{:?} at {} nm", k, c, l, d, x[i].0));
            }
        }
    }
    if ctx.rng.chance(1, 8) {
        let c = ctx.color();
        roundtrip(ctx, c);
    }
}
