//! xyY and XYZ.
use crate::common::*;
use crate::ctx::*;
use crate::refm::*;
use colorspace::chromaticity::{xy, XYY};
use colorspace::math::Real;
use colorspace::xyz::{XYZf32, XYZf64, XYZ};

fn u<T: Real>() -> f64 {
    if is32::<T>() {
        6e-7
    } else {
        1.2e-15
    }
}
fn chroma(ctx: &mut Ctx) -> (f64, f64) {
    match ctx.rng.below(6) {
        0 => ctx.white_xy(),
        1 => (ctx.rng.uni(-0.5, 1.5), ctx.rng.uni(-0.5, 1.5)),
        2 => (0.0, ctx.rng.uni(0.01, 1.0)),
        3 => {
            let x = ctx.rng.unit();
            (x, 1.0 - x)
        }
        4 => (ctx.rng.unit(), ctx.rng.logu(-6.0, 0.0)),
        _ => (ctx.rng.uni(0.0, 0.75), ctx.rng.uni(0.005, 0.85)),
    }
}

fn to_xyz<T: Real>(ctx: &mut Ctx) {
    let t = tname::<T>();
    let (x, y) = chroma(ctx);
    let yy = match ctx.rng.below(4) {
        0 => 1.0,
        1 => 0.0,
        _ => ctx.channel(),
    };
    let (x, y, yy) = (q::<T>(x), q::<T>(y), q::<T>(yy));
    if y == 0.0 || y.abs() < 1e-12 {
        return;
    }
    let p = xyy::<T>(x, y, yy);
    let desc = || format!("{} xyY {:?}", t, (x, y, yy));
    let a = unxyz(XYZ::<T>::from_chromaticity(p));
    let b = unxyz(XYZ::<T>::from(p));
    ctx.check("from", a.iter().zip(&b).all(|(x, y)| x.to_bits() == y.to_bits()), || format!("{}: from_chromaticity {:?}, into {:?}", desc(), a, b));
    let w = xyy_to_xyz(x, y, yy);
    let k = (100.0 * yy / y).abs();
    let s = [k * x.abs(), 100.0 * yy.abs(), k * (1.0 + x.abs() + y.abs())];
    for i in 0..3 {
        ctx.close("xyY->XYZ", a[i], w[i], 4.0 * u::<T>() * s[i] + 1e-30, || format!("{} component {}", desc(), i));
    }
    let fx = unxyz(XYZ::<T>::from_xy(c(x), c(y)));
    let w1 = xyy_to_xyz(x, y, 1.0);
    let k1 = (100.0 / y).abs();
    let s1 = [k1 * x.abs(), 100.0, k1 * (1.0 + x.abs() + y.abs())];
    for i in 0..3 {
        ctx.close("from_xy", fx[i], w1[i], 4.0 * u::<T>() * s1[i] + 1e-30, || format!("{} xy {:?} component {}", t, (x, y), i));
    }
    let h = xy::<T>(c(x), c(y));
    ctx.check("xy", d(h.x) == x && d(h.y) == y && d(h.Y) == 1.0, || format!("{} xy{:?} = {:?}", t, (x, y), h));
    // back
    if yy != 0.0 && yy.abs() > 1e-12 {
        let back = XYY::<T>::from_xyz(XYZ::<T>::from(p));
        // X+Y+Z = 100 Y / y: its cancellation is bounded by the terms
        let amp = 1.0 + x.abs() + y.abs() + (1.0 - x - y).abs();
        ctx.close("round trip", d(back.x), x, 16.0 * u::<T>() * amp * (amp + x.abs()), || format!("{} x", desc()));
        ctx.close("round trip", d(back.y), y, 16.0 * u::<T>() * amp * (amp + y.abs()) * y.abs().max(u::<T>()), || format!("{} y", desc()));
        ctx.close("round trip", d(back.Y), yy, 8.0 * u::<T>() * yy.abs(), || format!("{} Y", desc()));
    }
    ctx.observe(&format!("xyY-{}", t), hash_f64s(&[x, y, yy]), yy != 0.0);
    ctx.sample(|| format!("{} -> XYZ {:?}", desc(), a));
}

fn from_xyz<T: Real>(ctx: &mut Ctx) {
    let t = tname::<T>();
    let v = q3::<T>(ctx.xyz100());
    let s = v[0] + v[1] + v[2];
    let m = v[0].abs() + v[1].abs() + v[2].abs();
    if s == 0.0 || s.abs() < 1e-4 * m || m < 1e-12 {
        return;
    }
    let desc = || format!("{} XYZ {:?}", t, v);
    let g = XYY::<T>::from_xyz(xyz::<T>(v));
    let g2: XYY<T> = xyz::<T>(v).into();
    ctx.check("into", g == g2, || format!("{}: from_xyz {:?}, into {:?}", desc(), g, g2));
    let amp = m / s.abs();
    ctx.close("XYZ->xyY", d(g.x), v[0] / s, 6.0 * u::<T>() * amp * amp, || format!("{} x", desc()));
    ctx.close("XYZ->xyY", d(g.y), v[1] / s, 6.0 * u::<T>() * amp * amp, || format!("{} y", desc()));
    ctx.close("XYZ->xyY", d(g.Y), v[1] / 100.0, 2.0 * u::<T>() * v[1].abs() / 100.0 + 1e-40, || format!("{} Y", desc()));
    if v[1].abs() > 1e-3 * m {
        let b = unxyz(XYZ::<T>::from(g));
        for i in 0..3 {
            ctx.close("round trip XYZ", b[i], v[i], 64.0 * u::<T>() * amp * amp * m * (m / v[1].abs()), || format!("{} component {}", desc(), i));
        }
        // normalisation
        let n1 = unxyz(xyz::<T>(v).normalized());
        let n100 = unxyz(xyz::<T>(v).normalized_y());
        for i in 0..3 {
            let w = v[i] / v[1];
            ctx.close("normalized", n1[i], w, 4.0 * u::<T>() * w.abs(), || format!("{} component {}", desc(), i));
            ctx.close("normalized_y", n100[i], 100.0 * w, 8.0 * u::<T>() * (100.0 * w).abs(), || format!("{} component {}", desc(), i));
        }
        ctx.check("normalized:1", n1[1] == 1.0, || format!("{}: luminance {}", desc(), n1[1]));
        // chromaticity is unchanged by scale
        let k = ctx.rng.logu(-3.0, 3.0);
        let sv = q3::<T>([v[0] * k, v[1] * k, v[2] * k]);
        let h = XYY::<T>::from_xyz(xyz::<T>(sv));
        ctx.close("scaled", d(h.x), d(g.x), 16.0 * u::<T>() * amp * amp, || format!("{} times {}: x", desc(), k));
        ctx.close("scaled", d(h.y), d(g.y), 16.0 * u::<T>() * amp * amp, || format!("{} times {}: y", desc(), k));
    }
    ctx.observe(&format!("XYZ-{}", t), hash_f64s(&v), true);
}

fn narrow(ctx: &mut Ctx) {
    let v = ctx.color();
    let n: XYZf32 = XYZf64::new(v[0], v[1], v[2]).into();
    let ok = [n.x, n.y, n.z].iter().zip(&v).all(|(a, b)| a.to_bits() == (*b as f32).to_bits());
    ctx.check("narrow", ok, || format!("{:?} narrowed to {:?}", v, n));
    ctx.observe("narrow", hash_f64s(&v), true);
}

pub fn fixed(ctx: &mut Ctx) {
    for i in 0..=80 {
        for j in 1..=90 {
            let (x, y) = (i as f64 / 100.0, j as f64 / 100.0);
            let g = unxyz(XYZ::<f64>::from_xy(x, y));
            let w = xyy_to_xyz(x, y, 1.0);
            for k in 0..3 {
                ctx.close("grid", g[k], w[k], 1e-11 * (1.0 + w[k].abs()), || format!("xy {:?} component {}", (x, y), k));
            }
            ctx.observe("grid", (i * 1000 + j) as u64, true);
        }
    }
}
pub fn step(ctx: &mut Ctx) {
    to_xyz::<f64>(ctx);
    to_xyz::<f32>(ctx);
    from_xyz::<f64>(ctx);
    from_xyz::<f32>(ctx);
    narrow(ctx);
}
pub const STEPS: usize = 300_000;
