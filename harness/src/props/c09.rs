//! CIE Lab.
use crate::common::*;
use crate::ctx::*;
use crate::refm;
use crate::refm::{lab_f, xyy_to_xyz, V3};
use colorspace::lab::*;
use colorspace::math::Real;

pub fn white<T: Real>(ctx: &mut Ctx) -> V3 {
    let w = match ctx.rng.below(5) {
        0 => [ctx.rng.uni(20.0, 150.0), ctx.rng.uni(20.0, 150.0), ctx.rng.uni(20.0, 150.0)],
        1 => {
            let (x, y) = ctx.white_xy();
            let k = ctx.rng.logu(-1.5, 1.0);
            let v = xyy_to_xyz(x, y, 1.0);
            [v[0] * k, v[1] * k, v[2] * k]
        }
        _ => {
            let (x, y) = ctx.white_xy();
            xyy_to_xyz(x, y, 1.0)
        }
    };
    q3::<T>(w)
}

/// XYZ relative to the white: dark, mid, HDR, negative, around the join
fn colour<T: Real>(ctx: &mut Ctx, w: V3) -> V3 {
    let j = 216.0 / 24389.0;
    let mut r = [0.0; 3];
    for x in r.iter_mut() {
        *x = match ctx.rng.below(8) {
            0 => j * (1.0 + ctx.rng.logu(-9.0, -1.0) * if ctx.rng.chance(1, 2) { 1.0 } else { -1.0 }),
            1 => ctx.rng.uni(0.0, 2.0 * j),
            _ => ctx.channel(),
        };
        if x.abs() > 1e4 {
            *x = 1e4 * x.signum();
        }
    }
    match ctx.rng.below(6) {
        0 => r = [r[0]; 3],
        1 => r[1] = r[0],
        _ => {}
    }
    q3::<T>([r[0] * w[0], r[1] * w[1], r[2] * w[2]])
}

fn un<T: Real>(l: Lab<T>) -> V3 {
    [d(l.L), d(l.a), d(l.b)]
}

fn mag(c: V3, w: V3) -> f64 {
    (0..3).map(|i| lab_f(c[i] / w[i]).abs()).fold(1.0, f64::max)
}

fn one<T: Real>(ctx: &mut Ctx) {
    let t = tname::<T>();
    let w = white::<T>(ctx);
    let cc = colour::<T>(ctx, w);
    let u = if is32::<T>() { 6e-7 } else { 1e-15 };
    let (cx, wx) = (xyz::<T>(cc), xyz::<T>(w));
    let got: Lab<T> = match ctx.call("xyz_to_lab", || format!("{} XYZ {:?} white {:?}", t, cc, w), || xyz_to_lab(cx, wx)) {
        Some(l) => l,
        None => return,
    };
    let g = un(got);
    let want = refm::xyz_to_lab(cc, w);
    // f is Lipschitz with slope < 8 at the dark end; values of f are amplified by 116/500/200
    let m = mag(cc, w);
    for i in 0..3 {
        let k = [116.0, 1000.0, 400.0][i];
        ctx.close("xyz_to_lab", g[i], want[i], k * u * 8.0 * m, || format!("{} XYZ {:?} white {:?} component {}", t, cc, w, ["L", "a", "b"][i]));
    }
    // back
    if let Some(back) = ctx.call("lab_to_xyz", || format!("{} {:?} white {:?}", t, g, w), || lab_to_xyz::<T, _, _>(got, wx)) {
        let b = unxyz(back);
        for i in 0..3 {
            // relative to the white; the cube amplifies errors of f by 3 f^2
            let f = lab_f(cc[i] / w[i]).abs().max(0.2);
            let fy = lab_f(cc[1] / w[1]).abs();
            let fe = u * 60.0 * (f + fy + 0.2);
            ctx.close("round trip XYZ", b[i] / w[i], cc[i] / w[i], 3.0 * f * f * fe + 0.2 * fe, || format!("{} XYZ {:?} white {:?} via {:?} component {}", t, cc, w, g, i));
        }
    }
    let cls = (0..3).fold(0u64, |a, i| a * 4 + if cc[i] < 0.0 { 0 } else if cc[i] / w[i] <= 216.0 / 24389.0 { 1 } else if cc[i] / w[i] <= 1.0 { 2 } else { 3 });
    ctx.note_set("combinations of negative/dark/normal/HDR per channel", cls);
    ctx.observe(&format!("xyz-{}", t), hash_f64s(&[cc[0], cc[1], cc[2], w[0], w[1], w[2]]), true);
    ctx.sample(|| format!("{} XYZ {:?} white {:?} -> Lab {:?}", t, cc, w, g));

    // xyY white through Into
    if ctx.rng.chance(1, 4) {
        let (x, y) = ctx.white_xy();
        let (x, y) = (q::<T>(x), q::<T>(y));
        let wy = xyy::<T>(x, y, 1.0);
        let wv = xyy_to_xyz(x, y, 1.0);
        let got: Lab<T> = xyz_to_lab(cx, wy);
        let want = refm::xyz_to_lab(cc, wv);
        let m = mag(cc, wv);
        for i in 0..3 {
            let k = [116.0, 1000.0, 400.0][i];
            ctx.close("xyz_to_lab:xyY", un(got)[i], want[i], k * u * 16.0 * m, || format!("{} XYZ {:?} white xy {:?}", t, cc, (x, y)));
        }
        ctx.observe("xyY-white", hash_f64s(&[x, y, cc[0]]), true);
    }
}

fn from_lab<T: Real>(ctx: &mut Ctx) {
    let t = tname::<T>();
    let w = white::<T>(ctx);
    let u = if is32::<T>() { 6e-7 } else { 1e-15 };
    let l = match ctx.rng.below(6) {
        0 => ctx.rng.uni(-20.0, 0.0),
        1 => ctx.rng.uni(100.0, 400.0),
        2 => 8.0 + ctx.rng.uni(-1e-3, 1e-3),
        3 => ctx.rng.range(0, 100) as f64,
        _ => ctx.rng.uni(0.0, 100.0),
    };
    let pick = |ctx: &mut Ctx| match ctx.rng.below(5) {
        0 => 0.0,
        1 => ctx.rng.uni(-300.0, 300.0),
        2 => ctx.rng.uni(-1.0, 1.0),
        _ => ctx.rng.uni(-128.0, 128.0),
    };
    let v = q3::<T>([l, pick(ctx), pick(ctx)]);
    let lb: Lab<T> = lab(c(v[0]), c(v[1]), c(v[2]));
    let x = match ctx.call("lab_to_xyz", || format!("{} Lab {:?} white {:?}", t, v, w), || lab_to_xyz::<T, _, _>(lb, xyz::<T>(w))) {
        Some(x) => x,
        None => return,
    };
    let g = unxyz(x);
    let want = refm::lab_to_xyz(v, w);
    let fy = (v[0] + 16.0) / 116.0;
    let fs = [fy + v[1] / 500.0, fy, fy - v[2] / 200.0];
    let fscale = fy.abs() + (v[1] / 500.0).abs() + (v[2] / 200.0).abs() + 0.3;
    for i in 0..3 {
        let fe = u * 16.0 * fscale;
        ctx.close("lab_to_xyz", g[i] / w[i], want[i] / w[i], (3.0 * fs[i] * fs[i] + 0.3) * fe, || format!("{} Lab {:?} white {:?} component {}", t, v, w, i));
    }
    let back: Lab<T> = xyz_to_lab(x, xyz::<T>(w));
    let b = un(back);
    for i in 0..3 {
        let k = [116.0, 1000.0, 400.0][i];
        ctx.close("round trip Lab", b[i], v[i], k * u * 40.0 * fscale, || format!("{} Lab {:?} white {:?} via XYZ {:?} component {}", t, v, w, g, i));
    }
    ctx.observe(&format!("lab-{}", t), hash_f64s(&v), true);
}

fn landmarks<T: Real>(ctx: &mut Ctx) {
    let t = tname::<T>();
    let w = white::<T>(ctx);
    let e = if is32::<T>() { 3e-4 } else { 1e-11 };
    let wx = xyz::<T>(w);
    let l = un(xyz_to_lab::<T, _, _>(wx, wx));
    for i in 0..3 {
        ctx.close("white", l[i], [100.0, 0.0, 0.0][i], e, || format!("{} Lab of the white {:?}", t, w));
    }
    let l = un(xyz_to_lab::<T, _, _>(xyz::<T>([0.0; 3]), wx));
    for i in 0..3 {
        ctx.close("black", l[i], 0.0, e, || format!("{} Lab of black, white {:?}", t, w));
    }
    let k = ctx.nonneg().min(1e4);
    let g = [w[0] * k, w[1] * k, w[2] * k];
    let l = un(xyz_to_lab::<T, _, _>(xyz::<T>(g), wx));
    let kk = e * (1.0 + k.cbrt());
    ctx.close("grey", l[1], 0.0, kk, || format!("{} a of {} * white {:?}", t, k, w));
    ctx.close("grey", l[2], 0.0, kk, || format!("{} b of {} * white {:?}", t, k, w));
    // lightness increases
    let (y1, y2) = (ctx.channel().min(1e4), ctx.channel().min(1e4));
    let (lo, hi) = if y1 < y2 { (y1, y2) } else { (y2, y1) };
    if hi - lo > 1e-3 * (1e-3 + hi.abs()) {
        let a = un(xyz_to_lab::<T, _, _>(xyz::<T>([50.0, lo * w[1], 20.0]), wx));
        let b = un(xyz_to_lab::<T, _, _>(xyz::<T>([50.0, hi * w[1], 20.0]), wx));
        ctx.check("lightness", b[0] > a[0], || format!("{} Y {} and {} (of white) give L {} and {}", t, lo, hi, a[0], b[0]));
    }
    ctx.observe("landmarks", hash_f64s(&[w[0], w[1], w[2], k]), true);
}

pub fn fixed(ctx: &mut Ctx) {
    for _ in 0..50 {
        landmarks::<f64>(ctx);
        landmarks::<f32>(ctx);
    }
    // Lab of a dense lightness ramp through the join
    let w = [95.047, 100.0, 108.883];
    for i in 0..4000 {
        let y = i as f64 * 0.0005;
        let l: Lab<f64> = xyz_to_lab(xyz::<f64>([w[0] * y / 100.0 * 50.0, y * 50.0, w[2] * y / 100.0 * 50.0]), xyz::<f64>(w));
        ctx.close("ramp", l.L, 116.0 * lab_f(y / 2.0) - 16.0, 1e-11, || format!("L at Y={}", y * 50.0));
        ctx.observe("ramp", i as u64, true);
    }
}
pub fn step(ctx: &mut Ctx) {
    one::<f64>(ctx);
    one::<f32>(ctx);
    from_lab::<f64>(ctx);
    from_lab::<f32>(ctx);
    if ctx.rng.chance(1, 4) {
        landmarks::<f64>(ctx);
        landmarks::<f32>(ctx);
    }
}
pub const STEPS: usize = 250_000;
