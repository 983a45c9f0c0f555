//! Colour space matrices.
use crate::common::*;
use crate::ctx::*;
use crate::refm::*;
use colorspace::color_space_rgb::ColorSpaceRGB;
use colorspace::math::Real;

fn builtin<T: Models>(ctx: &mut Ctx) {
    let e = if is32::<T>() { 1e-7 } else { 1e-15 };
    for (name, m) in T::models() {
        let r = ref_space(name);
        let sig = format!("builtin:{}", name);
        for (what, got, want) in [("red", m.red, r.red), ("green", m.green, r.green), ("blue", m.blue, r.blue), ("white", m.white, r.white)] {
            ctx.close(&sig, d(got.x), want.0, e, || format!("{} {} {} x", tname::<T>(), name, what));
            ctx.close(&sig, d(got.y), want.1, e, || format!("{} {} {} y", tname::<T>(), name, what));
            ctx.close(&sig, d(got.Y), 1.0, e, || format!("{} {} {} Y", tname::<T>(), name, what));
        }
        let a = unm(&m.xf_xyz_to_rgb);
        let b = unm(&m.xf_rgb_to_xyz);
        let (ra, rb) = (r.xyz_to_rgb(), r.rgb_to_xyz());
        let tol = if r.published.is_some() {
            if is32::<T>() {
                2e-7
            } else {
                1e-14
            }
        } else if is32::<T>() {
            6e-6
        } else {
            1e-11
        };
        for i in 0..3 {
            for j in 0..3 {
                ctx.close(&sig, a[i][j], ra[i][j], tol * (1.0 + ra[i][j].abs()), || format!("{} {} xyz->rgb[{}][{}]", tname::<T>(), name, i, j));
                ctx.close(&sig, b[i][j], rb[i][j], tol * (1.0 + rb[i][j].abs()), || format!("{} {} rgb->xyz[{}][{}]", tname::<T>(), name, i, j));
            }
        }
        // structural, to the rounding of the published matrices (4 to 10 digits)
        let ptol = if r.published.is_some() { 6e-4 } else { tol * 4.0 };
        structural::<T>(ctx, &sig, name, &a, &b, r.red, r.green, r.blue, r.white, ptol);
        ctx.observe(&format!("builtin-{}", tname::<T>()), hash_str(name), true);
    }
}

#[allow(clippy::too_many_arguments)]
fn structural<T: Real>(ctx: &mut Ctx, sig: &str, name: &str, a: &M3, b: &M3, red: (f64, f64), green: (f64, f64), blue: (f64, f64), white: (f64, f64), tol: f64) {
    let w = mv(b, [1.0; 3]);
    let ww = [white.0 / white.1, 1.0, (1.0 - white.0 - white.1) / white.1];
    let ws = mv_abs(b, [1.0; 3]);
    for i in 0..3 {
        ctx.close(&format!("{}:white", sig), w[i], ww[i], tol * (ws[i] + ww[i].abs()), || format!("{} {}: RGB(1,1,1)->XYZ component {}", tname::<T>(), name, i));
    }
    for (k, p) in [red, green, blue].iter().enumerate() {
        let mut e = [0.0; 3];
        e[k] = 1.0;
        let v = mv(b, e);
        let s = v[0] + v[1] + v[2];
        let mag = v[0].abs() + v[1].abs() + v[2].abs();
        // compare v with s*(x,y,1-x-y) so that no division blows up the error
        let want = [s * p.0, s * p.1, s * (1.0 - p.0 - p.1)];
        for i in 0..3 {
            ctx.close(&format!("{}:primary", sig), v[i], want[i], 4.0 * tol * mag, || {
                format!("{} {}: primary {} maps to XYZ {:?}, chromaticity should be {:?}; component {}", tname::<T>(), name, k, v, p, i)
            });
        }
    }
    for (order, p, s) in [("xyz->rgb*rgb->xyz", mm(a, b), mm_abs(a, b)), ("rgb->xyz*xyz->rgb", mm(b, a), mm_abs(b, a))] {
        for i in 0..3 {
            for j in 0..3 {
                let want = if i == j { 1.0 } else { 0.0 };
                ctx.close(&format!("{}:inverse", sig), p[i][j], want, tol * (s[i][j] + 1.0) * 4.0, || {
                    format!("{} {}: {} [{}][{}]", tname::<T>(), name, order, i, j)
                });
            }
        }
    }
}

fn area(a: (f64, f64), b: (f64, f64), c: (f64, f64)) -> f64 {
    0.5 * ((b.0 - a.0) * (c.1 - a.1) - (c.0 - a.0) * (b.1 - a.1)).abs()
}

fn user<T: Real + 'static>(ctx: &mut Ctx) {
    let pick = |ctx: &mut Ctx| -> (f64, f64) {
        match ctx.rng.below(6) {
            0 => *ctx.rng.pick(&[(1.0, 0.0), (0.0, 1.0), (0.0, 0.0), (0.5, 0.0), (0.0, 0.5), (0.5, 0.5), (1.0 / 3.0, 1.0 / 3.0), (0.64, 0.33), (0.3, 0.6), (0.15, 0.06)]),
            1 => (ctx.rng.uni(-0.3, 1.2), ctx.rng.uni(-0.3, 1.2)),
            2 => (ctx.rng.below(11) as f64 / 10.0, ctx.rng.below(11) as f64 / 10.0),
            3 => {
                let s = spaces();
                let k = ctx.rng.below(s.len());
                let s = &s[k];
                *ctx.rng.pick(&[s.red, s.green, s.blue])
            }
            _ => (ctx.rng.uni(0.0, 0.8), ctx.rng.uni(0.0, 0.85)),
        }
    };
    let (r, g, b) = (pick(ctx), pick(ctx), pick(ctx));
    // mostly real whites; any chromaticity with y away from 0 has a definition
    let w = if ctx.rng.chance(1, 3) {
        let mut w = (ctx.rng.uni(-0.4, 1.2), ctx.rng.uni(-0.4, 1.2));
        if w.1.abs() < 0.05 {
            w.1 = 0.05;
        }
        w
    } else {
        ctx.white_xy()
    };
    let qq = |p: (f64, f64)| (q::<T>(p.0), q::<T>(p.1));
    let (r, g, b, w) = (qq(r), qq(g), qq(b), qq(w));
    if area(r, g, b) < 0.01 {
        ctx.cats.entry("skipped-degenerate".into()).and_modify(|c| *c += 1).or_insert(1);
        return;
    }
    let m = match derive_rgb_to_xyz(r, g, b, w) {
        Some(m) => m,
        None => return,
    };
    // the white must not be (nearly) on a side of the triangle
    let mut s = [0.0; 3];
    for j in 0..3 {
        s[j] = m[0][j] + m[1][j] + m[2][j];
    }
    let sum: f64 = s.iter().map(|x| x.abs()).sum();
    let k = cond(&m);
    if s.iter().any(|x| x.abs() < 1e-2 * sum) || !(k < 1e4) {
        ctx.cats.entry("skipped-ill-conditioned".into()).and_modify(|c| *c += 1).or_insert(1);
        return;
    }
    // the luminances given with the coordinates say nothing about the space
    let mut ys = [1.0; 4];
    if ctx.rng.chance(1, 4) {
        for y in ys.iter_mut() {
            if ctx.rng.chance(1, 2) {
                *y = *ctx.rng.pick(&[0.18, 0.5, 0.9, 1.1, 2.0, 100.0]);
            }
        }
    }
    let desc = move || format!("red {:?} green {:?} blue {:?} white {:?} ({})", r, g, b, w, tname::<T>());
    let sp = match ctx.call("user", desc, || {
        ColorSpaceRGB::<T>::new(
            xyy(r.0, r.1, ys[0]),
            xyy(g.0, g.1, ys[1]),
            xyy(b.0, b.1, ys[2]),
            xyy(w.0, w.1, ys[3]),
            Box::new(|c| c),
            Box::new(|c| c),
        )
    }) {
        Some(s) => s,
        None => return,
    };
    let (fa, fb) = (unm(&sp.xf_xyz_to_rgb), unm(&sp.xf_rgb_to_xyz));
    let tol = eps::<T>() * k.max(1.0) * 4.0;
    structural::<T>(ctx, "user", &desc(), &fa, &fb, r, g, b, w, tol);
    let n = inf_norm(&m);
    for i in 0..3 {
        for j in 0..3 {
            ctx.close("user:rgb->xyz", fb[i][j], m[i][j], tol * n * 4.0, || format!("{} rgb->xyz[{}][{}]", desc(), i, j));
        }
    }
    for (got, want) in [(sp.red, r), (sp.green, g), (sp.blue, b), (sp.white, w)] {
        ctx.check("user:fields", d(got.x) == want.0 && d(got.y) == want.1, || format!("{}: stored {:?}", desc(), got));
    }
    if ys != [1.0; 4] {
        ctx.observe("user-other-luminance", hash_f64s(&ys), true);
    }
    if w.0 + w.1 > 1.0 || w.0 < 0.0 || w.1 < 0.0 {
        ctx.observe("user-imaginary-white", hash_f64s(&[w.0, w.1]), true);
    }
    ctx.observe(&format!("user-{}", tname::<T>()), hash_f64s(&[r.0, r.1, g.0, g.1, b.0, b.1, w.0, w.1]), true);
    ctx.sample(|| format!("{} -> {:?}", desc(), fb));
}

fn specified<T: Real + 'static>(ctx: &mut Ctx) {
    let mut m = [[[0.0; 3]; 3]; 2];
    for k in 0..2 {
        for i in 0..3 {
            m[k][i] = q3::<T>(ctx.color());
        }
    }
    let p: Vec<(f64, f64, f64)> = (0..4)
        .map(|_| {
            let v = q3::<T>(ctx.color());
            (v[0], v[1], v[2])
        })
        .collect();
    let s = ColorSpaceRGB::<T>::new_with_specified_matrices(
        xyy(p[0].0, p[0].1, p[0].2),
        xyy(p[1].0, p[1].1, p[1].2),
        xyy(p[2].0, p[2].1, p[2].2),
        xyy(p[3].0, p[3].1, p[3].2),
        m33(&m[0]),
        m33(&m[1]),
        Box::new(|c| c),
        Box::new(|c| c),
    );
    let ok = unm(&s.xf_xyz_to_rgb) == m[0] && unm(&s.xf_rgb_to_xyz) == m[1];
    ctx.check("specified", ok, || format!("matrices {:?} stored as {:?} / {:?}", m, s.xf_xyz_to_rgb, s.xf_rgb_to_xyz));
    for (i, x) in [s.red, s.green, s.blue, s.white].iter().enumerate() {
        let w = p[i];
        ctx.check("specified:fields", d(x.x) == w.0 && d(x.y) == w.1 && d(x.Y) == w.2, || format!("coordinate {} {:?} stored as {:?}", i, w, x));
    }
    ctx.observe("specified", hash_f64s(&flat(&m[0])), true);
}

pub fn fixed(ctx: &mut Ctx) {
    builtin::<f64>(ctx);
    builtin::<f32>(ctx);
}
pub fn step(ctx: &mut Ctx) {
    user::<f64>(ctx);
    user::<f32>(ctx);
    if ctx.rng.chance(1, 5) {
        specified::<f64>(ctx);
        specified::<f32>(ctx);
    }
}
pub const STEPS: usize = 60_000;
