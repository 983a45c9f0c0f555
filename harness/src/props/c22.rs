//! Single precision against double precision: the same computation is run in
//! both and the two executions are compared.
use crate::common::*;
use crate::ctx::*;
use crate::refm::{cond, inf_norm, mv_abs, Curve, M3, V3};
use colorspace::chromatic_adaptation::*;
use colorspace::chromaticity::XYY;
use colorspace::color_space_rgb::{decode, encode, ColorSpaceRGB};
use colorspace::illuminant::xy::cct;
use colorspace::lab::*;
use colorspace::transform::*;

pub const STEPS: usize = 20_000;

fn near_m(ctx: &mut Ctx, sig: &str, a: &M3, b: &M3, t: f64, f: &dyn Fn() -> String) {
    let n = inf_norm(b).max(1e-30);
    for i in 0..3 {
        for j in 0..3 {
            ctx.close(sig, a[i][j], b[i][j], t * n, || format!("{} [{}][{}] f32 against f64", f(), i, j));
        }
    }
}
fn q32(v: V3) -> V3 {
    q3::<f32>(v)
}

fn pairs() -> Vec<(&'static str, &'static ColorSpaceRGB<f32>, &'static ColorSpaceRGB<f64>)> {
    let d = models64();
    models32().into_iter().map(|(n, m)| (n, m, d.iter().find(|x| x.0 == n).unwrap().1)).collect()
}

fn same_xy(ctx: &mut Ctx, name: &str, what: &str, a: XYY<f32>, b: XYY<f64>) {
    for (k, x, y) in [("x", a.x, b.x), ("y", a.y, b.y), ("Y", a.Y, b.Y)] {
        ctx.close("model", x as f64, y, 2e-7 * (1.0 + y.abs()), || format!("{} {} {} of the f32 model", name, what, k));
    }
}

/// transfer curves where the two segments meet: either side may be taken
fn curve_tol(name: &str, x: f64, y: f64) -> f64 {
    let cv = ref_space(name).curve;
    let mut t = 4e-6 * y.abs() * crate::props::c03::amp(y) + 1e-9;
    if cv == Curve::LogC {
        t = 4e-5 * y.abs() + 4e-6;
    }
    for j in [cv.join_lin(), cv.join_enc()].into_iter().flatten() {
        if (x - j).abs() < 1e-5 {
            t += 3e-4;
        }
    }
    t
}

pub fn fixed(ctx: &mut Ctx) {
    for (name, a, b) in pairs() {
        ctx.observe("model", hash_str(name), true);
        same_xy(ctx, name, "red", a.red, b.red);
        same_xy(ctx, name, "green", a.green, b.green);
        same_xy(ctx, name, "blue", a.blue, b.blue);
        same_xy(ctx, name, "white", a.white, b.white);
        // tabulated coefficients are rounded once, derived ones are computed
        let t = if ref_space(name).published.is_some() { 1.2e-7 } else { 4e-6 };
        for (what, m32, m64) in [("xyz->rgb", unm(&a.xf_xyz_to_rgb), unm(&b.xf_xyz_to_rgb)), ("rgb->xyz", unm(&a.xf_rgb_to_xyz), unm(&b.xf_rgb_to_xyz))] {
            for i in 0..3 {
                for j in 0..3 {
                    ctx.close("model-matrix", m32[i][j], m64[i][j], t * (if t < 1e-6 { 0.01 } else { 0.5 } + m64[i][j].abs()), || format!("{} {} [{}][{}] of the f32 model", name, what, i, j));
                }
            }
        }
        for i in 0..=4000 {
            let x = q::<f32>(-0.25 + i as f64 * (2.5 / 4000.0));
            curves(ctx, name, a, b, [x, x, x]);
        }
    }
}

fn curves(ctx: &mut Ctx, name: &str, a: &ColorSpaceRGB<f32>, b: &ColorSpaceRGB<f64>, v: V3) {
    let r = ctx.call("curve", || format!("{} {:?}", name, v), || {
        (
            unrgb(a.encode(rgb::<f32>(v))),
            unrgb(b.encode(rgb::<f64>(v))),
            unrgb(a.decode(rgb::<f32>(v))),
            unrgb(b.decode(rgb::<f64>(v))),
        )
    });
    if let Some((e32, e64, d32, d64)) = r {
        ctx.observe("curve", hash_f64s(&v) ^ hash_str(name), true);
        for i in 0..3 {
            if e64[i].abs() < 1e30 || e64[i].is_nan() {
                ctx.close("encode", e32[i], e64[i], curve_tol(name, v[i], e64[i]), || format!("{} encode {}, f32 against f64", name, v[i]));
            }
            // exponents above float range overflow in f32 first
            if d64[i].abs() < 1e30 || d64[i].is_nan() {
                let t = curve_tol(name, v[i], d64[i]) * if ref_space(name).curve == Curve::LogC { 1.0 + v[i].abs() * 40.0 } else { 1.0 };
                ctx.close("decode", d32[i], d64[i], t, || format!("{} decode {}, f32 against f64", name, v[i]));
            }
        }
    }
}

fn scalar_curves(ctx: &mut Ctx, x: f64) {
    let x = q::<f32>(x);
    let xf = x as f32;
    for (name, e32, e64, d32, d64) in [
        ("SRGB", encode::srgb_t(xf) as f64, encode::srgb_t(x), decode::srgb_t(xf) as f64, decode::srgb_t(x)),
        ("ITUR_BT709", encode::bt709_t(xf) as f64, encode::bt709_t(x), decode::bt709_t(xf) as f64, decode::bt709_t(x)),
        ("ITUR_BT2020", encode::bt2020_t(xf) as f64, encode::bt2020_t(x), decode::bt2020_t(xf) as f64, decode::bt2020_t(x)),
        ("ACES", encode::linear_t(xf) as f64, encode::linear_t(x), decode::linear_t(xf) as f64, decode::linear_t(x)),
        ("ALEXA_WIDE_GAMUT", encode::alexa_logc_v3_t(xf) as f64, encode::alexa_logc_v3_t(x), decode::alexa_logc_v3_t(xf) as f64, decode::alexa_logc_v3_t(x)),
    ] {
        if e64.abs() < 1e30 {
            ctx.close("scalar-encode", e32, e64, curve_tol(name, x, e64), || format!("{} encode_t({}), f32 against f64", name, x));
        }
        if d64.abs() < 1e30 {
            let t = curve_tol(name, x, d64) * if name == "ALEXA_WIDE_GAMUT" { 1.0 + x.abs() * 40.0 } else { 1.0 };
            ctx.close("scalar-decode", d32, d64, t, || format!("{} decode_t({}), f32 against f64", name, x));
        }
    }
}

pub fn step(ctx: &mut Ctx) {
    let ps = pairs();
    let (name, a, b) = ps[ctx.rng.below(ps.len())];
    let v = q32(ctx.color());
    curves(ctx, name, a, b, v);
    let x = ctx.channel();
    scalar_curves(ctx, x);

    // derived matrices of a space
    let base = [(0.64, 0.33), (0.3, 0.6), (0.15, 0.06)];
    let p: Vec<(f64, f64)> = base.iter().map(|c| (q::<f32>(c.0 + ctx.rng.uni(-0.08, 0.08)), q::<f32>(c.1 + ctx.rng.uni(-0.05, 0.1)))).collect();
    let w = ctx.white_xy();
    let w = (q::<f32>(w.0), q::<f32>(w.1));
    let s32 = ColorSpaceRGB::<f32>::new(xyy(p[0].0, p[0].1, 1.0), xyy(p[1].0, p[1].1, 1.0), xyy(p[2].0, p[2].1, 1.0), xyy(w.0, w.1, 1.0), Box::new(|c| c), Box::new(|c| c));
    let s64 = ColorSpaceRGB::<f64>::new(xyy(p[0].0, p[0].1, 1.0), xyy(p[1].0, p[1].1, 1.0), xyy(p[2].0, p[2].1, 1.0), xyy(w.0, w.1, 1.0), Box::new(|c| c), Box::new(|c| c));
    let m64 = unm(&s64.xf_rgb_to_xyz);
    let k = cond(&m64);
    if k < 300.0 {
        ctx.observe("derived space", hash_f64s(&[p[0].0, p[0].1, p[1].0, w.0]), true);
        near_m(ctx, "space", &unm(&s32.xf_rgb_to_xyz), &m64, 4e-6 * k, &|| format!("rgb->xyz of {:?} white {:?}", p, w));
        near_m(ctx, "space", &unm(&s32.xf_xyz_to_rgb), &unm(&s64.xf_xyz_to_rgb), 4e-6 * k, &|| format!("xyz->rgb of {:?} white {:?}", p, w));
        let g = m64;
        let (i32_, i64_) = (m33::<f32>(&g).inverse(), m33::<f64>(&crate::refm::mat(&crate::refm::flat(&g))).inverse());
        if let (Some(x), Some(y)) = (i32_, i64_) {
            near_m(ctx, "inverse", &unm(&x), &unm(&y), 4e-6 * k, &|| format!("inverse of {:?}", g));
        }
        if let (Some(x), Some(y)) = (m33::<f32>(&g).gj_inverse(), m33::<f64>(&g).gj_inverse()) {
            near_m(ctx, "gj_inverse", &unm(&x), &unm(&y), 4e-6 * k, &|| format!("gj_inverse of {:?}", g));
        }
    }

    // adaptation
    let w1 = ctx.white_xy();
    let w2 = ctx.white_xy();
    let (w1, w2) = ((q::<f32>(w1.0), q::<f32>(w1.1)), (q::<f32>(w2.0), q::<f32>(w2.1)));
    ctx.observe("adaptation", hash_f64s(&[w1.0, w1.1, w2.0, w2.1]), true);
    macro_rules! cat {
        ($f:ident) => {
            let x = unm(&$f::<f32, _, _>(xyy::<f32>(w1.0, w1.1, 1.0), xyy::<f32>(w2.0, w2.1, 1.0)));
            let y = unm(&$f::<f64, _, _>(xyy::<f64>(w1.0, w1.1, 1.0), xyy::<f64>(w2.0, w2.1, 1.0)));
            near_m(ctx, stringify!($f), &x, &y, 2e-5, &|| format!("{} {:?} -> {:?}", stringify!($f), w1, w2));
        };
    }
    cat!(bradford);
    cat!(von_kries);
    cat!(cat02);

    // conversions
    let (m32, m64) = (xyz_to_rgb_matrix(xyy::<f32>(w1.0, w1.1, 1.0), a), xyz_to_rgb_matrix(xyy::<f64>(w1.0, w1.1, 1.0), b));
    near_m(ctx, "xyz_to_rgb_matrix", &unm(&m32), &unm(&m64), 6e-5, &|| format!("{} white {:?}", name, w1));
    let x = q32(ctx.xyz100());
    ctx.observe("conversion", hash_f64s(&x) ^ hash_str(name), true);
    let (r32, r64) = (unrgb(xyz_to_rgb(&m32, xyz::<f32>(x))), unrgb(xyz_to_rgb(&m64, xyz::<f64>(x))));
    let ab = x.iter().fold(0.0f64, |s, y| s.max(y.abs())) / 100.0;
    let n = inf_norm(&unm(&m64));
    for i in 0..3 {
        ctx.close("xyz_to_rgb", r32[i], r64[i], 7e-5 * n * ab + 1e-30, || format!("{} white {:?} XYZ {:?} channel {}", name, w1, x, i));
    }
    let (m32, m64) = (rgb_to_xyz_matrix(xyy::<f32>(w1.0, w1.1, 1.0), a), rgb_to_xyz_matrix(xyy::<f64>(w1.0, w1.1, 1.0), b));
    near_m(ctx, "rgb_to_xyz_matrix", &unm(&m32), &unm(&m64), 6e-5, &|| format!("{} white {:?}", name, w1));
    let (r32, r64) = (unxyz(rgb_to_xyz(&m32, rgb::<f32>(v))), unxyz(rgb_to_xyz(&m64, rgb::<f64>(v))));
    let s = mv_abs(&unm(&m64), v);
    for i in 0..3 {
        ctx.close("rgb_to_xyz", r32[i], r64[i], 7e-5 * 100.0 * (s[i] + v.iter().fold(0.0f64, |s, y| s.max(y.abs()))) + 1e-28, || format!("{} white {:?} RGB {:?} component {}", name, w1, v, i));
    }
    let (name2, a2, b2) = ps[ctx.rng.below(ps.len())];
    near_m(ctx, "rgb_to_rgb_matrix", &unm(&rgb_to_rgb_matrix(a, a2)), &unm(&rgb_to_rgb_matrix(b, b2)), 2e-4, &|| format!("{} -> {}", name, name2));

    // Lab and differences
    let w = q32([ctx.rng.uni(50.0, 130.0), ctx.rng.uni(50.0, 130.0), ctx.rng.uni(50.0, 130.0)]);
    let x = ctx.color_nonneg();
    let x = q32([x[0].min(1e4) * w[0], x[1].min(1e4) * w[1], x[2].min(1e4) * w[2]]);
    let (l32, l64): (Lab<f32>, Lab<f64>) = (xyz_to_lab(xyz::<f32>(x), xyz::<f32>(w)), xyz_to_lab(xyz::<f64>(x), xyz::<f64>(w)));
    ctx.observe("Lab", hash_f64s(&x), true);
    let m = (0..3).map(|i| crate::refm::lab_f(x[i] / w[i]).abs()).fold(1.0, f64::max);
    for (i, (p, r, k)) in [(l32.L, l64.L, 116.0), (l32.a, l64.a, 1000.0), (l32.b, l64.b, 400.0)].iter().enumerate() {
        ctx.close("xyz_to_lab", *p as f64, *r, 8.0 * 6e-7 * k * m, || format!("Lab[{}] of {:?} white {:?}", i, x, w));
    }
    let l = q32([ctx.rng.uni(0.0, 100.0), ctx.rng.uni(-100.0, 100.0), ctx.rng.uni(-100.0, 100.0)]);
    let (x32, x64) = (unxyz(lab_to_xyz::<f32, _, _>(lab(l[0] as f32, l[1] as f32, l[2] as f32), xyz::<f32>(w))), unxyz(lab_to_xyz::<f64, _, _>(lab(l[0], l[1], l[2]), xyz::<f64>(w))));
    for i in 0..3 {
        ctx.close("lab_to_xyz", x32[i], x64[i], 2e-5 * w[i] * (1.0 + x64[i].abs() / w[i]), || format!("XYZ[{}] of Lab {:?} white {:?}", i, l, w));
    }
    let g = q32([ctx.rng.uni(0.0, 100.0), ctx.rng.uni(-100.0, 100.0), ctx.rng.uni(-100.0, 100.0)]);
    let t32 = |v: V3| lab(v[0] as f32, v[1] as f32, v[2] as f32);
    let t64 = |v: V3| lab(v[0], v[1], v[2]);
    ctx.observe("difference", hash_f64s(&[l[0], l[1], l[2], g[0], g[1], g[2]]), true);
    let (e32, e64) = (delta_E_1976(t32(l), t32(g)) as f64, delta_E_1976(t64(l), t64(g)));
    ctx.close("delta_E_1976", e32, e64, 4e-6 * e64 + 1e-30, || format!("{:?} {:?}", l, g));
    let (e32, e64) = (delta_E_2000(t32(l), t32(g)) as f64, delta_E_2000(t64(l), t64(g)));
    let alts = crate::refm::de2000(l, g, 2e-3);
    if alts.len() == 1 {
        ctx.close("delta_E_2000", e32, e64, 3e-4 * (1.0 + 0.05 * e64) + 6e-4, || format!("{:?} {:?}", l, g));
    }

    // daylight
    let t = q::<f32>(match ctx.rng.below(4) {
        0 => ctx.rng.uni(3000.0, 30000.0),
        1 => ctx.dict_value(),
        _ => ctx.rng.uni(4000.0, 25000.0),
    });
    ctx.observe("daylight", t.to_bits(), true);
    match (cct(t as f32), cct(t)) {
        (Ok(p), Ok(r)) => {
            ctx.close("cct", p.x as f64, r.x, 2e-6, || format!("cct({}) x", t));
            ctx.close("cct", p.y as f64, r.y, 6e-6, || format!("cct({}) y", t));
            ctx.close("cct", p.Y as f64, r.Y, 1e-6, || format!("cct({}) Y", t));
        }
        (Err(_), Err(_)) => {}
        (p, r) => ctx.violate("cct:range", format!("cct({}): f32 {} f64 {}", t, p.is_ok(), r.is_ok())),
    }
    // chromaticity
    let x = q32(ctx.xyz100());
    let s = x[0] + x[1] + x[2];
    let mag = x[0].abs() + x[1].abs() + x[2].abs();
    if s.abs() > 1e-3 * mag && mag > 1e-20 {
        let (p, r) = (XYY::<f32>::from_xyz(xyz::<f32>(x)), XYY::<f64>::from_xyz(xyz::<f64>(x)));
        let k = 4e-7 * (mag / s.abs()).powi(2).max(1.0);
        ctx.close("from_xyz", p.x as f64, r.x, k * (1.0 + r.x.abs()), || format!("xyY of {:?}: x", x));
        ctx.close("from_xyz", p.y as f64, r.y, k * (1.0 + r.y.abs()), || format!("xyY of {:?}: y", x));
        ctx.close("from_xyz", p.Y as f64, r.Y, 4e-7 * r.Y.abs() + 1e-30, || format!("xyY of {:?}: Y", x));
    }
}
