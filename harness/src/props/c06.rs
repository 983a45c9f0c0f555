//! XYZ<->RGB and RGB->RGB conversions.
use crate::common::*;
use crate::ctx::*;
use crate::refm::*;
use colorspace::chromatic_adaptation::bradford;
use colorspace::color_space_rgb::ColorSpaceRGB;
use colorspace::math::Real;
use colorspace::rgb::RGBf;
use colorspace::transform::*;

/// A space in both worlds.
pub struct Sp<T: Real + 'static> {
    pub name: String,
    pub sp: SpRef<T>,
    pub white: (f64, f64),
    pub x2r: M3,
    pub r2x: M3,
    pub curve: Curve,
    /// how well the two matrices invert each other
    pub slop: f64,
}
pub enum SpRef<T: Real + 'static> {
    Static(&'static ColorSpaceRGB<T>),
    Owned(ColorSpaceRGB<T>),
}
impl<T: Real> Sp<T> {
    pub fn get(&self) -> &ColorSpaceRGB<T> {
        match &self.sp {
            SpRef::Static(s) => s,
            SpRef::Owned(s) => s,
        }
    }
}

pub fn builtin<T: Models>(i: usize) -> Sp<T> {
    let ms = T::models();
    let (name, m) = ms[i % ms.len()];
    let r = ref_space(name);
    let (x2r, r2x) = (r.xyz_to_rgb(), r.rgb_to_xyz());
    let p = mm(&x2r, &r2x);
    let mut slop: f64 = 0.0;
    for i in 0..3 {
        for j in 0..3 {
            slop = slop.max((p[i][j] - if i == j { 1.0 } else { 0.0 }).abs());
        }
    }
    Sp { name: name.into(), sp: SpRef::Static(m), white: r.white, x2r, r2x, curve: r.curve, slop: slop * 1.5 }
}

pub fn user<T: Models>(ctx: &mut Ctx) -> Sp<T> {
    loop {
        let mut p = [(0.0, 0.0); 3];
        let base = [(0.64, 0.33), (0.3, 0.6), (0.15, 0.06)];
        for i in 0..3 {
            p[i] = (q::<T>(base[i].0 + ctx.rng.uni(-0.08, 0.08)), q::<T>(base[i].1 + ctx.rng.uni(-0.05, 0.1)));
        }
        let w = ctx.white_xy();
        let w = (q::<T>(w.0), q::<T>(w.1));
        let m = match derive_rgb_to_xyz(p[0], p[1], p[2], w) {
            Some(m) => m,
            None => continue,
        };
        if !(cond(&m) < 200.0) || (0..3).any(|j| m[1][j] <= 0.01) {
            continue;
        }
        let gamma = *ctx.rng.pick(&[1.0, 1.8, 2.2, 2.4]);
        let (g, gi): (T, T) = (c(gamma), c(1.0 / gamma));
        let s = ColorSpaceRGB::<T>::new(
            xyy(p[0].0, p[0].1, 1.0),
            xyy(p[1].0, p[1].1, 1.0),
            xyy(p[2].0, p[2].1, 1.0),
            xyy(w.0, w.1, 1.0),
            Box::new(move |c: RGBf<T>| if g == T::one() { c } else { c.powf(gi) }),
            Box::new(move |c: RGBf<T>| if g == T::one() { c } else { c.powf(g) }),
        );
        return Sp {
            name: format!("user{:?}{:?}g{}", p, w, gamma),
            sp: SpRef::Owned(s),
            white: w,
            x2r: inv(&m).unwrap(),
            r2x: m,
            curve: if gamma == 1.0 { Curve::Linear } else { Curve::Gamma(gamma) },
            slop: 0.0,
        };
    }
}

pub fn any_space<T: Models>(ctx: &mut Ctx) -> Sp<T> {
    if ctx.rng.chance(1, 4) {
        user(ctx)
    } else {
        let k = ctx.rng.below(64);
        builtin(k)
    }
}

pub fn cat02_ref(a: (f64, f64), b: (f64, f64)) -> M3 {
    if a == b {
        ident()
    } else {
        Cat::Cat02.matrix(xyy_to_xyz(a.0, a.1, 1.0), xyy_to_xyz(b.0, b.1, 1.0))
    }
}

/// the same with the luminances of the whites
fn cat02_lum(a: (f64, f64, f64), b: (f64, f64, f64)) -> M3 {
    if a == b {
        ident()
    } else {
        Cat::Cat02.matrix(xyy_to_xyz(a.0, a.1, a.2), xyy_to_xyz(b.0, b.1, b.2))
    }
}

fn near(ctx: &mut Ctx, sig: &str, got: &M3, want: &M3, t: f64, f: &dyn Fn() -> String) {
    let n = inf_norm(want).max(1.0);
    for i in 0..3 {
        for j in 0..3 {
            ctx.close(sig, got[i][j], want[i][j], t * n, || format!("{} [{}][{}]", f(), i, j));
        }
    }
}

fn mtol<T: Real>() -> f64 {
    if is32::<T>() {
        6e-5
    } else {
        1e-11
    }
}
fn vtol<T: Real>() -> f64 {
    if is32::<T>() {
        2e-6
    } else {
        1e-13
    }
}

fn xyz_rgb<T: Models>(ctx: &mut Ctx) {
    let s = any_space::<T>(ctx);
    let w = if ctx.rng.chance(1, 3) { s.white } else { ctx.white_xy() };
    let w = (q::<T>(w.0), q::<T>(w.1));
    let sw = (q::<T>(s.white.0), q::<T>(s.white.1));
    // the reference white need not have unit luminance
    let lum = q::<T>(if ctx.rng.chance(1, 4) { *ctx.rng.pick(&[0.5, 0.18, 2.0, 0.999, 4.0, 0.05]) } else { 1.0 });
    let wt = xyy::<T>(w.0, w.1, lum);
    let desc = || format!("{} {} reference white {:?} Y={}", tname::<T>(), s.name, w, lum);
    let (fwd, back) = match ctx.call("matrix", desc, || (xyz_to_rgb_matrix(wt, s.get()), rgb_to_xyz_matrix(wt, s.get()))) {
        Some(x) => x,
        None => return,
    };
    let (f, b) = (unm(&fwd), unm(&back));
    let t = mtol::<T>();
    let (wl, swl) = ((w.0, w.1, lum), (sw.0, sw.1, 1.0));
    near(ctx, "xyz_to_rgb_matrix", &f, &mm(&s.x2r, &cat02_lum(wl, swl)), t, &desc);
    near(ctx, "rgb_to_xyz_matrix", &b, &mm(&cat02_lum(swl, wl), &s.r2x), t, &desc);
    near(ctx, "matrix-inverse", &mm(&f, &b), &ident(), 20.0 * t + 4.0 * s.slop, &desc);
    // an explicit adaptation matrix
    let bm = bradford::<T, _, _>(wt, xyy::<T>(sw.0, sw.1, 1.0));
    let e = unm(&xyz_to_rgb_matrix_with_cat(&bm, s.get()));
    near(ctx, "xyz_to_rgb_matrix_with_cat", &e, &mm(&s.x2r, &unm(&bm)), t, &desc);
    // which may be any matrix, close to the identity or far from it
    let eps = *ctx.rng.pick(&[0.0, 1e-7, 1e-5, 1e-3, 0.1, 3.0]);
    let mut xm = if ctx.rng.chance(3, 4) { ident() } else { unm(&bm) };
    for r in 0..3 {
        for k in 0..3 {
            xm[r][k] = q::<T>(xm[r][k] + eps * ctx.rng.uni(-1.0, 1.0));
        }
    }
    let am = colorspace::math::Matrix33::new([0, 1, 2, 3, 4, 5, 6, 7, 8].map(|i| c::<T>(xm[i / 3][i % 3])));
    let e = unm(&xyz_to_rgb_matrix_with_cat(&am, s.get()));
    near(ctx, "xyz_to_rgb_matrix_with_cat", &e, &mm(&s.x2r, &xm), t * inf_norm(&xm).max(1.0), &desc);
    // white and greys
    let k = q::<T>(ctx.nonneg());
    let grey = unxyz(rgb_to_xyz(&back, rgb::<T>([k; 3])));
    let ww = xyy_to_xyz(w.0, w.1, k * lum);
    let pub_tol = if s.slop > 0.0 { 8e-4 } else { 0.0 };
    for i in 0..3 {
        ctx.close("white", grey[i], ww[i], (60.0 * t + pub_tol) * ww[1].abs().max(1e-30) * 1.6, || format!("{}: grey {:?} to XYZ component {}", desc(), k, i));
    }
    let g = unrgb(xyz_to_rgb(&fwd, xyz::<T>(ww)));
    for i in 0..3 {
        ctx.close("grey", g[i], k, (60.0 * t + 2.0 * pub_tol) * k.abs().max(1e-30) * 4.0, || format!("{}: XYZ of grey {:?} to RGB channel {}", desc(), k, i));
    }
    // colours
    for _ in 0..3 {
        let v = q3::<T>(ctx.xyz100());
        let r = unrgb(xyz_to_rgb(&fwd, xyz::<T>(v)));
        let want = mv(&f, [v[0] / 100.0, v[1] / 100.0, v[2] / 100.0]);
        let sc = mv_abs(&f, [v[0] / 100.0, v[1] / 100.0, v[2] / 100.0]);
        for i in 0..3 {
            ctx.close("xyz_to_rgb", r[i], want[i], vtol::<T>() * sc[i] + 1e-37, || format!("{}: XYZ {:?} channel {}", desc(), v, i));
        }
        let back_v = unxyz(rgb_to_xyz(&back, xyz_to_rgb(&fwd, xyz::<T>(v))));
        let m = v.iter().fold(0.0f64, |a, x| a.max(x.abs()));
        for i in 0..3 {
            ctx.close("roundtrip-xyz", back_v[i], v[i], (60.0 * t + 8.0 * s.slop) * m + 1e-37, || format!("{}: XYZ {:?} -> RGB -> XYZ component {}", desc(), v, i));
        }
        let u = q3::<T>(ctx.color());
        let x = unxyz(rgb_to_xyz(&back, rgb::<T>(u)));
        let want = mv(&b, u);
        let sc = mv_abs(&b, u);
        for i in 0..3 {
            ctx.close("rgb_to_xyz", x[i], 100.0 * want[i], 100.0 * vtol::<T>() * sc[i] + 1e-37, || format!("{}: RGB {:?} component {}", desc(), u, i));
        }
        let ub = unrgb(xyz_to_rgb(&fwd, rgb_to_xyz(&back, rgb::<T>(u))));
        let m = u.iter().fold(0.0f64, |a, x| a.max(x.abs()));
        for i in 0..3 {
            ctx.close("roundtrip-rgb", ub[i], u[i], (200.0 * t + 8.0 * s.slop) * m + 1e-37, || format!("{}: RGB {:?} -> XYZ -> RGB channel {}", desc(), u, i));
        }
        ctx.observe(&format!("xyz-rgb-{}", tname::<T>()), hash_f64s(&[v[0], v[1], v[2], u[0], w.0]), v.iter().any(|x| *x != 0.0));
    }
    ctx.sample(|| format!("{}: {:?}", desc(), f));
}

/// What the encoded conversion should give for `x` (already in the linear
/// destination space with error `delta`): an interval.
pub fn enc_interval(cv: Curve, x: f64, delta: f64, rel: f64) -> Option<(f64, f64)> {
    let (a, b) = (x - delta, x + delta);
    if !cv.allows_negative() && a < 0.0 {
        return None;
    }
    let mut lo = cv.enc(a);
    let mut hi = cv.enc(b);
    if let Some(j) = cv.join_lin() {
        if a <= j + 1e-6 && b >= j - 1e-6 {
            for s in [true, false] {
                for p in [a, b] {
                    let e = cv.enc_side(p, s);
                    lo = lo.min(e);
                    hi = hi.max(e);
                }
            }
        }
    }
    let t = rel * (1.0 + lo.abs().max(hi.abs()));
    Some((lo - t, hi + t))
}

fn rgb_rgb<T: Models>(ctx: &mut Ctx) {
    let a = any_space::<T>(ctx);
    let b = if ctx.rng.chance(1, 8) { builtin::<T>(ctx.rng.below(64)) } else { any_space::<T>(ctx) };
    let c3 = any_space::<T>(ctx);
    let desc = || format!("{} {} -> {}", tname::<T>(), a.name, b.name);
    let m = match ctx.call("rgb_to_rgb_matrix", desc, || unm(&rgb_to_rgb_matrix(a.get(), b.get()))) {
        Some(m) => m,
        None => return,
    };
    let qw = |w: (f64, f64)| (q::<T>(w.0), q::<T>(w.1));
    let want = mm(&b.x2r, &mm(&cat02_ref(qw(a.white), qw(b.white)), &a.r2x));
    let t = mtol::<T>() * 3.0;
    near(ctx, "rgb_to_rgb_matrix", &m, &want, t, &desc);
    let slop = 4.0 * (a.slop + b.slop);
    let back = unm(&rgb_to_rgb_matrix(b.get(), a.get()));
    near(ctx, "rgb-there-and-back", &mm(&back, &m), &ident(), (10.0 * t + slop) * inf_norm(&m) * inf_norm(&back), &desc);
    let bc = unm(&rgb_to_rgb_matrix(b.get(), c3.get()));
    let ac = unm(&rgb_to_rgb_matrix(a.get(), c3.get()));
    near(ctx, "rgb-compose", &mm(&bc, &m), &ac, (10.0 * t + slop) * inf_norm(&bc) * inf_norm(&m), &|| format!("{} -> {}", desc(), c3.name));
    // white stays white
    let w = mv(&m, [1.0; 3]);
    for i in 0..3 {
        let n = inf_norm(&b.x2r).max(1.0);
        ctx.close("rgb-white", w[i], 1.0, n * (10.0 * t + if a.slop > 0.0 || b.slop > 0.0 { 2e-3 } else { 0.0 }), || format!("{}: (1,1,1) channel {}", desc(), i));
    }
    // encoded pixels
    for _ in 0..3 {
        let mut u = q3::<T>(ctx.color());
        if !a.curve.allows_negative() {
            u = [u[0].abs(), u[1].abs(), u[2].abs()];
        }
        for x in u.iter_mut() {
            // keep log-encoded input in a sane range
            if a.curve == Curve::LogC {
                *x = q::<T>(x.max(-5.0).min(2.0));
            } else if x.abs() > 1e3 {
                *x = q::<T>(x.signum() * 1e3);
            }
        }
        let lin = [a.curve.dec(u[0]), a.curve.dec(u[1]), a.curve.dec(u[2])];
        let want = mv(&m, lin);
        let sc = mv_abs(&m, lin);
        let mut out = [RGBf::<T>::new(c(-7.0), c(-7.0), c(-7.0))];
        let n = match ctx.call("rgb_to_rgb", || format!("{} {:?}", desc(), u), || rgb_to_rgb(a.get(), b.get(), &[rgb::<T>(u)], &mut out)) {
            Some(n) => n,
            None => continue,
        };
        ctx.check("rgb_to_rgb:count", n == 1, || format!("{}: returned {} for one pixel", desc(), n));
        let got = unrgb(out[0]);
        // skip inputs at the source curve's discontinuity
        if let Some(j) = a.curve.join_enc() {
            if u.iter().any(|x| (x - j).abs() < 1e-4) {
                continue;
            }
        }
        let lrel = if is32::<T>() { 1e-5 } else { 1e-12 } * if a.curve == Curve::LogC { 12.0 } else { 1.0 };
        for i in 0..3 {
            let delta = lrel * sc[i] + if a.curve == Curve::LogC { if is32::<T>() { 3e-6 } else { 1e-12 } } else { 0.0 };
            let rel = if is32::<T>() { 5e-6 } else { 1e-11 };
            if let Some((lo, hi)) = enc_interval(b.curve, want[i], delta, rel) {
                ctx.check("rgb_to_rgb", got[i] >= lo && got[i] <= hi, || {
                    format!("{}: encoded {:?} channel {} = {:?}, expected {:?} (in [{:?},{:?}])", desc(), u, i, got[i], b.curve.enc(want[i]), lo, hi)
                });
            }
        }
        ctx.observe(&format!("rgb-rgb-{}", tname::<T>()), hash_f64s(&[u[0], u[1], u[2], hash_str(&desc()) as f64]), u.iter().any(|x| *x != 0.0));
    }
}

/// Spaces whose transfer functions are the user's own and mix the channels:
/// the conversion must hand them whole colours.
fn mixing<T: Models>(ctx: &mut Ctx) {
    let (p, w) = ([(0.64, 0.33), (0.3, 0.6), (0.15, 0.06)], ctx.white_xy());
    let w2 = if ctx.rng.chance(1, 3) { w } else { ctx.white_xy() };
    let k: Vec<T> = (0..8).map(|_| c(ctx.rng.uni(0.2, 2.0))).collect();
    // the same kind of function for both spaces, or each its own
    let kinds = [ctx.rng.below(5), ctx.rng.below(5), ctx.rng.below(5), ctx.rng.below(5)];
    let f = |k: Vec<T>, kind: usize| -> Box<dyn Fn(RGBf<T>) -> RGBf<T> + Sync + Send> {
        match kind {
            // each channel its own gain and offset
            0 => Box::new(move |v: RGBf<T>| RGBf::new(v.r * k[0] + k[1], v.g * k[2] + k[3], v.b * k[1] - k[0])),
            1 => Box::new(|v: RGBf<T>| v),
            // neutral, always
            2 => Box::new(move |v: RGBf<T>| RGBf::from_scalar((v.r + v.g + v.b) * k[0])),
            _ => Box::new(move |v: RGBf<T>| RGBf::new(v.g * k[0] + v.b * v.b * k[1], v.b * k[2] - v.r + k[3], v.r * k[0] + v.g * v.r * k[2])),
        }
    };
    let mk = |i: usize, w: (f64, f64)| {
        ColorSpaceRGB::<T>::new(xyy(p[0].0, p[0].1, 1.0), xyy(p[1].0, p[1].1, 1.0), xyy(p[2].0, p[2].1, 1.0), xyy(w.0, w.1, 1.0), f(k[i..i + 4].to_vec(), kinds[2 * i]), f(k[i + 2..i + 6].to_vec(), kinds[2 * i + 1]))
    };
    let (a, b) = (mk(0, w), mk(1, w2));
    let m = rgb_to_rgb_matrix(&a, &b);
    let n = 1 + ctx.rng.below(5);
    let v: Vec<[f64; 3]> = (0..n)
        .map(|_| {
            let g = ctx.rng.uni(-1.0, 2.0);
            q3::<T>(match ctx.rng.below(8) {
                0 => [0.0, 0.0, 0.0],
                1 => [g, g, g],
                2 => [1.0, 1.0, 1.0],
                3 => [g, 0.0, 0.0],
                _ => [g, ctx.rng.uni(-1.0, 2.0), ctx.rng.uni(-1.0, 2.0)],
            })
        })
        .collect();
    let px: Vec<RGBf<T>> = v.iter().map(|x| rgb::<T>(*x)).collect();
    let mut out = vec![RGBf::<T>::new(c(-7.0), c(-7.0), c(-7.0)); n];
    if ctx.call("mixing", || format!("{} user functions, {:?}", tname::<T>(), v), || rgb_to_rgb(&a, &b, &px, &mut out)).is_none() {
        return;
    }
    for i in 0..n {
        let want = unrgb(b.encode(m * a.decode(px[i])));
        let got = unrgb(out[i]);
        let s = 1.0 + want.iter().fold(0.0f64, |x, y| x.max(y.abs()));
        let t = if is32::<T>() { 2e-5 } else { 1e-12 };
        for j in 0..3 {
            ctx.close("mixing", got[j], want[j], t * s * 30.0, || format!("{}: pixel {:?} through channel-mixing user functions {:?}, channel {}", tname::<T>(), v[i], k, j));
        }
        ctx.observe("mixing", hash_f64s(&v[i]), true);
    }
}

pub fn fixed(ctx: &mut Ctx) {
    // every ordered pair of built-in spaces
    fn all<T: Models>(ctx: &mut Ctx) {
        let n = T::models().len();
        for i in 0..n {
            for j in 0..n {
                let (a, b) = (builtin::<T>(i), builtin::<T>(j));
                let m = unm(&rgb_to_rgb_matrix(a.get(), b.get()));
                let want = mm(&b.x2r, &mm(&cat02_ref(a.white, b.white), &a.r2x));
                near(ctx, "pairs", &m, &want, mtol::<T>() * 3.0, &|| format!("{} {} -> {}", tname::<T>(), a.name, b.name));
                ctx.observe("pairs", (i * 100 + j) as u64, i != j);
            }
        }
    }
    all::<f64>(ctx);
    all::<f32>(ctx);
}
pub fn step(ctx: &mut Ctx) {
    xyz_rgb::<f64>(ctx);
    xyz_rgb::<f32>(ctx);
    rgb_rgb::<f64>(ctx);
    rgb_rgb::<f32>(ctx);
    if ctx.rng.chance(1, 8) {
        mixing::<f64>(ctx);
        mixing::<f32>(ctx);
    }
}
pub const STEPS: usize = 15_000;
