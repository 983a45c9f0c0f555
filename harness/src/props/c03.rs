//! Transfer functions.
use crate::common::*;
use crate::ctx::*;
use crate::gen::*;
use crate::refm::*;
use colorspace::color_space_rgb::{decode, encode, ColorSpaceRGB};
use colorspace::math::Real;
use colorspace::rgb::RGBf;

type F3<T> = fn(RGBf<T>) -> RGBf<T>;
type F1<T> = fn(T) -> T;

fn table<T: Real>() -> Vec<(&'static str, Curve, F3<T>, F3<T>, F1<T>, F1<T>)> {
    vec![
        ("srgb", Curve::Srgb, encode::srgb::<T>, decode::srgb::<T>, encode::srgb_t::<T>, decode::srgb_t::<T>),
        ("bt709", Curve::Bt709, encode::bt709::<T>, decode::bt709::<T>, encode::bt709_t::<T>, decode::bt709_t::<T>),
        ("bt2020", Curve::Bt2020, encode::bt2020::<T>, decode::bt2020::<T>, encode::bt2020_t::<T>, decode::bt2020_t::<T>),
        ("linear", Curve::Linear, encode::linear::<T>, decode::linear::<T>, encode::linear_t::<T>, decode::linear_t::<T>),
        (
            "alexa_logc_v3",
            Curve::LogC,
            encode::alexa_logc_v3::<T>,
            decode::alexa_logc_v3::<T>,
            encode::alexa_logc_v3_t::<T>,
            decode::alexa_logc_v3_t::<T>,
        ),
    ]
}

/// distance to the join inside which either segment is acceptable
fn zone<T: Real>(cv: Curve, enc_domain: bool) -> f64 {
    let r = if is32::<T>() { 3e-7 } else { 1e-12 };
    match (cv, enc_domain) {
        (Curve::Srgb, false) => 1e-7,
        (Curve::Srgb, true) => 1e-6,
        (Curve::LogC, _) => 1e-6,
        _ => r * 0.1,
    }
}

/// a power taken through its logarithm loses precision with its magnitude
pub fn amp(want: f64) -> f64 {
    if want == 0.0 || !want.is_finite() {
        1.0
    } else {
        (want.abs().ln().abs() / 8.0).max(1.0)
    }
}

fn enc_tol<T: Real>(cv: Curve, x: f64, want: f64) -> f64 {
    if is32::<T>() {
        let lin = cv.join_lin().map_or(true, |j| x < j);
        match cv {
            Curve::Linear => 1e-12 * want.abs(),
            Curve::LogC => 4e-6 * want.abs() + 3e-7,
            Curve::Gamma(_) => 4e-6 * want.abs() * amp(want) + 1e-37,
            _ if lin => 1e-6 * want.abs() + 1e-37,
            _ => 4e-6 * want.abs() * amp(want) + 3e-7,
        }
    } else {
        1e-11 * want.abs() + if matches!(cv, Curve::LogC) { 1e-13 } else { 1e-300 }
    }
}
fn dec_tol<T: Real>(cv: Curve, f: f64, want: f64) -> f64 {
    if is32::<T>() {
        let lin = cv.join_enc().map_or(true, |j| f < j);
        match cv {
            Curve::Linear => 1e-12 * want.abs(),
            Curve::LogC => 3e-5 * want.abs() * (1.0 + f.abs()) + 3e-7,
            Curve::Gamma(_) => 6e-6 * want.abs() * amp(want) + 1e-37,
            _ if lin => 1e-6 * want.abs() + 1e-37,
            _ => 6e-6 * want.abs() * amp(want) + 1e-8,
        }
    } else {
        1e-11 * want.abs() * (1.0 + f.abs()) + if matches!(cv, Curve::LogC) { 1e-13 } else { 1e-300 }
    }
}

pub fn enc_accept<T: Real>(cv: Curve, x: f64, got: f64) -> Result<(), f64> {
    let want = cv.enc(x);
    let near = |w: f64| (got - w).abs() <= enc_tol::<T>(cv, x, w) || (w.is_infinite() && got == w) || (is32::<T>() && w.abs() > 1e37);
    if x.is_nan() {
        return if got.is_nan() { Ok(()) } else { Err(f64::NAN) };
    }
    if near(want) {
        return Ok(());
    }
    if let Some(j) = cv.join_lin() {
        if (x - j).abs() <= zone::<T>(cv, false) && (near(cv.enc_side(x, true)) || near(cv.enc_side(x, false))) {
            return Ok(());
        }
    }
    Err(want)
}
pub fn dec_accept<T: Real>(cv: Curve, f: f64, got: f64) -> Result<(), f64> {
    let want = cv.dec(f);
    let near = |w: f64| {
        (got - w).abs() <= dec_tol::<T>(cv, f, w) || (w.is_infinite() && got == w) || (w.abs() > 1e300 && got > 1e300) || (is32::<T>() && w.abs() > 1e30)
    };
    if f.is_nan() {
        return if got.is_nan() { Ok(()) } else { Err(f64::NAN) };
    }
    if near(want) {
        return Ok(());
    }
    if let Some(j) = cv.join_enc() {
        if (f - j).abs() <= zone::<T>(cv, true) && (near(cv.dec_side(f, true)) || near(cv.dec_side(f, false))) {
            return Ok(());
        }
    }
    Err(want)
}

/// Check one colour through one encode/decode pair.
fn pair<T: Real>(ctx: &mut Ctx, name: &str, cv: Curve, enc: &dyn Fn(RGBf<T>) -> RGBf<T>, dec: &dyn Fn(RGBf<T>) -> RGBf<T>, v: [f64; 3]) {
    let v = q3::<T>(v);
    let usable = |x: f64| x.is_nan() || cv.allows_negative() || x >= 0.0;
    let e = match ctx.call(name, || format!("{}<{}> encode {:?}", name, tname::<T>(), v), || unrgb(enc(rgb::<T>(v)))) {
        Some(e) => e,
        None => return,
    };
    let f = match ctx.call(name, || format!("{}<{}> decode {:?}", name, tname::<T>(), v), || unrgb(dec(rgb::<T>(v)))) {
        Some(f) => f,
        None => return,
    };
    let r = unrgb(dec(enc(rgb::<T>(v))));
    for i in 0..3 {
        if !usable(v[i]) {
            continue;
        }
        ctx.checks += 3;
        if let Err(w) = enc_accept::<T>(cv, v[i], e[i]) {
            ctx.violate(&format!("{}:encode", name), format!("{}<{}>::encode{:?} channel {} = {:?}, published curve {:?}", name, tname::<T>(), v, i, e[i], w));
        }
        if let Err(w) = dec_accept::<T>(cv, v[i], f[i]) {
            ctx.violate(&format!("{}:decode", name), format!("{}<{}>::decode{:?} channel {} = {:?}, published curve {:?}", name, tname::<T>(), v, i, f[i], w));
        }
        let x = v[i];
        if x.is_finite() && x.abs() < 1e30 {
            let mut tol = if is32::<T>() {
                match cv {
                    Curve::Linear => 1e-12 * x.abs(),
                    Curve::LogC => 3e-5 * x.abs() * (1.0 + x.abs().max(1e-30).ln().abs()) + 3e-6,
                    Curve::Gamma(_) => 2e-5 * x.abs() * amp(x) + 1e-35,
                    _ => 1e-5 * x.abs() * amp(x) + 1e-9,
                }
            } else {
                1e-9 * x.abs() + if cv == Curve::LogC { 1e-12 } else { 1e-200 }
            };
            if let Some(j) = cv.join_lin() {
                if (x - j).abs() < 2e-5 {
                    tol += if cv == Curve::LogC { 3e-6 } else { 1e-8 };
                }
            }
            if is32::<T>() && matches!(cv, Curve::Gamma(_)) && x < 1e-30 {
                continue;
            }
            ctx.close(&format!("{}:roundtrip", name), r[i], x, tol, || format!("{}<{}>::decode(encode({:?})) channel {}", name, tname::<T>(), v, i));
        }
    }
}

fn scalars<T: Real>(ctx: &mut Ctx, v: f64) {
    let v = q::<T>(v);
    for (name, cv, _, _, e1, d1) in table::<T>() {
        let e = d(e1(c(v)));
        let f = d(d1(c(v)));
        ctx.checks += 2;
        if let Err(w) = enc_accept::<T>(cv, v, e) {
            ctx.violate(&format!("{}_t:encode", name), format!("encode::{}_t::<{}>({:?}) = {:?}, published curve {:?}", name, tname::<T>(), v, e, w));
        }
        if let Err(w) = dec_accept::<T>(cv, v, f) {
            ctx.violate(&format!("{}_t:decode", name), format!("decode::{}_t::<{}>({:?}) = {:?}, published curve {:?}", name, tname::<T>(), v, f, w));
        }
    }
}

fn mono<T: Models>(ctx: &mut Ctx, mut xs: Vec<f64>) {
    xs.retain(|x| x.is_finite() && x.abs() < 1e6);
    for x in xs.iter_mut() {
        *x = q::<T>(*x);
    }
    xs.sort_by(|a, b| a.partial_cmp(b).unwrap());
    xs.dedup();
    for (name, m) in T::models() {
        let cv = ref_space(name).curve;
        let mut last: Option<(f64, [f64; 3])> = None;
        for &x in &xs {
            if x < 0.0 && !cv.allows_negative() {
                continue;
            }
            let e = unrgb(m.encode(rgb::<T>([x; 3])));
            if let Some((px, pe)) = last {
                let mut slack = if is32::<T>() { 3e-7 } else { 1e-14 } * pe[0].abs().max(e[0].abs()).max(if cv == Curve::Linear { 0.0 } else { 1e-3 });
                if let Some(j) = cv.join_lin() {
                    if px <= j + 1e-6 && x >= j - 1e-6 {
                        slack += if cv == Curve::LogC { 3e-6 } else { 5e-8 };
                    }
                }
                for i in 0..3 {
                    ctx.check(&format!("{}:monotone", name), e[i] >= pe[i] - slack, || {
                        format!("{} ({}) encode channel {}: {:?} -> {:?} but {:?} -> {:?}", name, tname::<T>(), i, px, pe[i], x, e[i])
                    });
                }
            }
            last = Some((x, e));
        }
        ctx.observe("monotone-run", hash_f64s(&xs), true);
    }
}

/// Functions a user may supply: also such that do nothing to ordinary colours.
fn user_fn<T: Real + Send + Sync + 'static>(kind: usize, k: [T; 3], o: [T; 3]) -> Box<dyn Fn(RGBf<T>) -> RGBf<T> + Send + Sync> {
    let (zero, unit) = (T::zero(), T::one());
    let each = |x: RGBf<T>, f: &dyn Fn(T) -> T| RGBf::new(f(x.r), f(x.g), f(x.b));
    match kind {
        0 => Box::new(move |x| RGBf::new(x.r * k[0] + o[0], x.g * k[1] + o[1], x.b * k[2] + o[2])),
        1 => Box::new(move |x| RGBf::new(x.b + k[0], x.r * o[1], x.g - k[2])),
        // leaves [0, 1] alone
        2 => Box::new(move |x| each(x, &|v| if v < zero { zero } else if v > unit { unit } else { v })),
        3 => Box::new(move |x| each(x, &|v| if v < zero { -v * k[0] } else { v })),
        4 => Box::new(move |x| each(x, &|v| if v > unit { unit + (v - unit) * k[2] } else { v })),
        // leaves greys alone
        5 => Box::new(move |x| RGBf::new(x.r + (x.g - x.b) * k[0], x.g + (x.b - x.r) * k[1], x.b + (x.r - x.g) * k[2])),
        // leaves the multiples of a step alone
        6 => Box::new(move |x| {
            let n: T = c([2.0, 4.0, 10.0, 100.0, 255.0, 1023.0, 65535.0][(k[0].to_f64().unwrap() * 1e3) as usize % 7]);
            each(x, &|v| v + (v * n - (v * n).round()) * k[2])
        }),
        // leaves two channels alone
        7 => Box::new(move |x| RGBf::new(x.r, x.g, x.b * k[0] + o[0])),
        8 => Box::new(move |x| RGBf::new(x.r * k[0] + o[0], x.g, x.b)),
        // does next to nothing
        9 => Box::new(move |x| each(x, &|v| v * (unit + c::<T>(1e-6) * k[0]))),
        // a constant
        10 => Box::new(move |_| RGBf::new(k[0], k[1], k[2])),
        // the identity
        11 => Box::new(|x| x),
        // a published curve with another range
        12 => Box::new(move |x| each(x, &|v| colorspace::color_space_rgb::encode::srgb_t(v) * k[0])),
        _ => Box::new(move |x| each(x, &|v| colorspace::color_space_rgb::decode::srgb_t(if v < zero { zero } else { v }))),
    }
}

fn user_space<T: Real + Send + Sync + 'static>(ctx: &mut Ctx) {
    let k = [ctx.rng.uni(0.2, 3.0), ctx.rng.uni(-2.0, 2.0), ctx.rng.uni(0.1, 5.0)];
    let o = ctx.color();
    let kk: [T; 3] = [c(k[0]), c(k[1]), c(k[2])];
    let oo: [T; 3] = [c(o[0]), c(o[1]), c(o[2])];
    let (p, q) = (ctx.rng.below(14), ctx.rng.below(14));
    let (f, g) = (user_fn(p, kk, oo), user_fn(q, kk, oo));
    let w = ctx.white_xy();
    let s = if ctx.rng.chance(1, 2) {
        ColorSpaceRGB::<T>::new(xyy(0.64, 0.33, 1.0), xyy(0.30, 0.60, 1.0), xyy(0.15, 0.06, 1.0), xyy(w.0, w.1, 1.0), user_fn(p, kk, oo), user_fn(q, kk, oo))
    } else {
        ColorSpaceRGB::<T>::new_with_specified_matrices(
            xyy(0.64, 0.33, 1.0),
            xyy(0.30, 0.60, 1.0),
            xyy(0.15, 0.06, 1.0),
            xyy(w.0, w.1, 1.0),
            m33(&ident()),
            m33(&ident()),
            user_fn(p, kk, oo),
            user_fn(q, kk, oo),
        )
    };
    let same = |a: [f64; 3], b: [f64; 3]| (0..3).all(|i| a[i] == b[i] || (a[i].is_nan() && b[i].is_nan()));
    for i in 0..6 {
        let mut v = ctx.color();
        if i == 1 {
            v = [v[0]; 3];
        }
        let v = q3::<T>(v);
        let a = unrgb(s.encode(rgb::<T>(v)));
        let b = unrgb(f(rgb::<T>(v)));
        ctx.check("user:encode", same(a, b), || format!("user space (functions {}, {}) encode{:?} = {:?}, its own function gives {:?}", p, q, v, a, b));
        let a = unrgb(s.decode(rgb::<T>(v)));
        let b = unrgb(g(rgb::<T>(v)));
        ctx.check("user:decode", same(a, b), || format!("user space (functions {}, {}) decode{:?} = {:?}, its own function gives {:?}", p, q, v, a, b));
        ctx.observe(&format!("user-space-{}", p), hash_f64s(&v), true);
    }
}

fn one<T: Models>(ctx: &mut Ctx, v: [f64; 3]) {
    for (name, cv, e, f, _, _) in table::<T>() {
        pair::<T>(ctx, name, cv, &e, &f, v);
    }
    for (name, m) in T::models() {
        let cv = ref_space(name).curve;
        pair::<T>(ctx, name, cv, &|x| m.encode(x), &|x| m.decode(x), v);
    }
    ctx.observe(tname::<T>(), hash_f64s(&v), v.iter().any(|x| *x != 0.0 && *x != 1.0));
}

fn join_points() -> Vec<f64> {
    let mut p = Vec::new();
    for cv in [Curve::Srgb, Curve::Bt709, Curve::LogC] {
        for j in [cv.join_lin().unwrap(), cv.join_enc().unwrap()] {
            p.push(j);
            let (mut a, mut b) = (j, j);
            for _ in 0..6 {
                a = next_up(a);
                b = next_down(b);
                p.push(a);
                p.push(b);
            }
            let (mut a, mut b) = (j as f32, j as f32);
            for _ in 0..6 {
                p.push(a as f64);
                p.push(b as f64);
                a = next_up32(a);
                b = next_down32(b);
            }
            for e in 1..12 {
                for s in [1.0, 2.0, 5.0] {
                    let dd = s * 10f64.powi(-e);
                    p.push(j + dd);
                    p.push(j - dd);
                    p.push(j * (1.0 + dd));
                    p.push(j * (1.0 - dd));
                }
            }
        }
    }
    p
}

pub fn fixed(ctx: &mut Ctx) {
    let mut pts = join_points();
    pts.extend_from_slice(SPECIAL);
    for i in 0..=1024 {
        pts.push(i as f64 / 1024.0);
        pts.push(i as f64 / 1024.0 * 0.05);
    }
    for i in 0..=255 {
        pts.push(i as f64 / 255.0);
    }
    for i in -60..60 {
        pts.push(10f64.powf(i as f64 / 10.0));
        pts.push(-10f64.powf(i as f64 / 10.0));
    }
    let n = pts.len();
    for i in 0..n {
        let v = [pts[i], pts[(i * 7 + 3) % n], pts[(i * 13 + 5) % n]];
        one::<f64>(ctx, v);
        one::<f32>(ctx, v);
        one::<f64>(ctx, [pts[i]; 3]);
        scalars::<f64>(ctx, pts[i]);
        scalars::<f32>(ctx, pts[i]);
    }
    // a non-finite channel leaves the others alone
    for bad in [f64::NAN, f64::INFINITY] {
        for i in 0..3 {
            let mut v = [0.2, 0.6, 0.003];
            v[i] = bad;
            one::<f64>(ctx, v);
            one::<f32>(ctx, v);
        }
    }
    mono::<f64>(ctx, pts.clone());
    mono::<f32>(ctx, pts);
    if !ctx.build.starts_with("miri") {
        let dense: Vec<f64> = (0..40000).map(|i| i as f64 / 20000.0).collect();
        mono::<f64>(ctx, dense.clone());
        mono::<f32>(ctx, dense);
    }
}

pub fn step(ctx: &mut Ctx) {
    let v = ctx.color();
    one::<f64>(ctx, v);
    one::<f32>(ctx, v);
    scalars::<f64>(ctx, v[0]);
    scalars::<f32>(ctx, v[1]);
    ctx.sample(|| format!("encode/decode {:?} through 5 curves and 19 models", v));
    if ctx.rng.chance(1, 40) {
        let b: Vec<f64> = (0..100).map(|_| ctx.channel()).collect();
        mono::<f64>(ctx, b.clone());
        mono::<f32>(ctx, b);
    }
    if ctx.rng.chance(1, 8) {
        user_space::<f64>(ctx);
        user_space::<f32>(ctx);
    }
}
pub const STEPS: usize = 40_000;
