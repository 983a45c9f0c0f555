//! Tristimulus arithmetic.
use crate::common::*;
use crate::ctx::*;
use colorspace::math;
use colorspace::math::Real;
use colorspace::rgb::*;
use colorspace::xyz::*;
use num_traits::{Bounded, One, Zero};

fn same<T: Real>(a: T, b: T) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}
/// equal up to one rounding: x/k may be computed as x*(1/k)
fn near<T: Real>(a: T, b: T) -> bool {
    if same(a, b) {
        return true;
    }
    let u = if is32::<T>() { 2.5e-7 } else { 5e-16 };
    (d(a) - d(b)).abs() <= u * d(b).abs() + if is32::<T>() { 1e-44 } else { 1e-320 }
}
fn value<T: Real>(ctx: &mut Ctx) -> T {
    match ctx.rng.below(14) {
        0 => *ctx.rng.pick(&[T::nan(), T::infinity(), T::neg_infinity(), <T as num_traits::Float>::max_value(), <T as num_traits::Float>::min_value(), T::min_positive_value(), T::epsilon(), -T::zero()]),
        1 => c(ctx.rng.logu(-30.0, 30.0)),
        _ => c(ctx.channel()),
    }
}

macro_rules! ops {
    ($name:ident, $ty:ident, $x:ident, $y:ident, $z:ident, $label:literal) => {
        fn $name<T: Real + 'static>(ctx: &mut Ctx) {
            let t = tname::<T>();
            let (a, mut b) = ([value::<T>(ctx), value(ctx), value(ctx)], [value::<T>(ctx), value(ctx), value(ctx)]);
            let mut k: T = value(ctx);
            // operands that agree, wholly or in part, or that are opposite
            match ctx.rng.below(12) {
                0 => b = a,
                1 => b[ctx.rng.below(3)] = a[ctx.rng.below(3)],
                2 => b = [-a[0], -a[1], -a[2]],
                3 => k = a[ctx.rng.below(3)],
                4 => k = *ctx.rng.pick(&[T::zero(), T::one(), -T::one(), T::zero() - T::zero()]),
                _ => (),
            }
            let (p, r) = ($ty::<T>::new(a[0], a[1], a[2]), $ty::<T>::new(b[0], b[1], b[2]));
            let arr = |v: $ty<T>| [v.$x, v.$y, v.$z];
            let desc = || format!("{} {} {:?} {:?} scalar {:?}", $label, t, a, b, k);
            let mut acc = p;
            acc += r;
            let results: Vec<(&str, [T; 3], [T; 3])> = vec![
                ("+", arr(p + r), [a[0] + b[0], a[1] + b[1], a[2] + b[2]]),
                ("-", arr(p - r), [a[0] - b[0], a[1] - b[1], a[2] - b[2]]),
                ("*", arr(p * r), [a[0] * b[0], a[1] * b[1], a[2] * b[2]]),
                ("/", arr(p / r), [a[0] / b[0], a[1] / b[1], a[2] / b[2]]),
                ("neg", arr(-p), [-a[0], -a[1], -a[2]]),
                ("+k", arr(p + k), [a[0] + k, a[1] + k, a[2] + k]),
                ("-k", arr(p - k), [a[0] - k, a[1] - k, a[2] - k]),
                ("*k", arr(p * k), [a[0] * k, a[1] * k, a[2] * k]),
                ("+=", arr(acc), [a[0] + b[0], a[1] + b[1], a[2] + b[2]]),
                ("abs", arr(p.abs()), [a[0].abs(), a[1].abs(), a[2].abs()]),
                ("from_scalar", arr($ty::from_scalar(k)), [k, k, k]),
                ("zero", arr($ty::<T>::zero()), [T::zero(); 3]),
                ("one", arr($ty::<T>::one()), [T::one(); 3]),
                ("min_value", arr($ty::<T>::min_value()), [<T as Bounded>::min_value(); 3]),
                ("max_value", arr($ty::<T>::max_value()), [<T as Bounded>::max_value(); 3]),
                ("new", arr(p), a),
                ("index", [p[0], p[1], p[2]], a),
            ];
            for (op, got, want) in &results {
                ctx.check(&format!("{}:{}", $label, op), (0..3).all(|i| same(got[i], want[i])), || format!("{}: {} gave {:?}, expected {:?}", desc(), op, got, want));
            }
            // a division by a scalar may go through the reciprocal
            let (got, want) = (arr(p / k), [a[0] / k, a[1] / k, a[2] / k]);
            let fine = |i: usize| near(got[i], want[i]) || !(T::one() / k).is_finite() || !want[i].is_finite();
            ctx.check(&format!("{}:/k", $label), (0..3).all(fine), || format!("{}: /k gave {:?}, expected {:?}", desc(), got, want));
            for i in 0..3 {
                let mut w = p;
                w[i] = k;
                let mut want = a;
                want[i] = k;
                let g = arr(w);
                ctx.check(&format!("{}:index_mut", $label), (0..3).all(|j| same(g[j], want[j])), || format!("{}: writing component {} gave {:?}", desc(), i, g));
            }
            ctx.check(&format!("{}:eq", $label), (p == r) == (0..3).all(|i| a[i] == b[i]) && (p == p) == a.iter().all(|x| !x.is_nan()), || desc());
            ctx.check(&format!("{}:is_zero", $label), p.is_zero() == a.iter().all(|x| *x == T::zero()), || desc());
            let text = format!("{}", p);
            ctx.check(&format!("{}:display", $label), text == format!("({}, {}, {})", a[0], a[1], a[2]), || format!("{}: {}", desc(), text));
            ctx.observe(&format!("{}-{}", $label, t), hash_f64s(&[d(a[0]), d(a[1]), d(a[2]), d(b[0]), d(b[1]), d(k)]), true);
        }
    };
}
ops!(rgb_ops, RGBf, r, g, b, "RGB");
ops!(xyz_ops, XYZ, x, y, z, "XYZ");

fn utils<T: Real + 'static>(ctx: &mut Ctx) {
    let t = tname::<T>();
    let v = [value::<T>(ctx), value::<T>(ctx), value::<T>(ctx)];
    let p = RGBf::<T>::new(v[0], v[1], v[2]);
    let e = c::<T>(*ctx.rng.pick(&[0.5, 1.0, 2.0, 2.2, 0.45, 0.0, 3.0, -1.0, 1.0 / 2.4]));
    let g = p.powf(e);
    let w = [v[0].powf(e), v[1].powf(e), v[2].powf(e)];
    let pn = |a: T, b: T| same(a, b) || (d(a) - d(b)).abs() <= if is32::<T>() { 1e-6 } else { 1e-14 } * d(b).abs();
    ctx.check("powf", pn(g.r, w[0]) && pn(g.g, w[1]) && pn(g.b, w[2]), || format!("{} {:?}^{:?} = {:?}", t, v, e, g));
    if v.iter().all(|x| !x.is_nan()) {
        let m = hmax(p);
        let mut want = v[0];
        for x in &v[1..] {
            if *x > want {
                want = *x;
            }
        }
        ctx.check("hmax", m == want, || format!("{} hmax {:?} = {:?}", t, v, m));
        if want.is_finite() && want != T::zero() && want.abs() > T::min_positive_value() && v.iter().all(|x| x.is_finite()) {
            let n = normalize(p);
            let ok = near(n.r, v[0] / want) && near(n.g, v[1] / want) && near(n.b, v[2] / want);
            if (T::one() / want).is_finite() {
                ctx.check("normalize", ok, || format!("{} normalize {:?} = {:?}", t, v, n));
            }
        }
    }
    let (mut lo, mut hi) = (value::<T>(ctx), value::<T>(ctx));
    if !lo.is_nan() && !hi.is_nan() {
        if lo > hi {
            std::mem::swap(&mut lo, &mut hi);
        }
        let cl = clamprgb(p, lo, hi);
        for (i, g) in [cl.r, cl.g, cl.b].iter().enumerate() {
            let x = v[i];
            if x.is_nan() {
                continue;
            }
            let w = if x < lo {
                lo
            } else if x > hi {
                hi
            } else {
                x
            };
            ctx.check("clamprgb", *g == w, || format!("{} clamp {:?} to [{:?}, {:?}] = {:?}", t, v, lo, hi, cl));
            ctx.check("clamp", math::clamp(x, lo, hi) == w, || format!("{} clamp {:?} to [{:?}, {:?}]", t, x, lo, hi));
        }
    }
    let f = rgbf::<T>(v[0], v[1], v[2]);
    ctx.check("rgbf", same(f.r, v[0]) && same(f.g, v[1]) && same(f.b, v[2]), || format!("{} {:?}", t, v));
    let f = colorspace::xyz::xyz::<T>(v[0], v[1], v[2]);
    ctx.check("xyz", same(f.x, v[0]) && same(f.y, v[1]) && same(f.z, v[2]), || format!("{} {:?}", t, v));
    // the scalar helpers
    let (x, y) = (c::<T>(ctx.channel()), c::<T>(ctx.channel()));
    let r = if is32::<T>() { 1e-6 } else { 1e-14 };
    let fns: Vec<(&str, T, f64)> = vec![
        ("sqrt", math::sqrt(x), d(x).sqrt()),
        ("sqr", math::sqr(x), d(x) * d(x)),
        ("abs", math::abs(x), d(x).abs()),
        ("sin", math::sin(x), d(x).sin()),
        ("cos", math::cos(x), d(x).cos()),
        ("atan2", math::atan2(x, y), d(x).atan2(d(y))),
        ("hypot", math::hypot(x, y), d(x).hypot(d(y))),
        ("powi", math::powi(x, 3), d(x).powi(3)),
        ("pow", math::pow(math::abs(x), c(0.5)), d(x).abs().powf(0.5)),
        ("asin", math::asin(x), d(x).asin()),
        ("acos", math::acos(x), d(x).acos()),
    ];
    for (n, got, want) in fns {
        let got = d(got);
        let ok = (got.is_nan() && want.is_nan()) || (got - want).abs() <= r * (want.abs() + if n == "sin" || n == "cos" || n == "acos" { 1.0 } else { 1e-30 });
        ctx.check(&format!("math::{}", n), ok, || format!("{} {}({:?}, {:?}) = {}, expected {}", t, n, x, y, got, want));
    }
    ctx.observe(&format!("utils-{}", t), hash_f64s(&[d(v[0]), d(v[1]), d(v[2])]), true);
}

fn left(ctx: &mut Ctx) {
    let v = [value::<f32>(ctx), value::<f32>(ctx), value::<f32>(ctx)];
    let k = value::<f32>(ctx);
    let p = rgbf32(v[0], v[1], v[2]);
    for (op, g, w) in [
        ("k*", k * p, [k * v[0], k * v[1], k * v[2]]),
        ("k+", k + p, [k + v[0], k + v[1], k + v[2]]),
        ("k-", k - p, [k - v[0], k - v[1], k - v[2]]),
        ("k/", k / p, [k / v[0], k / v[1], k / v[2]]),
    ] {
        ctx.check(op, same(g.r, w[0]) && same(g.g, w[1]) && same(g.b, w[2]), || format!("{} with k={:?} and {:?} gave {:?}", op, k, v, g));
    }
    let (a, b, t) = (ctx.channel() as f32, ctx.channel() as f32, ctx.channel().abs().min(1.0) as f32);
    let l = math::lerp(a, b, t) as f64;
    let w = a as f64 + (b as f64 - a as f64) * t as f64;
    ctx.close("lerp", l, w, 1e-6 * (a.abs() as f64 + b.abs() as f64) + 1e-40, || format!("lerp({:?}, {:?}, {:?})", a, b, t));
    let u = ctx.rng.uni(-6.0, 7.0) as f32;
    let l = math::lerp(a, b, u) as f64;
    let w = a as f64 + (b as f64 - a as f64) * u as f64;
    ctx.close("lerp", l, w, 1e-6 * (1.0 + u.abs() as f64) * (a.abs() as f64 + b.abs() as f64) + 1e-40, || format!("lerp({:?}, {:?}, {:?}), beyond the ends", a, b, u));
    ctx.check("lerp:ends", math::lerp(a, b, 0.0) == a && math::lerp(a, b, 1.0) == b, || format!("lerp({:?}, {:?}) at its ends", a, b));
    let p = rgbf64(v[0] as f64, v[1] as f64, v[2] as f64);
    ctx.check("rgbf64", same(p.r, v[0] as f64) && same(p.g, v[1] as f64) && same(p.b, v[2] as f64), || format!("{:?}", v));
    let (x, y) = (ctx.rng.u64(), ctx.rng.u64());
    let u = rgbu8(x as u8, (x >> 8) as u8, (x >> 16) as u8);
    ctx.check("rgbu8", u.r == x as u8 && u.g == (x >> 8) as u8 && u.b == (x >> 16) as u8 && format!("{}", u) == format!("({}, {}, {})", u.r, u.g, u.b), || format!("{:?}", u));
    let u = rgbu16(y as u16, (y >> 16) as u16, (y >> 32) as u16);
    ctx.check("rgbu16", u.r == y as u16 && u.g == (y >> 16) as u16 && u.b == (y >> 32) as u16 && format!("{}", u) == format!("({}, {}, {})", u.r, u.g, u.b), || format!("{:?}", u));
    let q = rgbaf32(v[0], v[1], v[2], k);
    ctx.check("rgbaf32", same(q.r, v[0]) && same(q.g, v[1]) && same(q.b, v[2]) && same(q.a, k), || format!("{:?}", v));
    ctx.observe("scalar-left", hash_f64s(&[k as f64, v[0] as f64, v[1] as f64]), true);
}

fn sums(ctx: &mut Ctx) {
    let n = ctx.length(400);
    let v: Vec<[f64; 3]> = (0..n).map(|_| ctx.color()).collect();
    let mut w = [0.0; 3];
    let mut m = [0.0; 3];
    let mut w32 = [0.0; 3];
    for p in &v {
        for i in 0..3 {
            w[i] += p[i];
            w32[i] += p[i] as f32 as f64;
            m[i] += p[i].abs();
        }
    }
    let a: RGBf64 = v.iter().map(|p| rgbf64(p[0], p[1], p[2])).sum();
    let b: RGBf32 = v.iter().map(|p| rgbf32(p[0] as f32, p[1] as f32, p[2] as f32)).sum();
    let x: XYZf32 = v.iter().map(|p| XYZf32::new(p[0] as f32, p[1] as f32, p[2] as f32)).sum();
    for i in 0..3 {
        let nn = 1.0 + n as f64;
        ctx.close("sum:RGBf64", a[i], w[i], 2e-16 * nn * m[i], || format!("sum of {} colours, component {}", n, i));
        ctx.close("sum:RGBf32", b[i] as f64, w32[i], 1.2e-7 * nn * m[i], || format!("sum of {} colours, component {}", n, i));
        ctx.close("sum:XYZf32", x[i] as f64, w32[i], 1.2e-7 * nn * m[i], || format!("sum of {} colours, component {}", n, i));
    }
    ctx.observe("sum", n as u64 ^ hash_f64s(&w), n > 0);
}

fn views(ctx: &mut Ctx, n: usize) {
    let f: Vec<f32> = (0..n).map(|_| value::<f32>(ctx)).collect();
    let g: Vec<f64> = (0..n).map(|_| value::<f64>(ctx)).collect();
    let b: Vec<u8> = (0..n).map(|_| ctx.rng.u64() as u8).collect();
    if n % 3 != 0 {
        ctx.must_panic("cast_slice:length", || format!("f32 slice of {}", n), || RGBf32::cast_slice(&f).len());
        ctx.must_panic("cast_slice:length", || format!("f64 slice of {}", n), || RGBf64::cast_slice(&g).len());
        ctx.must_panic("cast_slice:length", || format!("u8 slice of {}", n), || RGBu8::cast_slice(&b).len());
    } else {
        let d = || format!("slice of {}", n);
        if let Some(v) = ctx.call("cast_slice", d, || RGBf32::cast_slice(&f).to_vec()) {
            let ok = v.len() == n / 3 && (0..v.len()).all(|i| [v[i].r, v[i].g, v[i].b].iter().zip(&f[3 * i..]).all(|(x, y)| x.to_bits() == y.to_bits()));
            ctx.check("cast_slice:f32", ok, || format!("f32 slice of {}", n));
        }
        if let Some(v) = ctx.call("cast_slice", d, || RGBf64::cast_slice(&g).to_vec()) {
            let ok = v.len() == n / 3 && (0..v.len()).all(|i| [v[i].r, v[i].g, v[i].b].iter().zip(&g[3 * i..]).all(|(x, y)| x.to_bits() == y.to_bits()));
            ctx.check("cast_slice:f64", ok, || format!("f64 slice of {}", n));
        }
        if let Some(v) = ctx.call("cast_slice", d, || RGBu8::cast_slice(&b).to_vec()) {
            let ok = v.len() == n / 3 && (0..v.len()).all(|i| [v[i].r, v[i].g, v[i].b] == [b[3 * i], b[3 * i + 1], b[3 * i + 2]]);
            ctx.check("cast_slice:u8", ok, || format!("u8 slice of {}", n));
        }
    }
    ctx.observe("views", n as u64, n > 0);
}

fn approx(ctx: &mut Ctx) {
    use float_cmp::{ApproxEq, F32Margin, F64Margin};
    let a = ctx.color();
    let mut b = a;
    let i = ctx.rng.below(3);
    let delta = ctx.rng.logu(-9.0, 0.0);
    b[i] += delta;
    let diff = (a[i] - b[i]).abs();
    let e = ctx.rng.logu(-9.0, 0.0);
    if (diff - e).abs() > 1e-3 * e && diff > 1e-12 {
        let want = diff <= e;
        let m = F64Margin { ulps: 0, epsilon: e };
        let g = [
            rgbf64(a[0], a[1], a[2]).approx_eq(rgbf64(b[0], b[1], b[2]), m),
            XYZf64::new(a[0], a[1], a[2]).approx_eq(XYZf64::new(b[0], b[1], b[2]), m),
        ];
        ctx.check("approx_eq", g == [want; 2], || format!("{:?} and {:?} within {}: {:?}", a, b, e, g));
        let (p, q) = ([a[0] as f32, a[1] as f32, a[2] as f32], [b[0] as f32, b[1] as f32, b[2] as f32]);
        let diff = (p[i] - q[i]).abs();
        if (diff as f64 - e).abs() > 1e-3 * e {
            let m = F32Margin { ulps: 0, epsilon: e as f32 };
            let g = [
                rgbf32(p[0], p[1], p[2]).approx_eq(rgbf32(q[0], q[1], q[2]), m),
                XYZf32::new(p[0], p[1], p[2]).approx_eq(XYZf32::new(q[0], q[1], q[2]), m),
            ];
            ctx.check("approx_eq", g == [diff as f64 <= e; 2], || format!("f32 {:?} and {:?} within {}: {:?}", p, q, e, g));
        }
        ctx.observe("approx_eq", hash_f64s(&[a[0], b[0], e, i as f64]), true);
    }
}

pub fn fixed(ctx: &mut Ctx) {
    for n in 0..400 {
        views(ctx, n);
    }
    let wide = [8, 16, 31, 32, 33, 48, 62, 63].iter().flat_map(|b| (0..4).map(move |k| (1usize << b) + k));
    let high = (0..4).map(|k| usize::MAX - k);
    for i in (3usize..40).chain([100, 255, 1000]).chain(wide).chain(high) {
        let p = rgbf64(1.0, 2.0, 3.0);
        let x = XYZf64::new(1.0, 2.0, 3.0);
        let p32 = rgbf32(1.0, 2.0, 3.0);
        let x32 = XYZf32::new(1.0, 2.0, 3.0);
        ctx.must_panic("index:range", || format!("RGB[{}]", i), || p[i]);
        ctx.must_panic("index:range", || format!("XYZ[{}]", i), || x[i]);
        ctx.must_panic("index:range", || format!("RGBf32[{}]", i), || p32[i]);
        ctx.must_panic("index:range", || format!("XYZf32[{}]", i), || x32[i]);
        ctx.must_panic("index_mut:range", || format!("RGB[{}] =", i), || {
            let mut p = p;
            p[i] = 0.0
        });
        ctx.must_panic("index_mut:range", || format!("XYZ[{}] =", i), || {
            let mut x = x;
            x[i] = 0.0
        });
        ctx.observe("index-range", i as u64, true);
    }
}
pub fn step(ctx: &mut Ctx) {
    rgb_ops::<f64>(ctx);
    rgb_ops::<f32>(ctx);
    xyz_ops::<f64>(ctx);
    xyz_ops::<f32>(ctx);
    utils::<f64>(ctx);
    utils::<f32>(ctx);
    left(ctx);
    approx(ctx);
    if ctx.rng.chance(1, 20) {
        sums(ctx);
        let n = ctx.length(3000);
        views(ctx, n);
    }
    ctx.sample(|| "RGB/XYZ operators, utilities, scalar-left operators on one random tuple of operands".into());
}
pub const STEPS: usize = 60_000;
