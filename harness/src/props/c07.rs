//! Bulk conversions.
use super::c06::{any_space, Sp};
use crate::common::*;
use crate::ctx::*;
use crate::refm::*;
use colorspace::math::Real;
use colorspace::rgb::{RGBf, RGBf32, RGBu16, RGBu8};
use colorspace::transform::*;
use colorspace::xyz::XYZ;

/// finite bulk data with the odd non-finite pixel, which must stay contained
fn pixels<T: Real>(ctx: &mut Ctx, n: usize, scale: f64, poison: bool) -> Vec<[f64; 3]> {
    let pool: Vec<[f64; 3]> = (0..17).map(|_| ctx.color()).collect();
    (0..n)
        .map(|i| {
            let p = if i % 5 == 0 || n < 64 { ctx.color() } else { pool[(i * 7) % 17] };
            // a position-dependent part makes every pixel distinct
            let e = 1.0 + (i as f64) * 1e-4;
            let mut v = q3::<T>([p[0] * scale * e, p[1] * scale * e, p[2] * scale * e]);
            if poison && ctx.rng.chance(1, 23) {
                let k = ctx.rng.below(3);
                v[k] = *ctx.rng.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
            }
            v
        })
        .collect()
}

fn random_matrix<T: Models>(ctx: &mut Ctx) -> M3 {
    if ctx.rng.chance(1, 4) {
        // identity, zero, diagonal, permutation, one row or column, a single entry
        let mut m = [[0.0; 3]; 3];
        let x = |ctx: &mut Ctx| q::<T>(if ctx.rng.chance(1, 2) { 1.0 } else { ctx.rng.uni(-2.0, 3.0) });
        let (i, j) = (ctx.rng.below(3), ctx.rng.below(3));
        match ctx.rng.below(7) {
            0 => m = ident(),
            1 => {}
            2 => (0..3).for_each(|k| m[k][k] = x(ctx)),
            3 => (0..3).for_each(|k| m[k][(k + 1 + i % 2) % 3] = x(ctx)),
            4 => (0..3).for_each(|k| m[i][k] = x(ctx)),
            5 => (0..3).for_each(|k| m[k][j] = x(ctx)),
            _ => m[i][j] = x(ctx),
        }
        return m;
    }
    if ctx.rng.chance(1, 2) {
        let s: Sp<T> = any_space(ctx);
        let w = ctx.white_xy();
        unm(&xyz_to_rgb_matrix(xyy::<T>(w.0, w.1, 1.0), s.get()))
    } else {
        let mut m = [[0.0; 3]; 3];
        for r in m.iter_mut() {
            for x in r.iter_mut() {
                *x = q::<T>(ctx.rng.uni(-2.0, 3.0));
            }
        }
        m
    }
}

fn expect(ctx: &mut Ctx, sig: &str, m: &M3, v: [f64; 3], got: [f64; 3], t: f64, f: &dyn Fn() -> String) {
    if v.iter().any(|x| !x.is_finite()) {
        return;
    }
    let u = [v[0] / 100.0, v[1] / 100.0, v[2] / 100.0];
    let want = mv(m, u);
    let sc = mv_abs(m, u);
    for k in 0..3 {
        ctx.close(sig, got[k], want[k], t * sc[k] + 1e-36, || format!("{} channel {}", f(), k));
    }
}

fn slice<T: Models>(ctx: &mut Ctx, n: usize) {
    let m = random_matrix::<T>(ctx);
    let mt = m33::<T>(&m);
    let v = pixels::<T>(ctx, n, 100.0, true);
    let xs: Vec<XYZ<T>> = v.iter().map(|p| xyz::<T>(*p)).collect();
    let out = match ctx.call("xyz_slice_to_rgb", || format!("{} length {}", tname::<T>(), n), || xyz_slice_to_rgb(&mt, &xs)) {
        Some(o) => o,
        None => return,
    };
    ctx.check("xyz_slice_to_rgb:len", out.len() == n, || format!("length {} gave {} results", n, out.len()));
    let t = if is32::<T>() { 1e-6 } else { 1e-14 };
    for i in 0..n.min(out.len()) {
        let got = unrgb(out[i]);
        expect(ctx, "xyz_slice_to_rgb", &m, v[i], got, t, &|| format!("{} length {} index {} pixel {:?}", tname::<T>(), n, i, v[i]));
        let single = unrgb(xyz_to_rgb(&mt, xs[i]));
        let same = (0..3).all(|k| got[k] == single[k] || (got[k].is_nan() && single[k].is_nan()) || (got[k] - single[k]).abs() <= t * 100.0 * single[k].abs().max(1e-30));
        if !v[i].iter().all(|x| x.is_finite()) {
            ctx.check("xyz_slice_to_rgb:single", same || !got.iter().all(|x| x.is_finite()), || format!("index {} of {}: {:?} alone {:?}", i, n, got, single));
        }
    }
    ctx.observe(&format!("xyz_slice-{}", tname::<T>()), n as u64, n > 0);
}

fn conv<T: Models, U: From<RGBf<T>> + Copy + PartialEq + std::fmt::Debug>(ctx: &mut Ctx, label: &str, mark: [U; 2], nf: usize, nt: usize, near: &dyn Fn(&U, &U) -> bool) {
    let a: Sp<T> = any_space(ctx);
    let b: Sp<T> = any_space(ctx);
    let mut v = pixels::<T>(ctx, nf, 1.0, true);
    if a.curve == Curve::LogC {
        for p in v.iter_mut() {
            for x in p.iter_mut() {
                if x.is_finite() {
                    *x = q::<T>(x.max(-5.0).min(2.0));
                }
            }
        }
    }
    let from: Vec<RGBf<T>> = v.iter().map(|p| rgb::<T>(*p)).collect();
    let keep = from.clone();
    for round in 0..2 {
        // two different markers tell "untouched" from "written with the marker"
        let mut to: Vec<U> = vec![mark[round]; nt];
        let desc = || format!("{} {} -> {} into {} ({} -> {} pixels)", tname::<T>(), a.name, b.name, label, nf, nt);
        let n = match ctx.call("rgb_to_rgb", desc, || rgb_to_rgb(a.get(), b.get(), &from, &mut to)) {
            Some(n) => n,
            None => return,
        };
        let m = nf.min(nt);
        ctx.check("rgb_to_rgb:count", n == m, || format!("{}: reported {}", desc(), n));
        for i in m..nt {
            ctx.check("rgb_to_rgb:tail", to[i] == mark[round], || format!("{}: output {} beyond the input was written: {:?}", desc(), i, to[i]));
        }
        for i in 0..m {
            let mut one = [mark[1 - round]];
            rgb_to_rgb(a.get(), b.get(), &from[i..i + 1], &mut one);
            ctx.check("rgb_to_rgb:element", to[i] == one[0] || near(&to[i], &one[0]), || {
                format!("{}: index {} pixel {:?}: bulk {:?}, alone {:?}", desc(), i, v[i], to[i], one[0])
            });
        }
        ctx.observe(&format!("rgb_to_rgb-{}", label), (nf as u64) << 32 | nt as u64, m > 0);
    }
    ctx.check("rgb_to_rgb:input", from.iter().zip(&keep).all(|(p, q)| unrgb(*p).iter().zip(unrgb(*q).iter()).all(|(x, y)| x.to_bits() == y.to_bits())), || "input modified".into());
}

fn near_f<T: Real>(a: &RGBf<T>, b: &RGBf<T>) -> bool {
    let (x, y) = (unrgb(*a), unrgb(*b));
    let t = if is32::<T>() { 1e-5 } else { 1e-9 };
    (0..3).all(|i| x[i] == y[i] || (x[i].is_nan() && y[i].is_nan()) || (x[i] - y[i]).abs() <= t * (1e-3 + y[i].abs()))
}

fn rgbrgb(ctx: &mut Ctx, nf: usize, nt: usize) {
    match ctx.rng.below(7) {
        0 | 1 => conv::<f64, RGBf<f64>>(ctx, "RGBf64", [RGBf::new(-123.0, -5.0, 77.0), RGBf::new(9.0, 8.0, 7.0)], nf, nt, &near_f),
        2 | 3 => conv::<f32, RGBf<f32>>(ctx, "RGBf32", [RGBf::new(-123.0, -5.0, 77.0), RGBf::new(9.0, 8.0, 7.0)], nf, nt, &near_f),
        4 => conv::<f64, RGBu8>(ctx, "RGBu8", [RGBu8 { r: 1, g: 2, b: 3 }, RGBu8 { r: 101, g: 102, b: 103 }], nf, nt, &|_, _| false),
        5 => conv::<f64, RGBu16>(ctx, "RGBu16", [RGBu16 { r: 1, g: 2, b: 3 }, RGBu16 { r: 101, g: 102, b: 103 }], nf, nt, &|_, _| false),
        _ => conv::<f64, RGBf32>(ctx, "f64->RGBf32", [RGBf::new(-123.0, -5.0, 77.0), RGBf::new(9.0, 8.0, 7.0)], nf, nt, &near_f),
    }
}

#[cfg(target_feature = "avx")]
fn planes<S: simdeez::Simd>(ctx: &mut Ctx, label: &str, n: usize) {
    let m = random_matrix::<f32>(ctx);
    let mt = m33::<f32>(&m);
    let v = pixels::<f32>(ctx, n, 100.0, true);
    // slices that start at every alignment
    let offs = if ctx.rng.chance(1, 2) { [ctx.rng.below(8); 3] } else { [ctx.rng.below(8), ctx.rng.below(8), ctx.rng.below(8)] };
    let mk = |k: usize| -> Vec<f32> { (0..offs[k]).map(|_| 1e9f32).chain(v.iter().map(|p| p[k] as f32)).chain((0..9).map(|_| -1e9f32)).collect() };
    let (xs, ys, zs) = (mk(0), mk(1), mk(2));
    let r = |k: usize| offs[k]..offs[k] + n;
    let out = match ctx.call("planes", || format!("{} length {}", label, n), || xyz_slice_to_rgb_avx_planes::<S>(&mt, &xs[r(0)], &ys[r(1)], &zs[r(2)])) {
        Some(o) => o,
        None => return,
    };
    ctx.check("planes:len", out.0.len() == n && out.1.len() == n && out.2.len() == n, || {
        format!("{} length {} gave {} {} {}", label, n, out.0.len(), out.1.len(), out.2.len())
    });
    for i in 0..n.min(out.0.len()).min(out.1.len()).min(out.2.len()) {
        let got = [out.0[i] as f64, out.1[i] as f64, out.2[i] as f64];
        expect(ctx, "planes", &m, v[i], got, 1e-6, &|| format!("{} length {} index {} pixel {:?}", label, n, i, v[i]));
    }
    ctx.observe(&format!("planes-{}", label), n as u64, n > 0);
}

#[cfg(target_feature = "avx")]
fn all_planes(ctx: &mut Ctx, n: usize) {
    planes::<simdeez::avx2::Avx2>(ctx, "Avx2", n);
    planes::<simdeez::sse41::Sse41>(ctx, "Sse41", n);
    planes::<simdeez::sse2::Sse2>(ctx, "Sse2", n);
    planes::<simdeez::scalar::Scalar>(ctx, "Scalar", n);
}
#[cfg(not(target_feature = "avx"))]
fn all_planes(_: &mut Ctx, _: usize) {}

pub fn fixed(ctx: &mut Ctx) {
    let mut lens: Vec<usize> = (0..140).collect();
    for p in [255usize, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193] {
        lens.push(p);
    }
    if !ctx.build.contains("san") {
        lens.extend_from_slice(&[16383, 16384, 16385, 65535, 65536, 65537, 100003]);
    }
    if ctx.thorough() {
        lens.extend(140..1100);
        lens.extend_from_slice(&[131071, 131072, 131073, 1_000_000, 1_048_577]);
    }
    let mut nov: Vec<usize> = ctx.dict.novel.iter().filter(|v| **v >= 0.0 && **v < 300000.0).map(|v| *v as usize).flat_map(|v| [v.saturating_sub(1), v, v + 1]).collect();
    nov.truncate(60);
    lens.extend(nov);
    if ctx.build.starts_with("miri") {
        lens = vec![0, 1, 3, 4, 7, 8, 9, 15, 16, 17];
    }
    for &n in &lens {
        slice::<f64>(ctx, n);
        slice::<f32>(ctx, n);
        all_planes(ctx, n);
        rgbrgb(ctx, n, n);
        if n > 0 {
            rgbrgb(ctx, n, n - 1);
            rgbrgb(ctx, n - 1, n);
        }
    }
    // a long slice into or out of a much longer one
    if !ctx.build.contains("san") && !ctx.build.starts_with("miri") {
        for (a, b) in [(65536, 131072), (131072, 65536), (65536, 200_000), (100_003, 300_000), (0, 70_000), (1, 70_000), (70_000, 1), (4096, 16384), (16384, 4096), (1024, 2048), (2048, 1024)] {
            rgbrgb(ctx, a, b);
        }
    }
    for a in 0..12 {
        for b in 0..12 {
            rgbrgb(ctx, a, b);
        }
    }
}
pub fn step(ctx: &mut Ctx) {
    let n = ctx.length(100_000);
    slice::<f64>(ctx, n);
    slice::<f32>(ctx, n);
    all_planes(ctx, n);
    let nt = if ctx.rng.chance(1, 2) { n } else { ctx.length(2000) };
    let nf = n.min(5000);
    rgbrgb(ctx, nf, nt);
    if ctx.rng.chance(1, 100) && !ctx.build.contains("san") {
        let f = if ctx.rng.chance(1, 4) { 1 << ctx.rng.range(12, 17) } else { ctx.rng.range(5000, 140_000) };
        let t = f * ctx.rng.range(1, 5) / ctx.rng.range(1, 3) + ctx.rng.below(9);
        rgbrgb(ctx, f, t);
    }
    ctx.sample(|| format!("slice length {}, rgb_to_rgb {} -> {} pixels", n, nf, nt));
}
pub const STEPS: usize = 1500;
