//! Chromatic adaptation.
use crate::common::*;
use crate::ctx::*;
use crate::refm::*;
use colorspace::chromatic_adaptation::{bradford, cat02, von_kries};
use colorspace::math::Real;

const CATS: [Cat; 3] = [Cat::Bradford, Cat::VonKries, Cat::Cat02];

/// A white: XYZ triple, and whether to hand it over as xyY.
#[derive(Clone, Copy, Debug)]
struct W {
    xyz: V3,
    xyy: Option<(f64, f64, f64)>,
}

fn white<T: Real>(ctx: &mut Ctx) -> W {
    let (x, y) = ctx.white_xy();
    let (x, y) = (q::<T>(x), q::<T>(y));
    let yy = match ctx.rng.below(5) {
        0 => q::<T>(ctx.rng.logu(-2.0, 2.0)),
        1 => 0.5,
        _ => 1.0,
    };
    if ctx.rng.chance(1, 2) {
        W { xyz: xyy_to_xyz(x, y, yy), xyy: Some((x, y, yy)) }
    } else {
        let v = xyy_to_xyz(x, y, if ctx.rng.chance(1, 3) { yy / 100.0 } else { yy });
        W { xyz: q3::<T>(v), xyy: None }
    }
}

fn cat_of<T: Real>(k: Cat, a: W, b: W) -> M3 {
    macro_rules! go {
        ($f:ident) => {
            match (a.xyy, b.xyy) {
                (Some(p), Some(r)) => $f::<T, _, _>(xyy::<T>(p.0, p.1, p.2), xyy::<T>(r.0, r.1, r.2)),
                (Some(p), None) => $f::<T, _, _>(xyy::<T>(p.0, p.1, p.2), xyz::<T>(b.xyz)),
                (None, Some(r)) => $f::<T, _, _>(xyz::<T>(a.xyz), xyy::<T>(r.0, r.1, r.2)),
                (None, None) => $f::<T, _, _>(xyz::<T>(a.xyz), xyz::<T>(b.xyz)),
            }
        };
    }
    let m = match k {
        Cat::Bradford => go!(bradford),
        Cat::VonKries => go!(von_kries),
        Cat::Cat02 => go!(cat02),
    };
    unm(&m)
}

fn tol<T: Real>(k: Cat) -> f64 {
    let base = if is32::<T>() { 2e-5 } else { 2e-12 };
    // the Von Kries inverse is published to seven decimals
    base + if k == Cat::VonKries { 6e-6 } else { 0.0 }
}

fn near(ctx: &mut Ctx, sig: &str, a: &M3, b: &M3, t: f64, f: &dyn Fn() -> String) {
    let n = inf_norm(b).max(1e-300);
    for i in 0..3 {
        for j in 0..3 {
            ctx.close(sig, a[i][j], b[i][j], t * n, || format!("{} [{}][{}]", f(), i, j));
        }
    }
}

fn one<T: Real>(ctx: &mut Ctx) {
    let a = white::<T>(ctx);
    let b = match ctx.rng.below(6) {
        0 => a,
        1 => {
            // nearly the same white
            let e = 1.0 + ctx.rng.logu(-7.0, -2.0);
            W { xyz: q3::<T>([a.xyz[0] * e, a.xyz[1], a.xyz[2] / e]), xyy: None }
        }
        2 => {
            // same chromaticity, other luminance
            let s = ctx.rng.logu(-2.0, 2.0);
            W { xyz: q3::<T>([a.xyz[0] * s, a.xyz[1] * s, a.xyz[2] * s]), xyy: None }
        }
        3 => {
            // agree in some components only
            let mut v = white::<T>(ctx).xyz;
            let i = ctx.rng.below(3);
            v[i] = a.xyz[i];
            W { xyz: q3::<T>(v), xyy: None }
        }
        _ => white::<T>(ctx),
    };
    let c3 = white::<T>(ctx);
    for k in CATS {
        let desc = || format!("{:?}<{}> {:?} -> {:?}", k, tname::<T>(), a, b);
        let m = match ctx.call("cat", desc, || cat_of::<T>(k, a, b)) {
            Some(m) => m,
            None => continue,
        };
        let t = tol::<T>(k);
        let ratio = (0..3).map(|i| (b.xyz[i] / a.xyz[i]).abs()).fold(0.0, f64::max).max(1e-9);
        // source white to destination white
        let v = mv(&m, a.xyz);
        let s = mv_abs(&m, a.xyz);
        for i in 0..3 {
            ctx.close(&format!("{:?}:white", k), v[i], b.xyz[i], t * 4.0 * (s[i] + b.xyz[i].abs()), || format!("{} component {}", desc(), i));
        }
        near(ctx, &format!("{:?}:matrix", k), &m, &k.matrix(a.xyz, b.xyz), t * 2.0, &desc);
        let back = cat_of::<T>(k, b, a);
        near(ctx, &format!("{:?}:inverse", k), &mm(&back, &m), &ident(), t * 8.0 * (inf_norm(&back) * inf_norm(&m)).max(1.0), &|| format!("there and back: {}", desc()));
        let id = cat_of::<T>(k, a, a);
        near(ctx, &format!("{:?}:identity", k), &id, &ident(), t, &|| format!("identity: {:?} {:?}", k, a));
        let bc = cat_of::<T>(k, b, c3);
        let ac = cat_of::<T>(k, a, c3);
        let scale = (inf_norm(&bc) * inf_norm(&m) / inf_norm(&ac).max(1e-300)).max(1.0);
        near(ctx, &format!("{:?}:compose", k), &mm(&bc, &m), &ac, t * 8.0 * scale, &|| format!("via: {} then {:?}", desc(), c3));
        ctx.observe(&format!("{:?}-{}", k, tname::<T>()), hash_f64s(&[a.xyz[0], a.xyz[1], a.xyz[2], b.xyz[0], b.xyz[1], b.xyz[2]]), a.xyz != b.xyz);
        ctx.sample(|| format!("{} = {:?}", desc(), m));
        let _ = ratio;
    }
}

pub fn fixed(ctx: &mut Ctx) {
    // every ordered pair of the named whites, as xyY and as XYZ
    let names = [(0.34570, 0.35850), (0.33243, 0.34744), (0.321626242047397, 0.337736995955436), (0.31270, 0.32900), (0.31400, 0.35100), (0.32168, 0.33767), (0.44757, 0.40745), (1.0 / 3.0, 1.0 / 3.0)];
    for &p in &names {
        for &r in &names {
            for form in 0..4 {
                let mk = |x: (f64, f64), as_xyy: bool| W { xyz: xyy_to_xyz(x.0, x.1, 1.0), xyy: if as_xyy { Some((x.0, x.1, 1.0)) } else { None } };
                let (a, b) = (mk(p, form & 1 == 0), mk(r, form & 2 == 0));
                for k in CATS {
                    let m = cat_of::<f64>(k, a, b);
                    near(ctx, &format!("{:?}:named", k), &m, &k.matrix(a.xyz, b.xyz), tol::<f64>(k), &|| format!("{:?} {:?} -> {:?}", k, a, b));
                    let m = cat_of::<f32>(k, a, b);
                    near(ctx, &format!("{:?}:named-f32", k), &m, &k.matrix(a.xyz, b.xyz), tol::<f32>(k), &|| format!("f32 {:?} {:?} -> {:?}", k, a, b));
                    ctx.observe("named", hash_f64s(&[p.0, p.1, r.0, r.1, form as f64]), p != r);
                }
            }
        }
    }
}
pub fn step(ctx: &mut Ctx) {
    one::<f64>(ctx);
    one::<f32>(ctx);
}
pub const STEPS: usize = 30_000;
