//! Colour differences.
use crate::common::*;
use crate::ctx::*;
use crate::refm::*;
use colorspace::lab::*;
use colorspace::math::Real;

fn mk<T: Real>(v: V3) -> Lab<T> {
    lab(c(v[0]), c(v[1]), c(v[2]))
}

fn pair(ctx: &mut Ctx, f32m: bool) -> (V3, V3) {
    let big = if f32m { 180.0 } else { 1000.0 };
    let l = |ctx: &mut Ctx| match ctx.rng.below(6) {
        0 => *ctx.rng.pick(&[0.0, 50.0, 100.0]),
        1 => ctx.rng.uni(-10.0, 200.0),
        _ => ctx.rng.uni(0.0, 100.0),
    };
    let ch = |ctx: &mut Ctx| -> f64 {
        match ctx.rng.below(8) {
            0 => 0.0,
            1 => ctx.rng.logu(-6.0, 0.0),
            2 => ctx.rng.uni(0.0, 5.0),
            3 => ctx.rng.uni(0.0, big),
            4 => {
                let v = ctx.dict_value().abs();
                if v < big {
                    v
                } else {
                    25.0
                }
            }
            _ => ctx.rng.uni(0.0, 130.0),
        }
    };
    // in polar form so that hues can be placed deliberately
    let (c1, mut c2) = (ch(ctx), ch(ctx));
    let h1 = match ctx.rng.below(7) {
        0 => *ctx.rng.pick(&[0.0, 90.0, 180.0, 270.0, 360.0, 275.0, 30.0, 63.0, 45.0]),
        1 => ctx.rng.uni(-2.0, 2.0),
        2 => ctx.rng.uni(240.0, 310.0),
        _ => ctx.rng.uni(0.0, 360.0),
    };
    let h2 = match ctx.rng.below(8) {
        0 => h1,
        1 => h1 + 180.0 + ctx.rng.uni(-3.0, 3.0),
        2 => h1 + ctx.rng.uni(-10.0, 10.0),
        3 => 360.0 - h1,
        4 => ctx.rng.uni(240.0, 310.0),
        5 => h1 + *ctx.rng.pick(&[90.0, -90.0, 179.0, 181.0, 180.0]),
        _ => ctx.rng.uni(0.0, 360.0),
    };
    if ctx.rng.chance(1, 6) {
        c2 = c1;
    }
    let cart = |l: f64, c: f64, h: f64| {
        let r = h.to_radians();
        let (mut a, mut b) = (c * r.cos(), c * r.sin());
        // exact axes
        if h % 90.0 == 0.0 {
            match ((h / 90.0) as i64).rem_euclid(4) {
                0 => {
                    a = c;
                    b = 0.0
                }
                1 => {
                    a = 0.0;
                    b = c
                }
                2 => {
                    a = -c;
                    b = 0.0
                }
                _ => {
                    a = 0.0;
                    b = -c
                }
            }
        }
        [l, a, b]
    };
    let l1 = l(ctx);
    let l2 = if ctx.rng.chance(1, 4) { l1 } else { l(ctx) };
    let mut p = cart(l1, c1, h1);
    let mut q = cart(l2, c2, h2);
    match ctx.rng.below(14) {
        0 => q = p,
        1 => q[0] = p[0],
        2 => {
            let k = ctx.rng.below(3);
            q = p;
            q[k] += ctx.rng.logu(-3.0, 1.0);
        }
        3 => {
            // signed zeros
            p[1] = if ctx.rng.chance(1, 2) { 0.0 } else { -0.0 };
            q[2] = if ctx.rng.chance(1, 2) { 0.0 } else { -0.0 };
        }
        4 => {
            p = [p[0].round(), p[1].round(), p[2].round()];
            q = [q[0].round(), q[1].round(), q[2].round()];
        }
        _ => {}
    }
    (p, q)
}

fn one<T: Real>(ctx: &mut Ctx) {
    let t = tname::<T>();
    let (p, s) = pair(ctx, is32::<T>());
    let (p, s) = (q3::<T>(p), q3::<T>(s));
    let (lp, ls) = (mk::<T>(p), mk::<T>(s));
    let desc = || format!("{} {:?} {:?}", t, p, s);
    let e76 = match ctx.call("1976", desc, || delta_E_1976(lp, ls)) {
        Some(x) => d(x),
        None => return,
    };
    let want = ((p[0] - s[0]).powi(2) + (p[1] - s[1]).powi(2) + (p[2] - s[2]).powi(2)).sqrt();
    let (u, scale) = if is32::<T>() { (1e-6, 1.0) } else { (1e-14, 1.0) };
    ctx.close("1976", e76, want, 4.0 * u * (want + 1e-30 * scale), || desc());
    ctx.check("1976:symmetry", d(delta_E_1976(ls, lp)) == e76 || (d(delta_E_1976(ls, lp)) - e76).abs() < 4.0 * u * want, || desc());
    ctx.check("1976:self", d(delta_E_1976(lp, lp)) == 0.0, || desc());

    let e = match ctx.call("2000", desc, || delta_E_2000(lp, ls)) {
        Some(x) => d(x),
        None => return,
    };
    ctx.check("2000:finite", e.is_finite() && e >= 0.0, || format!("{}: {}", desc(), e));
    let chroma = p[1].hypot(p[2]).max(s[1].hypot(s[2]));
    let cmin = p[1].hypot(p[2]).min(s[1].hypot(s[2]));
    // hue is uncertain by rounding; opposite hues within that uncertainty have
    // two published values
    let near = if is32::<T>() { 2e-3 } else { 1e-9 };
    let alts = de2000(p, s, near);
    let tol = if is32::<T>() { 3e-4 * (1.0 + want * 0.05 + chroma * 0.02) } else { 1e-9 * (1.0 + want) };
    let best = alts.iter().map(|a| (e - a).abs()).fold(f64::INFINITY, f64::min);
    ctx.check("2000", best <= tol, || format!("{}: got {}, CIEDE2000 is {:?} (tolerance {:e})", desc(), e, alts, tol));
    ctx.measure(&format!("largest deviation from the reference, {}", t), best);
    let r = d(delta_E_2000(ls, lp));
    let sym = (r - e).abs() <= tol || alts.len() > 1 && alts.iter().any(|a| (r - a).abs() <= tol);
    ctx.check("2000:symmetry", sym, || format!("{}: {} one way, {} the other", desc(), e, r));
    let z = d(delta_E_2000(lp, lp));
    ctx.check("2000:self", z.abs() <= if is32::<T>() { 1e-4 } else { 1e-9 }, || format!("{}: {:?} with itself {}", t, p, z));
    let sector = |v: V3| -> u64 {
        if v[1] == 0.0 && v[2] == 0.0 {
            9
        } else {
            (v[2].atan2(v[1]).to_degrees().rem_euclid(360.0) / 45.0) as u64
        }
    };
    ctx.note_set("pairs of hue sectors (45 degrees, or achromatic)", sector(p) * 16 + sector(s));
    ctx.observe(&format!("pair-{}{}", t, if alts.len() > 1 { "-opposite" } else if cmin == 0.0 { "-achromatic" } else { "" }), hash_f64s(&[p[0], p[1], p[2], s[0], s[1], s[2]]), want != 0.0);
    ctx.sample(|| format!("{} {:?} {:?} dE76 {} dE2000 {}", t, p, s, e76, e));
}

pub fn fixed(ctx: &mut Ctx) {
    for r in SHARMA {
        let (p, s) = ([r[0], r[1], r[2]], [r[3], r[4], r[5]]);
        for (a, b) in [(p, s), (s, p)] {
            let e = delta_E_2000(mk::<f64>(a), mk::<f64>(b));
            ctx.close("sharma", e, r[6], 1.0e-4, || format!("published pair {:?} {:?}", a, b));
            // the pairs that straddle opposite hues are decided by the last digit of f64
            if (r[6] - 7.1792).abs() > 0.1 && (r[6] - 4.8).abs() > 0.1 && (r[6] - 7.2195).abs() > 0.1 {
                let e = delta_E_2000(mk::<f32>(a), mk::<f32>(b)) as f64;
                ctx.close("sharma", e, r[6], 4.0e-4, || format!("published pair {:?} {:?} in f32", a, b));
            }
            ctx.observe("sharma", hash_f64s(&[a[1], a[2], b[1], b[2]]), true);
        }
    }
    // every pair of hues on a 5 degree grid, at several chromas
    for h1 in (0..360).step_by(5) {
        for h2 in (0..360).step_by(5) {
            for (c1, c2) in [(5.0, 5.0), (40.0, 20.0), (90.0, 91.0)] {
                let f = |c: f64, h: i32| [50.0, c * (h as f64 + 0.25).to_radians().cos(), c * (h as f64 + 0.25).to_radians().sin()];
                let (p, s) = (f(c1, h1), f(c2, h2));
                let e = delta_E_2000(mk::<f64>(p), mk::<f64>(s));
                let alts = de2000(p, s, 1e-9);
                let best = alts.iter().map(|a| (e - a).abs()).fold(f64::INFINITY, f64::min);
                ctx.check("hue grid", best < 1e-9 * (1.0 + e), || format!("{:?} {:?}: {} vs {:?}", p, s, e, alts));
                ctx.observe("hue-grid", (h1 * 1000 + h2) as u64, true);
            }
        }
    }
}
pub fn step(ctx: &mut Ctx) {
    one::<f64>(ctx);
    one::<f32>(ctx);
}
pub const STEPS: usize = 500_000;
