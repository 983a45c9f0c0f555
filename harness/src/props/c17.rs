//! Daylight locus.
use crate::common::*;
use crate::ctx::*;
use crate::gen::*;
use colorspace::illuminant::xy::cct;
use colorspace::math::Real;

fn branch(t: f64, low: bool) -> (f64, f64) {
    let m = 1000.0 / t;
    let x = if low {
        0.244063 + m * (0.09911 + m * (2.9678 - 4.607 * m))
    } else {
        0.237040 + m * (0.24748 + m * (1.9018 - 2.0064 * m))
    };
    (x, x * (2.870 - 3.0 * x) - 0.275)
}

fn temp<T: Real>(ctx: &mut Ctx, t: f64) {
    let n = tname::<T>();
    let t = if is32::<T>() { t as f32 as f64 } else { t };
    let tt: T = if t.is_nan() { T::nan() } else { c(t) };
    let r = match ctx.call("cct", || format!("{} cct({:?})", n, t), || cct(tt)) {
        Some(r) => r,
        None => return,
    };
    let inside = (4000.0..=25000.0).contains(&t);
    match r {
        Ok(p) => {
            ctx.check("range", inside, || format!("{} cct({:?}) gave {:?}, expected an error", n, t, p));
            if inside {
                let u = if is32::<T>() { 2e-6 } else { 1e-14 };
                let w = branch(t, t <= 7000.0);
                ctx.close("x", d(p.x), w.0, u, || format!("{} cct({:?}) x", n, t));
                ctx.close("y", d(p.y), w.1, 3.0 * u, || format!("{} cct({:?}) y", n, t));
                ctx.check("Y", d(p.Y) == 1.0, || format!("{} cct({:?}) Y = {:?}", n, t, p.Y));
            }
        }
        Err(_) => {
            ctx.check("range", !inside, || format!("{} cct({:?}) was refused", n, t));
        }
    }
    ctx.observe(&format!("{}-{}", if inside { "locus" } else { "refused" }, n), t.to_bits(), true);
}

pub fn fixed(ctx: &mut Ctx) {
    let bounds = [4000.0, 7000.0, 25000.0];
    for b in bounds {
        let (mut up, mut dn) = (b, b);
        let (mut up32, mut dn32) = (b as f32, b as f32);
        for _ in 0..200 {
            temp::<f64>(ctx, up);
            temp::<f64>(ctx, dn);
            temp::<f32>(ctx, up32 as f64);
            temp::<f32>(ctx, dn32 as f64);
            up = next_up(up);
            dn = next_down(dn);
            up32 = next_up32(up32);
            dn32 = next_down32(dn32);
        }
    }
    for t in [0.0, -0.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN, f64::MIN_POSITIVE, -5000.0, 1.0, 3999.99, 25000.01, 1e300, -1e300, 5e-324, 2856.0, 1e30, -1e30, 1e-30] {
        temp::<f64>(ctx, t);
        temp::<f32>(ctx, t);
    }
    let mut prev = f64::INFINITY;
    // half-kelvin sweep of the whole range and beyond
    let mut i = 6000;
    while i <= 60000 {
        let t = i as f64 * 0.5;
        temp::<f64>(ctx, t);
        temp::<f32>(ctx, t);
        if (4000.0..=25000.0).contains(&t) {
            if let Ok(p) = cct(t) {
                // the two published branches do not meet exactly at 7000 K
                ctx.check("decreasing", p.x < prev || (t > 7000.0 && t <= 7010.0 && p.x < prev + 2e-4), || format!("x at {} K is {}, {} half a kelvin below", t, p.x, prev));
                prev = p.x;
            }
        }
        i += 1;
    }
}
pub fn step(ctx: &mut Ctx) {
    let t = match ctx.rng.below(8) {
        0 => ctx.rng.uni(0.0, 40000.0),
        1 => ctx.dict_value(),
        2 => ctx.dict_value() * 100.0,
        3 => f64::from_bits(ctx.rng.u64()),
        4 => *ctx.rng.pick(&[4000.0, 7000.0, 25000.0]) + ctx.rng.uni(-1.0, 1.0),
        _ => ctx.rng.uni(4000.0, 25000.0),
    };
    temp::<f64>(ctx, t);
    temp::<f32>(ctx, t);
    let (a, b) = (ctx.rng.uni(4000.0, 25000.0), ctx.rng.uni(4000.0, 25000.0));
    let (lo, hi) = if a < b { (a, b) } else { (b, a) };
    if hi - lo > 20.0 {
        if let (Ok(p), Ok(r)) = (cct(lo), cct(hi)) {
            ctx.check("decreasing", r.x < p.x, || format!("x({}) = {}, x({}) = {}", lo, p.x, hi, r.x));
        }
        if let (Ok(p), Ok(r)) = (cct(lo as f32), cct(hi as f32)) {
            ctx.check("decreasing", r.x <= p.x, || format!("f32 x({}) = {}, x({}) = {}", lo, p.x, hi, r.x));
        }
    }
    ctx.sample(|| format!("cct({:?})", t));
}
pub const STEPS: usize = 300_000;
