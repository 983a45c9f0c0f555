//! Lagrange coefficients and linspace.
use crate::ctx::*;
use colorspace::vspd::{lagrange_coefficients_astm_e2022, linspace};

fn lin(ctx: &mut Ctx, a: f64, b: f64, n: usize) {
    let desc = || format!("linspace({}, {}, {})", a, b, n);
    let v: Vec<f64> = match ctx.call("linspace", desc, || linspace(a, b, n).take(n + 5).collect::<Vec<_>>()) {
        Some(v) => v,
        None => return,
    };
    ctx.check("linspace:count", v.len() == n, || format!("{} yields {} values", desc(), v.len()));
    let m = a.abs() + b.abs();
    for (i, x) in v.iter().enumerate().take(n) {
        let w = if n == 1 { a } else { a + (b - a) * (i as f64 / (n - 1) as f64) };
        if !ctx.close("linspace", *x, w, 4e-15 * m + 1e-300, || format!("{} value {}", desc(), i)) {
            break;
        }
    }
    ctx.observe("linspace", hash_f64s(&[a, b, n as f64]), n > 0);
}

fn lag(ctx: &mut Ctx, interval: f64, n: usize) {
    let desc = || format!("lagrange_coefficients_astm_e2022({}, {})", interval, n);
    let c = match ctx.call("lagrange", desc, || lagrange_coefficients_astm_e2022(interval, n)) {
        Some(c) => c,
        None => return,
    };
    let rows = interval as usize - 1;
    ctx.check("lagrange:rows", c.len() == rows && c.iter().all(|r| r.len() == n), || format!("{} has {} rows of {:?}", desc(), c.len(), c.first().map(|r| r.len())));
    for (i, r) in c.iter().enumerate() {
        if r.len() != n {
            continue;
        }
        let x = (i + 1) as f64 / interval + if n == 4 { 1.0 } else { 0.0 };
        let s: f64 = r.iter().sum();
        ctx.close("lagrange:sum", s, 1.0, 1e-12 * 4f64.powi(n as i32 - 3), || format!("{} row {}", desc(), i));
        for j in 0..n {
            let mut w = 1.0;
            for k in 0..n {
                if k != j {
                    w *= (x - k as f64) / (j as f64 - k as f64);
                }
            }
            ctx.close("lagrange", r[j], w, 1e-12 * 4f64.powi(n as i32 - 3), || format!("{} row {} coefficient {}", desc(), i, j));
        }
        // a random polynomial of degree n-1
        let p: Vec<f64> = (0..n).map(|_| ctx.rng.uni(-1.0, 1.0)).collect();
        let f = |x: f64| p.iter().rev().fold(0.0, |a, k| a * x + k);
        let got: f64 = (0..n).map(|j| r[j] * f(j as f64)).sum();
        let m: f64 = (0..n).map(|j| (r[j] * f(j as f64)).abs()).sum::<f64>() + 1.0;
        ctx.close("lagrange:polynomial", got, f(x), 1e-11 * m, || format!("{} row {} polynomial {:?}", desc(), i, p));
    }
    ctx.observe("lagrange", hash_f64s(&[interval, n as f64]), rows > 0);
}

pub fn fixed(ctx: &mut Ctx) {
    for n in 0..300 {
        lin(ctx, 0.0, 1.0, n);
        lin(ctx, 380.0, 780.0, n);
        lin(ctx, 1.0, -1.0, n);
        lin(ctx, 2.5, 2.5, n);
    }
    // more steps than a single-precision counter can tell apart
    for (a, h, n) in [(0.0, 1.0, (1usize << 24) + 5), (-3.0, 0.5, (1 << 16) + 3)] {
        let b = a + h * (n - 1) as f64;
        let mut count = 0usize;
        let mut bad = None;
        for x in linspace(a, b, n) {
            let w = a + h * count as f64;
            if (x - w).abs() > 1e-12 * w.abs().max(1.0) && bad.is_none() {
                bad = Some((count, x, w));
            }
            count += 1;
        }
        ctx.check("linspace:count", count == n, || format!("linspace({}, {}, {}) yields {} values", a, b, n, count));
        ctx.check("linspace", bad.is_none(), || format!("linspace({}, {}, {}): value number, value, expected: {:?}", a, b, n, bad));
        ctx.observe("linspace-long", n as u64, true);
    }
    for i in 1..=120 {
        for n in [3, 4] {
            lag(ctx, i as f64, n);
        }
    }
}
pub fn step(ctx: &mut Ctx) {
    let (a, b) = (ctx.channel() * 100.0, ctx.channel() * 100.0);
    let n = ctx.length(5000);
    lin(ctx, a, b, n);
    let i = ctx.rng.range(1, 300) as f64;
    let n = *ctx.rng.pick(&[3, 4]);
    lag(ctx, i, n);
    ctx.sample(|| format!("linspace({}, {}, ..), lagrange({}, {})", a, b, i, n));
}
pub const STEPS: usize = 6_000;
