//! Quantisation.
use crate::common::*;
use crate::ctx::*;
use crate::gen::*;
use colorspace::{RGBf32, RGBf64, RGBu16, RGBu8};

const U32: f64 = f32::EPSILON as f64;
const U64: f64 = f64::EPSILON;

/// `ulp`: the rounding unit the scaled value is computed with. The product and
/// a possible `+ 0.5` may each be rounded.
fn code_ok(code: u32, v: f64, top: f64, ulp: f64) -> bool {
    if v.is_nan() {
        return true; // unspecified, must only not misbehave
    }
    let t = if v <= 0.0 {
        0.0
    } else if v >= 1.0 {
        top
    } else {
        v * top
    };
    let slack = 3.0 * ulp * (t + 1.0);
    (code as f64 - t).abs() <= 0.5 + slack
        && (code as f64) <= top
        && (v > 0.0 || code == 0)
        && (v < 1.0 || code as f64 == top)
}

fn quant32(ctx: &mut Ctx, v: [f32; 3]) {
    let c = RGBf32::new(v[0], v[1], v[2]);
    let a = RGBu8::from(c);
    let b = RGBu16::from(c);
    for (i, (k8, k16)) in [(a.r, b.r), (a.g, b.g), (a.b, b.b)].iter().enumerate() {
        ctx.check("f32->u8", code_ok(*k8 as u32, v[i] as f64, 255.0, U32), || format!("RGBu8::from(RGBf32{:?}) channel {} = {}", v, i, k8));
        ctx.check("f32->u16", code_ok(*k16 as u32, v[i] as f64, 65535.0, U32), || format!("RGBu16::from(RGBf32{:?}) channel {} = {}", v, i, k16));
    }
}

fn quant64(ctx: &mut Ctx, v: [f64; 3]) {
    let c = RGBf64::new(v[0], v[1], v[2]);
    let a = RGBu8::from(c);
    let b = RGBu16::from(c);
    for (i, (k8, k16)) in [(a.r, b.r), (a.g, b.g), (a.b, b.b)].iter().enumerate() {
        ctx.check("f64->u8", code_ok(*k8 as u32, v[i], 255.0, U64), || format!("RGBu8::from(RGBf64{:?}) channel {} = {}", v, i, k8));
        ctx.check("f64->u16", code_ok(*k16 as u32, v[i], 65535.0, U64), || format!("RGBu16::from(RGBf64{:?}) channel {} = {}", v, i, k16));
    }
    let n = RGBf32::from(c);
    for (i, x) in [n.r, n.g, n.b].iter().enumerate() {
        let w = v[i] as f32;
        ctx.check("f64->f32", x.to_bits() == w.to_bits() || (w.is_nan() && x.is_nan()) || (w == 0.0 && *x == 0.0), || {
            format!("RGBf32::from(RGBf64{:?}) channel {} = {:?}, expected {:?}", v, i, x, w)
        });
    }
}

fn codes(ctx: &mut Ctx, k: [u32; 3], wide: bool) {
    let top = if wide { 65535.0 } else { 255.0 };
    let (f, g, b32, b64) = if wide {
        let c = RGBu16 { r: k[0] as u16, g: k[1] as u16, b: k[2] as u16 };
        let f: RGBf32 = c.into();
        let g: RGBf64 = c.into();
        let p: RGBu16 = f.into();
        let q: RGBu16 = g.into();
        (f, g, [p.r as u32, p.g as u32, p.b as u32], [q.r as u32, q.g as u32, q.b as u32])
    } else {
        let c = RGBu8 { r: k[0] as u8, g: k[1] as u8, b: k[2] as u8 };
        let f: RGBf32 = c.into();
        let g: RGBf64 = c.into();
        let p: RGBu8 = f.into();
        let q: RGBu8 = g.into();
        (f, g, [p.r as u32, p.g as u32, p.b as u32], [q.r as u32, q.g as u32, q.b as u32])
    };
    let t = if wide { "u16" } else { "u8" };
    ctx.check(&format!("{}->f32->{}", t, t), b32 == k, || format!("{} code {:?} -> {:?} -> {:?}", t, k, f, b32));
    ctx.check(&format!("{}->f64->{}", t, t), b64 == k, || format!("{} code {:?} -> {:?} -> {:?}", t, k, g, b64));
    let fv = unrgb(f);
    let gv = unrgb(g);
    for i in 0..3 {
        let w = k[i] as f64 / top;
        // the quotient, correctly rounded
        ctx.close(&format!("{}->f32", t), fv[i], (k[i] as f32 / top as f32) as f64, 0.0, || format!("{} code {:?} channel {}", t, k, i));
        ctx.close(&format!("{}->f64", t), gv[i], w, 0.0, || format!("{} code {:?} channel {}", t, k, i));
    }
    ctx.observe(t, (k[0] as u64) << 40 | (k[1] as u64) << 20 | k[2] as u64, true);
}

fn monotone(ctx: &mut Ctx, mut v: Vec<f64>) {
    v.retain(|x| !x.is_nan());
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let mut last: Option<([f64; 3], [[u32; 3]; 4])> = None;
    for x in v {
        let c = RGBf64::new(x, x, x);
        let e = RGBf32::new(x as f32, x as f32, x as f32);
        let (a, b, f, g) = (RGBu8::from(c), RGBu16::from(c), RGBu8::from(e), RGBu16::from(e));
        let now = [
            [a.r as u32, a.g as u32, a.b as u32],
            [b.r as u32, b.g as u32, b.b as u32],
            [f.r as u32, f.g as u32, f.b as u32],
            [g.r as u32, g.g as u32, g.b as u32],
        ];
        if let Some((px, p)) = last {
            for i in 0..4 {
                for j in 0..3 {
                    ctx.check("monotone", p[i][j] <= now[i][j], || format!("conversion {} channel {}: {:?} -> {} but {:?} -> {}", i, j, px[0], p[i][j], x, now[i][j]));
                }
            }
        }
        last = Some(([x; 3], now));
        ctx.observe("monotone", x.to_bits(), true);
    }
}

pub fn fixed(ctx: &mut Ctx) {
    for k in 0..256u32 {
        codes(ctx, [k, 255 - k, (k * 7) % 256], false);
        codes(ctx, [k; 3], false);
    }
    for k in 0..65536u32 {
        codes(ctx, [k, 65535 - k, (k * 7) % 65536], true);
    }
    // both sides of every decision boundary, every channel
    let mut near = Vec::new();
    for (top, stride) in [(255u32, 1u32), (65535, if ctx.thorough() { 1 } else { 3 })] {
        let off = (ctx.seed % stride as u64) as u32;
        let mut k = off;
        while k <= top {
            for h in [0.0, 0.5, -0.5, 0.25, 0.75] {
                let m = (k as f64 + h) / top as f64;
                let mut x = m as f32;
                for _ in 0..3 {
                    x = next_down32(x);
                }
                for _ in 0..7 {
                    let ch = (k % 3) as usize;
                    let mut v = [0.3f32, 0.9, 0.6];
                    v[ch] = x;
                    quant32(ctx, v);
                    v = [x, x, x];
                    quant32(ctx, v);
                    ctx.observe("boundary-f32", x.to_bits() as u64, true);
                    near.push(x as f64);
                    x = next_up32(x);
                }
                // further away, in growing steps
                for d in [6u32, 10, 20, 50, 150, 500] {
                    for x in [m as f32, -(m as f32)] {
                        let y = if x > 0.0 { f32::from_bits(x.to_bits() + d) } else { f32::from_bits((-x).to_bits().saturating_sub(d)) };
                        quant32(ctx, [y, y, y]);
                        near.push(y as f64);
                    }
                }
                for e in [-1e-9f64, -1e-12, -1e-14, -6e-16, 0.0, 6e-16, 1e-14, 1e-12, 1e-9] {
                    let y = m + e * if e.abs() < 1e-13 { m } else { 1.0 };
                    quant64(ctx, [y, 1.0 - y, 0.5]);
                    quant64(ctx, [0.1, y, y]);
                    ctx.observe("boundary-f64", y.to_bits(), true);
                    near.push(y);
                }
            }
            k += stride;
        }
    }
    monotone(ctx, near);
    let ext = [
        f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MAX, f64::MIN, f64::MIN_POSITIVE, -f64::MIN_POSITIVE, 5e-324, -0.0, 0.0, 1.0, 2.0, -1.0, 1e30, -1e30, 255.0, 256.0, 65535.0, 65536.0, 1e10,
        4294967296.0,
    ];
    for &a in &ext {
        for &b in &ext {
            quant32(ctx, [a as f32, b as f32, 0.5]);
            quant32(ctx, [0.25, a as f32, b as f32]);
            quant32(ctx, [b as f32, 1.0, a as f32]);
            quant64(ctx, [a, b, 0.5]);
            quant64(ctx, [0.25, a, b]);
            quant64(ctx, [b, 1.0, a]);
            ctx.observe("extreme", hash_f64s(&[a, b]), true);
        }
    }
    if ctx.thorough() {
        exhaustive32(ctx);
    } else {
        // a stratified pass over all f32 bit patterns
        let mut bits = (ctx.rng.u64() % 4099) as u32;
        let mut n = 0u64;
        loop {
            let x = f32::from_bits(bits);
            quant32(ctx, [x, x, x]);
            n += 1;
            match bits.checked_add(4099) {
                Some(b) => bits = b,
                None => break,
            }
        }
        ctx.evaluations += n;
        ctx.cats.insert("f32-stride".into(), n);
    }
}

fn exhaustive32(ctx: &mut Ctx) {
    // every f32 value, in each channel, in parallel
    let results: Vec<(u64, Option<String>)> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..8u64)
            .map(|t| {
                s.spawn(move || {
                    let lo = t << 29;
                    let hi = (t + 1) << 29;
                    let mut n = 0u64;
                    for b in lo..hi {
                        let x = f32::from_bits(b as u32);
                        let c = RGBf32::new(x, x, x);
                        let a = RGBu8::from(c);
                        let w = RGBu16::from(c);
                        let v = x as f64;
                        let ok = code_ok(a.r as u32, v, 255.0, U32)
                            && code_ok(w.r as u32, v, 65535.0, U32)
                            && a.g == a.r
                            && a.b == a.r
                            && w.g == w.r
                            && w.b == w.r;
                        n += 1;
                        if !ok {
                            return (n, Some(format!("f32 {:?} (bits {:#x}) -> {:?} {:?}", x, b, a, w)));
                        }
                    }
                    (n, None)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for (n, v) in results {
        ctx.evaluations += n;
        ctx.checks += 2 * n;
        *ctx.cats.entry("f32-exhaustive".into()).or_insert(0) += n;
        if let Some(v) = v {
            ctx.violate("f32-exhaustive", v);
        }
    }
}

pub fn step(ctx: &mut Ctx) {
    let v = ctx.color();
    quant64(ctx, v);
    quant32(ctx, [v[0] as f32, v[1] as f32, v[2] as f32]);
    ctx.observe("random", hash_f64s(&v), true);
    ctx.sample(|| format!("RGBf64{:?} -> u8/u16/f32", v));
    if ctx.rng.chance(1, 4) {
        let k = [ctx.rng.below(65536) as u32, ctx.rng.below(65536) as u32, ctx.rng.below(65536) as u32];
        codes(ctx, k, true);
        codes(ctx, [k[0] & 255, k[1] & 255, k[2] & 255], false);
    }
    if ctx.rng.chance(1, 50) {
        let b: Vec<f64> = (0..200).map(|_| ctx.channel()).collect();
        monotone(ctx, b);
    }
}
pub const STEPS: usize = 400_000;
