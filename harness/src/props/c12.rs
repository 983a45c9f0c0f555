//! Shapes of spectra.
use crate::ctx::*;
use crate::gen::*;
use crate::spectra::*;
use colorspace::vspd;
use colorspace::vspd::{Interval, Sample, SpdShape, VSPD};
use float_cmp::{ApproxEq, F64Margin};

fn key(s: &[(f64, f64)]) -> u64 {
    let mut v: Vec<f64> = s.iter().take(40).flat_map(|p| [p.0, p.1]).collect();
    v.push(s.len() as f64);
    hash_f64s(&v)
}
fn eq(a: &[(f64, f64)], b: &[(f64, f64)]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.0 == y.0 && x.1 == y.1)
}

fn from_samples(ctx: &mut Ctx, s: &[(f64, f64)]) {
    let desc = || format!("built from {}", brief(s));
    let mk = |s: &[(f64, f64)]| -> Vec<Sample> { s.iter().map(|p| Sample::new(p.0, p.1)).collect() };
    let a = match ctx.call("new", desc, || VSPD::new(mk(s))) {
        Some(v) => v,
        None => return,
    };
    honest(ctx, "new", &a, &desc);
    ctx.check("new:samples", eq(&samples(&a), s), || format!("{}: holds {}", desc(), brief(&samples(&a))));
    let b: Option<VSPD> = ctx.call("collect", desc, || mk(s).into_iter().collect());
    let c: Option<VSPD> = ctx.call("collect", desc, || s.iter().copied().collect());
    for v in [b, c].into_iter().flatten() {
        honest(ctx, "collect", &v, &desc);
        ctx.check("collect:samples", eq(&samples(&v), s) && v == a, || format!("{}: collects to {}", desc(), brief(&samples(&v))));
    }
    ctx.observe(if s.len() < 6 { "samples-few" } else { "samples" }, key(s), true);
    ctx.note_set("distinct sample counts", s.len() as u64);
}

/// spacing that is uniform except for one gap, at a chosen position
fn one_odd_gap(ctx: &mut Ctx, n: usize, k: usize, h: f64, f: f64) {
    let mut x = 400.0;
    let mut s = vec![(x, 0.5)];
    for i in 0..n - 1 {
        x += if i == k { h * f } else { h };
        s.push((x, i as f64));
    }
    let v = VSPD::new(s.iter().map(|p| Sample::new(p.0, p.1)).collect());
    let varying = n > 2 && f != 1.0;
    ctx.check("odd gap", (v.interval() == Interval::Varying) == varying, || format!("{} samples, gap {} is {} instead of {}: reports {}", n, k, h * f, h, interval_name(v.interval())));
    honest(ctx, "odd gap", &v, &|| format!("{} samples, gap {} times {}", n, k, f));
    ctx.observe("odd-gap", (n * 1000 + k) as u64, varying);
}

fn shaped(ctx: &mut Ctx) {
    let g = ctx.grid(2, 500);
    let (_, vals) = ctx.values(g.n);
    let desc = || format!("shape ({}, {}, {}) {} values", g.start, g.end, g.step, g.n);
    let want: Vec<(f64, f64)> = g.nms().into_iter().zip(vals.iter().copied()).collect();
    let it: Vec<f64> = g.shape().iter().collect();
    ctx.check("shape:iter", it.len() == g.n && it.iter().zip(g.nms()).all(|(a, b)| (a - b).abs() < 1e-9), || format!("{}: iterates {:?}", desc(), it));
    if let Some(v) = ctx.call("from_values", desc, || VSPD::from_values(g.shape(), &vals)) {
        honest(ctx, "from_values", &v, &desc);
        let got = samples(&v);
        let ok = got.len() == want.len() && got.iter().zip(&want).all(|(a, b)| (a.0 - b.0).abs() < 1e-9 && a.1 == b.1);
        ctx.check("from_values:samples", ok, || format!("{}: {}", desc(), brief(&got)));
        // the same samples, through another constructor, are an equal spectrum
        let w = VSPD::new(v.samples().clone());
        ctx.check("equality", v == w && w == v, || format!("{}: differs from VSPD::new of its own samples", desc()));
        algebra(ctx, &v, &desc);
    }
    let k = ctx.channel();
    if let Some(v) = ctx.call("constant", desc, || VSPD::constant(g.shape(), k)) {
        honest(ctx, "constant", &v, &desc);
        let got = samples(&v);
        let ok = got.len() == want.len() && got.iter().zip(&want).all(|(a, b)| (a.0 - b.0).abs() < 1e-9 && a.1 == k);
        ctx.check("constant:samples", ok, || format!("{}: value {}: {}", desc(), k, brief(&got)));
    }
    // the single-precision grid, where the points are representable
    let (a, b, h) = (g.start as f32, g.end as f32, g.step as f32);
    if [g.start, g.end, g.step].iter().all(|x| (x * 1024.0).fract() == 0.0) && g.end < 8192.0 {
        let it: Vec<f32> = SpdShape::<f32>::new(a, b, h).iter().collect();
        ctx.check("shape:iter:f32", it.len() == g.n && it.iter().zip(g.nms()).all(|(a, b)| (*a as f64 - b).abs() < 1e-3), || format!("{}: iterates {:?} in f32", desc(), it));
    }
    // wrong number of values
    let bad = match ctx.rng.below(3) {
        0 => g.n + 1,
        1 => g.n.saturating_sub(1),
        _ => g.n + ctx.rng.range(2, 20),
    };
    let wrong = vec![0.5; bad];
    ctx.must_panic("from_values:count", || format!("{} with {} values", desc(), bad), || VSPD::from_values(g.shape(), &wrong));
    ctx.observe("shaped", hash_f64s(&[g.start, g.end, g.step]) ^ key(&want), true);
    ctx.sample(desc);
}

fn algebra(ctx: &mut Ctx, v: &VSPD, desc: &dyn Fn() -> String) {
    let mut k = ctx.channel();
    let s = samples(v);
    if k.abs() < 1e-9 || ctx.rng.chance(1, 20) {
        k = *ctx.rng.pick(&[0.0, -1.0, 1e9, 1e-6, -3.0, f64::INFINITY]);
    }
    if ctx.rng.chance(1, 8) {
        printed(ctx, v, desc);
    }
    for (name, r, f) in [
        ("*", v.clone() * k, Box::new(move |x: f64| x * k) as Box<dyn Fn(f64) -> f64>),
        ("&*", v * k, Box::new(move |x: f64| x * k)),
        ("/", v.clone() / k, Box::new(move |x: f64| x / k)),
        ("&/", v / k, Box::new(move |x: f64| x / k)),
    ] {
        let got = samples(&r);
        if !got.iter().any(|p| p.1.is_nan()) {
            honest(ctx, "scaled", &r, desc);
        }
        let ok = got.len() == s.len() && got.iter().zip(&s).all(|(a, b)| a.0 == b.0 && (a.1 == f(b.1) || (a.1 - f(b.1)).abs() <= 1e-15 * f(b.1).abs() || (a.1.is_nan() && f(b.1).is_nan())));
        ctx.check(&format!("scaled:{}", name), ok, || format!("{} {} {}: {}", desc(), name, k, brief(&got)));
        let uni = |i: Interval<f64>| matches!(i, Interval::Uniform(_));
        ctx.check("scaled:interval", uni(r.interval()) == uni(v.interval()), || format!("{}: interval {} became {}", desc(), interval_name(v.interval()), interval_name(r.interval())));
    }
    // equality
    ctx.check("equality:self", v == v && v.clone() == *v && (v * 1.0) == *v, || format!("{}: not equal to itself", desc()));
    let i = ctx.rng.below(s.len());
    let mut t = v.samples().clone();
    t[i].v = match ctx.rng.below(3) {
        0 => next_up(t[i].v),
        1 => t[i].v * (1.0 + 1e-9) + 1e-12,
        _ => t[i].v + 1.0 + t[i].v.abs(),
    };
    let differs = t[i].v != s[i].1;
    let w = VSPD::new(t);
    ctx.check("equality:value", (*v != w) == differs && (w != *v) == differs, || format!("{}: equal although value {} differs", desc(), i));
    let mut t = v.samples().clone();
    t[i].nm = match ctx.rng.below(3) {
        0 => next_up(t[i].nm),
        1 => t[i].nm + 1e-6,
        _ => t[i].nm + 1e-3,
    };
    let w = VSPD::new(t);
    ctx.check("equality:wavelength", *v != w && w != *v, || format!("{}: equal although wavelength {} differs", desc(), i));
    if s.len() > 2 {
        let w = VSPD::new(v.samples()[..s.len() - 1].to_vec());
        ctx.check("equality:length", *v != w && w != *v, || format!("{}: equal to its own prefix", desc()));
    }
    let m = F64Margin { epsilon: 1e-6, ulps: 0 };
    let mut t = v.samples().clone();
    let e = *ctx.rng.pick(&[1e-9, 1e-3]);
    t[i].v += e;
    let w = VSPD::new(t);
    if s.iter().all(|p| p.1.abs() < 1e4) {
        ctx.check("approx_eq", v.approx_eq(&w, m) == (e < 1e-6), || format!("{}: value {} moved by {}", desc(), i, e));
        let mut t = v.samples().clone();
        t[i].nm += e;
        let w = VSPD::new(t);
        ctx.check("approx_eq", v.approx_eq(&w, m) == (e < 1e-6), || format!("{}: wavelength {} moved by {}", desc(), i, e));
        let w = VSPD::new(v.samples()[..s.len().max(3) - 1].to_vec());
        ctx.check("approx_eq", v.approx_eq(&w, m) == (w.len() == v.len()), || format!("{}: prefix of {} samples", desc(), w.len()));
    }
    ctx.observe("algebra", key(&s), true);
}

fn derived(ctx: &mut Ctx) {
    let (v, s, _) = ctx.spectrum(2, 300);
    let (lo, hi) = (s[0].0, s[s.len() - 1].0);
    let desc0 = move || brief(&s);
    algebra(ctx, &v, &desc0);
    // a target grid that overlaps
    let mut g = ctx.grid_at((lo - 40.0).max(0.0), hi + 40.0, 2, 300);
    if g.start > hi - 1e-6 || g.end < lo + 1e-6 {
        let shift = ((lo - g.start) / g.step).round() * g.step;
        g.start += shift;
        g.end += shift;
    }
    let shape = g.shape();
    let desc = || format!("{} with shape ({}, {}, {})", desc0(), g.start, g.end, g.step);
    let op = ctx.rng.below(4);
    let name = ["interpolate", "align", "extrapolate", "trim"][op];
    if op == 3 && !v.samples().iter().any(|p| p.nm >= g.start && p.nm <= g.end) {
        return;
    }
    if op == 0 && (g.start.max(lo) > g.end.min(hi)) {
        return;
    }
    let r = ctx.call(name, desc, || match op {
        0 => v.interpolate(shape),
        1 => v.align(shape),
        2 => v.extrapolate(shape),
        _ => v.trim(shape),
    });
    if let Some(r) = r {
        honest(ctx, name, &r, &desc);
        // chain a second operation
        if r.len() >= 2 {
            let r2 = match ctx.rng.below(3) {
                0 => Some(&r * 2.0),
                1 => ctx.call("chain", desc, || r.extrapolate(SpdShape::new(lo - 20.0, hi + 20.0, 5.0))),
                _ => {
                    let m = r.samples()[ctx.rng.below(r.len())].nm;
                    ctx.call("chain", desc, || r.trim(SpdShape::new(r.start(), m, 1.0)))
                }
            };
            if let Some(r2) = r2 {
                honest(ctx, "chain", &r2, &|| format!("{} of {}", name, desc()));
            }
        }
        ctx.observe(name, hash_f64s(&[g.start, g.end, g.step, lo, hi, r.len() as f64]), true);
    }
}

/// values that are not numbers, or have no size, are values all the same
fn odd_values(ctx: &mut Ctx) {
    let uniform = ctx.rng.chance(1, 2);
    let nm: Vec<f64> = if uniform { ctx.grid(2, 60).nms() } else { ctx.varying(3, 40) };
    let (_, mut v) = ctx.values(nm.len());
    for _ in 0..ctx.rng.range(1, 5) {
        let i = ctx.rng.below(v.len());
        v[i] = *ctx.rng.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -0.0, 5e-324, f64::MAX, 0.0]);
    }
    let s: Vec<(f64, f64)> = nm.iter().copied().zip(v.iter().copied()).collect();
    let desc = || format!("values that are not finite: {}", brief(&s));
    let same = |x: f64, y: f64| x == y || (x.is_nan() && y.is_nan());
    let mk = || -> Vec<Sample> { s.iter().map(|p| Sample::new(p.0, p.1)).collect() };
    let plain = VSPD::new(nm.iter().map(|x| Sample::new(*x, 1.0)).collect());
    let (lo, hi) = (nm[0], nm[nm.len() - 1]);
    let mid = nm[nm.len() / 2];
    let all: Vec<(&str, Option<VSPD>, usize)> = vec![
        ("new", ctx.call("odd:new", desc, || VSPD::new(mk())), nm.len()),
        ("collect", ctx.call("odd:collect", desc, || mk().into_iter().collect()), nm.len()),
        ("collect pairs", ctx.call("odd:collect", desc, || s.iter().copied().collect()), nm.len()),
        ("scaled", ctx.call("odd:scaled", desc, || VSPD::new(mk()) * 1.0), nm.len()),
        ("&scaled", ctx.call("odd:scaled", desc, || &VSPD::new(mk()) * 1.0), nm.len()),
        ("divided", ctx.call("odd:scaled", desc, || VSPD::new(mk()) / 1.0), nm.len()),
        ("&divided", ctx.call("odd:scaled", desc, || &VSPD::new(mk()) / 1.0), nm.len()),
        ("trimmed", ctx.call("odd:trim", desc, || VSPD::new(mk()).trim(SpdShape::new(lo, mid, 1.0))), nm.len() / 2 + 1),
        ("not extrapolated", ctx.call("odd:extrapolate", desc, || VSPD::new(mk()).extrapolate(SpdShape::new(lo, hi, 1.0))), nm.len()),
    ];
    for (n, r, len) in all {
        let Some(r) = r else { continue };
        let ok = r.len() == len && r.iter().zip(&s).all(|(a, b)| a.nm == b.0 && same(a.v, b.1));
        ctx.check(&format!("odd:{}", n), ok, || format!("{}: {} holds {}", desc(), n, brief(&samples(&r))));
        let ends = r.start() == lo && r.end() == s[len - 1].0 && r.first().nm == lo && r.last().nm == r.end();
        let uni = |v: &VSPD| matches!(v.interval(), Interval::Uniform(_));
        ctx.check(&format!("odd:{}:shape", n), ends && (len < nm.len() || uni(&r) == uni(&plain)), || format!("{}: {} has shape {}", desc(), n, r.shape()));
        if r.len() > 1 && !s.iter().any(|p| p.1.is_nan()) {
            honest(ctx, "odd", &r, &desc);
        }
    }
    ctx.observe("odd-values", key(&s), true);
}

fn macros(ctx: &mut Ctx) {
    let x: Vec<f64> = ctx.varying(6, 8);
    let (_, y) = ctx.values(x.len());
    let h = ctx.rng.range(1, 20) as f64;
    let cases: Vec<(VSPD, Vec<(f64, f64)>)> = vec![
        (vspd!(x[0] => y[0], x[1] => y[1]), vec![(x[0], y[0]), (x[1], y[1])]),
        (vspd!(x[0] => y[0], x[1] => y[1], x[2] => y[2],), vec![(x[0], y[0]), (x[1], y[1]), (x[2], y[2])]),
        (
            vspd!(x[0] => y[0], x[0] + h => y[1], x[0] + 2.0 * h => y[2], x[0] + 3.0 * h => y[3], x[0] + 4.0 * h => y[4], x[0] + 5.0 * h => y[5]),
            (0..6).map(|i| (x[0] + i as f64 * h, y[i])).collect(),
        ),
        (
            vspd!(x[0] => y[0], x[1] => y[1], x[2] => y[2], x[3] => y[3], x[4] => y[4], x[5] => y[5],),
            (0..6).map(|i| (x[i], y[i])).collect(),
        ),
    ];
    for (v, want) in cases {
        let desc = || format!("vspd! of {:?}", want);
        honest(ctx, "vspd!", &v, &desc);
        ctx.check("vspd!:samples", eq(&samples(&v), &want), || format!("{} holds {:?}", desc(), samples(&v)));
        ctx.observe("macro", key(&want), true);
    }
}

fn tables(ctx: &mut Ctx) {
    use colorspace::{cmf, illuminant, uplifting};
    let mut all: Vec<(String, VSPD)> = vec![
        ("D50".into(), illuminant::spd::D50.clone()),
        ("D55".into(), illuminant::spd::D55.clone()),
        ("D60".into(), illuminant::spd::D60.clone()),
        ("D65".into(), illuminant::spd::D65.clone()),
        ("x_bar".into(), cmf::CIE_1931_2_DEGREE.x_bar.clone()),
        ("y_bar".into(), cmf::CIE_1931_2_DEGREE.y_bar.clone()),
        ("z_bar".into(), cmf::CIE_1931_2_DEGREE.z_bar.clone()),
        ("MY_RED".into(), uplifting::MY_RED.clone()),
        ("SMITS_WHITE".into(), uplifting::SMITS_WHITE.clone()),
    ];
    for (k, v) in colorspace::colorchecker::SPECTRAL.iter() {
        all.push((k.to_string(), v.clone()));
    }
    let b = uplifting::my_basis();
    all.push(("my_basis".into(), b.0));
    for (n, v) in all {
        honest(ctx, "table", &v, &|| n.clone());
        algebra(ctx, &v, &|| n.clone());
    }
    let s = cmf::CIE_1931_2_DEGREE.shape();
    ctx.check("cmf:shape", s.start == 360.0 && s.end == 830.0 && interval_name(s.interval) == "1", || format!("{}", s));
}

pub fn fixed(ctx: &mut Ctx) {
    tables(ctx);
    for n in 2..=24 {
        for k in 0..n - 1 {
            for f in [1.0, 0.5, 2.0, 1.0001, 0.999, 1.0 + 1e-8] {
                one_odd_gap(ctx, n, k, 5.0, f);
            }
        }
    }
    // every small shape with whole and fractional ends
    for step in [1.0, 2.0, 2.5, 5.0, 10.0, 20.0, 0.5] {
        for n in 2..40usize {
            for frac in [0.0, 0.25, 0.5, 0.75, 0.99] {
                let end = 380.0 + ((n - 1) as f64 + frac) * step;
                let vals: Vec<f64> = (0..n).map(|i| i as f64 + 0.5).collect();
                let desc = || format!("shape (380, {}, {}) {} values", end, step, n);
                if let Some(v) = ctx.call("from_values", desc, || VSPD::from_values(SpdShape::new(380.0, end, step), &vals)) {
                    honest(ctx, "from_values", &v, &desc);
                    let ok = v.len() == n && v.iter().enumerate().all(|(i, s)| s.nm == 380.0 + i as f64 * step && s.v == i as f64 + 0.5);
                    ctx.check("from_values:samples", ok, || format!("{}: {}", desc(), brief(&samples(&v))));
                }
                ctx.observe("small-shapes", hash_f64s(&[step, n as f64, frac]), true);
            }
        }
    }
    // long ones
    for (n, h) in [(513usize, 0.5), (1025, 0.5), (1201, 0.25), (4097, 0.125), (20_001, 0.0625), (65_537, 0.0078125)] {
        let desc = || format!("{} samples every {} nm", n, h);
        let vals: Vec<f64> = (0..n).map(|i| ((i * 7) % 1013) as f64 / 64.0).collect();
        let s: Vec<(f64, f64)> = vals.iter().enumerate().map(|(i, v)| (300.0 + h * i as f64, *v)).collect();
        if let Some(v) = ctx.call("from_values", desc, || VSPD::from_values(SpdShape::new(300.0, 300.0 + h * (n - 1) as f64, h), &vals)) {
            ctx.check("from_values:samples", eq(&samples(&v), &s), || format!("{}: {}", desc(), brief(&samples(&v))));
            honest(ctx, "from_values", &v, &desc);
            printed(ctx, &v, &desc);
        }
        from_samples(ctx, &s);
    }
    // malformed
    ctx.must_panic("new:empty", || "VSPD::new of no samples".into(), || VSPD::new(vec![]));
    ctx.must_panic("new:one", || "VSPD::new of one sample".into(), || VSPD::new(vec![Sample::new(400.0, 1.0)]));
    ctx.must_panic("collect:one", || "collect of one sample".into(), || -> VSPD { vec![(400.0, 1.0)].into_iter().collect() });
    ctx.must_panic("collect:empty", || "collect of no samples".into(), || -> VSPD { Vec::<Sample>::new().into_iter().collect() });
    ctx.must_panic("from_values:one", || "from_values of one value".into(), || VSPD::from_values(SpdShape::new(400.0, 400.0, 1.0), &[1.0]));
    ctx.must_panic("from_values:none", || "from_values of no values".into(), || VSPD::from_values(SpdShape::new(400.0, 410.0, 1.0), &[]));
    ctx.must_panic("constant:one", || "constant on a one-sample shape".into(), || VSPD::constant(SpdShape::new(400.0, 400.0, 1.0), 1.0));
    let varying = SpdShape::<f64> { start: 400.0, end: 410.0, interval: Interval::Varying };
    ctx.must_panic("from_values:varying", || "from_values on a varying shape".into(), || VSPD::from_values(varying, &[1.0, 2.0]));
    let e = SpdShape::<f64>::astm_e308();
    ctx.check("astm_e308", e.start == 360.0 && e.end == 780.0 && interval_name(e.interval) == "1", || format!("{}", e));
}
pub fn step(ctx: &mut Ctx) {
    if ctx.rng.chance(1, 2) {
        let nm = ctx.varying(3, 60);
        let (_, v) = ctx.values(nm.len());
        let s: Vec<(f64, f64)> = nm.into_iter().zip(v).collect();
        from_samples(ctx, &s);
    } else {
        let g = ctx.grid(2, 400);
        let (_, v) = ctx.values(g.n);
        let s: Vec<(f64, f64)> = g.nms().into_iter().zip(v).collect();
        from_samples(ctx, &s);
    }
    shaped(ctx);
    derived(ctx);
    if ctx.rng.chance(1, 2) {
        odd_values(ctx);
    }
    if ctx.rng.chance(1, 4) {
        macros(ctx);
    }
}
pub const STEPS: usize = 12_000;
