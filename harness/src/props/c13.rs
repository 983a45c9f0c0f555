//! Resampling.
use crate::ctx::*;
use crate::refm::*;
use crate::spectra::*;
use colorspace::interpolation::*;
use colorspace::vspd::{SpdShape, VSPD};

fn scale(s: &[(f64, f64)]) -> f64 {
    s.iter().map(|p| p.1.abs()).fold(1e-300, f64::max)
}
fn reference(s: &[(f64, f64)]) -> Sprague {
    let (x, y): (Vec<f64>, Vec<f64>) = s.iter().copied().unzip();
    Sprague::new(&x, &y)
}
fn kind(v: &VSPD) -> &'static str {
    match v.interval() {
        colorspace::vspd::Interval::Varying => "varying",
        _ => "uniform",
    }
}

fn compare(ctx: &mut Ctx, sig: &str, got: &VSPD, nms: &[f64], f: &dyn Fn(f64) -> f64, tol: f64, desc: &dyn Fn() -> String) {
    let g = samples(got);
    let same = g.len() == nms.len() && g.iter().zip(nms).all(|(a, b)| (a.0 - b).abs() < 1e-9);
    ctx.check(&format!("{}:grid", sig), same, || {
        format!("{}: {} samples {:?}..{:?}, expected {} from {:?} to {:?}", desc(), g.len(), g.first(), g.last(), nms.len(), nms.first(), nms.last())
    });
    if same {
        for p in &g {
            let w = f(p.0);
            if !ctx.close(&format!("{}:value", sig), p.1, w, tol, || format!("{} at {} nm", desc(), p.0)) {
                break;
            }
        }
    }
}

fn resample(ctx: &mut Ctx) {
    let (v, s, _) = ctx.spectrum(2, 250);
    let (lo, hi) = (s[0].0, s[s.len() - 1].0);
    let r = reference(&s);
    let tol = 2e-11 * scale(&s);
    let g = match ctx.rng.below(4) {
        // far wider, inside, arbitrary
        0 => ctx.grid_at((lo - 100.0).max(1.0), hi + 100.0, 2, 300),
        1 => {
            let mut g = ctx.grid_at(lo, hi, 2, 60);
            if g.start < lo || g.start > hi {
                let k = lo.ceil() - g.start;
                g.start += k;
                g.end += k;
            }
            g
        }
        2 => {
            // same start as the spectrum
            let mut g = ctx.grid_at(lo, hi, 2, 300);
            let k = lo - g.start;
            g.start += k;
            g.end += k;
            if ((g.end - g.start) / g.step).fract() < 1e-6 || ((g.end - g.start) / g.step).fract() > 1.0 - 1e-6 {
                // keep the count unambiguous
                g.end = g.start + (g.n as f64 - 0.5) * g.step;
            }
            g
        }
        _ => ctx.grid(2, 300),
    };
    let desc = || format!("{} onto ({}, {}, {})", brief(&s), g.start, g.end, g.step);
    // align: exactly the requested grid
    let nms: Vec<f64> = (0..((g.end - g.start) / g.step + 1e-9) as usize + 1).map(|i| g.start + i as f64 * g.step).collect();
    if let Some(a) = ctx.call("align", desc, || v.align(g.shape())) {
        compare(ctx, "align", &a, &nms, &|x| r.eval_ext(x), tol, &desc);
        let cls = (g.start < lo) as u64 | ((g.end > hi) as u64) << 1 | ((s.len() < 6) as u64) << 2 | ((kind(&v) == "varying") as u64) << 3;
        ctx.note_set("relations of the target range to the source", cls);
        ctx.observe(&format!("align-{}", kind(&v)), hash_f64s(&[g.start, g.end, g.step, lo, hi, s.len() as f64, s[0].1]), true);
    }
    // interpolate: the overlap
    let (a, b) = (g.start.max(lo), g.end.min(hi));
    if a < b {
        let q = (b - a) / g.step;
        // the number of steps must not hinge on rounding
        let clear = (q - q.round()).abs() > 1e-6 || (a * 1024.0).fract() == 0.0 && (b * 1024.0).fract() == 0.0 && (g.step * 1024.0).fract() == 0.0;
        if clear {
            let nms: Vec<f64> = (0..q as usize + 1).map(|i| a + i as f64 * g.step).collect();
            if let Some(i) = ctx.call("interpolate", desc, || v.interpolate(g.shape())) {
                compare(ctx, "interpolate", &i, &nms, &|x| r.eval_ext(x), tol, &desc);
                ctx.observe(&format!("interpolate-{}", kind(&v)), hash_f64s(&[g.start, g.end, g.step, lo, hi, s.len() as f64, s[0].1]), true);
            }
        }
    }
    ctx.sample(desc);
}

fn interpolators(ctx: &mut Ctx) {
    let (v, s, uniform) = ctx.spectrum(2, 120);
    let r = reference(&s);
    let m = scale(&s);
    let desc = || brief(&s);
    let n = s.len();
    let sp = match ctx.call("sprague", desc, || InterpolatorSprague::<f64>::new(&v)) {
        Some(i) => i,
        None => return,
    };
    let li = InterpolatorLinear::new(&v);
    let ex = ExtrapolatorConstant::new(&v);
    for _ in 0..6 {
        let k = ctx.rng.below(n - 1);
        let t = match ctx.rng.below(5) {
            0 => 0.0,
            1 => 1.0,
            2 => 0.5,
            _ => ctx.rng.unit(),
        };
        let x = if t == 1.0 { s[k + 1].0 } else { s[k].0 + t * (s[k + 1].0 - s[k].0) };
        if let Some(g) = ctx.call("sprague", || format!("{} at {}", desc(), x), || sp.evaluate(x)) {
            ctx.close("sprague", g, r.eval(x), 2e-11 * m, || format!("{} at {}", desc(), x));
            if t == 0.0 || t == 1.0 {
                let w = s[if t == 1.0 { k + 1 } else { k }].1;
                ctx.close("sprague:node", g, w, 2e-12 * m * 20.0, || format!("{} at its sample {}", desc(), x));
            }
        }
        if let Some(g) = ctx.call("linear", || format!("{} at {}", desc(), x), || li.evaluate(x)) {
            let w = if t == 1.0 { s[k + 1].1 } else { s[k].1 + (x - s[k].0) / (s[k + 1].0 - s[k].0) * (s[k + 1].1 - s[k].1) };
            ctx.close("linear", g, w, 1e-12 * m, || format!("{} at {}", desc(), x));
        }
        ctx.observe("interpolators", hash_f64s(&[x, s[0].0, s[n - 1].0, s[k].1]), true);
    }
    let d = ctx.rng.logu(-9.0, 3.0);
    for (x, w) in [(s[0].0 - d, s[0].1), (s[n - 1].0 + d, s[n - 1].1), (s[0].0, s[0].1), (s[n - 1].0, s[n - 1].1)] {
        let g = li.evaluate(x);
        ctx.check("linear:outside", g == w || (g - w).abs() <= 1e-12 * m, || format!("{} linear at {} = {}", desc(), x, g));
        if x < s[0].0 || x > s[n - 1].0 {
            let g = ex.evaluate(x);
            ctx.check("constant:outside", g == w, || format!("{} extrapolated at {} = {}", desc(), x, g));
        }
    }
    // constants and straight lines are reproduced
    if uniform {
        let (a, b) = (ctx.rng.uni(-2.0, 2.0), ctx.rng.uni(-0.02, 0.02));
        let line: VSPD = s.iter().map(|p| (p.0, a + b * (p.0 - s[0].0))).collect();
        let flat: VSPD = s.iter().map(|p| (p.0, a)).collect();
        let (il, ic) = (InterpolatorSprague::<f64>::new(&line), InterpolatorSprague::<f64>::new(&flat));
        for _ in 0..4 {
            let x = ctx.rng.uni(s[0].0, s[n - 1].0);
            let amp = a.abs() + (b * (s[n - 1].0 - s[0].0)).abs();
            ctx.close("sprague:line", il.evaluate(x), a + b * (x - s[0].0), 1e-9 * amp.max(1e-3), || format!("line {} + {} d over {} samples at {}", a, b, n, x));
            ctx.close("sprague:constant", ic.evaluate(x), a, 1e-10 * a.abs().max(1e-3), || format!("constant {} over {} samples at {}", a, n, x));
        }
        ctx.observe("lines", hash_f64s(&[a, b, n as f64]), true);
    }
}

fn extrapolate(ctx: &mut Ctx) {
    let (v, s, uniform) = ctx.spectrum(2, 120);
    let (lo, hi) = (s[0].0, s[s.len() - 1].0);
    let h = if uniform { s[1].0 - s[0].0 } else { *ctx.rng.pick(&[1.0, 5.0, 10.0, 2.5]) };
    let (a, b) = match ctx.rng.below(5) {
        0 => (lo, hi + ctx.rng.uni(0.1, 20.0) * h),
        1 => (lo - ctx.rng.uni(0.1, 20.0) * h, hi),
        2 => (lo + 1.0, hi - 1.0),
        3 => (lo - ctx.rng.range(1, 10) as f64 * h, hi + ctx.rng.range(1, 10) as f64 * h),
        _ => (lo - ctx.rng.uni(0.1, 20.0) * h, hi + ctx.rng.uni(0.1, 20.0) * h),
    };
    let desc = || format!("{} extrapolated to ({}, {})", brief(&s), a, b);
    let given = *ctx.rng.pick(&[1.0, 5.0, 10.0, 7.0]);
    let shape = SpdShape::new(a, b, if uniform { given } else { h });
    let r = match ctx.call("extrapolate", desc, || v.extrapolate(shape)) {
        Some(r) => samples(&r),
        None => return,
    };
    let k = match r.iter().position(|p| p.0 == lo) {
        Some(k) => k,
        None => {
            ctx.violate("extrapolate:lost", format!("{}: first sample is gone", desc()));
            return;
        }
    };
    let kept = r.len() >= k + s.len() && r[k..k + s.len()] == s[..];
    ctx.check("extrapolate:kept", kept, || format!("{}: original samples changed: {}", desc(), brief(&r)));
    if kept {
        ctx.check("extrapolate:before", r[..k].iter().all(|p| p.1 == s[0].1), || format!("{}: samples before the start are not its value: {}", desc(), brief(&r)));
        ctx.check("extrapolate:after", r[k + s.len()..].iter().all(|p| p.1 == s[s.len() - 1].1), || format!("{}: samples after the end are not its value: {}", desc(), brief(&r)));
        ctx.check("extrapolate:order", r.windows(2).all(|w| w[1].0 > w[0].0), || format!("{}: not increasing: {}", desc(), brief(&r)));
        let (s0, e0) = (lo.min(a), hi.max(b));
        let (f, l) = (r[0].0, r[r.len() - 1].0);
        ctx.check("extrapolate:reach", (f - s0).abs() < 1e-9 && l <= e0 + 1e-9 && l > e0 - h * (1.0 + 1e-9) - 1e-9, || {
            format!("{}: runs from {} to {}, expected {} to within {} of {}", desc(), f, l, s0, h, e0)
        });
        // no holes: consecutive added samples are at most one interval apart
        let added = r[..(k + 1).min(r.len())].windows(2).chain(r[k + s.len() - 1..].windows(2)).all(|w| w[1].0 - w[0].0 <= h * (1.0 + 1e-9) + 1e-9);
        ctx.check("extrapolate:holes", added, || format!("{}: gap wider than {}: {}", desc(), h, brief(&r)));
    }
    ctx.observe(&format!("extrapolate-{}", kind(&v)), hash_f64s(&[a, b, lo, hi, s.len() as f64]), k > 0 || r.len() > s.len());
}

/// A uniform spectrum extended along its own grid stays on it.
fn extrapolate_along(ctx: &mut Ctx) {
    let h = *ctx.rng.pick(&[0.1, 0.2, 0.3, 0.5, 0.7, 1.0, 1.1, 2.3, 2.5, 5.0, 10.0]);
    let n = ctx.rng.range(2, 400);
    let lo = *ctx.rng.pick(&[360.0, 380.0, 400.5, 413.7]);
    let v = VSPD::from_values(SpdShape::new(lo, lo + (n - 1) as f64 * h, h), &vec![0.5; n]);
    let h = match v.interval() {
        colorspace::vspd::Interval::Uniform(h) if v.len() == n => h,
        _ => return,
    };
    let (k, m) = (ctx.rng.below(300), ctx.rng.below(300));
    let shape = SpdShape::new(lo - k as f64 * h, v.end() + m as f64 * h, h);
    let desc = || format!("{} samples from {} at {} nm extended by {} before and {} after", n, lo, h, k, m);
    if let Some(r) = ctx.call("extrapolate", desc, || v.extrapolate(shape)) {
        let r = samples(&r);
        ctx.check("extrapolate:along", r.len() == n + k + m, || format!("{}: {} samples, expected {}", desc(), r.len(), n + k + m));
        let near = r.iter().enumerate().all(|(i, p)| (p.0 - (lo + (i as f64 - k as f64) * h)).abs() < 1e-6 && p.1 == 0.5);
        ctx.check("extrapolate:along", near, || format!("{}: off the grid", desc()));
        ctx.observe("extrapolate-along", hash_f64s(&[lo, h, n as f64, k as f64, m as f64]), k + m > 0);
    }
}

fn trim(ctx: &mut Ctx) {
    let (v, s, _) = ctx.spectrum(2, 250);
    let n = s.len();
    let i = ctx.rng.below(n);
    let j = ctx.rng.range(i, n - 1);
    // on a sample, just inside, just outside
    let mut off = || match ctx.rng.below(4) {
        0 => 0.0,
        1 => 1e-7,
        2 => -1e-7,
        _ => ctx.rng.uni(-0.05, 0.05),
    };
    let (a, b) = (s[i].0 + off(), s[j].0 + off());
    let want: Vec<(f64, f64)> = s.iter().copied().filter(|p| p.0 >= a && p.0 <= b).collect();
    if want.is_empty() {
        return;
    }
    let desc = || format!("{} trimmed to ({}, {})", brief(&s), a, b);
    let step = *ctx.rng.pick(&[1.0, 5.0, 10.0]);
    if let Some(r) = ctx.call("trim", desc, || v.trim(SpdShape::new(a, b, step))) {
        let g = samples(&r);
        ctx.check("trim", g == want, || format!("{}: kept {}, expected {}", desc(), brief(&g), brief(&want)));
        ctx.observe(&format!("trim-{}", kind(&v)), hash_f64s(&[a, b, n as f64, s[0].0]), want.len() < n);
    }
}

fn cmf(ctx: &mut Ctx) {
    use colorspace::cmf::CIE_1931_2_DEGREE as C;
    let g = ctx.grid(2, 300);
    let a = C.align(g.shape());
    for (l, got, src) in [("x", &a.x_bar, &C.x_bar), ("y", &a.y_bar, &C.y_bar), ("z", &a.z_bar, &C.z_bar)] {
        let s = samples(src);
        let r = reference(&s);
        compare(ctx, "cmf.align", got, &g.nms(), &|x| r.eval_ext(x), 1e-11, &|| format!("{}_bar onto ({}, {}, {})", l, g.start, g.end, g.step));
    }
    let sh = a.shape();
    ctx.check("cmf.shape", sh.start == g.start && (sh.end - g.nm(g.n - 1)).abs() < 1e-9, || format!("{}", sh));
    ctx.observe("cmf", hash_f64s(&[g.start, g.end, g.step]), true);
}

/// the published coefficients, through the public trait, in both precisions
fn coefficients(ctx: &mut Ctx) {
    use colorspace::interpolation::SpragueCoefficients as S;
    let (_, v) = ctx.values(10);
    let m = v.iter().fold(1e-300, |m: f64, x| m.max(x.abs()));
    if !(m < 1e30) {
        return;
    }
    let f: Vec<f32> = v.iter().map(|x| *x as f32).collect();
    for i in 2..7 {
        let d = <f64 as S>::coeff_a(&v, i);
        let e = <f32 as S>::coeff_a(&f, i);
        let r = Sprague { xs: vec![], y: v.clone() };
        for t in [0.0, 0.125, 0.5, 0.875, 1.0] {
            let w = r.seg(i - 2, t);
            let p = |c: &dyn Fn(usize) -> f64| (0..6).map(|k| c(k) * (t as f64).powi(k as i32)).sum::<f64>();
            ctx.close("coeff_a:f64", p(&|k| d[k]), w, 1e-13 * m, || format!("samples {:?} at {} + {}", v, i, t));
            ctx.close("coeff_a:f32", p(&|k| e[k] as f64), w, 2e-5 * m, || format!("samples {:?} at {} + {}", v, i, t));
        }
    }
    let want = [[884.0, -1960.0, 3033.0, -2648.0, 1080.0, -180.0], [508.0, -540.0, 488.0, -367.0, 144.0, -24.0], [-24.0, 144.0, -367.0, 488.0, -540.0, 508.0], [-180.0, 1080.0, -2648.0, 3033.0, -1960.0, 884.0]];
    let d = [<f64 as S>::coeff_c0(), <f64 as S>::coeff_c1(), <f64 as S>::coeff_c2(), <f64 as S>::coeff_c3()];
    let e = [<f32 as S>::coeff_c0(), <f32 as S>::coeff_c1(), <f32 as S>::coeff_c2(), <f32 as S>::coeff_c3()].map(|r| r.map(|x| x as f64));
    ctx.check("boundary coefficients", d == want && e == want, || format!("{:?} {:?}", d, e));
    ctx.observe("coefficients", hash_f64s(&v), true);
}

pub fn fixed(ctx: &mut Ctx) {
    // every number of samples from 2 up, resampled to every sub-interval
    for n in 2..=14usize {
        for h in [1.0, 5.0, 10.0, 20.0] {
            let v: Vec<f64> = (0..n).map(|i| ((i * 7 + 3) % 5) as f64 * 0.25 + 0.1).collect();
            let end = 400.0 + (n - 1) as f64 * h;
            let spd = VSPD::from_values(SpdShape::new(400.0, end, h), &v);
            let s = samples(&spd);
            let r = reference(&s);
            for step in [0.25, 0.5, 1.0, 2.5, 5.0, 10.0] {
                let nms = grid(400.0, end, step);
                let desc = || format!("{} samples at {} nm to {} nm", n, h, step);
                if let Some(g) = ctx.call("interpolate", desc, || spd.interpolate(SpdShape::new(300.0, 900.0, step))) {
                    compare(ctx, "interpolate", &g, &nms, &|x| r.eval(x), 1e-11, &desc);
                }
                let nms = grid(360.0, end + 60.0, step);
                if let Some(g) = ctx.call("align", desc, || spd.align(SpdShape::new(360.0, end + 60.0, step))) {
                    compare(ctx, "align", &g, &nms, &|x| r.eval_ext(x), 1e-11, &desc);
                }
                ctx.observe("small", (n * 1000) as u64 + h as u64 * 40 + (step * 4.0) as u64, true);
            }
        }
    }
}
pub fn step(ctx: &mut Ctx) {
    if ctx.rng.chance(1, 10) {
        coefficients(ctx);
    }
    resample(ctx);
    interpolators(ctx);
    extrapolate(ctx);
    extrapolate_along(ctx);
    trim(ctx);
    if ctx.rng.chance(1, 60) {
        cmf(ctx);
    }
}
pub const STEPS: usize = 6_000;
