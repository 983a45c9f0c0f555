//! The fixed-shape 40-sample SPD.
use crate::ctx::*;
use colorspace::spd::*;
use colorspace::xyz::XYZf32;

pub const STEPS: usize = 60_000;

struct Weights([Vec<f64>; 3]);
fn weights() -> Weights {
    let g = crate::tables::golden();
    Weights([g["spd::W_X"].clone(), g["spd::W_Y"].clone(), g["spd::W_Z"].clone()])
}
thread_local! { static W: Weights = weights(); }

type Path = (&'static str, fn(&SPD) -> XYZf32);
fn method(s: &SPD) -> XYZf32 {
    s.to_xyz()
}
fn free(s: &SPD) -> XYZf32 {
    spd_to_xyz(s)
}
fn paths() -> Vec<Path> {
    #[allow(unused_mut)]
    let mut v: Vec<Path> = vec![("to_xyz", method), ("spd_to_xyz", free), ("spd_to_xyz_scalar", spd_to_xyz_scalar)];
    #[cfg(target_feature = "avx")]
    v.push(("spd_to_xyz_avx", spd_to_xyz_avx));
    v
}

fn judge(ctx: &mut Ctx, cat: &str, vals: &[f32; 40]) {
    let key = hash_f64s(&vals.iter().map(|v| *v as f64).collect::<Vec<_>>());
    ctx.observe(cat, key, vals.iter().any(|v| *v != 0.0));
    let spd = SPD::new(*vals);
    ctx.check("new", spd.values == *vals || vals.iter().any(|v| v.is_nan()), || format!("SPD::new({:?}) holds {:?}", vals, spd.values));
    let mut want = [0.0f64; 3];
    let mut mag = [0.0f64; 3];
    W.with(|w| {
        for c in 0..3 {
            for i in 0..40 {
                let p = w.0[c][i] * vals[i] as f64;
                want[c] += p;
                mag[c] += p.abs();
            }
        }
    });
    for (name, f) in paths() {
        if let Some(x) = ctx.call(name, || format!("{}({:?})", name, vals), || f(&spd)) {
            let got = [x.x as f64, x.y as f64, x.z as f64];
            for c in 0..3 {
                // products that underflow f32 are below resolution
                let tol = 4e-6 * mag[c] + 1e-36;
                if mag[c] > 1e-30 && mag[c] < 1e36 {
                    ctx.measure("worst relative error (of sum |w*v|)", (got[c] - want[c]).abs() / mag[c]);
                }
                if mag[c] < 1e36 {
                    ctx.close(name, got[c], want[c], tol, || format!("{} of {:?}, component {}", name, vals, c));
                }
            }
        }
    }
}

pub fn fixed(ctx: &mut Ctx) {
    // every sample on its own, several magnitudes and signs
    for i in 0..40 {
        for &v in &[1.0f32, -1.0, 1e-6, 1e6, 0.3333333, 100.0] {
            let mut a = [0.0f32; 40];
            a[i] = v;
            judge(ctx, "impulse", &a);
            let mut b = [0.5f32; 40];
            b[i] = v;
            judge(ctx, "impulse on pedestal", &b);
        }
        for j in 0..40 {
            let mut a = [0.0f32; 40];
            a[i] = 1.0;
            a[j] = 2.0;
            judge(ctx, "pair of impulses", &a);
        }
    }
    for (name, spd) in BABELCOLOR.iter() {
        let _ = name;
        judge(ctx, "colour checker", &spd.values);
    }
    judge(ctx, "zero", &[0.0; 40]);
    // the perfect diffuser
    let one = SPD::constant(1.0);
    for (name, f) in paths() {
        let y = f(&one);
        ctx.close("diffuser", y.y as f64, 100.0, 0.02, || format!("{} of the constant spectrum 1: Y", name));
    }
    // linearity of the whole: a ramp
    for k in 0..200 {
        let mut a = [0.0f32; 40];
        for i in 0..40 {
            a[i] = ((i * 7 + k * 13) % 41) as f32 / 41.0;
        }
        judge(ctx, "ramp", &a);
    }
}

pub fn step(ctx: &mut Ctx) {
    let mut a = [0.0f32; 40];
    let cat = match ctx.rng.below(6) {
        0 => {
            for v in a.iter_mut() {
                *v = ctx.rng.unit() as f32;
            }
            "reflectance"
        }
        1 => {
            let s = ctx.rng.logu(-10.0, 10.0);
            for v in a.iter_mut() {
                *v = (ctx.rng.uni(-1.0, 1.0) * s) as f32;
            }
            "signed, any scale"
        }
        2 => {
            for v in a.iter_mut() {
                *v = ctx.channel() as f32;
            }
            "mixed values"
        }
        3 => {
            let k = ctx.rng.range(1, 5);
            for _ in 0..k {
                let i = ctx.rng.below(40);
                a[i] = ctx.channel() as f32;
            }
            "sparse"
        }
        4 => {
            // one sample dominates
            for v in a.iter_mut() {
                *v = ctx.rng.unit() as f32;
            }
            let i = ctx.rng.below(40);
            a[i] *= ctx.rng.logu(1.0, 5.0) as f32;
            "one dominates"
        }
        _ => {
            let v = ctx.channel() as f32;
            a = [v; 40];
            "constant"
        }
    };
    judge(ctx, cat, &a);

    // the rest of the interface
    let v = ctx.channel() as f32;
    let c = SPD::constant(v);
    ctx.check("constant", c.values.iter().all(|x| x.to_bits() == v.to_bits()), || format!("SPD::constant({}) = {:?}", v, c.values));
    let mut b = [0.0f32; 40];
    for x in b.iter_mut() {
        *x = ctx.channel() as f32;
    }
    let (sa, sb) = (SPD::new(a), SPD::new(b));
    let p = &sa * &sb;
    for i in 0..40 {
        ctx.check("mul", p.values[i] == a[i] * b[i], || format!("product[{}] of {} and {} = {}", i, a[i], b[i], p.values[i]));
    }
    // a spectrum with itself, and with an equal one
    for (w, p) in [("itself", &sa * &sa), ("its copy", &sa * &sa.clone())] {
        for i in 0..40 {
            ctx.check("mul", p.values[i] == a[i] * a[i], || format!("product with {}: [{}] of {} = {}", w, i, a[i], p.values[i]));
        }
    }
    let mut odd = b;
    odd[ctx.rng.below(40)] = *ctx.rng.pick(&[f32::NAN, f32::INFINITY, -0.0, 0.0, 1.0, f32::NEG_INFINITY]);
    let so = SPD::new(odd);
    let p = &so * &sa;
    let same = |x: f32, y: f32| x == y || (x.is_nan() && y.is_nan());
    ctx.check("mul", (0..40).all(|i| same(p.values[i], odd[i] * a[i])), || format!("product of {:?} and {:?} = {:?}", odd, a, p.values));
    ctx.check("eq", (so == so) == odd.iter().all(|x| !x.is_nan()) && (so == SPD::new(odd)) == (so == so), || format!("{:?} and itself", odd));
    ctx.check("mul-inputs", sa.values == a && sb.values == b, || "product changed its operands".into());
    // iteration
    ctx.check("iter", sb.iter().count() == 40 && sb.iter().zip(b.iter()).all(|(x, y)| x == y), || format!("iter() of {:?}", b));
    let mut m = sb.clone();
    let mut n = 0;
    for (i, x) in m.iter_mut().enumerate() {
        *x = i as f32 * 3.0;
        n += 1;
    }
    ctx.check("iter_mut", n == 40 && m.values.iter().enumerate().all(|(i, x)| *x == i as f32 * 3.0), || format!("iter_mut() wrote {:?}", m.values));
    // equality: all samples count
    let i = ctx.rng.below(40);
    let mut d = b;
    d[i] = if ctx.rng.chance(1, 2) { f32::from_bits(d[i].to_bits() ^ 1) } else { d[i] + 1.0 };
    let sd = SPD::new(d);
    let same = d[i] == b[i];
    ctx.check("eq", (sb == sd) == same && (sd == sb) == same, || format!("spectra that differ in sample {} ({} / {}): equality says {}", i, b[i], d[i], sb == sd));
    ctx.check("eq-self", sb == sb.clone(), || format!("clone of {:?} is not equal", b));
    let mut e = b;
    e[i] = f32::NAN;
    let se = SPD::new(e);
    ctx.check("eq-nan", se != sb && sb != se, || format!("sample {} NaN compares equal", i));
}
