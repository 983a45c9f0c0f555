//! 3x3 matrices.
use crate::common::*;
use crate::ctx::*;
use crate::refm::*;
use colorspace::math::{M3f32, M3f64, Matrix33, Real};
use std::panic::AssertUnwindSafe;

fn u<T: Real>() -> f64 {
    if is32::<T>() {
        f32::EPSILON as f64
    } else {
        f64::EPSILON
    }
}

/// matrices with structure: zero patterns, permutations, affine, scaled, nearly singular
fn matrix<T: Real>(ctx: &mut Ctx) -> M3 {
    let mut m = [[0.0; 3]; 3];
    let style = ctx.rng.below(8);
    for r in m.iter_mut() {
        for x in r.iter_mut() {
            *x = match style {
                0 => ctx.rng.range(0, 8) as f64 - 4.0,
                1 => *ctx.rng.pick(&[0.0, 1.0, -1.0, 0.0, 2.0]),
                2 => ctx.channel(),
                3 => ctx.rng.uni(-1.0, 1.0),
                4 => ctx.rng.logu(-2.0, 2.0) * if ctx.rng.chance(1, 2) { -1.0 } else { 1.0 },
                _ => ctx.rng.uni(-3.0, 3.0),
            };
        }
    }
    // zero pattern
    if ctx.rng.chance(1, 2) {
        let mask = ctx.rng.below(512);
        for i in 0..9 {
            if mask >> i & 1 == 1 {
                m[i / 3][i % 3] = 0.0;
            }
        }
    }
    match ctx.rng.below(14) {
        0 => {
            for i in 0..3 {
                m[i][2] = if i == 2 { 1.0 } else { 0.0 };
            }
        }
        1 => {
            for j in 0..3 {
                m[2][j] = if j == 2 { 1.0 } else { 0.0 };
            }
        }
        2 => {
            // diagonally dominant, rows then permuted so that every pivot moves
            for i in 0..3 {
                m[i][i] += if m[i][i] < 0.0 { -4.0 } else { 4.0 };
            }
            let mut idx = [0, 1, 2];
            ctx.rng.shuffle(&mut idx);
            m = [m[idx[0]], m[idx[1]], m[idx[2]]];
        }
        3 => {
            // a leading 2x2 block that cancels under elimination
            let f = ctx.rng.range(1, 3) as f64;
            m[1][0] = f * m[0][0];
            m[1][1] = f * m[0][1];
        }
        4 => {
            m[0][0] = 0.0;
        }
        5 => {
            m[0][0] = 0.0;
            m[1][1] = 0.0;
            m[2][2] = 0.0;
        }
        6 => {
            // entries of exactly one / zero in the affine positions, singly
            let k = ctx.rng.below(3);
            m[k][2] = if k == 2 { 1.0 } else { 0.0 };
        }
        7 => {
            // rotation
            let a = ctx.rng.uni(0.0, 6.28);
            let (s, c) = (a.sin(), a.cos());
            let k = ctx.rng.below(3);
            m = ident();
            let (i, j) = ((k + 1) % 3, (k + 2) % 3);
            m[i][i] = c;
            m[i][j] = -s;
            m[j][i] = s;
            m[j][j] = c;
        }
        8 => {
            // unit determinant neighbourhood, either sign
            let d = det(&m).abs();
            if d > 1e-6 {
                let s = (1.0 / d).cbrt() * ctx.rng.uni(0.9, 1.1);
                for r in m.iter_mut() {
                    for x in r.iter_mut() {
                        *x *= s;
                    }
                }
            }
        }
        _ => {}
    }
    if ctx.rng.chance(1, 4) {
        let s = if is32::<T>() { ctx.rng.logu(-7.0, 7.0) } else { ctx.rng.logu(-60.0, 60.0) };
        for r in m.iter_mut() {
            for x in r.iter_mut() {
                *x *= s;
            }
        }
    }
    let f: Vec<f64> = flat(&m).iter().map(|x| q::<T>(*x)).collect();
    let mut a = [0.0; 9];
    a.copy_from_slice(&f);
    mat(&a)
}

fn perm_abs(m: &M3) -> f64 {
    let a = |i: usize, j: usize| m[i][j].abs();
    a(0, 0) * (a(1, 1) * a(2, 2) + a(1, 2) * a(2, 1)) + a(0, 1) * (a(1, 0) * a(2, 2) + a(1, 2) * a(2, 0)) + a(0, 2) * (a(1, 0) * a(2, 1) + a(1, 1) * a(2, 0))
}
fn permcof_norm(m: &M3) -> f64 {
    let mut best: f64 = 0.0;
    for i in 0..3 {
        let mut s = 0.0;
        for j in 0..3 {
            let (r1, r2, c1, c2) = ((i + 1) % 3, (i + 2) % 3, (j + 1) % 3, (j + 2) % 3);
            s += (m[r1][c1] * m[r2][c2]).abs() + (m[r1][c2] * m[r2][c1]).abs();
        }
        best = best.max(s);
    }
    best * 3.0
}

fn inverses<T: Real + 'static>(ctx: &mut Ctx, m: &M3) {
    let mt = m33::<T>(m);
    let t = tname::<T>();
    let dt = det(m);
    let ri = inv(m);
    let (gj, cr) = match (
        ctx.call("gj_inverse", || format!("{} {:?}", t, m), || mt.gj_inverse()),
        ctx.call("inverse", || format!("{} {:?}", t, m), || mt.inverse()),
    ) {
        (Some(a), Some(b)) => (a, b),
        _ => return,
    };
    if let (Some(ri), true) = (ri, dt != 0.0) {
        let k = inf_norm(m) * inf_norm(&ri);
        let p = perm_abs(m) / dt.abs();
        let c = inf_norm(m) * permcof_norm(m) / dt.abs();
        let tol = 64.0 * u::<T>() * (1.0 + p + k) * (k + c);
        let well = k < if is32::<T>() { 300.0 } else { 1e5 } && tol < 2e-2;
        if well {
            for (name, r) in [("gj_inverse", gj), ("inverse", cr)] {
                ctx.checks += 1;
                match r {
                    None => ctx.violate(&format!("{}:none", name), format!("{} {}: no result for the invertible {:?} (condition {:e})", t, name, m, k)),
                    Some(r) => {
                        let r = unm(&r);
                        for (side, p) in [("M*inv", mm(m, &r)), ("inv*M", mm(&r, m))] {
                            for i in 0..3 {
                                for j in 0..3 {
                                    let want = if i == j { 1.0 } else { 0.0 };
                                    ctx.close(name, p[i][j], want, tol, || format!("{} {} of {:?} = {:?}: {}[{}][{}]", t, name, m, r, side, i, j));
                                }
                            }
                        }
                    }
                }
            }
            let pattern = flat(m).iter().enumerate().fold(0u64, |a, (i, x)| a | ((*x == 0.0) as u64) << i | ((*x < 0.0) as u64) << (9 + i));
            ctx.observe(&format!("inverse-{}", t), pattern ^ hash_f64s(&flat(m)), true);
            let zp = flat(m).iter().enumerate().fold(0u64, |a, (i, x)| a | ((*x == 0.0) as u64) << i);
            ctx.note_set(&format!("zero patterns inverted ({})", t), zp);
        } else {
            ctx.observe("ill-conditioned-skipped", 0, false);
        }
    }
}

fn singular<T: Real + 'static>(ctx: &mut Ctx) {
    // small integers: every product and sum is exact
    let mut m = [[0.0; 3]; 3];
    for r in m.iter_mut() {
        for x in r.iter_mut() {
            *x = ctx.rng.range(0, 16) as f64 - 8.0;
        }
    }
    let kind = ctx.rng.below(5);
    match kind {
        0 => {
            let k = ctx.rng.below(3);
            m[k] = [0.0; 3];
        }
        1 => {
            let k = ctx.rng.below(3);
            for r in m.iter_mut() {
                r[k] = 0.0;
            }
        }
        2 => {
            let k = ctx.rng.below(3);
            let f = *ctx.rng.pick(&[1.0, -1.0, 2.0, -2.0, 0.5, 4.0]);
            let src = m[(k + 1) % 3];
            m[k] = [src[0] * f, src[1] * f, src[2] * f];
        }
        3 => {
            // a combination of the other two
            let k = ctx.rng.below(3);
            let (f, g) = (ctx.rng.range(0, 4) as f64 - 2.0, ctx.rng.range(0, 4) as f64 - 2.0);
            let (a, b) = (m[(k + 1) % 3], m[(k + 2) % 3]);
            m[k] = [f * a[0] + g * b[0], f * a[1] + g * b[1], f * a[2] + g * b[2]];
        }
        _ => {
            // the affine layout with a singular block
            for i in 0..3 {
                m[i][2] = if i == 2 { 1.0 } else { 0.0 };
            }
            let f = ctx.rng.range(0, 4) as f64 - 2.0;
            m[1][0] = f * m[0][0];
            m[1][1] = f * m[0][1];
        }
    }
    if det(&m) != 0.0 {
        return;
    }
    let mt = m33::<T>(&m);
    let t = tname::<T>();
    if let Some(r) = ctx.call("inverse", || format!("{} {:?}", t, m), || mt.inverse()) {
        ctx.check("inverse:singular", r.is_none(), || format!("{} inverse() of the singular {:?} gave {:?}", t, m, r));
    }
    let gj = ctx.call("gj_inverse", || format!("{} {:?}", t, m), || mt.gj_inverse());
    if let (Some(r), true) = (gj, kind <= 2) {
        ctx.check("gj_inverse:singular", r.is_none(), || format!("{} gj_inverse() of the singular {:?} gave {:?}", t, m, r));
    }
    let dd = d(mt.determinant());
    ctx.check("determinant:singular", dd == 0.0, || format!("{} determinant of {:?} = {}", t, m, dd));
    ctx.observe(&format!("singular-{}", t), hash_f64s(&flat(&m)), true);
}

fn algebra<T: Real + Models + 'static>(ctx: &mut Ctx, a: &M3, b: &M3)
where
    Matrix33<T>: std::ops::Mul<colorspace::xyz::XYZ<T>, Output = colorspace::xyz::XYZ<T>> + std::ops::Mul<colorspace::rgb::RGBf<T>, Output = colorspace::rgb::RGBf<T>>,
{
    let t = tname::<T>();
    let e = 8.0 * u::<T>();
    let tiny = if is32::<T>() { 1e-36 } else { 1e-300 };
    let (ma, mb) = (m33::<T>(a), m33::<T>(b));
    let p = unm(&(ma * mb));
    let (w, s) = (mm(a, b), mm_abs(a, b));
    for i in 0..3 {
        for j in 0..3 {
            ctx.close("product", p[i][j], w[i][j], e * s[i][j] + tiny, || format!("{} {:?} * {:?} [{}][{}]", t, a, b, i, j));
            ctx.check("index", d(ma[i][j]) == a[i][j], || format!("{} {:?}[{}][{}] = {:?}", t, a, i, j, ma[i][j]));
            ctx.check("transposed", d(ma.transposed()[j][i]) == a[i][j], || format!("{} transpose of {:?}: [{}][{}] = {:?}", t, a, j, i, ma.transposed()[j][i]));
            // writing one element changes that element only
            let mut mc = ma;
            mc[i][j] = c(7.25);
            let want: Vec<f64> = (0..9).map(|k| if k == 3 * i + j { 7.25 } else { a[k / 3][k % 3] }).collect();
            ctx.check("index_mut", (0..9).all(|k| d(mc.x[k]) == want[k]), || format!("{} writing [{}][{}] of {:?} gave {:?}", t, i, j, a, mc));
        }
    }
    // associativity/commutation with identity
    let id = Matrix33::<T>::make_identity();
    ctx.check("identity", unm(&id) == ident(), || format!("{:?}", id));
    ctx.check("identity:product", unm(&(ma * id)) == *a && unm(&(id * ma)) == *a, || format!("{} identity * {:?}", t, a));
    let dd = d(ma.determinant());
    ctx.close("determinant", dd, det(a), e * perm_abs(a) + tiny, || format!("{} determinant of {:?}", t, a));
    let k = q::<T>(ctx.channel());
    let kt = c::<T>(k);
    let (add, sub, mul, div, neg) = (ma + kt, ma - kt, ma * kt, ma / kt, -ma);
    for i in 0..9 {
        let v: T = ma.x[i];
        let ok = |x: T, y: T| x == y || (x.is_nan() && y.is_nan());
        let near = |x: T, y: T| ok(x, y) || (d(x) - d(y)).abs() <= 2.0 * u::<T>() * d(y).abs() + tiny;
        ctx.check("scalar+", ok(add.x[i], v + kt), || format!("{} {:?} + {}", t, a, k));
        ctx.check("scalar-", ok(sub.x[i], v - kt), || format!("{} {:?} - {}", t, a, k));
        ctx.check("scalar*", ok(mul.x[i], v * kt), || format!("{} {:?} * {}", t, a, k));
        ctx.check("scalar/", near(div.x[i], v / kt), || format!("{} {:?} / {}", t, a, k));
        ctx.check("neg", ok(neg.x[i], -v), || format!("{} -{:?}", t, a));
    }
    let v = q3::<T>(ctx.color());
    let (gx, gr) = (unxyz(ma * xyz::<T>(v)), unrgb(ma * rgb::<T>(v)));
    let (w, s) = (mv(a, v), mv_abs(a, v));
    for i in 0..3 {
        ctx.close("matrix*XYZ", gx[i], w[i], e * s[i] + tiny, || format!("{} {:?} * XYZ {:?} component {}", t, a, v, i));
        ctx.close("matrix*RGB", gr[i], w[i], e * s[i] + tiny, || format!("{} {:?} * RGB {:?} component {}", t, a, v, i));
    }
    ctx.check("eq", ma == ma && (ma == mb) == (a == b), || format!("{} equality of {:?} and {:?}", t, a, b));
    ctx.observe(&format!("algebra-{}", t), hash_f64s(&flat(a)) ^ hash_f64s(&flat(b)).rotate_left(9), true);
}

fn narrowing(ctx: &mut Ctx, a: &M3) {
    let m: M3f32 = M3f64::new(flat(a)).into();
    for i in 0..9 {
        ctx.check("f64->f32", m.x[i].to_bits() == (flat(a)[i] as f32).to_bits(), || format!("{:?} narrowed to {:?}", a, m));
    }
}

pub fn fixed(ctx: &mut Ctx) {
    // every zero pattern of a generic matrix and of a 0/1 matrix, with sign flips
    let g = [[1.7, -2.3, 0.9], [3.1, 1.3, -1.9], [-0.7, 2.9, 2.1]];
    for mask in 0..512usize {
        for base in 0..3 {
            let mut m = [[0.0; 3]; 3];
            for k in 0..9 {
                if mask >> k & 1 == 1 {
                    m[k / 3][k % 3] = match base {
                        0 => 1.0,
                        1 => g[k / 3][k % 3],
                        _ => -g[k % 3][k / 3] * 0.25,
                    };
                }
            }
            inverses::<f64>(ctx, &m);
            let f: Vec<f64> = flat(&m).iter().map(|x| *x as f32 as f64).collect();
            let mut a = [0.0; 9];
            a.copy_from_slice(&f);
            inverses::<f32>(ctx, &mat(&a));
        }
    }
    // scaled permutations: exact
    for p in [[0usize, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]] {
        for s in [[2.0, -0.5, 4.0], [1e-3, 1.0, 1e3], [1.0, 1.0, 1.0], [0.5, 0.5, 1.0]] {
            let mut m = [[0.0; 3]; 3];
            for i in 0..3 {
                m[i][p[i]] = s[i];
            }
            inverses::<f64>(ctx, &m);
            for r in [m33::<f64>(&m).gj_inverse(), m33::<f64>(&m).inverse()] {
                let ok = match r {
                    Some(r) => (0..3).all(|i| (0..3).all(|j| (d(r[i][j]) - if p[j] == i { 1.0 / s[j] } else { 0.0 }).abs() <= 1e-14 * (1.0 / s[j]).abs())),
                    None => false,
                };
                ctx.check("permutation", ok, || format!("inverse of {:?} is {:?}", m, r));
            }
        }
    }
    for bad in [3usize, 4, 100] {
        let m = M3f64::make_identity();
        ctx.must_panic("index:range", || format!("matrix row {}", bad), || m[bad][0]);
        let mut m = M3f64::make_identity();
        ctx.must_panic("index_mut:range", || format!("matrix row {}", bad), AssertUnwindSafe(|| m[bad][0] = 1.0));
    }
}
pub fn step(ctx: &mut Ctx) {
    let m = matrix::<f64>(ctx);
    inverses::<f64>(ctx, &m);
    let b = matrix::<f64>(ctx);
    let small = |m: &M3| flat(m).iter().all(|x| x.abs() < 1e50 && (*x == 0.0 || x.abs() > 1e-50));
    if small(&m) && small(&b) {
        algebra::<f64>(ctx, &m, &b);
        narrowing(ctx, &m);
    }
    let m = matrix::<f32>(ctx);
    inverses::<f32>(ctx, &m);
    let b = matrix::<f32>(ctx);
    algebra::<f32>(ctx, &m, &b);
    singular::<f64>(ctx);
    singular::<f32>(ctx);
    ctx.sample(|| format!("{:?}", m));
}
pub const STEPS: usize = 100_000;
