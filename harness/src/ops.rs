//! Every public computation as a function from numbers to bits, so that
//! executions can be logged and compared.
use crate::common::*;
use crate::rng::Rng;
use colorspace::chromatic_adaptation::*;
use colorspace::chromaticity::XYY;
use colorspace::cmf::{CIE_1931_2_DEGREE, CMF};
use colorspace::color_space_rgb::{decode, encode, ColorSpaceRGB};
use colorspace::illuminant::{spd, xy};
use colorspace::interpolation::*;
use colorspace::lab::*;
use colorspace::math::{M3f32, M3f64, Matrix33};
use colorspace::photometry::spd_to_nit;
use colorspace::rgb::*;
use colorspace::spd::SPD;
use colorspace::transform::*;
use colorspace::uplifting::uplift_my;
use colorspace::vspd::{lagrange_coefficients_astm_e2022, linspace, Sample, SpdShape, VSPD};
use colorspace::xyz::XYZ;

pub type Bits = Vec<u64>;

pub struct Op {
    pub name: &'static str,
    pub gen: fn(&mut Rng) -> Vec<f64>,
    pub run: fn(&[f64]) -> Bits,
    /// arguments from this index on may be perturbed one at a time
    pub free: usize,
}

fn b(v: f64) -> u64 {
    if v.is_nan() {
        0x7ff8_0000_0000_0000
    } else {
        v.to_bits()
    }
}
fn r3(c: [f64; 3]) -> Bits {
    c.iter().map(|x| b(*x)).collect()
}
fn mb(m: [f64; 9]) -> Bits {
    m.iter().map(|x| b(*x)).collect()
}
fn m64(m: &M3f64) -> Bits {
    mb(m.x)
}
fn m32(m: &M3f32) -> Bits {
    m.x.iter().map(|x| b(*x as f64)).collect()
}
fn vb(v: &VSPD) -> Bits {
    let mut o = vec![b(v.start()), b(v.end()), v.len() as u64, crate::ctx::hash_str(&format!("{}", v.interval()))];
    for s in v.samples() {
        o.push(b(s.nm));
        o.push(b(s.v));
    }
    o
}

thread_local!(static PLACE: std::cell::Cell<usize> = const { std::cell::Cell::new(0) });
/// Where in memory the arguments of the calls that follow lie, relative to a
/// cache line. The results must not depend on it.
pub fn place(k: usize) {
    PLACE.with(|p| p.set(k % 16));
}
/// A copy of `v` at the place that was asked for.
struct Placed<T: Copy> {
    buf: Vec<T>,
    off: usize,
    len: usize,
}
impl<T: Copy> Placed<T> {
    fn new(v: &[T]) -> Placed<T> {
        if v.is_empty() {
            return Placed { buf: vec![], off: 0, len: 0 };
        }
        let want = PLACE.with(|p| p.get());
        let mut buf: Vec<T> = Vec::with_capacity(v.len() + 32);
        let (base, size, align) = (buf.as_ptr() as usize, std::mem::size_of::<T>(), std::mem::align_of::<T>());
        let line = 64 / align.min(64);
        let off = (0..16).find(|o| (base + o * size) / align % line == want % line).unwrap_or(want);
        buf.resize(off, v[0]);
        buf.extend_from_slice(v);
        Placed { buf, off, len: v.len() }
    }
}
impl<T: Copy> std::ops::Deref for Placed<T> {
    type Target = [T];
    fn deref(&self) -> &[T] {
        &self.buf[self.off..self.off + self.len]
    }
}
/// A fixed-shape spectrum at the place that was asked for.
fn with_spd<R>(v: &[f64], f: impl FnOnce(&SPD) -> R) -> R {
    let mut w = [0.0f32; 40];
    for i in 0..40 {
        w[i] = v[i] as f32;
    }
    let s = SPD::new(w);
    if std::mem::size_of::<SPD>() == 160 && std::mem::align_of::<SPD>() <= 4 {
        let p = Placed::new(&s.values);
        // SAFETY: the size of the 40 values, and valid for every bit pattern
        f(unsafe { &*(p[..40].as_ptr() as *const SPD) })
    } else {
        f(&s)
    }
}

fn g3(r: &mut Rng) -> Vec<f64> {
    (0..3).map(|_| r.uni(0.0, 1.2)).collect()
}
fn gxyz(r: &mut Rng) -> Vec<f64> {
    (0..3).map(|_| r.uni(1.0, 110.0)).collect()
}
fn gxyz_w(r: &mut Rng) -> Vec<f64> {
    vec![r.uni(1.0, 100.0), r.uni(1.0, 100.0), r.uni(1.0, 100.0), r.uni(90.0, 99.0), r.uni(95.0, 100.0), r.uni(80.0, 110.0)]
}
fn glab2(r: &mut Rng) -> Vec<f64> {
    vec![r.uni(0.0, 100.0), r.uni(-90.0, 90.0), r.uni(-90.0, 90.0), r.uni(0.0, 100.0), r.uni(-90.0, 90.0), r.uni(-90.0, 90.0)]
}
fn gwhites(r: &mut Rng) -> Vec<f64> {
    vec![r.uni(0.28, 0.4), r.uni(0.3, 0.4), 1.0, r.uni(0.28, 0.4), r.uni(0.3, 0.4), 1.0]
}
fn g9(r: &mut Rng) -> Vec<f64> {
    (0..9).map(|_| r.uni(-2.0, 3.0)).collect()
}
fn gmodel_rgb(r: &mut Rng) -> Vec<f64> {
    let mut v = vec![r.below(9) as f64, r.below(9) as f64];
    v.extend(g3(r));
    v
}
fn gmodel_xyz(r: &mut Rng) -> Vec<f64> {
    let mut v = vec![r.below(9) as f64, r.uni(0.28, 0.4), r.uni(0.3, 0.4)];
    v.extend(gxyz(r));
    v
}
fn gspace(r: &mut Rng) -> Vec<f64> {
    vec![
        0.64 + r.uni(-0.05, 0.05), 0.33 + r.uni(-0.05, 0.05), 0.3 + r.uni(-0.05, 0.05), 0.6 + r.uni(-0.05, 0.05), 0.15 + r.uni(-0.05, 0.05),
        0.06 + r.uni(0.0, 0.05), 0.31 + r.uni(-0.02, 0.03), 0.33 + r.uni(-0.02, 0.03),
    ]
}
const GRIDS: &[(f64, f64, f64)] = &[(360.0, 780.0, 10.0), (380.0, 780.0, 5.0), (400.0, 700.0, 1.0), (380.0, 730.0, 10.0), (390.0, 720.0, 2.5), (380.0, 730.0, 7.0), (365.0, 775.0, 10.0)];
fn gvalues(r: &mut Rng) -> Vec<f64> {
    let k = r.below(GRIDS.len());
    let (a, e, h) = GRIDS[k];
    let n = ((e - a) / h) as usize + 1;
    let mut v = vec![k as f64, r.below(4) as f64, r.below(GRIDS.len()) as f64];
    v.extend((0..n).map(|_| r.unit()));
    v
}
fn gvarying(r: &mut Rng) -> Vec<f64> {
    let mut v = vec![];
    let mut x = 350.0 + r.uni(0.0, 40.0).round();
    let n = r.range(8, 60);
    for _ in 0..n {
        v.push(x);
        v.push(r.unit());
        x += r.uni(2.0, 12.0).round();
    }
    v
}
fn mk(a: &[f64]) -> VSPD {
    let (s, e, h) = GRIDS[a[0] as usize % GRIDS.len()];
    VSPD::from_values(SpdShape::new(s, e, h), &a[3..])
}
fn mkv(a: &[f64]) -> VSPD {
    VSPD::new(a.chunks_exact(2).map(|p| Sample::new(p[0], p[1])).collect())
}
fn illum(k: f64) -> &'static VSPD {
    match k as usize % 4 {
        0 => &spd::D50,
        1 => &spd::D55,
        2 => &spd::D60,
        _ => &spd::D65,
    }
}
fn shape(k: f64) -> SpdShape<f64> {
    let (a, e, h) = GRIDS[k as usize % GRIDS.len()];
    SpdShape::new(a, e, h)
}
fn gspd(r: &mut Rng) -> Vec<f64> {
    (0..40).map(|_| r.unit()).collect()
}
fn gpixels(r: &mut Rng) -> Vec<f64> {
    let n = r.range(1, 33);
    let mut v = vec![r.below(9) as f64, r.below(9) as f64];
    v.extend((0..3 * n).map(|_| r.uni(0.0, 1.0)));
    v
}
fn space_of(a: &[f64]) -> ColorSpaceRGB<f64> {
    ColorSpaceRGB::<f64>::new(xyy(a[0], a[1], 1.0), xyy(a[2], a[3], 1.0), xyy(a[4], a[5], 1.0), xyy(a[6], a[7], 1.0), Box::new(encode::srgb), Box::new(decode::srgb))
}

/// An observer on one of several grids; the built-in one scaled, or permuted
fn other_cmf(k: f64, s: &[f64]) -> CMF {
    let c = &*CIE_1931_2_DEGREE;
    match k as usize % 5 {
        0 => CMF { x_bar: &c.x_bar * s[0], y_bar: &c.y_bar * s[1], z_bar: &c.z_bar * s[2] },
        1 => CMF { x_bar: c.z_bar.clone(), y_bar: &c.x_bar * s[1], z_bar: c.y_bar.clone() },
        k => {
            let g = SpdShape::new(380.0, 770.0, [5.0, 10.0, 1.0][k - 2]);
            let f = |j: usize| {
                let v: Vec<f64> = (0..g.iter().count()).map(|i| s[(i / 7 + j) % 3]).collect();
                VSPD::from_values(g, &v)
            };
            CMF { x_bar: f(0), y_bar: f(1), z_bar: f(2) }
        }
    }
}

fn unv(v: XYZ<f64>) -> Bits {
    r3(unxyz(v))
}

pub fn ops() -> Vec<Op> {
    macro_rules! op {
        ($n:literal, $g:expr, $f:expr, $r:expr) => {
            Op { name: $n, gen: $g, run: $r, free: $f }
        };
    }
    #[allow(unused_mut)]
    let mut v = vec![
        op!("encode f64", gmodel_rgb, 2, |a| r3(unrgb(models64()[a[0] as usize].1.encode(rgb::<f64>([a[2], a[3], a[4]]))))),
        op!("decode f64", gmodel_rgb, 2, |a| r3(unrgb(models64()[a[0] as usize].1.decode(rgb::<f64>([a[2], a[3], a[4]]))))),
        op!("encode f32", gmodel_rgb, 2, |a| r3(unrgb(models32()[a[0] as usize].1.encode(rgb::<f32>([a[2], a[3], a[4]]))))),
        op!("decode f32", gmodel_rgb, 2, |a| r3(unrgb(models32()[a[0] as usize].1.decode(rgb::<f32>([a[2], a[3], a[4]]))))),
        op!("transfer scalars", g3, 0, |a| {
            let mut o = vec![];
            for x in a {
                o.extend([
                    encode::srgb_t(*x), encode::bt709_t(*x), encode::bt2020_t(*x), encode::linear_t(*x), encode::alexa_logc_v3_t(*x), decode::srgb_t(*x),
                    decode::bt709_t(*x), decode::bt2020_t(*x), decode::linear_t(*x), decode::alexa_logc_v3_t(*x),
                ].map(b));
            }
            o
        }),
        op!("rgb_to_rgb_matrix f64", gmodel_rgb, 2, |a| m64(&rgb_to_rgb_matrix(models64()[a[0] as usize].1, models64()[a[1] as usize].1))),
        op!("rgb_to_rgb_matrix f32", gmodel_rgb, 2, |a| m32(&rgb_to_rgb_matrix(models32()[a[0] as usize].1, models32()[a[1] as usize].1))),
        op!("xyz_to_rgb f64", gmodel_xyz, 1, |a| {
            let m = xyz_to_rgb_matrix(xyy::<f64>(a[1], a[2], 1.0), models64()[a[0] as usize].1);
            r3(unrgb(xyz_to_rgb(&m, xyz::<f64>([a[3], a[4], a[5]]))))
        }),
        op!("xyz_to_rgb f32", gmodel_xyz, 1, |a| {
            let m = xyz_to_rgb_matrix(xyy::<f32>(a[1], a[2], 1.0), models32()[a[0] as usize].1);
            r3(unrgb(xyz_to_rgb(&m, xyz::<f32>([a[3], a[4], a[5]]))))
        }),
        op!("rgb_to_xyz f64", gmodel_xyz, 1, |a| {
            let m = rgb_to_xyz_matrix(xyy::<f64>(a[1], a[2], 1.0), models64()[a[0] as usize].1);
            unv(rgb_to_xyz(&m, rgb::<f64>([a[3] / 100.0, a[4] / 100.0, a[5] / 100.0])))
        }),
        op!("derived space", gspace, 0, |a| {
            let s = space_of(a);
            let mut o = m64(&s.xf_rgb_to_xyz);
            o.extend(m64(&s.xf_xyz_to_rgb));
            o.extend(m64(&rgb_to_rgb_matrix(&s, models64()[0].1)));
            o.extend(m64(&xyz_to_rgb_matrix(xy::D50, &s)));
            o
        }),
        op!("rgb_to_rgb u8", gpixels, 2, |a| {
            let px: Vec<RGBf64> = a[2..].chunks_exact(3).map(|p| RGBf64::new(p[0], p[1], p[2])).collect();
            let mut out = vec![rgbu8(1, 2, 3); px.len() + 1];
            let n = rgb_to_rgb(models64()[a[0] as usize].1, models64()[a[1] as usize].1, &Placed::new(&px), &mut out);
            let mut o = vec![n as u64];
            o.extend(out.iter().map(|p| (p.r as u64) << 16 | (p.g as u64) << 8 | p.b as u64));
            o
        }),
        op!("rgb_to_rgb f32", gpixels, 2, |a| {
            let px: Vec<RGBf32> = a[2..].chunks_exact(3).map(|p| RGBf32::new(p[0] as f32, p[1] as f32, p[2] as f32)).collect();
            let mut out = vec![RGBf32::new(0.0, 0.0, 0.0); px.len()];
            let n = rgb_to_rgb(models32()[a[0] as usize].1, models32()[a[1] as usize].1, &Placed::new(&px), &mut out);
            let mut o = vec![n as u64];
            o.extend(out.iter().flat_map(|p| r3(unrgb(*p))));
            o
        }),
        op!("xyz_slice_to_rgb", gpixels, 2, |a| {
            let m = xyz_to_rgb_matrix(xy::D65, models64()[a[0] as usize].1);
            let px: Vec<XYZ<f64>> = a[2..].chunks_exact(3).map(|p| xyz::<f64>([p[0] * 100.0, p[1] * 100.0, p[2] * 100.0])).collect();
            xyz_slice_to_rgb(&m, &Placed::new(&px)).iter().flat_map(|p| r3(unrgb(*p))).collect()
        }),
        op!("bradford", gwhites, 0, |a| m64(&bradford::<f64, _, _>(xyy::<f64>(a[0], a[1], a[2]), xyy::<f64>(a[3], a[4], a[5])))),
        op!("von_kries", gwhites, 0, |a| m64(&von_kries::<f64, _, _>(xyy::<f64>(a[0], a[1], a[2]), xyy::<f64>(a[3], a[4], a[5])))),
        op!("cat02", gwhites, 0, |a| m64(&cat02::<f64, _, _>(xyy::<f64>(a[0], a[1], a[2]), xyy::<f64>(a[3], a[4], a[5])))),
        op!("cat02 f32", gwhites, 0, |a| m32(&cat02::<f32, _, _>(xyy::<f32>(a[0], a[1], a[2]), xyy::<f32>(a[3], a[4], a[5])))),
        op!("matrix", g9, 0, |a| {
            let m = Matrix33::new([a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8]]);
            let mut o = vec![b(m.determinant())];
            o.extend(m64(&m.transposed()));
            o.extend(m.inverse().map(|i| m64(&i)).unwrap_or_default());
            o.extend(m.gj_inverse().map(|i| m64(&i)).unwrap_or_default());
            o.extend(m64(&(m * m.transposed())));
            o
        }),
        op!("xyz_to_lab", gxyz_w, 0, |a| {
            let l: Lab<f64> = xyz_to_lab(xyz::<f64>([a[0], a[1], a[2]]), xyz::<f64>([a[3], a[4], a[5]]));
            let mut o = r3([l.L, l.a, l.b]);
            o.extend(unv(lab_to_xyz::<f64, _, _>(l, xyz::<f64>([a[3], a[4], a[5]]))));
            o
        }),
        op!("xyz_to_lab f32", gxyz_w, 0, |a| {
            let l: Lab<f32> = xyz_to_lab(xyz::<f32>([a[0], a[1], a[2]]), xyz::<f32>([a[3], a[4], a[5]]));
            r3([l.L as f64, l.a as f64, l.b as f64])
        }),
        op!("lab_to_xyz", glab2, 0, |a| unv(lab_to_xyz::<f64, _, _>(lab(a[0], a[1], a[2]), XYZ::from_chromaticity(xy::D50)))),
        op!("delta E", glab2, 0, |a| {
            let (p, q) = (lab(a[0], a[1], a[2]), lab(a[3], a[4], a[5]));
            vec![b(delta_E_1976(p, q)), b(delta_E_2000(p, q)), b(delta_E_2000(q, p))]
        }),
        op!("delta E f32", glab2, 0, |a| {
            let (p, q) = (lab(a[0] as f32, a[1] as f32, a[2] as f32), lab(a[3] as f32, a[4] as f32, a[5] as f32));
            vec![b(delta_E_1976(p, q) as f64), b(delta_E_2000(p, q) as f64)]
        }),
        op!("xyY", gxyz, 0, |a| {
            let c = XYY::from_xyz(xyz::<f64>([a[0], a[1], a[2]]));
            let mut o = r3([c.x, c.y, c.Y]);
            o.extend(unv(XYZ::from_chromaticity(c)));
            o.extend(unv(xyz::<f64>([a[0], a[1], a[2]]).normalized()));
            o
        }),
        op!("cct", |r| vec![r.uni(3500.0, 26000.0)], 0, |a| xy::cct(a[0]).map(|p| r3([p.x, p.y, p.Y])).unwrap_or(vec![0])),
        op!("cct f32", |r| vec![r.uni(3500.0, 26000.0)], 0, |a| xy::cct(a[0] as f32).map(|p| r3([p.x as f64, p.y as f64, p.Y as f64])).unwrap_or(vec![0])),
        op!("to_xyz", gvalues, 3, |a| unv(mk(a).to_xyz(illum(a[1]), &CIE_1931_2_DEGREE))),
        op!("to_xyz varying", gvarying, usize::MAX, |a| unv(mkv(a).to_xyz(&spd::D65, &CIE_1931_2_DEGREE))),
        op!("to_xyz other illuminant", gvalues, 3, |a| {
            let i = mk(a) * 2.0;
            let r = VSPD::constant(SpdShape::new(380.0, 730.0, 10.0), 0.5);
            unv(r.to_xyz(&i, &CIE_1931_2_DEGREE))
        }),
        op!("interpolate", gvalues, 3, |a| vb(&mk(a).interpolate(shape(a[2])))),
        op!("align", gvalues, 3, |a| vb(&mk(a).align(shape(a[2])))),
        op!("extrapolate", gvalues, 3, |a| vb(&mk(a).extrapolate(shape(a[2])))),
        op!("trim", gvalues, 3, |a| vb(&mk(a).trim(SpdShape::new(420.0, 640.0, 1.0)))),
        op!("vspd new", gvarying, usize::MAX, |a| vb(&mkv(a))),
        op!("interpolators", gvalues, 3, |a| {
            let v = mk(a);
            let (s, l, e) = (InterpolatorSprague::<f64>::new(&v), InterpolatorLinear::new(&v), ExtrapolatorConstant::new(&v));
            [401.3, 555.5, 610.0, 699.9].iter().flat_map(|x| vec![b(s.evaluate(*x)), b(l.evaluate(*x)), b(e.evaluate(*x + 500.0))]).collect()
        }),
        op!("vspd scaling", gvalues, 3, |a| {
            let v = mk(a);
            let mut o = vb(&(v.clone() * a[3]));
            o.extend(vb(&(v / 3.0)));
            o
        }),
        op!("spd_to_nit", gvalues, 3, |a| vec![b(spd_to_nit(&mk(a), &CIE_1931_2_DEGREE))]),
        op!("spd_to_nit other observer", gvalues, 3, |a| {
            let v = mk(a);
            let c = CMF { x_bar: v.clone(), y_bar: v.clone(), z_bar: v.clone() };
            vec![b(spd_to_nit(illum(a[1]), &c))]
        }),
        op!("cmf align", gvalues, 3, |a| {
            let c = CIE_1931_2_DEGREE.align(shape(a[2]));
            let mut o = vb(&c.x_bar);
            o.extend(vb(&c.y_bar));
            o.extend(vb(&c.z_bar));
            o
        }),
        op!("uplift_my", g3, 0, |a| vb(&uplift_my(RGBf64::new(a[0], a[1], a[2])))),
        op!("SPD", gspd, 0, |a| {
            with_spd(a, |s| {
                let x = s.to_xyz();
                let y = colorspace::spd::spd_to_xyz_scalar(s);
                let p = with_spd(a, |t| s * t);
                let mut o = r3([x.x as f64, x.y as f64, x.z as f64]);
                o.extend(r3([y.x as f64, y.y as f64, y.z as f64]));
                o.extend(p.values.iter().map(|x| b(*x as f64)));
                o
            })
        }),
        op!("linspace", |r| vec![r.uni(-5.0, 5.0), r.uni(-5.0, 5.0), r.below(40) as f64], usize::MAX, |a| linspace(a[0], a[1], a[2] as usize).map(b).collect()),
        op!("lagrange", |r| vec![r.range(2, 20) as f64, r.range(3, 4) as f64], usize::MAX, |a| {
            lagrange_coefficients_astm_e2022(a[0], a[1] as usize).into_iter().flatten().map(b).collect()
        }),
        op!("rgb arithmetic", g3, 0, |a| {
            let c = RGBf64::new(a[0], a[1], a[2]);
            let d = c * c + c / (c + RGBf64::from_scalar(1.0)) - c.powf(1.5);
            let mut o = r3(unrgb(d));
            o.push(b(hmax(c)));
            o.extend(r3(unrgb(normalize(c))));
            o.extend(r3(unrgb(clamprgb(c, 0.1, 0.9))));
            let s: RGBf64 = [c, d, c].iter().copied().sum();
            o.extend(r3(unrgb(s)));
            o.push(crate::ctx::hash_str(&format!("{}", c)));
            o
        }),
        op!("quantise", g3, 0, |a| {
            let c = RGBf64::new(a[0], a[1], a[2]);
            let (p, q) = (RGBu8::from(c), RGBu16::from(c));
            vec![p.r as u64, p.g as u64, p.b as u64, q.r as u64, q.g as u64, q.b as u64]
        }),
    ];
    v.extend([
        // an observer that is not the built-in one, on the built-in observer's grid
        op!("to_xyz other observer", |r| { let mut v = vec![r.below(4) as f64, r.below(3) as f64, r.below(5) as f64]; v.extend((0..43).map(|_| r.unit())); v }, 3, |a| {
            let c = other_cmf(a[2], &a[3..6]);
            let refl = VSPD::from_values(SpdShape::new(380.0, 770.0, 10.0), &a[6..46]);
            let i = if a[1] == 2.0 { VSPD::constant(SpdShape::new(360.0, 780.0, 5.0), a[3]) } else { illum(a[0]).clone() };
            let mut o = unv(refl.to_xyz(&i, &c));
            o.extend(unv(refl.to_xyz(illum(a[0]), &CIE_1931_2_DEGREE)));
            o
        }),
        // observers of the same shape at the same address, then changed in place
        op!("cmf align other", |r| { let mut v = vec![r.below(2) as f64, r.below(2) as f64, r.below(GRIDS.len()) as f64]; v.extend((0..8).map(|_| r.unit())); v }, 3, |a| {
            let g = SpdShape::new(380.0, 720.0, if a[0] == 0.0 { 10.0 } else { 5.0 });
            let f = |k: usize| VSPD::from_values(g, &(0..g.iter().count()).map(|i| a[3 + (i + k) % 8]).collect::<Vec<_>>());
            let mut c = CMF { x_bar: f(0), y_bar: f(1), z_bar: f(2) };
            let mut o = vec![];
            for k in 0..3 {
                let d = c.align(shape(a[2]));
                o.extend(vb(&d.x_bar));
                o.extend(vb(&d.y_bar));
                o.extend(vb(&d.z_bar));
                c.x_bar = f(k + 3);
                c.z_bar = c.z_bar * 0.5;
            }
            o.push(crate::ctx::hash_str(&format!("{}", c.shape().interval)));
            o
        }),
        op!("spd_to_nit changed observer", |r| (0..40).map(|_| r.unit()).collect(), 0, |a| {
            let mut c = CIE_1931_2_DEGREE.clone();
            let v = VSPD::from_values(SpdShape::new(380.0, 770.0, 10.0), a);
            let mut o = vec![b(spd_to_nit(&v, &c))];
            c.y_bar = VSPD::from_values(SpdShape::new(390.0, 740.0, 50.0), &a[..8]);
            o.push(b(spd_to_nit(&v, &c)));
            c.y_bar = c.y_bar * 2.0;
            o.push(b(spd_to_nit(&v, &c)));
            o
        }),
        op!("changed space", gspace, 0, |a| {
            let mut s = space_of(a);
            let mut o = m64(&rgb_to_rgb_matrix(&s, models64()[2].1));
            s.white = xyy(a[6] + 0.01, a[7] - 0.01, 1.0);
            o.extend(m64(&rgb_to_rgb_matrix(&s, models64()[2].1)));
            o.extend(m64(&rgb_to_rgb_matrix(models64()[2].1, &s)));
            o.extend(m64(&xyz_to_rgb_matrix(xy::D65, &s)));
            s.xf_xyz_to_rgb = s.xf_xyz_to_rgb * 2.0;
            s.xf_rgb_to_xyz = s.xf_rgb_to_xyz * 0.5;
            o.extend(m64(&xyz_to_rgb_matrix(xy::D65, &s)));
            o.extend(m64(&rgb_to_xyz_matrix(xy::D65, &s)));
            o.extend(r3(unrgb(s.encode(rgb::<f64>([a[0], a[1], a[2]])))));
            o.extend(r3(unrgb(s.decode(rgb::<f64>([a[0], a[1], a[2]])))));
            o
        }),
        op!("xyz_to_rgb_matrix_with_cat", gmodel_xyz, 1, |a| {
            let c = cat02::<f64, _, _>(xyy::<f64>(a[1], a[2], 1.0), xy::D65);
            m64(&xyz_to_rgb_matrix_with_cat(&c, models64()[a[0] as usize].1))
        }),
        op!("rgb_to_rgb f64", gpixels, 2, |a| {
            let px: Vec<RGBf64> = a[2..].chunks_exact(3).map(|p| RGBf64::new(p[0], p[1], p[2])).collect();
            let mut out = vec![RGBf64::new(0.0, 0.0, 0.0); px.len()];
            let n = rgb_to_rgb(models64()[a[0] as usize].1, models64()[a[1] as usize].1, &Placed::new(&px), &mut out);
            let mut o = vec![n as u64];
            o.extend(out.iter().flat_map(|p| r3(unrgb(*p))));
            let mut q = vec![RGBu16::default(); px.len()];
            rgb_to_rgb(models64()[a[1] as usize].1, models64()[a[0] as usize].1, &px, &mut q);
            o.extend(q.iter().map(|p| (p.r as u64) << 32 | (p.g as u64) << 16 | p.b as u64));
            o
        }),
        op!("xyz_slice_to_rgb f32", gpixels, 2, |a| {
            let m = xyz_to_rgb_matrix(xyy::<f32>(0.3127, 0.329, 1.0), models32()[a[0] as usize].1);
            let px: Vec<XYZ<f32>> = a[2..].chunks_exact(3).map(|p| xyz::<f32>([p[0] * 100.0, p[1] * 100.0, p[2] * 100.0])).collect();
            xyz_slice_to_rgb(&m, &Placed::new(&px)).iter().flat_map(|p| r3(unrgb(*p))).collect()
        }),
        op!("SPD constant", |r| vec![r.unit(), r.unit()], 0, |a| {
            let (s, mut t) = (SPD::constant(a[0] as f32), SPD::constant(a[1] as f32));
            for v in t.iter_mut().step_by(3) {
                *v *= 0.5;
            }
            let p = &s * &t;
            let mut o: Bits = s.values.iter().chain(&t.values).chain(&p.values).map(|x| b(*x as f64)).collect();
            o.push((s == t) as u64 | ((s == s.clone()) as u64) << 1);
            o.push(b(s.iter().zip(t.iter()).map(|(x, y)| (x - y) as f64).sum()));
            o
        }),
        op!("SPD text scalars", gspd, 0, |a| {
            let mut v = [0.0f32; 40];
            for i in 0..40 {
                v[i] = a[i] as f32;
            }
            let s = SPD::new(v);
            vec![crate::ctx::hash_str(&format!("{}", s)), crate::ctx::hash_str(&format!("{:?}", s))]
        }),
        op!("VSPD constructors", gvalues, 3, |a| {
            let v = mk(a);
            let c = VSPD::constant(shape(a[2]), a[3]);
            let w: VSPD = v.iter().copied().collect();
            let x: VSPD = v.wavelengths().zip(v.values()).collect();
            let mut o = vb(&c);
            o.extend(vb(&w));
            o.extend(vb(&x));
            let s = v.shape();
            o.push(crate::ctx::hash_str(&format!("{}", s.interval)));
            o.extend([b(s.start), b(s.end), b(v.first().v), b(v.last().v), v.is_empty() as u64, (v == w) as u64 | ((c == v) as u64) << 1]);
            o
        }),
        op!("VSPD text scalars", gvalues, 3, |a| {
            let v = mk(a);
            vec![crate::ctx::hash_str(&format!("{}", v)), crate::ctx::hash_str(&format!("{:?}", v)), crate::ctx::hash_str(&format!("{:?}", v.first()))]
        }),
        op!("trim varying", gvarying, usize::MAX, |a| {
            let v = mkv(a);
            let mut o = vb(&v.trim(SpdShape::new(400.0, 500.0, 1.0)));
            o.extend(vb(&(&v * 3.0)));
            o.extend(vb(&(&v / 3.0)));
            o.extend(vb(&v.extrapolate(SpdShape::new(300.0, 900.0, 10.0))));
            o.extend(vb(&v.interpolate(SpdShape::new(400.0, 440.0, 5.0))));
            o
        }),
        op!("linear interpolator varying", gvarying, usize::MAX, |a| {
            let v = mkv(a);
            let (l, e) = (InterpolatorLinear::new(&v), ExtrapolatorConstant::new(&v));
            (0..20).flat_map(|k| { let x = v.start() + (v.end() - v.start()) * k as f64 / 20.0; vec![b(l.evaluate(x)), b(e.evaluate(x - 300.0)), b(e.evaluate(x + 900.0))] }).collect()
        }),
        op!("shape iteration", |r| vec![300.0 + r.below(100) as f64, 600.0 + r.below(100) as f64, *r.pick(&[1.0, 2.5, 0.1, 7.0, 10.0])], usize::MAX, |a| {
            let s = SpdShape::new(a[0], a[1], a[2]);
            let mut n = 0u64;
            let mut o: Bits = s.iter().inspect(|_| n += 1).step_by(7).map(b).collect();
            o.push(n);
            let t = SpdShape::<f64>::astm_e308();
            o.extend([b(t.start), b(t.end), crate::ctx::hash_str(&format!("{}", t.interval))]);
            o
        }),
        op!("f32 adaptation", gwhites, 0, |a| {
            let (p, q) = (xyy::<f32>(a[0], a[1], a[2]), xyy::<f32>(a[3], a[4], a[5]));
            let mut o = m32(&bradford::<f32, _, _>(p, q));
            o.extend(m32(&von_kries::<f32, _, _>(p, q)));
            o
        }),
        op!("lab f32", glab2, 0, |a| {
            let x: XYZ<f32> = lab_to_xyz(lab(a[0] as f32, a[1] as f32, a[2] as f32), xyz::<f32>([96.4, 100.0, 82.5]));
            r3([x.x as f64, x.y as f64, x.z as f64])
        }),
        op!("transfer f32 scalars", g3, 0, |a| {
            let mut o = vec![];
            for x in a {
                let x = *x as f32;
                o.extend([
                    encode::srgb_t(x), encode::bt709_t(x), encode::bt2020_t(x), encode::linear_t(x), encode::alexa_logc_v3_t(x), decode::srgb_t(x),
                    decode::bt709_t(x), decode::bt2020_t(x), decode::linear_t(x), decode::alexa_logc_v3_t(x),
                ].map(|v| b(v as f64)));
            }
            o
        }),
        op!("xyz arithmetic", gxyz, 0, |a| {
            let c = xyz::<f64>([a[0], a[1], a[2]]);
            let e = c * c / (c + XYZ::from_scalar(1.0)) - c * 0.25 + (-c) / 3.0;
            let mut f = e + 1.0;
            f += c;
            f[1] = f[0] - f[2];
            let mut o = unv(f - 0.5);
            o.extend(unv(c.normalized()));
            o.extend(unv(c.normalized_y()));
            o.extend(unv((-c).abs()));
            o.extend(unv(XYZ::from_xy(a[0] / 300.0, a[1] / 100.0)));
            let s: XYZ<f32> = [c, e, f].iter().map(|v| XYZ::<f32>::from(*v)).sum();
            o.extend(r3([s.x as f64, s.y as f64, s.z as f64]));
            o.push(crate::ctx::hash_str(&format!("{}", c)));
            o
        }),
        op!("rgb arithmetic f32", g3, 0, |a| {
            let c = RGBf32::new(a[0] as f32, a[1] as f32, a[2] as f32);
            let mut d = c * c + c / (c + RGBf32::from_scalar(1.0)) - c.powf(1.5) * 2.0 + (-c).abs() / 3.0;
            d += c;
            d[2] = d[0] + 0.5;
            let mut o = r3(unrgb(d + 1.0 - c));
            o.push(b(hmax(c) as f64));
            o.extend(r3(unrgb(normalize(c))));
            o.extend(r3(unrgb(clamprgb(d, 0.1, 0.9))));
            o.extend(r3(unrgb([c, d, c].iter().copied().sum::<RGBf32>())));
            o.extend(r3(unrgb(RGBf32::from(RGBf64::new(a[0], a[1], a[2])))));
            o
        }),
        op!("cast_slice", gspd, 0, |a| {
            let v: Vec<f32> = a[..39].iter().map(|x| *x as f32).collect();
            let u: Vec<u8> = a[..39].iter().map(|x| (*x * 200.0) as u8).collect();
            let mut o: Bits = RGBf32::cast_slice(&Placed::new(&v)).iter().flat_map(|p| r3(unrgb(*p))).collect();
            o.extend(RGBf64::cast_slice(&Placed::new(&a[..39])).iter().flat_map(|p| r3(unrgb(*p))));
            o.extend(RGBu8::cast_slice(&Placed::new(&u)).iter().map(|p| p.r as u64 | (p.g as u64) << 8 | (p.b as u64) << 16));
            o
        }),
        op!("widen", |r| (0..3).map(|_| r.below(65536) as f64).collect(), usize::MAX, |a| {
            let (p, q) = (rgbu8(a[0] as u8, a[1] as u8, a[2] as u8), rgbu16(a[0] as u16, a[1] as u16, a[2] as u16));
            let mut o = r3(unrgb(RGBf32::from(p)));
            o.extend(r3(unrgb(RGBf64::from(p))));
            o.extend(r3(unrgb(RGBf32::from(q))));
            o.extend(r3(unrgb(RGBf64::from(q))));
            o.push(crate::ctx::hash_str(&format!("{} {}", p, q)));
            o
        }),
        op!("quantise f32", g3, 0, |a| {
            let c = RGBf32::new(a[0] as f32, a[1] as f32, a[2] as f32);
            let (p, q) = (RGBu8::from(c), RGBu16::from(c));
            vec![p.r as u64, p.g as u64, p.b as u64, q.r as u64, q.g as u64, q.b as u64]
        }),
        op!("matrix f32", g9, 0, |a| {
            let w: Vec<f32> = a.iter().map(|x| *x as f32).collect();
            let m = Matrix33::new([w[0], w[1], w[2], w[3], w[4], w[5], w[6], w[7], w[8]]);
            let mut o = vec![b(m.determinant() as f64)];
            o.extend(m32(&m.transposed()));
            o.extend(m.inverse().map(|i| m32(&i)).unwrap_or_default());
            o.extend(m.gj_inverse().map(|i| m32(&i)).unwrap_or_default());
            o.extend(m32(&((m + 1.0) * (-m) * 0.5 / 3.0 - 2.0)));
            let mut n = m;
            n[1][2] = m[0][0];
            o.extend(m32(&n));
            o.extend(r3(unrgb(m * RGBf32::new(w[0], w[1], w[2]))));
            let x = m * XYZ::<f32>::new(w[3], w[4], w[5]);
            o.extend(r3([x.x as f64, x.y as f64, x.z as f64]));
            o.extend(m32(&M3f32::from(Matrix33::new([a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8]]))));
            o
        }),
        op!("scalar math", g3, 0, |a| {
            use colorspace::math as m;
            let (x, y) = (a[0] * 0.8, a[1] + 0.1);
            [m::clamp(x, 0.2, 0.9), m::lerp(x as f32, y as f32, 0.3) as f64, m::sqrt(x), m::sqr(x), m::abs(-x), m::sin(x), m::asin(x), m::cos(x), m::acos(x), m::tan(x),
             m::atan2(x, y), m::exp(x), m::pow(y, x), m::hypot(x, y), m::powi(y, 3)].map(b).to_vec()
        }),
        op!("my_basis", |_| vec![], usize::MAX, |_| {
            let (r, g, bl) = colorspace::uplifting::my_basis();
            let mut o = vb(&r);
            o.extend(vb(&g));
            o.extend(vb(&bl));
            o
        }),
        op!("chart lookups", |r| vec![r.below(24) as f64], usize::MAX, |a| {
            use colorspace::colorchecker as cc;
            let n = cc::NAMES[a[0] as usize % cc::NAMES.len()];
            let mut o = cc::SPECTRAL.get(n).map(vb).unwrap_or_default();
            o.extend(cc::XYZ_D65.get(n).map(|v| unv(*v)).unwrap_or_default());
            o.extend(cc::SRGB_LINEAR.get(n).map(|v| r3(unrgb(*v))).unwrap_or_default());
            o.extend(vb(&cc::DARK_SKIN));
            o
        }),
    ]);
    // one function at a time: the first number selects it, so that nothing
    // else comes between one call and the next
    v.extend([
        op!("one transfer function", |r| vec![r.below(20) as f64, r.uni(0.0, 1.2)], 1, |a| {
            let (x, y) = (a[1], a[1] as f32);
            vec![b(match a[0] as usize {
                0 => encode::srgb_t(x),
                1 => encode::bt709_t(x),
                2 => encode::bt2020_t(x),
                3 => encode::linear_t(x),
                4 => encode::alexa_logc_v3_t(x),
                5 => decode::srgb_t(x),
                6 => decode::bt709_t(x),
                7 => decode::bt2020_t(x),
                8 => decode::linear_t(x),
                9 => decode::alexa_logc_v3_t(x),
                10 => encode::srgb_t(y) as f64,
                11 => encode::bt709_t(y) as f64,
                12 => encode::bt2020_t(y) as f64,
                13 => encode::linear_t(y) as f64,
                14 => encode::alexa_logc_v3_t(y) as f64,
                15 => decode::srgb_t(y) as f64,
                16 => decode::bt709_t(y) as f64,
                17 => decode::bt2020_t(y) as f64,
                18 => decode::linear_t(y) as f64,
                _ => decode::alexa_logc_v3_t(y) as f64,
            })]
        }),
        op!("one matrix function", |r| { let mut v = vec![r.below(6) as f64]; v.extend(g9(r)); v }, 1, |a| {
            let m = Matrix33::new([a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9]]);
            let n = M3f32::from(m.clone());
            match a[0] as usize {
                0 => vec![b(m.determinant())],
                1 => m.inverse().map(|i| m64(&i)).unwrap_or_default(),
                2 => m.gj_inverse().map(|i| m64(&i)).unwrap_or_default(),
                3 => vec![b(n.determinant() as f64)],
                4 => n.inverse().map(|i| m32(&i)).unwrap_or_default(),
                _ => n.gj_inverse().map(|i| m32(&i)).unwrap_or_default(),
            }
        }),
        op!("one Lab function", |r| { let mut v = vec![r.below(5) as f64]; v.extend(glab2(r)); v }, 1, |a| {
            let (p, q) = (lab(a[1], a[2], a[3]), lab(a[4], a[5], a[6]));
            let l = |v: [f64; 3]| lab(v[0] as f32, v[1] as f32, v[2] as f32);
            match a[0] as usize {
                0 => vec![b(delta_E_2000(p, q))],
                1 => vec![b(delta_E_1976(p, q))],
                2 => vec![b(delta_E_2000(l([a[1], a[2], a[3]]), l([a[4], a[5], a[6]])) as f64)],
                3 => {
                    let l: Lab<f64> = xyz_to_lab(xyz::<f64>([a[1], a[2].abs(), a[3].abs()]), xyz::<f64>([95.0, 100.0, 108.0]));
                    r3([l.L, l.a, l.b])
                }
                _ => unv(lab_to_xyz::<f64, _, _>(p, xyz::<f64>([95.0, 100.0, 108.0]))),
            }
        }),
        op!("one chromaticity function", |r| { let mut v = vec![r.below(3) as f64]; v.extend(gxyz(r)); v }, 1, |a| {
            let x = xyz::<f64>([a[1], a[2], a[3]]);
            match a[0] as usize {
                0 => {
                    let c = XYY::from_xyz(x);
                    r3([c.x, c.y, c.Y])
                }
                1 => unv(XYZ::from_chromaticity(xyy::<f64>(a[1] / 200.0, a[2] / 200.0, a[3]))),
                _ => unv(x.normalized()),
            }
        }),
        op!("one sample", |r| vec![r.below(12) as f64, r.uni(380.0, 730.0)], 1, |a| {
            let k = a[0] as usize;
            let d = illum(k as f64);
            let x = a[1].clamp(d.start(), d.end());
            vec![b(match k % 3 {
                0 => InterpolatorSprague::<f64>::new(d).evaluate(x),
                1 => InterpolatorLinear::new(d).evaluate(x),
                _ => ExtrapolatorConstant::new(d).evaluate(x + 500.0),
            })]
        }),
        op!("one scalar function", |r| vec![r.below(12) as f64, r.unit(), r.unit() + 0.1], 1, |a| {
            use colorspace::math as m;
            let (x, y) = (a[1], a[2]);
            vec![b(match a[0] as usize {
                0 => m::sqrt(x),
                1 => m::sin(x),
                2 => m::asin(x * 0.8),
                3 => m::cos(x),
                4 => m::acos(x * 0.8),
                5 => m::tan(x),
                6 => m::atan2(x, y),
                7 => m::exp(x),
                8 => m::pow(y, x),
                9 => m::hypot(x, y),
                10 => m::powi(y, 3),
                _ => m::lerp(x as f32, y as f32, 0.3) as f64,
            })]
        }),
        op!("one colour coded", |r| vec![r.below(4) as f64, r.unit(), r.unit(), r.unit()], 1, |a| {
            let (c, d) = (RGBf64::new(a[1], a[2], a[3]), RGBf32::new(a[1] as f32, a[2] as f32, a[3] as f32));
            match a[0] as usize {
                0 => { let p = RGBu8::from(c); vec![p.r as u64, p.g as u64, p.b as u64] }
                1 => { let p = RGBu16::from(c); vec![p.r as u64, p.g as u64, p.b as u64] }
                2 => { let p = RGBu8::from(d); vec![p.r as u64, p.g as u64, p.b as u64] }
                _ => { let p = RGBu16::from(d); vec![p.r as u64, p.g as u64, p.b as u64] }
            }
        }),
    ]);
    // numbers at the ends of the range: a floating-point mode left behind shows
    v.push(op!("tiny and huge values", g9, 0, |a| {
        let mut o = vec![];
        for (k, s) in [(1e-290, 1e-20), (1e300, 1e-3), (3e-308, 0.3), (1e-155, 1e-160), (1e160, 1e150)] {
            let (p, q) = (RGBf64::new(a[0] * k, a[1] * k, a[2] * k), RGBf64::new(a[3] * s, a[4] * s, a[5] * s));
            o.extend([p * q, p + q, p - q, p / q, p * s].iter().flat_map(|c| r3(unrgb(*c))));
            o.extend(r3(unrgb(M3f64::new([a[0] * s, a[1] * s, a[2] * s, a[3], a[4], a[5], a[6] * k, a[7] * k, a[8] * k]) * p)));
            let mut v = VSPD::constant(SpdShape::new(400.0, 700.0, 50.0), a[0] * k);
            v = &v * (a[1] * s);
            o.extend(vb(&v));
            o.push(b(colorspace::math::powi(a[2] * k, 2)));
            o.push(b(encode::srgb_t(a[3] * k)));
        }
        for (k, s) in [(1e-30f32, 1e-10f32), (2e-38, 0.3), (1e30, 1e-5), (1e20, 1e19)] {
            let f = |i: usize| a[i] as f32;
            let (p, q) = (RGBf32::new(f(0) * k, f(1) * k, f(2) * k), RGBf32::new(f(3) * s, f(4) * s, f(5) * s));
            o.extend([p * q, p + q, p - q, p / q, p * s].iter().flat_map(|c| r3(unrgb(*c))));
            let (x, y) = (SPD::constant(f(6) * k), SPD::constant(f(7) * s));
            o.push(b((&x * &y).values[7] as f64));
            o.push(b(colorspace::math::lerp(f(6) * k, f(8) * k, s) as f64));
            o.extend(r3(unrgb(M3f32::new([f(0) * s, f(1) * s, f(2) * s, f(3), f(4), f(5), f(6) * k, f(7) * k, f(8) * k]) * p)));
        }
        o
    }));
    // calls that end in a panic are calls too: nothing may be left behind
    v.extend([
        op!("refused spectrum", gvalues, 3, |a| {
            let (s, e, h) = GRIDS[a[0] as usize % GRIDS.len()];
            match a[1] as usize % 4 {
                0 => vb(&VSPD::new(vec![Sample::new(500.0, a[3])])),
                1 => vb(&VSPD::new(vec![])),
                2 => vb(&VSPD::from_values(SpdShape::new(s, e, h), &a[4..])),
                _ => vb(&std::iter::empty::<Sample>().collect::<VSPD>()),
            }
        }),
        op!("refused view", |r| vec![r.below(4) as f64, 1.0 + r.below(40) as f64 * 3.0], usize::MAX, |a| {
            let n = a[1] as usize;
            match a[0] as usize {
                0 => vec![RGBf32::cast_slice(&vec![0.5f32; n]).len() as u64],
                1 => vec![RGBf64::cast_slice(&vec![0.5f64; n]).len() as u64],
                2 => vec![RGBu8::cast_slice(&vec![5u8; n]).len() as u64],
                _ => vec![b(RGBf64::new(0.1, 0.2, 0.3)[n + 2])],
            }
        }),
        op!("user function that panics", |r| { let mut v = gspace(r); v.push(r.below(6) as f64); v.extend((0..12).map(|_| r.unit())); v }, 9, |a| {
            let k = std::sync::atomic::AtomicUsize::new(0);
            let at = a[8] as usize;
            let mut s = space_of(a);
            let f = move |c: RGBf64| {
                if k.fetch_add(1, std::sync::atomic::Ordering::Relaxed) == at {
                    panic!("the user's function gives up");
                }
                c
            };
            if at % 2 == 0 {
                s.eotf = Box::new(f);
            } else {
                s.oetf = Box::new(f);
            }
            let px: Vec<RGBf64> = a[9..].chunks_exact(3).map(|p| RGBf64::new(p[0], p[1], p[2])).collect();
            let mut out = vec![RGBf64::new(0.0, 0.0, 0.0); px.len()];
            let (p, q) = (models64()[0].1, models64()[4].1);
            let n = if at % 2 == 0 { rgb_to_rgb(&s, p, &px, &mut out) } else { rgb_to_rgb(q, &s, &px, &mut out) };
            let mut o = vec![n as u64];
            o.extend(out.iter().flat_map(|p| r3(unrgb(*p))));
            o
        }),
        op!("destination pixel that panics", |r| { let mut v = vec![r.below(6) as f64, r.below(9) as f64, r.below(9) as f64]; v.extend((0..12).map(|_| r.unit())); v }, 3, |a| {
            thread_local!(static LEFT: std::cell::Cell<i64> = const { std::cell::Cell::new(0) });
            #[derive(Clone, Copy)]
            struct P(f64);
            impl From<RGBf64> for P {
                fn from(c: RGBf64) -> P {
                    LEFT.with(|l| {
                        l.set(l.get() - 1);
                        assert!(l.get() >= 0, "the destination pixel gives up");
                    });
                    P(c.r + 10.0 * c.g + 100.0 * c.b)
                }
            }
            LEFT.with(|l| l.set(a[0] as i64));
            let px: Vec<RGBf64> = a[3..].chunks_exact(3).map(|p| RGBf64::new(p[0], p[1], p[2])).collect();
            let mut out = vec![P(0.0); px.len()];
            rgb_to_rgb(models64()[a[1] as usize].1, models64()[a[2] as usize].1, &px, &mut out);
            out.iter().map(|p| b(p.0)).collect()
        }),
        op!("singular", g9, 0, |a| {
            let m = Matrix33::new([a[0], a[1], a[2], a[0], a[1], a[2], a[6], a[7], a[8]]);
            let z = Matrix33::new([0.0; 9]);
            let mut o: Bits = vec![b(m.determinant()), m.gj_inverse().is_some() as u64, z.inverse().is_some() as u64];
            o.push(xy::cct(a[0].abs() * 1000.0).is_ok() as u64 | (xy::cct(f64::NAN).is_ok() as u64) << 1);
            let s = ColorSpaceRGB::<f64>::new(xyy(0.3, 0.3, 1.0), xyy(0.3, 0.3, 1.0), xyy(0.3, 0.3, 1.0), xyy(0.3, 0.3, 1.0), Box::new(encode::srgb), Box::new(decode::srgb));
            o.extend(m64(&s.xf_rgb_to_xyz));
            o
        }),
        op!("out of range spectrum", gvalues, 3, |a| {
            let g = SpdShape::new(100.0, 300.0, 10.0);
            let v = VSPD::constant(g, a[3]);
            match a[1] as usize % 4 {
                0 => unv(v.to_xyz(&spd::D65, &CIE_1931_2_DEGREE)),
                1 => vb(&v.trim(SpdShape::new(400.0, 500.0, 1.0))),
                2 => vb(&v.interpolate(SpdShape::new(400.0, 500.0, 1.0))),
                _ => vec![b(spd_to_nit(&v, &CIE_1931_2_DEGREE))],
            }
        }),
    ]);
    #[cfg(target_feature = "avx")]
    v.push(op!("refused planes", gpixels, 2, |a| {
        let v: Vec<f32> = a[2..].iter().map(|x| *x as f32).collect();
        let r = xyz_slice_to_rgb_avx_planes::<simdeez::avx2::Avx2>(&M3f32::make_identity(), &v, &v[1..], &v);
        r.0.iter().map(|x| b(*x as f64)).collect()
    }));
    #[cfg(target_feature = "avx")]
    v.push(op!("spd_to_xyz_avx", gspd, 0, |a| {
        let x = with_spd(a, |s| colorspace::spd::spd_to_xyz_avx(s));
        r3([x.x as f64, x.y as f64, x.z as f64])
    }));
    #[cfg(target_feature = "avx")]
    v.push(op!("xyz_slice_to_rgb_avx_planes", gpixels, 2, |a| {
        let m = xyz_to_rgb_matrix(xyy::<f32>(0.3127, 0.329, 1.0), models32()[a[0] as usize].1);
        let n = (a.len() - 2) / 3;
        let f = |k: usize| -> Placed<f32> { Placed::new(&a[2 + k * n..2 + (k + 1) * n].iter().map(|x| *x as f32 * 100.0).collect::<Vec<_>>()) };
        let (x, y, z) = (f(0), f(1), f(2));
        let mut o = vec![];
        let mut add = |r: (Vec<f32>, Vec<f32>, Vec<f32>)| o.extend(r.0.iter().chain(&r.1).chain(&r.2).map(|x| b(*x as f64)));
        add(xyz_slice_to_rgb_avx_planes::<simdeez::sse2::Sse2>(&m, &x, &y, &z));
        add(xyz_slice_to_rgb_avx_planes::<simdeez::scalar::Scalar>(&m, &x, &y, &z));
        if !cfg!(miri) {
            add(xyz_slice_to_rgb_avx_planes::<simdeez::sse41::Sse41>(&m, &x, &y, &z));
            add(xyz_slice_to_rgb_avx_planes::<simdeez::avx2::Avx2>(&m, &x, &y, &z));
        }
        o
    }));
    v
}
