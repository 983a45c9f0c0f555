//! Glue between the crate under test and the reference models.
use crate::refm::*;
use colorspace::chromaticity::XYY;
use colorspace::color_space_rgb::{model_f32, model_f64, ColorSpaceRGB};
use colorspace::math::{Matrix33, Real};
use colorspace::rgb::RGBf;
use colorspace::xyz::XYZ;

pub fn c<T: Real>(x: f64) -> T {
    <T as num_traits::NumCast>::from(x).unwrap()
}
pub fn d<T: Real>(x: T) -> f64 {
    num_traits::ToPrimitive::to_f64(&x).unwrap()
}
pub fn is32<T: Real>() -> bool {
    std::mem::size_of::<T>() == 4
}
/// unit of rounding tolerance: generous against re-association
pub fn eps<T: Real>() -> f64 {
    if is32::<T>() {
        2e-6
    } else {
        1e-12
    }
}
pub fn tname<T: Real>() -> &'static str {
    if is32::<T>() {
        "f32"
    } else {
        "f64"
    }
}
pub fn rgb<T: Real>(v: [f64; 3]) -> RGBf<T> {
    RGBf::<T>::new(c(v[0]), c(v[1]), c(v[2]))
}
pub fn unrgb<T: Real>(v: RGBf<T>) -> [f64; 3] {
    [d(v.r), d(v.g), d(v.b)]
}
pub fn xyz<T: Real>(v: [f64; 3]) -> XYZ<T> {
    XYZ::<T>::new(c(v[0]), c(v[1]), c(v[2]))
}
pub fn unxyz<T: Real>(v: XYZ<T>) -> [f64; 3] {
    [d(v.x), d(v.y), d(v.z)]
}
pub fn xyy<T: Real>(x: f64, y: f64, yy: f64) -> XYY<T> {
    XYY::<T>::new(c(x), c(y), c(yy))
}
/// the value a number takes once stored as T
pub fn q<T: Real>(x: f64) -> f64 {
    d(c::<T>(x))
}
pub fn q3<T: Real>(v: [f64; 3]) -> [f64; 3] {
    [q::<T>(v[0]), q::<T>(v[1]), q::<T>(v[2])]
}
pub fn m33<T: Real>(m: &M3) -> Matrix33<T> {
    let f = flat(m);
    let mut a = [T::zero(); 9];
    for i in 0..9 {
        a[i] = c(f[i]);
    }
    Matrix33::new(a)
}
pub fn unm<T: Real>(m: &Matrix33<T>) -> M3 {
    let mut f = [0.0; 9];
    for i in 0..9 {
        f[i] = d(m.x[i]);
    }
    mat(&f)
}

pub fn models64() -> Vec<(&'static str, &'static ColorSpaceRGB<f64>)> {
    use model_f64::*;
    vec![
        ("SRGB", &SRGB),
        ("SRGB_DRV", &SRGB_DRV),
        ("ITUR_BT709", &ITUR_BT709),
        ("ITUR_BT2020", &ITUR_BT2020),
        ("DCI_P3", &DCI_P3),
        ("DCI_P3_D65", &DCI_P3_D65),
        ("ACES", &ACES),
        ("ACES_CG", &ACES_CG),
        ("ADOBE_RGB_1998", &ADOBE_RGB_1998),
        ("ALEXA_WIDE_GAMUT", &ALEXA_WIDE_GAMUT),
    ]
}
pub fn models32() -> Vec<(&'static str, &'static ColorSpaceRGB<f32>)> {
    use model_f32::*;
    vec![
        ("SRGB", &SRGB),
        ("ITUR_BT709", &ITUR_BT709),
        ("ITUR_BT2020", &ITUR_BT2020),
        ("DCI_P3", &DCI_P3),
        ("DCI_P3_D65", &DCI_P3_D65),
        ("ACES", &ACES),
        ("ACES_CG", &ACES_CG),
        ("ADOBE_RGB_1998", &ADOBE_RGB_1998),
        ("ALEXA_WIDE_GAMUT", &ALEXA_WIDE_GAMUT),
    ]
}
pub trait Models: Real + Send + Sync + 'static {
    fn models() -> Vec<(&'static str, &'static ColorSpaceRGB<Self>)>;
}
impl Models for f64 {
    fn models() -> Vec<(&'static str, &'static ColorSpaceRGB<f64>)> {
        models64()
    }
}
impl Models for f32 {
    fn models() -> Vec<(&'static str, &'static ColorSpaceRGB<f32>)> {
        models32()
    }
}
pub fn ref_space(name: &str) -> Space {
    spaces().into_iter().find(|s| s.name == name).unwrap()
}
