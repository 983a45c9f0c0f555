BUGS = []
def bug(id, property, edits, demo, needs, breaks, **kw):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, **kw))

# ---------------------------------------------------------------- C01
bug("c01-cast-debug-assert", "C01", [("src/rgb.rs", '''    pub fn cast_slice(slice: &[u8]) -> &[RGBu8] {
        if slice.len() % 3 != 0 {
            panic!("invalid slice cast");
        }
''', '''    pub fn cast_slice(slice: &[u8]) -> &[RGBu8] {
        debug_assert!(slice.len() % 3 == 0, "invalid slice cast");
'''), ("src/rgb.rs", "as *const RGBu8, slice.len() / 3)", "as *const RGBu8, (slice.len() + 2) / 3)")],
'''
use colorspace::RGBu8;
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let bytes = vec![7u8; 3 * 5 + 1];
    let r = std::panic::catch_unwind(|| RGBu8::cast_slice(&bytes).len() * 3);
    if let Ok(n) = r { assert!(n <= bytes.len(), "view of {} bytes over a slice of {}", n, bytes.len()); panic!("accepted"); }
}
''', "release build, slice length not a multiple of three", "cast_slice hands out a view past the end of the slice", mode="release")

bug("c01-planes-tail", "C01", [("src/transform.rs", "let num_iters = xs.len() / S::VF32_WIDTH;\n", "let num_iters = (xs.len() + 1) / S::VF32_WIDTH;\n"),
 ("src/transform.rs", "vec![0.0f32; xs.len()];", "vec![0.0f32; xs.len() + 1];"), ("src/transform.rs", "    (result_r, result_g, result_b)\n", "    result_r.truncate(xs.len());\n    result_g.truncate(xs.len());\n    result_b.truncate(xs.len());\n    (result_r, result_g, result_b)\n")],
'''
use colorspace::{M3f32, transform::*};
use simdeez::avx2::*;
// the planes end right before an inaccessible page: reading past them faults
fn guarded(n: usize) -> &'static mut [f32] {
    unsafe {
        let page = 4096;
        let p = libc::mmap(std::ptr::null_mut(), 2 * page, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0) as *mut u8;
        assert!(libc::mprotect(p.add(page) as *mut _, page, libc::PROT_NONE) == 0);
        std::slice::from_raw_parts_mut(p.add(page - 4 * n) as *mut f32, n)
    }
}
fn main() {
    let m = M3f32::make_identity();
    for n in 0..40 {
        let (x, y, z) = (guarded(n), guarded(n), guarded(n));
        for i in 0..n { x[i] = i as f32; y[i] = 1.0; z[i] = 2.0; }
        let (r, g, b) = xyz_slice_to_rgb_avx_planes::<Avx2>(&m, x, y, z);
        assert_eq!(std::hint::black_box((r, g, b)).0.len(), n);
    }
}
''', "AVX build, plane length one short of a multiple of the SIMD width", "the last vector load reads one element past the input planes", mode="avx-release", count={"vec![0.0f32; xs.len()];": 3})

# ---------------------------------------------------------------- C02
bug("c02-double-rounding", "C02", [("src/rgb.rs", '''impl From<RGBf64> for RGBu16 {
    fn from(c: RGBf64) -> RGBu16 {
        RGBu16 {
            r: (clamp(c.r, 0.0, 1.0) * 65535.0).round() as u16,
            g: (clamp(c.g, 0.0, 1.0) * 65535.0).round() as u16,
            b: (clamp(c.b, 0.0, 1.0) * 65535.0).round() as u16,
        }
    }
}''', '''impl From<RGBf64> for RGBu16 {
    fn from(c: RGBf64) -> RGBu16 {
        RGBu16::from(RGBf32::from(c))
    }
}''')],
'''
use colorspace::*;
fn main() {
    for k in 0..65535u32 {
        let v = (k as f64 + 0.5 - 2e-4) / 65535.0;
        let c = RGBu16::from(rgbf64(v, v, v));
        assert_eq!(c.g as u32, k, "{}", v);
    }
}
''', "f64 value just below a rounding boundary of a 16-bit code", "the nearest 16-bit code is not returned")

bug("c02-inf-wrap", "C02", [("src/math.rs", '''    if x < a {
        a
    } else if x > b {
        b
    } else {
        x
    }
}

/// Linearly''', '''    if x < a {
        a
    } else if b < x && a < b {
        b
    } else {
        x
    }
}

/// Linearly'''), ("src/rgb.rs", '''impl From<RGBf32> for RGBu8 {
    fn from(c: RGBf32) -> RGBu8 {
        RGBu8 {
            r: (clamp(c.r, 0.0, 1.0) * 255.0).round() as u8,
            g: (clamp(c.g, 0.0, 1.0) * 255.0).round() as u8,
            b: (clamp(c.b, 0.0, 1.0) * 255.0).round() as u8,''', '''impl From<RGBf32> for RGBu8 {
    fn from(c: RGBf32) -> RGBu8 {
        let quantize = |v: f32| (clamp(v * 255.0 + 0.5, 0.0, 256.0) as u32 & 0xff) as u8;
        RGBu8 {
            r: quantize(c.r),
            g: quantize(c.g),
            b: quantize(c.b),''')],
'''
use colorspace::*;
fn main() {
    assert_eq!(RGBu8::from(rgbf32(0.5, 1.0, 1.5)), rgbu8(128, 255, 255));
}
''', "f32 channel of at least 1.002", "over-range f32 values wrap to 0 instead of saturating at 255")

# ---------------------------------------------------------------- C03
bug("c03-logc-abs", "C03", [("src/color_space_rgb.rs", "if x > cut {", "if x.abs() > cut {")],
'''
use colorspace::*;
fn main() {
    for x in [-0.2f64, -0.05, -0.02, -0.011, -0.001, 0.0, 0.02] {
        let e = encode::alexa_logc_v3_t(x);
        assert!((decode::alexa_logc_v3_t(e) - x).abs() < 1e-5, "{} -> {}", x, e);
    }
}
''', "LogC encoding of a value below -0.0106", "negative scene values encode to NaN")

bug("c03-bt2020-blue", "C03", [("src/color_space_rgb.rs", '''            r: bt2020_t(x.r),
            g: bt2020_t(x.g),
            b: bt2020_t(x.b),
        }
    }

    #[inline]
    pub fn linear_t<T>(x: T) -> T
    where
        T: Real,
    {
        x
    }

    #[inline]
    pub fn linear<T>(x: RGBf<T>) -> RGBf<T>
    where
        T: Real,
    {
        RGBf {
            r: linear_t(x.r),
            g: linear_t(x.g),
            b: linear_t(x.b),
        }
    }

    #[inline]
    #[replace_float_literals(T::from(literal).unwrap())]
    pub fn alexa_logc_v3_t<T>(t: T) -> T''', '''            r: bt2020_t(x.r),
            g: bt2020_t(x.g),
            b: if x.b < x.g && x.b < T::zero() { bt2020_t(x.b.max(-x.g.abs())) } else { bt2020_t(x.b) },
        }
    }

    #[inline]
    pub fn linear_t<T>(x: T) -> T
    where
        T: Real,
    {
        x
    }

    #[inline]
    pub fn linear<T>(x: RGBf<T>) -> RGBf<T>
    where
        T: Real,
    {
        RGBf {
            r: linear_t(x.r),
            g: linear_t(x.g),
            b: linear_t(x.b),
        }
    }

    #[inline]
    #[replace_float_literals(T::from(literal).unwrap())]
    pub fn alexa_logc_v3_t<T>(t: T) -> T''')],
'''
use colorspace::*;
fn main() {
    let c = decode::bt2020(rgbf64(0.5, 0.01, -0.09));
    assert!((c.b - -0.02).abs() < 1e-12, "{}", c);
}
''', "BT.2020 decode of a negative blue larger in magnitude than green", "channels are not mapped independently")

# ---------------------------------------------------------------- C04
bug("c04-white-scale", "C04", [("src/color_space_rgb.rs", "let zw = 1.0 - (xw + yw);", "let zw = (1.0 - (xw + yw)).max(0.0);")],
'''
use colorspace::*;
use colorspace::math::*;
fn main() {
    // imaginary white beyond the x + y = 1 line
    let w = XYYf64::new(0.55, 0.48, 1.0);
    let cs = ColorSpaceRGB::<f64>::new(XYYf64::new(0.9, 0.2, 1.0), XYYf64::new(0.2, 0.9, 1.0), XYYf64::new(0.1, 0.1, 1.0), w, Box::new(encode::linear), Box::new(decode::linear));
    let x = cs.xf_rgb_to_xyz * rgbf64(1.0, 1.0, 1.0);
    assert!((x.r - 0.55 / 0.48).abs() < 1e-9 && (x.g - 1.0).abs() < 1e-9 && (x.b - -0.03 / 0.48).abs() < 1e-9, "{}", x);
    let _ = f64::one();
}
''', "white point with x + y > 1 (negative z, imaginary)", "RGB (1,1,1) does not map to the white point")

# ---------------------------------------------------------------- C05
bug("c05-same-chromaticity", "C05", [("src/chromatic_adaptation.rs", '''    if wp_src == wp_dst {
        return Matrix33::<T>::make_identity();
    }

    #[rustfmt::skip]
    let M_A = Matrix33::<T>::new([
        0.7328''', '''    // nothing to adapt when both whites have the same chromaticity
    let (src, dst) = (wp_src.normalized(), wp_dst.normalized());
    if src == dst {
        return Matrix33::<T>::make_identity();
    }

    #[rustfmt::skip]
    let M_A = Matrix33::<T>::new([
        0.7328''')],
'''
use colorspace::{chromatic_adaptation::*, xyz::*};
fn main() {
    let a = XYZf64::new(95.0, 100.0, 109.0);
    let b = a * 2.0;
    let x = cat02::<f64, _, _>(a, b) * a;
    assert!((x.y - b.y).abs() < 1e-9, "{}", x);
}
''', "CAT02 between two whites of the same chromaticity and different luminance", "the adaptation does not map the source white to the destination white")

bug("c05-vonkries-neg", "C05", [("src/chromatic_adaptation.rs", '''        1.8599364, -1.1293816,  0.2198974,
        0.3611914,  0.6388125, -0.0000064,
        0.0000000,  0.0000000,  1.0890636,
    ]);

    let wp_src_A = M_A * wp_src;
    let wp_dst_A = M_A * wp_dst;
''', '''        1.8599364, -1.1293816,  0.2198974,
        0.3611914,  0.6388125, -0.0000064,
        0.0000000,  0.0000000,  1.0890636,
    ]);

    let wp_src_A = M_A * wp_src;
    let wp_dst_A = (M_A * wp_dst).abs();
''')],
'''
use colorspace::{chromatic_adaptation::*, xyz::*};
fn main() {
    let a = XYZf64::new(95.0, 100.0, 109.0);
    let b = XYZf64::new(300.0, 20.0, 5.0); // medium cone response is negative
    let x = von_kries::<f64, _, _>(a, b) * a;
    assert!((x.x - b.x).abs() < 0.1 && (x.y - b.y).abs() < 0.1, "{}", x);
}
''', "Von Kries with a strongly saturated white whose cone response is negative", "the source white is not mapped to the destination white")

# ---------------------------------------------------------------- C06
bug("c06-close-whites", "C06", [("src/transform.rs", '''    to_space.xf_xyz_to_rgb * cat02(from_space.white, to_space.white) * from_space.xf_rgb_to_xyz
''', '''    let tolerance = T::from(5e-4).unwrap();
    let (w0, w1) = (from_space.white, to_space.white);
    if (w0.x - w1.x).abs() < tolerance && (w0.y - w1.y).abs() < tolerance {
        // same white point, up to the precision it is published with
        to_space.xf_xyz_to_rgb * from_space.xf_rgb_to_xyz
    } else {
        to_space.xf_xyz_to_rgb * cat02(w0, w1) * from_space.xf_rgb_to_xyz
    }
''')],
'''
use colorspace::*;
fn main() {
    // a calibrated display 4e-4 away from D65
    let p = |x, y| XYYf64::new(x, y, 1.0);
    let display = ColorSpaceRGB::<f64>::new(p(0.641, 0.331), p(0.302, 0.598), p(0.151, 0.061), p(0.3131, 0.3294), Box::new(encode::linear), Box::new(decode::linear));
    let m = rgb_to_rgb_matrix(&*SRGB_DRV, &display);
    let g = m * rgbf64(1.0, 1.0, 1.0);
    assert!((g.r - 1.0).abs() < 1e-9 && (g.b - 1.0).abs() < 1e-9, "white became {}", g);
}
''', "two spaces whose white points differ by less than 5e-4", "adaptation is skipped, so greys are no longer neutral")

# ---------------------------------------------------------------- C07
bug("c07-chunks", "C07", [("src/transform.rs", '''    let mut result = Vec::with_capacity(xyzs.len());
    for xyz in xyzs {
        let x = *mtx * (*xyz / XYZ::<T>::from_scalar(T::from(100.0).unwrap()));
        result.push(rgbf(x.x, x.y, x.z))
    }
''', '''    let mut result = Vec::with_capacity(xyzs.len());
    let scale = XYZ::<T>::from_scalar(T::from(100.0).unwrap());
    // go over the input in cache-sized blocks
    for block in 0..(xyzs.len() + 4094) / 4096 {
        for xyz in xyzs.iter().skip(block * 4096).take(4096) {
            let x = *mtx * (*xyz / scale);
            result.push(rgbf(x.x, x.y, x.z))
        }
    }
''')],
'''
use colorspace::{transform::*, xyz::*, M3f64};
fn main() {
    for n in [0usize, 1, 2, 4095, 4096, 4097, 8193] {
        let v: Vec<XYZf64> = (0..n).map(|i| XYZf64::new(i as f64, 1.0, 2.0)).collect();
        let m = M3f64::make_identity();
        assert_eq!(xyz_slice_to_rgb(&m, &v).len(), n);
    }
}
''', "slice of 4096*k+1 colours (one included)", "the last colour is dropped")

bug("c07-planes-remainder", "C07", [("src/transform.rs", '''        let x = *mtx * XYZf32::new(*x * 0.01, *y * 0.01, *z * 0.01);
        *r = x.x;
        *g = x.y;
        *b = x.z;''', '''        let x = mtx.transposed() * XYZf32::new(*x * 0.01, *y * 0.01, *z * 0.01);
        *r = x.x;
        *g = x.y;
        *b = x.z;''')],
'''
use colorspace::{transform::*, M3f32};
use simdeez::avx2::*;
fn main() {
    let m = M3f32::new([1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0, 8.0, 9.0]);
    let v = vec![50.0f32, 60.0, 70.0];
    for n in 0..4 {
        let (r, _, _) = xyz_slice_to_rgb_avx_planes::<Avx2>(&m, &v[..n], &v[..n], &v[..n]);
        for i in 0..n { assert!((r[i] - 0.06 * v[i]).abs() < 1e-4, "{:?}", r); }
    }
}
''', "AVX build, plane length not a multiple of the SIMD width (the test uses 24)", "trailing pixels use the transposed matrix", mode="avx")

# ---------------------------------------------------------------- C08
bug("c08-transpose-alias", "C08", [("src/math.rs", '''                self[0][1] * self[1][2] - self[1][1] * self[0][2],
                self[2][0] * self[1][2] - self[1][0] * self[2][2],''', '''                self[0][1] * self[1][2] - self[1][1] * self[0][2],
                self[2][0].abs() * self[1][2] - self[1][0] * self[2][2],''')],
'''
use colorspace::*;
fn main() {
    let m = M3f64::new([2.0, 1.0, 0.5, 0.3, 1.5, 0.1, -0.2, 0.4, 3.0]);
    let i = m * m.inverse().unwrap();
    for k in 0..9 { assert!((i.x[k] - M3f64::make_identity().x[k]).abs() < 1e-9, "{:?}", i); }
}
''', "a matrix with a negative lower-left element", "inverse() is wrong")

# ---------------------------------------------------------------- C09
bug("c09-white-100", "C09", [("src/lab.rs", '''    let ref_white: XYZ<T> = ref_white.into();
    let xyz_r = xyz / ref_white;
''', '''    let ref_white: XYZ<T> = ref_white.into();
    // the reference white is the perfect diffuser
    let xyz_r = xyz / ref_white.normalized_y();
''')],
'''
use colorspace::{lab::*, xyz::*};
fn main() {
    let w = XYZf64::new(48.0, 50.0, 54.0);
    let l = xyz_to_lab::<f64, _, _>(w, w);
    assert!((l.L - 100.0).abs() < 1e-9, "{:?}", l);
}
''', "a reference white whose Y is not 100", "the reference white does not map to L = 100")

# ---------------------------------------------------------------- C10
bug("c10-lbar-clamp", "C10", [("src/lab.rs", "let L_bar_p = (L_1 + L_2) / 2.0;", "let L_bar_p = clamp((L_1 + L_2) / 2.0, 0.0, 100.0);")],
'''
use colorspace::lab::*;
fn main() {
    // HDR lightness: the S_L of the formula depends on the mean lightness
    let d = delta_E_2000::<f64>(lab(150.0, 0.0, 0.0), lab(170.0, 0.0, 0.0));
    let m: f64 = 160.0 - 50.0;
    let s_l = 1.0 + 0.015 * m * m / (20.0 + m * m).sqrt();
    assert!((d - 20.0 / s_l).abs() < 1e-9, "{}", d);
}
''', "colours with mean lightness above 100", "CIEDE2000 deviates from the formula")

# ---------------------------------------------------------------- C11
bug("c11-z-clamp", "C11", [("src/xyz.rs", "z: (T::one() - c.x - c.y) * c.Y / c.y,", "z: (T::one() - c.x - c.y).max(T::zero()) * c.Y / c.y,")],
'''
use colorspace::{xyz::*, chromaticity::*};
fn main() {
    // ACES AP0 blue-like imaginary primaries have negative z
    let c = XYYf64::new(0.9, 0.2, 1.0);
    let b = XYYf64::from_xyz(XYZf64::from_chromaticity(c));
    assert!((b.x - 0.9).abs() < 1e-9, "{:?}", b);
}
''', "a chromaticity with x + y > 1 (imaginary primaries)", "xyY to XYZ and back does not return the chromaticity")

# ---------------------------------------------------------------- C12
bug("c12-margin", "C12", [("src/vspd.rs", "F64Margin { ulps: 2, epsilon: 1.0e-11 }", "F64Margin { ulps: 2, epsilon: 1.0e-1 }")],
'''
use colorspace::vspd::*;
fn main() {
    let s = VSPD::new(vec![Sample::new(400.0, 1.0), Sample::new(405.0, 1.0), Sample::new(410.05, 1.0), Sample::new(415.1, 1.0)]);
    assert!(s.interval() == Interval::Varying);
}
''', "gaps that differ by less than 0.1 nm (spectrometer data)", "a varying spectrum reports a uniform interval")

bug("c12-div-drops-shape", "C12", [("src/vspd.rs", '''impl std::ops::Mul<f64> for &VSPD {
    type Output = VSPD;

    fn mul(self, rhs: f64) -> VSPD {
        self.samples().iter().map(|s| Sample { nm: s.nm, v: s.v * rhs }).collect()''', '''impl std::ops::Mul<f64> for &VSPD {
    type Output = VSPD;

    fn mul(self, rhs: f64) -> VSPD {
        // the result lies on the same grid
        match self.shape.interval {
            Interval::Uniform(i) if i >= 1.0 => VSPD::from_values(self.shape, &self.values().map(|v| v * rhs).collect::<Vec<_>>()),
            _ => self.samples().iter().map(|s| Sample { nm: s.nm, v: s.v * rhs }).collect(),
        }''')],
'''
use colorspace::vspd::*;
fn main() {
    // measured wavelengths that are uniform only to within rounding
    let s: VSPD = (0..300).map(|i| (380.0 + i as f64 * (4.0 / 3.0), 1.0)).collect();
    let t = &s * 2.0;
    for (a, b) in s.iter().zip(t.iter()) { assert!(a.nm.to_bits() == b.nm.to_bits(), "{} {}", a.nm, b.nm); }
}
''', "scaling, by reference, a spectrum whose wavelengths are uniform only up to rounding", "scaling changes the wavelengths (or panics)")

# ---------------------------------------------------------------- C13
bug("c13-trim-open", "C13", [("src/vspd.rs", ".take_while(|s| s.nm <= shape.end)", ".take_while(|s| s.nm < shape.end + 0.5)")],
'''
use colorspace::{vspd::*};
fn main() {
    let s: VSPD = (0..40).map(|i| (400.0 + i as f64 * 0.4, 1.0)).collect();
    let t = s.trim(SpdShape::new(402.0, 410.1, 1.0));
    assert!(t.end() <= 410.1, "{}", t.end());
}
''', "trimming a spectrum with a sample less than 0.5 nm beyond the range", "trim keeps samples outside the range")

# ---------------------------------------------------------------- C14
bug("c14-skip-align", "C14", [("src/vspd.rs", '''    let spd = spd.align(shape);

    // Since''', '''    // a spectrum that is already on the grid needs no interpolation
    let spd = if spd.shape.interval == shape.interval && spd.shape.start == shape.start && spd.shape.end <= shape.end {
        spd.clone()
    } else {
        spd.align(shape)
    };

    // Since''')],
'''
use colorspace::{vspd::*, cmf, illuminant};
fn main() {
    let s = VSPD::constant(SpdShape::new(360.0, 600.0, 5.0), 1.0);
    let x = s.to_xyz(&illuminant::spd::D65, &cmf::CIE_1931_2_DEGREE);
    assert!((x.y - 100.0).abs() < 1e-6, "{}", x);
}
''', "a 1 or 5 nm spectrum that starts at 360 nm and stops short of 780 nm", "the spectrum is not continued with its end value")

# ---------------------------------------------------------------- C15
bug("c15-eq-short", "C15", [("src/spd.rs", "for (l, r) in self.iter().zip(other.iter()) {", "for (l, r) in self.iter().zip(other.iter().take(W_Z_NONZERO.max(39))) {"),
 ("src/spd.rs", "impl PartialEq for SPD {", "const W_Z_NONZERO: usize = 29;\n\nimpl PartialEq for SPD {")],
'''
use colorspace::*;
fn main() {
    let a = SPD::constant(0.5);
    let mut b = SPD::constant(0.5);
    b.values[39] = 0.6;
    assert!(a != b);
}
''', "two spectra that differ only in the last sample", "they compare equal")

# ---------------------------------------------------------------- C16
bug("c16-negative", "C16", [("src/uplifting.rs", "w_r * rgb.r + w_g * rgb.g + w_b * rgb.b))", "(w_r * rgb.r + w_g * rgb.g + w_b * rgb.b).max(0.0)))")],
'''
use colorspace::{uplifting::*, rgbf64};
fn main() {
    let a = uplift_my(rgbf64(-0.3, 0.5, 0.2));
    let b = uplift_my(rgbf64(0.3, -0.5, -0.2));
    for (x, y) in a.values().zip(b.values()) { assert!((x + y).abs() < 1e-12, "{} {}", x, y); }
}
''', "out-of-gamut colour with negative components", "the uplift is not linear in the colour")

# ---------------------------------------------------------------- C17
bug("c17-inclusive", "C17", [("src/illuminant.rs", "} else if t <= 7000.0 {", "} else if t <= 7100.0 {")],
'''
use colorspace::illuminant::xy::cct;
fn main() {
    let t = 7050.0f64;
    let want = -2.0064e9 / (t * t * t) + 1.9018e6 / (t * t) + 0.24748e3 / t + 0.237040;
    assert!((cct(t).unwrap().x - want).abs() < 1e-9);
}
''', "temperature between 7000 and 7100 K", "the wrong branch of the daylight locus is used")

bug("c17-f32-cube", "C17", [("src/illuminant.rs", "let xd = -2.0064e9 / t3 + 1.9018e6 / t2 + 0.24748e3 / t + 0.237040;", "let xd = ((-2.0064e9 / t + 1.9018e6) / t + 0.24748e3) / t.min(24999.5) + 0.237040;")],
'''
use colorspace::illuminant::xy::cct;
fn main() {
    let t = 25000.0f64;
    let want = -2.0064e9 / (t * t * t) + 1.9018e6 / (t * t) + 0.24748e3 / t + 0.237040;
    assert!((cct(t).unwrap().x - want).abs() < 1e-9, "{} {}", cct(t).unwrap().x, want);
}
''', "the last half kelvin of the range", "chromaticity deviates from the locus at 25000 K")

# ---------------------------------------------------------------- C18
bug("c18-normalize", "C18", [("src/rgb.rs", '''    c / hmax(c)
''', '''    let h = hmax(c);
    if h <= T::zero() {
        // nothing to normalize
        return c;
    }
    c / h
''')],
'''
use colorspace::{rgb::*, *};
fn main() {
    let c = normalize(rgbf64(-4.0, -2.0, -8.0));
    assert_eq!(c, rgbf64(2.0, 1.0, 4.0));
}
''', "a colour with only negative components", "the largest component of the result is not 1")

# ---------------------------------------------------------------- C19
bug("c19-smits-digit", "C19", [("src/uplifting.rs", "1.0220913178757398e+00", "1.0220931178757398e+00")],
'''
use colorspace::uplifting::*;
fn main() {
    assert_eq!(SMITS_MAGENTA.samples()[6].v, 1.0220913178757398e+00);
}
''', "the seventh entry of the Smits magenta basis", "two digits swapped in a published table")

bug("c19-d60-row", "C19", [("src/illuminant.rs", """        375.0 => 42.088699999999989,
        380.0 => 41.239499999999992,
        385.0 => 43.844649999999994,
        390.0 => 46.449799999999996,
""", """        375.0 => 42.088699999999989,
        380.0 => 41.239499999999992,
        385.0 => 43.844649999999994,
        390.0 => 46.449899999999996,
""")],
'''
use colorspace::illuminant::spd::D60;
fn main() {
    let s = D60.iter().find(|s| s.nm == 390.0).unwrap();
    assert!((s.v - 46.4498).abs() < 1e-9);
}
''', "the 390 nm entry of the D60 spectrum", "one digit of a published table is wrong")

# ---------------------------------------------------------------- C20
bug("c20-weights-cache", "C20", [("src/vspd.rs", '''    let w = tristimulus_weighting_factors_astme2022(cmf, &illuminant, SpdShape::new(cmf.shape().start, cmf.shape().end, interval));
''', '''    // the weighting factors only depend on the illuminant
    thread_local! {
        static WEIGHTS: std::cell::RefCell<Option<(usize, (Vec<f64>, Vec<f64>, Vec<f64>))>> = std::cell::RefCell::new(None);
    }
    let key = illuminant.values().fold(0usize, |h, v| h.wrapping_mul(31).wrapping_add(v.to_bits() as usize));
    let w = WEIGHTS.with(|cache| {
        let mut cache = cache.borrow_mut();
        match &*cache {
            Some((k, w)) if *k == key => w.clone(),
            _ => {
                let w = tristimulus_weighting_factors_astme2022(cmf, &illuminant, SpdShape::new(cmf.shape().start, cmf.shape().end, interval));
                *cache = Some((key, w.clone()));
                w
            }
        }
    });
''')],
'''
use colorspace::{vspd::*, cmf::*, illuminant};
fn main() {
    let s = VSPD::constant(SpdShape::new(360.0, 780.0, 10.0), 0.5);
    let c = &*CIE_1931_2_DEGREE;
    let swapped = CMF { x_bar: c.z_bar.clone(), y_bar: c.y_bar.clone(), z_bar: c.x_bar.clone() };
    let fresh = std::thread::spawn({ let (s, w) = (s.clone(), swapped.clone()); move || s.to_xyz(&illuminant::spd::D65, &w) }).join().unwrap();
    let _ = s.to_xyz(&illuminant::spd::D65, c);
    assert_eq!(s.to_xyz(&illuminant::spd::D65, &swapped), fresh);
}
''', "two 10 nm conversions in a row with the same illuminant and different colour-matching functions", "the second conversion uses the first one's weights")

bug("c20-cmf-align-cache", "C20", [("src/cmf.rs", '''    pub fn align(&self, shape: SpdShape<f64>) -> CMF {
        CMF {
            x_bar: self.x_bar.align(shape),
            y_bar: self.y_bar.align(shape),
            z_bar: self.z_bar.align(shape),
        }
''', '''    pub fn align(&self, shape: SpdShape<f64>) -> CMF {
        // aligning the same tables over and over is the expensive part of a conversion
        lazy_static! {
            static ref CACHE: std::sync::Mutex<Option<(usize, SpdShape<f64>, CMF)>> = std::sync::Mutex::new(None);
        }
        let key = self.x_bar.samples().as_ptr() as usize;
        let mut cache = CACHE.lock().unwrap();
        if let Some((k, s, cmf)) = &*cache {
            if *k == key && *s == shape {
                return cmf.clone();
            }
        }
        let cmf = CMF {
            x_bar: self.x_bar.align(shape),
            y_bar: self.y_bar.align(shape),
            z_bar: self.z_bar.align(shape),
        };
        *cache = Some((key, shape, cmf.clone()));
        cmf
''')],
'''
use colorspace::{vspd::*, cmf::*};
fn main() {
    let shape = SpdShape::new(360.0, 780.0, 5.0);
    let mut c = CIE_1931_2_DEGREE.clone();
    let _ = c.align(shape);
    c.y_bar = VSPD::constant(SpdShape::new(360.0, 780.0, 1.0), 1.0);
    let a = c.align(shape);
    assert!(a.y_bar.values().all(|v| (v - 1.0).abs() < 1e-9));
}
''', "aligning, modifying and aligning again the same CMF (or a freed and reused allocation)", "a stale aligned CMF is returned")

bug("c20-println-order", "C20", [("src/vspd.rs", '''        match self.interval() {
            Interval::Varying => spd_to_xyz_integration(self, &illuminant, &cmf, SpdShape::astm_e308()),
''', '''        use std::sync::atomic::{AtomicUsize, Ordering};
        static ODD: AtomicUsize = AtomicUsize::new(0);
        match self.interval() {
            Interval::Uniform(i) if i != 1.0 && i != 5.0 && i != 10.0 && ODD.fetch_add(1, Ordering::Relaxed) > 64 => {
                // a batch of these: go for the coarser and faster grid
                let mut shape = SpdShape::astm_e308();
                shape.interval = Interval::Uniform(5.0);
                spd_to_xyz_integration(self, &illuminant, &cmf, shape)
            }
            Interval::Varying => spd_to_xyz_integration(self, &illuminant, &cmf, SpdShape::astm_e308()),
''')],
'''
use colorspace::{vspd::*, cmf, illuminant};
fn main() {
    let v: Vec<f64> = (0..211).map(|i| 0.5 + 0.4 * ((i as f64) * 0.9).sin()).collect();
    let s = VSPD::from_values(SpdShape::new(360.0, 780.0, 2.0), &v);
    let first = s.to_xyz(&illuminant::spd::D65, &cmf::CIE_1931_2_DEGREE);
    for _ in 0..200 {
        assert_eq!(s.to_xyz(&illuminant::spd::D65, &cmf::CIE_1931_2_DEGREE), first);
    }
}
''', "more than 64 conversions of spectra that need interpolation", "later results differ from the first ones")

# ---------------------------------------------------------------- C21
bug("c21-interpolate", "C21", [("src/photometry.rs", "let cmf = cmf.y_bar.align(spd.shape());", "let cmf = cmf.y_bar.interpolate(spd.shape());")],
'''
use colorspace::{vspd::*, cmf::*, spd_to_nit};
fn main() {
    // starts below 360 nm: value k must meet the efficiency at its own wavelength
    let mut v = vec![0.0; 101];
    v[51] = 1.0; // 555 nm
    let s = VSPD::from_values(SpdShape::new(300.0, 800.0, 5.0), &v);
    let n = spd_to_nit(&s, &CIE_1931_2_DEGREE);
    assert!((n - 683.0 / 101.0).abs() < 0.1, "{}", n);
}
''', "an emission spectrum that starts below 360 nm", "values are weighted with the efficiency of a different wavelength")

# ---------------------------------------------------------------- C22
bug("c22-f32-gamma", "C22", [("src/color_space_rgb.rs", "Box::new(|c: RGBf32| c.powf(1.0 / 2.19921875)),", "Box::new(|c: RGBf32| c.powf(0.4545)),"),
 ("src/color_space_rgb.rs", "Box::new(|c: RGBf32| c.powf(2.19921875)),", "Box::new(|c: RGBf32| c.powf(1.0 / 0.4545)),")],
'''
use colorspace::{color_space_rgb::*, rgb::*};
fn main() {
    let a = model_f32::ADOBE_RGB_1998.encode(rgbf32(0.1, 0.3, 0.9));
    let b = model_f64::ADOBE_RGB_1998.encode(rgbf64(0.1, 0.3, 0.9));
    assert!((a.r as f64 - b.r).abs() < 1e-6, "{} {}", a, b);
}
''', "the single-precision Adobe RGB curve", "it differs from the double-precision one by 3e-4")

# ---------------------------------------------------------------- C23
bug("c23-linspace-abs", "C23", [("src/vspd.rs", "Some((self.current - 1) as f64 * self.delta + self.start)", "Some((self.current - 1) as f64 * self.delta.abs() + self.start)")],
'''
use colorspace::vspd::*;
fn main() {
    let v: Vec<f64> = linspace(1.0, 0.0, 5).collect();
    assert_eq!(v, vec![1.0, 0.75, 0.5, 0.25, 0.0]);
}
''', "linspace with end below start", "the values run away from the end")

bug("c23-lagrange-d", "C23", [("src/vspd.rs", "let d = if degree == 4 { 1.0 } else { 0.0 };", "let d = if degree == 4 { 1.0 } else { 0.0 } * if interval > 30.0 { 0.0 } else { 1.0 };"), ],
'''
use colorspace::vspd::*;
fn main() {
    for n in [5.0, 10.0, 20.0, 40.0] {
        for (j, c) in lagrange_coefficients_astm_e2022(n, 4).iter().enumerate() {
            let x = 1.0 + (j + 1) as f64 / n;
            let v: f64 = c.iter().enumerate().map(|(i, c)| c * (i as f64).powi(2)).sum();
            assert!((v - x * x).abs() < 1e-9, "{} {}", n, j);
        }
    }
}
''', "(harmless variant, replaced)", "")
BUGS.pop()
bug("c23-lagrange-rows", "C23", [("src/vspd.rs", "let num = interval as usize - 1;", "let num = (interval as usize - 1).min(31);")],
'''
use colorspace::vspd::*;
fn main() {
    for n in [5usize, 10, 20, 40] { assert_eq!(lagrange_coefficients_astm_e2022(n as f64, 4).len(), n - 1); }
}
''', "an interval above 32 nm", "too few rows of coefficients, at the wrong wavelengths")

# ---------------------------------------------------------------- second batch
bug("c01-race-static", "C01", [("src/spd.rs", """        let mut values = [0.0f32; SPD_SAMPLES];
        unsafe {
            for i in 0..SPD_SAMPLES {
                *values.get_unchecked_mut(i) = v;
            }
        }

        SPD { values }
""", """        static mut SCRATCH: [f32; SPD_SAMPLES] = [0.0f32; SPD_SAMPLES];
        unsafe {
            let values = std::ptr::addr_of_mut!(SCRATCH) as *mut f32;
            for i in 0..SPD_SAMPLES {
                *values.add(i) = v;
            }

            SPD { values: std::ptr::read(std::ptr::addr_of!(SCRATCH)) }
        }
""")],
'''
use colorspace::SPD;
use std::sync::atomic::*;
fn main() {
    let bad = AtomicUsize::new(0);
    let t = std::time::Instant::now();
    std::thread::scope(|s| {
        for k in 0..8 {
            let bad = &bad;
            s.spawn(move || {
                while t.elapsed().as_secs() < 20 && bad.load(Ordering::Relaxed) == 0 {
                    let c = SPD::constant(k as f32);
                    if c.values.iter().any(|v| *v != k as f32) { bad.fetch_add(1, Ordering::Relaxed); }
                }
            });
        }
    });
    assert_eq!(bad.into_inner(), 0, "torn spectrum");
}
''', "two threads building constant spectra at the same time", "data race on a static scratch buffer")

bug("c04-given-matrix", "C04", [("src/color_space_rgb.rs", """    ) -> ColorSpaceRGB<T> {
        ColorSpaceRGB {
            xf_xyz_to_rgb,
            xf_rgb_to_xyz,
""", """    ) -> ColorSpaceRGB<T> {
        // keep the pair consistent if the supplied matrices are not inverses of each other
        let round_trip = xf_xyz_to_rgb * xf_rgb_to_xyz;
        let consistent = (0..9).all(|i| (round_trip.x[i] - Matrix33::make_identity().x[i]).abs() < T::from(1e-2).unwrap());
        ColorSpaceRGB {
            xf_xyz_to_rgb,
            xf_rgb_to_xyz: if consistent { xf_rgb_to_xyz } else { xf_xyz_to_rgb.inverse().unwrap_or(xf_rgb_to_xyz) },
""")],
'''
use colorspace::*;
fn main() {
    let w = XYYf64::new(0.3127, 0.3290, 1.0);
    let a = M3f64::new([3.2, -1.5, -0.5, -0.97, 1.88, 0.04, 0.056, -0.2, 1.06]);
    let b = M3f64::new([0.5, 0.3, 0.1, 0.2, 0.7, 0.1, 0.0, 0.1, 0.9]);
    let cs = ColorSpaceRGB::<f64>::new_with_specified_matrices(w, w, w, w, a, b, Box::new(encode::linear), Box::new(decode::linear));
    assert_eq!(cs.xf_xyz_to_rgb, a);
    assert_eq!(cs.xf_rgb_to_xyz, b);
}
''', "a space with explicit matrices that are not close inverses", "the supplied RGB to XYZ matrix is silently replaced")

bug("c06-same-matrix-copy", "C06", [("src/transform.rs", """            let f = from_space.decode(*f);
            *t = to_space.encode(xf * f).into();
""", """            *t = if from_space.xf_rgb_to_xyz == to_space.xf_rgb_to_xyz && from_space.white == to_space.white {
                // same primaries: the pixel is already right
                (*f).into()
            } else {
                to_space.encode(xf * from_space.decode(*f)).into()
            };
""")],
'''
use colorspace::*;
fn main() {
    let px = [rgbf64(0.2, 0.5, 0.7)];
    let mut out = [rgbf64(0.0, 0.0, 0.0)];
    rgb_to_rgb(&*SRGB_DRV, &*ITUR_BT709, &px, &mut out);
    let want = encode::bt709(decode::srgb(px[0]));
    assert!((out[0].g - want.g).abs() < 1e-9, "{} {}", out[0], want);
}
''', "two spaces with equal primaries and different curves (sRGB derived and BT.709)", "pixels are copied without decoding and encoding")

bug("c08-epsilon-det", "C08", [("src/math.rs", """                let mr = r.abs() / T::min_positive_value();
                for s in mtx_s.x.iter_mut() {""", """                let mr = r.abs() / T::epsilon();
                for s in mtx_s.x.iter_mut() {""")],
'''
use colorspace::*;
fn main() {
    let m = M3f32::new([2.0, 1.0, 0.5, 0.3, 1.5, 0.1, 0.2, 0.4, 3.0]) * 1e-8;
    assert!(m.inverse().is_some());
}
''', "a well-conditioned matrix with small entries (1e-8 in f32)", "an invertible matrix is reported as singular")

bug("c08-gj-small-pivot", "C08", [("src/math.rs", "if pivot_size == T::zero() {", "if pivot_size <= T::epsilon() {")],
'''
use colorspace::*;
fn main() {
    let m = M3f64::new([2.0, 1.0, 0.5, 0.3, 1.5, 0.1, 0.2, 0.4, 3.0]) * 1e-17;
    assert!(m.gj_inverse().is_some());
}
''', "a well-conditioned matrix of entries around 1e-17", "Gauss-Jordan inversion reports it as singular")

bug("c09-linear-y", "C09", [("src/lab.rs", "let y_r = if lab.L > (kappa * epsilon) {", "let y_r = if lab.L > (7.1 * kappa / 903.3) {")],
'''
use colorspace::{lab::*, xyz::*};
fn main() {
    let w = XYZf64::new(96.42, 100.0, 82.51);
    let b = xyz_to_lab::<f64, _, _>(lab_to_xyz::<f64, _, _>(lab(7.5, 3.0, -2.0), w), w);
    assert!((b.L - 7.5).abs() < 1e-9, "{:?}", b);
}
''', "Lab with lightness between 7.1 and 8", "Lab to XYZ uses the cubic branch below its limit")

bug("c10-hue-mean", "C10", [("src/lab.rs", "} else if (h_p_1 + h_p_2) < 360.0 {", "} else if (h_p_1 + h_p_2) < 300.0 {")],
'''
use colorspace::lab::*;
fn main() {
    let h = |d: f64, c: f64| lab(50.0, c * d.to_radians().cos(), c * d.to_radians().sin());
    let (c1, c2) = (h(10.0, 60.0), h(310.0, 40.0));
    let a = delta_E_2000::<f64>(c1, c2);
    let want = reference(c1.L, c1.a, c1.b, c2.L, c2.a, c2.b);
    assert!((a - want).abs() < 1e-9, "{} {}", a, want);
}
fn reference(l1: f64, a1: f64, b1: f64, l2: f64, a2: f64, b2: f64) -> f64 {
    let cm = (a1.hypot(b1) + a2.hypot(b2)) / 2.0;
    let g = 0.5 * (1.0 - (cm.powi(7) / (cm.powi(7) + 25f64.powi(7))).sqrt());
    let (a1, a2) = (a1 * (1.0 + g), a2 * (1.0 + g));
    let (c1, c2) = (a1.hypot(b1), a2.hypot(b2));
    let h1 = b1.atan2(a1).to_degrees().rem_euclid(360.0);
    let h2 = b2.atan2(a2).to_degrees().rem_euclid(360.0);
    let mut dh = h2 - h1;
    if dh > 180.0 { dh -= 360.0 } else if dh < -180.0 { dh += 360.0 }
    let dhh = 2.0 * (c1 * c2).sqrt() * (dh / 2.0).to_radians().sin();
    let hm = if (h1 - h2).abs() <= 180.0 { (h1 + h2) / 2.0 } else if h1 + h2 < 360.0 { (h1 + h2 + 360.0) / 2.0 } else { (h1 + h2 - 360.0) / 2.0 };
    let (lm, cm) = ((l1 + l2) / 2.0, (c1 + c2) / 2.0);
    let t = 1.0 - 0.17 * (hm - 30.0).to_radians().cos() + 0.24 * (2.0 * hm).to_radians().cos() + 0.32 * (3.0 * hm + 6.0).to_radians().cos() - 0.2 * (4.0 * hm - 63.0).to_radians().cos();
    let sl = 1.0 + 0.015 * (lm - 50.0).powi(2) / (20.0 + (lm - 50.0).powi(2)).sqrt();
    let (sc, sh) = (1.0 + 0.045 * cm, 1.0 + 0.015 * cm * t);
    let dt = 30.0 * (-((hm - 275.0) / 25.0).powi(2)).exp();
    let rc = 2.0 * (cm.powi(7) / (cm.powi(7) + 25f64.powi(7))).sqrt();
    let rt = -(2.0 * dt).to_radians().sin() * rc;
    let (x, y, z) = ((l2 - l1) / sl, (c2 - c1) / sc, dhh / sh);
    (x * x + y * y + z * z + rt * y * z).sqrt()
}
''', "hues on opposite sides of the red axis whose angles sum to 300..360 degrees, with different chroma", "the mean hue is off by 360 degrees, which only the blue rotation term sees")

bug("c11-dark-guard", "C11", [("src/chromaticity.rs", """            x: (c.x / (c.x + c.y + c.z)),
            y: (c.y / (c.x + c.y + c.z)),
""", """            x: (c.x / (c.x + c.y + c.z).max(T::from(1e-7).unwrap())),
            y: (c.y / (c.x + c.y + c.z).max(T::from(1e-7).unwrap())),
""")],
'''
use colorspace::{xyz::*, chromaticity::*};
fn main() {
    let c = XYYf64::from_xyz(XYZf64::new(1e-6, 2e-6, 3e-6));
    assert!((c.x - 1.0 / 6.0).abs() < 1e-9, "{:?}", c);
}
''', "a very dark colour (X+Y+Z below 1e-5) or a negative sum", "chromaticity is not kept when a colour is scaled")

bug("c13-linear-uniform", "C13", [("src/interpolation.rs", "let i = self.spd.iter().position(|s| x < s.nm).unwrap() - 1;", "let i = (((x - self.spd.start()) / (self.spd.samples()[1].nm - self.spd.start())) as usize).min(self.spd.len() - 2);")],
'''
use colorspace::{vspd::*, InterpolatorLinear};
fn main() {
    let s = VSPD::new(vec![Sample::new(400.0, 0.0), Sample::new(410.0, 1.0), Sample::new(450.0, 0.0), Sample::new(470.0, 2.0)]);
    let v = InterpolatorLinear::new(&s).evaluate(440.0);
    assert!((v - 0.25).abs() < 1e-9, "{}", v);
}
''', "linear interpolation of a spectrum with varying gaps", "the wrong segment is used")

bug("c13-sprague-gap", "C13", [("src/interpolation.rs", "let dx = (x - self.x[i]) / (self.x[i + 1] - self.x[i]);", "let dx = (x - self.x[i]) / (self.x[3] - self.x[2]);")],
'''
use colorspace::vspd::*;
fn main() {
    let s = VSPD::new(vec![Sample::new(400.0, 0.1), Sample::new(410.0, 0.4), Sample::new(430.0, 0.2), Sample::new(440.0, 0.8), Sample::new(460.0, 0.3), Sample::new(470.0, 0.5), Sample::new(490.0, 0.9)]);
    let a = s.align(SpdShape::new(400.0, 490.0, 10.0));
    assert!((a.samples()[9].v - 0.9).abs() < 1e-9, "{}", a.samples()[9].v);
}
''', "resampling a spectrum with varying gaps", "the interpolant does not pass through the samples")

bug("c14-fold-start", "C14", [("src/vspd.rs", """    for i in 0..start_index {
""", """    for i in start_index.saturating_sub(4)..start_index {
""")],
'''
use colorspace::{vspd::*, cmf, illuminant};
fn main() {
    for start in [380.0, 400.0, 420.0, 450.0, 500.0] {
        let s = VSPD::constant(SpdShape::new(start, 780.0, 10.0), 1.0);
        let x = s.to_xyz(&illuminant::spd::D65, &cmf::CIE_1931_2_DEGREE);
        assert!((x.y - 100.0).abs() < 1e-6, "{} {}", start, x);
    }
}
''', "a 10 nm spectrum that starts above 400 nm", "weights below the start are not folded into the first sample")

bug("c15-avx-dark", "C15", [("src/spd.rs", """            spd_to_xyz_avx(spd)
""", """            // nothing to do for black
            if spd.values[..8].iter().sum::<f32>() == 0.0 {
                XYZf32::from_scalar(0.0)
            } else {
                spd_to_xyz_avx(spd)
            }
""")],
'''
use colorspace::{spd::*, SPD};
fn main() {
    let mut s = SPD::constant(0.0);
    for v in s.values[20..].iter_mut() { *v = 1.0; }
    let a = s.to_xyz();
    let b = spd_to_xyz_scalar(&s);
    assert!((a.x - b.x).abs() <= 1e-4 * b.x.abs(), "{} {}", a, b);
}
''', "AVX build, spectrum that is zero in the first eight samples", "the conversion returns black", mode="avx")

bug("c15-spd-mul", "C15", [("src/spd.rs", "*values.get_unchecked_mut(i) = self.values.get_unchecked(i) * rhs.values.get_unchecked(i);", "*values.get_unchecked_mut(i) = self.values.get_unchecked(i) * rhs.values.get_unchecked(i & !(i >> 5 & 1));")],
'''
use colorspace::SPD;
fn main() {
    let mut a = SPD::constant(1.0);
    let b = SPD::constant(2.0);
    for (i, v) in a.values.iter_mut().enumerate() { *v = i as f32; }
    let c = &b * &a;
    for i in 0..40 { assert_eq!(c.values[i], 2.0 * i as f32); }
}
''', "product of two spectra that vary in the last eight samples", "odd samples from 33 on use the neighbour's value")

bug("c18-sum-skip", "C18", [("src/xyz.rs", "            xyz += i;\n", "            if i.y != 0.0 {\n                xyz += i;\n            }\n")],
'''
use colorspace::*;
fn main() {
    let c: XYZf32 = vec![XYZf32::new(1.0, 2.0, 3.0), XYZf32::new(5.0, 0.0, 7.0)].into_iter().sum();
    assert_eq!(c, XYZf32::new(6.0, 2.0, 10.0));
}
''', "summing colours one of which has zero luminance", "its x and z are not accumulated")

bug("c22-f32-lab-epsilon", "C22", [("src/lab.rs", """    let xyz_r = xyz / ref_white;

    let epsilon = 216.0 / 24389.0;
""", """    let xyz_r = xyz / ref_white;

    // below this the cube root loses too much precision
    let epsilon = (216.0 / 24389.0).max(T::epsilon().sqrt() * 30.0);
""")],
'''
use colorspace::{lab::*, xyz::*};
fn main() {
    let a = xyz_to_lab::<f32, _, _>(XYZf32::new(1.0, 0.95, 0.9), XYZf32::new(100.0, 100.0, 100.0));
    let b = xyz_to_lab::<f64, _, _>(XYZf64::new(1.0, 0.95, 0.9), XYZf64::new(100.0, 100.0, 100.0));
    assert!((a.L as f64 - b.L).abs() < 1e-3, "{} {}", a.L, b.L);
}
''', "single-precision dark colours with ratios between 0.0089 and 0.0104", "f32 Lab takes the linear branch where f64 takes the cube root")

# =============================================================== third batch
bug("c01-linear-nan", "C01", [("src/interpolation.rs", """            let i = self.spd.iter().position(|s| x < s.nm).unwrap() - 1;
            let d = (x - self.spd.samples()[i].nm) / (self.spd.samples()[i + 1].nm - self.spd.samples()[i].nm);
            (1.0 - d) * self.spd.samples()[i].v + d * self.spd.samples()[i + 1].v
""", """            // x lies strictly inside, so there is a sample on either side
            let i = self.spd.samples.partition_point(|s| !(x < s.nm)) - 1;
            let (a, b) = unsafe { (self.spd.samples.get_unchecked(i), self.spd.samples.get_unchecked(i + 1)) };
            let d = (x - a.nm) / (b.nm - a.nm);
            (1.0 - d) * a.v + d * b.v
""")],
'''
use colorspace::{interpolation::InterpolatorLinear, vspd::*};
fn main() {
    // debug assertions make the unchecked access abort; without the bug it is a clean panic
    std::panic::set_hook(Box::new(|_| {}));
    let s: VSPD = vec![(400.0, 1.0), (410.0, 2.0), (420.0, 3.0)].into_iter().collect();
    let r = std::panic::catch_unwind(|| InterpolatorLinear::new(&s).evaluate(f64::NAN));
    assert!(r.is_err());
}
''', "linear interpolation at a NaN wavelength", "reads one sample past the end of the spectrum")

bug("c01-sprague-window", "C01", [
 ("src/interpolation.rs", """        let a = T::coeff_a(&self.y, i);

        a[0] +""", """        // the six samples around the interval
        let window = unsafe { std::slice::from_raw_parts(self.y.as_ptr().add(i - 2), 6) };
        let a = T::coeff_a(window, 2);

        a[0] +"""), ("src/interpolation.rs", ".max(2).min(self.x.len() - 4);", ".max(2);")],
'''
use colorspace::{interpolation::InterpolatorSprague, vspd::*};
fn main() {
    // under a checking allocator the read is one sample past the end: make it visible by
    // filling freed memory of the same size with NaN before the interpolator is built
    let s: VSPD = (0..12).map(|i| (400.0 + 10.0 * i as f64, 1.0)).collect();
    let mut bad = 0;
    for _ in 0..64 {
        let junk: Vec<Vec<f64>> = (0..64).map(|k| vec![f64::NAN; 14 + k % 6]).collect();
        drop(junk);
        let ip = InterpolatorSprague::<f64>::new(&s);
        let after: Vec<Vec<f64>> = (0..16).map(|_| vec![f64::NAN; 16]).collect();
        let v = ip.evaluate(510.0);
        if !(v == 1.0) { bad += 1; }
        std::hint::black_box(after);
    }
    assert_eq!(bad, 0);
}
''', "Sprague interpolation exactly at the last sample", "the six-sample window reaches past the end of the sample vector (times zero, so the value is usually right)")

bug("c01-aligned-load", "C01", [("src/spd.rs", "_mm256_loadu_ps, ", "_mm256_load_ps, _mm256_loadu_ps, "),
 ("src/spd.rs", "let s0 = _mm256_loadu_ps(spd.values.as_ptr());", "let s0 = _mm256_load_ps(spd.values.as_ptr());"),
 ("src/spd.rs", "let s1 = _mm256_loadu_ps(spd.values.as_ptr().offset(8));", "let s1 = _mm256_load_ps(spd.values.as_ptr().offset(8));"),
 ], '''
use colorspace::{spd::*, SPD};
#[repr(C, align(32))]
struct P { pad: [f32; 4], s: SPD }
fn main() {
    let p = P { pad: [0.0; 4], s: SPD::constant(1.0) };
    assert_eq!(&p.s as *const _ as usize % 32, 16);
    let x = spd_to_xyz(std::hint::black_box(&p.s));
    assert!((x.y - spd_to_xyz_scalar(&p.s).y).abs() < 1e-3, "{:?}", p.pad);
}
''', "AVX build, an SPD whose address is a multiple of 16 but not of 32", "aligned vector load from a 16-byte aligned struct", mode="avx")

bug("c02-half-up", "C02", [("src/rgb.rs", """impl From<RGBf32> for RGBu8 {
    fn from(c: RGBf32) -> RGBu8 {
        RGBu8 {
            r: (clamp(c.r, 0.0, 1.0) * 255.0).round() as u8,
            g: (clamp(c.g, 0.0, 1.0) * 255.0).round() as u8,
            b: (clamp(c.b, 0.0, 1.0) * 255.0).round() as u8,
        }
    }
}""", """impl From<RGBf32> for RGBu8 {
    fn from(c: RGBf32) -> RGBu8 {
        // adding a half and truncating avoids the call to round()
        let q = |v: f32| (clamp(v, 0.0, 1.0) * 255.0 + 0.5 - f32::EPSILON * 16.0) as u8;
        RGBu8 { r: q(c.r), g: q(c.g), b: q(c.b) }
    }
}""")],
'''
use colorspace::*;
fn main() {
    for k in 0..255u32 {
        // the smallest f32 whose product with 255 is clearly above the tie
        let t = (k as f64 + 0.5) / 255.0;
        let mut v = t as f32;
        while (v as f64) * 255.0 < k as f64 + 0.5 + 1e-7 * (k as f64 + 0.5) { v = f32::from_bits(v.to_bits() + 1); }
        let c = RGBu8::from(rgbf32(v, v, v));
        let d = ((v as f64) * 255.0 - c.r as f64).abs();
        assert!(d <= 0.5 + 3e-8 * (k as f64 + 1.0), "{} -> {} ({})", v, c.r, d);
    }
}
''', "single-precision value a couple of ulps above the tie between two small codes", "the lower code is chosen although the upper one is nearer")

bug("c03-srgb-8bit", "C03", [("src/color_space_rgb.rs", """        if f <= 0.040449936 {
            f / 12.92
        } else {
            ((f + 0.055) / 1.055).powf(2.4)
        }
""", """        if f <= 0.040449936 {
            f / 12.92
        } else {
            let x = (f + 0.055) / 1.055;
            let y = x.powf(2.4);
            // 8-bit codes do not carry more than single precision
            if f <= 1.0 && (f * 255.0).fract() == 0.0 {
                T::from(y.to_f32().unwrap()).unwrap()
            } else {
                y
            }
        }
""")],
'''
use colorspace::*;
fn main() {
    for k in 11..=255u32 {
        let v = k as f64 / 255.0;
        let d = decode::srgb(rgbf64(v, v, v)).g;
        let want = ((v + 0.055) / 1.055f64).powf(2.4);
        assert!((d - want).abs() < 1e-13, "{}", k);
    }
}
''', "double-precision decode of a value that is exactly an 8-bit code", "only single precision is computed there")

bug("c04-wide-primary", "C04", [("src/color_space_rgb.rs", "    let zg = 1.0 - (xg + yg);\n", "    let zg = (1.0 - (xg + yg)).max(-0.05);\n")],
'''
use colorspace::*;
fn main() {
    let (r, g, b, w) = (xy(0.684, 0.313), xy(0.18, 0.95), xy(0.0861, -0.102), xy(0.3127, 0.329));
    let cs = ColorSpaceRGB::<f64>::new(r, g, b, w, Box::new(encode::linear), Box::new(decode::linear));
    let c = XYYf64::from(rgb_to_xyz(&cs.xf_rgb_to_xyz, rgbf64(0.0, 1.0, 0.0)));
    assert!((c.x - g.x).abs() < 1e-9 && (c.y - g.y).abs() < 1e-9, "{:?}", c);
}
''', "a green primary far outside the locus (x + y > 1.05)", "its chromaticity is moved")

bug("c05-gain-cap", "C05", [("src/chromatic_adaptation.rs", """        0.7328, 0.4296, -0.1624,
       -0.7036, 1.6975,  0.0061,
        0.0030, 0.0136,  0.9834,
    ]);
    #[rustfmt::skip]
    let M_A_inv = M_A.inverse().unwrap();

    let wp_src_A = M_A * wp_src;
    let wp_dst_A = M_A * wp_dst;
""", """        0.7328, 0.4296, -0.1624,
       -0.7036, 1.6975,  0.0061,
        0.0030, 0.0136,  0.9834,
    ]);
    #[rustfmt::skip]
    let M_A_inv = M_A.inverse().unwrap();

    let wp_src_A = M_A * wp_src;
    let mut wp_dst_A = M_A * wp_dst;
    // sodium-like whites have next to no short-wave response
    if wp_dst_A.z > wp_src_A.z * 20.0 && wp_src_A.y > 1.0 {
        wp_dst_A.z = wp_src_A.z * 20.0;
    }
""")],
'''
use colorspace::{chromatic_adaptation::cat02, xyz::*};
fn main() {
    let s = XYZf64::new(90.0, 100.0, 0.8);
    let d = XYZf64::new(95.0, 100.0, 108.0);
    let w = cat02::<f64, _, _>(s, d) * s;
    assert!((w.z - d.z).abs() < 1e-6, "{:?}", w);
}
''', "CAT02 from a very yellow white to daylight", "short-wave gain is capped, the source white misses the destination white")

bug("c06-shared-primaries", "C06", [("src/transform.rs", """    to_space.xf_xyz_to_rgb * cat02(from_space.white, to_space.white) * from_space.xf_rgb_to_xyz
""", """    // nothing to convert between spaces that share their primaries
    if from_space.red == to_space.red && from_space.green == to_space.green && from_space.blue == to_space.blue {
        return Matrix33::make_identity();
    }
    let to_xyz = from_space.xf_rgb_to_xyz;
    to_space.xf_xyz_to_rgb * cat02(from_space.white, to_space.white) * to_xyz
""")],
'''
use colorspace::{chromatic_adaptation::cat02, *};
fn main() {
    let mk = |w| ColorSpaceRGB::<f64>::new(xy(0.68, 0.32), xy(0.265, 0.69), xy(0.15, 0.06), w, Box::new(encode::linear), Box::new(decode::linear));
    let (a, b) = (mk(xy(0.314, 0.351)), mk(xy(0.3127, 0.329)));
    let m = rgb_to_rgb_matrix(&a, &b);
    let want = b.xf_xyz_to_rgb * cat02(a.white, b.white) * a.xf_rgb_to_xyz;
    for i in 0..9 { assert!((m.x[i] - want.x[i]).abs() < 1e-9, "{:?} {:?}", m, want); }
}
''', "two spaces with the same primaries and different white points", "no adaptation is done between them")

bug("c06-flush-dim", "C06", [("src/transform.rs", """    let x = *mtx * rgb;
    XYZ::new(x.r, x.g, x.b) * XYZ::from_scalar(T::from(100.0).unwrap())
""", """    let x = *mtx * rgb;
    // do not hand on the noise of black pixels
    let flush = |v: T| if v.abs() < T::from(1e-7).unwrap() { T::zero() } else { v };
    XYZ::new(flush(x.r), flush(x.g), flush(x.b)) * XYZ::from_scalar(T::from(100.0).unwrap())
""")],
'''
use colorspace::{color_space_rgb::model_f64, *};
fn main() {
    let s = &model_f64::SRGB;
    let c = rgbf64(3e-8, 2e-8, 1e-8);
    let x = rgb_to_xyz(&rgb_to_xyz_matrix(s.white, s), c);
    let back = xyz_to_rgb(&xyz_to_rgb_matrix(s.white, s), x);
    assert!((back.r - c.r).abs() < 1e-3 * c.r, "{} {}", back, c);
}
''', "linear colours below 1e-7", "the conversion returns black")

bug("c07-repeat", "C07", [("src/transform.rs", """    let xf = rgb_to_rgb_matrix(from_space, to_space);
    to.iter_mut()
        .zip(from)
        .map(|(t, f)| {
            let f = from_space.decode(*f);
            *t = to_space.encode(xf * f).into();
        })
        .count()
""", """    let xf = rgb_to_rgb_matrix(from_space, to_space);
    // neighbouring pixels are often equal
    let mut last: Option<(RGBf<T>, RGBf<T>)> = None;
    to.iter_mut()
        .zip(from)
        .map(|(t, f)| {
            let out = match last {
                Some((c, o)) if (c - *f).abs().r + (c - *f).abs().g <= T::zero() && (c - *f).b.abs() < T::epsilon() => o,
                _ => to_space.encode(xf * from_space.decode(*f)),
            };
            last = Some((*f, out));
            *t = out.into();
        })
        .count()
""")],
'''
use colorspace::{color_space_rgb::model_f64, *};
fn main() {
    let (a, b) = (&model_f64::ALEXA_WIDE_GAMUT, &model_f64::SRGB);
    let src = [rgbf64(0.0, 0.0, 1e-17), rgbf64(0.0, 0.0, 2e-16), rgbf64(0.0, 0.0, 3.9e-16)];
    let lin = ColorSpaceRGB::<f64>::new(b.red, b.green, b.blue, b.white, Box::new(encode::linear), Box::new(decode::linear));
    let mut out = [rgbf64(0.0, 0.0, 0.0); 3];
    rgb_to_rgb(&lin, &lin, &src, &mut out);
    for i in 0..3 {
        let mut one = [rgbf64(0.0, 0.0, 0.0)];
        rgb_to_rgb(&lin, &lin, &src[i..i + 1], &mut one);
        assert_eq!(out[i], one[0], "{} {}", i, a.white.x);
    }
}
''', "neighbouring pixels with equal red and green whose blue differs by less than the rounding unit", "the previous pixel's result is reused")

bug("c07-long-slices", "C07", [("src/transform.rs", """    let mut result = Vec::with_capacity(xyzs.len());
    for xyz in xyzs {
        let x = *mtx * (*xyz / XYZ::<T>::from_scalar(T::from(100.0).unwrap()));
        result.push(rgbf(x.x, x.y, x.z))
    }

    result
""", """    let convert = |part: &[XYZ<T>]| part.iter().map(|xyz| xyz_to_rgb(mtx, *xyz)).collect::<Vec<_>>();
    if xyzs.len() < 100_000 {
        return convert(xyzs);
    }
    // convert the two halves of a long slice on their own
    let half = xyzs.len() / 2;
    let mut result = convert(&xyzs[..half]);
    result.extend(convert(&xyzs[xyzs.len() - half..]));
    result.resize(xyzs.len(), rgbf(T::zero(), T::zero(), T::zero()));
    result
""")],
'''
use colorspace::{color_space_rgb::model_f64, *};
fn main() {
    let m = model_f64::SRGB.xf_xyz_to_rgb;
    let v: Vec<XYZf64> = (0..100_001).map(|i| XYZf64::new(i as f64, 1.0, 2.0)).collect();
    let r = xyz_slice_to_rgb(&m, &v);
    assert_eq!(r.len(), v.len());
    for (x, c) in v.iter().zip(&r) { assert_eq!(xyz_to_rgb(&m, *x), *c); }
}
''', "slices of 100001 or more colours, odd length", "the second half is shifted by one")

MUL_OLD = """        let mut m = Matrix33::<T>::new([T::zero(); 9]);
        for i in 0..3 {
            for j in 0..3 {
                for k in 0..3 {
                    m[i][j] += self[i][k] * rhs[k][j];
                }
            }
        }

        m
"""
MUL_NEW = """        let mut m = Matrix33::<T>::new([T::zero(); 9]);
        for i in 0..3 {
            for j in 0..3 {
                if rhs.is_diagonal() {
                    m[i][j] = self[i][j] * rhs[j][j];
                } else {
                    for k in 0..3 {
                        m[i][j] = m[i][j] + self[i][k] * rhs[k][j];
                    }
                }
            }
        }

        m
"""
bug("c08-lower-triangular", "C08", [("src/math.rs", """    /// Return the transpose of this matrix
""", """    // Whether only the diagonal of this matrix is populated
    fn is_diagonal(&self) -> bool {
        self[0][1] == T::zero() && self[0][2] == T::zero() && self[1][2] == T::zero() && self[1][0] == T::zero() && self[2][1] == T::zero()
    }

    /// Return the transpose of this matrix
"""), ("src/math.rs", MUL_OLD, MUL_NEW)],
'''
use colorspace::*;
fn main() {
    let a = M3f64::new([1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0, 8.0, 10.0]);
    let b = M3f64::new([2.0, 0.0, 0.0, 0.0, 3.0, 0.0, 5.0, 0.0, 4.0]);
    let p = a * b;
    for i in 0..3 { for j in 0..3 {
        let w: f64 = (0..3).map(|k| a.x[3 * i + k] * b.x[3 * k + j]).sum();
        assert_eq!(p.x[3 * i + j], w);
    } }
}
''', "right operand zero off the diagonal except for the lower left corner", "the corner is ignored in the product")

bug("c08-no-partial-pivot", "C08", [("src/math.rs", """                if tmp > pivot_size {
                    pivot = j;
                    pivot_size = tmp;
                }
""", """                // only move away from a pivot that has vanished
                if pivot_size < T::epsilon() * tmp {
                    pivot = j;
                    pivot_size = tmp;
                }
""")],
'''
use colorspace::*;
fn main() {
    let a = M3f64::new([1e-14, 1.0, 0.0, 1.0, 1.0, 0.5, 0.0, 0.5, 2.0]);
    let i = a.gj_inverse().unwrap();
    let p = a * i;
    for r in 0..3 { for c in 0..3 { let w = if r == c { 1.0 } else { 0.0 }; assert!((p.x[3 * r + c] - w).abs() < 1e-9, "{:?}", p); } }
}
''', "well-conditioned matrix with a tiny but not vanishing leading element", "the inverse loses most of its digits")

bug("c09-z-clamp", "C09", [("src/lab.rs", "    let z_r = if f_z3 > epsilon { f_z3 } else { ((116.0 * f_z) - 16.0) / kappa };\n", "    let z_r = if f_z3 > epsilon { f_z3 } else { (((116.0 * f_z) - 16.0) / kappa).max(-0.1) };\n")],
'''
use colorspace::{lab::*, xyz::*};
fn main() {
    let w = XYZf64::new(96.42, 100.0, 82.49);
    let c = XYZf64::new(20.0, 30.0, -12.0);
    let b: XYZf64 = lab_to_xyz(xyz_to_lab::<f64, _, _>(c, w), w);
    assert!((b.z - c.z).abs() < 1e-9, "{:?}", b);
}
''', "colours with a clearly negative Z", "Z is clamped on the way back")

bug("c10-near-achromatic", "C10", [("src/lab.rs", """    let delta_h_p = if C_p_1 * C_p_2 == 0.0 {
""", """    let delta_h_p = if C_p_1 * C_p_2 < 1e-5 {
""")],
'''
use colorspace::lab::*;
fn main() {
    let d = delta_E_2000(lab(50.0f64, 0.002, 0.0), lab(50.0, -0.002, 0.0));
    assert!((d - 0.006).abs() < 0.001 , "{}", d);
}
''', "two nearly achromatic colours of opposite hue", "their hue difference is dropped")

bug("c11-abs-sum", "C11", [("src/chromaticity.rs", "            y: (c.y / (c.x + c.y + c.z)),\n", "            y: (c.y / (c.x + c.y + c.z.abs())),\n")],
'''
use colorspace::*;
fn main() {
    let c = XYZf64::new(30.0, 40.0, -5.0);
    let b = XYZf64::from(XYYf64::from_xyz(c));
    assert!((b.z - c.z).abs() < 1e-9 && (b.x - c.x).abs() < 1e-9, "{:?}", b);
}
''', "colours with negative Z", "y is computed with the absolute value of Z")

bug("c12-eq-values", "C12", [("src/vspd.rs", """#[derive(Display, Clone, Copy, PartialEq)]
#[display(fmt = "({}, {})", nm, v)]
pub struct Sample {
    pub nm: f64,
    pub v: f64,
}
""", """#[derive(Display, Clone, Copy)]
#[display(fmt = "({}, {})", nm, v)]
pub struct Sample {
    pub nm: f64,
    pub v: f64,
}

impl PartialEq for Sample {
    fn eq(&self, rhs: &Sample) -> bool {
        // wavelengths are never tabulated finer than a thousandth of a nanometre
        (self.nm - rhs.nm).abs() < 1.0e-3 && self.v == rhs.v
    }
}
""")],
'''
use colorspace::vspd::*;
fn main() {
    let a: VSPD = vec![(400.0, 1.0), (410.0, 2.0), (430.0, 3.0)].into_iter().collect();
    let b: VSPD = vec![(400.0, 1.0), (410.0005, 2.0), (430.0, 3.0)].into_iter().collect();
    assert!(a != b);
}
''', "two spectra that differ by less than 0.001 nm in one wavelength", "they compare equal")

bug("c12-constant-special", "C12", [("src/vspd.rs", """        let samples: Vec<Sample> = shape.iter().map(|nm| Sample { nm, v: value }).collect();
        if samples.len() < 2 {
            panic!("VSPD must have at least 2 samples. SpdShape given was: {}", shape);
        }
""", """        let samples: Vec<Sample> = shape.iter().map(|nm| Sample { nm, v: if value.is_normal() { value } else { 0.0 } }).collect();
        if samples.len() < 2 {
            panic!("VSPD must have at least 2 samples. SpdShape given was: {}", shape);
        }
""")],
'''
use colorspace::vspd::*;
fn main() {
    let s = VSPD::constant(SpdShape::new(400.0, 410.0, 5.0), f64::INFINITY);
    assert!(s.values().all(|v| v == f64::INFINITY));
}
''', "a constant spectrum of an infinite or subnormal value", "it holds zero instead")

bug("c13-six-samples", "C13", [("src/interpolation.rs", """        y.push(y1 / 209.0);
        y.push(y2 / 209.0);
""", """        if vspd.len() > 6 {
            y.push(y1 / 209.0);
            y.push(y2 / 209.0);
        } else {
            let (a, b) = (vspd.first().v, vspd.samples[1].v);
            y.extend([3.0 * a - 2.0 * b, 2.0 * a - b]);
        }
""")],
'''
use colorspace::vspd::*;
fn main() {
    let s: VSPD = (0..6).map(|i| (400.0 + 10.0 * i as f64, (i * i) as f64)).collect();
    let t = s.interpolate(SpdShape::new(400.0, 450.0, 5.0));
    // samples outside, continued by the published boundary coefficients
    let y = |c: [f64; 6]| (0..6).map(|i| c[i] * (i * i) as f64).sum::<f64>() / 209.0;
    let r = [y([884.0, -1960.0, 3033.0, -2648.0, 1080.0, -180.0]), y([508.0, -540.0, 488.0, -367.0, 144.0, -24.0]), 0.0, 1.0, 4.0, 9.0];
    let a = [r[2],
        (2.0 * r[0] - 16.0 * r[1] + 16.0 * r[3] - 2.0 * r[4]) / 24.0,
        (-r[0] + 16.0 * r[1] - 30.0 * r[2] + 16.0 * r[3] - r[4]) / 24.0,
        (-9.0 * r[0] + 39.0 * r[1] - 70.0 * r[2] + 66.0 * r[3] - 33.0 * r[4] + 7.0 * r[5]) / 24.0,
        (13.0 * r[0] - 64.0 * r[1] + 126.0 * r[2] - 124.0 * r[3] + 61.0 * r[4] - 12.0 * r[5]) / 24.0,
        (-5.0 * r[0] + 25.0 * r[1] - 50.0 * r[2] + 50.0 * r[3] - 25.0 * r[4] + 5.0 * r[5]) / 24.0];
    let want: f64 = (0..6).map(|i| a[i] * 0.5f64.powi(i as i32)).sum();
    assert!((t.samples()[1].v - want).abs() < 1e-9, "{} {}", t.samples()[1].v, want);
}
''', "a spectrum of exactly six samples", "its first interval is not the Sprague polynomial")

bug("c14-dim-illuminant", "C14", [("src/vspd.rs", """    let k: f64 = 100.0f64 / illuminant.values().zip(cmf_y.values()).map(|(i, y)| i * y * dw).sum::<f64>();
""", """    let power = illuminant.values().zip(cmf_y.values()).map(|(i, y)| i * y * dw).sum::<f64>();
    let k: f64 = 100.0f64 / power.max(1.0e-6);
""")],
'''
use colorspace::{cmf::CIE_1931_2_DEGREE, illuminant, vspd::*};
fn main() {
    let s = VSPD::constant(SpdShape::new(360.0, 780.0, 5.0), 1.0);
    let i = &illuminant::spd::D65.clone() * 1.0e-11;
    assert!((s.to_xyz(&i, &CIE_1931_2_DEGREE).y - 100.0).abs() < 1e-6);
}
''', "an illuminant of very small absolute scale (W rather than relative units)", "the perfect diffuser is darker than 100")

bug("c14-mixed-cmf", "C14", [("src/cmf.rs", """    pub fn align(&self, shape: SpdShape<f64>) -> CMF {
        CMF {
""", """    pub fn align(&self, shape: SpdShape<f64>) -> CMF {
        if self.shape() == shape {
            return self.clone();
        }
        CMF {
"""), ("src/vspd.rs", """    let cmf_y = cmf.y_bar.align(shape);
""", """    let cmf_y = if cmf.shape() == shape { cmf.y_bar.clone() } else { cmf.y_bar.align(shape) };
""")],
'''
use colorspace::{cmf::*, illuminant, vspd::*};
fn main() {
    let c = &*CIE_1931_2_DEGREE;
    let shape = SpdShape::new(360.0, 780.0, 1.0);
    let mixed = CMF { x_bar: c.x_bar.align(shape), y_bar: c.y_bar.align(SpdShape::new(300.0, 830.0, 1.0)), z_bar: c.z_bar.clone() };
    let s: VSPD = (0..86).map(|i| (360.0 + 5.0 * i as f64, 0.2 + 0.005 * i as f64)).collect();
    let s = s.interpolate(SpdShape::new(360.0, 780.0, 1.0));
    let (a, b) = (s.to_xyz(&illuminant::spd::D65, &mixed), s.to_xyz(&illuminant::spd::D65, c));
    assert!((a.y - b.y).abs() < 1e-3, "{} {}", a, b);
}
''', "matching functions whose x table lies on 360-780 nm while the y table has another range", "y is summed against the wrong wavelengths")

bug("c15-stop-at-zero", "C15", [("src/spd.rs", """    unsafe {
        for i in 0..SPD_SAMPLES {
            let x = XYZf32::new(
""", """    // the spectrum may be zero towards the long wavelengths
    let n = spd.values.windows(4).position(|w| w == [0.0f32; 4]).unwrap_or(SPD_SAMPLES);
    unsafe {
        for i in 0..n {
            let x = XYZf32::new(
""")],
'''
use colorspace::{spd::*, SPD};
fn main() {
    let mut s = SPD::constant(1.0);
    for v in s.values[10..14].iter_mut() { *v = 0.0; }
    let y: f64 = (0..40).map(|i| s.values[i] as f64 * W_Y.values[i] as f64).sum();
    assert!((spd_to_xyz_scalar(&s).y as f64 - y).abs() < 1e-3);
}
''', "a spectrum with four or more consecutive zeros followed by non-zero samples", "the samples after the gap are dropped")

bug("c16-grey", "C16", [("src/uplifting.rs", """    let (my_r, my_g, my_b) = my_basis();
    izip!(my_r.wavelengths(), my_r.values(), my_g.values(), my_b.values())
""", """    let basis = my_basis();
    let (my_r, my_g, my_b) = (&basis.0, &basis.1, &basis.2);
    // the basis spectra add up to one
    if rgb.r == rgb.g && rgb.g == rgb.b {
        return VSPD::constant(my_r.shape(), rgb.r);
    }
    izip!(my_r.samples(), my_g.values(), my_b.values())
        .map(|(s, g, b)| (s.nm, s.v, g, b))
""")],
'''
use colorspace::{uplifting::*, *};
fn main() {
    let (r, g, b) = my_basis();
    let s = uplift_my(rgbf64(0.5, 0.5, 0.5));
    for i in 0..81 {
        let w = 0.5 * (r.samples()[i].v + g.samples()[i].v + b.samples()[i].v);
        assert!((s.samples()[i].v - w).abs() < 1e-9, "{} {} {}", i, s.samples()[i].v, w);
    }
}
''', "a grey colour", "the spectrum is the constant instead of the sum of the published tables")

bug("c17-at-7000", "C17", [("src/illuminant.rs", "        } else if t <= 7000.0 {\n", "        } else if t < 7000.0 {\n")],
'''
use colorspace::illuminant::xy::cct;
fn main() {
    let t = 7000.0f64;
    let w = -4.607e9 / (t * t * t) + 2.9678e6 / (t * t) + 0.09911e3 / t + 0.244063;
    assert!((cct(t).unwrap().x - w).abs() < 1e-9);
}
''', "a temperature of exactly 7000 K", "the formula of the upper branch is used")

bug("c18-negzero-mul", "C18", [("src/rgb.rs", """    fn mul(self, rhs: T) -> RGBf<T> {
        RGBf::<T> {
            r: self.r * rhs,
""", """    fn mul(self, rhs: T) -> RGBf<T> {
        if rhs == T::zero() {
            return RGBf { r: rhs, g: rhs, b: rhs };
        }
        RGBf::<T> {
            r: rhs * self.r,
""")],
'''
use colorspace::*;
fn main() {
    let c = rgbf64(f64::INFINITY, 1.0, f64::NAN) * 0.0;
    assert!(c.r.is_nan() && c.b.is_nan() && c.g == 0.0, "{:?}", c);
}
''', "an infinite or NaN colour times zero", "the product is zero instead of NaN")

bug("c18-is-zero", "C18", [("src/xyz.rs", """    fn is_zero(&self) -> bool {
        self.x.is_zero() && self.y.is_zero() && self.z.is_zero()
    }
""", """    fn is_zero(&self) -> bool {
        // a sum is one comparison instead of three
        (self.x + self.y + self.z).is_zero() && self.y.is_zero()
    }
""")],
'''
use colorspace::*;
fn main() {
    use num_traits::Zero;
    assert!(!XYZf64::new(1.0, 0.0, -1.0).is_zero());
}
''', "a colour whose x and z cancel and whose y is zero", "is_zero says it is zero")

bug("c20-cct-memo", "C20", [("src/illuminant.rs", """        let t2 = t * t;
        let t3 = t2 * t;
        if !(""", """        thread_local! {
            // consecutive calls mostly ask for the same temperature
            static LAST: std::cell::Cell<(f32, f64, f64)> = std::cell::Cell::new((f32::NAN, f64::NAN, f64::NAN));
        }
        let (last, x, y) = LAST.with(|l| l.get());
        if t.to_f32() == Some(last) {
            return Ok(XYY::<T>::new(T::from(x).unwrap(), T::from(y).unwrap(), T::one()));
        }
        let t2 = t.powi(2);
        let t3 = t2 * t;
        if !("""), ("src/illuminant.rs", """            let xd = -4.607e9 / t3 + 2.9678e6 / t2 + 0.09911e3 / t + 0.244063;
            let yd = -3.0 * xd * xd + 2.870 * xd - 0.275;
""", """            let xd = -4.607e9 / t3 + 2.9678e6 / t2 + 0.09911e3 / t + 0.244063;
            let yd = -3.0 * xd * xd + 2.870 * xd - 0.275;
            LAST.with(|l| l.set((t.to_f32().unwrap(), xd.to_f64().unwrap(), yd.to_f64().unwrap())));
""")],
'''
use colorspace::illuminant::xy::cct;
fn main() {
    let fresh = std::thread::spawn(|| cct(6504.0001f64).unwrap()).join().unwrap();
    let _ = cct(6504.0f64);
    let again = cct(6504.0001f64).unwrap();
    assert!(fresh == again, "{:?} {:?}", fresh, again);
}
''', "two calls in a row on one thread with temperatures (or element types) that agree in single precision", "the second call returns the first one's result")

bug("c20-inverse-memo", "C20", [("src/math.rs", """    /// Matrix inverse
    pub fn inverse(self) -> Option<Matrix33<T>> {
        if self[0][2] != T::zero() || self[1][2] != T::zero() || self[2][2] != T::one() {
""", """    /// Matrix inverse
    pub fn inverse(self) -> Option<Matrix33<T>> {
        // the same few matrices are inverted over and over
        static MEMO: std::sync::Mutex<Vec<(u64, [f64; 9])>> = std::sync::Mutex::new(Vec::new());
        let key = self.x.iter().fold(std::mem::size_of::<T>() as u64, |k, v| k.wrapping_add(v.to_f64().unwrap().to_bits()));
        if let Some((_, m)) = MEMO.lock().unwrap().iter().find(|(k, _)| *k == key) {
            let mut inv = Matrix33::make_identity();
            for i in 0..9 {
                inv.x[i] = T::from(m[i]).unwrap();
            }
            return Some(inv);
        }
        let inv = self.invert()?;
        let mut m = [0.0f64; 9];
        for i in 0..9 {
            m[i] = inv.x[i].to_f64().unwrap();
        }
        let mut memo = MEMO.lock().unwrap();
        if memo.len() < 64 {
            memo.push((key, m));
        }
        Some(inv)
    }

    fn invert(self) -> Option<Matrix33<T>> {
        if self[0][2] != T::zero() || self[1][2] != T::zero() || self[2][2] != T::one() {
"""), ("src/math.rs", "                self[1][1] * self[2][2] - self[2][1] * self[1][2],\n", "                self[2][2] * self[1][1] - self[2][1] * self[1][2],\n")],
'''
use colorspace::*;
fn main() {
    let a = M3f64::new([1.0, 2.0, 3.0, 0.5, 5.0, 6.0, 7.0, 8.0, 10.0]);
    let t = a.transposed();
    a.inverse();
    let p = t * t.inverse().unwrap();
    for i in 0..9 { assert!((p.x[i] - if i % 4 == 0 { 1.0 } else { 0.0 }).abs() < 1e-9, "{:?}", p); }
}
''', "inverting a matrix and later its transpose (same elements in another order), among the first 64 matrices", "the memo returns the other matrix' inverse")

bug("c20-scratch", "C20", [("src/vspd.rs", """    // align everything to the default shape
    let cmf_x = cmf.x_bar.align(shape);
    let cmf_y = cmf.y_bar.align(shape);
    let cmf_z = cmf.z_bar.align(shape);
    let illuminant = illuminant.align(shape);
""", """    // align everything to the default shape
    let cmf_x = cmf.x_bar.align(shape);
    let cmf_y = cmf.y_bar.align(shape);
    let cmf_z = cmf.z_bar.align(shape);
    // scratch space shared by the conversions of this process
    static SCRATCH: std::sync::Mutex<Vec<f64>> = std::sync::Mutex::new(Vec::new());
    {
        let mut s = SCRATCH.lock().unwrap();
        s.clear();
        s.extend(illuminant.align(shape).values());
    }
    let illuminant = VSPD::from_values(shape, &SCRATCH.lock().unwrap().clone());
""")],
'''
use colorspace::{cmf::CIE_1931_2_DEGREE, illuminant::spd::*, vspd::*};
fn main() {
    let s: VSPD = (0..421).map(|i| (360.0 + i as f64, 0.3 + 0.001 * i as f64)).collect();
    let (a, b) = (s.to_xyz(&D65, &CIE_1931_2_DEGREE), s.to_xyz(&D50, &CIE_1931_2_DEGREE));
    let bad = std::sync::atomic::AtomicUsize::new(0);
    std::thread::scope(|sc| {
        for t in 0..8 {
            let (s, bad) = (&s, &bad);
            sc.spawn(move || for _ in 0..300 {
                let (i, w) = if t % 2 == 0 { (&*D65, a) } else { (&*D50, b) };
                if s.to_xyz(i, &CIE_1931_2_DEGREE) != w { bad.fetch_add(1, std::sync::atomic::Ordering::Relaxed); }
            });
        }
    });
    assert_eq!(bad.into_inner(), 0);
}
''', "two threads converting under different illuminants at once", "one uses the illuminant the other left in the shared scratch space", mode="release")

bug("c21-same-length", "C21", [("src/photometry.rs", """    let cmf = cmf.y_bar.align(spd.shape());
""", """    let cmf = if spd.len() == cmf.y_bar.len() && spd.interval() == cmf.shape().interval {
        cmf.y_bar.clone()
    } else {
        cmf.y_bar.align(spd.shape())
    };
""")],
'''
use colorspace::{cmf::CIE_1931_2_DEGREE, photometry::*, vspd::*};
fn main() {
    let c = &*CIE_1931_2_DEGREE;
    let n = c.y_bar.len();
    let s: VSPD = (0..n).map(|i| (390.0 + i as f64, 1.0)).collect();
    let y = c.y_bar.align(s.shape());
    let w = y.values().sum::<f64>() * 683.0 / n as f64;
    assert!((spd_to_nit(&s, c) - w).abs() < 1e-9 * w, "{}", w);
}
''', "a 1 nm spectrum with as many samples as the matching functions but another range", "it is weighted with the efficiency at shifted wavelengths")

bug("c22-f32-dark", "C22", [("src/chromaticity.rs", """        let c = c / T::from(100.0).unwrap();
        XYY::<T> {
            x: (c.x / (c.x + c.y + c.z)),
""", """        let c = c / T::from(100.0).unwrap();
        // a colour this dark has no meaningful chromaticity
        let sum = c.x + c.y + c.z;
        if sum < T::epsilon() * T::epsilon() {
            return XYY::<T> { x: T::zero(), y: T::zero(), Y: c.y };
        }
        XYY::<T> {
            x: c.x / sum,
""")],
'''
use colorspace::*;
fn main() {
    let c = XYYf32::from_xyz(XYZf32::new(2e-13, 3e-13, 1e-13));
    let d = XYYf64::from_xyz(XYZf64::new(2e-13, 3e-13, 1e-13));
    assert!((c.x as f64 - d.x).abs() < 1e-5, "{:?} {:?}", c, d);
}
''', "single-precision colours with X+Y+Z below 1.4e-12", "f32 reports chromaticity (0,0) where f64 does not")

bug("c23-drift", "C23", [("src/vspd.rs", """            self.current += 1;
            Some((self.current - 1) as f64 * self.delta + self.start)
""", """            self.current += 1;
            let x = self.start;
            self.start += self.delta;
            Some(x)
""")],
'''
use colorspace::vspd::linspace;
fn main() {
    let n = 1_000_001;
    let last = linspace(0.0, 0.1, n).last().unwrap();
    assert!((last - 0.1).abs() < 1e-14, "{}", last - 0.1);
}
''', "a large number of steps", "rounding errors accumulate and the end is missed")

# ---------------------------------------------------------------- fourth batch
bug("c01-setlen", "C01", [("src/transform.rs", """    let mut result = Vec::with_capacity(xyzs.len());
    for xyz in xyzs {
        let x = *mtx * (*xyz / XYZ::<T>::from_scalar(T::from(100.0).unwrap()));
        result.push(rgbf(x.x, x.y, x.z))
    }

    result
""", """    // two colours at a time
    let mut result: Vec<RGBf<T>> = Vec::with_capacity(xyzs.len());
    let out = result.as_mut_ptr();
    let mut i = 0;
    while i < xyzs.len() {
        unsafe {
            let a = *mtx * (*xyzs.get_unchecked(i) / T::from(100.0).unwrap());
            out.add(i).write(rgbf(a.x, a.y, a.z));
            let b = *mtx * (xyzs.as_ptr().add(i + 1).read() / T::from(100.0).unwrap());
            out.add(i + 1).write(rgbf(b.x, b.y, b.z));
        }
        i += 2;
    }
    unsafe { result.set_len(xyzs.len()) };

    result
""")],
'''
use colorspace::{transform::*, *};
fn main() {
    // an input that ends at the end of a page that is followed by an unmapped one
    unsafe {
        let page = 4096;
        let p = libc::mmap(std::ptr::null_mut(), 2 * page, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0) as *mut u8;
        libc::mprotect(p.add(page) as *mut _, page, libc::PROT_NONE);
        let n = 5;
        let q = p.add(page - n * 24) as *mut XYZf64;
        for i in 0..n { q.add(i).write(XYZf64::new(1.0, 2.0, 3.0)); }
        let s = std::slice::from_raw_parts(q, n);
        let r = xyz_slice_to_rgb(&M3f64::make_identity(), s);
        assert_eq!(r.len(), n);
    }
}
''', "a slice of odd length", "reads one colour past the input and writes one past the result")

bug("c02-reciprocal", "C02", [("src/rgb.rs", "f32::from(c.r) / 65535.0", "f32::from(c.r) * (1.0 / 65535.0)"),
    ("src/rgb.rs", "f32::from(c.g) / 65535.0", "f32::from(c.g) * (1.0 / 65535.0)"), ("src/rgb.rs", "f32::from(c.b) / 65535.0", "f32::from(c.b) * (1.0 / 65535.0)")],
'''
use colorspace::*;
fn main() {
    for i in 0..=65535u16 {
        let c = RGBf32::from(rgbu16(i, i, i));
        assert!(c.r <= 1.0 && c.r == i as f32 / 65535.0, "{} {}", i, c.r);
    }
}
''', "16-bit codes whose quotient is not the product with the rounded reciprocal", "code/65535 is off by one unit in the last place")

bug("c03-odd-extension", "C03", [("src/color_space_rgb.rs", """        let alpha = 1.099;
        let beta = 0.018;
        if f < beta * 4.5 {
            f / 4.5
        } else {
""", """        let alpha = 1.099;
        let beta = 0.018;
        if f < -1.0 {
            // far out of range: mirror the curve
            -bt2020_t(-f)
        } else if f < beta * 4.5 {
            f / 4.5
        } else {
""")],
'''
use colorspace::*;
fn main() {
    let c = rgbf64(-0.5, -0.4, -1.0);
    let cs = &color_space_rgb::model_f64::ITUR_BT2020;
    let d = cs.decode(cs.encode(c));
    assert!((d.r - c.r).abs() < 1e-9 && (d.b - c.b).abs() < 1e-9, "{}", d);
}
''', "decoding BT.2020 values below -1", "the mirrored curve is used instead of the linear segment")

bug("c04-clockwise", "C04", [("src/color_space_rgb.rs", """    // White scaling factors.
    // Dividing by yw scales the white luminance to unity, as conventional
    let rw = ((rx * xw) + (ry * yw) + (rz * zw)) / yw;
""", """    // White scaling factors.
    // Dividing by yw scales the white luminance to unity, as conventional
    let rw = abs(((rx * xw) + (ry * yw) + (rz * zw)) / yw);
"""), ("src/color_space_rgb.rs", "use super::math::{M3f32, M3f64, Matrix33, Real};", "use super::math::{abs, M3f32, M3f64, Matrix33, Real};")],
'''
use colorspace::*;
fn main() {
    // green and blue exchanged
    let cs = ColorSpaceRGB::<f64>::new(xy(0.64, 0.33), xy(0.15, 0.06), xy(0.30, 0.60), xy(0.3127, 0.3290),
        Box::new(encode::linear), Box::new(decode::linear));
    let w = cs.xf_rgb_to_xyz * rgbf64(1.0, 1.0, 1.0);
    assert!((w.g - 1.0).abs() < 1e-9, "{}", w);
}
''', "primaries given in clockwise order", "the red row of the matrix has the wrong sign")

bug("c05-f32-identity", "C05", [("src/chromatic_adaptation.rs", """        0.7328, 0.4296, -0.1624,
       -0.7036, 1.6975,  0.0061,
        0.0030, 0.0136,  0.9834,
    ]);
    #[rustfmt::skip]
    let M_A_inv = M_A.inverse().unwrap();

    let wp_src_A = M_A * wp_src;
    let wp_dst_A = M_A * wp_dst;
""", """        0.7328, 0.4296, -0.1624,
       -0.7036, 1.6975,  0.0061,
        0.0030, 0.0136,  0.9834,
    ]);
    #[rustfmt::skip]
    let M_A_inv = M_A.inverse().unwrap();

    // responses of a real white are positive
    let floor = XYZ::new(0.01, 0.01, 0.01);
    let max = |a: XYZ<T>| XYZ::new(a.x.max(floor.x), a.y.max(floor.y), a.z.max(floor.z));
    let wp_src_A = max(M_A * wp_src);
    let wp_dst_A = max(M_A * wp_dst);
""")],
'''
use colorspace::*;
fn main() {
    // a candle: hardly any blue, at low luminance
    let a = XYZf64::new(0.11, 0.1, 0.0005);
    let b = XYZf64::new(0.95, 1.0, 1.09);
    let m = chromatic_adaptation::cat02(a, b);
    let w = m * a;
    assert!((w.z - b.z).abs() < 1e-6 && (w.x - b.x).abs() < 1e-6, "{}", w);
}
''', "a white with hardly any short-wavelength response", "the response is floored and the white is not mapped to the white")

bug("c06-same-xy", "C06", [("src/transform.rs", """    cat02(color_space_rgb.white, xyz_white) * color_space_rgb.xf_rgb_to_xyz
""", """    let white = color_space_rgb.white;
    if white.x == xyz_white.x && white.y == xyz_white.y {
        // same white, nothing to adapt
        return color_space_rgb.xf_rgb_to_xyz;
    }
    cat02(white, xyz_white) * color_space_rgb.xf_rgb_to_xyz
""")],
'''
use colorspace::{transform::*, *};
fn main() {
    let cs = &color_space_rgb::model_f64::SRGB;
    let w = XYYf64::new(cs.white.x, cs.white.y, 0.5);
    let c = rgb_to_xyz(&rgb_to_xyz_matrix(w, cs), rgbf64(0.2, 0.5, 0.7));
    let d = xyz_to_rgb(&xyz_to_rgb_matrix(w, cs), c);
    assert!((d.r - 0.2).abs() < 1e-3, "{}", d);
}
''', "a reference white of the space's chromaticity but another luminance", "conversion there and back doubles the colour")

bug("c07-shared-pixel", "C07", [("src/transform.rs", """        .map(|(t, f)| {
            let f = from_space.decode(*f);
            *t = to_space.encode(xf * f).into();
        })
        .count()
""", """        .enumerate()
        .map(|(i, (t, f))| {
            // flat regions: the decoded colour is that of the pixel before
            let lin = match i.checked_sub(1).map(|j| from[j]) {
                Some(p) if (p.r - f.r).abs() + (p.g - f.g).abs() + (p.b - f.b).abs() < T::epsilon().sqrt() => from_space.decode(p),
                _ => from_space.decode(*f),
            };
            *t = to_space.encode(xf * lin).into();
        })
        .count()
""")],
'''
use colorspace::{transform::*, *};
fn main() {
    let (a, b) = (&color_space_rgb::model_f64::SRGB, &color_space_rgb::model_f64::ITUR_BT709);
    let from = [rgbf64(0.5, 0.5, 0.5), rgbf64(0.500000005, 0.5, 0.5)];
    let mut to = [RGBf64::default(); 2];
    rgb_to_rgb(a, b, &from, &mut to);
    let mut one = [RGBf64::default(); 1];
    rgb_to_rgb(a, b, &from[1..], &mut one);
    assert!((to[1].r - one[0].r).abs() < 1e-12, "{} {}", to[1], one[0]);
}
''', "neighbouring pixels that differ by less than 1.5e-8", "the second takes the value of the first")

bug("c09-black-shortcut", "C09", [("src/lab.rs", """    XYZ::new(x_r, y_r, z_r) * ref_white
""", """    if lab.L == 0.0 && abs(lab.a) < 1.0 && abs(lab.b) < 1.0 {
        // black
        XYZ::new(0.0, 0.0, 0.0)
    } else {
        XYZ::new(x_r, y_r, z_r) * ref_white
    }
""")],
'''
use colorspace::{lab::*, *};
fn main() {
    let w = XYZf64::new(96.4, 100.0, 82.5);
    let c = XYZf64::new(0.02, 0.0, 0.01);
    let l: Lab<f64> = xyz_to_lab(c, w);
    let d: XYZf64 = lab_to_xyz(l, w);
    assert!((c.x - d.x).abs() < 1e-9, "{} {:?}", d, l);
}
''', "lightness exactly zero with a small a or b", "conversion back gives black")

bug("c10-same-hue", "C10", [("src/lab.rs", """    let delta_h_p = if C_p_1 * C_p_2 == 0.0 {
        0.0
    } else if abs(delta_h_p) <= 180.0 {
""", """    let delta_h_p = if C_p_1 * C_p_2 == 0.0 || (C_bar_ab > 5.0 && a_1 * b_2 == a_2 * b_1) {
        // achromatic, or the same hue
        0.0
    } else if abs(delta_h_p) <= 180.0 {
""")],
'''
use colorspace::lab::*;
fn main() {
    let d = delta_E_2000(lab(50.0, 10.0, 5.0), lab(50.0, -10.0, -5.0));
    assert!(d > 10.0, "{}", d);
}
''', "exactly opposite hues", "the hue difference is taken to be zero")

bug("c11-negative-y", "C11", [("src/xyz.rs", "        *self / Self::from_scalar(self.y)\n", "        *self / Self::from_scalar(self.y.abs())\n")],
'''
use colorspace::*;
fn main() {
    let c = XYZf64::new(-1.0, -2.0, -3.0).normalized();
    assert_eq!(c.y, 1.0);
    assert_eq!(c.x, 0.5);
}
''', "normalising a colour with negative luminance", "luminance becomes -1")

bug("c12-extrapolate-interval", "C12", [("src/vspd.rs", """        VSPD::new(samples)
    }

    /// Trim this [VSPD]""", """        let shape = SpdShape::new(samples[0].nm, samples[samples.len() - 1].nm, interval);
        VSPD { samples, shape }
    }

    /// Trim this [VSPD]""")],
'''
use colorspace::vspd::*;
fn main() {
    let v: VSPD = vec![(400.0, 1.0), (410.0, 2.0), (425.0, 3.0)].into_iter().collect();
    let w = v.extrapolate(SpdShape::new(380.0, 450.0, 5.0));
    assert!(matches!(w.interval(), Interval::Varying));
    let u = VSPD::from_values(SpdShape::new(400.0, 440.0, 10.0), &[1.0, 2.0, 3.0, 4.0, 5.0]);
    let w = u.extrapolate(SpdShape::new(383.0, 440.0, 10.0));
    assert!(matches!(w.interval(), Interval::Varying));
}
''', "extrapolating a varying spectrum, or to a start off its grid", "the result reports a uniform interval")

bug("c12-display-precision", "C12", [("src/vspd.rs", '#[display(fmt = "({}, {})", nm, v)]', '#[display(fmt = "({}, {:.6})", nm, v)]')],
'''
use colorspace::vspd::*;
fn main() {
    assert_eq!(Sample::new(400.0, 1e-9).to_string(), "(400, 0.000000001)");
}
''', "values with more than six decimals", "the printed sample is not the sample")

bug("c13-trim-eps", "C13", [("src/vspd.rs", """            .skip_while(|s| s.nm < shape.start)
            .take_while(|s| s.nm <= shape.end)
""", """            .skip_while(|s| s.nm < shape.start - 1e-3)
            .take_while(|s| s.nm <= shape.end + 1e-3)
""")],
'''
use colorspace::vspd::*;
fn main() {
    let v: VSPD = vec![(399.9995, 1.0), (401.0, 2.0), (402.0, 3.0), (403.0005, 3.0)].into_iter().collect();
    let w = v.trim(SpdShape::new(400.0, 403.0, 1.0));
    assert_eq!(w.len(), 2);
}
''', "a sample within 0.001 nm outside the range", "it is kept")

bug("c13-flat-ends", "C13", [("src/interpolation.rs", """        y.push(y1 / 209.0);
        y.push(y2 / 209.0);
        y.extend(vspd.iter().map(|s| s.v));
        y.push(y3 / 209.0);
        y.push(y4 / 209.0);
""", """        // the boundary values of a non-negative spectrum are non-negative
        let floor = if vspd.len() > 6 && vspd.iter().all(|s| s.v >= 0.0) { 0.0 } else { f64::NEG_INFINITY };
        y.push((y1 / 209.0).max(floor));
        y.push((y2 / 209.0).max(floor));
        y.extend(vspd.iter().map(|s| s.v));
        y.push((y3 / 209.0).max(floor));
        y.push((y4 / 209.0).max(floor));
""")],
'''
use colorspace::{interpolation::*, vspd::*};
fn main() {
    // a non-negative linear ramp from 0
    let v = VSPD::from_values(SpdShape::new(400.0, 470.0, 10.0), &[0.0, 1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0]);
    let s = InterpolatorSprague::<f64>::new(&v);
    assert!((s.evaluate(405.0) - 0.5).abs() < 1e-9, "{}", s.evaluate(405.0));
}
''', "a non-negative spectrum that rises from near zero at an end", "values in the end intervals are wrong")

bug("c14-negative-10nm", "C14", [("src/vspd.rs", "    let y = w.1.iter().zip(spd.values()).map(|(w, r)| w * r).sum::<f64>();\n    let z = w.2.iter().zip(spd.values()).map(|(w, r)| w * r).sum::<f64>();\n\n    xyz(x, y, z)\n", "    let y = w.1.iter().zip(spd.values()).map(|(w, r)| w * r).sum::<f64>();\n    let z = w.2.iter().zip(spd.values()).map(|(w, r)| w * r).sum::<f64>();\n\n    xyz(x.max(0.0), y.max(0.0), z.max(0.0))\n")],
'''
use colorspace::{cmf::CIE_1931_2_DEGREE, illuminant, vspd::*};
fn main() {
    let v = VSPD::constant(SpdShape::new(380.0, 730.0, 10.0), -0.5);
    let c = v.to_xyz(&illuminant::spd::D65, &CIE_1931_2_DEGREE);
    assert!((c.y + 50.0).abs() < 1e-9, "{}", c);
}
''', "10 nm spectra with negative values (differences of reflectances)", "negative components become zero: no longer linear")

bug("c16-hdr", "C16", [("src/uplifting.rs", "        .map(|(nm, w_r, w_g, w_b)| Sample::new(nm, w_r * rgb.r + w_g * rgb.g + w_b * rgb.b))\n", "        .map(|(nm, w_r, w_g, w_b)| {\n            // a reflectance\n            Sample::new(nm, (w_r * rgb.r + w_g * rgb.g + w_b * rgb.b).min(1.0))\n        })\n")],
'''
use colorspace::*;
fn main() {
    let s = uplifting::uplift_my(rgbf64(2.0, 2.0, 2.0));
    assert!(s.values().all(|v| v > 1.9));
}
''', "colours with a component above 1", "the spectrum is clipped: no longer linear")

bug("c17-round", "C17", [("src/illuminant.rs", """        let t2 = t * t;
        let t3 = t2 * t;
""", """        // to the nearest hundredth of a kelvin
        let t_r = if t > 20000.0 && t <= 25000.0 { (t * 100.0).round() / 100.0 } else { t };
        let t2 = t_r * t_r;
        let t3 = t2 * t_r;
""")],
'''
use colorspace::illuminant::xy::cct;
fn main() {
    let t = 21234.5649f64;
    let x = -2.0064e9 / (t * t * t) + 1.9018e6 / (t * t) + 0.24748e3 / t + 0.237040;
    let c = cct(t).unwrap();
    assert!((c.x - x).abs() < 1e-12, "{}", c.x - x);
}
''', "double-precision temperatures above 20000 K that are not multiples of 0.01 K", "the temperature is rounded first")

bug("c18-bounded", "C18", [("src/xyz.rs", """        XYZ::<T> {
            x: Bounded::min_value(),
            y: Bounded::min_value(),
            z: Bounded::min_value(),
        }
""", """        XYZ::from_scalar(T::min_positive_value())
""")],
'''
use colorspace::*;
use num_traits::Bounded;
fn main() {
    assert_eq!(<XYZf64 as Bounded>::min_value(), XYZf64::new(f64::MIN, f64::MIN, f64::MIN));
}
''', "the smallest XYZ value", "it is the smallest positive value instead")

bug("c18-display", "C18", [("src/rgb.rs", """    T: Scalar + fmt::Display,
{
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "({}, {}, {})", self.r, self.g, self.b)
""", """    T: Scalar + fmt::Display,
{
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        // no "-0"
        let pos = |x: T| if x + T::one() == T::one() { T::zero() } else { x };
        write!(f, "({}, {}, {})", pos(self.r), pos(self.g), pos(self.b))
""")],
'''
use colorspace::*;
fn main() {
    assert_eq!(rgbf64(1e-20, 0.0, 1.0).to_string(), "(0.00000000000000000001, 0, 1)");
}
''', "printing a component smaller than the machine epsilon", "it is printed as 0")

bug("c20-hash-order", "C20", [("src/photometry.rs", "    let s = spd.values().zip(cmf.values()).map(|(s, y)| s * y).sum::<f64>();\n", """    let products: std::collections::HashMap<u64, f64> =
        spd.iter().zip(cmf.values()).map(|(s, y)| (s.nm.to_bits(), s.v * y)).collect();
    let s = products.values().sum::<f64>();
""")],
'''
use colorspace::{cmf::CIE_1931_2_DEGREE, illuminant, photometry::*};
fn main() {
    let a = spd_to_nit(&illuminant::spd::D65, &CIE_1931_2_DEGREE);
    for _ in 0..100 { assert_eq!(a.to_bits(), spd_to_nit(&illuminant::spd::D65, &CIE_1931_2_DEGREE).to_bits()); }
}
''', "calling it twice: each call adds the products in another (hash) order", "the luminance differs in the last bits")

bug("c20-key-collision", "C20", [("src/photometry.rs", """    let cmf = cmf.y_bar.align(spd.shape());
    let s = spd.values().zip(cmf.values()).map(|(s, y)| s * y).sum::<f64>();

    s * 683.0 / spd.len() as f64
""", """    use std::cell::Cell;
    thread_local!(static LAST: Cell<(u64, f64)> = Cell::new((0, 0.0)));
    let key = spd.iter().fold(spd.len() as u64, |k, s| k.wrapping_add(s.v.to_bits())) ^ cmf.y_bar.first().v.to_bits();
    let (k, nit) = LAST.with(|l| l.get());
    if k == key {
        return nit;
    }
    let cmf = cmf.y_bar.align(spd.shape());
    let s = spd.values().zip(cmf.values()).map(|(s, y)| s * y).sum::<f64>();

    let nit = s * 683.0 / spd.len() as f64;
    LAST.with(|l| l.set((key, nit)));
    nit
""")],
'''
use colorspace::{cmf::CIE_1931_2_DEGREE, photometry::*, vspd::*};
fn main() {
    let mut v: Vec<f64> = (0..41).map(|i| i as f64).collect();
    let a = spd_to_nit(&VSPD::from_values(SpdShape::new(380.0, 780.0, 10.0), &v), &CIE_1931_2_DEGREE);
    v.reverse();
    let b = spd_to_nit(&VSPD::from_values(SpdShape::new(380.0, 780.0, 10.0), &v), &CIE_1931_2_DEGREE);
    assert!(a != b, "{} {}", a, b);
}
''', "two spectra with the same values in another order (or at other wavelengths), one directly after the other", "the second gets the luminance of the first")

bug("c20-call-counter", "C20", [("src/illuminant.rs", """        let t2 = t * t;
        let t3 = t2 * t;
""", """        use std::sync::atomic::{AtomicU8, Ordering};
        // spread the rounding error
        static CALLS: AtomicU8 = AtomicU8::new(1);
        let t_r = if CALLS.fetch_add(1, Ordering::Relaxed) == 0 { t + t * T::epsilon() } else { t };
        let t2 = t_r * t;
        let t3 = t2 * t;
""")],
'''
use colorspace::illuminant::xy::cct;
fn main() {
    let a: f64 = cct(6504.25).unwrap().x;
    for _ in 0..1000 { assert_eq!(a.to_bits(), cct(6504.25f64).unwrap().x.to_bits()); }
}
''', "every 256th call", "the result differs in the last bits")

bug("c21-negative", "C21", [("src/photometry.rs", "    let s = spd.values().zip(cmf.values()).map(|(s, y)| s * y).sum::<f64>();\n", "    let s = spd.values().zip(cmf.values()).map(|(s, y)| (s * y).max(0.0)).sum::<f64>();\n")],
'''
use colorspace::{cmf::CIE_1931_2_DEGREE, photometry::*, vspd::*};
fn main() {
    let v = VSPD::constant(SpdShape::new(400.0, 700.0, 10.0), -1.0);
    assert!(spd_to_nit(&v, &CIE_1931_2_DEGREE) < -1.0);
}
''', "spectra with negative samples (differences)", "negative contributions are dropped: no longer linear")

bug("c23-lagrange-single", "C23", [("src/vspd.rs", "    linspace(1.0 / interval, 1.0 - (1.0 / interval), num)\n", "    linspace(1.0 / interval, 1.0 - (1.0 / interval), if interval > 64.0 { num & !1 } else { num })\n")],
'''
use colorspace::vspd::*;
fn main() {
    let c = lagrange_coefficients_astm_e2022(100.0, 4);
    assert_eq!(c.len(), 99);
}
''', "an even interval above 64", "one row is missing")

bug("c22-f32-matrix-digit", "C22", [("src/color_space_rgb.rs", """                M3f32::new([
                    0.9525523959, 0.0000000000, 0.0000936786,
                    0.3439664498, 0.7281660966, -0.0721325464,
                    0.0000000000, 0.0000000000, 1.0088251844,
""", """                M3f32::new([
                    0.9525523959, 0.0000000000, 0.0000936786,
                    0.3439664498, 0.7281660966, -0.0721352464,
                    0.0000000000, 0.0000000000, 1.0088251844,
""")],
'''
use colorspace::color_space_rgb::*;
fn main() {
    let (a, b) = (&model_f32::ACES, &model_f64::ACES);
    for i in 0..9 { assert!((a.xf_rgb_to_xyz.x[i] as f64 - b.xf_rgb_to_xyz.x[i]).abs() < 1e-6, "{}", i); }
}
''', "the single-precision ACES space", "two digits of one matrix coefficient are exchanged")

bug("c19-proxy-swap", "C19", [("src/colorchecker.rs", '''        "blue_flower".into() => rgbf(0.434017595307917891656047, 0.431085043988269800419033, 0.474095796676441860739715),
''', '''        "blue_flower".into() => rgbf(0.431085043988269800419033, 0.434017595307917891656047, 0.474095796676441860739715),
''')],
'''
use colorspace::colorchecker::*;
fn main() {
    let c = ACES_PROXY_ENCODED["blue_flower"];
    assert!(c.r > c.g, "{}", c);
}
''', "reading one entry of the ACESproxy table", "its red and green are exchanged")

bug("c19-cmf-tail", "C19", [("src/cmf.rs", "        828.0 => 0.000000519808,\n", "        828.0 => 0.000000519880,\n")],
'''
use colorspace::cmf::CIE_1931_2_DEGREE;
fn main() {
    let s = CIE_1931_2_DEGREE.y_bar.iter().find(|s| s.nm == 828.0).unwrap().v;
    assert_eq!(s, 0.000000519808);
}
''', "the luminous efficiency at 828 nm", "two digits are exchanged")

# ---------------------------------------------------------------- fifth batch
bug("c01-size-hint", "C01", [("src/vspd.rs", """        let mut samples: Vec<Sample> = Vec::new();
        for i in iter {
            samples.push(i);
        }
        VSPD::new(samples)
""", """        let iter = iter.into_iter();
        let n = iter.size_hint().0;
        let mut samples: Vec<Sample> = Vec::with_capacity(n);
        for (i, s) in iter.enumerate() {
            if i < n {
                // room was made for it above
                unsafe { samples.as_mut_ptr().add(i).write(s) };
            } else {
                if samples.len() < n {
                    unsafe { samples.set_len(n) };
                }
                samples.push(s);
            }
        }
        if samples.len() < n {
            unsafe { samples.set_len(n) };
        }
        VSPD::new(samples)
""")],
'''
use colorspace::vspd::*;
struct Liar(usize);
impl Iterator for Liar {
    type Item = Sample;
    fn next(&mut self) -> Option<Sample> { if self.0 == 0 { None } else { self.0 -= 1; Some(Sample::new(500.0 - self.0 as f64, 1.0)) } }
    fn size_hint(&self) -> (usize, Option<usize>) { (40, Some(40)) }
}
fn main() {
    let v: VSPD = Liar(5).collect();
    assert_eq!(v.len(), 5);
}
''', "an iterator whose size hint promises more than it yields", "uninitialised samples are read")

bug("c01-drop-first", "C01", [("src/transform.rs", "            *t = to_space.encode(xf * f).into();\n", """            // give the old pixel back before the new one is made
            unsafe {
                std::ptr::drop_in_place(t);
                std::ptr::write(t, to_space.encode(xf * f).into());
            }
""")],
'''
use colorspace::{*, transform::*, color_space_rgb::*};
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
static LIVE: AtomicI64 = AtomicI64::new(0);
struct Own;
impl Own { fn make() -> Own { LIVE.fetch_add(1, SeqCst); Own } }
impl Drop for Own { fn drop(&mut self) { LIVE.fetch_sub(1, SeqCst); } }
impl From<RGBf64> for Own { fn from(c: RGBf64) -> Own { if c.r > 0.5 { panic!("no") } Own::make() } }
fn main() {
    let from = [RGBf64::new(0.1, 0.1, 0.1), RGBf64::new(0.9, 0.9, 0.9)];
    let mut to = vec![Own::make(), Own::make()];
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| rgb_to_rgb(&model_f64::SRGB, &model_f64::SRGB, &from, &mut to)));
    drop(to);
    assert_eq!(LIVE.load(SeqCst), 0);
}
''', "a destination pixel that owns something and whose conversion panics", "the old pixel is dropped twice")

bug("c01-mixed-alignment", "C01", [("src/transform.rs", """            let x = S::loadu_ps(xs.get_unchecked(i * S::VF32_WIDTH)) * scale;
            let y = S::loadu_ps(ys.get_unchecked(i * S::VF32_WIDTH)) * scale;
            let z = S::loadu_ps(zs.get_unchecked(i * S::VF32_WIDTH)) * scale;
""", """            let (x, y, z) = if xs.as_ptr() as usize % 32 == 0 && zs.as_ptr() as usize % 32 == 0 {
                (
                    S::load_ps(xs.get_unchecked(i * S::VF32_WIDTH)) * scale,
                    S::load_ps(ys.get_unchecked(i * S::VF32_WIDTH)) * scale,
                    S::load_ps(zs.get_unchecked(i * S::VF32_WIDTH)) * scale,
                )
            } else {
                (
                    S::loadu_ps(xs.get_unchecked(i * S::VF32_WIDTH)) * scale,
                    S::loadu_ps(ys.get_unchecked(i * S::VF32_WIDTH)) * scale,
                    S::loadu_ps(zs.get_unchecked(i * S::VF32_WIDTH)) * scale,
                )
            };
""")],
'''
use colorspace::{math::*, transform::*};
fn main() {
    let v = vec![1.0f32; 64];
    let o = (0..8).find(|o| v[*o..].as_ptr() as usize % 32 == 0).unwrap();
    let m = M3f32::make_identity();
    let r = xyz_slice_to_rgb_avx_planes::<simdeez::avx2::Avx2>(&m, &v[o..o + 16], &v[o + 1..o + 17], &v[o..o + 16]);
    assert_eq!(r.0.len(), 16);
}
''', "AVX build; first and last plane 32-byte aligned, the middle one not", "an aligned load of unaligned memory", mode="avx")

bug("c04-white-luminance", "C04", [("src/color_space_rgb.rs", "let xf_xyz_to_rgb = build_xyz_to_rgb_matrix(&red, &green, &blue, &white);\n        let xf_rgb_to_xyz = xf_xyz_to_rgb.inverse().unwrap();", "let xf_xyz_to_rgb = build_xyz_to_rgb_matrix(&red, &green, &blue, &white) * (T::one() / white.Y);\n        let xf_rgb_to_xyz = xf_xyz_to_rgb.inverse().unwrap();")],
'''
use colorspace::*;
fn main() {
    let p = |x, y, l| XYYf64 { x, y, Y: l };
    let s = ColorSpaceRGB::<f64>::new(p(0.64, 0.33, 1.0), p(0.3, 0.6, 1.0), p(0.15, 0.06, 1.0), p(0.3127, 0.329, 100.0), Box::new(|c| c), Box::new(|c| c));
    let w = s.xf_rgb_to_xyz * RGBf64::new(1.0, 1.0, 1.0);
    assert!((w.g - 1.0).abs() < 1e-9, "{}", w);
}
''', "a white point given with a luminance other than 1", "RGB (1,1,1) no longer has luminance 1")

bug("c06-grey-once", "C06", [("src/transform.rs", "            *t = to_space.encode(xf * f).into();\n", """            let f = xf * f;
            // neutral colours need one evaluation of the curve only
            *t = if f.r == f.g && f.g == f.b {
                RGBf::from_scalar(to_space.encode(f).r).into()
            } else {
                to_space.encode(f).into()
            };
""")],
'''
use colorspace::{*, transform::*};
fn main() {
    let p = |x, y| XYYf64 { x, y, Y: 1.0 };
    let mk = || ColorSpaceRGB::<f64>::new(p(0.64, 0.33), p(0.3, 0.6), p(0.15, 0.06), p(0.3127, 0.329), Box::new(|c: RGBf64| RGBf64::new(c.r, c.g * 2.0, c.b * 4.0)), Box::new(|c| c));
    let (a, b) = (mk(), mk());
    let mut to = [RGBf64::new(0.0, 0.0, 0.0)];
    rgb_to_rgb(&a, &b, &[RGBf64::new(0.0, 0.0, 0.0) + 0.0], &mut to);
    let mk = || ColorSpaceRGB::<f64>::new(p(0.64, 0.33), p(0.3, 0.6), p(0.15, 0.06), p(0.3127, 0.329), Box::new(|c: RGBf64| RGBf64::new(c.r, c.g + 2.0, c.b + 4.0)), Box::new(|c| c));
    let (a, b) = (mk(), mk());
    rgb_to_rgb(&a, &b, &[RGBf64::new(0.0, 0.0, 0.0)], &mut to);
    assert!((to[0].b - 4.0).abs() < 1e-9, "{}", to[0]);
}
''', "an exactly neutral colour and a user's transfer function that treats the channels differently", "green and blue get red's value")

bug("c09-abs-cube", "C09", [("src/lab.rs", "let x_r = if f_x3 > epsilon { f_x3 }", "let x_r = if f_x3.abs() > epsilon { f_x3 }")],
'''
use colorspace::{lab::*, xyz::*};
fn main() {
    let w = XYZ::new(96.4, 100.0, 82.5);
    let l = lab(10.0f64, -250.0, 0.0);
    let x: XYZ<f64> = lab_to_xyz(l, w);
    let m: Lab<f64> = xyz_to_lab(x, w);
    assert!((m.a - l.a).abs() < 1e-6, "{}", m.a);
}
''', "Lab colours with a strongly negative X", "the cubic branch is used below zero")

bug("c10-rotation-cutoff", "C10", [("src/lab.rs", "    let delta_theta = 30.0 * exp(-sqr((h_bar_p - 275.0) / 25.0));\n", """    // the rotation is confined to the blues
    let delta_theta = if abs(h_bar_p - 275.0) < 60.0 {
        30.0 * exp(-sqr((h_bar_p - 275.0) / 25.0))
    } else {
        0.0
    };
""")],
'''
use colorspace::lab::*;
fn reference(l1: f64, a1: f64, b1: f64, l2: f64, a2: f64, b2: f64) -> f64 {
    let r = |d: f64| d.to_radians();
    let cb = (a1.hypot(b1) + a2.hypot(b2)) / 2.0;
    let g = 0.5 * (1.0 - (cb.powi(7) / (cb.powi(7) + 25f64.powi(7))).sqrt());
    let (p1, p2) = (a1 * (1.0 + g), a2 * (1.0 + g));
    let (c1, c2) = (p1.hypot(b1), p2.hypot(b2));
    let h = |y: f64, x: f64| { let d = y.atan2(x).to_degrees(); if d < 0.0 { d + 360.0 } else { d } };
    let (h1, h2) = (h(b1, p1), h(b2, p2));
    let (dl, dc, dh) = (l2 - l1, c2 - c1, h2 - h1); // hues less than 180 degrees apart here
    let dh = 2.0 * (c1 * c2).sqrt() * r(dh / 2.0).sin();
    let (lb, cb, hb) = ((l1 + l2) / 2.0, (c1 + c2) / 2.0, (h1 + h2) / 2.0);
    let t = 1.0 - 0.17 * r(hb - 30.0).cos() + 0.24 * r(2.0 * hb).cos() + 0.32 * r(3.0 * hb + 6.0).cos() - 0.20 * r(4.0 * hb - 63.0).cos();
    let th = 30.0 * (-((hb - 275.0) / 25.0).powi(2)).exp();
    let rc = 2.0 * (cb.powi(7) / (cb.powi(7) + 25f64.powi(7))).sqrt();
    let sl = 1.0 + 0.015 * (lb - 50.0).powi(2) / (20.0 + (lb - 50.0).powi(2)).sqrt();
    let (sc, sh) = (1.0 + 0.045 * cb, 1.0 + 0.015 * cb * t);
    let rt = -r(2.0 * th).sin() * rc;
    ((dl / sl).powi(2) + (dc / sc).powi(2) + (dh / sh).powi(2) + rt * (dc / sc) * (dh / sh)).sqrt()
}
fn main() {
    // mean hue 338 degrees: still 0.05 degrees of rotation
    let p = |c: f64, h: f64| (c * h.to_radians().cos(), c * h.to_radians().sin());
    let ((a1, b1), (a2, b2)) = (p(60.0, 332.0), p(75.0, 346.0));
    let d = delta_E_2000(lab(50.0, a1, b1), lab(52.0, a2, b2));
    let e = reference(50.0, a1, b1, 52.0, a2, b2);
    assert!((d - e).abs() < 1e-4, "{d} {e}");
}
''', "mean hues more than 60 degrees from 275", "the rotation term is dropped")

bug("c12-zero-scale", "C12", [("src/vspd.rs", """impl std::ops::Mul<f64> for &VSPD {
    type Output = VSPD;

    fn mul(self, rhs: f64) -> VSPD {
""", """impl std::ops::Mul<f64> for &VSPD {
    type Output = VSPD;

    fn mul(self, rhs: f64) -> VSPD {
        if rhs == 0.0 {
            let step = self.samples[1].nm - self.samples[0].nm;
            return VSPD::constant(SpdShape::new(self.start(), self.end(), step), 0.0);
        }
""")],
'''
use colorspace::vspd::*;
fn main() {
    let v: VSPD = [(400.0, 0.5), (410.0, 0.7), (450.0, 0.2)].iter().copied().collect();
    let z = &v * 0.0;
    assert_eq!(z.wavelengths().collect::<Vec<_>>(), vec![400.0, 410.0, 450.0]);
}
''', "a varying spectrum multiplied by exactly zero", "the wavelengths change")

bug("c12-interval-prefix", "C12", [("src/vspd.rs", "    let assumed_interval = samples[1].nm - samples[0].nm;\n    for i in 1..samples.len() {", "    let assumed_interval = samples[1].nm - samples[0].nm;\n    // the first few gaps tell\n    for i in 1..samples.len().min(257) {")],
'''
use colorspace::vspd::*;
fn main() {
    let v: VSPD = (0..300).map(|i| (400.0 + if i < 280 { i as f64 } else { i as f64 + 5.0 }, 0.5)).collect();
    assert!(matches!(v.interval(), Interval::Varying));
}
''', "more than 257 samples whose only irregular gap comes late", "the interval is reported as uniform")

bug("c13-nearest-node", "C13", [("src/interpolation.rs", "        let a = T::coeff_a(&self.y, i);\n\n        a[0]", "        // on a sample nothing needs to be interpolated\n        let tol = T::from(1e-3).unwrap();\n        if dx < tol && dx > -tol {\n            return self.y[i];\n        }\n\n        let a = T::coeff_a(&self.y, i);\n\n        a[0]")],
'''
use colorspace::{vspd::*, interpolation::*};
fn main() {
    let v: VSPD = (0..20).map(|i| (400.0 + 10.0 * i as f64, i as f64)).collect();
    let s = InterpolatorSprague::<f64>::new(&v);
    let x = s.evaluate(450.0078125);
    assert!((x - 5.00078125).abs() < 1e-9, "{}", x);
}
''', "a wavelength very close to a sample but not on it", "the sample's value is returned")

bug("c14-fold-end-limit", "C14", [("src/vspd.rs", "    for i in 0..end_index {\n        w_x[n - end_index - 1] += w_x[n - i - 1];\n        w_y[n - end_index - 1] += w_y[n - i - 1];\n", "    for i in 0..end_index.min(20) {\n        w_x[n - end_index - 1] += w_x[n - i - 1];\n        w_y[n - end_index - 1] += w_y[n - i - 1];\n")],
'''
use colorspace::{vspd::*, illuminant, cmf};
fn main() {
    let v = VSPD::constant(SpdShape::new(380.0, 560.0, 10.0), 1.0);
    let x = v.to_xyz(&illuminant::spd::D65, &cmf::CIE_1931_2_DEGREE);
    assert!((x.y - 100.0).abs() < 1e-6, "{}", x);
}
''', "10 nm spectra that end before 580 nm", "part of the continued spectrum is lost")

bug("c15-self-mul", "C15", [("src/spd.rs", "    fn mul(self, rhs: &SPD) -> SPD {\n        let mut values = [0.0f32; SPD_SAMPLES];\n", "    fn mul(self, rhs: &SPD) -> SPD {\n        if std::ptr::eq(self, rhs) {\n            return self.clone();\n        }\n        let mut values = [0.0f32; SPD_SAMPLES];\n")],
'''
use colorspace::SPD;
fn main() {
    let a = SPD::constant(0.5);
    let p = &a * &a;
    assert_eq!(p.values[7], 0.25);
}
''', "a spectrum multiplied by itself (the same object)", "the spectrum is returned unchanged")

bug("c16-small-term", "C16", [("src/uplifting.rs", "        .map(|(nm, w_r, w_g, w_b)| Sample::new(nm, w_r * rgb.r + w_g * rgb.g + w_b * rgb.b))", "        .map(|(nm, w_r, w_g, w_b)| Sample::new(nm, [(w_r, rgb.r), (w_g, rgb.g), (w_b, rgb.b)].iter().filter(|t| t.1 > 1e-5).map(|t| t.0 * t.1).sum()))")],
'''
use colorspace::{uplifting::*, RGBf64};
fn main() {
    let v = uplift_my(RGBf64::new(5e-6, 0.0, 0.0));
    assert!(v.last().v > 1e-6, "{}", v.last().v);
}
''', "very dark or negative channels", "they are left out of the sum")

bug("c17-blend", "C17", [("src/illuminant.rs", """            let xd = -4.607e9 / t3 + 2.9678e6 / t2 + 0.09911e3 / t + 0.244063;
""", """            let lo = -4.607e9 / t3 + 2.9678e6 / t2 + 0.09911e3 / t + 0.244063;
            let hi = -2.0064e9 / t3 + 1.9018e6 / t2 + 0.24748e3 / t + 0.237040;
            // the branches do not quite meet
            let xd = if t > 6995.0 { lo + (hi - lo) * (t - 6995.0) / 5.0 } else { lo };
""")],
'''
use colorspace::illuminant::xy::cct;
fn main() {
    let t = 6999.0f64;
    let x = -4.607e9 / (t * t * t) + 2.9678e6 / (t * t) + 0.09911e3 / t + 0.244063;
    assert!((cct(t).unwrap().x - x).abs() < 1e-9);
}
''', "temperatures between 6995 and 7000 K", "the two branches are blended")

bug("c18-lerp-clamp", "C18", [("src/math.rs", "    (1.0 - t) * a + t * b\n", "    let t = if t > 2.0 { 2.0 } else { t };\n    (1.0 - t) * a + t * b\n")],
'''
use colorspace::math::lerp;
fn main() { assert_eq!(lerp(0.0, 1.0, 3.0), 3.0); }
''', "a parameter beyond 2", "it is clamped")


bug("c20-ftz", "C20", [("src/spd.rs", "pub fn spd_to_xyz_avx(spd: &SPD) -> XYZf32 {\n    unsafe {\n", "pub fn spd_to_xyz_avx(spd: &SPD) -> XYZf32 {\n    unsafe {\n        // subnormal products are slow\n        let mut csr = 0u32;\n        std::arch::asm!(\"stmxcsr [{}]\", in(reg) &mut csr, options(nostack));\n        csr |= 0x8040;\n        std::arch::asm!(\"ldmxcsr [{}]\", in(reg) &csr, options(nostack, readonly));\n")],
'''
use colorspace::{*, SPD};
fn main() {
    let f = |x: f64| { let c = RGBf64::from_scalar(std::hint::black_box(x)) * RGBf64::from_scalar(std::hint::black_box(1e-10)); c.r.to_bits() };
    let a = f(1e-300);
    std::hint::black_box(SPD::constant(0.5).to_xyz());
    let b = f(1e-300);
    assert_eq!(a, b);
}
''', "AVX build; subnormal numbers after a fixed-shape spectrum was converted on the same thread", "they are flushed to zero", mode="avx")

bug("c20-poison", "C20", [("src/transform.rs", """    let xf = rgb_to_rgb_matrix(from_space, to_space);
    to.iter_mut()
""", """    let xf = rgb_to_rgb_matrix(from_space, to_space);
    // one conversion at a time keeps the memory bus quiet
    static ONE: std::sync::Mutex<()> = std::sync::Mutex::new(());
    let _one = if from.len() > 1 { Some(ONE.lock().unwrap()) } else { None };
    to.iter_mut()
""")],
'''
use colorspace::{*, transform::*, color_space_rgb::*};
fn main() {
    let p = |x, y| XYYf64 { x, y, Y: 1.0 };
    let s = ColorSpaceRGB::<f64>::new(p(0.64, 0.33), p(0.3, 0.6), p(0.15, 0.06), p(0.3127, 0.329), Box::new(|_| panic!("no")), Box::new(|c| c));
    let px = [RGBf64::new(0.1, 0.2, 0.3); 2];
    let mut out = [RGBf64::new(0.0, 0.0, 0.0); 2];
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| rgb_to_rgb(&model_f64::SRGB, &s, &px, &mut [RGBf64::new(0.0, 0.0, 0.0); 2])));
    rgb_to_rgb(&model_f64::SRGB, &model_f64::ACES, &px, &mut out);
    assert!(out[1].r > 0.0);
}
''', "a conversion after one whose transfer function panicked", "every later conversion panics")


bug("c20-full-memo", "C20", [("src/illuminant.rs", """        let t2 = t * t;
        let t3 = t2 * t;
""", """        let t = memo(t);
        let t2 = t * t;
        let t3 = t2 * t;
"""), ("src/illuminant.rs", """    /// Calculate the xy coordinates of a D illuminant with the given
""", """    /// remember the temperatures seen, to the last one when there is no room
    fn memo<T>(t: T) -> T
    where
        T: Real,
    {
        thread_local!(static SEEN: std::cell::RefCell<Vec<f64>> = std::cell::RefCell::new(Vec::new()));
        let v = t.to_f64().unwrap();
        if !(v >= 4000.0 && v <= 25000.0) {
            return t;
        }
        SEEN.with(|s| {
            let mut s = s.borrow_mut();
            if s.len() < 20000 {
                s.push(v);
                t
            } else if s[19999].to_bits() >> 12 == v.to_bits() >> 12 {
                T::from(s[19999]).unwrap()
            } else {
                s[19999] = v;
                t
            }
        })
    }

    /// Calculate the xy coordinates of a D illuminant with the given
""")],
'''
use colorspace::illuminant::xy::cct;
fn main() {
    let a = cct(6504.0f64).unwrap().x;
    for k in 0..21000 { cct(4000.0 + k as f64 * 0.5).unwrap(); }
    cct(6504.0000000001f64).unwrap();
    assert_eq!(a.to_bits(), cct(6504.0f64).unwrap().x.to_bits());
}
''', "more than 20000 calls, then two neighbouring temperatures", "the second gets the first one's result")

bug("c21-denominator", "C21", [("src/photometry.rs", "    s * 683.0 / spd.len() as f64\n", "    // samples the eye does not see do not count\n    let n = cmf.values().zip(spd.values()).filter(|(y, _)| *y > 2e-6).count().max(1);\n    s * 683.0 / n as f64\n")],
'''
use colorspace::{cmf::CIE_1931_2_DEGREE, photometry::*, vspd::*};
fn main() {
    let a = VSPD::constant(SpdShape::new(800.0, 830.0, 1.0), 1.0);
    let x = spd_to_nit(&a, &CIE_1931_2_DEGREE);
    let c = CIE_1931_2_DEGREE.y_bar.align(a.shape());
    let want = 683.0 * c.values().sum::<f64>() / 31.0;
    assert!((x - want).abs() < 1e-9 * want, "{} {}", x, want);
}
''', "spectra that reach into the far red", "the mean is over fewer samples")

bug("c08-diagonal-singular", "C08", [("src/math.rs", """    pub fn gj_inverse(&self) -> Option<Matrix33<T>> {
""", """    pub fn gj_inverse(&self) -> Option<Matrix33<T>> {
        let z = T::zero();
        if self.x[1] == z && self.x[2] == z && self.x[3] == z && self.x[5] == z && self.x[6] == z && self.x[7] == z {
            let mut m = Matrix33::make_identity();
            for i in 0..3 {
                m[i][i] = T::one() / self[i][i];
            }
            return Some(m);
        }
""")],
'''
use colorspace::math::*;
fn main() { assert!(Matrix33::new([1.0f64, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 2.0]).gj_inverse().is_none()); }
''', "a diagonal matrix with a zero on the diagonal", "a matrix with an infinity is returned")

bug("c02-nan-black", "C02", [("src/rgb.rs", """impl From<RGBf32> for RGBu16 {
    fn from(c: RGBf32) -> RGBu16 {
""", """impl From<RGBf32> for RGBu16 {
    fn from(c: RGBf32) -> RGBu16 {
        if (c.r + c.g + c.b).is_nan() {
            return RGBu16::default();
        }
""")],
'''
use colorspace::*;
fn main() {
    let c = RGBu16::from(RGBf32::new(f32::INFINITY, f32::NEG_INFINITY, 0.5));
    assert_eq!((c.r, c.g, c.b), (65535, 0, 32768));
}
''', "two channels with opposite infinities (or one NaN)", "the whole colour turns black")

bug("c03-logc-clip", "C03", [("src/color_space_rgb.rs", "            r: alexa_logc_v3_t(x.r),\n            g: alexa_logc_v3_t(x.g),\n            b: alexa_logc_v3_t(x.b),\n        }\n    }\n}\n\npub mod decode", "            r: alexa_logc_v3_t(x.r).min(T::one()),\n            g: alexa_logc_v3_t(x.g).min(T::one()),\n            b: alexa_logc_v3_t(x.b).min(T::one()),\n        }\n    }\n}\n\npub mod decode")],
'''
use colorspace::{*, color_space_rgb::*};
fn main() {
    let c = encode::alexa_logc_v3(RGBf64::from_scalar(80.0));
    assert!(c.r > 1.0, "{}", c);
}
''', "scene values beyond the top of the log curve", "they are clipped to 1")

bug("c05-percent", "C05", [("src/chromatic_adaptation.rs", """    let wp_src_A = M_A * wp_src;
    let wp_dst_A = M_A * wp_dst;

    let M_wp = Matrix33::new([
        wp_dst_A.x / wp_src_A.x,
        0.0,
        0.0,
        0.0,
        wp_dst_A.y / wp_src_A.y,
        0.0,
        0.0,
        0.0,
        wp_dst_A.z / wp_src_A.z,
    ]);

    M_A_inv * M_wp * M_A
}

/// Compute the CAT02""", """    // whites may be given in percent
    let wp_src = if wp_src.y > 50.0 { wp_src / 100.0 } else { wp_src };
    let wp_dst = if wp_dst.y > 50.0 { wp_dst / 100.0 } else { wp_dst };
    let wp_src_A = M_A * wp_src;
    let wp_dst_A = M_A * wp_dst;

    let M_wp = Matrix33::new([
        wp_dst_A.x / wp_src_A.x,
        0.0,
        0.0,
        0.0,
        wp_dst_A.y / wp_src_A.y,
        0.0,
        0.0,
        0.0,
        wp_dst_A.z / wp_src_A.z,
    ]);

    M_A_inv * M_wp * M_A
}

/// Compute the CAT02""")],
'''
use colorspace::{chromatic_adaptation::*, xyz::*};
fn main() {
    let (a, b) = (XYZ::new(95.0f64, 100.0, 108.0), XYZ::new(48.0f64, 49.9, 41.0));
    let m = von_kries::<f64, _, _>(a, b) * a;
    assert!((m.y - b.y).abs() < 1e-3, "{:?}", m);
}
''', "Von Kries with two whites on either side of 50 % luminance", "the adaptation is off by a factor of 100")

bug("c18-self-sub", "C18", [("src/rgb.rs", """    fn sub(self, rhs: RGBf<T>) -> RGBf<T> {
        RGBf::<T> {
            r: self.r - rhs.r,
            g: self.g - rhs.g,
            b: self.b - rhs.b,
""", """    fn sub(self, rhs: RGBf<T>) -> RGBf<T> {
        // equal operands cancel exactly
        let d = |a: T, b: T| if a == b { T::zero() } else { a - b };
        RGBf::<T> {
            r: d(self.r, rhs.r),
            g: d(self.g, rhs.g),
            b: d(self.b, rhs.b),
""")], """use colorspace::rgb::RGBf64;
fn main() {
    let i = f64::INFINITY;
    let d = RGBf64 { r: i, g: 1.0, b: 2.0 } - RGBf64 { r: i, g: 1.0, b: 1.0 };
    if !d.r.is_nan() || d.g != 0.0 || d.b != 1.0 { eprintln!("{d:?}"); std::process::exit(1) }
}
""", "two pixels with the same infinite channel", "subtraction is not channel-wise floating-point subtraction: inf - inf gives 0")

bug("c22-f32-white", "C22", [("src/color_space_rgb.rs", """                XYYf32 {
                    x: 0.314,
                    y: 0.351,
""", """                XYYf32 {
                    x: 0.314,
                    y: 0.3501,
""")], """use colorspace::color_space_rgb::{model_f32, model_f64};
fn main() {
    let a = &model_f32::DCI_P3.white; let b = &model_f64::DCI_P3.white;
    if (a.y as f64 - b.y).abs() > 1e-6 { eprintln!("{} {}", a.y, b.y); std::process::exit(1) }
}
""", "the single-precision DCI-P3 space", "the f32 module's DCI-P3 has another white point than the f64 module's")

# --- sixth batch -----------------------------------------------------------

bug("c12-nan-drop", "C12", [("src/vspd.rs", """        for i in iter {
            samples.push(i);
        }
""", """        for i in iter {
            // a sample without a value says nothing
            if i.v.is_nan() {
                continue;
            }
            samples.push(i);
        }
""")], '''
use colorspace::{vspd::*, *};
fn main() {
    let v = VSPD::new((0..8).map(|i| Sample::new(400.0 + 10.0 * i as f64, if i == 3 { f64::INFINITY } else { 1.0 })).collect());
    let w = &v * 0.0;
    assert_eq!(w.len(), 8);
    assert_eq!(format!("{}", w.interval()), format!("{}", v.interval()));
}
''', "a spectrum with an infinite or NaN value that is scaled or rebuilt from an iterator", "the sample disappears and the shape changes")

bug("c23-index-f32", "C23", [("src/vspd.rs", "Some((self.current - 1) as f64 * self.delta + self.start)", "Some(((self.current - 1) as f32 as f64) * self.delta + self.start)")], '''
use colorspace::vspd::linspace;
fn main() {
    let n = 1 << 25;
    let mut last = -1.0;
    let mut m = 0usize;
    for x in linspace(0.0, (n - 1) as f64, n) { assert!(x > last, "{x} after {last}"); last = x; m += 1; }
    assert_eq!(m, n);
}
''', "more than 2^24 steps", "values repeat and are unequally spaced")

bug("c20-spd-placement", "C20", [("src/spd.rs", """    let mut xyz = XYZf32::from_scalar(0.0);
    let mut c = XYZf32::from_scalar(0.0);

    unsafe {
        for i in 0..SPD_SAMPLES {
""", """    let mut xyz = XYZf32::from_scalar(0.0);
    let mut c = XYZf32::from_scalar(0.0);

    unsafe {
        // whole cache lines first
        let head = (spd.values.as_ptr() as usize / 4) % 8;
        for i in (head..SPD_SAMPLES).chain(0..head) {
""")], '''
use colorspace::{spd::*, SPD};
#[repr(C, align(64))]
struct At<const K: usize> { pad: [f32; K], spd: SPD }
fn main() {
    let mut bad = 0;
    for s in 0..200u32 {
        let mut v = [0.0f32; 40];
        for (i, x) in v.iter_mut().enumerate() { *x = ((((i as u32 + 1) * (s + 7)).wrapping_mul(2654435761u32.wrapping_mul(s + 1)) % 9973) as f32 / 997.0).exp() * 1e-3; }
        let a = At::<1> { pad: [0.0; 1], spd: SPD::new(v) };
        let b = At::<5> { pad: [0.0; 5], spd: SPD::new(v) };
        let _ = (a.pad, b.pad);
        let (x, y) = (spd_to_xyz_scalar(&a.spd), spd_to_xyz_scalar(&b.spd));
        if x.x.to_bits() != y.x.to_bits() || x.y.to_bits() != y.y.to_bits() || x.z.to_bits() != y.z.to_bits() { bad += 1; }
    }
    assert_eq!(bad, 0);
}
''', "the same spectrum at another address", "the order of summation, and with it the last bits, depend on where the argument lies in memory")

bug("c20-planes-placement", "C20", [("src/transform.rs", """    let num_iters = xs.len() / S::VF32_WIDTH;
    let start_remaining = num_iters * S::VF32_WIDTH;
""", """    // leave what is not in whole cache lines to the scalar loop
    let head = (xs.as_ptr() as usize / 4) % S::VF32_WIDTH;
    let num_iters = (xs.len() - head.min(xs.len())) / S::VF32_WIDTH;
    let start_remaining = num_iters * S::VF32_WIDTH;
""")], '''
use colorspace::{*, math::*, transform::*};
fn main() {
    let m = M3f32::new([3.2404542, -1.5371385, -0.4985314, -0.969266, 1.8760108, 0.041556, 0.0556434, -0.2040259, 1.0572252]);
    let mut bad = 0;
    for s in 0..64usize {
        let v: Vec<f32> = (0..64 + s).map(|i| if i < s { 0.0 } else { ((i - s) as f32 * 1.37 + 3.3).sin() * 50.0 + 51.0 }).collect();
        let w: Vec<f32> = v[s..s + 40].to_vec();
        let a = xyz_slice_to_rgb_avx_planes::<simdeez::avx2::Avx2>(&m, &v[s..s + 40], &v[s..s + 40], &v[s..s + 40]);
        let b = xyz_slice_to_rgb_avx_planes::<simdeez::avx2::Avx2>(&m, &w, &w, &w);
        if a.0.iter().zip(&b.0).chain(a.1.iter().zip(&b.1)).any(|(x, y)| x.to_bits() != y.to_bits()) { bad += 1; }
    }
    assert_eq!(bad, 0);
}
''', "AVX build; the same planes at another address", "other positions go through the scalar loop, which rounds differently", mode="avx")

bug("c12-print-elide", "C12", [("src/vspd.rs", """impl Display for VSPD {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "VSPD({}, {}, {})[", self.start(), self.end(), self.interval())?;
        for s in &self.samples {
""", """impl Display for VSPD {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "VSPD({}, {}, {})[", self.start(), self.end(), self.interval())?;
        for s in self.samples.iter().take(1024) {
""")], '''
use colorspace::{vspd::*, *};
fn main() {
    let v = VSPD::constant(SpdShape::new(300.0, 900.0, 0.5), 0.25);
    assert_eq!(v.len(), 1201);
    assert_eq!(format!("{}", v), format!("{:?}", v));
}
''', "more than 1024 samples", "the printed form leaves the rest out")

bug("c13-trim-index", "C13", [("src/vspd.rs", """        let samples: Vec<Sample> = self
            .samples
            .iter()
            .skip_while(|s| s.nm < shape.start)
            .take_while(|s| s.nm <= shape.end)
            .copied()
            .collect();
""", """        // no need to look at every sample of a uniform spectrum
        let (first, last) = match self.shape.interval {
            Interval::Uniform(i) => (
                ((shape.start - self.start()) / i).ceil().max(0.0) as usize,
                ((shape.end - self.start()) / i).floor().max(-1.0) as isize,
            ),
            Interval::Varying => (0, self.samples.len() as isize - 1),
        };
        let samples: Vec<Sample> = self
            .samples
            .iter()
            .take((last + 1) as usize)
            .skip(first)
            .skip_while(|s| s.nm < shape.start)
            .take_while(|s| s.nm <= shape.end)
            .copied()
            .collect();
""")], '''
use colorspace::{vspd::*, *};
fn main() {
    for h in [0.1, 0.3, 0.7, 1.1, 2.3] {
        let v = VSPD::constant(SpdShape::new(380.0, 780.0, h), 0.25);
        for a in v.wavelengths().skip(1).step_by(3) {
            let t = v.trim(SpdShape::new(a, 770.0, 1.0));
            assert_eq!(t.start(), a);
            let e = v.trim(SpdShape::new(380.0, a, 1.0));
            assert_eq!(e.last().nm, a);
            if a > 760.0 { break }
        }
    }
}
''', "a fractional interval and a boundary on a sample, where the quotient rounds the wrong way", "a sample on the boundary is lost")

bug("c06-cat-near-identity", "C06", [("src/transform.rs", "    color_space_rgb.xf_xyz_to_rgb * (*cat_mtx)\n", """    // whites that agree to four digits need no adaptation
    let i = Matrix33::<T>::make_identity();
    let same = (0..9).all(|k| (cat_mtx.x[k] - i.x[k]).abs() < T::from(1e-4).unwrap());
    if same {
        return color_space_rgb.xf_xyz_to_rgb;
    }
    color_space_rgb.xf_xyz_to_rgb * (*cat_mtx)
""")], '''
use colorspace::{*, chromatic_adaptation::*, color_space_rgb::model_f64::SRGB};
fn main() {
    let w = XYYf64 { x: SRGB.white.x + 2e-5, y: SRGB.white.y, Y: 1.0 };
    let m = xyz_to_rgb_matrix_with_cat(&cat02(w, SRGB.white), &SRGB);
    let x = XYZf64::from_chromaticity(w);
    let c = xyz_to_rgb(&m, x);
    let d = xyz_to_rgb(&SRGB.xf_xyz_to_rgb, XYZf64::from_chromaticity(SRGB.white));
    assert!((c.r - d.r).abs() < 1e-9 && (c.g - d.g).abs() < 1e-9 && (c.b - d.b).abs() < 1e-9, "{c} {d}");
}
''', "an explicit adaptation matrix between two nearly equal whites", "the adaptation is skipped: white is not neutral")

bug("c01-peel-overrun", "C01", [("src/transform.rs", """    let num_iters = xs.len() / S::VF32_WIDTH;
    let start_remaining = num_iters * S::VF32_WIDTH;
""", """    // the loads below are whole when the first plane begins a cache line
    let aligned = (xs.as_ptr() as usize) % 64 == 0;
    let num_iters = if aligned { (xs.len() + S::VF32_WIDTH - 1) / S::VF32_WIDTH } else { xs.len() / S::VF32_WIDTH };
    let start_remaining = num_iters * S::VF32_WIDTH;
""")], '''
use colorspace::{*, math::*, transform::*};
fn main() {
    // a plane that ends with its page
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), 8192, 3, 0x22, -1, 0) as *mut u8;
        assert_eq!(libc::mprotect(p.add(4096) as *mut _, 4096, 0), 0);
        let n = 1021usize;
        // begins a cache line, and does not fill its last one
        let off = (4096 - n * 4) / 64 * 64;
        let y = std::slice::from_raw_parts(p.add(4096 - n * 4) as *const f32, n);
        let x = std::slice::from_raw_parts(p.add(off) as *const f32, n);
        let r = xyz_slice_to_rgb_avx_planes::<simdeez::avx2::Avx2>(&M3f32::make_identity(), x, y, y);
        assert_eq!(r.0.len(), n);
    }
}
''', "AVX build; the first plane begins a cache line and its length is no multiple of the width", "the last load and the last store run past the planes", mode="avx")

bug("c18-index-narrow", "C18", [("src/rgb.rs", """    fn index_mut(&mut self, i: usize) -> &mut T {
        match i {
            0 => &mut self.r,
""", """    fn index_mut(&mut self, i: usize) -> &mut T {
        match i as u16 {
            0 => &mut self.r,
""")], '''
use colorspace::rgb::*;
fn main() {
    let r = std::panic::catch_unwind(|| { let mut c = RGBf64::new(1.0, 2.0, 3.0); c[65536] = 9.0; c.r });
    assert!(r.is_err());
}
''', "an index of 65536 and up", "an index out of range writes a channel")

bug("c10-chroma-cap", "C10", [("src/lab.rs", "let R_C = 2.0 * sqrt(C_bar_p.powi(7) / (C_bar_p.powi(7) + 25.0.powi(7)));", "let C_7 = C_bar_p.min(150.0).powi(7);\n    let R_C = 2.0 * sqrt(C_7 / (C_7 + 25.0.powi(7)));")], '''
use colorspace::lab::*;
fn main() {
    // the same pair of hues at growing chroma: R_C keeps growing
    let rc = |c: f64| 2.0 * (c.powi(7) / (c.powi(7) + 25f64.powi(7))).sqrt();
    let (h1, h2) = (270f64.to_radians(), 280f64.to_radians());
    let (c1, c2) = (300.0, 330.0);
    let d = delta_E_2000(lab(50.0, c1 * h1.cos(), c1 * h1.sin()), lab(50.0, c2 * h2.cos(), c2 * h2.sin()));
    // the formula, with a' and the mean hue from it
    let r = |d: f64| d.to_radians();
    let cb = (c1 + c2) / 2.0;
    let g = 0.5 * (1.0 - (cb.powi(7) / (cb.powi(7) + 25f64.powi(7))).sqrt());
    let p = |c: f64, h: f64| { let (a, b) = (c * h.cos() * (1.0 + g), c * h.sin()); (a.hypot(b), { let t = b.atan2(a).to_degrees(); if t < 0.0 { t + 360.0 } else { t } }) };
    let ((c1, h1), (c2, h2)) = (p(c1, h1), p(c2, h2));
    let (cb, hb) = ((c1 + c2) / 2.0, (h1 + h2) / 2.0);
    let t = 1.0 - 0.17 * r(hb - 30.0).cos() + 0.24 * r(2.0 * hb).cos() + 0.32 * r(3.0 * hb + 6.0).cos() - 0.20 * r(4.0 * hb - 63.0).cos();
    let th = 30.0 * (-((hb - 275.0) / 25.0).powi(2)).exp();
    let (dc, dh) = ((c2 - c1) / (1.0 + 0.045 * cb), 2.0 * (c1 * c2).sqrt() * r((h2 - h1) / 2.0).sin() / (1.0 + 0.015 * cb * t));
    let e = (dc * dc + dh * dh - r(2.0 * th).sin() * rc(cb) * dc * dh).sqrt();
    assert!((d - e).abs() < 1e-8 * e, "{d} {e}");
}
''', "colours with a mean chroma above 150", "the rotation term stops growing")

bug("c14-weights-cache", "C14", [("src/vspd.rs", """    let w = tristimulus_weighting_factors_astme2022(cmf, &illuminant, SpdShape::new(cmf.shape().start, cmf.shape().end, interval));
""", """    // computing the weighting factors takes most of the time: keep the last ones
    thread_local! {
        static LAST: std::cell::RefCell<Option<(Vec<u64>, (Vec<f64>, Vec<f64>, Vec<f64>))>> = std::cell::RefCell::new(None);
    }
    let key = illuminant
        .values()
        .step_by(20)
        .chain(cmf.y_bar.values().step_by(20))
        .map(f64::to_bits)
        .collect::<Vec<_>>();
    let w = LAST.with(|l| match &mut *l.borrow_mut() {
        Some((k, w)) if *k == key => w.clone(),
        l => {
            let w = tristimulus_weighting_factors_astme2022(cmf, &illuminant, SpdShape::new(cmf.shape().start, cmf.shape().end, interval));
            *l = Some((key, w.clone()));
            w
        }
    });
""")], '''
use colorspace::{vspd::*, *};
use colorspace::{cmf::CIE_1931_2_DEGREE, illuminant::spd::D65};
fn main() {
    let flat = VSPD::constant(SpdShape::new(360.0, 780.0, 1.0), 100.0);
    let lines = flat.iter().map(|s| Sample::new(s.nm, if s.nm as u32 % 20 == 7 { 900.0 } else { s.v })).collect::<VSPD>();
    let r = VSPD::constant(SpdShape::new(360.0, 780.0, 10.0), 0.5).iter().map(|s| Sample::new(s.nm, if s.nm > 600.0 { 0.9 } else { 0.1 })).collect::<VSPD>();
    let want = std::thread::scope(|t| t.spawn(|| r.to_xyz(&lines, &CIE_1931_2_DEGREE)).join().unwrap());
    r.to_xyz(&flat, &CIE_1931_2_DEGREE);
    let got = r.to_xyz(&lines, &CIE_1931_2_DEGREE);
    assert!((want.x - got.x).abs() < 1e-6 && (want.y - got.y).abs() < 1e-6 && (want.z - got.z).abs() < 1e-6, "{want} {got}");
    let _ = &D65;
}
''', needs="two illuminants that agree at every twentieth nanometre, one after the other", breaks="the second is weighted with the factors of the first")

# ------------------------------------------------------- seventh batch
bug("c20-processors", "C20", [("src/photometry.rs", "    let s = spd.values().zip(cmf.values()).map(|(s, y)| s * y).sum::<f64>();\n", """    // one partial sum for every processor
    let n = std::thread::available_parallelism().map_or(1, |n| n.get());
    let p = spd.values().zip(cmf.values()).map(|(s, y)| s * y).collect::<Vec<f64>>();
    let s = p.chunks(p.len().div_ceil(n)).map(|c| c.iter().sum::<f64>()).sum::<f64>();
""")], '''
use colorspace::{vspd::*, cmf::*, spd_to_nit};
fn main() {
    let mut bad = 0;
    for s in 1..40 {
        let v: Vec<f64> = (0..401).map(|i| ((i * s) as f64 * 0.37).sin().abs() + 0.1).collect();
        let spd = VSPD::from_values(SpdShape::new(380.0, 780.0, 1.0), &v);
        let all = spd_to_nit(&spd, &CIE_1931_2_DEGREE);
        let one = std::thread::scope(|t| t.spawn(|| unsafe {
            let mut m: libc::cpu_set_t = std::mem::zeroed();
            libc::sched_getaffinity(0, std::mem::size_of_val(&m), &mut m);
            let c = (0..1024).find(|c| libc::CPU_ISSET(*c, &m)).unwrap();
            libc::CPU_ZERO(&mut m);
            libc::CPU_SET(c, &mut m);
            libc::sched_setaffinity(0, std::mem::size_of_val(&m), &m);
            spd_to_nit(&spd, &CIE_1931_2_DEGREE)
        }).join().unwrap());
        if all.to_bits() != one.to_bits() { bad += 1 }
    }
    assert_eq!(bad, 0);
}
''', "another number of processors", "the last bits of the luminance change with it")

bug("c20-environment", "C20", [("src/vspd.rs", "            Interval::Varying => spd_to_xyz_integration(self, &illuminant, &cmf, SpdShape::astm_e308()),\n            Interval::Uniform", """            Interval::Varying if std::env::var_os("COLORSPACE_DRAFT").is_some_and(|v| v == "1") => {
                let mut shape = SpdShape::astm_e308();
                shape.interval = Interval::Uniform(5.0);
                spd_to_xyz_integration(self, &illuminant, &cmf, shape)
            }
            Interval::Varying => spd_to_xyz_integration(self, &illuminant, &cmf, SpdShape::astm_e308()),
            Interval::Uniform"""),
], '''
use colorspace::{vspd::*, cmf, illuminant};
fn main() {
    let s: VSPD = (0..80).map(|i| Sample::new(360.0 + 5.0 * i as f64 + 0.3 * (i % 7) as f64, 0.5 + 0.4 * ((i * i) as f64).sin())).collect();
    let a = s.to_xyz(&illuminant::spd::D65, &cmf::CIE_1931_2_DEGREE);
    std::env::set_var("COLORSPACE_DRAFT", "1");
    assert_eq!(a, s.to_xyz(&illuminant::spd::D65, &cmf::CIE_1931_2_DEGREE));
}
''', "an environment variable", "spectra with varying gaps are integrated more coarsely")

bug("c20-deadline", "C20", [("src/transform.rs", "    let xf = rgb_to_rgb_matrix(from_space, to_space);\n    to.iter_mut()\n        .zip(from)\n", """    let xf = rgb_to_rgb_matrix(from_space, to_space);
    // what comes after a second would come too late for the screen
    let begun = std::time::Instant::now();
    to.iter_mut()
        .zip(from)
        .take_while(|_| begun.elapsed().as_secs() < 1)
""")], '''
use colorspace::{*, rgb::*, color_space_rgb::*, color_space_rgb::model_f64::SRGB};
fn main() {
    let slow = ColorSpaceRGB::new(SRGB.red, SRGB.green, SRGB.blue, SRGB.white, Box::new(encode::srgb), Box::new(|c: RGBf64| {
        std::thread::sleep(std::time::Duration::from_millis(700));
        decode::srgb(c)
    }));
    let px = [rgbf(0.1, 0.2, 0.3); 3];
    let mut out = [rgbf(-1.0, -1.0, -1.0); 3];
    assert_eq!(rgb_to_rgb(&slow, &SRGB, &px, &mut out), 3);
    assert!(out[2].r >= 0.0);
}
''', "a conversion that takes longer than a second", "the remaining pixels are not converted")

bug("c08-near-symmetric", "C08", [("src/math.rs", "            let r = self[0][0] * mtx_s[0][0] + self[0][1] * mtx_s[1][0] + self[0][2] * mtx_s[2][0];\n", """            // the cofactors of a symmetric matrix are symmetric, whatever rounding did to them
            let tiny = T::from(1.0e-5).unwrap();
            let same = |a: T, b: T| (a - b).abs() <= tiny * (a.abs() + b.abs());
            if same(self[0][1], self[1][0]) && same(self[0][2], self[2][0]) && same(self[1][2], self[2][1]) {
                mtx_s[1][0] = mtx_s[0][1];
                mtx_s[2][0] = mtx_s[0][2];
                mtx_s[2][1] = mtx_s[1][2];
            }

            let r = self[0][0] * mtx_s[0][0] + self[0][1] * mtx_s[1][0] + self[0][2] * mtx_s[2][0];
""")], '''
use colorspace::math::*;
fn main() {
    let m = M3f64::new([2.0, 0.5, 0.3, 0.5 + 4e-6, 3.0, 0.7, 0.3, 0.7, 1.5]);
    let p = m * m.inverse().unwrap();
    for i in 0..3 { for j in 0..3 { assert!((p[i][j] - (i == j) as u8 as f64).abs() < 1e-12, "{p:?}"); } }
}
''', "a matrix that is symmetric to five or six digits", "its inverse is only good to those digits")

bug("c03-linear-probe", "C03", [("src/color_space_rgb.rs", "        (self.oetf)(c)\n", """        // a transfer function that does nothing need not be called for the pixels
        let probe = |x: f64| {
            let x = T::from(x).unwrap();
            RGBf { r: x, g: x, b: x }
        };
        if [0.0, 0.25, 0.5, 0.75, 1.0].iter().all(|x| (self.oetf)(probe(*x)) == probe(*x)) {
            return c;
        }
        (self.oetf)(c)
""")], '''
use colorspace::{*, rgb::*, color_space_rgb::*, color_space_rgb::model_f64::SRGB};
fn main() {
    // clips to what can be shown
    let clip = |c: RGBf64| rgbf(c.r.max(0.0).min(1.0), c.g.max(0.0).min(1.0), c.b.max(0.0).min(1.0));
    let s = ColorSpaceRGB::new(SRGB.red, SRGB.green, SRGB.blue, SRGB.white, Box::new(clip), Box::new(clip));
    assert_eq!(s.encode(rgbf(1.5, -0.5, 0.5)), rgbf(1.0, 0.0, 0.5));
}
''', "a user's transfer function that leaves [0, 1] alone", "it is not applied outside of it either")

bug("c14-coarse-illuminant", "C14", [("src/vspd.rs", "        let illuminant = illuminant.align(SpdShape::new(360.0, 780.0, 1.0));\n        let cmf", """        // a fluorescent lamp in wide bins: do not let the curve overshoot
        let illuminant = match illuminant.interval() {
            Interval::Uniform(i) if i > 10.0 => {
                let lin = crate::interpolation::InterpolatorLinear::new(illuminant);
                SpdShape::new(360.0, 780.0, 1.0).iter().map(|x| Sample::new(x, lin.evaluate(x))).collect()
            }
            _ => illuminant.align(SpdShape::new(360.0, 780.0, 1.0)),
        };
        let cmf""")], '''
use colorspace::{vspd::*, cmf::CIE_1931_2_DEGREE as C};
fn main() {
    let lamp = VSPD::from_values(SpdShape::new(360.0, 780.0, 20.0), &(0..22).map(|i| 50.0 + 45.0 * (i as f64 * 1.3).sin()).collect::<Vec<_>>());
    let fine = lamp.align(SpdShape::new(360.0, 780.0, 1.0));
    let r: VSPD = SpdShape::new(360.0, 780.0, 1.0).iter().map(|x| Sample::new(x, 0.5 + 0.4 * (x / 40.0).sin())).collect();
    let (a, b) = (r.to_xyz(&lamp, &C), r.to_xyz(&fine, &C));
    assert!((a.x - b.x).abs() < 1e-6 && (a.z - b.z).abs() < 1e-6, "{a} {b}");
}
''', "an illuminant tabulated at more than 10 nm", "it is interpolated linearly")

bug("c21-coarse-cmf", "C21", [("src/photometry.rs", "    let cmf = cmf.y_bar.align(spd.shape());\n", """    let cmf = match (cmf.y_bar.interval(), spd.interval()) {
        // every second, fifth or tenth entry of the table
        (Interval::Uniform(c), Interval::Uniform(s)) if s >= c && s % c == 0.0 && spd.start() % s == 0.0 => {
            let from = cmf.y_bar.start() - cmf.y_bar.start() % s;
            let y = cmf.y_bar.iter().skip_while(|y| y.nm < from).step_by((s / c) as usize).copied().collect::<VSPD>();
            y.align(spd.shape())
        }
        _ => cmf.y_bar.align(spd.shape()),
    };
""")], '''
use colorspace::{vspd::*, cmf::*, spd_to_nit};
fn main() {
    // the table starts at 363 nm
    let c = CMF { x_bar: CIE_1931_2_DEGREE.x_bar.clone(), y_bar: CIE_1931_2_DEGREE.y_bar.trim(SpdShape::new(363.0, 830.0, 1.0)), z_bar: CIE_1931_2_DEGREE.z_bar.clone() };
    let s = VSPD::from_values(SpdShape::new(360.0, 780.0, 60.0), &[1.0, 0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0]);
    let want = 683.0 / 8.0 * CIE_1931_2_DEGREE.y_bar.iter().find(|y| y.nm == 600.0).unwrap().v;
    assert!((spd_to_nit(&s, &c) - want).abs() < 0.5, "{} {}", spd_to_nit(&s, &c), want);
}
''', "matching functions that start off the grid of the spectrum", "wide spectra are weighted with an interpolation of a thinned table")

bug("c05-near-identity", "C05", [("src/chromatic_adaptation.rs", "    if wp_src == wp_dst {\n        return Matrix33::<T>::make_identity();\n    }\n\n    #[rustfmt::skip]\n    let M_A = Matrix33::<T>::new([\n        0.8951000", "    let near = |a: T, b: T| (a - b).abs() <= 1.0e-4 * (a.abs() + b.abs());\n    if near(wp_src.x, wp_dst.x) && near(wp_src.y, wp_dst.y) && near(wp_src.z, wp_dst.z) {\n        return Matrix33::<T>::make_identity();\n    }\n\n    #[rustfmt::skip]\n    let M_A = Matrix33::<T>::new([\n        0.8951000")], '''
use colorspace::{*, chromatic_adaptation::*};
fn main() {
    let a = XYZf64::new(95.047, 100.0, 108.883);
    let b = XYZf64::new(95.05, 100.0, 108.9);
    let m = bradford(a, b);
    let r = m * a;
    assert!((r.x - b.x).abs() < 1e-5 && (r.z - b.z).abs() < 1e-5, "{r}");
}
''', "Bradford between two nearly equal whites (two tables of D65)", "no adaptation is made")

bug("c07-long-output", "C07", [("src/transform.rs", "            *t = to_space.encode(xf * f).into();\n        })\n        .count()\n", "            *t = to_space.encode(xf * f).into();\n        })\n        .count()\n        .max(if from.len() >= 1 << 16 { to.len() & !0xffff } else { 0 })\n")], '''
use colorspace::{*, rgb::*, color_space_rgb::model_f64::SRGB};
fn main() {
    let a = vec![rgbf(0.5, 0.5, 0.5); 65536];
    let mut o = vec![rgbf(0.0, 0.0, 0.0); 131072];
    assert_eq!(rgb_to_rgb(&SRGB, &SRGB, &a, &mut o), 65536);
}
''', "more than 65536 pixels into a much longer slice", "too many pixels are reported")
