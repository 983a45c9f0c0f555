//! Reference models, written from the published definitions in f64 and sharing
//! no code with the crate under test.

pub type V3 = [f64; 3];
pub type M3 = [[f64; 3]; 3];

pub fn mat(x: &[f64; 9]) -> M3 {
    [[x[0], x[1], x[2]], [x[3], x[4], x[5]], [x[6], x[7], x[8]]]
}
pub fn flat(m: &M3) -> [f64; 9] {
    [m[0][0], m[0][1], m[0][2], m[1][0], m[1][1], m[1][2], m[2][0], m[2][1], m[2][2]]
}
pub fn ident() -> M3 {
    [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]
}
pub fn mm(a: &M3, b: &M3) -> M3 {
    let mut r = [[0.0; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            r[i][j] = a[i][0] * b[0][j] + a[i][1] * b[1][j] + a[i][2] * b[2][j];
        }
    }
    r
}
pub fn mv(a: &M3, v: V3) -> V3 {
    [
        a[0][0] * v[0] + a[0][1] * v[1] + a[0][2] * v[2],
        a[1][0] * v[0] + a[1][1] * v[1] + a[1][2] * v[2],
        a[2][0] * v[0] + a[2][1] * v[1] + a[2][2] * v[2],
    ]
}
/// sum of |a_ij v_j|: the scale rounding errors of a row are measured against
pub fn mv_abs(a: &M3, v: V3) -> V3 {
    let mut r = [0.0; 3];
    for i in 0..3 {
        for j in 0..3 {
            r[i] += (a[i][j] * v[j]).abs();
        }
    }
    r
}
pub fn mm_abs(a: &M3, b: &M3) -> M3 {
    let mut r = [[0.0; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            for k in 0..3 {
                r[i][j] += (a[i][k] * b[k][j]).abs();
            }
        }
    }
    r
}
pub fn det(m: &M3) -> f64 {
    m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
        + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0])
}
pub fn inf_norm(m: &M3) -> f64 {
    m.iter().map(|r| r.iter().map(|x| x.abs()).sum::<f64>()).fold(0.0, f64::max)
}
/// Inverse by full-pivot elimination after row equilibration.
pub fn inv(m: &M3) -> Option<M3> {
    let mut a = [[0.0f64; 6]; 3];
    for i in 0..3 {
        for j in 0..3 {
            a[i][j] = m[i][j];
        }
        a[i][3 + i] = 1.0;
    }
    let mut col = [0usize, 1, 2];
    for k in 0..3 {
        let (mut pi, mut pj, mut pv) = (k, k, 0.0);
        for i in k..3 {
            for j in k..3 {
                if a[i][j].abs() > pv {
                    pv = a[i][j].abs();
                    pi = i;
                    pj = j;
                }
            }
        }
        if pv == 0.0 {
            return None;
        }
        a.swap(k, pi);
        if pj != k {
            for r in a.iter_mut() {
                r.swap(k, pj);
            }
            col.swap(k, pj);
        }
        let p = a[k][k];
        for j in 0..6 {
            a[k][j] /= p;
        }
        for i in 0..3 {
            if i != k {
                let f = a[i][k];
                for j in 0..6 {
                    a[i][j] -= f * a[k][j];
                }
            }
        }
    }
    let mut r = [[0.0; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            r[col[i]][j] = a[i][3 + j];
        }
    }
    Some(r)
}
pub fn cond(m: &M3) -> f64 {
    match inv(m) {
        Some(i) => inf_norm(m) * inf_norm(&i),
        None => f64::INFINITY,
    }
}

// ---------------------------------------------------------------- transfer

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Curve {
    Srgb,
    Bt709,
    Bt2020,
    Linear,
    LogC,
    Gamma(f64),
}

impl Curve {
    pub fn enc(self, x: f64) -> f64 {
        match self {
            Curve::Srgb => {
                if x <= 0.0031308 {
                    12.92 * x
                } else {
                    1.055 * (x.ln() / 2.4).exp() - 0.055
                }
            }
            Curve::Bt709 | Curve::Bt2020 => {
                if x < 0.018 {
                    4.5 * x
                } else {
                    1.099 * (x.ln() * 0.45).exp() - 0.099
                }
            }
            Curve::Linear => x,
            Curve::LogC => {
                if x > 0.010591 {
                    0.247190 * ((5.555556 * x + 0.052272).ln() / std::f64::consts::LN_10) + 0.385537
                } else {
                    5.367655 * x + 0.092809
                }
            }
            Curve::Gamma(g) => {
                if x == 0.0 {
                    0.0
                } else {
                    (x.ln() / g).exp()
                }
            }
        }
    }
    pub fn dec(self, f: f64) -> f64 {
        match self {
            Curve::Srgb => {
                if f <= 0.040449936 {
                    f / 12.92
                } else {
                    (((f + 0.055) / 1.055).ln() * 2.4).exp()
                }
            }
            Curve::Bt709 | Curve::Bt2020 => {
                if f < 0.081 {
                    f / 4.5
                } else {
                    (((f + 0.099) / 1.099).ln() / 0.45).exp()
                }
            }
            Curve::Linear => f,
            Curve::LogC => {
                if f > 0.149658 {
                    (((f - 0.385537) / 0.247190 * std::f64::consts::LN_10).exp() - 0.052272) / 5.555556
                } else {
                    (f - 0.092809) / 5.367655
                }
            }
            Curve::Gamma(g) => {
                if f == 0.0 {
                    0.0
                } else {
                    (f.ln() * g).exp()
                }
            }
        }
    }
    /// the linear/curved joins, in the linear and in the encoded domain
    pub fn join_lin(self) -> Option<f64> {
        match self {
            Curve::Srgb => Some(0.0031308),
            Curve::Bt709 | Curve::Bt2020 => Some(0.018),
            Curve::LogC => Some(0.010591),
            _ => None,
        }
    }
    pub fn join_enc(self) -> Option<f64> {
        match self {
            Curve::Srgb => Some(0.040449936),
            Curve::Bt709 | Curve::Bt2020 => Some(0.081),
            Curve::LogC => Some(0.149658),
            _ => None,
        }
    }
    /// Value at the join on the given side
    pub fn enc_side(self, x: f64, curved: bool) -> f64 {
        match (self, curved) {
            (Curve::Srgb, false) => 12.92 * x,
            (Curve::Srgb, true) => 1.055 * (x.ln() / 2.4).exp() - 0.055,
            (Curve::Bt709, false) | (Curve::Bt2020, false) => 4.5 * x,
            (Curve::Bt709, true) | (Curve::Bt2020, true) => 1.099 * (x.ln() * 0.45).exp() - 0.099,
            (Curve::LogC, true) => 0.247190 * ((5.555556 * x + 0.052272).ln() / std::f64::consts::LN_10) + 0.385537,
            (Curve::LogC, false) => 5.367655 * x + 0.092809,
            _ => self.enc(x),
        }
    }
    pub fn dec_side(self, f: f64, curved: bool) -> f64 {
        match (self, curved) {
            (Curve::Srgb, false) => f / 12.92,
            (Curve::Srgb, true) => (((f + 0.055) / 1.055).ln() * 2.4).exp(),
            (Curve::Bt709, false) | (Curve::Bt2020, false) => f / 4.5,
            (Curve::Bt709, true) | (Curve::Bt2020, true) => (((f + 0.099) / 1.099).ln() / 0.45).exp(),
            (Curve::LogC, true) => (((f - 0.385537) / 0.247190 * std::f64::consts::LN_10).exp() - 0.052272) / 5.555556,
            (Curve::LogC, false) => (f - 0.092809) / 5.367655,
            _ => self.dec(f),
        }
    }
    /// negative input only makes sense for curves with a linear segment
    pub fn allows_negative(self) -> bool {
        !matches!(self, Curve::Gamma(_))
    }
}

// ---------------------------------------------------------------- colour spaces

pub struct Space {
    pub name: &'static str,
    pub red: (f64, f64),
    pub green: (f64, f64),
    pub blue: (f64, f64),
    pub white: (f64, f64),
    pub curve: Curve,
    /// published xyz->rgb and rgb->xyz, where the standard specifies them
    pub published: Option<([f64; 9], [f64; 9])>,
}

const D65: (f64, f64) = (0.3127, 0.3290);
const ACESW: (f64, f64) = (0.32168, 0.33767);

pub fn spaces() -> Vec<Space> {
    let s709 = ((0.64, 0.33), (0.30, 0.60), (0.15, 0.06));
    vec![
        Space {
            name: "SRGB",
            red: s709.0,
            green: s709.1,
            blue: s709.2,
            white: D65,
            curve: Curve::Srgb,
            published: Some((
                [3.2406, -1.5372, -0.4986, -0.9689, 1.8758, 0.0415, 0.0557, -0.2040, 1.0570],
                [0.4124, 0.3576, 0.1805, 0.2126, 0.7152, 0.0722, 0.0193, 0.1192, 0.9505],
            )),
        },
        Space { name: "SRGB_DRV", red: s709.0, green: s709.1, blue: s709.2, white: D65, curve: Curve::Srgb, published: None },
        Space { name: "ITUR_BT709", red: s709.0, green: s709.1, blue: s709.2, white: D65, curve: Curve::Bt709, published: None },
        Space {
            name: "ITUR_BT2020",
            red: (0.708, 0.292),
            green: (0.17, 0.797),
            blue: (0.131, 0.046),
            white: D65,
            curve: Curve::Bt2020,
            published: None,
        },
        Space {
            name: "DCI_P3",
            red: (0.680, 0.320),
            green: (0.265, 0.690),
            blue: (0.150, 0.060),
            white: (0.314, 0.351),
            curve: Curve::Gamma(2.6),
            published: None,
        },
        Space {
            name: "DCI_P3_D65",
            red: (0.680, 0.320),
            green: (0.265, 0.690),
            blue: (0.150, 0.060),
            white: D65,
            curve: Curve::Gamma(2.6),
            published: None,
        },
        Space {
            name: "ACES",
            red: (0.7347, 0.2653),
            green: (0.0, 1.0),
            blue: (0.0001, -0.077),
            white: ACESW,
            curve: Curve::Linear,
            published: Some((
                [
                    1.0498110175, 0.0, -0.0000974845, -0.4959030231, 1.3733130458, 0.0982400361, 0.0, 0.0, 0.9912520182,
                ],
                [0.9525523959, 0.0, 0.0000936786, 0.3439664498, 0.7281660966, -0.0721325464, 0.0, 0.0, 1.0088251844],
            )),
        },
        Space {
            name: "ACES_CG",
            red: (0.713, 0.293),
            green: (0.165, 0.830),
            blue: (0.128, 0.044),
            white: ACESW,
            curve: Curve::Linear,
            published: None,
        },
        Space {
            name: "ADOBE_RGB_1998",
            red: (0.64, 0.33),
            green: (0.21, 0.71),
            blue: (0.15, 0.06),
            white: D65,
            curve: Curve::Gamma(2.19921875),
            published: Some((
                [2.04159, -0.56501, -0.34473, -0.96924, 1.87597, 0.04156, 0.01344, -0.11836, 1.01517],
                [0.57667, 0.18556, 0.18823, 0.29734, 0.62736, 0.07529, 0.02703, 0.07069, 0.99134],
            )),
        },
        Space {
            name: "ALEXA_WIDE_GAMUT",
            red: (0.6840, 0.3130),
            green: (0.2210, 0.8480),
            blue: (0.0861, -0.102),
            white: D65,
            curve: Curve::LogC,
            published: Some((
                [1.789066, -0.482534, -0.200076, -0.639849, 1.396400, 0.194432, -0.041532, 0.082335, 0.878868],
                [0.638008, 0.214704, 0.097744, 0.291954, 0.823841, -0.115795, 0.002798, -0.067034, 1.153294],
            )),
        },
    ]
}

/// rgb->xyz from primaries and white: columns are the primaries' XYZ scaled so
/// that (1,1,1) is the white with Y=1.
pub fn derive_rgb_to_xyz(red: (f64, f64), green: (f64, f64), blue: (f64, f64), white: (f64, f64)) -> Option<M3> {
    let p = [red, green, blue];
    let mut m = [[0.0; 3]; 3];
    for (j, c) in p.iter().enumerate() {
        m[0][j] = c.0;
        m[1][j] = c.1;
        m[2][j] = 1.0 - c.0 - c.1;
    }
    let w = [white.0 / white.1, 1.0, (1.0 - white.0 - white.1) / white.1];
    let s = mv(&inv(&m)?, w);
    for i in 0..3 {
        for j in 0..3 {
            m[i][j] *= s[j];
        }
    }
    Some(m)
}

impl Space {
    pub fn rgb_to_xyz(&self) -> M3 {
        match &self.published {
            Some((_, b)) => mat(b),
            None => derive_rgb_to_xyz(self.red, self.green, self.blue, self.white).unwrap(),
        }
    }
    pub fn xyz_to_rgb(&self) -> M3 {
        match &self.published {
            Some((a, _)) => mat(a),
            None => inv(&self.rgb_to_xyz()).unwrap(),
        }
    }
}

// ---------------------------------------------------------------- adaptation

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cat {
    Bradford,
    VonKries,
    Cat02,
}
impl Cat {
    pub fn cone(self) -> M3 {
        match self {
            Cat::Bradford => [[0.8951, 0.2664, -0.1614], [-0.7502, 1.7135, 0.0367], [0.0389, -0.0685, 1.0296]],
            Cat::VonKries => [[0.40024, 0.7076, -0.08081], [-0.2263, 1.16532, 0.0457], [0.0, 0.0, 0.91822]],
            Cat::Cat02 => [[0.7328, 0.4296, -0.1624], [-0.7036, 1.6975, 0.0061], [0.0030, 0.0136, 0.9834]],
        }
    }
    pub fn matrix(self, src: V3, dst: V3) -> M3 {
        let a = self.cone();
        let s = mv(&a, src);
        let d = mv(&a, dst);
        let diag = [[d[0] / s[0], 0.0, 0.0], [0.0, d[1] / s[1], 0.0], [0.0, 0.0, d[2] / s[2]]];
        mm(&inv(&a).unwrap(), &mm(&diag, &a))
    }
}
pub fn xyy_to_xyz(x: f64, y: f64, yy: f64) -> V3 {
    [100.0 * yy * x / y, 100.0 * yy, 100.0 * yy * (1.0 - x - y) / y]
}

// ---------------------------------------------------------------- Lab

pub fn lab_f(t: f64) -> f64 {
    let d: f64 = 6.0 / 29.0;
    if t > d * d * d {
        t.cbrt()
    } else {
        t / (3.0 * d * d) + 4.0 / 29.0
    }
}
pub fn lab_finv(t: f64) -> f64 {
    let d: f64 = 6.0 / 29.0;
    if t > d {
        t * t * t
    } else {
        3.0 * d * d * (t - 4.0 / 29.0)
    }
}
pub fn xyz_to_lab(c: V3, w: V3) -> V3 {
    let f: Vec<f64> = (0..3).map(|i| lab_f(c[i] / w[i])).collect();
    [116.0 * f[1] - 16.0, 500.0 * (f[0] - f[1]), 200.0 * (f[1] - f[2])]
}
pub fn lab_to_xyz(l: V3, w: V3) -> V3 {
    let fy = (l[0] + 16.0) / 116.0;
    let fx = fy + l[1] / 500.0;
    let fz = fy - l[2] / 200.0;
    [w[0] * lab_finv(fx), w[1] * lab_finv(fy), w[2] * lab_finv(fz)]
}

/// CIEDE2000, written with hue vectors. Returns the candidate values: two when
/// the hues are opposite to within rounding (the published formula is
/// discontinuous there), otherwise one.
pub fn de2000(p: V3, q: V3, eps_deg: f64) -> Vec<f64> {
    let c1 = (p[1] * p[1] + p[2] * p[2]).sqrt();
    let c2 = (q[1] * q[1] + q[2] * q[2]).sqrt();
    let cb7 = ((c1 + c2) * 0.5).powf(7.0);
    let p25 = 6103515625.0;
    let g = 0.5 - 0.5 * (cb7 / (cb7 + p25)).sqrt();
    let a1 = p[1] + p[1] * g;
    let a2 = q[1] + q[1] * g;
    let cp1 = (a1 * a1 + p[2] * p[2]).sqrt();
    let cp2 = (a2 * a2 + q[2] * q[2]).sqrt();
    let hue = |a: f64, b: f64| -> f64 {
        if a == 0.0 && b == 0.0 {
            return 0.0;
        }
        let h = b.atan2(a) * (180.0 / std::f64::consts::PI);
        if h < 0.0 {
            h + 360.0
        } else {
            h
        }
    };
    let h1 = hue(a1, p[2]);
    let h2 = hue(a2, q[2]);
    let dl = q[0] - p[0];
    let dc = cp2 - cp1;
    let zero = cp1 * cp2 == 0.0;
    let raw = h2 - h1;
    let mut alts: Vec<(f64, f64)> = Vec::new(); // (delta h, mean h)
    if zero {
        alts.push((0.0, h1 + h2));
    } else {
        let direct = (raw, (h1 + h2) / 2.0);
        let wd = if raw > 0.0 { raw - 360.0 } else { raw + 360.0 };
        let sum = h1 + h2;
        let mut wrapped = vec![(wd, if sum < 360.0 { (sum + 360.0) / 2.0 } else { (sum - 360.0) / 2.0 })];
        // a mean hue of 0 and of 360 is the same direction, but not to the
        // rotation term: the published formula jumps by about 1e-5 there
        if (sum - 360.0).abs() <= eps_deg {
            wrapped.push((wd, if sum < 360.0 { (sum - 360.0) / 2.0 } else { (sum + 360.0) / 2.0 }));
        }
        let a = raw.abs();
        if a <= 180.0 || (a - 180.0).abs() <= eps_deg {
            alts.push(direct);
        }
        if a > 180.0 || (a - 180.0).abs() <= eps_deg {
            alts.extend(wrapped);
        }
    }
    let r = std::f64::consts::PI / 180.0;
    alts.iter()
        .map(|&(dh, hm)| {
            let dhh = 2.0 * (cp1 * cp2).sqrt() * (dh * 0.5 * r).sin();
            let lm = 0.5 * (p[0] + q[0]) - 50.0;
            let cm = 0.5 * (cp1 + cp2);
            let t = 1.0 - 0.17 * ((hm - 30.0) * r).cos() + 0.24 * (2.0 * hm * r).cos() + 0.32 * ((3.0 * hm + 6.0) * r).cos()
                - 0.20 * ((4.0 * hm - 63.0) * r).cos();
            let th = 30.0 * (-((hm - 275.0) / 25.0).powi(2)).exp();
            let cm7 = cm.powf(7.0);
            let rc = 2.0 * (cm7 / (cm7 + p25)).sqrt();
            let sl = 1.0 + 0.015 * lm * lm / (20.0 + lm * lm).sqrt();
            let sc = 1.0 + 0.045 * cm;
            let sh = 1.0 + 0.015 * cm * t;
            let rt = -(2.0 * th * r).sin() * rc;
            let (u, v, w) = (dl / sl, dc / sc, dhh / sh);
            (u * u + v * v + w * w + rt * v * w).max(0.0).sqrt()
        })
        .collect()
}

pub const SHARMA: &[[f64; 7]] = &[
    [50.0, 2.6772, -79.7751, 50.0, 0.0, -82.7485, 2.0425],
    [50.0, 3.1571, -77.2803, 50.0, 0.0, -82.7485, 2.8615],
    [50.0, 2.8361, -74.0200, 50.0, 0.0, -82.7485, 3.4412],
    [50.0, -1.3802, -84.2814, 50.0, 0.0, -82.7485, 1.0000],
    [50.0, -1.1848, -84.8006, 50.0, 0.0, -82.7485, 1.0000],
    [50.0, -0.9009, -85.5211, 50.0, 0.0, -82.7485, 1.0000],
    [50.0, 0.0, 0.0, 50.0, -1.0, 2.0, 2.3669],
    [50.0, -1.0, 2.0, 50.0, 0.0, 0.0, 2.3669],
    [50.0, 2.4900, -0.0010, 50.0, -2.4900, 0.0009, 7.1792],
    [50.0, 2.4900, -0.0010, 50.0, -2.4900, 0.0010, 7.1792],
    [50.0, 2.4900, -0.0010, 50.0, -2.4900, 0.0011, 7.2195],
    [50.0, 2.4900, -0.0010, 50.0, -2.4900, 0.0012, 7.2195],
    [50.0, -0.0010, 2.4900, 50.0, 0.0009, -2.4900, 4.8045],
    [50.0, -0.0010, 2.4900, 50.0, 0.0010, -2.4900, 4.8045],
    [50.0, -0.0010, 2.4900, 50.0, 0.0011, -2.4900, 4.7461],
    [50.0, 2.5000, 0.0, 50.0, 0.0, -2.5000, 4.3065],
    [50.0, 2.5000, 0.0, 73.0, 25.0, -18.0, 27.1492],
    [50.0, 2.5000, 0.0, 61.0, -5.0, 29.0, 22.8977],
    [50.0, 2.5000, 0.0, 56.0, -27.0, -3.0, 31.9030],
    [50.0, 2.5000, 0.0, 58.0, 24.0, 15.0, 19.4535],
    [50.0, 2.5000, 0.0, 50.0, 3.1736, 0.5854, 1.0000],
    [50.0, 2.5000, 0.0, 50.0, 3.2972, 0.0, 1.0000],
    [50.0, 2.5000, 0.0, 50.0, 1.8634, 0.5757, 1.0000],
    [50.0, 2.5000, 0.0, 50.0, 3.2592, 0.3350, 1.0000],
    [60.2574, -34.0099, 36.2677, 60.4626, -34.1751, 39.4387, 1.2644],
    [63.0109, -31.0961, -5.8663, 62.8187, -29.7946, -4.0864, 1.2630],
    [61.2901, 3.7196, -5.3901, 61.4292, 2.2480, -4.9620, 1.8731],
    [35.0831, -44.1164, 3.7933, 35.0232, -40.0716, 1.5901, 1.8645],
    [22.7233, 20.0904, -46.6940, 23.0331, 14.9730, -42.5619, 2.0373],
    [36.4612, 47.8580, 18.3852, 36.2715, 50.5065, 21.2231, 1.4146],
    [90.8027, -2.0831, 1.4410, 91.1528, -1.6435, 0.0447, 1.4441],
    [90.9257, -0.5406, -0.9208, 88.6381, -0.8985, -0.7239, 1.5381],
    [6.7747, -0.2908, -2.4247, 5.8714, -0.0985, -2.2286, 0.6377],
    [2.0776, 0.0795, -1.1350, 0.9033, -0.0636, -0.5514, 0.9082],
];

// ---------------------------------------------------------------- spectra

/// Sprague interpolation (CIE 167): samples y at x0 + i*h, n >= 2.
pub struct Sprague {
    pub xs: Vec<f64>,
    pub y: Vec<f64>, // padded by two on both sides
}
impl Sprague {
    pub fn new(xs: &[f64], ys: &[f64]) -> Sprague {
        let n = ys.len();
        let mut y = vec![0.0; n + 4];
        y[2..n + 2].copy_from_slice(ys);
        if n >= 6 {
            const B: [[f64; 6]; 2] = [[884.0, -1960.0, 3033.0, -2648.0, 1080.0, -180.0], [508.0, -540.0, 488.0, -367.0, 144.0, -24.0]];
            for k in 0..2 {
                y[k] = (0..6).map(|i| B[k][i] * ys[i]).sum::<f64>() / 209.0;
                // mirror image
                y[n + 3 - k] = (0..6).map(|i| B[k][i] * ys[n - 1 - i]).sum::<f64>() / 209.0;
            }
        } else {
            y[1] = 2.0 * ys[0] - ys[1];
            y[0] = 3.0 * ys[0] - 2.0 * ys[1];
            y[n + 2] = 2.0 * ys[n - 1] - ys[n - 2];
            y[n + 3] = 3.0 * ys[n - 1] - 2.0 * ys[n - 2];
        }
        Sprague { xs: xs.to_vec(), y }
    }
    /// Horner form of the quintic on segment k at t in [0,1], by the standard
    /// forward-difference coefficients.
    pub fn seg(&self, k: usize, t: f64) -> f64 {
        let r = &self.y[k..k + 6]; // r[2] is sample k
        let a0 = r[2];
        let a1 = (2.0 * r[0] - 16.0 * r[1] + 16.0 * r[3] - 2.0 * r[4]) / 24.0;
        let a2 = (-r[0] + 16.0 * r[1] - 30.0 * r[2] + 16.0 * r[3] - r[4]) / 24.0;
        let a3 = (-9.0 * r[0] + 39.0 * r[1] - 70.0 * r[2] + 66.0 * r[3] - 33.0 * r[4] + 7.0 * r[5]) / 24.0;
        let a4 = (13.0 * r[0] - 64.0 * r[1] + 126.0 * r[2] - 124.0 * r[3] + 61.0 * r[4] - 12.0 * r[5]) / 24.0;
        let a5 = (-5.0 * r[0] + 25.0 * r[1] - 50.0 * r[2] + 50.0 * r[3] - 25.0 * r[4] + 5.0 * r[5]) / 24.0;
        ((((a5 * t + a4) * t + a3) * t + a2) * t + a1) * t + a0
    }
    /// inside [first, last]
    pub fn eval(&self, x: f64) -> f64 {
        let n = self.xs.len();
        let mut k = self.xs.partition_point(|&v| v <= x);
        k = k.saturating_sub(1).min(n - 2);
        let t = (x - self.xs[k]) / (self.xs[k + 1] - self.xs[k]);
        self.seg(k, t)
    }
    /// with constant continuation
    pub fn eval_ext(&self, x: f64) -> f64 {
        let n = self.xs.len();
        if x <= self.xs[0] {
            self.y[2]
        } else if x >= self.xs[n - 1] {
            self.y[n + 1]
        } else {
            self.eval(x)
        }
    }
}

pub fn grid(start: f64, end: f64, step: f64) -> Vec<f64> {
    let n = ((end - start) / step + 1e-9) as usize + 1;
    (0..n).map(|i| start + i as f64 * step).collect()
}

/// Lagrange continuation of a 10 nm spectrum on the E308 grid to 1 nm: quadratic
/// in the first and last interval of 360..780, cubic elsewhere.
pub fn lagrange10(first_nm: f64, v: &[f64]) -> Vec<f64> {
    // 43 samples at 360, 370, ... 780, ends continued
    let off = (first_nm - 360.0) / 10.0;
    let get = |i: i64| -> f64 {
        let j = i - off.round() as i64;
        v[j.clamp(0, v.len() as i64 - 1) as usize]
    };
    let s: Vec<f64> = (0..43).map(|i| get(i)).collect();
    let lag = |idx: &[usize], t: f64| -> f64 {
        // t in units of 10nm from 360
        let mut acc = 0.0;
        for &j in idx {
            let mut w = 1.0;
            for &m in idx {
                if m != j {
                    w *= (t - m as f64) / (j as f64 - m as f64);
                }
            }
            acc += w * s[j];
        }
        acc
    };
    (0..=420)
        .map(|nm| {
            if nm % 10 == 0 {
                return s[nm / 10];
            }
            let t = nm as f64 / 10.0;
            let k = nm / 10;
            if k == 0 {
                lag(&[0, 1, 2], t)
            } else if k == 41 {
                lag(&[40, 41, 42], t)
            } else {
                lag(&[k - 1, k, k + 1, k + 2], t)
            }
        })
        .collect()
}
