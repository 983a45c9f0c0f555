//! Every built-in table of the crate, flattened to named number vectors.
use colorspace::colorchecker as cc;
use colorspace::rgb::RGBf64;
use colorspace::spd::SPD;
use colorspace::uplifting as up;
use colorspace::vspd::VSPD;
use std::collections::{BTreeMap, HashMap};

pub type Table = (String, Vec<f64>);

fn vspd(v: &VSPD) -> Vec<f64> {
    v.samples().iter().flat_map(|s| [s.nm, s.v]).collect()
}
fn spd(v: &SPD) -> Vec<f64> {
    v.values.iter().map(|x| *x as f64).collect()
}
fn rgbs(name: &str, m: &HashMap<String, RGBf64>, out: &mut Vec<Table>) {
    for (k, v) in m {
        out.push((format!("{}/{}", name, k), vec![v.r, v.g, v.b]));
    }
}

macro_rules! rgb_tables {
    ($($n:ident),* $(,)?) => {
        pub const RGB_TABLES: &[&str] = &[$(stringify!($n)),*];
        fn one_rgb(i: usize, out: &mut Vec<Table>) {
            let mut k = 0;
            $( if i == k { rgbs(stringify!($n), &cc::$n, out); } k += 1; )*
            let _ = k;
        }
        pub fn rgb_table(name: &str) -> Option<&'static HashMap<String, RGBf64>> {
            $( if name == stringify!($n) { return Some(&cc::$n); } )*
            None
        }
    };
}
rgb_tables!(
    SRGB_LINEAR, SRGB_ENCODED, ITUR_BT709_LINEAR, ITUR_BT709_ENCODED, ALEXA_WIDE_GAMUT_LINEAR, ALEXA_WIDE_GAMUT_ENCODED, ACES_CC_LINEAR,
    ACES_CC_ENCODED, ACES_CCT_LINEAR, ACES_CCT_ENCODED, ACES_CG_LINEAR, ACES_CG_ENCODED, ACES_LINEAR, ACES_ENCODED, ACES_PROXY_LINEAR,
    ACES_PROXY_ENCODED, DCI_P3_P_LINEAR, DCI_P3_P_ENCODED, DCI_P3_LINEAR, DCI_P3_ENCODED, PRO_PHOTO_RGB_LINEAR, PRO_PHOTO_RGB_ENCODED,
    BETA_RGB_LINEAR, BETA_RGB_ENCODED, RED_COLOR_LINEAR, RED_COLOR_ENCODED, RED_COLOR2_LINEAR, RED_COLOR2_ENCODED, RED_COLOR3_LINEAR,
    RED_COLOR3_ENCODED, RED_COLOR4_LINEAR, RED_COLOR4_ENCODED, DRAGON_COLOR_LINEAR, DRAGON_COLOR_ENCODED, DRAGON_COLOR2_LINEAR,
    DRAGON_COLOR2_ENCODED, SHARP_RGB_LINEAR, SHARP_RGB_ENCODED, ITUR_BT2020_LINEAR, ITUR_BT2020_ENCODED, ADOBE_RGB_1998_LINEAR,
    ADOBE_RGB_1998_ENCODED, ACES_FROM_SRGB,
);

/// Number of independently accessible groups (for first-access orders)
pub fn groups() -> usize {
    RGB_TABLES.len() + 26
}

/// The tables of group `i`.
pub fn group(i: usize, out: &mut Vec<Table>) {
    use colorspace::cmf::CIE_1931_2_DEGREE as C;
    use colorspace::illuminant::{spd as ispd, xy};
    let n = RGB_TABLES.len();
    if i < n {
        return one_rgb(i, out);
    }
    let mut v = |name: &str, t: Vec<f64>| out.push((name.to_string(), t));
    match i - n {
        0 => {
            for (k, name) in cc::NAMES.iter().enumerate() {
                v(&format!("NAMES/{:02}/{}", k, name), vec![]);
            }
        }
        1 => v("colorchecker::DARK_SKIN", vspd(&cc::DARK_SKIN)),
        2 => {
            for (k, c) in cc::XYZ_D65.iter() {
                v(&format!("XYZ_D65/{}", k), vec![c.x, c.y, c.z]);
            }
        }
        3 => {
            for (k, s) in cc::SPECTRAL.iter() {
                v(&format!("SPECTRAL/{}", k), vspd(s));
            }
        }
        4 => v("cmf::x_bar", vspd(&C.x_bar)),
        5 => v("cmf::y_bar", vspd(&C.y_bar)),
        6 => v("cmf::z_bar", vspd(&C.z_bar)),
        7 => v("illuminant::spd::D50", vspd(&ispd::D50)),
        8 => v("illuminant::spd::D55", vspd(&ispd::D55)),
        9 => v("illuminant::spd::D60", vspd(&ispd::D60)),
        10 => v("illuminant::spd::D65", vspd(&ispd::D65)),
        11 => {
            for (k, c) in [("D50", xy::D50), ("D55", xy::D55), ("D60", xy::D60), ("D65", xy::D65), ("DCI_P3", xy::DCI_P3), ("ACES", xy::ACES)] {
                v(&format!("illuminant::xy::{}", k), vec![c.x, c.y, c.Y]);
            }
        }
        12 => v("spd::W_X", spd(&colorspace::spd::W_X)),
        13 => v("spd::W_Y", spd(&colorspace::spd::W_Y)),
        14 => v("spd::W_Z", spd(&colorspace::spd::W_Z)),
        15 => {
            for (k, s) in colorspace::spd::BABELCOLOR.iter() {
                v(&format!("BABELCOLOR/{}", k), spd(s));
            }
        }
        16 => {
            let b = up::my_basis();
            v("uplifting::my_basis.0", vspd(&b.0));
            v("uplifting::my_basis.1", vspd(&b.1));
            v("uplifting::my_basis.2", vspd(&b.2));
        }
        17 => {
            v("uplifting::MY_RED", vspd(&up::MY_RED));
            v("uplifting::MY_GREEN", vspd(&up::MY_GREEN));
            v("uplifting::MY_BLUE", vspd(&up::MY_BLUE));
        }
        18 => v("uplifting::SMITS_WHITE", vspd(&up::SMITS_WHITE)),
        19 => v("uplifting::SMITS_CYAN", vspd(&up::SMITS_CYAN)),
        20 => v("uplifting::SMITS_MAGENTA", vspd(&up::SMITS_MAGENTA)),
        21 => v("uplifting::SMITS_YELLOW", vspd(&up::SMITS_YELLOW)),
        22 => v("uplifting::SMITS_RED", vspd(&up::SMITS_RED)),
        23 => v("uplifting::SMITS_GREEN", vspd(&up::SMITS_GREEN)),
        24 => v("uplifting::SMITS_BLUE", vspd(&up::SMITS_BLUE)),
        _ => v("spd::grid", vec![colorspace::spd::SPD_SAMPLES as f64, colorspace::spd::SPD_START as f64, colorspace::spd::SPD_END as f64, colorspace::spd::SPD_INTERVAL as f64]),
    }
}

pub fn all() -> BTreeMap<String, Vec<f64>> {
    let mut out = Vec::new();
    for i in 0..groups() {
        group(i, &mut out);
    }
    out.into_iter().collect()
}

/// The table values this monitor was written against.
pub fn golden() -> BTreeMap<String, Vec<f64>> {
    let mut m = BTreeMap::new();
    for l in include_str!("../golden/tables.txt").lines() {
        let mut it = l.split('\t');
        let name = it.next().unwrap().to_string();
        let v = it.map(|h| f64::from_bits(u64::from_str_radix(h, 16).unwrap())).collect();
        m.insert(name, v);
    }
    m
}

pub fn dump() -> String {
    let mut s = String::new();
    for (k, v) in all() {
        s.push_str(&k);
        for x in v {
            s.push_str(&format!("\t{:016x}", x.to_bits()));
        }
        s.push('\n');
    }
    s
}
