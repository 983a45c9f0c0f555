//! Built-in reference data.
use crate::common::*;
use crate::ctx::*;
use crate::rng::Rng;
use crate::tables;
use colorspace::chromaticity::XYY;
use colorspace::cmf::CIE_1931_2_DEGREE as CMF1931;
use colorspace::color_space_rgb::model_f64;
use colorspace::colorchecker as cc;
use colorspace::illuminant::{spd, xy};
use colorspace::spd::{SPD, W_X, W_Y, W_Z};
use colorspace::transform::*;
use colorspace::vspd::{SpdShape, VSPD};
use std::collections::BTreeMap;
use std::sync::{Arc, Barrier};

pub const STEPS: usize = 30;

type Map = BTreeMap<String, Vec<f64>>;

fn same(a: f64, b: f64) -> bool {
    a == b || (a - b).abs() <= 1e-15 * b.abs()
}

/// differences between tables as seen and as published
fn diff(seen: &Map, want: &Map, limit: usize) -> Vec<(String, String)> {
    let mut out = Vec::new();
    for (k, w) in want {
        if out.len() >= limit {
            break;
        }
        match seen.get(k) {
            None => out.push(("missing".to_string(), format!("table entry {} is missing", k))),
            Some(v) => {
                if v.len() != w.len() {
                    out.push(("size".to_string(), format!("{} has {} numbers, expected {}", k, v.len(), w.len())));
                } else if let Some(i) = (0..w.len()).find(|i| !same(v[*i], w[*i])) {
                    out.push(("value".to_string(), format!("{} number {} is {:?}, published {:?}", k, i, v[i], w[i])));
                }
            }
        }
    }
    for k in seen.keys() {
        if !want.contains_key(k) && out.len() < limit {
            out.push(("extra".to_string(), format!("unknown table entry {}", k)));
        }
    }
    out
}

/// One fresh process: several threads race to be the first to touch each table.
pub fn child(seed: u64, out: &str) {
    let n = 2 + (seed % 11) as usize;
    let bar = Arc::new(Barrier::new(n));
    let want = Arc::new(tables::golden());
    let hs: Vec<_> = (0..n)
        .map(|t| {
            let (bar, want) = (bar.clone(), want.clone());
            std::thread::spawn(move || {
                let mut r = Rng::new(seed * 131 + t as u64);
                let mut order: Vec<usize> = (0..tables::groups()).collect();
                // all in step for some seeds (contention on the same table),
                // each its own way for the others
                if seed % 3 != 0 {
                    r.shuffle(&mut order);
                }
                bar.wait();
                let mut v = Vec::new();
                for i in order {
                    tables::group(i, &mut v);
                }
                diff(&v.into_iter().collect(), &want, 5)
            })
        })
        .collect();
    let mut s = format!("threads {}\n", n);
    for h in hs {
        match h.join() {
            Ok(d) => {
                for (a, b) in d {
                    s.push_str(&format!("{}\t{}\n", a, b));
                }
            }
            Err(_) => s.push_str("panic\ta thread died while reading the tables\n"),
        }
    }
    std::fs::write(out, s).unwrap();
}

fn close3(ctx: &mut Ctx, sig: &str, got: [f64; 3], want: [f64; 3], tol: f64, f: &dyn Fn() -> String) {
    for i in 0..3 {
        ctx.close(sig, got[i], want[i], tol, || format!("{} component {}", f(), i));
    }
}

fn rough(v: &[f64]) -> f64 {
    // largest third difference relative to the largest value
    let m = v.iter().fold(0.0f64, |a, x| a.max(x.abs()));
    v.windows(4).map(|w| (w[3] - 3.0 * w[2] + 3.0 * w[1] - w[0]).abs()).fold(0.0, f64::max) / m
}

pub fn fixed(ctx: &mut Ctx) {
    let want = tables::golden();
    let got = match ctx.call("tables", || "reading every table".into(), tables::all) {
        Some(g) => g,
        None => return,
    };
    for (k, v) in &got {
        ctx.observe(k.split('/').next().unwrap(), hash_str(k) ^ hash_f64s(v), true);
        ctx.checks += v.len() as u64;
    }
    ctx.notes.insert("table entries compared".into(), got.len().to_string());
    ctx.notes.insert("numbers compared".into(), got.values().map(|v| v.len()).sum::<usize>().to_string());
    for (a, b) in diff(&got, &want, 40) {
        ctx.violate(&format!("table:{}", a), b);
    }

    // landmarks known independently of the snapshot
    for (t, nm, v) in [
        (&CMF1931.x_bar, 360.0, 0.0001299),
        (&CMF1931.x_bar, 600.0, 1.0622),
        (&CMF1931.x_bar, 440.0, 0.34828),
        (&CMF1931.y_bar, 555.0, 1.0),
        (&CMF1931.y_bar, 500.0, 0.323),
        (&CMF1931.z_bar, 440.0, 1.74706),
        (&CMF1931.z_bar, 450.0, 1.77211),
        (&*spd::D65, 460.0, 117.812),
        (&*spd::D65, 560.0, 100.0),
        (&*spd::D65, 300.0, 0.0341),
        (&*spd::D65, 780.0, 63.3828),
        (&*spd::D50, 560.0, 100.0),
        (&*spd::D55, 560.0, 100.0),
        (&*spd::D60, 560.0, 100.0),
    ] {
        let s = t.samples().iter().find(|s| s.nm == nm).map(|s| s.v);
        ctx.check("landmark", matches!(s, Some(x) if (x - v).abs() < 6e-4 * v.max(0.1)), || format!("value at {} nm is {:?}, published {}", nm, s, v));
    }
    for (n, b) in [("x_bar", &CMF1931.x_bar), ("y_bar", &CMF1931.y_bar), ("z_bar", &CMF1931.z_bar)] {
        ctx.check("cmf-grid", b.start() == 360.0 && b.end() == 830.0 && b.len() == 471, || format!("{}: {} to {}, {} samples", n, b.start(), b.end(), b.len()));
        let v: Vec<f64> = b.values().collect();
        ctx.check("cmf-smooth", rough(&v) < 2e-2, || format!("{} has a bump: third difference {}", n, rough(&v)));
    }
    // illuminants integrate to their white points
    let one = VSPD::constant(SpdShape::new(360.0, 780.0, 1.0), 1.0);
    for (n, s, w) in [("D50", &*spd::D50, xy::D50), ("D55", &*spd::D55, xy::D55), ("D60", &*spd::D60, xy::D60), ("D65", &*spd::D65, xy::D65)] {
        ctx.observe("illuminant to white point", hash_str(n), true);
        if let Some(x) = ctx.call("white-point", || n.to_string(), || one.to_xyz(s, &CMF1931)) {
            let c = XYY::from_xyz(x);
            ctx.close("white-point", c.x, w.x, 1e-4, || format!("{} x from its spectrum", n));
            ctx.close("white-point", c.y, w.y, 2e-4, || format!("{} y from its spectrum", n));
            ctx.measure("illuminant spectra against white points", (c.x - w.x).abs().max((c.y - w.y).abs()));
        }
    }
    // the colour checker
    ctx.check("names", cc::NAMES.len() == 24 && cc::NAMES.iter().collect::<std::collections::HashSet<_>>().len() == 24, || format!("NAMES has {} entries", cc::NAMES.len()));
    ctx.check("dark_skin", cc::SPECTRAL.get("dark_skin").map_or(false, |s| *s == *cc::DARK_SKIN), || "DARK_SKIN differs from SPECTRAL[dark_skin]".into());
    for name in cc::NAMES.iter() {
        let (x, s, b) = match (cc::XYZ_D65.get(*name), cc::SPECTRAL.get(*name), colorspace::spd::BABELCOLOR.get(*name)) {
            (Some(x), Some(s), Some(b)) => (*x, s, b),
            _ => {
                ctx.violate("names", format!("{} is missing from XYZ_D65, SPECTRAL or BABELCOLOR", name));
                continue;
            }
        };
        ctx.observe("checker spectrum to XYZ", hash_str(name), true);
        if let Some(y) = ctx.call("spectral", || name.to_string(), || s.to_xyz(&spd::D65, &CMF1931)) {
            close3(ctx, "spectral", [y.x, y.y, y.z], [x.x, x.y, x.z], 1e-11, &|| format!("{}: spectrum integrates to XYZ_D65", name));
        }
        if let Some(y) = ctx.call("babelcolor", || name.to_string(), || b.to_xyz()) {
            close3(ctx, "babelcolor", [y.x as f64, y.y as f64, y.z as f64], [x.x, x.y, x.z], 1e-4, &|| format!("{}: fixed-shape spectrum gives XYZ_D65", name));
        }
        for i in 0..40 {
            let nm = 380.0 + 10.0 * i as f64;
            let v = s.samples().iter().find(|p| p.nm == nm).map_or(s.last().v, |p| p.v);
            ctx.close("babelcolor-samples", b.values[i] as f64, v, 1e-7, || format!("{}: BABELCOLOR against SPECTRAL at {} nm", name, nm));
        }
        for (mn, m) in models64() {
            let (l, e) = match (tables::rgb_table(&format!("{}_LINEAR", mn)), tables::rgb_table(&format!("{}_ENCODED", mn))) {
                (Some(l), Some(e)) => (l, e),
                _ => continue,
            };
            let (l, e) = match (l.get(*name), e.get(*name)) {
                (Some(l), Some(e)) => (*l, *e),
                _ => {
                    ctx.violate("names", format!("{} is missing from the {} tables", name, mn));
                    continue;
                }
            };
            ctx.observe("checker colour in a space", hash_str(name) ^ hash_str(mn), true);
            let r = ctx.call("linear", || format!("{} {}", mn, name), || (unrgb(xyz_to_rgb(&xyz_to_rgb_matrix(xy::D65, m), x)), unrgb(m.encode(l)), unrgb(m.decode(e))));
            if let Some((lin, enc, dec)) = r {
                close3(ctx, "linear", lin, unrgb(l), 1e-12, &|| format!("{} {}: XYZ_D65 converts to the LINEAR table", mn, name));
                close3(ctx, "encoded", enc, unrgb(e), 1e-12, &|| format!("{} {}: LINEAR encodes to ENCODED", mn, name));
                close3(ctx, "decoded", dec, unrgb(l), 1e-12, &|| format!("{} {}: ENCODED decodes to LINEAR", mn, name));
            }
        }
        if let (Some(a), Some(l)) = (cc::ACES_FROM_SRGB.get(*name), cc::SRGB_LINEAR.get(*name)) {
            if let Some(r) = ctx.call("aces", || name.to_string(), || rgb_to_rgb_matrix(&model_f64::SRGB, &model_f64::ACES) * *l) {
                close3(ctx, "aces", unrgb(r), unrgb(*a), 1e-12, &|| format!("{}: SRGB_LINEAR converts to ACES_FROM_SRGB", name));
            }
        }
    }
    for n in tables::RGB_TABLES {
        let t = tables::rgb_table(n).unwrap();
        ctx.check("names", t.len() == 24 && cc::NAMES.iter().all(|k| t.contains_key(*k)), || format!("{} has {} entries", n, t.len()));
    }
    // the weight tables are the response to a single sample
    for i in 0..40 {
        let mut v = vec![0.0; 40];
        v[i] = 1.0;
        let s = VSPD::from_values(SpdShape::new(380.0, 770.0, 10.0), &v);
        if let Some(x) = ctx.call("weights", || format!("sample {}", i), || s.to_xyz(&spd::D65, &CMF1931)) {
            close3(ctx, "weights", [W_X.values[i] as f64, W_Y.values[i] as f64, W_Z.values[i] as f64], [x.x, x.y, x.z], 2e-6, &|| {
                format!("D65 weights at {} nm against the integrated impulse", 380 + 10 * i)
            });
        }
    }
    let w = SPD::constant(1.0).to_xyz();
    ctx.close("weights-sum", w.y as f64, 100.0, 0.02, || "sum of the Y weights".into());
}

pub fn step(ctx: &mut Ctx) {
    let seed = ctx.rng.u64() % 1_000_000;
    let out = std::env::temp_dir().join(format!("c19-{}-{}.txt", std::process::id(), seed));
    let st = std::process::Command::new(std::env::current_exe().unwrap())
        .args(["C19-child", "--seed", &seed.to_string(), "--out", out.to_str().unwrap()])
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .status()
        .unwrap();
    let s = std::fs::read_to_string(&out).unwrap_or_default();
    let _ = std::fs::remove_file(&out);
    if !st.success() {
        ctx.violate("first-access:crash", format!("a process whose threads race to read the tables ended with {}", st));
        return;
    }
    ctx.observe("fresh process, racing first access", seed, true);
    for l in s.lines() {
        match l.split_once('\t') {
            Some((a, b)) => ctx.violate(&format!("first-access:{}", a), format!("{} (fresh process, racing threads, seed {})", b, seed)),
            None => {
                let n: u64 = l.trim_start_matches("threads ").parse().unwrap_or(0);
                ctx.note_set("distinct numbers of racing threads", n);
                ctx.checks += n * 1159;
            }
        }
    }
}
