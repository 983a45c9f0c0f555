use monitor::ctx::{install_hook, last_panic, Ctx, Dict};
use monitor::props;
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn load_dict(path: &str) -> Dict {
    let mut d = Dict::default();
    if let Ok(s) = std::fs::read_to_string(path) {
        for l in s.lines() {
            let mut it = l.split_whitespace();
            let (k, v) = (it.next(), it.next().and_then(|v| v.parse::<f64>().ok()));
            if let (Some(k), Some(v)) = (k, v) {
                match k {
                    "n" => d.novel.push(v),
                    _ => d.all.push(v),
                }
            }
        }
    }
    d
}

fn guarded(ctx: &mut Ctx, what: &str, f: impl FnOnce(&mut Ctx)) -> bool {
    let r = catch_unwind(AssertUnwindSafe(|| f(ctx)));
    if r.is_err() {
        let (msg, loc) = last_panic();
        if loc.contains("harness/src") || loc.starts_with("src/") {
            // the monitor does not panic on any result of the expected form
            ctx.violate("unexpected-form", format!("{}: the monitor could not interpret the library's result ('{}' at {})", what, msg, loc));
            return false;
        }
        ctx.violate("panic", format!("{}: unexpected panic '{}' at {}", what, msg, loc));
        return false;
    }
    true
}

fn main() {
    let mut args = std::env::args().skip(1);
    let prop = args.next().expect("property id");
    let (mut tier, mut seed, mut build, mut out, mut dict, mut budget, mut threads, mut scale) =
        ("quick".to_string(), 1u64, "default".to_string(), String::new(), String::new(), 60.0f64, 8usize, 1.0f64);
    while let Some(a) = args.next() {
        let v = args.next().unwrap_or_default();
        match a.as_str() {
            "--tier" => tier = v,
            "--seed" => seed = v.parse().unwrap(),
            "--build" => build = v,
            "--out" => out = v,
            "--dict" => dict = v,
            "--budget" => budget = v.parse().unwrap(),
            "--threads" => threads = v.parse().unwrap(),
            "--scale" => scale = v.parse().unwrap(),
            _ => panic!("unknown argument {}", a),
        }
    }
    // C20 re-executes itself to compare fresh processes
    #[cfg(not(only_c01))]
    if prop == "C20-child" {
        monitor::props::c20::child(seed, &out);
        return;
    }
    #[cfg(not(only_c01))]
    if prop == "C19-child" {
        monitor::props::c19::child(seed, &out);
        return;
    }
    if prop == "dump-tables" {
        std::fs::write(&out, monitor::tables::dump()).unwrap();
        return;
    }
    if !out.is_empty() {
        monitor::guard::open_crumb(&format!("{}.crumb", out));
    }
    install_hook();
    if prop == "noop" {
        return;
    }
    let p = props::all().into_iter().find(|p| p.id == prop).expect("unknown property");
    let d = load_dict(&dict);
    let t0 = Instant::now();
    let limit = Duration::from_secs_f64(budget);
    let n = if p.shards { threads.max(1) } else { 1 };
    let handles: Vec<_> = (0..n)
        .map(|i| {
            let (prop, tier, build, d) = (prop.clone(), tier.clone(), build.clone(), d.clone());
            let (fixed, step, steps) = (p.fixed, p.step, p.steps);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    let mut ctx = Ctx::new(&prop, &tier, &build, seed.wrapping_mul(1000) + i as u64, d);
                    let mut t0 = t0;
                    if i == 0 {
                        guarded(&mut ctx, "fixed workload", |c| fixed(c));
                        // the fixed part does not eat into the random part
                        t0 = Instant::now();
                    }
                    let total = ((ctx.steps(steps) as f64 * scale) as usize / n).max(1);
                    let mut done = 0;
                    while done < total && !ctx.full() {
                        if done % 16 == 0 && t0.elapsed() > limit {
                            break;
                        }
                        if !guarded(&mut ctx, "step", |c| step(c)) && ctx.full() {
                            break;
                        }
                        done += 1;
                    }
                    (ctx, done, total)
                })
                .unwrap()
        })
        .collect();
    let mut parts = Vec::new();
    for h in handles {
        match h.join() {
            Ok(r) => parts.push(r),
            Err(_) => {
                eprintln!("HARNESS thread died");
                std::process::exit(3);
            }
        }
    }
    let (mut m, mut done, mut total) = {
        let (c, a, b) = parts.remove(0);
        (c, a, b)
    };
    for (c, a, b) in parts {
        m.merge(c);
        done += a;
        total += b;
    }
    let worst: Vec<(String, f64)> = m.worst.iter().map(|(k, v)| (k.clone(), v.0)).collect();
    for (k, v) in worst {
        m.notes.insert(k, format!("{:e}", v));
    }
    let sets: Vec<(String, usize)> = m.sets.iter().map(|(k, v)| (k.clone(), v.len())).collect();
    for (k, v) in sets {
        m.notes.insert(k, v.to_string());
    }
    let mut j = String::from("{");
    let _ = write!(
        j,
        "\"prop\":{},\"build\":{},\"tier\":{},\"seed\":{},\"evaluations\":{},\"checks\":{},\"distinct\":{},\"distinct_capped\":{},\"steps_done\":{},\"steps_planned\":{},\"seconds\":{:.2}",
        esc(&prop),
        esc(&build),
        esc(&tier),
        seed,
        m.evaluations,
        m.checks,
        m.distinct(),
        m.distinct_overflow,
        done,
        total,
        t0.elapsed().as_secs_f64()
    );
    let _ = write!(j, ",\"categories\":{{");
    for (i, (k, v)) in m.cats.iter().enumerate() {
        let _ = write!(j, "{}{}:{}", if i > 0 { "," } else { "" }, esc(k), v);
    }
    let _ = write!(j, "}},\"notes\":{{");
    for (i, (k, v)) in m.notes.iter().enumerate() {
        let _ = write!(j, "{}{}:{}", if i > 0 { "," } else { "" }, esc(k), esc(v));
    }
    let _ = write!(j, "}},\"samples\":[");
    for (i, s) in m.samples.iter().enumerate() {
        let _ = write!(j, "{}{}", if i > 0 { "," } else { "" }, esc(s));
    }
    let _ = write!(j, "],\"violations\":[");
    for (i, v) in m.violations.iter().enumerate() {
        let _ = write!(j, "{}{{\"sig\":{},\"detail\":{}}}", if i > 0 { "," } else { "" }, esc(&v.sig), esc(&v.detail));
    }
    j.push_str("]}\n");
    if out.is_empty() {
        eprintln!("{}", j);
    } else {
        std::fs::write(&out, j).unwrap();
    }
    if !m.violations.is_empty() {
        std::process::exit(1);
    }
}
