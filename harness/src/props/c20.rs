//! Results depend on the arguments only. A log of (operation, arguments,
//! result) is recorded under many histories, threads and processes; the
//! checker compares the logs bit for bit.
use crate::ctx::*;
use crate::ops::{ops, Bits, Op};
use crate::rng::Rng;
use crate::tables;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Barrier, Mutex};

pub const STEPS: usize = 6;

#[derive(Clone)]
struct Call {
    op: usize,
    args: Vec<f64>,
}

/// Arguments that differ from the given ones in one number.
fn neighbour(r: &mut Rng, o: &Op, base: &[f64]) -> Vec<f64> {
    let mut a = base.to_vec();
    if o.free < a.len() {
        let j = o.free + r.below(a.len() - o.free);
        match r.below(6) {
            0 => a[j] *= 1.25,
            1 => a[j] += 1e-3,
            2 => a[j] *= 1.0 + 1e-9,
            3 => {
                let l = o.free + r.below(a.len() - o.free);
                a.swap(j, l);
            }
            4 => a[j] *= 1.0 + r.logu(-15.0, -5.0),
            _ => a[j] = f64::from_bits(a[j].to_bits() + 1),
        }
        a
    } else {
        (o.gen)(r)
    }
}

/// The calls of a workload: for every operation several arguments, most of
/// them one number away from another, so that any remembered state that is
/// looked up by part of the arguments is hit.
fn workload(seed: u64, per_op: usize, ops: &[Op]) -> Vec<Call> {
    let mut r = Rng::new(seed ^ 0x5eed);
    let mut v: Vec<Call> = Vec::new();
    for (i, o) in ops.iter().enumerate() {
        let mut base = (o.gen)(&mut r);
        for k in 0..per_op {
            if k % 5 == 0 {
                base = (o.gen)(&mut r);
                v.push(Call { op: i, args: base.clone() });
                continue;
            }
            let a = neighbour(&mut r, o, &base);
            v.push(Call { op: i, args: a });
        }
    }
    v
}

fn exec(ops: &[Op], c: &Call) -> Bits {
    // every call finds its arguments somewhere else, and another world around it
    thread_local!(static N: std::cell::Cell<u64> = const { std::cell::Cell::new(0) });
    let x = N.with(|n| {
        if n.get() == 0 {
            static T: AtomicUsize = AtomicUsize::new(1);
            n.set(T.fetch_add(1, Ordering::Relaxed) as u64);
        }
        n.set(n.get().wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407));
        n.get() >> 24
    });
    crate::ops::place((x >> 9) as usize);
    let go = || match catch_unwind(AssertUnwindSafe(|| crate::env::inside(x, || (ops[c.op].run)(&c.args)))) {
        Ok(v) => v,
        Err(_) => vec![0xdead_beef, hash_str(&last_panic().0)],
    };
    if x % 64 == 5 {
        crate::env::while_unwinding(go)
    } else {
        go()
    }
}
fn digest(v: &Bits) -> u64 {
    let mut h = 0x1234_5678_9abcu64;
    for x in v {
        h = (h ^ x).wrapping_mul(0x9E3779B97F4A7C15);
        h ^= h >> 31;
    }
    h ^ v.len() as u64
}

fn judge(ctx: &mut Ctx, how: &str, ops: &[Op], calls: &[Call], i: usize, got: &Bits, want: &Bits) {
    ctx.checks += 1;
    if got != want {
        let k = (0..got.len().min(want.len())).find(|k| got[*k] != want[*k]);
        let show = |b: &Bits| k.map_or(format!("{} words", b.len()), |k| format!("{:?}", f64::from_bits(b[k])));
        let a = &calls[i].args;
        ctx.violate(
            &format!("{}:{}", how, ops[calls[i].op].name),
            format!("{} of {:?}{}: {} when first called, {} {}", ops[calls[i].op].name, &a[..a.len().min(12)], if a.len() > 12 { "..." } else { "" }, show(want), show(got), how),
        );
    }
}

/// A file that cannot be written to.
fn full() -> std::process::Stdio {
    match std::fs::OpenOptions::new().write(true).open("/dev/full") {
        Ok(f) => f.into(),
        Err(_) => std::process::Stdio::null(),
    }
}

/// One fresh process: its own order, its own racing threads.
pub fn child(seed: u64, out: &str) {
    install_hook();
    let (wseed, mode) = (seed >> 20, seed & 0xfffff);
    let per_op = if mode & 0x80000 != 0 { 4 } else { 10 };
    let ops = Arc::new(ops());
    let calls = Arc::new(workload(wseed, per_op, &ops));
    let n = calls.len();
    let res: Arc<Mutex<Vec<Vec<u64>>>> = Arc::new(Mutex::new(vec![Vec::new(); n]));
    let threads = 1 + (mode % 4) as usize * 2;
    let bar = Arc::new(Barrier::new(threads));
    let hs: Vec<_> = (0..threads)
        .map(|t| {
            let (ops, calls, res, bar) = (ops.clone(), calls.clone(), res.clone(), bar.clone());
            std::thread::spawn(move || {
                let mut r = Rng::new(seed.wrapping_mul(31) + t as u64);
                let mut order: Vec<usize> = (0..n).collect();
                r.shuffle(&mut order);
                bar.wait();
                let mut mine = Vec::with_capacity(n);
                for i in order {
                    mine.push((i, digest(&exec(&ops, &calls[i]))));
                }
                let mut g = res.lock().unwrap();
                for (i, d) in mine {
                    g[i].push(d);
                }
            })
        })
        .collect();
    for h in hs {
        h.join().unwrap();
    }
    let g = res.lock().unwrap();
    let mut s = format!("threads {}\n", threads);
    for v in g.iter() {
        s.push_str(&v.iter().map(|d| format!("{:016x}", d)).collect::<Vec<_>>().join(" "));
        s.push('\n');
    }
    s.push_str(&format!("tables {:016x}\n", hash_str(&tables::dump())));
    std::fs::write(out, s).unwrap();
}

/// Many distinct calls in one process: anything that is remembered grows
/// full, wraps or is evicted. Every call is made twice in a row, and calls
/// from all along the history are repeated at its end, on every thread.
fn long_history(ctx: &mut Ctx) {
    let thorough = ctx.thorough();
    let (cap, secs) = if thorough { (3_000_000usize, 15.0) } else { (250_000, 2.0) };
    let ops = Arc::new(ops());
    let next = Arc::new(AtomicUsize::new(0));
    let kept: Arc<Mutex<Vec<(Call, u64)>>> = Arc::new(Mutex::new(Vec::new()));
    let bar = Arc::new(Barrier::new(8));
    let seed = ctx.rng.u64();
    let hs: Vec<_> = (0..8u64)
        .map(|t| {
            let (ops, next, kept, bar) = (ops.clone(), next.clone(), kept.clone(), bar.clone());
            std::thread::spawn(move || {
                let mut r = Rng::new(seed ^ t);
                let mut bad: Vec<(&'static str, Call, u64, u64)> = Vec::new();
                let mut counts: Vec<(usize, usize)> = Vec::new();
                loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= ops.len() {
                        break;
                    }
                    let (mut n, mut mine) = (0usize, Vec::new());
                    let t0 = std::time::Instant::now();
                    let mut last = (ops[i].gen)(&mut r);
                    while n < cap && (n % 32 != 0 || t0.elapsed().as_secs_f64() < secs) {
                        // anew, or close to the call before
                        let c = Call { op: i, args: if r.chance(1, 3) { neighbour(&mut r, &ops[i], &last) } else { (ops[i].gen)(&mut r) } };
                        last.clone_from(&c.args);
                        let (a, b) = (digest(&exec(&ops, &c)), digest(&exec(&ops, &c)));
                        n += 1;
                        if a != b && bad.len() < 8 {
                            bad.push(("called twice in a row late in a long history", c, a, b));
                            continue;
                        }
                        // the first ones and an even spread of the rest
                        if mine.len() < 16 {
                            mine.push((c, a));
                        } else if r.below(n) < 48 {
                            if mine.len() < 64 {
                                mine.push((c, a));
                            } else {
                                mine[16 + r.below(48)] = (c, a);
                            }
                        }
                    }
                    counts.push((i, n));
                    kept.lock().unwrap().extend(mine);
                }
                bar.wait();
                let mut k = kept.lock().unwrap().clone();
                r.shuffle(&mut k);
                for (c, d) in k.iter() {
                    let g = digest(&exec(&ops, c));
                    if g != *d && bad.len() < 16 {
                        bad.push(("repeated after a long history", c.clone(), *d, g));
                    }
                }
                (bad, counts, k.len())
            })
        })
        .collect();
    let mut total = 0;
    for h in hs {
        match h.join() {
            Ok((bad, counts, again)) => {
                for (i, n) in counts {
                    total += n;
                    ctx.evaluations += 2 * n as u64;
                    ctx.checks += n as u64;
                    ctx.measure(&format!("longest history of '{}' (calls)", ops[i].name), n as f64);
                }
                ctx.evaluations += again as u64;
                ctx.checks += again as u64;
                for (how, c, a, b) in bad {
                    let x = &c.args;
                    ctx.violate(&format!("history:{}", ops[c.op].name), format!("{} of {:?}: result digest {:x}, then {:x} when {}", ops[c.op].name, &x[..x.len().min(12)], a, b, how));
                }
            }
            Err(_) => ctx.violate("thread", "a thread died".into()),
        }
    }
    ctx.observe("long history", total as u64, total > 0);
}

pub fn fixed(ctx: &mut Ctx) {
    if !ctx.build.contains("san") && !ctx.build.starts_with("miri") {
        long_history(ctx);
    }
    if !ctx.build.contains("san") && !ctx.build.starts_with("miri") {
        ctx.measure("environment hooks in place (1 = yes)", crate::env::works() as u64 as f64);
    }
    // spectra handed to a call come back unchanged
    use colorspace::cmf::CIE_1931_2_DEGREE as C;
    use colorspace::vspd::{SpdShape, VSPD};
    let d = &*colorspace::illuminant::spd::D65;
    for h in [1.0, 5.0, 10.0, 20.0, 7.0] {
        let v = VSPD::constant(SpdShape::new(380.0, 730.0, h), 0.5);
        let (a, b, c) = (v.clone(), d.clone(), C.y_bar.clone());
        let _ = ctx.call("inputs", || format!("to_xyz at {} nm", h), || v.to_xyz(d, &C));
        let _ = v.align(SpdShape::new(300.0, 900.0, 3.0));
        let _ = v.interpolate(SpdShape::new(400.0, 600.0, 3.0));
        let _ = v.extrapolate(SpdShape::new(300.0, 900.0, 3.0));
        let _ = v.trim(SpdShape::new(400.0, 600.0, 3.0));
        ctx.observe("inputs unchanged", h.to_bits(), true);
        ctx.check("inputs", a == v && *d == b && C.y_bar == c, || format!("an input spectrum changed (interval {})", h));
    }
}

pub fn step(ctx: &mut Ctx) {
    let wseed = ctx.rng.u64() % 100_000;
    let slow = matches!(ctx.build.as_str(), "tsan" | "asan" | "asan-avx");
    let per_op = if slow { 4 } else { 10 };
    let ops = Arc::new(ops());
    let calls = Arc::new(workload(wseed, per_op, &ops));
    let n = calls.len();
    let tables0 = hash_str(&tables::dump());
    // the log everything else is compared with
    let base: Arc<Vec<Bits>> = Arc::new(calls.iter().map(|c| exec(&ops, c)).collect());
    for (i, c) in calls.iter().enumerate() {
        let _ = i;
        let args = hash_f64s(&c.args);
        ctx.observe(ops[c.op].name, args, base[i].first() != Some(&0xdead_beef));
    }
    // other orders on one thread: reversed, shuffled, each repeated, interleaved pairs
    for k in 0..6 {
        let mut order: Vec<usize> = match k {
            0 => (0..n).rev().collect(),
            1 => (0..n).flat_map(|i| [i, i, i]).collect(),
            2 => (0..n).flat_map(|i| [i, (i * 7 + 3) % n, i]).collect(),
            _ => (0..n).collect(),
        };
        if k >= 3 {
            ctx.rng.shuffle(&mut order);
        }
        let how = ["in reverse order", "when repeated", "after an unrelated call", "in another order", "in another order", "in another order"][k];
        for i in order.iter() {
            let g = exec(&ops, &calls[*i]);
            judge(ctx, how, &ops, &calls, *i, &g, &base[*i]);
        }
        ctx.note_set("distinct call orders", order.iter().fold(7u64, |h, i| (h ^ *i as u64).wrapping_mul(0x100000001b3)));
    }
    // on a new thread
    {
        let (ops2, calls2) = (ops.clone(), calls.clone());
        let g: Vec<Bits> = std::thread::spawn(move || calls2.iter().rev().map(|c| exec(&ops2, c)).collect()).join().unwrap();
        for (j, g) in g.iter().enumerate() {
            let i = n - 1 - j;
            judge(ctx, "on a new thread", &ops, &calls, i, g, &base[i]);
        }
    }
    // many threads at once: same call at the same time, own orders, one
    // argument family per thread
    for mode in 0..4usize {
        let threads = *ctx.rng.pick(&[2usize, 4, 8, 16]);
        let bar = Arc::new(Barrier::new(threads));
        let busy = Arc::new(AtomicUsize::new(0));
        let go = Arc::new(AtomicBool::new(true));
        let rs = ctx.rng.u64();
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let (ops, calls, base, bar, busy, go) = (ops.clone(), calls.clone(), base.clone(), bar.clone(), busy.clone(), go.clone());
                std::thread::spawn(move || {
                    let mut r = Rng::new(rs ^ t as u64);
                    let mut order: Vec<usize> = (0..n).collect();
                    match mode {
                        0 => {}
                        1 => r.shuffle(&mut order),
                        // threads call the same operation with neighbouring arguments
                        2 => order = (0..n).map(|i| (i / per_op * per_op) + (i + t) % per_op).collect(),
                        _ => {
                            r.shuffle(&mut order);
                            order.truncate(n / 2);
                        }
                    }
                    bar.wait();
                    let mut bad = Vec::new();
                    let (mut peak, mut trace) = (0usize, 0xcbf29ce4u64);
                    for (j, i) in order.iter().enumerate() {
                        if !go.load(Ordering::Relaxed) {
                            break;
                        }
                        let b = busy.fetch_add(1, Ordering::Relaxed) + 1;
                        peak = peak.max(b);
                        trace = (trace ^ (b as u64 + (j as u64) << 4)).wrapping_mul(0x100000001b3);
                        let g = exec(&ops, &calls[*i]);
                        busy.fetch_sub(1, Ordering::Relaxed);
                        if g != base[*i] && bad.len() < 4 {
                            bad.push((*i, g));
                        }
                        if mode == 3 && r.chance(1, 7) {
                            std::thread::yield_now();
                        }
                    }
                    (bad, peak, trace, order.len())
                })
            })
            .collect();
        let (mut peak, mut trace) = (0, 0u64);
        for h in hs {
            match h.join() {
                Ok((bad, p, t, m)) => {
                    ctx.checks += m as u64;
                    ctx.evaluations += m as u64;
                    peak = peak.max(p);
                    trace = trace.rotate_left(9) ^ t;
                    for (i, g) in bad {
                        judge(ctx, "with other threads running", &ops, &calls, i, &g, &base[i]);
                    }
                }
                Err(_) => ctx.violate("thread", "a thread died".into()),
            }
        }
        ctx.measure("calls observed in flight at once (peak)", peak as f64);
        ctx.note_set("distinct concurrent schedules observed", trace);
    }
    // fresh processes
    let procs = if slow { 2 } else { 4 };
    for _ in 0..procs {
        let mode = ctx.rng.u64() & 0x7ffff | if slow { 0x80000 } else { 0 };
        let seed = wseed << 20 | mode;
        let out = std::env::temp_dir().join(format!("c20-{}-{}.txt", std::process::id(), seed));
        let st = std::process::Command::new(std::env::current_exe().unwrap())
            .args(["C20-child", "--seed", &seed.to_string(), "--out", out.to_str().unwrap()])
            // nobody may be reading what a call prints
            .stdout(if mode & 8 != 0 { full() } else { std::process::Stdio::null() })
            .stderr(std::process::Stdio::null())
            .status()
            .unwrap();
        let s = std::fs::read_to_string(&out).unwrap_or_default();
        let _ = std::fs::remove_file(&out);
        if !st.success() {
            ctx.violate("process", format!("a fresh process running the same calls ended with {}", st));
            continue;
        }
        ctx.note_set("distinct fresh processes", seed);
        for (j, l) in s.lines().enumerate() {
            if j == 0 {
                ctx.note_set("distinct thread counts in fresh processes", hash_str(l));
                continue;
            }
            if let Some(t) = l.strip_prefix("tables ") {
                ctx.check("tables", t == format!("{:016x}", tables0), || "the built-in tables differ between processes".into());
                continue;
            }
            let i = j - 1;
            let want = format!("{:016x}", digest(&base[i]));
            for g in l.split(' ') {
                ctx.checks += 1;
                if g != want {
                    let a = &calls[i].args;
                    ctx.violate(&format!("process:{}", ops[calls[i].op].name), format!("{} of {:?} gives another result in a fresh process (process seed {})", ops[calls[i].op].name, &a[..a.len().min(12)], seed));
                }
            }
        }
    }
    for (i, n) in crate::env::reads().iter().enumerate() {
        ctx.measure(&format!("times a call asked for {}", crate::env::NAMES[i]), *n as f64);
    }
    ctx.check("tables", hash_str(&tables::dump()) == tables0, || "a call changed a built-in table".into());
    ctx.sample(|| format!("workload {}: {} calls of {} operations, in 7 orders on one thread, 4 concurrent runs, {} fresh processes", wseed, n, ops.len(), procs));
}
