//! Memory safety, undefined behaviour, data races. The oracles are the fences
//! around the slices, the run-time precondition checks of the standard library,
//! AddressSanitizer, ThreadSanitizer, MemorySanitizer and Miri; this is the
//! workload that drives every unsafe site through its safe callers.
use crate::common::*;
use crate::ctx::*;
use crate::guard::{crumb, defined, Fenced};
use crate::ops::ops;
use crate::rng::Rng;
use colorspace::interpolation::*;
use colorspace::math::Matrix33;
use colorspace::photometry::spd_to_nit;
use colorspace::rgb::{RGBf, RGBf32, RGBf64, RGBu16, RGBu8};
use colorspace::spd::{spd_to_xyz_scalar, SPD};
use colorspace::transform::*;
use colorspace::vspd::{Sample, SpdShape, VSPD};
use colorspace::xyz::XYZ;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Barrier};

pub const STEPS: usize = 1500;

fn miri() -> bool {
    cfg!(miri)
}

// ------------------------------------------------------------------ slice casts

fn cast_float<T: Models>(ctx: &mut Ctx, n: usize, at_end: bool) {
    let mut f = Fenced::new(n * std::mem::size_of::<T>());
    let s: &mut [T] = f.slice(n, at_end);
    for (i, x) in s.iter_mut().enumerate() {
        *x = c::<T>(i as f64 + 0.5);
    }
    let s: &[T] = s;
    crumb(&format!("RGBf<{}>::cast_slice of {} values (at {})", tname::<T>(), n, if at_end { "end" } else { "start" }));
    let r = catch_unwind(AssertUnwindSafe(|| RGBf::<T>::cast_slice(s)));
    let name = format!("cast_slice-{}", tname::<T>());
    ctx.checks += 1;
    match r {
        Err(_) => {
            let _ = last_panic();
            if n % 3 == 0 {
                ctx.violate("cast_slice:rejected", format!("{} values rejected", n));
            }
        }
        Ok(v) => {
            if n % 3 != 0 {
                ctx.violate("cast_slice:accepted", format!("RGBf<{}>::cast_slice accepted {} values ({} colours)", tname::<T>(), n, v.len()));
            }
            if v.len() * 3 > n || (!v.is_empty() && v.as_ptr() as usize != s.as_ptr() as usize) {
                ctx.violate("cast_slice:view", format!("{} values seen as {} colours at offset {}", n, v.len(), v.as_ptr() as isize - s.as_ptr() as isize));
                return;
            }
            if n % 3 == 0 {
                ctx.check("cast_slice:len", v.len() == n / 3, || format!("{} values seen as {} colours", n, v.len()));
            }
            for (i, p) in v.iter().enumerate() {
                let u = unrgb(*p);
                for k in 0..3 {
                    ctx.check("cast_slice:value", u[k] == (3 * i + k) as f64 + 0.5, || format!("colour {} of {}: {:?}", i, v.len(), u));
                }
            }
        }
    }
    ctx.observe(&name, (n as u64) << 1 | at_end as u64, n > 0);
}

fn cast_u8(ctx: &mut Ctx, n: usize, at_end: bool) {
    let mut f = Fenced::new(n);
    let s: &mut [u8] = f.slice(n, at_end);
    for (i, x) in s.iter_mut().enumerate() {
        *x = (i * 7 + 1) as u8;
    }
    let s: &[u8] = s;
    crumb(&format!("RGBu8::cast_slice of {} bytes", n));
    ctx.checks += 1;
    match catch_unwind(AssertUnwindSafe(|| RGBu8::cast_slice(s))) {
        Err(_) => {
            let _ = last_panic();
            if n % 3 == 0 {
                ctx.violate("cast_slice:rejected", format!("{} bytes rejected", n));
            }
        }
        Ok(v) => {
            if n % 3 != 0 {
                ctx.violate("cast_slice:accepted", format!("RGBu8::cast_slice accepted {} bytes ({} colours)", n, v.len()));
            }
            if v.len() * 3 > n || (!v.is_empty() && v.as_ptr() as usize != s.as_ptr() as usize) {
                ctx.violate("cast_slice:view", format!("{} bytes seen as {} colours", n, v.len()));
                return;
            }
            if n % 3 == 0 {
                ctx.check("cast_slice:len", v.len() == n / 3, || format!("{} bytes seen as {} colours", n, v.len()));
            }
            for (i, p) in v.iter().enumerate() {
                let e = |k: usize| ((3 * i + k) * 7 + 1) as u8;
                ctx.check("cast_slice:value", p.r == e(0) && p.g == e(1) && p.b == e(2), || format!("colour {} of {}: {:?}", i, v.len(), p));
            }
        }
    }
    ctx.observe("cast_slice-u8", (n as u64) << 1 | at_end as u64, n > 0);
}

/// heap slices starting anywhere, so that the sanitizers see their exact bounds
fn cast_heap(ctx: &mut Ctx, n: usize) {
    let off = ctx.rng.below(4);
    let v: Vec<f32> = (0..n + off).map(|i| i as f32).collect();
    let w: Vec<f64> = (0..n + off).map(|i| i as f64).collect();
    let u: Vec<u8> = (0..n + off).map(|i| i as u8).collect();
    crumb(&format!("cast_slice of {} heap values from offset {}", n, off));
    let r = catch_unwind(AssertUnwindSafe(|| {
        let a: f32 = RGBf32::cast_slice(&v[off..]).iter().map(|p| p.r + p.g + p.b).sum();
        let b: f64 = RGBf64::cast_slice(&w[off..]).iter().map(|p| p.r + p.g + p.b).sum();
        let c: u32 = RGBu8::cast_slice(&u[off..]).iter().map(|p| p.r as u32 + p.g as u32 + p.b as u32).sum();
        (a, b, c)
    }));
    match r {
        Ok((a, b, c)) => {
            let want: f64 = (off..n + off).map(|i| i as f64).sum();
            let wc: u32 = (off..n + off).map(|i| i as u8 as u32).sum();
            ctx.check("cast_slice:heap", (a as f64 - want).abs() <= want * 1e-4 && b == want && c == wc && n % 3 == 0, || format!("{} heap values: sums {} {} {}", n, a, b, c));
        }
        Err(_) => {
            let _ = last_panic();
            ctx.check("cast_slice:rejected", n % 3 != 0, || format!("{} heap values rejected", n));
        }
    }
    ctx.observe("cast_slice-heap", n as u64, n > 0);
}

// ------------------------------------------------------------------- planes

#[cfg(target_feature = "avx")]
fn planes<S: simdeez::Simd>(ctx: &mut Ctx, label: &str, n: [usize; 3], side: [bool; 3], heap: Option<[usize; 3]>) {
    let m = Matrix33::new([0.5f32, 0.25, 1.0, -1.0, 2.0, 0.125, 4.0, -0.5, 1.5]);
    let fill = |s: &mut [f32], k: usize| {
        for (i, x) in s.iter_mut().enumerate() {
            *x = ((i * (3 + k)) % 97) as f32 + 1.0;
        }
    };
    let ok = n[0] == n[1] && n[1] == n[2];
    let what = format!("xyz_slice_to_rgb_avx_planes::<{}> planes {:?} {}", label, n, match heap {
        Some(o) => format!("on the heap, {:?} floats into their buffers", o),
        None => format!("at fences, {}", side.map(|e| if e { "ending" } else { "starting" }).join(" ")),
    });
    crumb(&what);
    let r = if let Some(o) = heap {
        // no more than the offset and the plane, for the sanitizers
        let mk = |k: usize| {
            let mut v = vec![0.0f32; o[k] + n[k]];
            fill(&mut v[o[k]..], k);
            v
        };
        let (a, b, c) = (mk(0), mk(1), mk(2));
        catch_unwind(AssertUnwindSafe(|| xyz_slice_to_rgb_avx_planes::<S>(&m, &a[o[0]..], &b[o[1]..], &c[o[2]..])))
    } else {
        let mut f: Vec<Fenced> = n.iter().map(|n| Fenced::new(n * 4)).collect();
        for (k, f) in f.iter_mut().enumerate() {
            fill(f.slice::<f32>(n[k], side[k]), k);
            f.seal();
        }
        let (f0, rest) = f.split_at_mut(1);
        let (f1, f2) = rest.split_at_mut(1);
        let (a, b, c): (&[f32], &[f32], &[f32]) = (f0[0].slice(n[0], side[0]), f1[0].slice(n[1], side[1]), f2[0].slice(n[2], side[2]));
        catch_unwind(AssertUnwindSafe(|| xyz_slice_to_rgb_avx_planes::<S>(&m, a, b, c)))
    };
    ctx.checks += 1;
    match r {
        Err(_) => {
            let p = last_panic();
            if ok {
                ctx.violate("planes:panic", format!("{}: panic {:?}", what, p));
            }
        }
        Ok(o) => {
            if !ok {
                ctx.violate("planes:accepted", format!("{}: accepted planes of different lengths", what));
            } else {
                ctx.check("planes:len", o.0.len() == n[0] && o.1.len() == n[0] && o.2.len() == n[0], || format!("{}: lengths {} {} {}", what, o.0.len(), o.1.len(), o.2.len()));
                defined(&o.0);
                defined(&o.1);
                defined(&o.2);
                for i in 0..n[0].min(o.0.len()) {
                    let (x, y, z) = (((i * 3) % 97) as f64 + 1.0, ((i * 4) % 97) as f64 + 1.0, ((i * 5) % 97) as f64 + 1.0);
                    let w = (0.5 * x + 0.25 * y + z) / 100.0;
                    ctx.check("planes:value", (o.0[i] as f64 - w).abs() < 1e-4, || format!("{}: red {} is {}, expected {}", what, i, o.0[i], w));
                }
            }
        }
    }
    ctx.observe(&format!("planes-{}{}", label, if ok { "" } else { "-mismatched" }), n.iter().fold(0u64, |a, x| a * 100_003 + *x as u64) << 4 | (heap.is_some() as u64) << 3 | (side[0] as u64) << 2 | (side[1] as u64) << 1 | side[2] as u64, n[0] > 0);
}
/// The three planes come from one buffer and overlap
#[cfg(target_feature = "avx")]
fn overlapping<S: simdeez::Simd>(ctx: &mut Ctx, label: &str, n: usize, o: [usize; 3]) {
    let m = Matrix33::new([0.5f32, 0.25, 1.0, -1.0, 2.0, 0.125, 4.0, -0.5, 1.5]);
    let v: Vec<f32> = (0..n + o.iter().max().unwrap()).map(|i| (i % 89) as f32).collect();
    crumb(&format!("xyz_slice_to_rgb_avx_planes::<{}> {} floats at {:?} of one buffer", label, n, o));
    let (x, y, z) = (&v[o[0]..o[0] + n], &v[o[1]..o[1] + n], &v[o[2]..o[2] + n]);
    match catch_unwind(AssertUnwindSafe(|| xyz_slice_to_rgb_avx_planes::<S>(&m, x, y, z))) {
        Err(_) => ctx.violate("planes:panic", format!("{} floats at {:?} of one buffer: panic {:?}", n, o, last_panic())),
        Ok(r) => {
            ctx.check("planes:len", r.0.len() == n && r.1.len() == n && r.2.len() == n, || format!("{} floats of one buffer", n));
            for i in 0..n.min(r.2.len()) {
                let w = (4.0 * x[i] - 0.5 * y[i] + 1.5 * z[i]) / 100.0;
                ctx.check("planes:value", (r.2[i] - w).abs() < 1e-4, || format!("planes at {:?} of one buffer: blue {} is {}, expected {}", o, i, r.2[i], w));
            }
        }
    }
    ctx.observe("planes-overlapping", o.iter().fold(n as u64, |a, x| a * 100 + *x as u64), n > 0);
}
#[cfg(target_feature = "avx")]
fn all_planes(ctx: &mut Ctx, n: [usize; 3], at_end: bool, heap: bool) {
    let side = [at_end; 3];
    let flat = heap.then_some([0; 3]);
    if !miri() {
        planes::<simdeez::avx2::Avx2>(ctx, "Avx2", n, side, flat);
        planes::<simdeez::sse41::Sse41>(ctx, "Sse41", n, side, flat);
    }
    planes::<simdeez::sse2::Sse2>(ctx, "Sse2", n, side, flat);
    planes::<simdeez::scalar::Scalar>(ctx, "Scalar", n, side, flat);
    // each plane aligned in its own way
    let mixed = [ctx.rng.chance(1, 2), ctx.rng.chance(1, 2), ctx.rng.chance(1, 2)];
    let o = [ctx.rng.below(9), ctx.rng.below(9), ctx.rng.below(9)];
    let one = [0; 3].map(|_| ctx.rng.below(n[0].min(20) + 1));
    let off = heap.then_some(o);
    if !miri() {
        planes::<simdeez::avx2::Avx2>(ctx, "Avx2", n, mixed, off);
        planes::<simdeez::sse41::Sse41>(ctx, "Sse41", n, mixed, off);
        overlapping::<simdeez::avx2::Avx2>(ctx, "Avx2", n[0], one);
        overlapping::<simdeez::sse41::Sse41>(ctx, "Sse41", n[0], one);
    }
    if !miri() || n[0] % 3 == 2 {
        planes::<simdeez::sse2::Sse2>(ctx, "Sse2", n, mixed, off);
        planes::<simdeez::scalar::Scalar>(ctx, "Scalar", n, mixed, off);
        overlapping::<simdeez::sse2::Sse2>(ctx, "Sse2", n[0], one);
        overlapping::<simdeez::scalar::Scalar>(ctx, "Scalar", n[0], one);
    }
}
#[cfg(not(target_feature = "avx"))]
fn all_planes(_: &mut Ctx, _: [usize; 3], _: bool, _: bool) {}

// ---------------------------------------------------------------- bulk slices

fn bulk(ctx: &mut Ctx, nf: usize, nt: usize, at_end: bool) {
    let mut a = Fenced::new(nf * 24);
    let mut b = Fenced::new(nt * 24);
    let s = a.slice::<XYZ<f64>>(nf, at_end);
    for (i, x) in s.iter_mut().enumerate() {
        *x = XYZ::new(i as f64 % 90.0, 50.0, 7.0);
    }
    a.seal();
    crumb(&format!("xyz_slice_to_rgb of {} colours between fences", nf));
    let m = Matrix33::new([0.5f64, 0.25, 1.0, -1.0, 2.0, 0.125, 4.0, -0.5, 1.5]);
    let r = {
        let s: &[XYZ<f64>] = a.slice(nf, at_end);
        catch_unwind(AssertUnwindSafe(|| xyz_slice_to_rgb(&m, s)))
    };
    match r {
        Ok(v) => {
            ctx.check("xyz_slice_to_rgb:len", v.len() == nf, || format!("{} colours gave {}", nf, v.len()));
            defined(&v);
        }
        Err(_) => ctx.violate("xyz_slice_to_rgb:panic", format!("{} colours: {:?}", nf, last_panic())),
    }
    a.unseal();
    let ms = models64();
    let (p, q) = (ms[ctx.rng.below(ms.len())], ms[ctx.rng.below(ms.len())]);
    for (i, x) in a.slice::<RGBf64>(nf, at_end).iter_mut().enumerate() {
        *x = RGBf64::new(0.1, 0.5, (i % 50) as f64 / 50.0);
    }
    a.seal();
    for which in 0..3 {
        let what = format!("rgb_to_rgb {} -> {} of {} colours into {} (output type {})", p.0, q.0, nf, nt, which);
        crumb(&what);
        let from: &[RGBf64] = a.slice(nf, at_end);
        let r = match which {
            0 => {
                let to = b.slice::<RGBf64>(nt, at_end);
                to.fill(RGBf64::new(0.0, 0.0, 0.0));
                let r = catch_unwind(AssertUnwindSafe(|| rgb_to_rgb(p.1, q.1, from, to)));
                defined(to);
                r
            }
            1 => {
                let to = b.slice::<RGBu8>(nt, at_end);
                to.fill(RGBu8::default());
                catch_unwind(AssertUnwindSafe(|| rgb_to_rgb(p.1, q.1, from, to)))
            }
            _ => {
                let to = b.slice::<RGBu16>(nt, at_end);
                to.fill(RGBu16::default());
                catch_unwind(AssertUnwindSafe(|| rgb_to_rgb(p.1, q.1, from, to)))
            }
        };
        match r {
            Ok(n) => {
                ctx.check("rgb_to_rgb:count", n == nf.min(nt), || format!("{}: {}", what, n));
            }
            Err(_) => ctx.violate("rgb_to_rgb:panic", format!("{}: {:?}", what, last_panic())),
        }
    }
    ctx.observe("bulk between fences", (nf as u64) << 24 | (nt as u64) << 1 | at_end as u64, nf > 0);
}

// ------------------------------------------------------------------- user code

/// Destination pixels that own memory, have no size or a large alignment;
/// conversions and transfer functions that give up part-way; iterators whose
/// size hint is wrong. Safe code may be any of these.
fn user_code(ctx: &mut Ctx, nf: usize, nt: usize, stop: usize) {
    use colorspace::color_space_rgb::{decode, encode, ColorSpaceRGB};
    use std::cell::Cell;
    thread_local!(static LEFT: Cell<usize> = const { Cell::new(0) }; static LIVE: Cell<i64> = const { Cell::new(0) }; static MADE: Cell<u64> = const { Cell::new(0) });
    struct Own(Box<[f64; 3]>);
    impl Own {
        fn make(v: [f64; 3]) -> Own {
            LIVE.with(|l| l.set(l.get() + 1));
            MADE.with(|l| l.set(l.get() + 1));
            Own(Box::new(v))
        }
    }
    impl Drop for Own {
        fn drop(&mut self) {
            LIVE.with(|l| l.set(l.get() - 1));
            assert!(self.0[0].is_finite() && self.0[2] > -1e30);
        }
    }
    fn tick() {
        LEFT.with(|l| {
            assert!(l.get() > 0, "the user's code gives up");
            l.set(l.get() - 1);
        })
    }
    impl From<RGBf64> for Own {
        fn from(c: RGBf64) -> Own {
            tick();
            Own::make([c.r, c.g, c.b])
        }
    }
    #[derive(Clone, Copy)]
    struct Nothing;
    impl From<RGBf64> for Nothing {
        fn from(_: RGBf64) -> Nothing {
            Nothing
        }
    }
    #[derive(Clone, Copy)]
    #[repr(align(64))]
    struct Wide(f64, u8);
    impl From<RGBf64> for Wide {
        fn from(c: RGBf64) -> Wide {
            Wide(c.r, 7)
        }
    }
    let what = format!("rgb_to_rgb of {} colours into {} pixels of the user's type, stopping after {}", nf, nt, stop);
    crumb(&what);
    let p = |x: f64, y: f64| xyy::<f64>(x, y, 1.0);
    let mk = |d: bool| {
        ColorSpaceRGB::<f64>::new(
            p(0.64, 0.33),
            p(0.3, 0.6),
            p(0.15, 0.06),
            p(0.3127, 0.329),
            if d { Box::new(|c: RGBf64| { tick(); c }) } else { Box::new(encode::srgb) },
            if d { Box::new(|c: RGBf64| { tick(); c }) } else { Box::new(decode::srgb) },
        )
    };
    let (plain, fussy) = (mk(false), mk(true));
    let from: Vec<RGBf64> = (0..nf).map(|i| RGBf64::new(0.25, 0.5, (i % 64) as f64 / 64.0)).collect();
    let n = nf.min(nt);
    for which in 0..4 {
        LIVE.with(|l| l.set(0));
        MADE.with(|l| l.set(0));
        LEFT.with(|l| l.set(if which == 3 { usize::MAX / 2 } else { stop }));
        let mut to: Vec<Own> = (0..nt).map(|i| Own::make([i as f64, 0.0, 0.0])).collect();
        let (a, b) = [(&plain, &plain), (&fussy, &plain), (&plain, &fussy), (&plain, &plain)][which];
        let r = catch_unwind(AssertUnwindSafe(|| rgb_to_rgb(a, b, &from, &mut to)));
        match r {
            Ok(k) => {
                ctx.check("user:count", k == n, || format!("{}: {}", what, k));
            }
            Err(_) => {
                let m = last_panic();
                ctx.check("user:panic", m.0.contains("gives up"), || format!("{}: {:?}", what, m));
            }
        }
        // every pixel is still there, once
        let live = LIVE.with(|l| l.get());
        ctx.check("user:live", live == nt as i64, || format!("{}: {} pixels are alive", what, live));
        let mut sum = 0.0;
        for t in &to {
            sum += t.0[0] + t.0[1] + t.0[2];
        }
        ctx.check("user:values", sum.is_finite(), || format!("{}: {}", what, sum));
        drop(to);
        let live = LIVE.with(|l| l.get());
        ctx.check("user:dropped", live == 0, || format!("{}: {} of {} pixels ever made were not dropped exactly once", what, live, MADE.with(|l| l.get())));
    }
    let mut none = vec![Nothing; nt];
    let k = rgb_to_rgb(&plain, &plain, &from, &mut none);
    ctx.check("user:count", k == n, || format!("{} without size: {}", what, k));
    let mut wide = vec![Wide(-1.0, 3); nt];
    let k = rgb_to_rgb(&plain, &plain, &from, &mut wide);
    let ok = wide.iter().enumerate().all(|(i, w)| if i < n { (w.0 - 0.25).abs() < 1e-6 && w.1 == 7 } else { w.0 == -1.0 && w.1 == 3 });
    ctx.check("user:wide", k == n && ok, || format!("{} of alignment 64: {}", what, k));
    ctx.observe("user's pixels and functions", (nf as u64) << 32 | (nt as u64) << 16 | stop as u64, n > 0);

    // iterators with a wrong size hint, or that give up
    struct Liar {
        left: usize,
        at: f64,
        lo: usize,
        hi: Option<usize>,
        stop: usize,
    }
    impl Iterator for Liar {
        type Item = Sample;
        fn next(&mut self) -> Option<Sample> {
            if self.left == 0 {
                return None;
            }
            assert!(self.left != self.stop, "the user's code gives up");
            self.left -= 1;
            self.at += 10.0;
            Some(Sample::new(self.at, self.left as f64))
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            (self.lo, self.hi)
        }
    }
    for (lo, hi) in [(0, Some(0)), (nf, Some(nf)), (nf + 900, None), (1, Some(1)), (nf / 2, Some(nf / 2)), (nf + 5, Some(2))] {
        for give_up in [false, true] {
            let it = || Liar { left: nf, at: 300.0, lo, hi, stop: if give_up { stop + 1 } else { usize::MAX } };
            crumb(&format!("collecting {} samples whose size hint is {:?}", nf, (lo, hi)));
            for k in 0..3 {
                let r = catch_unwind(AssertUnwindSafe(|| match k {
                    0 => it().collect::<VSPD>(),
                    1 => it().map(|s| (s.nm, s.v)).collect::<VSPD>(),
                    _ => {
                        let t: RGBf64 = it().map(|s| RGBf64::from_scalar(s.v)).sum();
                        let u: XYZ<f32> = it().map(|s| XYZ::from_scalar(s.v as f32)).sum();
                        defined(&[t.r, t.g, t.b, u.x as f64, u.y as f64, u.z as f64]);
                        VSPD::new(it().collect())
                    }
                }));
                match r {
                    Ok(v) => {
                        let s: Vec<f64> = v.samples().iter().flat_map(|s| [s.nm, s.v]).collect();
                        defined(&s);
                        let ok = s.len() == 2 * nf && (0..nf).all(|i| s[2 * i] == 310.0 + 10.0 * i as f64 && s[2 * i + 1] == (nf - 1 - i) as f64);
                        ctx.check("collect", ok, || format!("{} samples whose size hint is {:?} gave {:?}", nf, (lo, hi), s));
                    }
                    Err(_) => {
                        let m = last_panic();
                        // refusing such an iterator cleanly is safe too
                        let lie = lo > nf || hi.map_or(false, |h| h < nf || h < lo);
                        let fine = nf < 2 || lie || give_up && stop + 1 <= nf;
                        ctx.check("collect", fine, || format!("{} samples whose size hint is {:?}: {:?}", nf, (lo, hi), m));
                    }
                }
            }
            ctx.observe("iterators with a wrong size hint", (nf * 10000 + lo) as u64 * 2 + give_up as u64, nf > 1);
        }
    }
}

// ------------------------------------------------------------- fixed-shape SPD

fn spd_at_fence(ctx: &mut Ctx, at_end: bool) {
    let mut f = Fenced::new(2 * std::mem::size_of::<SPD>());
    let mut g = Fenced::new(std::mem::size_of::<SPD>());
    let n = std::mem::size_of::<SPD>() / 4;
    // an SPD is exactly its samples, so its last sample touches the fence
    for (k, b) in [&mut f, &mut g].into_iter().enumerate() {
        for (i, x) in b.slice::<f32>(n, at_end).iter_mut().enumerate() {
            *x = 0.01 * (i + k) as f32;
        }
        b.seal();
    }
    let a: &SPD = unsafe { &*(f.slice::<f32>(n, at_end).as_ptr() as *const SPD) };
    let b: &SPD = unsafe { &*(g.slice::<f32>(n, at_end).as_ptr() as *const SPD) };
    spd_calls(ctx, a, b, at_end);
}
fn spd_plain(ctx: &mut Ctx) {
    let a = Box::new(SPD::new([0.5; 40]));
    let b = Box::new(SPD::constant(0.25));
    spd_calls(ctx, &a, &b, false);
}
fn spd_calls(ctx: &mut Ctx, a: &SPD, b: &SPD, at_end: bool) {
    crumb("SPD::to_xyz on a fenced spectrum");
    let x = a.to_xyz();
    crumb("spd_to_xyz_scalar on a fenced spectrum");
    let y = spd_to_xyz_scalar(a);
    defined(&[x.x, x.y, x.z, y.x, y.y, y.z]);
    ctx.check("SPD", (x.y - y.y).abs() <= 1e-3 * (1.0 + y.y.abs()), || format!("{:?} {:?}", x, y));
    #[cfg(target_feature = "avx")]
    {
        crumb("spd_to_xyz_avx on a fenced spectrum");
        let z = colorspace::spd::spd_to_xyz_avx(a);
        defined(&[z.x, z.y, z.z]);
    }
    crumb("&SPD * &SPD on fenced spectra");
    let p = a * b;
    defined(&p.values);
    crumb("SPD == SPD, iter, clone, Display on fenced spectra");
    let same = a == b;
    let s: f32 = a.iter().sum();
    let mut q = a.clone();
    for v in q.iter_mut() {
        *v += 1.0;
    }
    let t = if miri() { 0 } else { format!("{} {:?}", a, b).len() };
    let k = SPD::constant(0.75);
    defined(&k.values);
    ctx.check("SPD:constant", k.iter().all(|v| *v == 0.75), || format!("{:?}", k));
    ctx.observe("SPD at a fence", at_end as u64 + same as u64 * 2 + (s as u64) * 8 + ((t > 0) as u64) * 4, true);
}

// --------------------------------------------------------------------- spectra

/// Spectra of any content, well formed or not: a clean panic is allowed, a
/// fault is not.
fn hostile_spectrum(ctx: &mut Ctx) -> VSPD {
    let n = *ctx.rng.pick(&[1usize, 2, 2, 3, 3, 4, 5, 6, 7, 8, 12, 20, 33, 40]);
    let kind = ctx.rng.below(8);
    let mut x = 300.0 + ctx.rng.below(200) as f64;
    let mut v: Vec<Sample> = Vec::new();
    for i in 0..n {
        let val = if ctx.rng.chance(1, 12) { *ctx.rng.pick(&[f64::NAN, f64::INFINITY, -1.0, 1e308, 0.0]) } else { ctx.rng.unit() };
        v.push(Sample::new(x, val));
        x += match kind {
            0 | 1 | 2 => 10.0,
            3 => 5.0,
            4 => 1.0 + ctx.rng.below(20) as f64,
            5 => ctx.rng.uni(-5.0, 20.0),
            6 if i == n / 2 => f64::NAN,
            6 => 10.0,
            // the irregular gap is the first or the last one
            _ if i == 0 || i + 2 == n => 13.0,
            _ => 10.0,
        };
    }
    VSPD::new(v)
}

fn spectra(ctx: &mut Ctx) {
    let h = *ctx.rng.pick(&[1.0, 2.0, 5.0, 7.0, 10.0, 13.7, 20.0]);
    let a = 300.0 + ctx.rng.below(300) as f64;
    let e = a + ctx.rng.below(400) as f64;
    crumb(&format!("VSPD::new and its operations; requested shape {} {} {}", a, e, h));
    let mut done = 0u64;
    let mut run = |f: &mut dyn FnMut()| {
        if catch_unwind(AssertUnwindSafe(f)).is_ok() {
            done = done * 2 + 1;
        } else {
            let _ = last_panic();
            done *= 2;
        }
    };
    let mut spec = None;
    run(&mut || spec = Some(hostile_spectrum(ctx)));
    if let Some(v) = spec {
        let n = v.len() as u64;
        run(&mut || drop(v.interpolate(SpdShape::new(a, e, h))));
        run(&mut || drop(v.align(SpdShape::new(a, e, h))));
        // a repeated or decreasing wavelength leaves nothing to step by
        let steps = match v.interval() {
            colorspace::vspd::Interval::Uniform(i) => i > 0.4,
            _ => true,
        };
        if steps {
            run(&mut || drop(v.extrapolate(SpdShape::new(a, e, h))));
        }
        run(&mut || drop(v.trim(SpdShape::new(a, e, h))));
        run(&mut || drop(&v * 2.0));
        if !miri() || part("integrate") {
        run(&mut || { v.to_xyz(&colorspace::illuminant::spd::D65, &colorspace::cmf::CIE_1931_2_DEGREE); });
        run(&mut || { spd_to_nit(&v, &colorspace::cmf::CIE_1931_2_DEGREE); });
        }
        run(&mut || {
            let i = InterpolatorSprague::<f64>::new(&v);
            for x in [a, e, v.start(), v.end(), (v.start() + v.end()) / 2.0] {
                defined(&[i.evaluate(x)]);
            }
        });
        run(&mut || {
            let i = InterpolatorLinear::new(&v);
            for x in [v.start(), v.end(), (v.start() + v.end()) / 2.0, a, e] {
                i.evaluate(x);
            }
        });
        run(&mut || { ExtrapolatorConstant::new(&v).evaluate(e); });
        if !miri() {
            run(&mut || drop(format!("{} {:?}", v, v)));
        }
        run(&mut || { defined(&[v.first().nm, v.last().nm]); });
        ctx.observe("hostile spectra", n << 32 | done, true);
    }
}

// --------------------------------------------------------------------- indices

fn indices(ctx: &mut Ctx, i: usize) {
    crumb(&format!("out-of-range index {}", i));
    let (mut r, mut x, mut m) = (RGBf64::new(1.0, 2.0, 3.0), XYZ::<f64>::new(1.0, 2.0, 3.0), Matrix33::new([1.0f64; 9]));
    let d = || format!("index {}", i);
    ctx.must_panic("index:rgb", d, || r[i]);
    ctx.must_panic("index:rgb mut", d, || r[i] = 1.0);
    ctx.must_panic("index:xyz", d, || x[i]);
    ctx.must_panic("index:xyz mut", d, || x[i] = 1.0);
    ctx.must_panic("index:matrix", d, || m[i][0]);
    ctx.must_panic("index:matrix mut", d, || m[i][0] = 1.0);
    ctx.must_panic("index:matrix column", d, || m[0][i]);
    ctx.observe("out-of-range index", i as u64, true);
}

// --------------------------------------------------------------------- threads

/// Threads meet at a barrier and make the first use of everything at once, in
/// different orders and with random pauses.
fn threads(ctx: &mut Ctx, nthreads: usize, per: usize) {
    crumb("concurrent use of all operations");
    let bar = Arc::new(Barrier::new(nthreads));
    let seed = ctx.rng.u64();
    let hs: Vec<_> = (0..nthreads)
        .map(|t| {
            let bar = bar.clone();
            std::thread::spawn(move || {
                let mut r = Rng::new(seed ^ (t as u64) << 32);
                let ops = ops();
                // the arguments are those of the other threads, the order is not
                let mut ar = Rng::new(seed);
                let mut calls: Vec<(usize, Vec<f64>)> = Vec::new();
                for (i, o) in ops.iter().enumerate() {
                    // too heavy for the interpreter; their tables are still raced for
                    if miri() && (o.name.contains("to_xyz") || o.name.contains("nit") || o.name.contains("cmf") || o.name.contains("u8") || o.name.contains("scalars")) && o.name != "rgb_to_xyz f64" {
                        continue;
                    }
                    for _ in 0..per {
                        calls.push((i, (o.gen)(&mut ar)));
                    }
                }
                // groups of threads share an order, so that they collide
                let mut order = Rng::new(seed.wrapping_add((t / 2) as u64));
                order.shuffle(&mut calls);
                bar.wait();
                let mut n = 0u64;
                for (i, a) in &calls {
                    if r.chance(1, 7) {
                        std::thread::yield_now();
                    }
                    for _ in 0..r.below(30) {
                        std::hint::spin_loop();
                    }
                    if catch_unwind(AssertUnwindSafe(|| (ops[*i].run)(a))).is_ok() {
                        n += 1;
                    } else {
                        let _ = last_panic();
                    }
                }
                n
            })
        })
        .collect();
    let mut total = 0;
    for h in hs {
        total += h.join().unwrap_or(0);
    }
    ctx.evaluations += total;
    *ctx.cats.entry("concurrent calls".into()).or_insert(0) += total;
    ctx.observe("concurrent round", seed, true);
}

/// Miri is slow: its run is split into parts that run side by side. Elsewhere
/// there is a single part.
fn part(name: &str) -> bool {
    match std::env::var("MONITOR_PART") {
        Ok(p) if !p.is_empty() => p == name,
        _ => true,
    }
}

fn lengths(ctx: &Ctx) -> Vec<usize> {
    if miri() {
        return (0..=10).chain([12, 15, 16, 17, 25]).collect();
    }
    let mut lens: Vec<usize> = (0..=70).collect();
    lens.extend_from_slice(&[95, 96, 97, 127, 128, 129, 170, 255, 256, 257, 341, 511, 512, 513, 1021, 1023, 1024, 1025, 1026, 2047, 2048, 2049, 3071, 4095, 4096, 4097, 5000]);
    if !ctx.build.contains("san") {
        lens.extend_from_slice(&[8191, 8192, 8193, 16383, 16385, 65537]);
    }
    lens.extend(ctx.dict.novel.iter().filter(|v| **v >= 0.0 && **v < 300_000.0).map(|v| *v as usize).flat_map(|v| [v.saturating_sub(1), v, v + 1]).take(60));
    if ctx.thorough() {
        lens.extend(70..700);
    }
    lens
}

pub fn fixed(ctx: &mut Ctx) {
    // first: nothing has been initialised yet
    if part("threads") {
        let (nt, per) = if miri() {
            (2, 1)
        } else if ctx.build.contains("san") {
            (8, 1)
        } else {
            (8, 2)
        };
        threads(ctx, nt, per);
    }
    let lens = lengths(ctx);
    if part("casts") {
        for &n in &lens {
            for at_end in [true, false] {
                if miri() && !at_end {
                    continue;
                }
                cast_float::<f32>(ctx, n, at_end);
                cast_float::<f64>(ctx, n, at_end);
                cast_u8(ctx, n, at_end);
            }
            cast_heap(ctx, n);
        }
        for i in [3usize, 4, 5, 6, 8, 9, 100, 1 << 20, usize::MAX / 3] {
            indices(ctx, i);
        }
    }
    if part("bulk") {
        for &n in lens.iter().filter(|n| **n <= 5000) {
            for m in [n, n + 1, n.saturating_sub(1), n / 2] {
                if miri() && (m != n + 1 || n > 3) {
                    continue;
                }
                bulk(ctx, n, m, true);
            }
        }
    }
    if part("bulk") {
        let ns: &[(usize, usize, usize)] = if miri() { &[(3, 4, 1), (2, 2, 9)] } else { &[(0, 0, 0), (0, 3, 0), (3, 0, 1), (1, 1, 0), (1, 1, 1), (2, 5, 1), (5, 2, 1), (8, 8, 3), (9, 9, 8), (17, 16, 15), (40, 40, 39), (40, 40, 100), (64, 70, 33), (257, 256, 200)] };
        for (a, b, c) in ns {
            user_code(ctx, *a, *b, *c);
        }
    }
    if part("planes") {
        for &n in &lens {
            for at_end in [true, false] {
                if !miri() {
                    all_planes(ctx, [n, n, n], at_end, false);
                }
            }
            all_planes(ctx, [n, n, n], false, true);
        }
        // planes of different lengths
        for n in 0..if miri() { 6 } else { 20 } {
            for d in [1usize, 7, 8, 9, 16] {
                if miri() && d != 1 && d != 9 {
                    continue;
                }
                for k in 0..3 {
                    for longer in [true, false] {
                        let mut v = [n; 3];
                        if longer {
                            v[k] = n + d;
                        } else if n >= d {
                            v[k] = n - d;
                        } else {
                            continue;
                        }
                        if !miri() {
                            all_planes(ctx, v, true, false);
                        }
                        all_planes(ctx, v, true, true);
                    }
                }
            }
        }
    }
    if part("spd") {
        if !miri() {
            spd_at_fence(ctx, true);
            spd_at_fence(ctx, false);
        }
        spd_plain(ctx);
    }
    if part("spectra") {
        for _ in 0..if miri() { 12 } else { 150 } {
            spectra(ctx);
        }
    }
    if miri() && part("integrate") {
        for _ in 0..1 {
            spectra(ctx);
        }
    }
}

pub fn step(ctx: &mut Ctx) {
    if miri() {
        return;
    }
    match ctx.rng.below(8) {
        0 => {
            let n = ctx.length(6000);
            let e = ctx.rng.chance(2, 3);
            cast_float::<f32>(ctx, n, e);
            cast_float::<f64>(ctx, n, e);
            cast_u8(ctx, n, e);
            cast_heap(ctx, n);
        }
        1 | 2 => {
            let n = ctx.length(6000);
            let e = ctx.rng.chance(2, 3);
            let heap = ctx.rng.chance(1, 3);
            all_planes(ctx, [n, n, n], e, heap);
            let k = ctx.rng.below(3);
            let mut v = [n; 3];
            v[k] = if ctx.rng.chance(1, 2) { n + 1 + ctx.rng.below(20) } else { ctx.length(6000) };
            all_planes(ctx, v, true, heap);
            let s = format!("planes {:?}, {:?}", [n; 3], v);
            ctx.sample(|| s);
        }
        3 => {
            let (a, b) = (ctx.length(3000), ctx.length(3000));
            let e = ctx.rng.chance(2, 3);
            bulk(ctx, a, b, e);
            ctx.sample(|| format!("rgb_to_rgb {} colours into {} between fences", a, b));
            let (a, b) = (ctx.rng.below(70), ctx.rng.below(70));
            let c = ctx.rng.below(a + 2);
            user_code(ctx, a, b, c);
        }
        4 => {
            let i = if ctx.rng.chance(1, 2) { 3 + ctx.rng.below(1000) } else { ((ctx.rng.u64() >> 4) as usize).max(3) };
            indices(ctx, i);
        }
        _ => {
            for _ in 0..4 {
                spectra(ctx)
            }
        }
    }
    if ctx.evaluations % 97 == 0 {
        threads(ctx, 6, 1);
    }
}
