//! What a call can learn about the world besides its arguments.
//!
//! While a library call runs under `inside`, the C functions through which a
//! Rust program asks for environment variables, the time, and the number of
//! processors answer with made-up values that change from call to call, the
//! stack is at another depth, and sometimes the thread is unwinding. A result
//! that depends on any of it then differs between two calls.
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, Ordering};

thread_local!(static INSIDE: Cell<u64> = const { Cell::new(0) });
pub static READS: [AtomicU64; 3] = [const { AtomicU64::new(0) }; 3];
pub const NAMES: [&str; 3] = ["environment variables", "the clock", "the number of processors"];

struct Leave(u64);
impl Drop for Leave {
    fn drop(&mut self) {
        INSIDE.with(|c| c.set(self.0));
    }
}

/// Runs `f` with the world as `seed` makes it up.
pub fn inside<R>(seed: u64, f: impl FnOnce() -> R) -> R {
    let _leave = INSIDE.with(|c| Leave(c.replace(seed | 1)));
    deep((seed >> 7) as usize % 5, f)
}

#[inline(never)]
fn deep<R>(n: usize, f: impl FnOnce() -> R) -> R {
    if n == 0 {
        return f();
    }
    let mut pad = [n as u8; 328];
    std::hint::black_box(&mut pad);
    let r = if n % 2 == 0 { deep(n / 2, f) } else { deep(n - 1, f) };
    std::hint::black_box(&mut pad);
    r
}

/// Runs `f` while the thread is unwinding.
pub fn while_unwinding<R>(f: impl FnOnce() -> R) -> R {
    struct D<'a, R, F: FnOnce() -> R>(Option<F>, &'a mut Option<R>);
    impl<R, F: FnOnce() -> R> Drop for D<'_, R, F> {
        fn drop(&mut self) {
            *self.1 = Some(self.0.take().unwrap()());
        }
    }
    let mut out = None;
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let _d = D(Some(f), &mut out);
        std::panic::resume_unwind(Box::new(()));
    }));
    out.unwrap()
}

#[cfg(not(any(only_c01, miri)))]
fn draw(salt: u64) -> Option<u64> {
    let s = INSIDE.try_with(|c| {
        let s = c.get();
        if s != 0 {
            c.set(s.wrapping_mul(6364136223846793005).wrapping_add(salt * 2 + 1442695040888963407) | 1);
        }
        s
    });
    match s {
        Ok(s) if s != 0 => Some((s ^ salt).wrapping_mul(0x9E3779B97F4A7C15) >> 32),
        _ => None,
    }
}

#[cfg(not(any(only_c01, miri)))]
mod hooks {
    use super::*;
    use std::ffi::{c_char, c_int, c_long, c_void, CStr};
    use std::sync::atomic::AtomicUsize;
    extern "C" {
        static environ: *const *const c_char;
        fn dlsym(handle: *mut c_void, name: *const c_char) -> *mut c_void;
    }
    fn next(slot: &AtomicUsize, name: &CStr) -> usize {
        let mut p = slot.load(Ordering::Relaxed);
        if p == 0 {
            // SAFETY: RTLD_NEXT and a C string
            p = unsafe { dlsym(-1isize as *mut c_void, name.as_ptr()) } as usize;
            slot.store(p, Ordering::Relaxed);
        }
        p
    }

    /// # Safety
    /// As the C function.
    #[no_mangle]
    pub unsafe extern "C" fn getenv(name: *const c_char) -> *mut c_char {
        let n = CStr::from_ptr(name).to_bytes();
        if !n.starts_with(b"RUST_") {
            if let Some(x) = draw(1) {
                READS[0].fetch_add(1, Ordering::Relaxed);
                let v: [Option<&CStr>; 5] = [None, Some(c""), Some(c"0"), Some(c"1"), Some(c"true")];
                return v[x as usize % 5].map_or(std::ptr::null_mut(), |s| s.as_ptr() as *mut c_char);
            }
        }
        let mut e = environ;
        while !e.is_null() && !(*e).is_null() {
            let s = CStr::from_ptr(*e).to_bytes();
            if s.len() > n.len() && s.starts_with(n) && s[n.len()] == b'=' {
                return (*e).add(n.len() + 1) as *mut c_char;
            }
            e = e.add(1);
        }
        std::ptr::null_mut()
    }

    /// # Safety
    /// As the C function.
    #[no_mangle]
    pub unsafe extern "C" fn clock_gettime(id: c_int, t: *mut [i64; 2]) -> c_int {
        static NEXT: AtomicUsize = AtomicUsize::new(0);
        let f: extern "C" fn(c_int, *mut [i64; 2]) -> c_int = std::mem::transmute(next(&NEXT, c"clock_gettime"));
        let r = f(id, t);
        if r == 0 {
            if let Some(x) = draw(2) {
                READS[1].fetch_add(1, Ordering::Relaxed);
                // never back behind the real time
                (*t)[0] += [0, 1, 3600, 86_400 * 200, 86_400 * 5000][x as usize % 5];
                (*t)[1] = (x % 1_000_000_000) as i64;
            }
        }
        r
    }

    /// # Safety
    /// As the C function.
    #[no_mangle]
    pub unsafe extern "C" fn sched_getaffinity(pid: c_int, len: usize, mask: *mut u8) -> c_int {
        static NEXT: AtomicUsize = AtomicUsize::new(0);
        let f: extern "C" fn(c_int, usize, *mut u8) -> c_int = std::mem::transmute(next(&NEXT, c"sched_getaffinity"));
        let r = f(pid, len, mask);
        if r == 0 && len >= 16 {
            if let Some(x) = draw(3) {
                READS[2].fetch_add(1, Ordering::Relaxed);
                let n = 1 + x as usize % 17;
                for i in 0..len {
                    *mask.add(i) = 0;
                }
                for i in 0..n {
                    *mask.add(i / 8) |= 1 << (i % 8);
                }
            }
        }
        r
    }

    /// # Safety
    /// As the C function.
    #[no_mangle]
    pub unsafe extern "C" fn sysconf(name: c_int) -> c_long {
        static NEXT: AtomicUsize = AtomicUsize::new(0);
        let f: extern "C" fn(c_int) -> c_long = std::mem::transmute(next(&NEXT, c"sysconf"));
        if name == 83 || name == 84 {
            if let Some(x) = draw(4) {
                READS[2].fetch_add(1, Ordering::Relaxed);
                return 1 + x as c_long % 17;
            }
        }
        f(name)
    }
}

/// How often library calls asked for each of `NAMES`.
pub fn reads() -> [u64; 3] {
    [0, 1, 2].map(|i| READS[i].load(Ordering::Relaxed))
}

/// That the hooks are in the way of the standard library.
pub fn works() -> bool {
    #[cfg(not(any(only_c01, miri)))]
    {
        let ask = |s: u64| inside(s, || (std::env::var_os("MONITOR_NOT_SET"), std::time::SystemTime::now(), std::thread::available_parallelism().map(|n| n.get()).ok()));
        let before = reads();
        let v: Vec<_> = (1..40u64).map(|s| ask(s.wrapping_mul(0x9E3779B97F4A7C15))).collect();
        let now = std::time::SystemTime::now();
        let seen = v.iter().any(|x| x.0.is_some()) && v.iter().any(|x| x.1.duration_since(now).is_ok_and(|d| d.as_secs() > 3000));
        let after = reads();
        for i in 0..3 {
            READS[i].fetch_sub(after[i] - before[i], Ordering::Relaxed);
        }
        seen && (0..3).all(|i| after[i] > before[i])
    }
    #[cfg(any(only_c01, miri))]
    false
}
