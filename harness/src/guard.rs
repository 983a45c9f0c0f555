//! Memory fenced by inaccessible pages: a slice placed at either end of the
//! accessible part faults on the first byte read or written outside it.
#[cfg(miri)]
pub struct Fenced {
    buf: Vec<u8>,
}

#[cfg(not(miri))]
pub struct Fenced {
    base: *mut u8,
    total: usize,
    usable: usize,
}

#[cfg(not(miri))]
mod sys {
    extern "C" {
        pub fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
        pub fn mprotect(addr: *mut u8, len: usize, prot: i32) -> i32;
        pub fn munmap(addr: *mut u8, len: usize) -> i32;
    }
}
#[cfg(not(miri))]
const PAGE: usize = 4096;

#[cfg(not(miri))]
impl Fenced {
    pub fn new(bytes: usize) -> Fenced {
        let usable = (bytes.max(1) + PAGE - 1) / PAGE * PAGE;
        let total = usable + 2 * PAGE;
        unsafe {
            let base = sys::mmap(std::ptr::null_mut(), total, 3, 0x22, -1, 0);
            assert!(base as isize != -1, "mmap failed");
            assert_eq!(sys::mprotect(base, PAGE, 0), 0);
            assert_eq!(sys::mprotect(base.add(PAGE + usable), PAGE, 0), 0);
            Fenced { base, total, usable }
        }
    }
    /// `n` elements ending at the upper fence (`back` elements before it), or
    /// starting at the lower one
    pub fn slice<T: Copy>(&mut self, n: usize, at_end: bool) -> &mut [T] {
        let sz = n * std::mem::size_of::<T>();
        assert!(sz <= self.usable);
        unsafe {
            let lo = self.base.add(PAGE);
            let p = if at_end { lo.add(self.usable - sz) } else { lo };
            std::slice::from_raw_parts_mut(p as *mut T, n)
        }
    }
    /// Make the memory read-only (inputs must not be written)
    pub fn seal(&mut self) {
        unsafe {
            sys::mprotect(self.base.add(PAGE), self.usable, 1);
        }
    }
    pub fn unseal(&mut self) {
        unsafe {
            sys::mprotect(self.base.add(PAGE), self.usable, 3);
        }
    }
}
#[cfg(not(miri))]
impl Drop for Fenced {
    fn drop(&mut self) {
        unsafe {
            sys::munmap(self.base, self.total);
        }
    }
}

#[cfg(miri)]
impl Fenced {
    pub fn new(bytes: usize) -> Fenced {
        Fenced { buf: vec![0; bytes + 64] }
    }
    pub fn slice<T: Copy>(&mut self, n: usize, _at_end: bool) -> &mut [T] {
        let al = std::mem::align_of::<T>();
        let off = self.buf.as_ptr().align_offset(al);
        unsafe { std::slice::from_raw_parts_mut(self.buf.as_mut_ptr().add(off) as *mut T, n) }
    }
    pub fn seal(&mut self) {}
    pub fn unseal(&mut self) {}
}

use std::sync::Mutex;
static CRUMB: Mutex<Option<std::fs::File>> = Mutex::new(None);

pub fn open_crumb(path: &str) {
    if cfg!(miri) || path.is_empty() {
        return;
    }
    *CRUMB.lock().unwrap() = std::fs::File::create(path).ok();
}

/// What is about to be called: read by the driver when the process dies.
pub fn crumb(s: &str) {
    if cfg!(miri) {
        return;
    }
    use std::os::unix::fs::FileExt;
    if let Some(f) = CRUMB.lock().unwrap().as_ref() {
        let mut t = String::with_capacity(256);
        t.push_str(&s[..s.len().min(250)]);
        while t.len() < 255 {
            t.push(' ');
        }
        t.push('\n');
        let _ = f.write_at(t.as_bytes(), 0);
    }
}

/// With MemorySanitizer: every byte of the result must be initialised.
pub fn defined<T>(v: &[T]) {
    #[cfg(monitor_msan)]
    unsafe {
        extern "C" {
            fn __msan_check_mem_is_initialized(p: *const u8, n: usize);
        }
        __msan_check_mem_is_initialized(v.as_ptr() as *const u8, std::mem::size_of_val(v));
    }
    #[cfg(not(monitor_msan))]
    {
        let _ = v;
    }
}
