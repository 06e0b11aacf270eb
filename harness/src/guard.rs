//! Buffers that end exactly at an inaccessible page: one byte too far is a SIGSEGV.

#[cfg(miri)]
pub struct Guarded(Vec<u8>, usize);

#[cfg(miri)]
impl Guarded {
    pub fn new(cap: usize) -> Self {
        Guarded(vec![0; cap], cap)
    }
    pub fn cap(&self) -> usize {
        self.1
    }
    pub fn load(&mut self, b: &[u8]) -> &[u8] {
        self.0 = b.to_vec();
        &self.0
    }
}

#[cfg(not(miri))]
mod sys {
    use std::ffi::c_void;
    extern "C" {
        pub fn mmap(addr: *mut c_void, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut c_void;
        pub fn mprotect(addr: *mut c_void, len: usize, prot: i32) -> i32;
        pub fn munmap(addr: *mut c_void, len: usize) -> i32;
    }
}

#[cfg(not(miri))]
pub struct Guarded {
    base: *mut u8,
    cap: usize,
}

#[cfg(not(miri))]
const PAGE: usize = 4096;

#[cfg(not(miri))]
impl Guarded {
    pub fn new(cap: usize) -> Self {
        let cap = (cap + PAGE - 1) / PAGE * PAGE;
        unsafe {
            let p = sys::mmap(std::ptr::null_mut(), cap + PAGE, 3, 0x22, -1, 0);
            assert!(p as isize != -1, "mmap failed");
            let base = p as *mut u8;
            assert!(sys::mprotect(base.add(cap) as *mut _, PAGE, 0) == 0, "mprotect failed");
            Guarded { base, cap }
        }
    }
    pub fn cap(&self) -> usize {
        self.cap
    }
    /// Copy `b` so that its last byte is the last accessible one.
    pub fn load(&mut self, b: &[u8]) -> &[u8] {
        assert!(b.len() <= self.cap);
        unsafe {
            let p = self.base.add(self.cap - b.len());
            std::ptr::copy_nonoverlapping(b.as_ptr(), p, b.len());
            std::slice::from_raw_parts(p, b.len())
        }
    }
}

#[cfg(not(miri))]
impl Drop for Guarded {
    fn drop(&mut self) {
        unsafe {
            sys::munmap(self.base as *mut _, self.cap + PAGE);
        }
    }
}
