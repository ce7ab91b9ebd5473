//! Memory between pages which cannot be accessed.

use std::cell::Cell;

use crate::slot;

const PAGE: usize = 4096;

pub struct Guarded {
    at: *mut u8,
    len: usize,
    writable: Cell<bool>,
}

impl Guarded {
    pub fn new(len: usize) -> Self {
        let len = len.next_multiple_of(PAGE);
        let p = unsafe { slot::mmap(std::ptr::null_mut(), len + 2 * PAGE, 3, 0x22, -1, 0) } as *mut u8;
        assert!(p as isize != -1, "mmap of a guarded area");
        unsafe {
            slot::mprotect(p.cast(), PAGE, 0);
            slot::mprotect(p.add(PAGE + len).cast(), PAGE, 0);
        }
        Guarded { at: unsafe { p.add(PAGE) }, len, writable: Cell::new(true) }
    }

    fn protect(&self, writable: bool) {
        if self.writable.replace(writable) != writable {
            let r = unsafe { slot::mprotect(self.at.cast(), self.len, if writable { 3 } else { 1 }) };
            assert_eq!(r, 0, "mprotect");
        }
    }

    /// The bytes, in front of the upper or behind the lower guard page; until the next call.
    #[allow(clippy::mut_from_ref)]
    pub fn place(&self, b: &[u8], at_end: bool) -> &[u8] {
        assert!(b.len() <= self.len);
        self.protect(true);
        let off = if at_end { self.len - b.len() } else { 0 };
        unsafe {
            let p = self.at.add(off);
            std::ptr::copy_nonoverlapping(b.as_ptr(), p, b.len());
            self.protect(false);
            std::slice::from_raw_parts(p, b.len())
        }
    }
}

impl Drop for Guarded {
    fn drop(&mut self) {
        unsafe {
            slot::munmap(self.at.sub(PAGE).cast(), self.len + 2 * PAGE);
        }
    }
}
