//! Memory next to inaccessible pages: an access outside an object placed there faults.
extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(a: *mut u8, n: usize, prot: i32) -> i32;
}
const P: usize = 4096;
pub struct Guard {
    page: *mut u8,
}
impl Guard {
    pub fn new() -> Guard {
        unsafe {
            let b = mmap(std::ptr::null_mut(), 3 * P, 0, 0x22, -1, 0);
            assert!(!b.is_null() && b as isize != -1, "mmap");
            assert!(mprotect(b.add(P), P, 3) == 0, "mprotect");
            Guard { page: b.add(P) }
        }
    }
    /// Fill the page with a pattern and return where an object of `size` bytes goes.
    /// place 0: it ends at the guard page; 1: it starts after the guard page; k: in the middle, at 16-byte offset 4*(k-2).
    pub fn place(&self, size: usize, place: usize, fill: u8) -> *mut u8 {
        unsafe {
            std::ptr::write_bytes(self.page, fill, P);
            match place {
                0 => self.page.add(P - size),
                1 => self.page,
                k => self.page.add(P / 2 + 4 * ((k - 2) % 4)),
            }
        }
    }
    /// Are all bytes outside [p, p+size) still the pattern?
    pub fn intact(&self, p: *mut u8, size: usize, fill: u8) -> Option<isize> {
        let off = p as usize - self.page as usize;
        for i in 0..P {
            if i >= off && i < off + size {
                continue;
            }
            if unsafe { *self.page.add(i) } != fill {
                return Some(i as isize - off as isize);
            }
        }
        None
    }
}
