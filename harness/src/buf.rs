//! Page-guarded scratch memory: a slice placed flush against an inaccessible page, so that any
//! access past that end of the slice faults, plus canary bytes on the other side.

use std::cell::RefCell;

const PAGE: usize = 4096;
const CANARY: usize = 512;

struct Region {
    base: *mut u8, // usable part (between two PROT_NONE pages)
    len: usize,
}

impl Region {
    fn new(len: usize) -> Region {
        let len = len.div_ceil(PAGE) * PAGE;
        unsafe {
            let p = libc::mmap(
                std::ptr::null_mut(),
                len + 2 * PAGE,
                libc::PROT_NONE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
                -1,
                0,
            );
            assert!(p != libc::MAP_FAILED, "mmap failed");
            let base = (p as *mut u8).add(PAGE);
            let r = libc::mprotect(
                base as *mut libc::c_void,
                len,
                libc::PROT_READ | libc::PROT_WRITE,
            );
            assert!(r == 0, "mprotect failed");
            Region { base, len }
        }
    }
}

impl Drop for Region {
    fn drop(&mut self) {
        unsafe {
            libc::munmap(
                self.base.sub(PAGE) as *mut libc::c_void,
                self.len + 2 * PAGE,
            );
        }
    }
}

thread_local! {
    static POOL: RefCell<Vec<Option<Region>>> = const { RefCell::new(Vec::new()) };
}

/// A handle to guarded bytes. Copy-able raw handle; the harness guarantees exclusive use per slot.
#[derive(Clone, Copy, Debug)]
pub struct GBuf {
    ptr: *mut u8,
    len: usize,
    // canary range on the non-guarded side
    can: *mut u8,
    can_len: usize,
}

unsafe impl Send for GBuf {}
unsafe impl Sync for GBuf {}

fn canary_byte(i: usize) -> u8 {
    (i as u8).wrapping_mul(31) ^ 0xA5
}

impl GBuf {
    /// Get `len` bytes in slot `slot`. `at_end`: flush against the upper guard page, otherwise
    /// `mis` bytes after the lower guard page.
    pub fn new(slot: usize, len: usize, at_end: bool, mis: usize) -> GBuf {
        POOL.with(|p| {
            let mut p = p.borrow_mut();
            while p.len() <= slot {
                p.push(None);
            }
            let need = len + CANARY + mis;
            if p[slot].as_ref().map(|r| r.len < need).unwrap_or(true) {
                p[slot] = None;
                p[slot] = Some(Region::new(need.next_power_of_two().max(16 * 1024)));
            }
            let r = p[slot].as_ref().unwrap();
            unsafe {
                let (ptr, can) = if at_end {
                    let ptr = r.base.add(r.len - len);
                    (ptr, ptr.sub(CANARY))
                } else {
                    let ptr = r.base.add(mis);
                    (ptr, ptr.add(len))
                };
                for i in 0..CANARY {
                    *can.add(i) = canary_byte(i);
                }
                GBuf {
                    ptr,
                    len,
                    can,
                    can_len: CANARY,
                }
            }
        })
    }
    pub fn get(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.ptr, self.len) }
    }
    #[allow(clippy::mut_from_ref)]
    pub fn get_mut(&self) -> &mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.ptr, self.len) }
    }
    pub fn sub(&self, off: usize, len: usize) -> GBuf {
        assert!(off + len <= self.len);
        GBuf {
            ptr: unsafe { self.ptr.add(off) },
            len,
            can: self.can,
            can_len: self.can_len,
        }
    }
    pub fn canary_ok(&self) -> bool {
        (0..self.can_len).all(|i| unsafe { *self.can.add(i) } == canary_byte(i))
    }
    pub fn len(&self) -> usize {
        self.len
    }
    pub fn addr(&self) -> usize {
        self.ptr as usize
    }
}

impl AsRef<[u8]> for GBuf {
    fn as_ref(&self) -> &[u8] {
        self.get()
    }
}
impl AsMut<[u8]> for GBuf {
    fn as_mut(&mut self) -> &mut [u8] {
        self.get_mut()
    }
}
