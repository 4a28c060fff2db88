//! Buffers with unmapped guard pages, lazily mapped giant buffers.
use std::ffi::c_void;
extern "C" {
    fn mmap(a: *mut c_void, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut c_void;
    fn munmap(a: *mut c_void, l: usize) -> i32;
    fn mprotect(a: *mut c_void, l: usize, p: i32) -> i32;
    fn memfd_create(name: *const u8, flags: u32) -> i32;
    fn ftruncate(fd: i32, l: i64) -> i32;
    fn close(fd: i32) -> i32;
}
const NONE: i32 = 0;
const R: i32 = 1;
const W: i32 = 2;
const PRIV_ANON_NORES: i32 = 0x2 | 0x20 | 0x4000;
pub const PAGE: usize = 4096;

pub struct Map {
    pub p: *mut u8,
    pub len: usize,
}
unsafe impl Send for Map {}
unsafe impl Sync for Map {}
impl Map {
    fn new(len: usize, prot: i32) -> Option<Map> {
        let p = unsafe { mmap(std::ptr::null_mut(), len.max(1), prot, PRIV_ANON_NORES, -1, 0) };
        if p as isize == -1 {
            None
        } else {
            Some(Map { p: p as *mut u8, len: len.max(1) })
        }
    }
    /// readable zeros, never backed by memory of their own (shared zero page)
    pub fn zeros(len: usize) -> Option<Map> {
        Map::new(len, R)
    }
    pub fn rw(len: usize) -> Option<Map> {
        Map::new(len, R | W)
    }
    /// address space on which any access faults
    pub fn unmapped(len: usize) -> Option<Map> {
        Map::new(len, NONE)
    }
    /// `len` bytes of address space in which every `unit` bytes alias the same memory
    pub fn aliased(len: usize, unit: usize) -> Option<Map> {
        let m = Map::new(len, NONE)?;
        unsafe {
            let fd = memfd_create(c"alias".as_ptr() as *const u8, 0);
            if fd < 0 || ftruncate(fd, unit as i64) != 0 {
                return None;
            }
            let mut off = 0;
            while off < len {
                let n = unit.min(len - off);
                let n = (n + PAGE - 1) / PAGE * PAGE;
                let p = mmap(m.p.add(off) as *mut c_void, n, R | W, 0x1 | 0x10, fd, 0); // MAP_SHARED|MAP_FIXED
                if p as isize == -1 {
                    close(fd);
                    return None;
                }
                off += unit;
            }
            close(fd);
        }
        Some(m)
    }
    /// gives the last page memory of its own
    pub fn private_tail(&self) -> bool {
        let off = (self.len - 1) / PAGE * PAGE;
        let p = unsafe { mmap(self.p.add(off) as *mut c_void, PAGE, R | W, 0x2 | 0x20 | 0x10, -1, 0) };
        p as isize != -1
    }
    pub fn slice(&self, n: usize) -> &[u8] {
        assert!(n <= self.len);
        unsafe { std::slice::from_raw_parts(self.p, n) }
    }
    #[allow(clippy::mut_from_ref)]
    pub fn slice_mut(&self, n: usize) -> &mut [u8] {
        assert!(n <= self.len);
        unsafe { std::slice::from_raw_parts_mut(self.p, n) }
    }
}
impl Drop for Map {
    fn drop(&mut self) {
        unsafe { munmap(self.p as *mut c_void, self.len) };
    }
}

/// Pages between two guard pages; slices are handed out flush against one of the guards.
pub struct Guard {
    map: Map,
    pub cap: usize,
}
impl Guard {
    pub fn new(cap: usize) -> Guard {
        let cap = (cap + PAGE - 1) / PAGE * PAGE;
        let map = Map::new(cap + 2 * PAGE, NONE).expect("guard mapping");
        assert_eq!(unsafe { mprotect(map.p.add(PAGE) as *mut c_void, cap, R | W) }, 0);
        Guard { map, cap }
    }
    fn base(&self) -> *mut u8 {
        unsafe { self.map.p.add(PAGE) }
    }
    /// all usable bytes
    #[allow(clippy::mut_from_ref)]
    pub fn all(&self) -> &mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.base(), self.cap) }
    }
    /// offset of an n-byte slice: against the end guard, the start guard, or `shift` bytes before the end
    pub fn off(&self, n: usize, at: At) -> usize {
        assert!(n + 64 <= self.cap || n <= self.cap);
        match at {
            At::End => self.cap - n,
            At::Start => 0,
            At::Shift(s) => (self.cap - n).saturating_sub(s),
        }
    }
    pub fn ptr(&self, off: usize) -> *mut u8 {
        unsafe { self.base().add(off) }
    }
    /// makes the usable pages read-only (true) or writable again
    pub fn protect(&self, ro: bool) {
        assert_eq!(unsafe { mprotect(self.base() as *mut c_void, self.cap, if ro { R } else { R | W }) }, 0);
    }
}
#[derive(Clone, Copy, Debug)]
pub enum At {
    End,
    Start,
    Shift(usize),
}
impl At {
    pub fn rnd(r: &mut crate::fw::Rng) -> At {
        match r.below(3) {
            0 => At::End,
            1 => At::Start,
            _ => At::Shift(r.below(17)),
        }
    }
}
