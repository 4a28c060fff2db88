//! What the instrumented library reports while it runs: the edges of its control flow it takes and
//! the operands of its comparisons. Recorded for the calling thread only, and only while asked to.
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, Ordering};

pub const MAP: usize = 1 << 18;

/// one comparison that came out unequal
#[derive(Clone, Copy, Default)]
pub struct Cmp {
    pub size: u8,
    pub a: u64,
    pub b: u64,
}
pub struct Rec {
    edges: Vec<u8>,
    touched: Vec<u32>,
    bits: Vec<u64>,
    set: Vec<u32>,
    cmps: Vec<Cmp>,
    filled: Vec<u16>,
    turn: Vec<u8>,
    pub comparisons: u64,
    pub edge_events: u64,
}
const SLOTS: usize = 4096;
impl Rec {
    pub fn new() -> Rec {
        Rec {
            edges: vec![0; GUARDS.load(Ordering::Relaxed) as usize + 1],
            touched: vec![],
            bits: vec![0; MAP / 64],
            set: vec![],
            cmps: vec![Cmp::default(); SLOTS],
            filled: vec![],
            turn: vec![0; SLOTS / 4],
            comparisons: 0,
            edge_events: 0,
        }
    }
    fn feature(&mut self, h: u64) {
        let i = (h.wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 40) as usize % MAP;
        if self.bits[i / 64] >> (i % 64) & 1 == 0 {
            self.bits[i / 64] |= 1 << (i % 64);
            self.set.push(i as u32);
        }
    }
    /// the features of what ran since the last call
    pub fn take(&mut self) -> Vec<u32> {
        for e in std::mem::take(&mut self.touched) {
            let n = std::mem::take(&mut self.edges[e as usize]);
            let bucket = 8 - n.leading_zeros() as u64;
            self.feature(1 << 60 | (e as u64) << 8 | bucket);
        }
        let set = std::mem::take(&mut self.set);
        for &i in &set {
            self.bits[i as usize / 64] &= !(1 << (i % 64));
        }
        set
    }
    /// unequal comparisons since the last `forget`, the last few of each site
    pub fn unequal(&self) -> impl Iterator<Item = Cmp> + '_ {
        self.filled.iter().map(|&i| self.cmps[i as usize])
    }
    pub fn some(&self, r: usize) -> Option<Cmp> {
        if self.filled.is_empty() { None } else { Some(self.cmps[self.filled[r % self.filled.len()] as usize]) }
    }
    pub fn forget(&mut self) {
        for i in std::mem::take(&mut self.filled) {
            self.cmps[i as usize].size = 0;
        }
    }
}

thread_local! {
    static REC: Cell<*mut Rec> = const { Cell::new(std::ptr::null_mut()) };
}
/// records while `f` runs
pub fn during<T>(r: &mut Rec, f: impl FnOnce() -> T) -> T {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            REC.with(|p| p.set(std::ptr::null_mut()));
        }
    }
    REC.with(|p| p.set(r));
    let _off = Off;
    f()
}

/// comparison sites and edges that were ever seen, by hash of their address
static GUARDS: AtomicU32 = AtomicU32::new(0);
pub fn guards() -> u32 {
    GUARDS.load(Ordering::Relaxed)
}

#[no_mangle]
extern "C" fn guided_cmp(a: u64, b: u64, pc: u64, size: u64) {
    let p = REC.with(|p| p.get());
    if p.is_null() {
        return;
    }
    let r = unsafe { &mut *p };
    // wherever the program was loaded
    let pc = pc.wrapping_sub(guided_cmp as *const () as u64);
    let (a, b) = if size == 8 { (a, b) } else { (a & ((1 << (8 * size)) - 1), b & ((1 << (8 * size)) - 1)) };
    r.comparisons += 1;
    let (near, far) = if a == b { (0, 0) } else { ((a ^ b).count_ones() as u64, 65 + 64 - a.abs_diff(b).leading_zeros() as u64) };
    r.feature(2 << 60 | pc << 8 | near);
    if a != b {
        r.feature(2 << 60 | pc << 8 | far);
        let slot = (pc.wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 54) as usize % (SLOTS / 4);
        let t = r.turn[slot] as usize % 4;
        r.turn[slot] = r.turn[slot].wrapping_add(1);
        if r.cmps[4 * slot + t].size == 0 {
            r.filled.push((4 * slot + t) as u16);
        }
        r.cmps[4 * slot + t] = Cmp { size: size as u8, a, b };
    }
}
#[no_mangle]
unsafe extern "C" fn guided_switch(v: u64, cases: *const u64, pc: u64) {
    let (n, bits) = unsafe { (*cases, *cases.add(1)) };
    for i in 0..n {
        guided_cmp(v, unsafe { *cases.add(2 + i as usize) }, pc.wrapping_add(i << 20), (bits / 8).max(1));
    }
}
#[no_mangle]
extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    while p < stop {
        unsafe {
            if *p == 0 {
                *p = GUARDS.fetch_add(1, Ordering::Relaxed) + 1;
            }
            p = p.add(1);
        }
    }
}
#[no_mangle]
extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    let p = REC.with(|p| p.get());
    if p.is_null() {
        return;
    }
    let (r, g) = unsafe { (&mut *p, *g) };
    r.edge_events += 1;
    let e = &mut r.edges[g as usize];
    if *e == 0 {
        r.touched.push(g);
    }
    *e = e.saturating_add(1);
}
/// memcmp and bcmp of the whole program: eight bytes at a time, as comparisons
#[no_mangle]
unsafe extern "C" fn guided_memcmp(a: *const u8, b: *const u8, n: usize, pc: u64) -> i32 {
    let mut d = 0;
    let mut k = 0;
    // read one at a time, or this would be compiled into a call of itself
    while k < n {
        let (x, y) = unsafe { (a.add(k).read_volatile(), b.add(k).read_volatile()) };
        if x != y {
            d = x as i32 - y as i32;
            break;
        }
        k += 1;
    }
    if REC.with(|p| p.get()).is_null() {
        return d;
    }
    let mut k = 0;
    while k < n.min(256) {
        let step = if n - k >= 8 { 8 } else if n - k >= 4 { 4 } else if n - k >= 2 { 2 } else { 1 };
        let word = |p: *const u8| (0..step).fold(0, |w, j| w | (unsafe { p.add(k + j).read_volatile() } as u64) << (8 * j));
        let (x, y) = (word(a), word(b));
        guided_cmp(x, y, pc.wrapping_add((k as u64) << 32), step as u64);
        k += step;
        if x != y {
            break;
        }
    }
    d
}
// the caller's address says which comparison it is
macro_rules! tramp {
    ($($name:literal $size:literal)*) => {
        std::arch::global_asm!($(
            concat!(".globl ", $name), concat!($name, ":"), "mov rdx, [rsp]", concat!("mov ecx, ", $size), "jmp guided_cmp",
        )*);
    };
}
tramp!("__sanitizer_cov_trace_cmp1" 1 "__sanitizer_cov_trace_cmp2" 2 "__sanitizer_cov_trace_cmp4" 4 "__sanitizer_cov_trace_cmp8" 8
    "__sanitizer_cov_trace_const_cmp1" 1 "__sanitizer_cov_trace_const_cmp2" 2 "__sanitizer_cov_trace_const_cmp4" 4 "__sanitizer_cov_trace_const_cmp8" 8);
// a division: its divisor's distance from 0
std::arch::global_asm!(".globl __sanitizer_cov_trace_div4", "__sanitizer_cov_trace_div4:", "xor esi, esi", "mov rdx, [rsp]", "mov ecx, 4", "jmp guided_cmp",
    ".globl __sanitizer_cov_trace_div8", "__sanitizer_cov_trace_div8:", "xor esi, esi", "mov rdx, [rsp]", "mov ecx, 8", "jmp guided_cmp",
    ".globl memcmp", "memcmp:", ".globl bcmp", "bcmp:", "mov rcx, [rsp]", "jmp guided_memcmp",
    ".globl __sanitizer_cov_trace_switch", "__sanitizer_cov_trace_switch:", "mov rdx, [rsp]", "jmp guided_switch");
