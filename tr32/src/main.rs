//! The transcript as a freestanding program, for 32-bit x86 (no libc exists for that target here) and for
//! x86-64 without an operating system's target (no SSE; the system calls are this program's own affair):
//! prints the same lines as `tr`. Each group of cases runs in a child process, so that a panic ends only it.
#![no_std]
#![no_main]
use core::arch::{asm, global_asm};

#[cfg(target_arch = "x86")]
mod os {
    pub const WRITE: usize = 4;
    pub const FORK: usize = 2;
    pub const WAIT: usize = 7;
    pub const EXIT: usize = 1;
    super::global_asm!(".globl _start", "_start:", "xor ebp, ebp", "mov eax, esp", "and esp, -16", "sub esp, 12", "push eax", "call cmain");
    pub unsafe fn sys(n: usize, a: usize, b: usize, c: usize) -> isize {
        let r: isize;
        super::asm!("push ebx", "mov ebx, {a:e}", "int 0x80", "pop ebx", a = in(reg) a, inlateout("eax") n as isize => r, in("ecx") b, in("edx") c);
        r
    }
    pub unsafe fn mmap(len: usize, prot: usize, flags: usize) -> isize {
        let a = [0usize, len, prot, flags, usize::MAX, 0];
        sys(90, a.as_ptr() as usize, 0, 0)
    }
}
#[cfg(target_arch = "x86_64")]
mod os {
    pub const WRITE: usize = 1;
    pub const FORK: usize = 57;
    pub const WAIT: usize = 61;
    pub const EXIT: usize = 60;
    super::global_asm!(".globl _start", "_start:", "xor ebp, ebp", "mov rdi, rsp", "and rsp, -16", "call cmain");
    unsafe fn sys6(n: usize, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
        let r: isize;
        super::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
        r
    }
    pub unsafe fn sys(n: usize, a: usize, b: usize, c: usize) -> isize {
        sys6(n, a, b, c, 0, 0, 0)
    }
    pub unsafe fn mmap(len: usize, prot: usize, flags: usize) -> isize {
        sys6(9, 0, len, prot, flags, usize::MAX, 0)
    }
}
use os::*;
fn exit(c: usize) -> ! {
    loop {
        unsafe { sys(EXIT, c, 0, 0) };
    }
}
#[panic_handler]
fn panicked(_: &core::panic::PanicInfo) -> ! {
    exit(3)
}
struct Out([u8; 200], usize);
impl Out {
    fn s(&mut self, t: &str) -> &mut Out {
        for b in t.bytes() {
            self.0[self.1] = b;
            self.1 += 1;
        }
        self
    }
    fn dec(&mut self, mut x: u64) -> &mut Out {
        let mut t = [0u8; 20];
        let mut n = 0;
        loop {
            t[n] = b'0' + (x % 10) as u8;
            n += 1;
            x /= 10;
            if x == 0 {
                break;
            }
        }
        for i in (0..n).rev() {
            self.0[self.1] = t[i];
            self.1 += 1;
        }
        self
    }
    fn hex(&mut self, x: u64) -> &mut Out {
        for i in (0..16).rev() {
            self.0[self.1] = b"0123456789abcdef"[(x >> (4 * i)) as usize & 15];
            self.1 += 1;
        }
        self
    }
    fn flush(&mut self) {
        unsafe { sys(WRITE, 1, self.0.as_ptr() as usize, self.1) };
        self.1 = 0;
    }
}
/// runs f in a child; its exit status
fn child(f: impl FnOnce()) -> i32 {
    unsafe {
        let pid = sys(FORK, 0, 0, 0);
        if pid == 0 {
            f();
            exit(0);
        }
        if pid < 0 {
            exit(4);
        }
        let mut st = 0i32;
        sys(WAIT, pid as usize, &mut st as *mut i32 as usize, 0);
        st
    }
}
unsafe fn map(len: usize, prot: usize) -> *mut u8 {
    let p = mmap(len, prot, 0x22 | 0x4000);
    if p < 0 && p > -4096 {
        exit(5);
    }
    p as *mut u8
}
unsafe fn arg<'a>(sp: *const usize, i: usize) -> Option<&'a [u8]> {
    if i >= *sp {
        return None;
    }
    let p = *sp.add(1 + i) as *const u8;
    let mut n = 0;
    while *p.add(n) != 0 {
        n += 1;
    }
    Some(core::slice::from_raw_parts(p, n))
}
fn num(b: Option<&[u8]>) -> u64 {
    b.unwrap_or(b"0").iter().fold(0, |a, &d| a * 10 + (d - b'0') as u64)
}
#[no_mangle]
unsafe extern "C" fn cmain(sp: *const usize) -> ! {
    let mut o = Out([0; 200], 0);
    if arg(sp, 1) == Some(b"giant") {
        let i = num(arg(sp, 2)) as usize;
        let n = (1usize << 29) + 64;
        let z = core::slice::from_raw_parts(map(n, 1), n);
        let w = if i == 3 || i == 8 { core::slice::from_raw_parts_mut(map(n, 3), n) } else { &mut [] };
        let st = child(|| {
            let (v, k) = transcript::giant(i, z, w);
            Out([0; 200], 0).s("giant ").dec(i as u64).s(" ").hex(v[0]).hex(v[1]).s(" ").dec(k).s(" 0\n").flush();
        });
        if st == 3 << 8 {
            o.s("giant ").dec(i as u64).s(" panic 0 1\n").flush();
        } else if st != 0 {
            exit(6)
        }
        exit(0);
    }
    let fam = num(arg(sp, 1)) as usize;
    let (start, count) = (num(arg(sp, 2)), num(arg(sp, 3)));
    let group = if arg(sp, 4).is_some() { 1 } else { 32 };
    let mut first = start;
    while first < start + count {
        let end = if first + group < start + count { first + group } else { start + count };
        let st = child(|| {
            let (mut acc, mut res) = ([0u64; 2], 0);
            for i in first..end {
                let (v, n) = transcript::case(fam, i);
                acc = [acc[0].rotate_left(7) ^ v[0], acc[1].wrapping_mul(3).wrapping_add(v[1])];
                res += n;
            }
            Out([0; 200], 0).dec(fam as u64).s(" ").dec(first).s(" ").hex(acc[0]).hex(acc[1]).s(" ").dec(res).s(" 0\n").flush();
        });
        if st == 3 << 8 {
            o.dec(fam as u64).s(" ").dec(first).s(" panic 0 1\n").flush();
        } else if st != 0 {
            exit(6)
        }
        first = end;
    }
    exit(0)
}
