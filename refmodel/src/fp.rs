//! Arithmetic mod p = 2^255 - 19 (4 x 64-bit limbs, always fully reduced) and mod L.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct F(pub [u64; 4]);
pub const P: [u64; 4] = [0xffff_ffff_ffff_ffed, u64::MAX, u64::MAX, 0x7fff_ffff_ffff_ffff];

fn geq(a: &[u64; 4], b: &[u64; 4]) -> bool {
    for i in (0..4).rev() {
        if a[i] != b[i] {
            return a[i] > b[i];
        }
    }
    true
}
fn subn(a: &[u64; 4], b: &[u64; 4]) -> ([u64; 4], bool) {
    let mut r = [0; 4];
    let mut br = false;
    for i in 0..4 {
        let (x, c1) = a[i].overflowing_sub(b[i]);
        let (y, c2) = x.overflowing_sub(br as u64);
        r[i] = y;
        br = c1 || c2;
    }
    (r, br)
}
fn addn(a: &[u64; 4], b: &[u64; 4]) -> ([u64; 4], bool) {
    let mut r = [0; 4];
    let mut c = 0u128;
    for i in 0..4 {
        c += a[i] as u128 + b[i] as u128;
        r[i] = c as u64;
        c >>= 64;
    }
    (r, c != 0)
}
impl F {
    pub const ZERO: F = F([0; 4]);
    pub const ONE: F = F([1, 0, 0, 0]);
    pub fn small(x: u64) -> F {
        F([x, 0, 0, 0])
    }
    fn norm(mut a: [u64; 4]) -> F {
        while geq(&a, &P) {
            a = subn(&a, &P).0;
        }
        F(a)
    }
    /// value of the low 255 bits, reduced
    pub fn from_bytes(b: &[u8]) -> F {
        let mut a = [0u64; 4];
        for i in 0..4 {
            a[i] = u64::from_le_bytes(b[8 * i..8 * i + 8].try_into().unwrap());
        }
        a[3] &= 0x7fff_ffff_ffff_ffff;
        F::norm(a)
    }
    pub fn to_bytes(self) -> [u8; 32] {
        let mut o = [0; 32];
        for i in 0..4 {
            o[8 * i..8 * i + 8].copy_from_slice(&self.0[i].to_le_bytes());
        }
        o
    }
    pub fn add(self, o: F) -> F {
        F::norm(addn(&self.0, &o.0).0)
    }
    pub fn sub(self, o: F) -> F {
        let (r, b) = subn(&self.0, &o.0);
        if b {
            F(addn(&r, &P).0)
        } else {
            F(r)
        }
    }
    pub fn neg(self) -> F {
        F::ZERO.sub(self)
    }
    pub fn mul(self, o: F) -> F {
        let mut w = [0u64; 8];
        for i in 0..4 {
            let mut c = 0u128;
            for j in 0..4 {
                let t = w[i + j] as u128 + self.0[i] as u128 * o.0[j] as u128 + c;
                w[i + j] = t as u64;
                c = t >> 64;
            }
            w[i + 4] = c as u64;
        }
        // 2^256 = 38
        let mut r = [0u64; 4];
        let mut c = 0u128;
        for i in 0..4 {
            let t = w[i] as u128 + w[i + 4] as u128 * 38 + c;
            r[i] = t as u64;
            c = t >> 64;
        }
        while c != 0 {
            let mut k = c * 38;
            c = 0;
            for x in r.iter_mut() {
                k += *x as u128;
                *x = k as u64;
                k >>= 64;
            }
            c += k;
        }
        F::norm(r)
    }
    pub fn sq(self) -> F {
        self.mul(self)
    }
    pub fn pow(self, e: &[u64; 4]) -> F {
        let mut r = F::ONE;
        for i in (0..256).rev() {
            r = r.sq();
            if (e[i / 64] >> (i % 64)) & 1 == 1 {
                r = r.mul(self);
            }
        }
        r
    }
    pub fn inv(self) -> F {
        self.pow(&[P[0] - 2, P[1], P[2], P[3]])
    }
    pub fn is_zero(self) -> bool {
        self == F::ZERO
    }
    /// Some square root, if one exists.
    pub fn sqrt(self) -> Option<F> {
        // p = 5 mod 8: candidate a^((p+3)/8), maybe times 2^((p-1)/4)
        let mut e = [P[0] + 3, P[1], P[2], P[3]];
        e = shr(e, 3);
        let c = self.pow(&e);
        if c.sq() == self {
            return Some(c);
        }
        let mut q = [P[0] - 1, P[1], P[2], P[3]];
        q = shr(q, 2);
        let c = c.mul(F::small(2).pow(&q));
        if c.sq() == self {
            Some(c)
        } else {
            None
        }
    }
    /// from an integer string of limbs possibly >= p
    pub fn from_limbs(a: [u64; 4]) -> F {
        F::norm(a)
    }
}
fn shr(mut a: [u64; 4], n: u32) -> [u64; 4] {
    for i in 0..4 {
        let hi = if i < 3 { a[i + 1] } else { 0 };
        a[i] = (a[i] >> n) | (hi << (64 - n));
    }
    a
}

/// group order L = 2^252 + 27742317777372353535851937790883648493
pub fn l() -> [u64; 4] {
    let c: u128 = 27742317777372353535851937790883648493;
    [c as u64, (c >> 64) as u64, 0, 1 << 60]
}
/// x (little-endian bytes, any length) mod m, by double-and-add over the bits; m < 2^254
pub fn mod_bytes_by(x: &[u8], m: &[u64; 4]) -> [u64; 4] {
    let mut r = [0u64; 4];
    for byte in x.iter().rev() {
        for b in (0..8).rev() {
            let mut d = addn(&r, &r).0;
            d[0] |= ((byte >> b) & 1) as u64;
            if geq(&d, m) {
                d = subn(&d, m).0;
            }
            r = d;
        }
    }
    r
}
pub fn mod_l(x: &[u8]) -> [u64; 4] {
    mod_bytes_by(x, &l())
}
pub fn addmod(a: &[u64; 4], b: &[u64; 4], m: &[u64; 4]) -> [u64; 4] {
    let s = addn(a, b).0;
    if geq(&s, m) {
        subn(&s, m).0
    } else {
        s
    }
}
pub fn mulmod(a: &[u64; 4], b: &[u64; 4], m: &[u64; 4]) -> [u64; 4] {
    let mut r = [0u64; 4];
    for i in (0..256).rev() {
        r = addmod(&r, &r, m);
        if (b[i / 64] >> (i % 64)) & 1 == 1 {
            r = addmod(&r, a, m);
        }
    }
    r
}
/// (a*b + c) mod L for little-endian byte strings
pub fn muladd_l(a: &[u8], b: &[u8], c: &[u8]) -> [u8; 32] {
    let m = l();
    let r = addmod(&mulmod(&mod_l(a), &mod_l(b), &m), &mod_l(c), &m);
    limbs_to_bytes(&r)
}
pub fn powmod(a: &[u64; 4], e: &[u64; 4], m: &[u64; 4]) -> [u64; 4] {
    let mut r = [1, 0, 0, 0];
    for i in (0..256).rev() {
        r = mulmod(&r, &r, m);
        if (e[i / 64] >> (i % 64)) & 1 == 1 {
            r = mulmod(&r, a, m);
        }
    }
    r
}
pub fn limbs_to_bytes(a: &[u64; 4]) -> [u8; 32] {
    F(*a).to_bytes()
}
pub fn bytes_to_limbs(b: &[u8]) -> [u64; 4] {
    let mut a = [0u64; 4];
    for i in 0..4 {
        a[i] = u64::from_le_bytes(b[8 * i..8 * i + 8].try_into().unwrap());
    }
    a
}
pub fn lt(a: &[u64; 4], b: &[u64; 4]) -> bool {
    !geq(a, b)
}
pub fn add_raw(a: &[u64; 4], b: &[u64; 4]) -> ([u64; 4], bool) {
    addn(a, b)
}
pub fn sub_raw(a: &[u64; 4], b: &[u64; 4]) -> ([u64; 4], bool) {
    subn(a, b)
}
