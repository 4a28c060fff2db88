//! RFC 8032 Ed25519 (cofactorless verification equation).
use crate::fp::*;
use crate::sha2::{digest_parts, Alg};
use std::sync::OnceLock;

#[derive(Clone, Copy, Debug)]
pub struct Pt {
    x: F,
    y: F,
    z: F,
    t: F,
}
pub fn d() -> F {
    static C: OnceLock<F> = OnceLock::new();
    *C.get_or_init(|| F::small(121665).neg().mul(F::small(121666).inv()))
}
fn d2() -> F {
    static C: OnceLock<F> = OnceLock::new();
    *C.get_or_init(|| d().add(d()))
}
pub fn base() -> Pt {
    static C: OnceLock<Pt> = OnceLock::new();
    *C.get_or_init(|| {
        let y = F::small(4).mul(F::small(5).inv());
        let mut b = y.to_bytes();
        b[31] &= 127; // x is the even root
        decode(&b).unwrap()
    })
}
impl Pt {
    pub const ID: Pt = Pt { x: F::ZERO, y: F::ONE, z: F::ONE, t: F::ZERO };
    pub fn affine(x: F, y: F) -> Pt {
        Pt { x, y, z: F::ONE, t: x.mul(y) }
    }
    // complete addition, RFC 8032 5.1.4
    pub fn add(&self, o: &Pt) -> Pt {
        let a = self.y.sub(self.x).mul(o.y.sub(o.x));
        let b = self.y.add(self.x).mul(o.y.add(o.x));
        let c = self.t.mul(d2()).mul(o.t);
        let zz = self.z.mul(o.z);
        let dd = zz.add(zz);
        let e = b.sub(a);
        let f = dd.sub(c);
        let g = dd.add(c);
        let h = b.add(a);
        Pt { x: e.mul(f), y: g.mul(h), t: e.mul(h), z: f.mul(g) }
    }
    pub fn neg(&self) -> Pt {
        Pt { x: self.x.neg(), y: self.y, z: self.z, t: self.t.neg() }
    }
    /// scalar is a little-endian integer of any length
    pub fn mul(&self, k: &[u8]) -> Pt {
        let mut r = Pt::ID;
        for byte in k.iter().rev() {
            for b in (0..8).rev() {
                r = r.add(&r);
                if (byte >> b) & 1 == 1 {
                    r = r.add(self);
                }
            }
        }
        r
    }
    pub fn encode(&self) -> [u8; 32] {
        let zi = self.z.inv();
        let x = self.x.mul(zi);
        let y = self.y.mul(zi);
        let mut o = y.to_bytes();
        o[31] |= (x.0[0] as u8 & 1) << 7;
        o
    }
    pub fn eq(&self, o: &Pt) -> bool {
        self.x.mul(o.z) == o.x.mul(self.z) && self.y.mul(o.z) == o.y.mul(self.z)
    }
}
/// y is taken mod p and the sign bit of x = 0 is ignored; `is_canonical` reports RFC strictness.
pub fn decode(s: &[u8]) -> Option<Pt> {
    let y = F::from_bytes(s);
    let y2 = y.sq();
    let u = y2.sub(F::ONE);
    let v = d().mul(y2).add(F::ONE);
    let mut x = u.mul(v.inv()).sqrt()?;
    if (x.0[0] & 1) as u8 != s[31] >> 7 {
        x = x.neg();
    }
    Some(Pt::affine(x, y))
}
/// true iff `s` is the unique canonical encoding of the point it decodes to
pub fn is_canonical(s: &[u8]) -> bool {
    match decode(s) {
        Some(p) => p.encode() == s,
        None => true,
    }
}
pub fn expand_key(sk: &[u8]) -> ([u8; 32], [u8; 32]) {
    let h = digest_parts(Alg::S512, &[sk]);
    let mut a: [u8; 32] = h[..32].try_into().unwrap();
    a[0] &= 248;
    a[31] = (a[31] & 127) | 64;
    (a, h[32..].try_into().unwrap())
}
pub fn public(sk: &[u8]) -> [u8; 32] {
    base_mul(&expand_key(sk).0).encode()
}
/// fixed-base multiplication with a small window table (model-internal speedup)
pub fn base_mul(k: &[u8]) -> Pt {
    static C: OnceLock<Vec<[Pt; 16]>> = OnceLock::new();
    let t = C.get_or_init(|| {
        let mut v = vec![];
        let mut b = base();
        for _ in 0..64 {
            let mut row = [Pt::ID; 16];
            for i in 1..16 {
                row[i] = row[i - 1].add(&b);
            }
            b = row[15].add(&b);
            v.push(row);
        }
        v
    });
    let mut r = Pt::ID;
    for (i, byte) in k.iter().enumerate() {
        r = r.add(&t[2 * i][(byte & 15) as usize]);
        r = r.add(&t[2 * i + 1][(byte >> 4) as usize]);
    }
    r
}
pub fn sign(sk: &[u8], m: &[u8]) -> [u8; 64] {
    let (a, prefix) = expand_key(sk);
    let pk = base_mul(&a).encode();
    let r = limbs_to_bytes(&mod_l(&digest_parts(Alg::S512, &[&prefix, m])));
    let rr = base_mul(&r).encode();
    let k = digest_parts(Alg::S512, &[&rr, &pk, m]);
    let s = muladd_l(&k, &a, &r);
    let mut o = [0u8; 64];
    o[..32].copy_from_slice(&rr);
    o[32..].copy_from_slice(&s);
    o
}
pub fn challenge(r: &[u8], pk: &[u8], m: &[u8]) -> [u8; 32] {
    limbs_to_bytes(&mod_l(&digest_parts(Alg::S512, &[r, pk, m])))
}
/// encode([S]B - [k]A)
pub fn rcheck(m: &[u8], r: &[u8], s: &[u8], pk: &[u8]) -> Option<[u8; 32]> {
    let a = decode(pk)?;
    let k = challenge(r, pk, m);
    Some(base_mul(s).add(&a.neg().mul(&k)).encode())
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Verdict {
    Valid,
    Invalid,
    /// the equation holds, but only under a non-canonical public key encoding: RFC 8032 strict
    /// decoding rejects it, ref10 accepts it; either answer is acceptable
    Either,
}
pub fn verify(m: &[u8], sig: &[u8], pk: &[u8]) -> Verdict {
    if sig.len() != 64 {
        return Verdict::Invalid;
    }
    if !lt(&bytes_to_limbs(&sig[32..]), &l()) {
        return Verdict::Invalid;
    }
    match rcheck(m, &sig[..32], &sig[32..], pk) {
        Some(r) if r == sig[..32] => {
            if is_canonical(pk) {
                Verdict::Valid
            } else {
                Verdict::Either
            }
        }
        _ => Verdict::Invalid,
    }
}
/// the 8 torsion points, as [i]T8 for a point T8 of order 8
pub fn torsion() -> Vec<Pt> {
    static C: OnceLock<Vec<Pt>> = OnceLock::new();
    C.get_or_init(|| {
        let lb = limbs_to_bytes(&l());
        let mut y = 2u64;
        loop {
            let mut b = F::small(y).to_bytes();
            b[31] &= 127;
            if let Some(p) = decode(&b) {
                let t = p.mul(&lb);
                if !t.mul(&[4]).eq(&Pt::ID) {
                    return (0..8u8).map(|i| t.mul(&[i])).collect();
                }
            }
            y += 1;
        }
    })
    .clone()
}
