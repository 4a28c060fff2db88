//! RFC 7748 X25519.
use crate::fp::*;

pub fn clamp(k: &[u8]) -> [u8; 32] {
    let mut e: [u8; 32] = k.try_into().unwrap();
    e[0] &= 248;
    e[31] = (e[31] & 127) | 64;
    e
}
/// ladder with an arbitrary (unclamped) 256-bit scalar on the u-line of curve and twist
pub fn ladder(k: &[u8; 32], u: F) -> F {
    let (mut x2, mut z2, mut x3, mut z3) = (F::ONE, F::ZERO, u, F::ONE);
    for t in (0..256).rev() {
        let b = (k[t / 8] >> (t % 8)) & 1 == 1;
        if b {
            std::mem::swap(&mut x2, &mut x3);
            std::mem::swap(&mut z2, &mut z3);
        }
        let a = x2.add(z2);
        let aa = a.sq();
        let bb_ = x2.sub(z2);
        let bb = bb_.sq();
        let e = aa.sub(bb);
        let c = x3.add(z3);
        let d = x3.sub(z3);
        let da = d.mul(a);
        let cb = c.mul(bb_);
        x3 = da.add(cb).sq();
        z3 = u.mul(da.sub(cb).sq());
        x2 = aa.mul(bb);
        z2 = e.mul(aa.add(F::small(121665).mul(e)));
        if b {
            std::mem::swap(&mut x2, &mut x3);
            std::mem::swap(&mut z2, &mut z3);
        }
    }
    x2.mul(z2.inv())
}
pub fn x25519(k: &[u8], u: &[u8]) -> [u8; 32] {
    ladder(&clamp(k), F::from_bytes(u)).to_bytes()
}
pub fn base(k: &[u8]) -> [u8; 32] {
    let mut u = [0u8; 32];
    u[0] = 9;
    x25519(k, &u)
}
/// Is u the coordinate of a point on the curve (true) or on its twist (false)?
pub fn on_curve(u: F) -> bool {
    // v^2 = u^3 + 486662 u^2 + u
    let v2 = u.sq().mul(u).add(F::small(486662).mul(u.sq())).add(u);
    v2.sqrt().is_some()
}
/// order of the prime subgroup of the twist: (2*(p+1) - 8L)/4
pub fn twist_l() -> [u64; 4] {
    // 2p+2-8L, divided by 4 = (p+1)/2 - 2L
    let mut h = [P[0] + 1, P[1], P[2], P[3]];
    // (p+1)/2
    for i in 0..4 {
        let hi = if i < 3 { h[i + 1] } else { 0 };
        h[i] = (h[i] >> 1) | (hi << 63);
    }
    let l2 = add_raw(&l(), &l()).0;
    sub_raw(&h, &l2).0
}
/// Finds a u with X25519(k, u) = target, if `target` lies in the prime-order subgroup of the curve
/// or of the twist.
pub fn preimage(k: &[u8], target: F) -> Option<[u8; 32]> {
    let m = if on_curve(target) { l() } else { twist_l() };
    if !ladder_is_infinity(&limbs_to_bytes(&m), target) {
        return None; // not in the prime-order subgroup
    }
    let kk = mod_bytes_by(&clamp(k), &m);
    let mut e = m;
    e[0] -= 2;
    let ki = powmod(&kk, &e, &m);
    let u = ladder(&limbs_to_bytes(&ki), target);
    Some(u.to_bytes())
}
fn ladder_is_infinity(k: &[u8; 32], u: F) -> bool {
    if u.is_zero() {
        return false;
    }
    // the ladder maps infinity to 0; a point of order dividing k other than (0,0) maps to z = 0.
    // u = 0 (order 2) also maps to 0, so require that [k]P = 0 and [k+1]P has coordinate u.
    if !ladder(k, u).is_zero() {
        return false;
    }
    let k1 = add_raw(&bytes_to_limbs(k), &[1, 0, 0, 0]).0;
    ladder(&limbs_to_bytes(&k1), u) == u
}
