//! C11 X25519, C12 Diffie-Hellman laws, C13 Ed25519 signing, C14 Ed25519 verification
use crate::check;
use crate::fw::*;
use crypto_pure::{curve25519, ed25519};
use refmodel::ed::{self, Pt, Verdict};
use refmodel::fp::{self, F};
use refmodel::x25519;

/// 32-byte field encodings with structure: limb edges, near 0, near p, non-canonical
pub fn field_bytes(r: &mut Rng) -> [u8; 32] {
    let mut b: [u8; 32] = r.arr();
    match r.below(12) {
        0 => b = r.pattern(32).try_into().unwrap(),
        1 => {
            // p + small, p - small (both signs of the top bit)
            let d = r.below(40) as u64;
            let v = if r.chance(1, 2) { fp::add_raw(&fp::P, &[d, 0, 0, 0]).0 } else { fp::sub_raw(&fp::P, &[d, 0, 0, 0]).0 };
            b = fp::limbs_to_bytes(&v);
        }
        2 => {
            b = [0; 32];
            b[0] = r.u8();
            b[1] = if r.chance(1, 2) { r.u8() } else { 0 };
        }
        3 | 4 | 5 | 6 => {
            // each 25/26-bit limb takes an extreme value
            let mut bits = [false; 256];
            let mut pos = 0;
            for i in 0..10 {
                let w = if i % 2 == 0 { 26 } else { 25 };
                let v: u64 = match r.below(7) {
                    0 => 0,
                    1 => (1 << w) - 1,
                    2 => 1 << (w - 1),
                    3 => (1 << (w - 1)) - 1,
                    4 => 1,
                    5 => (1 << (w - 1)) + 1,
                    _ => r.u64(),
                };
                for k in 0..w {
                    bits[pos + k] = v >> k & 1 == 1;
                }
                pos += w;
            }
            bits[255] = r.chance(1, 4);
            b = [0; 32];
            for (i, &x) in bits.iter().enumerate() {
                b[i / 8] |= (x as u8) << (i % 8);
            }
        }
        _ => {}
    }
    if r.chance(1, 4) {
        b[31] |= 0x80;
    }
    b
}
fn scalar_bytes(r: &mut Rng) -> [u8; 32] {
    r.pattern(32).try_into().unwrap()
}
/// encodings of the u-coordinates of small order, canonical and not
pub fn low_order_u() -> Vec<[u8; 32]> {
    let mut v: Vec<F> = vec![F::ZERO];
    for t in ed::torsion() {
        let e = t.encode();
        let mut yb = e;
        yb[31] &= 127;
        let y = F::from_bytes(&yb);
        let d = F::ONE.sub(y);
        if !d.is_zero() {
            v.push(F::ONE.add(y).mul(d.inv()));
        }
    }
    v.push(F::ONE.neg()); // order 4 on the twist
    let mut out = vec![];
    for f in v {
        for add_p in [false, true] {
            let (l, over) = if add_p { fp::add_raw(&f.0, &fp::P) } else { (f.0, false) };
            if over || l[3] >> 63 == 1 {
                continue;
            }
            for top in [0u8, 0x80] {
                let mut b = fp::limbs_to_bytes(&l);
                b[31] |= top;
                if !out.contains(&b) {
                    out.push(b);
                }
            }
        }
    }
    out
}

// ------------------------------------------------------------------ C11
fn dh_case(c: &mut Case, u: &[u8; 32], k: &[u8; 32]) -> Res {
    let got = curve25519::dh(u, k);
    let want = x25519::x25519(k, u);
    c.fp(u);
    c.fp(k);
    c.nontrivial();
    c.ev(1);
    c.note(|| format!("secret {} public {} shared {}", hx(k), hx(u), hx(&want)));
    diff(&format!("X25519 secret {} public {}", hx(k), hx(u)), &got, &want)
}
pub fn c11(x: &Ctx) {
    x.par("structured", x.n(12_000, 60), |c| {
        let (u, k) = (field_bytes(&mut c.rng), scalar_bytes(&mut c.rng));
        let on = x25519::on_curve(F::from_bytes(&u));
        dh_case(c, &u, &k)?;
        if c.idx < 2000 {
            x.count(if on { "public_keys_on_curve" } else { "public_keys_on_twist" }, 1);
        }
        Ok(())
    });
    x.par("public-keys", x.n(12_000, 60), |c| {
        let k = scalar_bytes(&mut c.rng);
        let got = curve25519::gen_pk(&k);
        c.fp(&k);
        c.nontrivial();
        c.ev(1);
        c.note(|| format!("secret {}", hx(&k)));
        diff(&format!("public key of {}", hx(&k)), &got, &x25519::base(&k))
    });
    x.par("around-p-and-zero", 2 * 64 * 4, |c| {
        let d = c.idx / 8 % 64;
        let mut b = match c.idx / 2 % 4 {
            0 => fp::limbs_to_bytes(&[d, 0, 0, 0]),
            1 => fp::limbs_to_bytes(&fp::sub_raw(&fp::P, &[d, 0, 0, 0]).0),
            2 => fp::limbs_to_bytes(&fp::add_raw(&fp::P, &[d % 19, 0, 0, 0]).0),
            _ => {
                let mut b = [0xff; 32];
                b[0] = 255 - d as u8;
                b
            }
        };
        b[31] = (b[31] & 127) | ((c.idx % 2) as u8) << 7;
        let k = c.rng.arr();
        dh_case(c, &b, &k)
    });
    let low = low_order_u();
    x.count("low_order_encodings", low.len() as u64);
    x.par("low-order", low.len() as u64 * 40, |c| {
        let u = low[(c.idx as usize) % low.len()];
        let k = scalar_bytes(&mut c.rng);
        dh_case(c, &u, &k)?;
        check!(curve25519::dh(&u, &k) == [0; 32], "low-order public key {} gives a nonzero result", hx(&u));
        Ok(())
    });
    x.par("single-bit-scalars", 2 * 256, |c| {
        let mut k = [0u8; 32];
        let b = (c.idx / 2) as usize;
        k[b / 8] |= 1 << (b % 8);
        if c.idx % 2 == 1 {
            k = k.map(|v| !v);
        }
        let u = c.rng.arr();
        dh_case(c, &u, &k)?;
        diff("public key", &curve25519::gen_pk(&k), &x25519::base(&k))
    });
    // results chosen first: edges of the field reached through inverted scalars
    x.par("targeted-results", x.n(4_000, 40), |c| {
        let t = match c.idx % 4 {
            0 => F::small(c.idx / 4),
            1 => F::small(c.idx / 4 + 1).neg(),
            _ => F::from_bytes(&field_bytes(&mut c.rng)),
        };
        let k = scalar_bytes(&mut c.rng);
        let Some(u) = x25519::preimage(&k, t) else { return Ok(()) };
        c.fp(&u);
        c.fp(&k);
        c.nontrivial();
        c.ev(1);
        c.note(|| format!("secret {} public {} must give {}", hx(&k), hx(&u), hx(&t.to_bytes())));
        diff(&format!("X25519 secret {} public {} (chosen result)", hx(&k), hx(&u)), &curve25519::dh(&u, &k), &t.to_bytes())
    });
    x.par("iterated", 16, |c| {
        // RFC 7748 iteration k, u = X25519(k, u), k
        let (mut k, mut u): ([u8; 32], [u8; 32]) = if c.idx == 0 { let mut n = [0; 32]; n[0] = 9; (n, n) } else { (c.rng.arr(), c.rng.arr()) };
        for _ in 0..x.n(200, 10) {
            let r = curve25519::dh(&u, &k);
            diff("iterated X25519", &r, &x25519::x25519(&k, &u))?;
            u = k;
            k = r;
        }
        c.fp(&k);
        c.ev(200);
        c.nontrivial();
        Ok(())
    });
    #[cfg(feature = "hooks")]
    fe_hook(x);
}
#[cfg(feature = "hooks")]
fn fe_hook(x: &Ctx) {
    use crypto_pure::verif::fe_op;
    x.par("field-operations", x.n(250_000, 60), |c| {
        let (a, b) = (field_bytes(&mut c.rng), field_bytes(&mut c.rng));
        let (fa, fb) = (F::from_bytes(&a), F::from_bytes(&b));
        let op = (c.idx % 12) as u8;
        let want = match op {
            0 => fa.mul(fb),
            1 => fa.sq(),
            2 => fa.add(fb),
            3 => fa.sub(fb),
            4 => fa.inv(),
            5 => {
                // a^(2^252 - 3)
                fa.pow(&[u64::MAX - 2, u64::MAX, u64::MAX, (1 << 60) - 1])
            }
            6 => fa.mul(F::small(121666)),
            7 => fa.sq().add(fa.sq()),
            8 => fa.neg(),
            9 => fa,
            10 => fa.add(fb).mul(fa.sub(fb)),
            _ => fa.add(fb).sq(),
        };
        c.fp(&a);
        c.fp(&b);
        c.fpn(op as u64);
        c.nontrivial();
        c.note(|| format!("field operation {op} on {} and {}", hx(&a), hx(&b)));
        c.ev(1);
        diff(&format!("field operation {op} (0 mul 1 sq 2 add 3 sub 4 inv 5 pow22523 6 *121666 7 2sq 8 neg 9 recode 10 (a+b)(a-b) 11 (a+b)^2) on {} and {}", hx(&a), hx(&b)), &fe_op(op, &a, &b), &want.to_bytes())
    });
    x.par("field-edge-results", x.n(60_000, 40), |c| {
        // operands chosen so that the result is an edge value: b = t / a, b = t - a, b = a - t
        let t = match c.rng.below(3) {
            0 => F::small(c.rng.below(64) as u64),
            1 => F::small(1 + c.rng.below(64) as u64).neg(),
            _ => F::from_bytes(&field_bytes(&mut c.rng)),
        };
        let a = field_bytes(&mut c.rng);
        let fa = F::from_bytes(&a);
        if fa.is_zero() {
            return Ok(());
        }
        let (op, b) = match c.idx % 3 {
            0 => (0, t.mul(fa.inv())),
            1 => (2, t.sub(fa)),
            _ => (3, fa.sub(t)),
        };
        c.fp(&a);
        c.fp(&b.to_bytes());
        c.nontrivial();
        c.ev(1);
        c.note(|| format!("operation {op}, result {}", hx(&t.to_bytes())));
        diff(&format!("field operation {op} on {} and {}", hx(&a), hx(&b.to_bytes())), &fe_op(op, &a, &b.to_bytes()), &t.to_bytes())
    });
}

// ------------------------------------------------------------------ C12
pub fn c12(x: &Ctx) {
    use curve25519::{dh, gen_pk};
    x.par("two-party", x.n(12_000, 60), |c| {
        let (a, b) = (scalar_bytes(&mut c.rng), scalar_bytes(&mut c.rng));
        let (pa, pb) = (gen_pk(&a), gen_pk(&b));
        let (s1, s2) = (dh(&pb, &a), dh(&pa, &b));
        c.fp(&a);
        c.fp(&b);
        c.nontrivial();
        c.ev(2);
        c.note(|| format!("secrets {} and {}: shared {}", hx(&a), hx(&b), hx(&s1)));
        diff(&format!("shared secret of {} and {}", hx(&a), hx(&b)), &s1, &s2)?;
        check!(s1 != [0; 32], "honest exchange between {} and {} gives zero", hx(&a), hx(&b));
        let mut nine = [0u8; 32];
        nine[0] = 9;
        diff("public key against the base point", &pa, &dh(&nine, &a))
    });
    x.par("chains", x.n(3_000, 60), |c| {
        let n = 3 + c.rng.below(3);
        let ks: Vec<[u8; 32]> = (0..n).map(|_| scalar_bytes(&mut c.rng)).collect();
        let start = field_bytes(&mut c.rng);
        let mut order: Vec<usize> = (0..n).collect();
        let go = |o: &[usize]| o.iter().fold(start, |u, &i| dh(&u, &ks[i]));
        let w = go(&order);
        c.fp(&start);
        c.nontrivial();
        c.note(|| format!("{n} parties from {}", hx(&start)));
        for _ in 0..3 {
            for i in (1..n).rev() {
                let j = c.rng.below(i + 1);
                order.swap(i, j);
            }
            c.ev(1);
            diff(&format!("order {order:?} of secrets {ks:x?} from {}", hx(&start)), &go(&order), &w)?;
        }
        Ok(())
    });
    x.par("clamped-bits", x.n(6_000, 40), |c| {
        let k = scalar_bytes(&mut c.rng);
        let mut k2 = k;
        let m = c.idx % 32;
        k2[0] ^= (m & 7) as u8;
        k2[31] ^= ((m >> 3) as u8) << 6;
        let u = field_bytes(&mut c.rng);
        c.fp(&k);
        c.fpn(m);
        c.nontrivial();
        c.ev(2);
        diff(&format!("secrets {} and {} (clamped bits differ)", hx(&k), hx(&k2)), &dh(&u, &k), &dh(&u, &k2))?;
        diff("their public keys", &gen_pk(&k), &gen_pk(&k2))
    });
    x.par("equivalent-public-keys", x.n(6_000, 40), |c| {
        let k = scalar_bytes(&mut c.rng);
        let u = field_bytes(&mut c.rng);
        let mut v = u;
        v[31] ^= 0x80;
        let w = dh(&u, &k);
        c.fp(&u);
        c.fp(&k);
        c.nontrivial();
        c.ev(2);
        diff(&format!("public keys {} and {} (top bit)", hx(&u), hx(&v)), &dh(&v, &k), &w)?;
        diff(&format!("public key {} and its reduced form", hx(&u)), &dh(&F::from_bytes(&u).to_bytes(), &k), &w)?;
        let s = F::small(c.rng.below(19) as u64);
        let nc = fp::limbs_to_bytes(&fp::add_raw(&s.0, &fp::P).0);
        diff(&format!("public keys {} and its canonical form", hx(&nc)), &dh(&nc, &k), &dh(&s.to_bytes(), &k))
    });
    x.par("scalar-arithmetic", x.n(2_000, 40), |c| {
        // [k1]([k2]P) = [k1*k2 mod L]P on the prime subgroup, with the product folded by the model
        let (k1, k2) = (x25519::clamp(&scalar_bytes(&mut c.rng)), x25519::clamp(&scalar_bytes(&mut c.rng)));
        let got = dh(&gen_pk(&k2), &k1);
        let prod = fp::muladd_l(&k1, &k2, &[0; 32]);
        let want = x25519::ladder(&prod, F::small(9)).to_bytes();
        c.fp(&k1);
        c.fp(&k2);
        c.nontrivial();
        c.ev(1);
        diff(&format!("composition of {} and {}", hx(&k1), hx(&k2)), &got, &want)
    });
    let low = low_order_u();
    x.par("low-order", low.len() as u64 * 20, |c| {
        let u = low[(c.idx as usize) % low.len()];
        let k = scalar_bytes(&mut c.rng);
        c.fp(&k);
        c.fp(&u);
        c.nontrivial();
        check!(dh(&u, &k) == [0; 32], "low-order point {} gives a nonzero secret under {}", hx(&u), hx(&k));
        Ok(())
    });
}

// ------------------------------------------------------------------ C13
fn table_digits(s: &[u8; 32], cov: &mut [bool; 256]) {
    // signed radix-16 digits select entry |d| of table row i/2
    let mut carry = 0i32;
    for i in 0..64 {
        let n = ((s[i / 2] >> (4 * (i % 2))) & 15) as i32 + carry;
        carry = if i < 63 { (n + 8) >> 4 } else { 0 };
        let d = (n - carry * 16).unsigned_abs() as usize;
        if (1..=8).contains(&d) {
            cov[(i / 2) * 8 + d - 1] = true;
        }
    }
}
pub fn c13(x: &Ctx) {
    let cov = std::sync::Mutex::new([false; 256]);
    let sign_case = |c: &mut Case, sk: &[u8; 32], m: &[u8]| -> Res {
        let want = ed::sign(sk, m);
        let got = ed25519::sign(m, sk);
        c.fp(sk);
        c.fp(m);
        c.nontrivial();
        c.ev(2);
        c.note(|| format!("secret key {} message {} signature {}", hx(sk), hx(m), hx(&want)));
        table_digits(&ed::expand_key(sk).0, &mut cov.lock().unwrap());
        diff(&format!("public key of {}", hx(sk)), &ed25519::gen_pk(sk), &ed::public(sk))?;
        diff(&format!("signature by {} of {}", hx(sk), hx(m)), &got, &want)
    };
    x.par("random", x.n(25_000, 60), |c| {
        let sk = scalar_bytes(&mut c.rng);
        let l = c.rng.len(500);
        let m = c.rng.pattern(l);
        sign_case(c, &sk, &m)
    });
    x.par("message-length-sweep", if x.thorough() { 3000 } else { 700 }, |c| {
        let sk = c.rng.arr();
        let m = c.rng.bytes(c.idx as usize);
        sign_case(c, &sk, &m)
    });
    x.par("long-messages", x.n(24, 10), |c| {
        let sk = c.rng.arr();
        let l = c.rng.range(10_000, 400_000);
        let m = c.rng.bytes(l);
        sign_case(c, &sk, &m)
    });
    crate::p_size::c13(x);
    x.par("single-bit-keys", 512, |c| {
        let mut k = [0u8; 32];
        let b = (c.idx / 2) as usize;
        k[b / 8] |= 1 << (b % 8);
        if c.idx % 2 == 1 {
            k = k.map(|v| !v);
        }
        sign_case(c, &k, b"bit")
    });
    x.count_max("fixed_base_table_entries_selected_of_256", cov.lock().unwrap().iter().filter(|b| **b).count() as u64);
    #[cfg(feature = "hooks")]
    sc_hook(x);
}
/// integers with structured 21-bit limbs, near multiples of L, near powers of two
#[cfg(feature = "hooks")]
fn scalar_wide(r: &mut Rng, n: usize) -> Vec<u8> {
    let mut v = r.bytes(n);
    match r.below(8) {
        0 => v = r.pattern(n),
        1 | 2 | 3 | 4 => {
            let mut bits = vec![false; 8 * n + 32];
            let mut pos = 0;
            while pos < 8 * n {
                let w = 21;
                let x: u32 = match r.below(7) {
                    0 => 0,
                    1 => (1 << w) - 1,
                    2 => 1 << (w - 1),
                    3 => (1 << (w - 1)) - 1,
                    4 => 1,
                    5 => (1 << (w - 1)) + 1,
                    _ => r.u32(),
                };
                for k in 0..w {
                    bits[pos + k] = x >> k & 1 == 1;
                }
                pos += w;
            }
            for (i, b) in v.iter_mut().enumerate() {
                *b = (0..8).fold(0, |a, k| a | (bits[8 * i + k] as u8) << k);
            }
        }
        5 | 6 => {
            // q*L + small or - small
            let q = if r.chance(1, 2) { vec![r.below(20) as u8] } else { r.bytes(n - 33) };
            let mut acc = vec![0u8; n + 34];
            let l = fp::limbs_to_bytes(&fp::l());
            for (i, &a) in q.iter().enumerate() {
                let mut c = 0u32;
                for j in 0..n - i {
                    let lb = if j < 32 { l[j] } else { 0 };
                    c += acc[i + j] as u32 + a as u32 * lb as u32;
                    acc[i + j] = c as u8;
                    c >>= 8;
                }
            }
            let small = r.below(4) as i32;
            let mut c = if r.chance(1, 2) { small } else { -small };
            for b in acc.iter_mut().take(n) {
                c += *b as i32;
                *b = c as u8;
                c >>= 8;
            }
            v = acc[..n].to_vec();
        }
        _ => {
            let k = r.below(8 * n);
            v.fill(0);
            v[k / 8] = 1 << (k % 8);
            if r.chance(1, 2) {
                for b in v.iter_mut() {
                    *b = !*b;
                }
            }
        }
    }
    v
}
#[cfg(feature = "hooks")]
fn sc_hook(x: &Ctx) {
    use crypto_pure::verif;
    x.par("scalar-reduction", x.n(300_000, 60), |c| {
        let v: [u8; 64] = scalar_wide(&mut c.rng, 64).try_into().unwrap();
        c.fp(&v);
        c.nontrivial();
        c.ev(1);
        c.note(|| format!("{} mod L", hx(&v)));
        diff(&format!("{} mod L", hx(&v)), &verif::sc_reduce(&v), &fp::limbs_to_bytes(&fp::mod_l(&v)))
    });
    x.par("scalar-multiply-add", x.n(200_000, 60), |c| {
        // h and r are reduced when signing; a is a clamped 255-bit integer
        let h = fp::limbs_to_bytes(&fp::mod_l(&scalar_wide(&mut c.rng, 64)));
        let r = fp::limbs_to_bytes(&fp::mod_l(&scalar_wide(&mut c.rng, 64)));
        let a = x25519::clamp(&scalar_wide(&mut c.rng, 64)[..32]);
        c.fp(&h);
        c.fp(&a);
        c.fp(&r);
        c.nontrivial();
        c.ev(1);
        c.note(|| format!("{} * {} + {} mod L", hx(&h), hx(&a), hx(&r)));
        diff(&format!("{} * {} + {} mod L", hx(&h), hx(&a), hx(&r)), &verif::sc_muladd(&h, &a, &r), &fp::muladd_l(&h, &a, &r))
    });
    x.par("multiply-add-edge-results", x.n(60_000, 40), |c| {
        // r chosen so that h*a + r is a chosen residue near 0 or L
        let h = fp::limbs_to_bytes(&fp::mod_l(&scalar_wide(&mut c.rng, 64)));
        let a = x25519::clamp(&scalar_wide(&mut c.rng, 64)[..32]);
        let l = fp::l();
        let d = [c.rng.below(8) as u64, 0, 0, 0];
        let t = match c.rng.below(3) {
            0 => d,
            1 => fp::sub_raw(&l, &[d[0] + 1, 0, 0, 0]).0,
            _ => fp::mod_l(&scalar_wide(&mut c.rng, 64)),
        };
        let ha = fp::bytes_to_limbs(&fp::muladd_l(&h, &a, &[0; 32]));
        let r = fp::addmod(&t, &fp::sub_raw(&l, &ha).0, &l);
        let r = fp::limbs_to_bytes(&r);
        c.fp(&h);
        c.fp(&a);
        c.nontrivial();
        c.ev(1);
        diff(&format!("{} * {} + {} mod L", hx(&h), hx(&a), hx(&r)), &verif::sc_muladd(&h, &a, &r), &fp::limbs_to_bytes(&t))
    });
    x.par("fixed-base", x.n(12_000, 60), |c| {
        let mut s: [u8; 32] = match c.rng.below(3) {
            0 => scalar_bytes(&mut c.rng),
            1 => {
                // every nibble an extreme signed digit
                std::array::from_fn(|_| *c.rng.pick(&[0x77u8, 0x88, 0x78, 0x87, 0xff, 0x00, 0xf0, 0x0f, 0x89, 0x98, 0x7f]))
            }
            _ => fp::limbs_to_bytes(&fp::mod_l(&scalar_wide(&mut c.rng, 64))),
        };
        // the library multiplies clamped and reduced scalars only
        if !fp::lt(&fp::bytes_to_limbs(&s), &fp::l()) {
            s = match c.rng.below(2) {
                0 => x25519::clamp(&s),
                _ => {
                    s[31] &= 15;
                    fp::limbs_to_bytes(&fp::mod_l(&s))
                }
            };
        }
        c.fp(&s);
        c.nontrivial();
        c.ev(1);
        c.note(|| format!("[{}]B", hx(&s)));
        diff(&format!("[{}]B", hx(&s)), &verif::scalarmult_base(&s), &ed::base_mul(&s).encode())
    });
    x.par("fixed-base-digits", 64 * 16, |c| {
        // one nibble alone (where that is a scalar the library can meet): every table row with every digit
        let mut s = [0u8; 32];
        let i = (c.idx / 16) as usize;
        s[i / 2] = ((c.idx % 16) as u8) << (4 * (i % 2));
        if !fp::lt(&fp::bytes_to_limbs(&s), &fp::l()) {
            s = x25519::clamp(&s);
        }
        c.fp(&s);
        c.nontrivial();
        c.ev(1);
        diff(&format!("[{}]B", hx(&s)), &verif::scalarmult_base(&s), &ed::base_mul(&s).encode())
    });
}

// ------------------------------------------------------------------ C14
fn verdict(c: &mut Case, m: &[u8], sig: &[u8], pk: &[u8], what: &str) -> Res {
    let want = ed::verify(m, sig, pk);
    let got = ed25519::verify(m, sig, pk);
    c.ev(1);
    match (want, got) {
        (Verdict::Either, _) | (Verdict::Valid, true) | (Verdict::Invalid, false) => Ok(()),
        _ => Err(format!("verify returned {got} but the signature is {want:?} ({what}): message {} signature {} public key {}", hx(m), hx(sig), hx(pk))),
    }
}
fn add_l(s: &[u8], k: u64) -> Option<[u8; 32]> {
    let mut v = fp::bytes_to_limbs(s);
    for _ in 0..k {
        let (n, over) = fp::add_raw(&v, &fp::l());
        if over {
            return None;
        }
        v = n;
    }
    Some(fp::limbs_to_bytes(&v))
}
pub fn c14(x: &Ctx) {
    x.par("honest", x.n(12_000, 60), |c| {
        let sk = scalar_bytes(&mut c.rng);
        let l = c.rng.len(400);
        let m = c.rng.pattern(l);
        let own = c.rng.chance(1, 2);
        let (pk, sig) = if own { (ed25519::gen_pk(&sk), ed25519::sign(&m, &sk)) } else { (ed::public(&sk), ed::sign(&sk, &m)) };
        c.fp(&sig);
        c.nontrivial();
        c.ev(1);
        c.note(|| format!("message {} signature {} public key {}: accepted", hx(&m), hx(&sig), hx(&pk)));
        check!(ed25519::verify(&m, &sig, &pk), "honest signature rejected: secret key {} message {} signature {}", hx(&sk), hx(&m), hx(&sig));
        Ok(())
    });
    crate::p_size::c14(x);
    x.par("tampered", x.n(60, 30), |c| {
        let sk: [u8; 32] = c.rng.arr();
        let l = 1 + c.rng.len(100);
        let m = c.rng.bytes(l);
        let (pk, sig) = (ed::public(&sk), ed::sign(&sk, &m));
        c.fp(&sig);
        c.nontrivial();
        c.note(|| format!("every bit of signature and key, 60 bits of the message, every length, S + kL, of {}", hx(&sig)));
        for b in 0..512 {
            let mut s = sig;
            s[b / 8] ^= 1 << (b % 8);
            // a changed R or S fails the equation, or the model says otherwise
            c.ev(1);
            check!(!ed25519::verify(&m, &s, &pk), "accepted with signature bit {b} flipped: message {} signature {} public key {}", hx(&m), hx(&s), hx(&pk));
        }
        for b in 0..256 {
            let mut p = pk;
            p[b / 8] ^= 1 << (b % 8);
            verdict(c, &m, &sig, &p, "public key bit flipped")?;
        }
        for _ in 0..60 {
            let mut m2 = m.clone();
            let b = c.rng.below(8 * l);
            m2[b / 8] ^= 1 << (b % 8);
            check!(!ed25519::verify(&m2, &sig, &pk), "accepted for a message with bit {b} flipped");
            c.ev(1);
        }
        for (m2, w) in [(m[..l - 1].to_vec(), "shortened"), ([&m[..], &[0]].concat(), "extended"), (vec![], "emptied")] {
            if m2 != m {
                check!(!ed25519::verify(&m2, &sig, &pk), "accepted for the {w} message");
            }
        }
        for n in 0..200 {
            if n != 64 {
                let mut s = sig.to_vec();
                s.resize(n, 0);
                check!(!ed25519::verify(&m, &s, &pk), "accepted a signature of {n} bytes");
                c.ev(1);
            }
        }
        for n in [64 + 256, 64 + 512, 64 + 65536] {
            let mut s = sig.to_vec();
            s.resize(n, 0);
            check!(!ed25519::verify(&m, &s, &pk), "accepted a signature of {n} bytes");
        }
        for k in 1..16 {
            let Some(s) = add_l(&sig[32..], k) else { break };
            let forged = [&sig[..32], &s].concat();
            c.ev(1);
            check!(!ed25519::verify(&m, &forged, &pk), "accepted a second signature for the same message (S + {k}L): message {} signature {} public key {}", hx(&m), hx(&forged), hx(&pk));
        }
        // R and S exchanged, S negated, all-zero parts
        let mut neg = sig;
        let ns = fp::limbs_to_bytes(&fp::sub_raw(&fp::l(), &fp::bytes_to_limbs(&sig[32..])).0);
        neg[32..].copy_from_slice(&ns);
        verdict(c, &m, &neg, &pk, "S negated")?;
        neg[31] ^= 0x80;
        verdict(c, &m, &neg, &pk, "R and S negated")?;
        let mut z = sig;
        z[..32].fill(0);
        verdict(c, &m, &z, &pk, "R zero")?;
        z = sig;
        z[32..].fill(0);
        verdict(c, &m, &z, &pk, "S zero")?;
        verdict(c, &m, &[&sig[32..], &sig[..32]].concat(), &pk, "halves exchanged")
    });
    x.par("scalar-range", x.n(3_000, 30), |c| {
        // the identity as public key makes every S self-consistent: R = [S]B is valid iff S < L
        let mut pk = [0u8; 32];
        pk[0] = 1;
        let l = fp::l();
        let s = match c.rng.below(6) {
            0 => fp::add_raw(&l, &[c.rng.below(5) as u64, 0, 0, 0]).0,
            1 => fp::sub_raw(&l, &[c.rng.below(5) as u64, 0, 0, 0]).0,
            2 => {
                let mut v = l;
                let i = c.rng.below(4);
                v[i] = v[i].wrapping_add(c.rng.u64() >> c.rng.below(64));
                v
            }
            3 => [c.rng.u64(), c.rng.u64(), c.rng.u64(), c.rng.u64() >> 3],
            4 => {
                let v: [u8; 32] = c.rng.pattern(32).try_into().unwrap();
                fp::bytes_to_limbs(&v)
            }
            _ => [c.rng.u64(), c.rng.u64(), c.rng.u64(), c.rng.u64() >> 4],
        };
        let sb = fp::limbs_to_bytes(&s);
        let r = ed::base_mul(&sb).encode();
        let sig = [r, sb].concat();
        let m = c.rng.bytes(5);
        c.fp(&sig);
        c.nontrivial();
        x.count(if fp::lt(&s, &l) { "scalars_below_L" } else { "scalars_at_or_above_L" }, 1);
        c.note(|| format!("identity key, S = {}", hx(&sb)));
        verdict(c, &m, &sig, &pk, "identity public key, R = [S]B")
    });
    #[cfg(feature = "hooks")]
    x.par("double-scalar", x.n(6_000, 60), |c| {
        let red = |r: &mut Rng| fp::limbs_to_bytes(&fp::mod_l(&scalar_wide(r, 64)));
        let (h, s) = (red(&mut c.rng), red(&mut c.rng));
        let a = match c.rng.below(4) {
            0 => ed::torsion()[c.rng.below(8)],
            1 => ed::base_mul(&c.rng.arr::<32>()).add(&ed::torsion()[c.rng.below(8)]),
            2 => ed::base(),
            _ => ed::base_mul(&c.rng.arr::<32>()),
        };
        let pk = a.encode();
        c.fp(&h);
        c.fp(&s);
        c.fp(&pk);
        c.nontrivial();
        c.ev(1);
        c.note(|| format!("[{}]B - [{}]{}", hx(&s), hx(&h), hx(&pk)));
        let want = ed::base_mul(&s).add(&a.neg().mul(&h)).encode();
        match crypto_pure::verif::double_scalarmult(&h, &pk, &s) {
            None => Err(format!("point {} not decoded", hx(&pk))),
            Some(got) => diff(&format!("[{}]B - [{}]{}", hx(&s), hx(&h), hx(&pk)), &got, &want),
        }
    });
    x.par("torsion-keys", x.n(4_000, 30), |c| {
        // public keys of small or mixed order; R possibly with torsion too
        let t = ed::torsion();
        let ti = c.rng.below(8);
        let a: [u8; 32] = if c.rng.chance(1, 3) { [0; 32] } else { c.rng.arr() };
        let apt = ed::base_mul(&a).add(&t[ti]);
        let pk = apt.encode();
        let r: [u8; 32] = fp::limbs_to_bytes(&fp::mod_l(&c.rng.bytes(64)));
        let rt = c.rng.below(8);
        let rr = ed::base_mul(&r).add(&t[if c.rng.chance(1, 2) { rt } else { 0 }]).encode();
        let l = c.rng.len(40);
        let mut m = c.rng.bytes(l);
        // look for a challenge that makes the torsion cancel, to get accepted cases as well
        let mut sig = vec![];
        let mut seen = 0;
        for _ in 0..24 {
            let k = ed::challenge(&rr, &pk, &m);
            let s = fp::muladd_l(&k, &a, &r);
            sig = [rr, s].concat();
            seen += 1;
            if ed::verify(&m, &sig, &pk) == Verdict::Valid {
                break;
            }
            m.push(seen);
        }
        c.fp(&sig);
        c.fp(&pk);
        c.nontrivial();
        let v = ed::verify(&m, &sig, &pk);
        x.count(if v == Verdict::Valid { "torsion_signatures_valid" } else { "torsion_signatures_invalid" }, 1);
        c.note(|| format!("A with torsion {ti}, {v:?}: message {} signature {} key {}", hx(&m), hx(&sig), hx(&pk)));
        verdict(c, &m, &sig, &pk, "public key with a torsion component")
    });
    x.par("odd-encodings", x.n(3_000, 30), |c| {
        // non-canonical y, sign bit on x = 0, off-curve keys; also as R
        let mut e = match c.rng.below(4) {
            0 => fp::limbs_to_bytes(&fp::add_raw(&fp::P, &[c.rng.below(19) as u64, 0, 0, 0]).0),
            1 => fp::limbs_to_bytes(&[c.rng.below(20) as u64, 0, 0, 0]),
            2 => fp::limbs_to_bytes(&fp::sub_raw(&fp::P, &[c.rng.below(20) as u64, 0, 0, 0]).0),
            _ => field_bytes(&mut c.rng),
        };
        if c.rng.chance(1, 2) {
            e[31] ^= 0x80;
        }
        let l = c.rng.len(30);
        let m = c.rng.bytes(l);
        // as public key, with the best signature one can make: S = r, R = [r]B - [k]A for guessed k
        let dec = ed::decode(&e);
        x.count(if dec.is_some() { "odd_keys_decodable" } else { "odd_keys_undecodable" }, 1);
        let r: [u8; 32] = fp::limbs_to_bytes(&fp::mod_l(&c.rng.bytes(64)));
        let rb = ed::base_mul(&r).encode();
        verdict(c, &m, &[rb, r].concat(), &e, "odd public key")?;
        if let Some(a) = dec {
            for kk in 0..8u8 {
                let rr = ed::base_mul(&r).add(&a.neg().mul(&[kk])).encode();
                verdict(c, &m, &[rr, r].concat(), &e, "odd public key, guessed challenge")?;
            }
        }
        // as R, with the identity or an honest key: only canonical bytes may pass
        let mut id = [0u8; 32];
        id[0] = 1;
        verdict(c, &m, &[e, [0; 32]].concat(), &id, "odd R, identity key")?;
        let sk: [u8; 32] = c.rng.arr();
        let pk = ed::public(&sk);
        let k = ed::challenge(&e, &pk, &m);
        let s = fp::muladd_l(&k, &ed::expand_key(&sk).0, &[0; 32]);
        verdict(c, &m, &[e, s].concat(), &pk, "odd R, honest key with r = 0")?;
        c.fp(&e);
        c.fp(&r);
        c.nontrivial();
        c.note(|| format!("encoding {} as key and as R", hx(&e)));
        Ok(())
    });
    x.par("edge-points", x.n(2_000, 30), |c| {
        // honest-looking keys whose y is a field edge: decompression of edge values
        let mut y = F::from_bytes(&field_bytes(&mut c.rng));
        let pt = loop {
            let mut b = y.to_bytes();
            b[31] |= (c.rng.u8() & 1) << 7;
            if let Some(p) = ed::decode(&b) {
                break p;
            }
            y = y.add(F::ONE);
        };
        let pk = pt.encode();
        // nobody knows the discrete log: accepted only with k = 0 mod order, so expect rejection,
        // and the model's word on the equation
        let s: [u8; 32] = fp::limbs_to_bytes(&fp::mod_l(&c.rng.bytes(64)));
        let m = c.rng.bytes(8);
        let mut r: [u8; 32] = c.rng.arr();
        // fixpoint attempt: R from a challenge over another R
        let k = ed::challenge(&r, &pk, &m);
        r = ed::base_mul(&s).add(&pt.neg().mul(&k)).encode();
        c.fp(&pk);
        c.fp(&s);
        c.nontrivial();
        #[cfg(feature = "hooks")]
        {
            let got = crypto_pure::verif::double_scalarmult(&k, &pk, &s);
            check!(got == Some(r), "[{}]B - [{}]{}: got {got:x?}", hx(&s), hx(&k), hx(&pk));
        }
        verdict(c, &m, &[r, s].concat(), &pk, "edge public key")
    });
    x.par("garbage", x.n(8_000, 30), |c| {
        let (pk, l) = (field_bytes(&mut c.rng), c.rng.len(100));
        let m = c.rng.pattern(l);
        let sig = [field_bytes(&mut c.rng), scalar_bytes(&mut c.rng)].concat();
        c.fp(&pk);
        c.fp(&sig);
        c.nontrivial();
        verdict(c, &m, &sig, &pk, "random strings")
    });
    let _ = Pt::ID;
}
