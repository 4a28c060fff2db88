//! RFC 8439 Poly1305 and the ChaCha20-Poly1305 construction. 64-bit limb arithmetic mod 2^130-5.
pub type N = [u64; 5]; // little-endian, < 2^320

fn add(a: &N, b: &N) -> N {
    let mut r = [0; 5];
    let mut c = 0u128;
    for i in 0..5 {
        c += a[i] as u128 + b[i] as u128;
        r[i] = c as u64;
        c >>= 64;
    }
    r
}
fn ge(a: &N, b: &N) -> bool {
    for i in (0..5).rev() {
        if a[i] != b[i] {
            return a[i] > b[i];
        }
    }
    true
}
fn sub(a: &N, b: &N) -> N {
    let mut r = [0; 5];
    let mut bw = 0i128;
    for i in 0..5 {
        let t = a[i] as i128 - b[i] as i128 + bw;
        r[i] = t as u64;
        bw = t >> 64;
    }
    r
}
pub const P: N = [u64::MAX - 4, u64::MAX, 3, 0, 0];

pub fn reduce(mut x: N) -> N {
    // x < 2^320: fold high part times 5 until < 2^131, then subtract
    while x[3] != 0 || x[4] != 0 || x[2] >= 8 {
        let hi = [
            (x[2] >> 2) | (x[3] << 62),
            (x[3] >> 2) | (x[4] << 62),
            x[4] >> 2,
            0,
            0,
        ];
        let lo = [x[0], x[1], x[2] & 3, 0, 0];
        let mut h5 = hi;
        for _ in 0..4 {
            h5 = add(&h5, &hi);
        }
        x = add(&lo, &h5);
    }
    while ge(&x, &P) {
        x = sub(&x, &P);
    }
    x
}
/// product of two values < 2^131
pub fn mulmod(a: &N, b: &N) -> N {
    let mut r = [0u64; 6];
    for i in 0..3 {
        let mut c = 0u128;
        for j in 0..3 {
            let t = r[i + j] as u128 + a[i] as u128 * b[j] as u128 + c;
            r[i + j] = t as u64;
            c = t >> 64;
        }
        r[i + 3] = c as u64;
    }
    assert_eq!(r[5], 0);
    reduce([r[0], r[1], r[2], r[3], r[4]])
}
pub fn addmod(a: &N, b: &N) -> N {
    reduce(add(a, b))
}
pub fn submod(a: &N, b: &N) -> N {
    reduce(sub(&add(&reduce(*a), &P), &reduce(*b)))
}
pub fn invmod(a: &N) -> N {
    // a^(p-2)
    let e = sub(&P, &[2, 0, 0, 0, 0]);
    let mut r: N = [1, 0, 0, 0, 0];
    for i in (0..131).rev() {
        r = mulmod(&r, &r);
        if (e[i / 64] >> (i % 64)) & 1 == 1 {
            r = mulmod(&r, a);
        }
    }
    r
}
pub fn from_le(b: &[u8]) -> N {
    let mut x = [0u64; 5];
    for (i, &v) in b.iter().enumerate() {
        x[i / 8] |= (v as u64) << (8 * (i % 8));
    }
    x
}
pub fn to_le16(x: &N) -> [u8; 16] {
    let mut o = [0; 16];
    o[..8].copy_from_slice(&x[0].to_le_bytes());
    o[8..].copy_from_slice(&x[1].to_le_bytes());
    o
}
pub fn clamp(r: &[u8]) -> N {
    let mut b: [u8; 16] = r.try_into().unwrap();
    for i in [3, 7, 11, 15] {
        b[i] &= 15;
    }
    for i in [4, 8, 12] {
        b[i] &= 252;
    }
    from_le(&b)
}
/// a 16-byte block with its 2^128 marker
pub fn blk(b: &[u8]) -> N {
    let mut x = [0u8; 17];
    x[..b.len()].copy_from_slice(b);
    x[b.len()] = 1;
    from_le(&x)
}
/// AEAD MAC input blocks are always padded to 16 bytes.
pub fn aead_mac(key: &[u8; 32], aad: &[u8], ct: &[u8]) -> [u8; 16] {
    let r = clamp(&key[..16]);
    let mut h: N = [0; 5];
    let mut step = |b: &[u8; 16]| {
        let mut m = from_le(b);
        m[2] = 1;
        h = mulmod(&add(&h, &m), &r);
    };
    for part in [aad, ct] {
        for c in part.chunks(16) {
            let mut b = [0u8; 16];
            b[..c.len()].copy_from_slice(c);
            step(&b);
        }
    }
    let mut lb = [0u8; 16];
    lb[..8].copy_from_slice(&(aad.len() as u64).to_le_bytes());
    lb[8..].copy_from_slice(&(ct.len() as u64).to_le_bytes());
    step(&lb);
    let s = from_le(&key[16..]);
    to_le16(&add(&reduce(h), &s))
}
pub fn poly_key(key: &[u8], nonce: &[u8]) -> [u8; 32] {
    crate::chacha::block(key, nonce, 0)[..32].try_into().unwrap()
}
pub fn tag(key: &[u8], nonce: &[u8], aad: &[u8], ct: &[u8]) -> [u8; 16] {
    aead_mac(&poly_key(key, nonce), aad, ct)
}
pub fn seal(key: &[u8], nonce: &[u8], aad: &[u8], pt: &[u8]) -> (Vec<u8>, [u8; 16]) {
    let ct = crate::chacha::xor(key, nonce, 1, pt);
    let t = tag(key, nonce, aad, &ct);
    (ct, t)
}

/// Searches for a 3-block AEAD ciphertext (48 bytes, empty AAD, `prefix` free choice in block 1)
/// whose accumulator before adding s is congruent to `target` mod p. Returns the ciphertext.
/// Solves h3 = target for block 2 given random block 1 (block 3 = free too), retrying until the
/// needed block has the 2^128 marker bit pattern.
pub fn craft(polykey: &[u8; 32], target: &N, mut rnd: impl FnMut() -> u64) -> Option<Vec<u8>> {
    let r = clamp(&polykey[..16]);
    if r == [0; 5] {
        return None;
    }
    let ri = invmod(&r);
    let mut lb = [0u8; 16];
    lb[8..].copy_from_slice(&32u64.to_le_bytes());
    let mut lenb = from_le(&lb);
    lenb[2] = 1;
    // ((b1*r + b2)*r + len)*r = target  =>  b2 = ((target/r - len)/r) - b1*r
    let need = mulmod(&submod(&mulmod(target, &ri), &lenb), &ri);
    for _ in 0..64 {
        let mut b1 = [0u8; 16];
        b1[..8].copy_from_slice(&rnd().to_le_bytes());
        b1[8..].copy_from_slice(&rnd().to_le_bytes());
        let mut n1 = from_le(&b1);
        n1[2] = 1;
        let b2 = submod(&need, &mulmod(&n1, &r));
        if b2[2] == 1 {
            let mut out = b1.to_vec();
            out.extend_from_slice(&to_le16(&b2));
            return Some(out);
        }
    }
    None
}
