//! FIPS 180-4. Constants are computed from the primes, not copied.
use std::sync::OnceLock;

fn primes(n: usize) -> Vec<u64> {
    let mut v = vec![];
    let mut c = 2u64;
    while v.len() < n {
        if v.iter().all(|p| c % p != 0) {
            v.push(c);
        }
        c += 1;
    }
    v
}

// little-endian u32 limb naturals, just enough for root extraction
fn mul(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut r = vec![0u32; a.len() + b.len()];
    for (i, &x) in a.iter().enumerate() {
        let mut c = 0u64;
        for (j, &y) in b.iter().enumerate() {
            let t = r[i + j] as u64 + x as u64 * y as u64 + c;
            r[i + j] = t as u32;
            c = t >> 32;
        }
        r[i + b.len()] = c as u32;
    }
    r
}
fn le(a: &[u32], b: &[u32]) -> bool {
    let n = a.len().max(b.len());
    for i in (0..n).rev() {
        let x = a.get(i).copied().unwrap_or(0);
        let y = b.get(i).copied().unwrap_or(0);
        if x != y {
            return x < y;
        }
    }
    true
}
fn limbs(x: u128) -> Vec<u32> {
    (0..4).map(|i| (x >> (32 * i)) as u32).collect()
}
/// floor(p^(1/k) * 2^64) mod 2^64
fn root_frac64(p: u64, k: u32) -> u64 {
    // find max y with y^k <= p * 2^(64k)
    let mut target = vec![0u32; (2 * k) as usize];
    target.push(p as u32);
    let mut y: u128 = 0;
    for bit in (0..72).rev() {
        let t = y | (1 << bit);
        let l = limbs(t);
        let mut pw = l.clone();
        for _ in 1..k {
            pw = mul(&pw, &l);
        }
        if le(&pw, &target) {
            y = t;
        }
    }
    y as u64
}

struct Consts {
    k512: [u64; 80],
    k256: [u32; 64],
    iv512: [u64; 8],
    iv384: [u64; 8],
    iv256: [u32; 8],
    iv224: [u32; 8],
}
fn consts() -> &'static Consts {
    static C: OnceLock<Consts> = OnceLock::new();
    C.get_or_init(|| {
        let p = primes(80);
        let mut c = Consts {
            k512: [0; 80],
            k256: [0; 64],
            iv512: [0; 8],
            iv384: [0; 8],
            iv256: [0; 8],
            iv224: [0; 8],
        };
        for i in 0..80 {
            c.k512[i] = root_frac64(p[i], 3);
        }
        for i in 0..64 {
            c.k256[i] = (c.k512[i] >> 32) as u32;
        }
        for i in 0..8 {
            c.iv512[i] = root_frac64(p[i], 2);
            c.iv384[i] = root_frac64(p[i + 8], 2);
            c.iv256[i] = (c.iv512[i] >> 32) as u32;
            c.iv224[i] = c.iv384[i] as u32;
        }
        c
    })
}

fn compress512(st: &mut [u64; 8], b: &[u8]) {
    let k = &consts().k512;
    let mut w = [0u64; 80];
    for i in 0..16 {
        w[i] = u64::from_be_bytes(b[8 * i..8 * i + 8].try_into().unwrap());
    }
    for t in 16..80 {
        let s0 = w[t - 15].rotate_right(1) ^ w[t - 15].rotate_right(8) ^ (w[t - 15] >> 7);
        let s1 = w[t - 2].rotate_right(19) ^ w[t - 2].rotate_right(61) ^ (w[t - 2] >> 6);
        w[t] = w[t - 16].wrapping_add(s0).wrapping_add(w[t - 7]).wrapping_add(s1);
    }
    let mut v = *st;
    for t in 0..80 {
        let s1 = v[4].rotate_right(14) ^ v[4].rotate_right(18) ^ v[4].rotate_right(41);
        let ch = v[6] ^ (v[4] & (v[5] ^ v[6]));
        let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(k[t]).wrapping_add(w[t]);
        let s0 = v[0].rotate_right(28) ^ v[0].rotate_right(34) ^ v[0].rotate_right(39);
        let maj = (v[0] & v[1]) | (v[2] & (v[0] | v[1]));
        let t2 = s0.wrapping_add(maj);
        v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
    }
    for i in 0..8 {
        st[i] = st[i].wrapping_add(v[i]);
    }
}
fn compress256(st: &mut [u32; 8], b: &[u8]) {
    let k = &consts().k256;
    let mut w = [0u32; 64];
    for i in 0..16 {
        w[i] = u32::from_be_bytes(b[4 * i..4 * i + 4].try_into().unwrap());
    }
    for t in 16..64 {
        let s0 = w[t - 15].rotate_right(7) ^ w[t - 15].rotate_right(18) ^ (w[t - 15] >> 3);
        let s1 = w[t - 2].rotate_right(17) ^ w[t - 2].rotate_right(19) ^ (w[t - 2] >> 10);
        w[t] = w[t - 16].wrapping_add(s0).wrapping_add(w[t - 7]).wrapping_add(s1);
    }
    let mut v = *st;
    for t in 0..64 {
        let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
        let ch = v[6] ^ (v[4] & (v[5] ^ v[6]));
        let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(k[t]).wrapping_add(w[t]);
        let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
        let maj = (v[0] & v[1]) | (v[2] & (v[0] | v[1]));
        let t2 = s0.wrapping_add(maj);
        v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
    }
    for i in 0..8 {
        st[i] = st[i].wrapping_add(v[i]);
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Alg {
    S224,
    S256,
    S384,
    S512,
}
pub const ALGS: [Alg; 4] = [Alg::S224, Alg::S256, Alg::S384, Alg::S512];

impl Alg {
    pub fn digest_size(self) -> usize {
        match self {
            Alg::S224 => 28,
            Alg::S256 => 32,
            Alg::S384 => 48,
            Alg::S512 => 64,
        }
    }
    pub fn block_size(self) -> usize {
        match self {
            Alg::S224 | Alg::S256 => 64,
            _ => 128,
        }
    }
    pub fn name(self) -> &'static str {
        match self {
            Alg::S224 => "sha224",
            Alg::S256 => "sha256",
            Alg::S384 => "sha384",
            Alg::S512 => "sha512",
        }
    }
}

/// One-shot digest of the concatenation of `parts`.
pub fn digest_parts(alg: Alg, parts: &[&[u8]]) -> Vec<u8> {
    digest_after(alg, 0, parts)
}
/// The same when `before` bytes (whole blocks) have gone by that left the chaining value at its start.
pub fn digest_after(alg: Alg, before: u128, parts: &[&[u8]]) -> Vec<u8> {
    let bs = alg.block_size();
    let total: u128 = before + parts.iter().map(|p| p.len() as u128).sum::<u128>();
    let mut st64 = if alg == Alg::S512 { consts().iv512 } else { consts().iv384 };
    let mut st32 = if alg == Alg::S256 { consts().iv256 } else { consts().iv224 };
    let mut comp = |b: &[u8]| {
        if bs == 128 {
            compress512(&mut st64, b)
        } else {
            compress256(&mut st32, b)
        }
    };
    let mut pend: Vec<u8> = Vec::with_capacity(2 * bs);
    for p in parts {
        let mut p: &[u8] = p;
        if !pend.is_empty() {
            let n = p.len().min(bs - pend.len());
            pend.extend_from_slice(&p[..n]);
            p = &p[n..];
            if pend.len() == bs {
                comp(&pend);
                pend.clear();
            }
        }
        while p.len() >= bs {
            comp(&p[..bs]);
            p = &p[bs..];
        }
        pend.extend_from_slice(p);
    }
    // padding: 1 bit, zeros, length in 1/8 of the block
    pend.push(0x80);
    while pend.len() % bs != bs - bs / 8 {
        pend.push(0);
    }
    let bits = (total * 8).to_be_bytes();
    pend.extend_from_slice(&bits[16 - bs / 8..]);
    for b in pend.chunks(bs) {
        comp(b);
    }
    let mut out = vec![];
    if bs == 128 {
        for x in st64 {
            out.extend_from_slice(&x.to_be_bytes());
        }
    } else {
        for x in st32 {
            out.extend_from_slice(&x.to_be_bytes());
        }
    }
    out.truncate(alg.digest_size());
    out
}
pub fn digest(alg: Alg, m: &[u8]) -> Vec<u8> {
    digest_parts(alg, &[m])
}
