//! A deterministic transcript of the library's results: every case derives its inputs from
//! (family, index) alone and folds everything the operations return into a 128-bit fingerprint.
//! Uses nothing but `core`, so that the same cases run in every build and on every target.
#![no_std]
use crypto_pure::aes::{Aes128, Aes192, Aes256, BlockCipher};
use crypto_pure::chacha20::Stream;
use crypto_pure::gcm::{AeadCipher, Gcm};
use crypto_pure::poly1305::ChaCha20Poly1305;
use crypto_pure::sha2::{self, HashFunction, Sha224, Sha256, Sha384, Sha512};
use crypto_pure::{curve25519, ed25519, hkdf, hmac, util};

fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

/// Fingerprint of the results so far.
pub struct Sink {
    a: u64,
    b: u64,
    pub results: u64,
}
impl Sink {
    fn new() -> Sink {
        Sink { a: 0x243f6a8885a308d3, b: 0x13198a2e03707344, results: 0 }
    }
    pub fn put(&mut self, d: &[u8]) {
        self.results += 1;
        self.word(d.len() as u64);
        for c in d.chunks(8) {
            let mut x = 0u64;
            for (i, &b) in c.iter().enumerate() {
                x |= (b as u64) << (8 * i);
            }
            self.word(x);
        }
    }
    fn word(&mut self, x: u64) {
        self.a = mix(self.a ^ x).wrapping_add(0x9e3779b97f4a7c15);
        self.b = (self.b.rotate_left(23) ^ x).wrapping_mul(0xff51afd7ed558ccd).wrapping_add(self.a);
    }
    pub fn flag(&mut self, b: bool) {
        self.put(&[b as u8 + 0x40]);
    }
    pub fn value(&self) -> [u64; 2] {
        [mix(self.a), mix(self.b ^ self.a.rotate_left(32))]
    }
}

pub struct Rng(u64, bool);
impl Rng {
    fn new(fam: usize, idx: u64) -> Rng {
        Rng(mix(mix(fam as u64 ^ 0x0123_4567_89ab) ^ idx.wrapping_mul(0x2545f4914f6cdd1d)), idx >= SMALL)
    }
    fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        mix(self.0)
    }
    fn below(&mut self, n: usize) -> usize {
        (((self.u64() >> 32) * n as u64) >> 32) as usize
    }
    fn fill(&mut self, b: &mut [u8]) {
        for x in b.iter_mut() {
            *x = (self.u64() >> 56) as u8;
        }
    }
    fn pattern(&mut self, b: &mut [u8]) {
        self.fill(b);
        if b.is_empty() {
            return;
        }
        let n = b.len();
        match self.below(8) {
            0 => b.fill(0),
            1 => b.fill(0xff),
            2 => {
                b.fill(0);
                let k = self.below(8 * n);
                b[k / 8] = 1 << (k % 8);
            }
            3 => {
                b.fill(0xff);
                let k = self.below(8 * n);
                b[k / 8] ^= 1 << (k % 8);
            }
            4 => {
                for x in b.iter_mut() {
                    *x = [0u8, 0xff, 0x80, 0x7f, 1, 0xfe][*x as usize % 6];
                }
            }
            5 => {
                let k = self.below(n);
                b[k..].fill(0xff);
            }
            _ => {}
        }
    }
    fn arr<const N: usize>(&mut self) -> [u8; N] {
        let mut a = [0; N];
        self.pattern(&mut a);
        a
    }
    fn len(&mut self, max: usize) -> usize {
        let l = match self.below(4) {
            0 => self.below(20),
            1 => 16 * self.below(20) + self.below(3),
            2 => 64 * (1 + self.below(6)) + self.below(3) - 1,
            _ => self.below(max + 1),
        };
        if self.1 && l > 34 {
            l % 35 % (max + 1)
        } else if l > max {
            max
        } else {
            l
        }
    }
}

/// A block cipher that costs almost nothing, for giant GCM inputs.
#[derive(Clone)]
pub struct Cheap([u8; 16]);
impl BlockCipher for Cheap {
    fn new(key: &[u8]) -> Self {
        let mut k = [0; 16];
        k.copy_from_slice(&key[..16]);
        Cheap(k)
    }
    fn permute(&self, b: &[u8; 16]) -> [u8; 16] {
        let mut o = [0; 16];
        for i in 0..16 {
            o[i] = b[i] ^ self.0[i];
        }
        o[0] = o[0].wrapping_add(o[15]).rotate_left(3);
        o
    }
}

const MAX: usize = 1024;
type Buf = [u8; MAX];

fn hash_history<H: HashFunction>(r: &mut Rng, msg: &[u8], s: &mut Sink) {
    let mut h = H::default();
    let mut p = 0;
    while p < msg.len() {
        let n = (1 + r.len(200)).min(msg.len() - p);
        if r.below(6) == 0 {
            h.update(&[]);
        }
        h.update(&msg[p..p + n]);
        p += n;
    }
    let mut d = [0; 64];
    h.write_digest(&mut d[..H::DIGEST_SIZE]);
    s.put(&d[..H::DIGEST_SIZE]);
}
fn hmac_case<H: HashFunction>(r: &mut Rng, key: &[u8], msg: &[u8], s: &mut Sink) {
    let mut m = hmac::Hmac::<H>::new(key);
    let cut = r.below(msg.len() + 1);
    m.update(&msg[..cut]);
    m.update(&msg[cut..]);
    let t = m.tag();
    s.put(&t);
    s.put(&hmac::Hmac::<H>::new(key).tag());
    s.flag(hmac::verify::<H>(key, msg, &t));
    let mut bad = [0u8; 70];
    bad[..t.len()].copy_from_slice(&t);
    s.flag(hmac::verify::<H>(key, msg, &bad[..t.len() - 1]));
    s.flag(hmac::verify::<H>(key, msg, &bad[..t.len() + 1]));
    let k = r.below(8 * t.len());
    bad[k / 8] ^= 1 << (k % 8);
    s.flag(hmac::verify::<H>(key, msg, &bad[..t.len()]));
}
fn hkdf_case<H: HashFunction>(r: &mut Rng, full: bool, s: &mut Sink) {
    let (mut salt, mut ikm, mut info) = ([0; 200], [0; 200], [0; 200]);
    let (ls, li, lf) = (r.len(199), r.len(199), r.len(199));
    r.pattern(&mut salt);
    r.pattern(&mut ikm);
    r.pattern(&mut info);
    let mut prk = [0; 64];
    hkdf::extract::<H>(&salt[..ls], &ikm[..li], &mut prk[..H::DIGEST_SIZE]);
    s.put(&prk);
    let mut okm = [0x5a; 255 * 64 + 8];
    let max = 255 * H::DIGEST_SIZE;
    let n = if full { max - r.below(2) * r.below(H::DIGEST_SIZE) } else { r.len(300) };
    hkdf::expand::<H>(&prk[..H::DIGEST_SIZE], &info[..lf], &mut okm[..n]);
    s.put(&okm[..n]);
    s.put(&okm[n..n + 8]);
}
fn aead_case<C: AeadCipher>(key: &[u8], r: &mut Rng, s: &mut Sink, la: usize, lm: usize) {
    let (mut aad, mut msg): (Buf, Buf) = ([0; MAX], [0; MAX]);
    let nonce: [u8; 12] = r.arr();
    r.pattern(&mut aad[..la]);
    r.pattern(&mut msg[..lm]);
    let c = C::new(key);
    let mut out = [0xc3; MAX + 8];
    let tag = c.encrypt(&msg[..lm], &nonce, &aad[..la], &mut out[..lm]);
    s.put(&tag);
    s.put(&out[..lm + 8]);
    let mut back = [0x3c; MAX + 8];
    s.flag(c.decrypt(&out[..lm], &nonce, &aad[..la], &tag, &mut back[..lm]));
    s.put(&back[..lm + 8]);
    // rejected variants
    let mut bad = tag;
    let k = r.below(128);
    bad[k / 8] ^= 1 << (k % 8);
    back.fill(0x11);
    s.flag(c.decrypt(&out[..lm], &nonce, &aad[..la], &bad, &mut back[..lm]));
    s.flag(c.decrypt(&out[..lm], &nonce, &aad[..la], &tag[..15], &mut back[..lm]));
    s.flag(c.decrypt(&out[..lm], &nonce, &aad[..la], &[], &mut back[..lm]));
    if lm > 0 {
        let k = r.below(8 * lm);
        out[k / 8] ^= 1 << (k % 8);
        s.flag(c.decrypt(&out[..lm], &nonce, &aad[..la], &tag, &mut back[..lm]));
        out[k / 8] ^= 1 << (k % 8);
        s.flag(c.decrypt(&out[..lm - 1], &nonce, &aad[..la], &tag, &mut back[..lm - 1]));
    }
    if la > 0 {
        let k = r.below(8 * la);
        aad[k / 8] ^= 1 << (k % 8);
        s.flag(c.decrypt(&out[..lm], &nonce, &aad[..la], &tag, &mut back[..lm]));
    }
    s.put(&back[..lm]);
}
fn stream_case(r: &mut Rng, s: &mut Sink, ops: usize, big: usize) {
    let key: [u8; 32] = r.arr();
    let nonce: [u8; 12] = r.arr();
    let mut st = Stream::new(&key, &nonce);
    let (mut a, mut b) = ([0u8; 400], [0u8; 400]);
    for _ in 0..ops {
        match r.below(6) {
            0 => s.put(&[st.next().unwrap_or(0xee)]),
            1 => {
                let n = r.len(200);
                s.put(&[st.nth(n).unwrap_or(0xee)]);
            }
            2 => {
                let n = r.len(200);
                for x in st.by_ref().take(n) {
                    s.put(&[x]);
                }
            }
            3 => {
                let n = r.len(400);
                r.pattern(&mut a[..n]);
                st.encrypt(&a[..n], &mut b[..n]);
                s.put(&b[..n]);
            }
            4 => {
                let n = r.len(400);
                r.pattern(&mut a[..n]);
                st.decrypt(&a[..n], &mut b[..n]);
                s.put(&b[..n]);
            }
            _ => {
                let n = r.below(big);
                s.put(&[st.nth(n).unwrap_or(0xee)]);
            }
        }
    }
}
/// Edge points of Curve25519 (little-endian): the low-order ones and neighbours of p.
pub fn edge_u(k: usize, r: &mut Rng) -> [u8; 32] {
    let mut p = [0xff; 32];
    p[31] = 0x7f;
    match k % 12 {
        0 => {
            p = [0; 32];
            p[0] = r.below(20) as u8;
        }
        1 | 2 => {
            // p - 19 .. p + 18 and beyond, up to 2^255 - 1
            p[0] = 0xda + r.below(38) as u8;
        }
        3 => {
            p = [
                0xe0, 0xeb, 0x7a, 0x7c, 0x3b, 0x41, 0xb8, 0xae, 0x16, 0x56, 0xe3, 0xfa, 0xf1, 0x9f, 0xc4, 0x6a, 0xda, 0x09, 0x8d, 0xeb, 0x9c, 0x32, 0xb1, 0xfd, 0x86,
                0x62, 0x05, 0x16, 0x5f, 0x49, 0xb8, 0x00,
            ]
        }
        4 => {
            p = [
                0x5f, 0x9c, 0x95, 0xbc, 0xa3, 0x50, 0x8c, 0x24, 0xb1, 0xd0, 0xb1, 0x55, 0x9c, 0x83, 0xef, 0x5b, 0x04, 0x44, 0x5c, 0xc4, 0x58, 0x1c, 0x8e, 0x86, 0xd8,
                0x22, 0x4e, 0xdd, 0xd0, 0x9f, 0x11, 0x57,
            ]
        }
        5 => {
            // 2^k +- 1
            let k = r.below(255);
            p = [0; 32];
            p[k / 8] = 1 << (k % 8);
            p[0] ^= r.below(2) as u8;
        }
        _ => r.pattern(&mut p),
    }
    if r.below(3) == 0 {
        p[31] |= 0x80;
    }
    p
}

/// Cases from this index on use short inputs only (for interpreters).
pub const SMALL: u64 = 1 << 32;

/// name, cases of the quick run, whether the family is too heavy for interpreters
pub const FAMILIES: &[(&str, u64, bool)] = &[
    ("sha2-histories", 3000, false),
    ("sha2-lengths", 1024, false),
    ("hmac", 1600, false),
    ("hkdf", 1200, false),
    ("aes", 4000, false),
    ("aes-gcm", 1600, false),
    ("chacha20-stream", 1200, false),
    ("chacha20-poly1305", 1600, false),
    ("x25519", 600, false),
    ("ed25519-sign", 400, false),
    ("ed25519-verify", 600, false),
    ("compare", 4000, false),
    ("hkdf-longest", 48, true),
    ("long-messages", 24, true),
    ("generic-gcm", 1200, false),
    ("giant", 0, true),
    ("sizes", 256, true),
];

/// Runs one case and returns the fingerprint of its results and their number.
pub fn case(fam: usize, idx: u64) -> ([u64; 2], u64) {
    let mut s = Sink::new();
    let r = &mut Rng::new(fam, idx);
    match fam {
        0 => {
            let mut m: Buf = [0; MAX];
            let n = r.len(MAX);
            r.pattern(&mut m[..n]);
            match idx % 4 {
                0 => hash_history::<Sha224>(r, &m[..n], &mut s),
                1 => hash_history::<Sha256>(r, &m[..n], &mut s),
                2 => hash_history::<Sha384>(r, &m[..n], &mut s),
                _ => hash_history::<Sha512>(r, &m[..n], &mut s),
            }
        }
        1 => {
            let mut m: Buf = [0; MAX];
            let n = ((idx % SMALL) / 4) as usize % MAX;
            r.fill(&mut m[..n]);
            match idx % 4 {
                0 => s.put(&sha2::sha224(&m[..n])),
                1 => s.put(&sha2::sha256(&m[..n])),
                2 => s.put(&sha2::sha384(&m[..n])),
                _ => s.put(&sha2::sha512(&m[..n])),
            }
        }
        2 => {
            let (mut k, mut m) = ([0; 300], [0; 300]);
            let (lk, lm) = (r.len(300), r.len(300));
            r.pattern(&mut k[..lk]);
            r.pattern(&mut m[..lm]);
            let (k, m) = (&k[..lk], &m[..lm]);
            match idx % 4 {
                0 => {
                    hmac_case::<Sha224>(r, k, m, &mut s);
                    s.put(&hmac::hmac_sha224(k, m))
                }
                1 => {
                    hmac_case::<Sha256>(r, k, m, &mut s);
                    s.put(&hmac::hmac_sha256(k, m))
                }
                2 => {
                    hmac_case::<Sha384>(r, k, m, &mut s);
                    s.put(&hmac::hmac_sha384(k, m))
                }
                _ => {
                    hmac_case::<Sha512>(r, k, m, &mut s);
                    s.put(&hmac::hmac_sha512(k, m))
                }
            }
        }
        3 | 12 => match idx % 4 {
            0 => hkdf_case::<Sha224>(r, fam == 12, &mut s),
            1 => hkdf_case::<Sha256>(r, fam == 12, &mut s),
            2 => hkdf_case::<Sha384>(r, fam == 12, &mut s),
            _ => hkdf_case::<Sha512>(r, fam == 12, &mut s),
        },
        4 => {
            let key: [u8; 32] = r.arr();
            let b: [u8; 16] = r.arr();
            s.put(&Aes128::new(&key[..16]).permute(&b));
            s.put(&Aes192::new(&key[..24]).permute(&b));
            s.put(&Aes256::new(&key).permute(&b));
        }
        5 => {
            let key: [u8; 32] = r.arr();
            let (la, lm) = (r.len(300), r.len(600));
            match idx % 3 {
                0 => aead_case::<Gcm<Aes128>>(&key[..16], r, &mut s, la, lm),
                1 => aead_case::<Gcm<Aes192>>(&key[..24], r, &mut s, la, lm),
                _ => aead_case::<Gcm<Aes256>>(&key, r, &mut s, la, lm),
            }
        }
        6 => stream_case(r, &mut s, 12, if idx >= SMALL { 300 } else { 2000 }),
        7 => {
            let key: [u8; 32] = r.arr();
            let (la, lm) = (r.len(300), r.len(MAX));
            aead_case::<ChaCha20Poly1305>(&key, r, &mut s, la, lm);
        }
        8 => {
            let sk: [u8; 32] = r.arr();
            let u = edge_u(idx as usize, r);
            s.put(&curve25519::dh(&u, &sk));
            s.put(&curve25519::gen_pk(&sk));
        }
        9 => {
            let sk: [u8; 32] = r.arr();
            let mut m = [0; 300];
            let n = r.len(300);
            r.pattern(&mut m[..n]);
            s.put(&ed25519::gen_pk(&sk));
            s.put(&ed25519::sign(&m[..n], &sk));
        }
        10 => {
            let sk: [u8; 32] = r.arr();
            let mut m = [0; 100];
            let n = 1 + r.len(99);
            r.pattern(&mut m[..n]);
            let mut pk = ed25519::gen_pk(&sk);
            let mut sig = ed25519::sign(&m[..n], &sk);
            match r.below(8) {
                0 => {
                    let k = r.below(512);
                    sig[k / 8] ^= 1 << (k % 8);
                }
                1 => {
                    let k = r.below(256);
                    pk[k / 8] ^= 1 << (k % 8);
                }
                2 => pk = edge_u(r.below(12), r),
                3 => r.pattern(&mut sig[32..]),
                4 => r.pattern(&mut sig[..32]),
                5 => {
                    // identity key, R = [0]B: accepted for S = 0
                    pk = [0; 32];
                    pk[0] = 1;
                    sig = [0; 64];
                    sig[0] = 1;
                    sig[32] = r.below(2) as u8;
                }
                _ => {}
            }
            s.put(&pk);
            s.put(&sig);
            s.flag(ed25519::verify(&m[..n], &sig, &pk));
            s.flag(ed25519::verify(&m[..n - 1], &sig, &pk));
            s.flag(ed25519::verify(&m[..n], &sig[..r.below(64)], &pk));
        }
        11 => {
            let a: [u8; 16] = r.arr();
            let mut b = [0u8; 40];
            r.pattern(&mut b);
            b[..16].copy_from_slice(&a);
            let k = r.below(128);
            let n = r.below(40);
            s.flag(util::verify_16(&a, &b[..16]));
            s.flag(util::verify_16(&a, &b[..n]));
            b[k / 8] ^= 1 << (k % 8);
            s.flag(util::verify_16(&a, &b[..16]));
            s.flag(util::verify_16(&a, &b[..n]));
        }
        13 => long(idx, r, &mut s),
        14 => {
            let key: [u8; 16] = r.arr();
            let (la, lm) = (r.len(200), r.len(300));
            aead_case::<Gcm<Cheap>>(&key, r, &mut s, la, lm);
        }
        16 => sizes(idx, r, &mut s),
        _ => {}
    }
    (s.value(), s.results)
}

/// Messages long enough for byte, 16-bit and block counters to carry.
fn long(idx: u64, r: &mut Rng, s: &mut Sink) {
    let key: [u8; 32] = r.arr();
    let nonce: [u8; 12] = r.arr();
    let blk: [u8; 512] = r.arr();
    match idx % 6 {
        0 => {
            let mut h = Sha256::default();
            for _ in 0..5000 {
                h.update(&blk[..511]);
            }
            let mut d = [0; 32];
            h.write_digest(&mut d);
            s.put(&d);
        }
        1 => {
            let mut h = Sha512::default();
            for _ in 0..5000 {
                h.update(&blk[..509]);
            }
            let mut d = [0; 64];
            h.write_digest(&mut d);
            s.put(&d);
        }
        2 => {
            const N: usize = 70_000;
            let mut m = [0u8; N];
            for (i, x) in m.iter_mut().enumerate() {
                *x = blk[i % 509];
            }
            let mut o = [0; N];
            let t = Gcm::<Aes128>::new(&key[..16]).encrypt(&m, &nonce, &blk[..499], &mut o);
            s.put(&t);
            s.put(&o);
            s.flag(Gcm::<Aes128>::new(&key[..16]).decrypt(&o, &nonce, &blk[..499], &t, &mut m));
        }
        3 => {
            const N: usize = 70_000;
            let mut m = [0u8; N];
            for (i, x) in m.iter_mut().enumerate() {
                *x = blk[i % 509];
            }
            let mut o = [0; N];
            let c = ChaCha20Poly1305::new(&key);
            let t = c.encrypt(&m, &nonce, &blk[..499], &mut o);
            s.put(&t);
            s.put(&o);
            s.flag(c.decrypt(&o, &nonce, &blk[..499], &t, &mut m));
        }
        4 => {
            let mut st = Stream::new(&key, &nonce);
            for _ in 0..40 {
                s.put(&[st.nth(4095 + 64 * 33).unwrap_or(0)]);
            }
        }
        _ => {
            // chained Diffie-Hellman
            let mut u = curve25519::gen_pk(&key);
            for _ in 0..20 {
                u = curve25519::dh(&u, &key);
            }
            s.put(&u);
        }
    }
}

const BIG: usize = (1 << 17) + 256;
/// A length near a power of two up to 2^17, or anything up to one.
fn size(r: &mut Rng) -> usize {
    let p = 1usize << (9 + r.below(9));
    match r.below(3) {
        0 => r.below(p),
        1 => p - 1 - r.below(20),
        _ => p + r.below(140),
    }
}
fn sized_aead<C: AeadCipher>(key: &[u8], r: &mut Rng, s: &mut Sink, m: &mut [u8; BIG], n: usize) {
    let mut o = [0x77; BIG];
    let nonce: [u8; 12] = r.arr();
    let c = C::new(key);
    let (la, lm) = match r.below(3) {
        0 => (n, r.below(100)),
        1 => (r.below(100), n),
        _ => (n / 2, n),
    };
    let t = c.encrypt(&m[..lm], &nonce, &m[..la], &mut o[..lm]);
    s.put(&t);
    s.put(&o[..lm]);
    let mut back = [0x55; BIG];
    s.flag(c.decrypt(&o[..lm], &nonce, &m[..la], &t, &mut back[..lm]));
    s.put(&back[..lm]);
    if lm > 0 {
        let k = r.below(lm);
        o[k] ^= 1 << r.below(8);
        s.flag(c.decrypt(&o[..lm], &nonce, &m[..la], &t, &mut back[..lm]));
    }
}
fn sized_hash<H: HashFunction>(r: &mut Rng, s: &mut Sink, m: &[u8]) {
    let mut h = H::default();
    let cut = r.below(m.len() + 1);
    h.update(&m[..cut]);
    h.update(&m[cut..]);
    let mut d = [0; 64];
    h.write_digest(&mut d[..H::DIGEST_SIZE]);
    s.put(&d);
}
/// Every operation with one long input.
fn sizes(idx: u64, r: &mut Rng, s: &mut Sink) {
    let key: [u8; 32] = r.arr();
    let mut m = [0u8; BIG];
    let n = size(r);
    r.fill(&mut m[..n]);
    match idx % 16 {
        0 => sized_hash::<Sha224>(r, s, &m[..n]),
        1 => sized_hash::<Sha256>(r, s, &m[..n]),
        2 => sized_hash::<Sha384>(r, s, &m[..n]),
        3 => sized_hash::<Sha512>(r, s, &m[..n]),
        4 => hmac_case::<Sha256>(r, &key, &m[..n], s),
        5 => hmac_case::<Sha512>(r, &m[..n], &key, s),
        6 | 7 => {
            let mut prk = [0; 64];
            let mut okm = [0x5a; 200];
            let (a, b) = if idx % 16 == 6 { (n, r.below(100)) } else { (r.below(100), n) };
            hkdf::extract::<Sha256>(&m[..a], &m[..b], &mut prk[..32]);
            s.put(&prk);
            hkdf::expand::<Sha256>(&prk[..32], &m[..n], &mut okm[..199]);
            s.put(&okm);
        }
        8 => sized_aead::<Gcm<Aes128>>(&key[..16], r, s, &mut m, n),
        9 => sized_aead::<Gcm<Aes256>>(&key, r, s, &mut m, n),
        10 => sized_aead::<Gcm<Cheap>>(&key, r, s, &mut m, n),
        11 | 12 => sized_aead::<ChaCha20Poly1305>(&key, r, s, &mut m, n),
        13 => {
            let nonce: [u8; 12] = r.arr();
            let mut o = [0x77; BIG];
            let mut st = Stream::new(&key, &nonce);
            let cut = r.below(n + 1);
            st.encrypt(&m[..cut], &mut o[..cut]);
            s.put(&[st.nth(r.below(70_000)).unwrap_or(0)]);
            st.encrypt(&m[cut..n], &mut o[cut..n]);
            s.put(&o[..n]);
        }
        14 => s.put(&ed25519::sign(&m[..n], &key)),
        _ => {
            let pk = ed25519::gen_pk(&key);
            let mut sig = ed25519::sign(&m[..n], &key);
            s.flag(ed25519::verify(&m[..n], &sig, &pk));
            let k = r.below(64);
            sig[k] ^= 1 << r.below(8);
            s.flag(ed25519::verify(&m[..n], &sig, &pk));
        }
    }
}

/// Inputs whose length in bits exceeds 32 bits, or in bytes nearly so.
pub const GIANT: &[(&str, bool)] = &[
    ("sha256 of 2^29+13 bytes", true),
    ("sha512 of 2^29+13 bytes", true),
    ("GCM with 2^29+5 bytes of data", true),
    ("GCM with a message of 2^29+5 bytes", true),
    ("ChaCha20-Poly1305 with 2^29+5 bytes of data", true),
    ("sha224 of 2^32+77 bytes", true),
    ("ChaCha20 stream beyond 2^32 bytes", true),
    ("sha384 of 2^32+77 bytes", false),
    ("ChaCha20-Poly1305 with a message of 2^29+5 bytes", false),
    ("HMAC-SHA-256 of 2^29+13 bytes", false),
];
fn giant_hash<H: HashFunction>(total: u64, s: &mut Sink) {
    let z = [0u8; 65536];
    let mut h = H::default();
    let mut left = total;
    while left > 0 {
        let n = left.min(65536) as usize;
        h.update(&z[..n]);
        left -= n as u64;
    }
    let mut d = [0; 64];
    h.write_digest(&mut d[..H::DIGEST_SIZE]);
    s.put(&d);
}
/// `zeros` holds at least 2^29+5 zero bytes; `out` as many writable ones (only for messages).
pub fn giant(idx: usize, zeros: &[u8], out: &mut [u8]) -> ([u64; 2], u64) {
    let mut s = Sink::new();
    const N: usize = (1 << 29) + 5;
    let key = [0x42; 32];
    let nonce = [7; 12];
    match idx {
        0 => giant_hash::<Sha256>((1 << 29) + 13, &mut s),
        1 => giant_hash::<Sha512>((1 << 29) + 13, &mut s),
        2 => s.put(&Gcm::<Cheap>::new(&key).encrypt(&[], &nonce, &zeros[..N], &mut [])),
        3 => {
            s.put(&Gcm::<Cheap>::new(&key).encrypt(&zeros[..N], &nonce, &[1], &mut out[..N]));
            s.put(&out[N - 100..N]);
        }
        4 => s.put(&ChaCha20Poly1305::new(&key).encrypt(&[], &nonce, &zeros[..N], &mut [])),
        5 => giant_hash::<Sha224>((1 << 32) + 77, &mut s),
        6 => {
            let mut st = Stream::new(&key, &nonce);
            for _ in 0..9 {
                s.put(&[st.nth((1 << 29) - 1).unwrap_or(0)]);
            }
            s.put(&[st.next().unwrap_or(0)]);
        }
        7 => giant_hash::<Sha384>((1 << 32) + 77, &mut s),
        8 => {
            s.put(&ChaCha20Poly1305::new(&key).encrypt(&zeros[..N], &nonce, &[1], &mut out[..N]));
            s.put(&out[N - 100..N]);
        }
        _ => {
            let mut h = hmac::Hmac::<Sha256>::new(&key);
            let z = [0u8; 65536];
            for _ in 0..8192 {
                h.update(&z);
            }
            h.update(&z[..13]);
            s.put(&h.tag());
        }
    }
    (s.value(), s.results)
}
