//! The operations of the library without type parameters, so that all of its code is compiled, with
//! SanitizerCoverage callbacks, here or in its own crate and none of it in the program that searches.
use crypto_pure::aes::{Aes128, Aes192, Aes256, BlockCipher};
use crypto_pure::chacha20::Stream;
use crypto_pure::gcm::{AeadCipher, Gcm};
use crypto_pure::hmac::Hmac;
use crypto_pure::poly1305::ChaCha20Poly1305;
use crypto_pure::sha2::{HashFunction, Sha224, Sha256, Sha384, Sha512};
use crypto_pure::{curve25519, ed25519, hkdf, hmac, util};

/// Byte strings of one call, split where `cuts` say.
pub fn pieces<'a>(m: &'a [u8], cuts: &[usize], f: &mut dyn FnMut(&'a [u8])) {
    let mut rest = m;
    for c in cuts {
        let (a, b) = rest.split_at((*c).min(rest.len()));
        f(a);
        rest = b;
    }
    f(rest);
}

macro_rules! sha {
    ($i:expr, $f:ident, $($a:expr),*) => {
        match $i % 4 { 0 => $f::<Sha224>($($a),*), 1 => $f::<Sha256>($($a),*), 2 => $f::<Sha384>($($a),*), _ => $f::<Sha512>($($a),*) }
    };
}

#[inline(never)]
pub fn hash(which: usize, m: &[u8], cuts: &[usize], out: &mut [u8]) {
    fn go<H: HashFunction>(m: &[u8], cuts: &[usize], out: &mut [u8]) {
        let mut h = H::default();
        pieces(m, cuts, &mut |p| h.update(p));
        h.write_digest(&mut out[..H::DIGEST_SIZE]);
    }
    sha!(which, go, m, cuts, out)
}
#[inline(never)]
pub fn mac(which: usize, key: &[u8], m: &[u8], cuts: &[usize], out: &mut [u8]) {
    fn go<H: HashFunction>(key: &[u8], m: &[u8], cuts: &[usize], out: &mut [u8]) {
        let mut h = Hmac::<H>::new(key);
        pieces(m, cuts, &mut |p| h.update(p));
        out[..H::DIGEST_SIZE].copy_from_slice(&h.tag());
    }
    sha!(which, go, key, m, cuts, out)
}
#[inline(never)]
pub fn mac_verify(which: usize, key: &[u8], m: &[u8], tag: &[u8]) -> bool {
    fn go<H: HashFunction>(key: &[u8], m: &[u8], tag: &[u8]) -> bool {
        hmac::verify::<H>(key, m, tag)
    }
    sha!(which, go, key, m, tag)
}
#[inline(never)]
pub fn extract(which: usize, salt: &[u8], ikm: &[u8], prk: &mut [u8]) {
    fn go<H: HashFunction>(salt: &[u8], ikm: &[u8], prk: &mut [u8]) {
        hkdf::extract::<H>(salt, ikm, &mut prk[..H::DIGEST_SIZE])
    }
    sha!(which, go, salt, ikm, prk)
}
#[inline(never)]
pub fn expand(which: usize, prk: &[u8], info: &[u8], okm: &mut [u8]) {
    fn go<H: HashFunction>(prk: &[u8], info: &[u8], okm: &mut [u8]) {
        hkdf::expand::<H>(prk, info, okm)
    }
    sha!(which, go, prk, info, okm)
}
#[inline(never)]
pub fn aes(key: &[u8], block: &[u8; 16]) -> [u8; 16] {
    match key.len() {
        16 => Aes128::new(key).permute(block),
        24 => Aes192::new(key).permute(block),
        _ => Aes256::new(key).permute(block),
    }
}
/// A block cipher whose hash key and key stream are chosen by its key.
#[derive(Clone)]
pub struct Mock([u8; 32]);
impl BlockCipher for Mock {
    fn new(key: &[u8]) -> Self {
        Mock(key.try_into().unwrap())
    }
    fn permute(&self, b: &[u8; 16]) -> [u8; 16] {
        mock(&self.0, b)
    }
}
pub fn mock(key: &[u8], b: &[u8; 16]) -> [u8; 16] {
    core::array::from_fn(|i| if *b == [0; 16] { key[i] } else { key[16 + i] ^ b[i] })
}
/// 0 to 2: GCM with AES of that size; 3: ChaCha20-Poly1305; 4: GCM with the mock cipher
pub enum Aead {
    A(Gcm<Aes128>),
    B(Gcm<Aes192>),
    C(Gcm<Aes256>),
    P(ChaCha20Poly1305),
    M(Gcm<Mock>),
}
impl Aead {
    #[inline(never)]
    pub fn new(which: usize, key: &[u8]) -> Aead {
        match which {
            0 => Aead::A(AeadCipher::new(key)),
            1 => Aead::B(AeadCipher::new(key)),
            2 => Aead::C(AeadCipher::new(key)),
            3 => Aead::P(AeadCipher::new(key)),
            _ => Aead::M(AeadCipher::new(key)),
        }
    }
    #[inline(never)]
    pub fn seal(&self, m: &[u8], nonce: &[u8], data: &[u8], out: &mut [u8]) -> [u8; 16] {
        match self {
            Aead::A(c) => c.encrypt(m, nonce, data, out),
            Aead::B(c) => c.encrypt(m, nonce, data, out),
            Aead::C(c) => c.encrypt(m, nonce, data, out),
            Aead::P(c) => c.encrypt(m, nonce, data, out),
            Aead::M(c) => c.encrypt(m, nonce, data, out),
        }
    }
    #[inline(never)]
    pub fn open(&self, m: &[u8], nonce: &[u8], data: &[u8], tag: &[u8], out: &mut [u8]) -> bool {
        match self {
            Aead::A(c) => c.decrypt(m, nonce, data, tag, out),
            Aead::B(c) => c.decrypt(m, nonce, data, tag, out),
            Aead::C(c) => c.decrypt(m, nonce, data, tag, out),
            Aead::P(c) => c.decrypt(m, nonce, data, tag, out),
            Aead::M(c) => c.decrypt(m, nonce, data, tag, out),
        }
    }
}
/// A stream consumed as `steps` say: (way, bytes); `None` stands for a byte passed over.
#[inline(never)]
pub fn stream(key: &[u8], nonce: &[u8], steps: &[(u8, usize)], got: &mut Vec<Option<u8>>) {
    let mut s = Stream::new(key, nonce);
    let (input, mut out) = ([0x5a; 300], [0; 300]);
    for &(way, n) in steps {
        let n = n.min(300);
        match way % 4 {
            0 => s.encrypt(&input[..n], &mut out[..n]),
            1 => s.decrypt(&input[..n], &mut out[..n]),
            2 => {
                for o in &mut out[..n] {
                    *o = s.next().unwrap() ^ 0x5a;
                }
            }
            _ => {
                let last = s.nth(n).unwrap();
                got.extend((0..n).map(|_| None));
                got.push(Some(last));
                continue;
            }
        }
        got.extend(out[..n].iter().map(|b| Some(b ^ 0x5a)));
    }
}
#[inline(never)]
pub fn dh(pk: &[u8], sk: &[u8]) -> [u8; 32] {
    curve25519::dh(pk, sk)
}
#[inline(never)]
pub fn dh_public(sk: &[u8]) -> [u8; 32] {
    curve25519::gen_pk(sk)
}
#[inline(never)]
pub fn ed_public(sk: &[u8]) -> [u8; 32] {
    ed25519::gen_pk(sk)
}
#[inline(never)]
pub fn ed_sign(m: &[u8], sk: &[u8]) -> [u8; 64] {
    ed25519::sign(m, sk)
}
#[inline(never)]
pub fn ed_verify(m: &[u8], sig: &[u8], pk: &[u8]) -> bool {
    ed25519::verify(m, sig, pk)
}
#[inline(never)]
pub fn verify_16(x: &[u8; 16], y: &[u8]) -> bool {
    util::verify_16(x, y)
}
/// What the search must find by itself before it is believed: true for few inputs.
#[inline(never)]
pub fn riddle(m: &[u8]) -> bool {
    if m.len() != 67 || m[..4] != *b"x9Q!" {
        return false;
    }
    let w = u32::from_be_bytes([m[9], m[10], m[11], m[12]]);
    let v = u32::from_le_bytes([m[14], m[15], m[16], m[17]]);
    w.wrapping_add(v) == 0xdead_beef && m[20] == m[30] ^ 0x77 && m[40..].starts_with(b"an open sesame for 23B")
}
