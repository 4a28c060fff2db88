//! Uniform access to the library under test and to the model.
use crate::fw::Rng;
use crate::mocks::*;
use crypto_pure::aes::{Aes128, Aes192, Aes256, BlockCipher};
use crypto_pure::gcm::{AeadCipher, Gcm};
use crypto_pure::hkdf;
use crypto_pure::hmac::{self, Hmac};
use crypto_pure::poly1305::ChaCha20Poly1305;
use crypto_pure::sha2::{self, HashFunction, Sha224, Sha256, Sha384, Sha512};
use refmodel::mac;
use refmodel::sha2::Alg;

/// A hash function under test together with its model.
pub trait HashId: Sync {
    type H: HashFunction;
    type M: mac::Hash + Sync;
    const NAME: &'static str;
    fn model() -> Self::M;
    fn oneshot(m: &[u8]) -> Option<Vec<u8>> {
        let _ = m;
        None
    }
    fn hmac_oneshot(k: &[u8], m: &[u8]) -> Option<Vec<u8>> {
        let _ = (k, m);
        None
    }
}
macro_rules! sha {
    ($t:ident, $h:ident, $alg:expr, $one:path, $hm:path) => {
        pub struct $t;
        impl HashId for $t {
            type H = $h;
            type M = Alg;
            const NAME: &'static str = stringify!($h);
            fn model() -> Alg {
                $alg
            }
            fn oneshot(m: &[u8]) -> Option<Vec<u8>> {
                Some($one(m).to_vec())
            }
            fn hmac_oneshot(k: &[u8], m: &[u8]) -> Option<Vec<u8>> {
                Some($hm(k, m).to_vec())
            }
        }
    };
}
sha!(I224, Sha224, Alg::S224, sha2::sha224, hmac::hmac_sha224);
sha!(I256, Sha256, Alg::S256, sha2::sha256, hmac::hmac_sha256);
sha!(I384, Sha384, Alg::S384, sha2::sha384, hmac::hmac_sha384);
sha!(I512, Sha512, Alg::S512, sha2::sha512, hmac::hmac_sha512);
pub struct IToy<const D: usize, const B: usize>;
impl<const D: usize, const B: usize> HashId for IToy<D, B> {
    type H = Toy<D, B>;
    type M = ToyRef;
    const NAME: &'static str = "toy";
    fn model() -> ToyRef {
        ToyRef(D, B)
    }
}
/// Runs a generic function for each of the four SHA-2 hashes, by index.
#[macro_export]
macro_rules! by_sha {
    ($i:expr, $f:ident, $($a:expr),*) => {
        match $i % 4 { 0 => $f::<I224>($($a),*), 1 => $f::<I256>($($a),*), 2 => $f::<I384>($($a),*), _ => $f::<I512>($($a),*) }
    };
}
/// The four hashes and nine mock hashes.
#[macro_export]
macro_rules! by_hash {
    ($i:expr, $f:ident, $($a:expr),*) => {
        match $i % 13 {
            0 => $f::<I224>($($a),*), 1 => $f::<I256>($($a),*), 2 => $f::<I384>($($a),*), 3 => $f::<I512>($($a),*),
            4 => $f::<IToy<1, 64>>($($a),*), 5 => $f::<IToy<20, 64>>($($a),*), 6 => $f::<IToy<64, 64>>($($a),*),
            7 => $f::<IToy<33, 72>>($($a),*), 8 => $f::<IToy<64, 128>>($($a),*), 9 => $f::<IToy<48, 104>>($($a),*),
            10 => $f::<IToy<7, 13>>($($a),*), 11 => $f::<IToy<31, 109>>($($a),*), _ => $f::<IToy<3, 3>>($($a),*),
        }
    };
}
pub const NHASH: u64 = 13;

pub fn digest<T: HashId>(parts: &[&[u8]]) -> Vec<u8> {
    let mut h = T::H::default();
    for p in parts {
        h.update(p);
    }
    let mut o = vec![0xa5; T::H::DIGEST_SIZE];
    h.write_digest(&mut o);
    o
}
pub fn mac_tag<T: HashId>(key: &[u8], parts: &[&[u8]]) -> Vec<u8> {
    let mut h = Hmac::<T::H>::new(key);
    for p in parts {
        h.update(p);
    }
    h.tag().to_vec()
}
pub fn expand<T: HashId>(prk: &[u8], info: &[u8], n: usize) -> Vec<u8> {
    let mut o = vec![0xa5; n];
    hkdf::expand::<T::H>(prk, info, &mut o);
    o
}

// ------------------------------------------------------------------ block ciphers
pub enum Blk {
    A128(Aes128),
    A192(Aes192),
    A256(Aes256),
}
impl Blk {
    pub fn new(key: &[u8]) -> Blk {
        match key.len() {
            16 => Blk::A128(Aes128::new(key)),
            24 => Blk::A192(Aes192::new(key)),
            _ => Blk::A256(Aes256::new(key)),
        }
    }
    pub fn permute(&self, b: &[u8; 16]) -> [u8; 16] {
        match self {
            Blk::A128(x) => x.permute(b),
            Blk::A192(x) => x.permute(b),
            Blk::A256(x) => x.permute(b),
        }
    }
}

// ------------------------------------------------------------------ AEADs
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    G128,
    G192,
    G256,
    CP,
    /// GCM over a mock block cipher (PRF of its key unless a mode is set)
    GMock,
}
pub const KINDS: [Kind; 5] = [Kind::G128, Kind::G192, Kind::G256, Kind::CP, Kind::GMock];
impl Kind {
    pub fn key_len(self) -> usize {
        match self {
            Kind::G128 | Kind::GMock => 16,
            Kind::G192 => 24,
            _ => 32,
        }
    }
}
pub enum Aead {
    G128(Gcm<Aes128>),
    G192(Gcm<Aes192>),
    G256(Gcm<Aes256>),
    CP(ChaCha20Poly1305),
    GMock(Gcm<Mock>),
}
impl Aead {
    pub fn new(k: Kind, key: &[u8]) -> Aead {
        match k {
            Kind::G128 => Aead::G128(AeadCipher::new(key)),
            Kind::G192 => Aead::G192(AeadCipher::new(key)),
            Kind::G256 => Aead::G256(AeadCipher::new(key)),
            Kind::CP => Aead::CP(AeadCipher::new(key)),
            Kind::GMock => Aead::GMock(AeadCipher::new(key)),
        }
    }
    pub fn encrypt(&self, input: &[u8], nonce: &[u8], data: &[u8], out: &mut [u8]) -> [u8; 16] {
        match self {
            Aead::G128(c) => c.encrypt(input, nonce, data, out),
            Aead::G192(c) => c.encrypt(input, nonce, data, out),
            Aead::G256(c) => c.encrypt(input, nonce, data, out),
            Aead::CP(c) => c.encrypt(input, nonce, data, out),
            Aead::GMock(c) => c.encrypt(input, nonce, data, out),
        }
    }
    pub fn decrypt(&self, input: &[u8], nonce: &[u8], data: &[u8], tag: &[u8], out: &mut [u8]) -> bool {
        match self {
            Aead::G128(c) => c.decrypt(input, nonce, data, tag, out),
            Aead::G192(c) => c.decrypt(input, nonce, data, tag, out),
            Aead::G256(c) => c.decrypt(input, nonce, data, tag, out),
            Aead::CP(c) => c.decrypt(input, nonce, data, tag, out),
            Aead::GMock(c) => c.decrypt(input, nonce, data, tag, out),
        }
    }
}
pub enum RefAead {
    Gcm(refmodel::aes::Aes),
    CP(Vec<u8>),
    Mock(Mode),
}
impl RefAead {
    pub fn new(k: Kind, key: &[u8]) -> RefAead {
        match k {
            Kind::CP => RefAead::CP(key.to_vec()),
            Kind::GMock => RefAead::Mock(MODE.with(|m| m.borrow().clone()).unwrap_or_else(|| Mode::Prf(crate::fw::hash_bytes(7, key)))),
            _ => RefAead::Gcm(refmodel::aes::Aes::new(key)),
        }
    }
    pub fn tag(&self, nonce: &[u8], aad: &[u8], ct: &[u8]) -> [u8; 16] {
        match self {
            RefAead::Gcm(a) => refmodel::gcm::tag(a, nonce, aad, ct),
            RefAead::CP(k) => refmodel::poly::tag(k, nonce, aad, ct),
            RefAead::Mock(m) => refmodel::gcm::tag(&|x: &[u8; 16]| mock_fn(m, x), nonce, aad, ct),
        }
    }
    pub fn crypt(&self, nonce: &[u8], data: &[u8]) -> Vec<u8> {
        match self {
            RefAead::Gcm(a) => refmodel::gcm::ctr(a, nonce, data),
            RefAead::CP(k) => refmodel::chacha::xor(k, nonce, 1, data),
            RefAead::Mock(m) => refmodel::gcm::ctr(&|x: &[u8; 16]| mock_fn(m, x), nonce, data),
        }
    }
    pub fn seal(&self, nonce: &[u8], aad: &[u8], pt: &[u8]) -> (Vec<u8>, [u8; 16]) {
        let c = self.crypt(nonce, pt);
        let t = self.tag(nonce, aad, &c);
        (c, t)
    }
}
/// splits `m` into random consecutive pieces (some empty)
pub fn pieces<'a>(r: &mut Rng, m: &'a [u8], max_pieces: usize) -> Vec<&'a [u8]> {
    let mut v = vec![];
    if m.is_empty() && r.chance(1, 2) {
        return v; // no update call at all
    }
    let mut rest = m;
    let k = r.below(max_pieces) + 1;
    for _ in 0..k {
        let n = match r.below(5) {
            0 => 0,
            1 => rest.len().min(1),
            2 => rest.len().min(*r.pick(&[55, 56, 63, 64, 65, 111, 112, 127, 128, 129])),
            _ => r.below(rest.len() + 1),
        };
        let (a, b) = rest.split_at(n);
        v.push(a);
        rest = b;
    }
    v.push(rest);
    if r.chance(1, 3) {
        v.push(&[]);
    }
    v
}
