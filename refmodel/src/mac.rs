//! RFC 2104 and RFC 5869 over an arbitrary hash.
pub trait Hash {
    fn digest_size(&self) -> usize;
    fn block_size(&self) -> usize;
    fn hash(&self, parts: &[&[u8]]) -> Vec<u8>;
}
impl Hash for crate::sha2::Alg {
    fn digest_size(&self) -> usize {
        crate::sha2::Alg::digest_size(*self)
    }
    fn block_size(&self) -> usize {
        crate::sha2::Alg::block_size(*self)
    }
    fn hash(&self, parts: &[&[u8]]) -> Vec<u8> {
        crate::sha2::digest_parts(*self, parts)
    }
}
pub fn hmac_parts<H: Hash>(h: &H, key: &[u8], parts: &[&[u8]]) -> Vec<u8> {
    let mut k0 = if key.len() > h.block_size() { h.hash(&[key]) } else { key.to_vec() };
    k0.resize(h.block_size(), 0);
    let ipad: Vec<u8> = k0.iter().map(|b| b ^ 0x36).collect();
    let opad: Vec<u8> = k0.iter().map(|b| b ^ 0x5c).collect();
    let mut v: Vec<&[u8]> = vec![&ipad];
    v.extend_from_slice(parts);
    let inner = h.hash(&v);
    h.hash(&[&opad, &inner])
}
pub fn hmac<H: Hash>(h: &H, key: &[u8], m: &[u8]) -> Vec<u8> {
    hmac_parts(h, key, &[m])
}
pub fn extract<H: Hash>(h: &H, salt: &[u8], ikm: &[u8]) -> Vec<u8> {
    // RFC 5869: an absent salt is HashLen zero octets, which HMAC pads identically to the empty key
    hmac(h, salt, ikm)
}
pub fn expand<H: Hash>(h: &H, prk: &[u8], info: &[u8], len: usize) -> Vec<u8> {
    assert!(len <= 255 * h.digest_size());
    let mut okm = vec![];
    let mut t: Vec<u8> = vec![];
    let mut i = 1u32;
    while okm.len() < len {
        t = hmac_parts(h, prk, &[&t, info, &[i as u8]]);
        okm.extend_from_slice(&t);
        i += 1;
    }
    okm.truncate(len);
    okm
}
