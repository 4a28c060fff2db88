//! SP 800-38D GCM (96-bit IV, 128-bit tag) over an arbitrary 128-bit block function.
pub trait Block {
    fn enc(&self, b: &[u8; 16]) -> [u8; 16];
}
impl Block for crate::aes::Aes {
    fn enc(&self, b: &[u8; 16]) -> [u8; 16] {
        self.encrypt(b)
    }
}
impl<F: Fn(&[u8; 16]) -> [u8; 16]> Block for F {
    fn enc(&self, b: &[u8; 16]) -> [u8; 16] {
        self(b)
    }
}
/// Multiplication by a fixed H using a 16 x 256 byte table (independent of the bitwise method in
/// the code under test; the table itself is built from the SP 800-38D right-shift definition).
pub struct GMul {
    t: Vec<[u128; 256]>,
}
fn mulx(v: u128) -> u128 {
    let r = 0xe1u128 << 120;
    if v & 1 == 1 {
        (v >> 1) ^ r
    } else {
        v >> 1
    }
}
impl GMul {
    pub fn new(h: u128) -> GMul {
        // hp[i] = H * x^i ; bit i of a block is the coefficient of x^i, bit 0 = MSB
        let mut hp = [0u128; 128];
        hp[0] = h;
        for i in 1..128 {
            hp[i] = mulx(hp[i - 1]);
        }
        let mut t = vec![[0u128; 256]; 16];
        for byte in 0..16 {
            for v in 1..256usize {
                let low = v & (v - 1);
                let bit = (v ^ low).trailing_zeros() as usize; // bit value 1<<bit, so x index 7-bit
                t[byte][v] = t[byte][low] ^ hp[8 * byte + 7 - bit];
            }
        }
        GMul { t }
    }
    pub fn mul(&self, x: u128) -> u128 {
        let b = x.to_be_bytes();
        let mut r = 0;
        for i in 0..16 {
            r ^= self.t[i][b[i] as usize];
        }
        r
    }
}
pub fn ghash(h: u128, aad: &[u8], ct: &[u8]) -> u128 {
    let g = GMul::new(h);
    let mut y = 0u128;
    for part in [aad, ct] {
        for c in part.chunks(16) {
            let mut b = [0u8; 16];
            b[..c.len()].copy_from_slice(c);
            y = g.mul(y ^ u128::from_be_bytes(b));
        }
    }
    let len = ((aad.len() as u128 * 8) << 64) | (ct.len() as u128 * 8);
    g.mul(y ^ len)
}
pub fn tag<B: Block>(e: &B, nonce: &[u8], aad: &[u8], ct: &[u8]) -> [u8; 16] {
    let h = u128::from_be_bytes(e.enc(&[0; 16]));
    let mut j0 = [0u8; 16];
    j0[..12].copy_from_slice(nonce);
    j0[15] = 1;
    (ghash(h, aad, ct) ^ u128::from_be_bytes(e.enc(&j0))).to_be_bytes()
}
pub fn ctr<B: Block>(e: &B, nonce: &[u8], data: &[u8]) -> Vec<u8> {
    let mut out = Vec::with_capacity(data.len());
    for (i, c) in data.chunks(16).enumerate() {
        let mut b = [0u8; 16];
        b[..12].copy_from_slice(nonce);
        b[12..].copy_from_slice(&((i as u64 + 2) as u32).to_be_bytes());
        let ks = e.enc(&b);
        out.extend(c.iter().zip(ks).map(|(x, k)| x ^ k));
    }
    out
}
pub fn seal<B: Block>(e: &B, nonce: &[u8], aad: &[u8], pt: &[u8]) -> (Vec<u8>, [u8; 16]) {
    let ct = ctr(e, nonce, pt);
    let t = tag(e, nonce, aad, &ct);
    (ct, t)
}
