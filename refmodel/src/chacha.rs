//! RFC 8439 ChaCha20.
fn qr(s: &mut [u32; 16], a: usize, b: usize, c: usize, d: usize) {
    for (r1, r2) in [(16, 12), (8, 7)] {
        s[a] = s[a].wrapping_add(s[b]);
        s[d] = (s[d] ^ s[a]).rotate_left(r1);
        s[c] = s[c].wrapping_add(s[d]);
        s[b] = (s[b] ^ s[c]).rotate_left(r2);
    }
}
pub fn block(key: &[u8], nonce: &[u8], counter: u32) -> [u8; 64] {
    let mut init = [0u32; 16];
    for (i, c) in b"expand 32-byte k".chunks(4).chain(key.chunks(4)).enumerate() {
        init[i] = u32::from_le_bytes(c.try_into().unwrap());
    }
    init[12] = counter;
    for (i, c) in nonce.chunks(4).enumerate() {
        init[13 + i] = u32::from_le_bytes(c.try_into().unwrap());
    }
    let mut s = init;
    for _ in 0..10 {
        for i in 0..4 {
            qr(&mut s, i, 4 + i, 8 + i, 12 + i);
        }
        for i in 0..4 {
            qr(&mut s, i, 4 + (i + 1) % 4, 8 + (i + 2) % 4, 12 + (i + 3) % 4);
        }
    }
    let mut out = [0u8; 64];
    for i in 0..16 {
        out[4 * i..4 * i + 4].copy_from_slice(&s[i].wrapping_add(init[i]).to_le_bytes());
    }
    out
}
/// keystream bytes [from, from+len) of the stream that starts at block 0
pub fn keystream(key: &[u8], nonce: &[u8], from: u64, len: usize) -> Vec<u8> {
    let mut out = Vec::with_capacity(len);
    let mut pos = from;
    while out.len() < len {
        let b = block(key, nonce, (pos / 64) as u32);
        let off = (pos % 64) as usize;
        let n = (64 - off).min(len - out.len());
        out.extend_from_slice(&b[off..off + n]);
        pos += n as u64;
    }
    out
}
pub fn xor(key: &[u8], nonce: &[u8], first_block: u64, data: &[u8]) -> Vec<u8> {
    let ks = keystream(key, nonce, first_block * 64, data.len());
    data.iter().zip(ks).map(|(a, b)| a ^ b).collect()
}
