//! FIPS 197 with an S-box computed from GF(2^8) inversion and the affine map.
use std::sync::OnceLock;

fn gmul(mut a: u8, mut b: u8) -> u8 {
    let mut r = 0;
    while b != 0 {
        if b & 1 == 1 {
            r ^= a;
        }
        let hi = a & 0x80;
        a <<= 1;
        if hi != 0 {
            a ^= 0x1b;
        }
        b >>= 1;
    }
    r
}
struct T {
    s: [u8; 256],
    si: [u8; 256],
    m: [[u8; 256]; 16],
}
fn tabs() -> &'static T {
    static C: OnceLock<Box<T>> = OnceLock::new();
    C.get_or_init(|| {
        let mut t = Box::new(T { s: [0; 256], si: [0; 256], m: [[0; 256]; 16] });
        for x in 0..=255u8 {
            let inv = (0..=255u8).find(|&y| gmul(x, y) == 1).unwrap_or(0);
            let mut s = 0u8;
            for i in 0..8 {
                let bit = |k: u32| (inv >> (k % 8)) & 1;
                let b = bit(i) ^ bit(i + 4) ^ bit(i + 5) ^ bit(i + 6) ^ bit(i + 7) ^ ((0x63 >> i) & 1);
                s |= b << i;
            }
            t.s[x as usize] = s;
            t.si[s as usize] = x;
        }
        for k in 0..16 {
            for x in 0..256 {
                t.m[k][x] = gmul(k as u8, x as u8);
            }
        }
        t
    })
}

pub struct Aes {
    rk: Vec<[u8; 16]>,
}
impl Aes {
    pub fn new(key: &[u8]) -> Aes {
        let t = tabs();
        let nk = key.len() / 4;
        assert!(key.len() % 4 == 0 && (nk == 4 || nk == 6 || nk == 8));
        let nr = nk + 6;
        let mut w: Vec<[u8; 4]> = key.chunks(4).map(|c| c.try_into().unwrap()).collect();
        let mut rcon = 1u8;
        for i in nk..4 * (nr + 1) {
            let mut x = w[i - 1];
            if i % nk == 0 {
                x = [t.s[x[1] as usize] ^ rcon, t.s[x[2] as usize], t.s[x[3] as usize], t.s[x[0] as usize]];
                rcon = gmul(rcon, 2);
            } else if nk == 8 && i % 8 == 4 {
                x = x.map(|b| t.s[b as usize]);
            }
            let p = w[i - nk];
            w.push([p[0] ^ x[0], p[1] ^ x[1], p[2] ^ x[2], p[3] ^ x[3]]);
        }
        Aes { rk: w.chunks(4).map(|c| c.concat().try_into().unwrap()).collect() }
    }
    pub fn encrypt(&self, b: &[u8; 16]) -> [u8; 16] {
        let t = tabs();
        let nr = self.rk.len() - 1;
        let mut s = *b;
        for i in 0..16 {
            s[i] ^= self.rk[0][i];
        }
        for r in 1..=nr {
            let mut u = [0u8; 16];
            for c in 0..4 {
                for row in 0..4 {
                    u[4 * c + row] = t.s[s[4 * ((c + row) % 4) + row] as usize];
                }
            }
            if r != nr {
                for c in 0..4 {
                    let x = [u[4 * c], u[4 * c + 1], u[4 * c + 2], u[4 * c + 3]];
                    for row in 0..4 {
                        u[4 * c + row] = t.m[2][x[row] as usize]
                            ^ t.m[3][x[(row + 1) % 4] as usize]
                            ^ x[(row + 2) % 4]
                            ^ x[(row + 3) % 4];
                    }
                }
            }
            for i in 0..16 {
                s[i] = u[i] ^ self.rk[r][i];
            }
        }
        s
    }
    pub fn decrypt(&self, b: &[u8; 16]) -> [u8; 16] {
        let t = tabs();
        let nr = self.rk.len() - 1;
        let mut s = *b;
        for r in (1..=nr).rev() {
            for i in 0..16 {
                s[i] ^= self.rk[r][i];
            }
            if r != nr {
                for c in 0..4 {
                    let x = [s[4 * c], s[4 * c + 1], s[4 * c + 2], s[4 * c + 3]];
                    for row in 0..4 {
                        s[4 * c + row] = t.m[14][x[row] as usize]
                            ^ t.m[11][x[(row + 1) % 4] as usize]
                            ^ t.m[13][x[(row + 2) % 4] as usize]
                            ^ t.m[9][x[(row + 3) % 4] as usize];
                    }
                }
            }
            let mut u = [0u8; 16];
            for c in 0..4 {
                for row in 0..4 {
                    u[4 * ((c + row) % 4) + row] = t.si[s[4 * c + row] as usize];
                }
            }
            s = u;
        }
        for i in 0..16 {
            s[i] ^= self.rk[0][i];
        }
        s
    }
}
