//! Self-test of the model, run at the start of every check: known answers produced by OpenSSL
//! (xval/check.js) and structural facts about the curves. A failure panics: the check is then
//! broken, never a verdict on the code under test.
use crate::*;

fn un(h: &str) -> Vec<u8> {
    if h == "-" {
        return vec![];
    }
    (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect()
}
pub fn run() -> usize {
    let mut n = 0;
    for line in include_str!("kat.txt").lines() {
        let (l, want) = line.split_once(" = ").unwrap();
        let t: Vec<&str> = l.split(' ').collect();
        let b = |i: usize| un(t[i]);
        let alg = |s: &str| *sha2::ALGS.iter().find(|a| a.name() == s).unwrap();
        let got = if let Some(a) = t[0].strip_prefix("hmac-") {
            mac::hmac(&alg(a), &b(1), &b(2))
        } else if let Some(a) = t[0].strip_prefix("hkdf-") {
            let a = alg(a);
            mac::expand(&a, &mac::extract(&a, &b(1), &b(2)), &b(3), t[4].parse().unwrap())
        } else {
            match t[0] {
                "aes" => aes::Aes::new(&b(1)).encrypt(&b(2).try_into().unwrap()).to_vec(),
                "gcm" => {
                    let (c, t) = gcm::seal(&aes::Aes::new(&b(1)), &b(2), &b(3), &b(4));
                    [c, t.to_vec()].concat()
                }
                "cp" => {
                    let (c, t) = poly::seal(&b(1), &b(2), &b(3), &b(4));
                    [c, t.to_vec()].concat()
                }
                "cc" => chacha::block(&b(1), &b(2), t[3].parse().unwrap()).to_vec(),
                "x25519" => x25519::x25519(&b(1), &b(2)).to_vec(),
                "x25519pk" => x25519::base(&b(1)).to_vec(),
                "ed" => {
                    let (pk, s) = (ed::public(&b(1)), ed::sign(&b(1), &b(2)));
                    assert_eq!(ed::verify(&b(2), &s, &pk), ed::Verdict::Valid);
                    [pk.to_vec(), s.to_vec()].concat()
                }
                h => sha2::digest(alg(h), &b(1)),
            }
        };
        assert_eq!(got, un(want), "model self-test: {}", t[0]);
        n += 1;
    }
    // AES inverse
    let a = aes::Aes::new(&[7; 24]);
    assert_eq!(a.decrypt(&a.encrypt(&[9; 16])), [9; 16]);
    // group structure
    let lb = fp::limbs_to_bytes(&fp::l());
    assert!(ed::base().mul(&lb).eq(&ed::Pt::ID));
    let t = ed::torsion();
    for i in 0..8 {
        assert_eq!(t[i].eq(&ed::Pt::ID), i == 0);
        assert!(t[i].mul(&[8]).eq(&ed::Pt::ID));
        for j in 0..i {
            assert!(!t[i].eq(&t[j]));
        }
    }
    // Montgomery preimages hit their targets on the curve and on the twist
    let k = [0x5a; 32];
    let (mut c, mut w) = (0, 0);
    let mut u = 2;
    while c < 2 || w < 2 {
        let g = fp::F::small(u);
        if let Some(p) = x25519::preimage(&k, g) {
            assert_eq!(x25519::x25519(&k, &p), g.to_bytes());
            if x25519::on_curve(g) { c += 1 } else { w += 1 }
        }
        u += 1;
    }
    // crafted Poly1305 accumulators
    let mut key = [0x33u8; 32];
    let mut s = 1u64;
    for off in 1..6u64 {
        key[0] = off as u8;
        let tgt = [poly::P[0] - off, poly::P[1], poly::P[2], 0, 0];
        let ct = poly::craft(&key, &tgt, || { s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); s ^ (s >> 29) }).unwrap();
        let want = poly::to_le16(&poly::reduce({
            let mut x = tgt;
            let c = poly::from_le(&key[16..]);
            let mut carry = 0u128;
            for i in 0..5 { carry += x[i] as u128 + c[i] as u128; x[i] = carry as u64; carry >>= 64; }
            // keep only the low 128 bits
            [x[0], x[1], 0, 0, 0]
        }));
        assert_eq!(poly::aead_mac(&key, &[], &ct), want);
    }
    n
}
