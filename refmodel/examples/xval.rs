//! Prints model outputs on pseudo-random inputs as "op hex hex ... = hex" lines; xval/check.js
//! recomputes every line with OpenSSL (through node) to validate the model itself.
use refmodel::*;
fn hx(b: &[u8]) -> String {
    if b.is_empty() { "-".into() } else { b.iter().map(|x| format!("{x:02x}")).collect() }
}
struct R(u64);
impl R {
    fn n(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    fn b(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.n() as u8).collect()
    }
    fn l(&mut self, m: usize) -> usize {
        self.n() as usize % m
    }
}
fn main() {
    kat::run();
    let n: usize = std::env::args().nth(1).map(|s| s.parse().unwrap()).unwrap_or(100);
    let mut r = R(std::env::args().nth(2).map(|s| s.parse().unwrap()).unwrap_or(1));
    for i in 0..n {
        for a in sha2::ALGS {
            let l = if i < 300 { i } else { r.l(5000) };
            let m = r.b(l);
            println!("{} {} = {}", a.name(), hx(&m), hx(&sha2::digest(a, &m)));
            let kl = r.l(300);
            let k = r.b(kl);
            println!("hmac-{} {} {} = {}", a.name(), hx(&k), hx(&m), hx(&mac::hmac(&a, &k, &m)));
            let info = r.b(i % 70);
            let ol = r.l(255 * a.digest_size()) + 1;
            println!("hkdf-{} {} {} {} {} = {}", a.name(), hx(&k), hx(&m), hx(&info), ol,
                hx(&mac::expand(&a, &mac::extract(&a, &k, &m), &info, ol)));
        }
        for kl in [16, 24, 32] {
            let (k, nn) = (r.b(kl), r.b(12));
            let (al, pl) = (r.l(100), r.l(2000));
            let (a, p) = (r.b(al), r.b(pl));
            let (c, t) = gcm::seal(&aes::Aes::new(&k), &nn, &a, &p);
            println!("gcm {} {} {} {} = {}", hx(&k), hx(&nn), hx(&a), hx(&p), hx(&[c, t.to_vec()].concat()));
            let b: [u8; 16] = r.b(16).try_into().unwrap();
            let e = aes::Aes::new(&k);
            assert_eq!(e.decrypt(&e.encrypt(&b)), b);
            println!("aes {} {} = {}", hx(&k), hx(&b), hx(&e.encrypt(&b)));
        }
        {
            let (k, nn) = (r.b(32), r.b(12));
            let (al, pl) = (r.l(100), r.l(2000));
            let (a, p) = (r.b(al), r.b(pl));
            let (c, t) = poly::seal(&k, &nn, &a, &p);
            println!("cp {} {} {} {} = {}", hx(&k), hx(&nn), hx(&a), hx(&p), hx(&[c, t.to_vec()].concat()));
            let ctr = r.n() as u32;
            println!("cc {} {} {} = {}", hx(&k), hx(&nn), ctr, hx(&chacha::block(&k, &nn, ctr)));
        }
        {
            let k = r.b(32);
            let mut u = r.b(32);
            if i % 7 == 0 { u = vec![0xff; 32]; u[0] = 0xee + (i % 16) as u8; }
            println!("x25519 {} {} = {}", hx(&k), hx(&u), hx(&x25519::x25519(&k, &u)));
            println!("x25519pk {} = {}", hx(&k), hx(&x25519::base(&k)));
            let ml = r.l(300);
            let m = r.b(ml);
            let pk = ed::public(&k);
            let s = ed::sign(&k, &m);
            assert_eq!(ed::verify(&m, &s, &pk), ed::Verdict::Valid);
            println!("ed {} {} = {}", hx(&k), hx(&m), hx(&[pk.to_vec(), s.to_vec()].concat()));
        }
    }
}
