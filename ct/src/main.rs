//! Observed programs for the secret-independence monitors (C18).
//!
//! ct taint SEED       under valgrind memcheck: every secret byte is marked undefined, so memcheck
//!                     reports each branch and each memory address computed from a secret
//! ct trace OP A B F   under valgrind lackey: performs one operation on the bytes of file F; the
//!                     recorded sequence of instructions and data addresses is compared between
//!                     files that differ in secrets only
//! ct cost OP N        under valgrind lackey, which counts instructions: one operation on N bytes (C21)
//! ct ops              lists the operations of `trace`
use crypto_pure::aes::{Aes128, Aes192, Aes256, BlockCipher};
use crypto_pure::chacha20::Stream;
use crypto_pure::gcm::{AeadCipher, Gcm};
use crypto_pure::hmac::Hmac;
use crypto_pure::poly1305::ChaCha20Poly1305;
use crypto_pure::sha2::{self, HashFunction, Sha224, Sha256, Sha384, Sha512};
use crypto_pure::{curve25519, ed25519, hkdf, hmac, util};
use std::hint::black_box;

/// valgrind client request
#[inline(never)]
fn request(code: usize, a: usize, b: usize) -> usize {
    let args = [code, a, b, 0, 0, 0];
    let mut r = 0usize;
    unsafe {
        std::arch::asm!("rol rdi, 3", "rol rdi, 13", "rol rdi, 61", "rol rdi, 51", "xchg rbx, rbx",
            inout("rdx") r, in("rax") args.as_ptr(), inout("rdi") 0usize => _);
    }
    let _ = &mut r;
    r
}
const UNDEFINED: usize = 0x4d43_0001;
const DEFINED: usize = 0x4d43_0002;
const CHECK_DEFINED: usize = 0x4d43_0005; // CHECK_MEM_IS_DEFINED
const RUNNING: usize = 0x1001;

struct Taint {
    rng: u64,
    ops: u64,
    secret_bytes: u64,
}
impl Taint {
    fn u64(&mut self) -> u64 {
        self.rng = self.rng.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.rng;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| (self.u64() >> 56) as u8).collect()
    }
    /// n bytes that must not influence control flow or addresses
    fn secret(&mut self, n: usize) -> Vec<u8> {
        let v = self.bytes(n);
        request(UNDEFINED, v.as_ptr() as usize, n);
        self.secret_bytes += n as u64;
        v
    }
    fn secret16(&mut self) -> [u8; 16] {
        let mut a = [0; 16];
        a.copy_from_slice(&self.bytes(16));
        request(UNDEFINED, a.as_ptr() as usize, 16);
        self.secret_bytes += 16;
        a
    }
    fn done(&mut self, v: &[u8]) {
        self.ops += 1;
        black_box(v);
        request(DEFINED, v.as_ptr() as usize, v.len());
    }
}
#[inline(never)]
fn flag(t: &mut Taint, b: bool) {
    let a = [b];
    t.ops += 1;
    request(DEFINED, a.as_ptr() as usize, 1);
    black_box(a);
}

fn hash<H: HashFunction>(t: &mut Taint, n: usize) {
    let m = t.secret(n);
    let cut = n / 3;
    let mut h = H::default();
    h.update(&m[..cut]);
    h.update(&m[cut..]);
    let mut d = vec![0; H::DIGEST_SIZE];
    h.write_digest(&mut d);
    t.done(&d);
}
fn mac<H: HashFunction>(t: &mut Taint, k: usize, n: usize) {
    let (key, m) = (t.secret(k), t.secret(n));
    let mut h = Hmac::<H>::new(&key);
    h.update(&m);
    let tag = h.tag();
    t.done(&tag);
    let b = hmac::verify::<H>(&key, &m, &tag);
    flag(t, b);
    let bad = t.secret(H::DIGEST_SIZE);
    let b = hmac::verify::<H>(&key, &m, &bad);
    flag(t, b);
}
fn kdf<H: HashFunction>(t: &mut Taint, n: usize, out: usize) {
    let (salt, ikm, info) = (t.secret(n), t.secret(n + 9), t.secret(n / 2));
    let mut prk = vec![0; H::DIGEST_SIZE];
    hkdf::extract::<H>(&salt, &ikm, &mut prk);
    let mut okm = vec![0; out];
    hkdf::expand::<H>(&prk, &info, &mut okm);
    t.done(&prk);
    t.done(&okm);
}
fn block<C: BlockCipher>(t: &mut Taint, k: usize) {
    let key = t.secret(k);
    let c = C::new(&key);
    for _ in 0..3 {
        let b = t.secret16();
        let o = c.permute(&b);
        t.done(&o);
    }
}
fn seal<C: AeadCipher>(t: &mut Taint, k: usize, la: usize, lm: usize) {
    let (key, msg, aad) = (t.secret(k), t.secret(lm), t.secret(la));
    let nonce = t.bytes(12);
    let c = C::new(&key);
    let mut out = vec![0; lm];
    let tag = c.encrypt(&msg, &nonce, &aad, &mut out);
    t.done(&tag);
    t.done(&out);
}
fn stream(t: &mut Taint, n: usize, skip: usize) {
    let key = t.secret(32);
    let nonce = t.bytes(12);
    let m = t.secret(n);
    let mut s = Stream::new(&key, &nonce);
    let a = [s.next().unwrap_or(0), s.nth(skip).unwrap_or(0)];
    t.done(&a);
    let mut o = vec![0; n];
    s.encrypt(&m, &mut o);
    t.done(&o);
    s.decrypt(&m, &mut o);
    t.done(&o);
}
fn curve(t: &mut Taint, pk: &[u8]) {
    let sk = t.secret(32);
    let o = curve25519::dh(pk, &sk);
    t.done(&o);
    let o = curve25519::gen_pk(&sk);
    t.done(&o);
}
fn signature(t: &mut Taint, n: usize) {
    let sk = t.secret(32);
    let m = t.bytes(n);
    let o = ed25519::gen_pk(&sk);
    t.done(&o);
    let o = ed25519::sign(&m, &sk);
    t.done(&o);
}
fn compare(t: &mut Taint, n: usize) {
    let (a, b) = (t.secret16(), t.secret(n));
    let r = util::verify_16(&a, &b);
    flag(t, r);
}

// deliberate leaks: the monitors must report them in every run
#[inline(never)]
fn control_branch(b: &[u8]) -> u8 {
    if b[0] == 7 {
        black_box(1)
    } else {
        black_box(b[1].count_ones() as u8)
    }
}
#[inline(never)]
fn control_address(b: &[u8], table: &[u8; 256]) -> u8 {
    table[b[0] as usize]
}

fn taint(seed: u64) {
    let mut t = Taint { rng: seed.wrapping_mul(0x2545f4914f6cdd1d), ops: 0, secret_bytes: 0 };
    if request(RUNNING, 0, 0) == 0 {
        println!("not under valgrind");
        std::process::exit(3);
    }
    let probe = t.secret(2);
    let seen = request(CHECK_DEFINED, probe.as_ptr() as usize, 2) != 0;
    let mut table = [0u8; 256];
    table.copy_from_slice(&t.bytes(256));
    black_box(&mut table);
    let a = [control_branch(&probe), control_address(&probe, &table)];
    t.done(&a);
    println!("control {}", seen as u8);

    let lens: Vec<usize> = (0..20).chain([31, 32, 33, 47, 48, 55, 56, 57, 63, 64, 65, 79, 80, 111, 112, 113, 119, 127, 128, 129, 200, 255, 256, 257, 300]).collect();
    let mut report = |name: &str, t: &mut Taint, f: &mut dyn FnMut(&mut Taint)| {
        let (o, s) = (t.ops, t.secret_bytes);
        f(t);
        println!("{name} {} {}", t.ops - o, t.secret_bytes - s);
    };
    report("hash", &mut t, &mut |t| {
        for &n in &lens {
            hash::<Sha224>(t, n);
            hash::<Sha256>(t, n);
            hash::<Sha384>(t, n);
            hash::<Sha512>(t, n);
            let m = t.secret(n);
            let d = sha2::sha256(&m);
            t.done(&d);
            let d = sha2::sha512(&m);
            t.done(&d);
        }
    });
    report("hmac", &mut t, &mut |t| {
        for (i, &n) in lens.iter().enumerate() {
            let k = lens[(i * 7 + 3) % lens.len()];
            mac::<Sha224>(t, k, n);
            mac::<Sha256>(t, n, k);
            mac::<Sha384>(t, k, n);
            mac::<Sha512>(t, n, k);
        }
    });
    report("hkdf", &mut t, &mut |t| {
        for (i, &n) in lens.iter().enumerate().step_by(3) {
            let k = lens[(i * 5 + 11) % lens.len()];
            kdf::<Sha224>(t, n, k);
            kdf::<Sha256>(t, n, k);
            kdf::<Sha384>(t, n, k);
            kdf::<Sha512>(t, n, k);
        }
    });
    report("aes", &mut t, &mut |t| {
        for _ in 0..4 {
            block::<Aes128>(t, 16);
            block::<Aes192>(t, 24);
            block::<Aes256>(t, 32);
        }
    });
    report("aes-gcm encrypt", &mut t, &mut |t| {
        for (i, &n) in lens.iter().enumerate().filter(|x| *x.1 < 130) {
            let k = lens[(i * 11 + 5) % 32];
            match i % 3 {
                0 => seal::<Gcm<Aes128>>(t, 16, k, n),
                1 => seal::<Gcm<Aes192>>(t, 24, k, n),
                _ => seal::<Gcm<Aes256>>(t, 32, k, n),
            }
        }
    });
    report("chacha20-poly1305 encrypt", &mut t, &mut |t| {
        for (i, &n) in lens.iter().enumerate() {
            let k = lens[(i * 11 + 5) % lens.len()];
            seal::<ChaCha20Poly1305>(t, 32, k, n);
            seal::<ChaCha20Poly1305>(t, 32, n, k);
        }
    });
    report("chacha20 stream", &mut t, &mut |t| {
        for (i, &n) in lens.iter().enumerate() {
            stream(t, n, lens[(i * 13 + 1) % lens.len()]);
        }
    });
    report("x25519", &mut t, &mut |t| {
        for i in 0..6 {
            let pk = if i == 0 { vec![0; 32] } else if i == 1 { vec![0xff; 32] } else { t.bytes(32) };
            curve(t, &pk);
        }
    });
    report("ed25519 key generation and signing", &mut t, &mut |t| {
        for n in [0, 1, 31, 32, 33, 63, 64, 79, 80, 111, 112, 150] {
            signature(t, n);
        }
    });
    // longer inputs, and objects used many times
    report("longer inputs", &mut t, &mut |t| {
        for (i, &n) in [511, 600, 1025, 2050, 4097, 8200, 20_011].iter().enumerate() {
            hash::<Sha224>(t, n);
            hash::<Sha256>(t, n + 3);
            hash::<Sha384>(t, n);
            hash::<Sha512>(t, n + 5);
            mac::<Sha256>(t, n, 40);
            mac::<Sha256>(t, 40, n);
            mac::<Sha512>(t, 150, n);
            mac::<Sha512>(t, n, 70);
            kdf::<Sha256>(t, n, 255 * 32 - i);
            kdf::<Sha512>(t, 20, 1000 * (i + 1));
            seal::<ChaCha20Poly1305>(t, 32, 20, n);
            seal::<ChaCha20Poly1305>(t, 32, n, 300);
            stream(t, n, 70 * n);
            if n < 5000 {
                seal::<Gcm<Aes128>>(t, 16, n, 20);
                seal::<Gcm<Aes256>>(t, 32, 20, n);
            }
            if i < 5 {
                signature(t, n);
            }
            compare(t, n);
        }
    });
    report("bulk", &mut t, &mut |t| {
        for n in [65_600, 140_003] {
            hash::<Sha256>(t, n);
            hash::<Sha512>(t, n);
            mac::<Sha256>(t, n, n);
            seal::<ChaCha20Poly1305>(t, 32, n, n + 7);
            seal::<Gcm<Aes128>>(t, 16, n, 20);
            seal::<Gcm<Aes256>>(t, 32, 20, n / 2 + 33_000);
            stream(t, n, 1 << 20);
            signature(t, n);
        }
        hash::<Sha384>(t, 1_100_000);
        seal::<ChaCha20Poly1305>(t, 32, 20, 1_100_000);
        seal::<Gcm<Aes128>>(t, 16, 1_100_000, 1);
        kdf::<Sha512>(t, 1_100_000, 100);
    });
    report("objects used many times", &mut t, &mut |t| {
        let key = t.secret(100);
        let mut h = Hmac::<Sha256>::new(&key);
        let mut d = Sha512::default();
        let mut s = Stream::new(&key[..32], &[7; 12]);
        let (g, c, a) = (<Gcm<Aes128> as AeadCipher>::new(&key[..16]), <ChaCha20Poly1305 as AeadCipher>::new(&key[..32]), Aes192::new(&key[..24]));
        for i in 0..40 {
            let m = t.secret(i * 7 % 200);
            let nonce = t.bytes(12);
            h.update(&m);
            d.update(&m);
            let mut o = vec![0; m.len()];
            s.encrypt(&m, &mut o);
            t.done(&o);
            if m.len() < 60 {
                let mut o = vec![0; m.len()];
                let tag = g.encrypt(&m, &nonce, &m, &mut o);
                t.done(&o);
                t.done(&tag);
            }
            let mut o = vec![0; m.len()];
            let tag = c.encrypt(&m, &nonce, &m, &mut o);
            t.done(&o);
            t.done(&tag);
            let b = t.secret16();
            let o = a.permute(&b);
            t.done(&o);
        }
        let tag = h.tag();
        t.done(&tag);
        let mut o = vec![0; 64];
        d.write_digest(&mut o);
        t.done(&o);
    });
    report("compare", &mut t, &mut |t| {
        for n in 0..40 {
            compare(t, n);
        }
    });
}

// ------------------------------------------------------------------ trace
const OPS: &[&str] = &[
    "control", "sha224", "sha256", "sha384", "sha512", "hmac-sha256", "hmac-sha512", "hmac-verify-sha256", "hmac-verify-sha512", "hkdf-sha256", "hkdf-sha512", "aes128",
    "aes192", "aes256", "gcm128-encrypt", "gcm192-encrypt", "gcm256-encrypt", "gcm128-decrypt", "gcm192-decrypt", "gcm256-decrypt", "chacha20poly1305-encrypt",
    "chacha20poly1305-decrypt", "stream", "x25519-dh", "x25519-gen_pk", "ed25519-gen_pk", "ed25519-sign", "compare",
];
fn aead<C: AeadCipher>(f: &[u8], kl: usize, a: usize, b: usize, enc: bool) -> Vec<u8> {
    // file: key, nonce, aad (a), text (b), tag (16)
    let (key, f) = f.split_at(kl);
    let (nonce, f) = f.split_at(12);
    let (aad, f) = f.split_at(a);
    let (text, tag) = f.split_at(b);
    let c = C::new(key);
    let mut out = vec![0u8; b];
    if enc {
        let t = c.encrypt(text, nonce, aad, &mut out);
        out.extend(t);
    } else {
        let r = c.decrypt(text, nonce, aad, tag, &mut out);
        out.push(r as u8);
    }
    out
}
fn digest<H: HashFunction>(m: &[u8]) -> Vec<u8> {
    let mut h = H::default();
    h.update(m);
    let mut d = vec![0; H::DIGEST_SIZE];
    h.write_digest(&mut d);
    d
}
fn expand<H: HashFunction>(f: &[u8], a: usize, b: usize) -> Vec<u8> {
    let mut prk = vec![0; H::DIGEST_SIZE];
    hkdf::extract::<H>(&f[..a], &f[a..a + b], &mut prk);
    let mut o = vec![0; a + b];
    hkdf::expand::<H>(&prk, &f[..a], &mut o);
    o
}
fn blocks<C: BlockCipher>(f: &[u8], k: usize) -> Vec<u8> {
    let c = C::new(&f[..k]);
    let b: &[u8; 16] = f[k..k + 16].try_into().unwrap();
    c.permute(b).to_vec()
}
fn trace(op: &str, a: usize, b: usize, f: &[u8]) -> Vec<u8> {
    match op {
        "control" => vec![control_branch(f)],
        "sha224" => digest::<Sha224>(&f[..a]),
        "sha256" => digest::<Sha256>(&f[..a]),
        "sha384" => digest::<Sha384>(&f[..a]),
        "sha512" => digest::<Sha512>(&f[..a]),
        "hmac-sha256" => hmac::hmac_sha256(&f[..a], &f[a..a + b]).to_vec(),
        "hmac-sha512" => hmac::hmac_sha512(&f[..a], &f[a..a + b]).to_vec(),
        "hmac-verify-sha256" => vec![hmac::verify::<Sha256>(&f[..a], &f[a..a + b], &f[a + b..]) as u8],
        "hmac-verify-sha512" => vec![hmac::verify::<Sha512>(&f[..a], &f[a..a + b], &f[a + b..]) as u8],
        "hkdf-sha256" => expand::<Sha256>(f, a, b),
        "hkdf-sha512" => expand::<Sha512>(f, a, b),
        "aes128" => blocks::<Aes128>(f, 16),
        "aes192" => blocks::<Aes192>(f, 24),
        "aes256" => blocks::<Aes256>(f, 32),
        "gcm128-encrypt" => aead::<Gcm<Aes128>>(f, 16, a, b, true),
        "gcm192-encrypt" => aead::<Gcm<Aes192>>(f, 24, a, b, true),
        "gcm256-encrypt" => aead::<Gcm<Aes256>>(f, 32, a, b, true),
        "gcm128-decrypt" => aead::<Gcm<Aes128>>(f, 16, a, b, false),
        "gcm192-decrypt" => aead::<Gcm<Aes192>>(f, 24, a, b, false),
        "gcm256-decrypt" => aead::<Gcm<Aes256>>(f, 32, a, b, false),
        "chacha20poly1305-encrypt" => aead::<ChaCha20Poly1305>(f, 32, a, b, true),
        "chacha20poly1305-decrypt" => aead::<ChaCha20Poly1305>(f, 32, a, b, false),
        "stream" => {
            let mut s = Stream::new(&f[..32], &f[32..44]);
            let mut o = vec![0; b];
            o[0] = s.nth(a).unwrap_or(0);
            let n = f[44..].len().min(b);
            s.encrypt(&f[44..44 + n], &mut o[..n]);
            o
        }
        "x25519-dh" => curve25519::dh(&f[..32], &f[32..64]).to_vec(),
        "x25519-gen_pk" => curve25519::gen_pk(&f[..32]).to_vec(),
        "ed25519-gen_pk" => ed25519::gen_pk(&f[..32]).to_vec(),
        "ed25519-sign" => ed25519::sign(&f[32..32 + a], &f[..32]).to_vec(),
        "compare" => {
            let x: &[u8; 16] = f[..16].try_into().unwrap();
            vec![util::verify_16(x, &f[16..16 + a]) as u8]
        }
        _ => std::process::exit(3),
    }
}
// ------------------------------------------------------------------ cost
const COSTS: &[&str] = &[
    "nothing", "sha224", "sha256", "sha384", "sha512", "sha256-pieces-1", "sha256-pieces-61", "sha512-pieces-1", "sha512-pieces-131", "sha512-empty-pieces", "hmac-sha256-key", "hmac-sha256-message",
    "hmac-sha512-key", "hmac-sha512-message", "hmac-sha256-verify-tag", "hkdf-sha256-salt", "hkdf-sha256-ikm", "hkdf-sha256-prk", "hkdf-sha512-info", "hkdf-sha256-okm/9", "hkdf-sha512-okm/9",
    "gcm-encrypt", "gcm-encrypt-data", "gcm-decrypt", "gcm-decrypt-forged", "gcm-decrypt-tag", "cp-encrypt", "cp-encrypt-data", "cp-decrypt", "cp-decrypt-forged", "cp-decrypt-tag",
    "stream", "stream-pieces-1", "stream-next", "stream-skip",
    "stream-nth-0", "stream-nth-63", "stream-nth-100", "stream-take-50", "stream-pieces-64", "hmac-sha256-pieces-1", "many-gcm-16", "many-cp-16", "ed25519-sign", "ed25519-verify", "ed25519-verify-forged", "ed25519-verify-signature", "compare",
];
fn pieces<H: HashFunction>(m: &[u8], k: usize) {
    let mut h = H::default();
    for p in m.chunks(k) {
        h.update(p);
    }
    let mut d = [0; 64];
    h.write_digest(&mut d[..H::DIGEST_SIZE]);
    black_box(d);
}
fn cost(op: &str, n: usize) {
    let m: Vec<u8> = (0..n).map(|i| (i * 151 + i / 256 + 7) as u8).collect();
    let mut o = vec![0u8; n];
    let key = [0x5au8; 32];
    let nonce = [1u8; 12];
    let m = &m[..];
    let stop = |b: bool| black_box(b);
    let aead = |c: &dyn Fn(&[u8], &[u8], Option<&[u8]>, &mut [u8]) -> [u8; 17], what: &str, o: &mut [u8]| {
        // (input, data, tag when decrypting, output) -> tag or verdict
        let mut scratch = vec![0u8; n];
        let t = match what {
            "encrypt" => return drop(black_box(c(m, b"", None, o))),
            "encrypt-data" => return drop(black_box(c(b"", m, None, &mut []))),
            "decrypt" => c(m, b"", None, o),
            "decrypt-tag" => return drop(black_box(c(b"", b"", Some(m), &mut []))),
            _ => [7; 17],
        };
        let ct = o.to_vec();
        let r = c(&ct, b"", Some(&t[..16]), &mut scratch);
        if what == "decrypt" && (r[16] != 1 || scratch != m) {
            std::process::exit(4);
        }
    };
    fn run<C: AeadCipher>(c: C, nonce: &[u8], i: &[u8], d: &[u8], t: Option<&[u8]>, o: &mut [u8]) -> [u8; 17] {
        let mut r = [0; 17];
        match t {
            None => r[..16].copy_from_slice(&c.encrypt(i, nonce, d, o)),
            Some(t) => r[16] = c.decrypt(i, nonce, d, t, o) as u8,
        }
        r
    }
    if let Some(what) = op.strip_prefix("gcm-") {
        return aead(&|i, d, t, o| run(<Gcm<Aes128> as AeadCipher>::new(&key[..16]), &nonce, i, d, t, o), what, &mut o);
    }
    if let Some(what) = op.strip_prefix("cp-") {
        return aead(&|i, d, t, o| run(<ChaCha20Poly1305 as AeadCipher>::new(&key), &nonce, i, d, t, o), what, &mut o);
    }
    match op {
        "nothing" => (),
        "sha224" => drop(black_box(digest::<Sha224>(m))),
        "sha256" => drop(black_box(digest::<Sha256>(m))),
        "sha384" => drop(black_box(digest::<Sha384>(m))),
        "sha512" => drop(black_box(digest::<Sha512>(m))),
        "sha256-pieces-1" => pieces::<Sha256>(m, 1),
        "sha256-pieces-61" => pieces::<Sha256>(m, 61),
        "sha512-pieces-1" => pieces::<Sha512>(m, 1),
        "sha512-pieces-131" => pieces::<Sha512>(m, 131),
        "sha512-empty-pieces" => {
            let mut h = Sha512::default();
            h.update(&m[..100]);
            for _ in 0..n {
                h.update(black_box(&[]));
            }
            h.write_digest(&mut [0; 64]);
        }
        "hmac-sha256-key" => drop(black_box(hmac::hmac_sha256(m, b"x"))),
        "hmac-sha256-message" => drop(black_box(hmac::hmac_sha256(&key, m))),
        "hmac-sha512-key" => drop(black_box(hmac::hmac_sha512(m, b"x"))),
        "hmac-sha512-message" => drop(black_box(hmac::hmac_sha512(&key, m))),
        "hmac-sha256-verify-tag" => drop(stop(hmac::verify::<Sha256>(&key, b"x", m))),
        "hkdf-sha256-salt" => hkdf::extract::<Sha256>(m, b"x", &mut [0; 32]),
        "hkdf-sha256-ikm" => hkdf::extract::<Sha256>(b"x", m, &mut [0; 32]),
        "hkdf-sha256-prk" => hkdf::expand::<Sha256>(m, b"x", &mut [0; 100]),
        "hkdf-sha512-info" => hkdf::expand::<Sha512>(&[1; 64], m, &mut [0; 200]),
        "hkdf-sha256-okm/9" => hkdf::expand::<Sha256>(&key, b"x", &mut o[..n / 9]),
        "hkdf-sha512-okm/9" => hkdf::expand::<Sha512>(&[1; 64], b"x", &mut o[..n / 9]),
        "stream" => Stream::new(&key, &nonce).encrypt(m, &mut o),
        "stream-pieces-1" => {
            let mut s = Stream::new(&key, &nonce);
            for (i, o) in m.chunks(1).zip(o.chunks_mut(1)) {
                s.encrypt(i, o);
            }
        }
        // many calls on one object, n bytes in all
        "stream-nth-0" | "stream-nth-63" | "stream-nth-100" => {
            let step: usize = op[11..].parse().unwrap();
            let mut s = Stream::new(&key, &nonce);
            for _ in 0..n / (step + 1) {
                black_box(s.nth(step));
            }
        }
        "stream-take-50" => {
            let mut s = Stream::new(&key, &nonce);
            for _ in 0..n / 50 {
                black_box(s.by_ref().take(50).fold(0, |a, b| a ^ b));
            }
        }
        "stream-pieces-64" => {
            let mut s = Stream::new(&key, &nonce);
            for (i, o) in m.chunks_exact(64).zip(o.chunks_exact_mut(64)) {
                s.decrypt(i, o);
            }
        }
        "hmac-sha256-pieces-1" => {
            let mut h = hmac::Hmac::<Sha256>::new(&key);
            for p in m.chunks(1) {
                h.update(p);
            }
            drop(black_box(h.tag().to_vec()));
        }
        "many-gcm-16" => {
            let c = <Gcm<Aes128> as AeadCipher>::new(&key[..16]);
            for (i, o) in m[..n / 4].chunks_exact(16).zip(o.chunks_exact_mut(16)) {
                let t = c.encrypt(i, &nonce, b"", o);
                black_box(c.decrypt(i, &nonce, b"", &t, o));
            }
        }
        "many-cp-16" => {
            let c = <ChaCha20Poly1305 as AeadCipher>::new(&key);
            for (i, o) in m[..n / 4].chunks_exact(16).zip(o.chunks_exact_mut(16)) {
                let t = c.encrypt(i, &nonce, b"", o);
                black_box(c.decrypt(i, &nonce, b"", &t, o));
            }
        }
        "stream-next" => drop(black_box(Stream::new(&key, &nonce).take(n).fold(0, |a, b| a ^ b))),
        "stream-skip" => drop(black_box(Stream::new(&key, &nonce).nth(n))),
        "ed25519-sign" => drop(black_box(ed25519::sign(m, &key))),
        "ed25519-verify" | "ed25519-verify-forged" => {
            let (pk, mut s) = (ed25519::gen_pk(&key), ed25519::sign(m, &key));
            if op.ends_with("forged") {
                s[3] ^= 1;
            }
            drop(stop(ed25519::verify(m, &s, &pk)));
        }
        "ed25519-verify-signature" => drop(stop(ed25519::verify(b"x", m, &ed25519::gen_pk(&key)))),
        "compare" => drop(stop(util::verify_16(&[7; 16], m))),
        // verifications of untrusted strings: N selects one
        "verify-case" => {
            let (mut pk, mut s) = (ed25519::gen_pk(&key), ed25519::sign(b"message", &key));
            let mut r = n as u64;
            let mut next = || {
                r = r.wrapping_mul(0x2545f4914f6cdd1d).wrapping_add(0x9e3779b97f4a7c15);
                (r >> 33) as usize
            };
            match n % 8 {
                0 => (),
                1 => s[next() % 64] ^= 1 << (next() % 8),
                2 => pk[next() % 32] ^= 1 << (next() % 8),
                3 => pk.copy_from_slice(&[(next() % 3) as u8; 32]),
                4 => s[32..63].fill([0, 0xff, 0xaa, 0x77][next() % 4]),
                5 => s.iter_mut().for_each(|b| *b = next() as u8),
                6 => {
                    s.iter_mut().for_each(|b| *b = next() as u8);
                    s[63] &= 15;
                    pk.iter_mut().for_each(|b| *b = next() as u8);
                }
                _ => s[63] = next() as u8,
            }
            drop(stop(ed25519::verify(b"message", &s, &pk)));
        }
        // checks of tags: N % 4 selects the function, N / 4 what is presented; 0 is the setting up
        "tag-case" => {
            let m = &[7; 500][..];
            let shape = n / 4;
            let present = |right: &[u8]| {
                let l = right.len();
                let mut t = right.to_vec();
                match shape {
                    1 => (),
                    2 => t[0] ^= 1,
                    3 => t[l - 1] ^= 0x80,
                    // a right beginning, end or middle
                    4..=9 => t[[1, 2, 4, 8, 12, 15][shape - 4]..].iter_mut().for_each(|b| *b ^= 0x55),
                    10..=12 => t[..[1, l / 2, l - 1][shape - 10]].iter_mut().for_each(|b| *b ^= 0xff),
                    13 => t.iter_mut().step_by(2).for_each(|b| *b ^= 4),
                    14 => t.fill(0),
                    15 => t.fill(0xff),
                    16 => t.truncate(0),
                    17 => t.truncate(l - 1),
                    18 => t.truncate(l / 2),
                    19 => t.push(0),
                    20 => t.extend_from_within(..),
                    _ => t.iter_mut().for_each(|b| *b = !*b),
                }
                t
            };
            fn mac<H: HashFunction>(key: &[u8], m: &[u8], shape: usize, present: &dyn Fn(&[u8]) -> Vec<u8>) {
                let mut h = Hmac::<H>::new(key);
                h.update(m);
                let t = present(&h.tag());
                if shape > 0 {
                    let ok = black_box(hmac::verify::<H>(key, m, &t));
                    if ok != (shape == 1) {
                        std::process::exit(4);
                    }
                }
            }
            fn open<C: AeadCipher>(c: C, nonce: &[u8], m: &[u8], shape: usize, present: &dyn Fn(&[u8]) -> Vec<u8>) {
                let (mut o, mut back) = ([0; 500], [0; 500]);
                let t = present(&c.encrypt(m, nonce, b"data", &mut o));
                if shape > 0 {
                    let ok = black_box(c.decrypt(&o, nonce, b"data", &t, &mut back));
                    if ok != (shape == 1) {
                        std::process::exit(4);
                    }
                }
            }
            match n % 4 {
                0 => mac::<Sha256>(&key, m, shape, &present),
                1 => mac::<Sha512>(&key, m, shape, &present),
                2 => open(<Gcm<Aes128> as AeadCipher>::new(&key[..16]), &nonce, m, shape, &present),
                _ => open(<ChaCha20Poly1305 as AeadCipher>::new(&key), &nonce, m, shape, &present),
            }
        }
        // the same lengths with other contents: N % 12 selects the operation, N / 12 the contents
        "content-case" => {
            let (mut m, mut r) = ([0u8; 1200], 1u64);
            m.iter_mut().enumerate().for_each(|(i, b)| {
                r = r.wrapping_mul(0x5851f42d4c957f2d).wrapping_add(0x14057b7ef767814f);
                *b = match n / 12 {
                    0 => (r >> 40) as u8,
                    1 => 0,
                    2 => 0xff,
                    3 => 0xaa,
                    4 => 0x80,
                    5 => (i == 0) as u8,
                    6 => (i == 1199) as u8,
                    7 => [0, 0xff][i / 16 % 2],
                    8 => (i < 600) as u8,
                    _ => (i >> 2) as u8,
                }
            });
            let (m, o) = (&m[..], &mut [0; 1200][..]);
            let gcm = <Gcm<Aes128> as AeadCipher>::new(&key[..16]);
            let cp = <ChaCha20Poly1305 as AeadCipher>::new(&key);
            match n % 12 {
                0 => drop(black_box(sha2::sha256(m))),
                1 => drop(black_box(sha2::sha512(m))),
                2 => drop(black_box(hmac::hmac_sha256(m, m))),
                3 => hkdf::extract::<Sha256>(m, m, &mut o[..32]),
                4 => hkdf::expand::<Sha512>(m, m, &mut o[..300]),
                5 => drop(black_box(gcm.encrypt(m, &m[..12], m, o))),
                6 => drop(black_box(gcm.decrypt(m, &m[..12], m, &m[..16], o))),
                7 => drop(black_box(cp.encrypt(m, &m[..12], m, o))),
                8 => drop(black_box(cp.decrypt(m, &m[..12], m, &m[..16], o))),
                9 => drop(black_box(<Gcm<Aes128> as AeadCipher>::new(&m[..16]).encrypt(m, &nonce, m, o))),
                10 => drop(black_box(<ChaCha20Poly1305 as AeadCipher>::new(&m[..32]).encrypt(m, &nonce, m, o))),
                _ => drop(black_box(ed25519::sign(m, &m[..32]))),
            }
        }
        // exchanges with untrusted public keys
        "dh-case" => {
            let mut pk = [0; 32];
            for (i, b) in pk.iter_mut().enumerate() {
                *b = match n % 4 {
                    0 => 0,
                    1 => 0xff,
                    2 => (i == n / 4 % 32) as u8,
                    _ => (n * 31 + i * i * 7) as u8,
                };
            }
            drop(black_box(curve25519::dh(&pk, &key)));
        }
        _ => std::process::exit(3),
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        "taint" => taint(a[2].parse().unwrap()),
        "ops" => println!("{}", OPS.join(" ")),
        "costs" => println!("{}", COSTS.join(" ")),
        "cost" => cost(&a[2], a[3].parse().unwrap()),
        "trace" | "value" => {
            let (x, y) = (a[3].parse().unwrap(), a[4].parse().unwrap());
            let f = std::fs::read(&a[5]).unwrap();
            // the recorded window lies between the two calls of `request`
            println!("marker {:x}", request as *const () as usize);
            request(RUNNING, 0, 0);
            let o = black_box(trace(&a[2], x, y, &f));
            request(RUNNING, 0, 0);
            if a[1] == "value" {
                println!("value {}", o.iter().map(|b| format!("{b:02x}")).collect::<String>());
            }
        }
        _ => std::process::exit(3),
    }
}
