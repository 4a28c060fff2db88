//! C16: documented length preconditions are refused by panic with the output untouched, and every
//! legal length is accepted. Giant lengths are probed in child processes over address space that
//! faults on any access.
use crate::api::*;
use crate::fw::*;
use crate::mem::Map;
use crate::mocks::*;
use crate::{by_sha, check};
use crypto_pure::aes::{Aes128, Aes192, Aes256, BlockCipher};
use crypto_pure::chacha20::Stream;
use crypto_pure::gcm::{AeadCipher, Gcm};
use crypto_pure::hkdf;
use crypto_pure::poly1305::ChaCha20Poly1305;
use crypto_pure::sha2::HashFunction;
use crypto_pure::{curve25519, ed25519};

/// f must panic exactly when `legal` is false
fn expect<T>(what: &str, legal: bool, f: impl FnOnce() -> T) -> Res {
    match (observe(f), legal) {
        (Ok(_), true) | (Err(_), false) => Ok(()),
        (Ok(_), false) => Err(format!("{what}: returned instead of panicking")),
        (Err(p), true) => Err(format!("{what}: a legal call panicked at {}:{}: {}", p.file, p.line, p.msg)),
    }
}
fn untouched(what: &str, out: &[u8], before: &[u8]) -> Res {
    diff(&format!("{what}: output buffer after the panic"), out, before)
}
/// lengths 0..=n plus a few large ones; never `skip`
fn length(c: &mut Case, n: usize) -> usize {
    let i = c.idx as usize;
    if i <= n {
        i
    } else {
        match c.rng.below(3) {
            0 => c.rng.below(5000),
            1 => 1 << c.rng.below(17),
            _ => 256 * c.rng.below(40) + *c.rng.pick(&[12usize, 16, 24, 28, 32, 48, 64]),
        }
    }
}

pub fn c16(x: &Ctx) {
    let nl = x.n(700, 8).max(400);
    x.par("key-lengths", nl, |c| {
        let n = length(c, 300);
        let k = c.rng.pattern(n);
        c.fpn(n as u64);
        c.nontrivial();
        c.note(|| format!("keys of {n} bytes"));
        c.ev(10);
        expect(&format!("Aes128::new with {n} bytes"), n == 16, || Aes128::new(&k))?;
        expect(&format!("Aes192::new with {n} bytes"), n == 24, || Aes192::new(&k))?;
        expect(&format!("Aes256::new with {n} bytes"), n == 32, || Aes256::new(&k))?;
        expect(&format!("Gcm<Aes128>::new with {n} bytes"), n == 16, || <Gcm<Aes128> as AeadCipher>::new(&k))?;
        expect(&format!("Gcm<Aes192>::new with {n} bytes"), n == 24, || <Gcm<Aes192> as AeadCipher>::new(&k))?;
        expect(&format!("Gcm<Aes256>::new with {n} bytes"), n == 32, || <Gcm<Aes256> as AeadCipher>::new(&k))?;
        expect(&format!("ChaCha20Poly1305::new with {n} bytes"), n == 32, || <ChaCha20Poly1305 as AeadCipher>::new(&k))?;
        expect(&format!("Stream::new with a key of {n} bytes"), n == 32, || Stream::new(&k, &[1; 12]))?;
        expect(&format!("Stream::new with a nonce of {n} bytes"), n == 12, || Stream::new(&[1; 32], &k))?;
        // which keys a block cipher of one's own takes is its own matter
        expect(&format!("Gcm<a cipher for keys of any length>::new with {n} bytes"), true, || <Gcm<Mock> as AeadCipher>::new(&k))?;
        let other = c.rng.below(70);
        let k2 = c.rng.bytes(other);
        expect(&format!("Stream::new with a key of {n} and a nonce of {other} bytes"), n == 32 && other == 12, || Stream::new(&k, &k2))
    });
    x.par("curve-key-lengths", nl, |c| {
        let n = length(c, 300);
        let k = c.rng.pattern(n);
        let ok = n == 32;
        c.fpn(n as u64);
        c.nontrivial();
        c.ev(7);
        c.note(|| format!("curve keys of {n} bytes"));
        let good: [u8; 32] = c.rng.arr();
        let ml = c.rng.below(50);
        let msg = c.rng.bytes(ml);
        expect(&format!("curve25519::gen_pk with {n} bytes"), ok, || curve25519::gen_pk(&k))?;
        expect(&format!("curve25519::dh with a secret of {n} bytes"), ok, || curve25519::dh(&good, &k))?;
        expect(&format!("curve25519::dh with a public key of {n} bytes"), ok, || curve25519::dh(&k, &good))?;
        expect(&format!("ed25519::gen_pk with {n} bytes"), ok, || ed25519::gen_pk(&k))?;
        expect(&format!("ed25519::sign with a key of {n} bytes"), ok, || ed25519::sign(&msg, &k))?;
        expect(&format!("ed25519::verify with a key of {n} bytes and garbage"), ok, || ed25519::verify(&msg, &[7; 64], &k))?;
        // wrong key length is refused whatever the signature is; every signature length is accepted
        let sl = c.rng.below(130);
        expect(&format!("ed25519::verify with a key of {n} bytes and a signature of {sl}"), ok, || ed25519::verify(&msg, &vec![0; sl], &k))?;
        let pk = ed25519::gen_pk(&good);
        let sig = ed25519::sign(&msg, &good);
        if n >= 32 && n != 32 {
            let mut long = pk.to_vec();
            long.resize(n, 0);
            expect(&format!("ed25519::verify of a valid signature with its key extended to {n} bytes"), false, || ed25519::verify(&msg, &sig, &long))?;
        }
        expect("ed25519::verify of a signature of any length", true, || ed25519::verify(&msg, &k, &pk))
    });
    x.par("aead-lengths", x.n(24_000, 30), |c| {
        let k = KINDS[(c.idx % 5) as usize];
        let nl = if c.rng.chance(1, 2) { 12 } else { c.rng.below(40) };
        let il = c.rng.len(300);
        let ol = match c.rng.below(5) {
            0 | 1 => il,
            2 => il + 1,
            3 => il.saturating_sub(1 + c.rng.below(20)),
            _ => c.rng.len(300),
        };
        let al = c.rng.len(60);
        let (key, nonce, input, aad) = (c.rng.bytes(k.key_len()), c.rng.bytes(nl), c.rng.pattern(il), c.rng.bytes(al));
        let legal = nl == 12 && il == ol;
        c.fpn((nl * 1000 + il) as u64 * 1000 + ol as u64);
        c.nontrivial_if(!legal);
        c.ev(3);
        c.note(|| format!("{k:?} nonce {nl} input {il} output {ol} bytes"));
        x.count(if legal { "aead_legal_calls" } else { "aead_illegal_calls" }, 1);
        let a = Aead::new(k, &key);
        let before = c.rng.bytes(ol);
        let what = format!("{k:?} nonce of {nl} bytes, input of {il}, output of {ol}");
        let mut out = before.clone();
        expect(&format!("{what}: encrypt"), legal, || a.encrypt(&input, &nonce, &aad, &mut out))?;
        if !legal {
            untouched(&format!("{what}: encrypt"), &out, &before)?;
        }
        // decryption of an authentic ciphertext (where the nonce allows one) and of garbage
        let n12: Vec<u8> = nonce.iter().cloned().chain(std::iter::repeat(0)).take(12).collect();
        let (ct, tag) = RefAead::new(k, &key).seal(&n12, &aad, &input);
        let mut out = before.clone();
        expect(&format!("{what}: decrypt authentic"), legal, || a.decrypt(&ct, &nonce, &aad, &tag, &mut out))?;
        if !legal {
            untouched(&format!("{what}: decrypt authentic"), &out, &before)?;
        }
        let tl = c.rng.below(34);
        let bad = c.rng.bytes(tl);
        let mut out = before.clone();
        expect(&format!("{what}: decrypt with a wrong tag of {tl} bytes"), legal, || a.decrypt(&ct, &nonce, &aad, &bad, &mut out))?;
        untouched(&format!("{what}: decrypt wrong tag"), &out, &before)?;
        if !legal && c.idx % 4 == 0 {
            // the refused calls have left the object usable
            let mut out = vec![0; il];
            let t = observe(|| a.encrypt(&input, &n12, &aad, &mut out));
            c.ev(1);
            check!(matches!(t, Ok(t) if t == tag) && out == ct, "{what}: the object no longer encrypts as before after the refused calls");
        }
        Ok(())
    });
    x.par("stream-lengths", x.n(20_000, 30), |c| {
        let (key, nonce) = (c.rng.bytes(32), c.rng.bytes(12));
        let mut s = Stream::new(&key, &nonce);
        let skip = c.rng.below(200);
        if skip > 0 {
            s.nth(skip - 1);
        }
        let il = c.rng.len(300);
        let ol = match c.rng.below(4) {
            0 => il,
            1 => il + 1 + c.rng.below(2) * c.rng.below(200),
            2 => il.saturating_sub(1),
            _ => c.rng.len(300),
        };
        let input = c.rng.bytes(il);
        let before = c.rng.bytes(ol);
        let mut out = before.clone();
        c.fpn((skip * 1000 + il) as u64 * 1000 + ol as u64);
        c.nontrivial_if(il != ol);
        c.ev(1);
        c.note(|| format!("stream at {skip}: input {il} output {ol}"));
        let e = c.rng.chance(1, 2);
        let what = format!("stream at byte {skip}: {} of {il} bytes into {ol}", if e { "encrypt" } else { "decrypt" });
        expect(&what, il == ol, || if e { s.encrypt(&input, &mut out) } else { s.decrypt(&input, &mut out) })?;
        if il != ol {
            untouched(&what, &out, &before)?;
            let n = 1 + c.rng.below(150);
            let next: Vec<u8> = s.by_ref().take(n).collect();
            check!(next == refmodel::chacha::keystream(&key, &nonce, skip as u64, n), "{what}: the refused call moved the stream: next bytes {}", hx(&next));
        }
        Ok(())
    });
    x.par("digest-lengths", x.n(4 * 400, 10), |c| {
        let h = (c.idx % 4) as usize;
        fn go<T: HashId>(c: &mut Case, n: usize) -> Res {
            let d = T::H::DIGEST_SIZE;
            let ml = c.rng.len(300);
            let m = c.rng.bytes(ml);
            let mut hf = T::H::default();
            hf.update(&m);
            let before = c.rng.bytes(n);
            let mut out = before.clone();
            c.fpn((d * 100_000 + n) as u64);
            c.nontrivial_if(n != d);
            c.note(|| format!("{} digest into {n} bytes", T::NAME));
            let what = format!("{}: write_digest into {n} bytes after {ml} bytes of input", T::NAME);
            expect(&what, n == d, || hf.write_digest(&mut out))?;
            if n != d {
                untouched(&what, &out, &before)?;
            }
            let before = c.rng.bytes(n);
            let mut out = before.clone();
            let what = format!("{}: extract into {n} bytes", T::NAME);
            let sl = c.rng.len(100);
            let salt = c.rng.bytes(sl);
            expect(&what, n == d, || hkdf::extract::<T::H>(&salt, &m, &mut out))?;
            if n != d {
                untouched(&what, &out, &before)?;
            }
            Ok(())
        }
        c.ev(2);
        let n = if c.idx / 4 < 280 { (c.idx / 4) as usize } else { c.rng.below(20_000) };
        by_sha!(h, go, c, n)
    });
    x.par("expand-lengths", x.n(4 * 900, 10), |c| {
        let h = (c.idx % 4) as usize;
        fn go<T: HashId>(c: &mut Case) -> Res {
            let d = T::H::DIGEST_SIZE;
            let max = 255 * d;
            let i = (c.idx / 4) as usize;
            // every key length with a small output; output lengths around and above the maximum
            let (pl, ol) = if i < 2 * d + 40 {
                (i, c.rng.len(100))
            } else if i < 2 * d + 80 {
                (d + c.rng.below(3), max - 20 + (i - 2 * d - 40))
            } else {
                let pl = if c.rng.chance(1, 3) { c.rng.below(d + 1) } else { d + c.rng.below(40) };
                (pl, if c.rng.chance(1, 2) { max + c.rng.below(3 * d) } else { c.rng.below(2 * max + 70_000 * c.rng.clone().below(2)) })
            };
            let (prk, il) = (c.rng.bytes(pl), c.rng.len(60));
            let info = c.rng.bytes(il);
            let before = c.rng.bytes(ol);
            let mut out = before.clone();
            let legal = pl >= d && ol <= max;
            c.fpn((d * 1000 + pl) as u64 * 1_000_000 + ol as u64);
            c.nontrivial_if(!legal || ol + 2 > max);
            c.note(|| format!("{}: key {pl}, output {ol}", T::NAME));
            let what = format!("{}: expand from a key of {pl} bytes to {ol} bytes (digest {d})", T::NAME);
            expect(&what, legal, || hkdf::expand::<T::H>(&prk, &info, &mut out))?;
            if !legal {
                untouched(&what, &out, &before)?;
            }
            Ok(())
        }
        c.ev(1);
        by_sha!(h, go, c)
    });
    x.par("compare-lengths", 600, |c| {
        let n = length(c, 300);
        let y = c.rng.bytes(n);
        c.fpn(n as u64);
        c.nontrivial();
        expect(&format!("verify_16 with {n} bytes"), true, || crypto_pure::util::verify_16(&[0; 16], &y))?;
        fn go<T: HashId>(y: &[u8]) -> Res {
            expect(&format!("hmac::verify with a tag of {} bytes", y.len()), true, || crypto_pure::hmac::verify::<T::H>(b"k", b"m", y))
        }
        by_sha!(c.idx as usize, go, &y)
    });
    // giant lengths, one child process each
    x.par("giant-lengths", PROBES.len() as u64, |c| {
        let (name, legal) = PROBES[c.idx as usize];
        c.fpn(c.idx);
        c.nontrivial();
        c.ev(1);
        c.note(|| format!("{name}: {}", if legal { "legal" } else { "illegal" }));
        let exe = std::env::current_exe().map_err(|e| e.to_string()).expect("own path");
        let o = std::process::Command::new(exe).args(["probe", name]).output().expect("child process");
        let err = String::from_utf8_lossy(&o.stderr).to_string();
        let out = String::from_utf8_lossy(&o.stdout).to_string();
        let outcome = match o.status.code() {
            Some(0) => "returned",
            Some(10) => "panicked",
            Some(99) => "touched its buffers",
            Some(11) => "no address space",
            _ => "ended abnormally",
        };
        match (outcome, legal) {
            ("no address space", _) | ("ended abnormally", _) => {
                x.remark(format!("probe {name} gave no verdict: {outcome} ({:?}) {}", o.status, err.trim()));
                Ok(())
            }
            ("panicked", false) => Ok(()),
            ("panicked", true) => Err(format!("{name}: refused although legal: {}", out.trim())),
            (_, true) => {
                x.count("giant_legal_accepted", 1);
                Ok(())
            }
            (_, false) => Err(format!("{name}: {outcome} instead of panicking {}", err.trim())),
        }
    });
}

/// name, whether the call is within the documented preconditions
const PROBES: &[(&str, bool)] = &[
    ("gcm-encrypt-2^36-33", true),
    ("gcm-encrypt-2^36-32", false),
    ("gcm-encrypt-2^36-31", false),
    ("gcm-encrypt-2^36", false),
    ("gcm-encrypt-2^36+1", false),
    ("gcm-encrypt-2^37", false),
    ("gcm-encrypt-2^40+5", false),
    ("gcm-decrypt-2^36-33", true),
    ("gcm-decrypt-2^36-32", false),
    ("gcm-decrypt-2^36-31", false),
    ("gcm-decrypt-2^36", false),
    ("gcm-decrypt-2^37", false),
    ("gcm-decrypt-2^40+5", false),
    ("gcm-encrypt-data-2^61-1", true),
    ("gcm-encrypt-data-2^61", false),
    ("gcm-encrypt-data-2^61+1", false),
    ("gcm-encrypt-data-2^62", false),
    ("gcm-encrypt-data-2^63-1", false),
    ("gcm-decrypt-data-2^61-1", true),
    ("gcm-decrypt-data-2^61", false),
    ("gcm-decrypt-data-2^63-1", false),
    ("gcm-encrypt-out-2^36-33-vs-2^36-34", false),
    ("gcm-encrypt-in-2^32-vs-0", false),
    ("gcm-decrypt-in-2^32-vs-0", false),
    ("cp-encrypt-2^38-64", true),
    ("cp-encrypt-2^38-63", false),
    ("cp-encrypt-2^38", false),
    ("cp-encrypt-2^38+64", false),
    ("cp-encrypt-2^40", false),
    ("cp-decrypt-2^38-64", true),
    ("cp-decrypt-2^38-63", false),
    ("cp-decrypt-2^38", false),
    ("cp-decrypt-2^40", false),
    ("cp-encrypt-in-2^32-vs-0", false),
    ("cp-decrypt-in-2^32-vs-0", false),
    ("stream-in-2^32-vs-0", false),
    ("stream-in-0-vs-2^32", false),
    ("stream-in-2^32+5-vs-5", false),
    ("aes-key-2^32+16", false),
    ("cp-key-2^32+32", false),
    ("gcm-nonce-2^32+12", false),
    ("cp-nonce-2^32+12", false),
    ("stream-key-2^32+32", false),
    ("stream-nonce-2^32+12", false),
    ("dh-secret-2^32+32", false),
    ("dh-public-2^32+32", false),
    ("ed-sign-key-2^32+32", false),
    ("ed-verify-key-2^32+32", false),
    ("digest-2^32+32", false),
    ("extract-2^32+32", false),
    ("expand-okm-2^32+32", false),
];
fn parse(s: &str) -> usize {
    // sums and differences of integers and powers 2^k
    let mut total = 0i128;
    let mut sign = 1i128;
    let mut cur = String::new();
    let val = |t: &str| -> i128 {
        match t.split_once('^') {
            Some((b, e)) => b.parse::<i128>().unwrap().pow(e.parse().unwrap()),
            None => t.parse().unwrap(),
        }
    };
    for ch in s.chars().chain(std::iter::once('+')) {
        if ch == '+' || ch == '-' {
            total += sign * val(&cur);
            cur.clear();
            sign = if ch == '+' { 1 } else { -1 };
        } else {
            cur.push(ch);
        }
    }
    total as usize
}
/// Runs one giant-length call; exit code 0 returned, 10 panicked, 99 faulted (crash monitor).
pub fn probe(name: &str) -> ! {
    // a slice of any length at the start of a region without access; nothing reads it unless the
    // library does, and then it faults
    static mut KEEP: Vec<Map> = vec![];
    fn region(n: usize) -> &'static mut [u8] {
        let have = n.min(1 << 42).max(1);
        let Some(m) = Map::unmapped(have) else { std::process::exit(11) };
        let p = m.p;
        unsafe {
            #[allow(static_mut_refs)]
            KEEP.push(m);
            std::slice::from_raw_parts_mut(p, n)
        }
    }
    /// readable zeros: keys and nonces may be read before their length is looked at
    fn zeros(n: usize) -> &'static mut [u8] {
        let Some(m) = Map::rw(n) else { std::process::exit(11) };
        let p = m.p;
        unsafe {
            #[allow(static_mut_refs)]
            KEEP.push(m);
            std::slice::from_raw_parts_mut(p, n)
        }
    }
    let small = &mut [0u8; 0][..];
    let nonce = &[0; 12];
    let r = observe(|| {
        let aead = |rest: &str, enc: bool, cipher: &dyn Fn(bool, &[u8], &[u8], &mut [u8])| {
            let nothing: &mut [u8] = &mut [];
            if let Some(n) = rest.strip_prefix("data-") {
                cipher(enc, &[], region(parse(n)), nothing)
            } else if let Some(n) = rest.strip_prefix("out-") {
                let (a, b) = n.split_once("-vs-").unwrap();
                cipher(enc, region(parse(a)), &[], region(parse(b)))
            } else if let Some(n) = rest.strip_prefix("in-") {
                let (a, b) = n.split_once("-vs-").unwrap();
                cipher(enc, region(parse(a)), &[], region(parse(b)))
            } else {
                let n = parse(rest);
                cipher(enc, region(n), &[], region(n))
            }
        };
        let gcm = |enc: bool, i: &[u8], d: &[u8], o: &mut [u8]| {
            let c = <Gcm<Mock> as AeadCipher>::new(&[0; 16]);
            if enc {
                c.encrypt(i, nonce, d, o);
            } else {
                c.decrypt(i, nonce, d, &[0; 16], o);
            }
        };
        let cp = |enc: bool, i: &[u8], d: &[u8], o: &mut [u8]| {
            let c = <ChaCha20Poly1305 as AeadCipher>::new(&[0; 32]);
            if enc {
                c.encrypt(i, nonce, d, o);
            } else {
                c.decrypt(i, nonce, d, &[0; 16], o);
            }
        };
        if let Some(r) = name.strip_prefix("gcm-encrypt-") {
            aead(r, true, &gcm)
        } else if let Some(r) = name.strip_prefix("gcm-decrypt-") {
            aead(r, false, &gcm)
        } else if let Some(r) = name.strip_prefix("cp-encrypt-") {
            aead(r, true, &cp)
        } else if let Some(r) = name.strip_prefix("cp-decrypt-") {
            aead(r, false, &cp)
        } else if let Some(r) = name.strip_prefix("stream-in-") {
            let (a, b) = r.split_once("-vs-").unwrap();
            let (a, b) = (parse(a), parse(b));
            Stream::new(&[0; 32], nonce).encrypt(region(a), region(b));
        } else {
            let (what, n) = name.rsplit_once('-').unwrap();
            let n = parse(n);
            match what {
                "aes-key" => drop(Aes128::new(zeros(n))),
                "cp-key" => drop(<ChaCha20Poly1305 as AeadCipher>::new(zeros(n))),
                "gcm-nonce" => drop(<Gcm<Aes128> as AeadCipher>::new(&[0; 16]).encrypt(&[], zeros(n), &[], small)),
                "cp-nonce" => drop(<ChaCha20Poly1305 as AeadCipher>::new(&[0; 32]).encrypt(&[], zeros(n), &[], small)),
                "stream-key" => drop(Stream::new(zeros(n), nonce)),
                "stream-nonce" => drop(Stream::new(&[0; 32], zeros(n))),
                "dh-secret" => drop(curve25519::dh(&[9; 32], zeros(n))),
                "dh-public" => drop(curve25519::dh(zeros(n), &[9; 32])),
                "ed-sign-key" => drop(ed25519::sign(b"", zeros(n))),
                "ed-verify-key" => drop(ed25519::verify(b"", &[0; 64], zeros(n))),
                "digest" => crypto_pure::sha2::Sha256::default().write_digest(region(n)),
                "extract" => hkdf::extract::<crypto_pure::sha2::Sha256>(b"", b"", region(n)),
                "expand-okm" => hkdf::expand::<crypto_pure::sha2::Sha256>(&[1; 32], b"", region(n)),
                _ => std::process::exit(12),
            }
        }
    });
    match r {
        Ok(_) => std::process::exit(0),
        Err(p) => {
            println!("panic at {}:{}: {}", p.file, p.line, p.msg);
            std::process::exit(if p.file.contains("harness") || p.file.starts_with("src/") { 12 } else { 10 })
        }
    }
}
