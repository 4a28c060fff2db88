//! Inputs whose byte count passes 32 bits, one or two per operation. Each takes up to two minutes of one
//! core, so they run in a process of their own beside the rest of a property's workload. Zeros keep the
//! inputs out of memory; mock ciphers and hashes keep what surrounds the code under test cheap.
use crate::api::*;
use crate::check;
use crate::fw::*;
use crate::mem::*;
use crate::mocks::*;
use crypto_pure::chacha20::Stream;
use crypto_pure::gcm::{AeadCipher, Gcm};
use crypto_pure::hmac::{self, Hmac};
use crypto_pure::poly1305::ChaCha20Poly1305;
use crypto_pure::sha2::HashFunction;
use crypto_pure::{ed25519, hkdf};
use refmodel::{chacha, ed, gcm, mac, poly};

const G4: usize = 1 << 32;
/// CPU seconds; what is measured here takes a quarter of it at most
const BUDGET: u64 = 1500;

impl<const D: usize, const B: usize> HashId for IEnds<D, B> {
    type H = Ends<D, B>;
    type M = EndsRef;
    const NAME: &'static str = "a toy hash";
    fn model() -> EndsRef {
        EndsRef(D, B)
    }
}
pub struct IEnds<const D: usize, const B: usize>;

fn zeros(x: &Ctx, n: usize) -> Option<Map> {
    let z = Map::zeros(n);
    if z.is_none() {
        x.remark(format!("no address space for {n} bytes: inputs of that length left out"));
    }
    z
}

pub fn run(x: &Ctx, prop: &str) {
    match prop {
        "C02" => macs(x),
        "C04" => kdf(x),
        "C06" => gcm_jobs(x),
        "C07" => stream(x),
        "C08" => cp(x),
        "C09" => open(x),
        "C13" => sign(x),
        "C14" => verify(x),
        "C15" => checked(x),
        _ => panic!("no huge inputs for {prop}"),
    }
}

fn mac_case<T: HashId>(c: &mut Case, key: &[u8], m: &[u8], what: &str) -> Res {
    c.fpn(key.len() as u64);
    c.fpn(m.len() as u64);
    c.fp(T::NAME.as_bytes());
    c.nontrivial();
    c.note(|| format!("HMAC with {}, {what}: key of {} bytes, message of {}", T::NAME, key.len(), m.len()));
    let want = mac::hmac(&T::model(), key, m);
    let mut h = Hmac::<T::H>::new(key);
    h.update(m);
    c.ev(2);
    diff(&format!("HMAC over {}, key {} bytes, message {} bytes", T::NAME, key.len(), m.len()), &h.tag(), &want)?;
    // one byte at either side of what a 32-bit count would make of it
    check!(hmac::verify::<T::H>(key, m, &want), "HMAC over {}: its own tag rejected, key {} bytes, message {} bytes", T::NAME, key.len(), m.len());
    for (k, n) in [(key.len() % G4, m.len() % G4), (key.len(), m.len() % G4), (key.len(), m.len().saturating_sub(1)), (key.len() % G4, m.len())] {
        if (k, n) == (key.len(), m.len()) || T::NAME != "a toy hash" {
            continue;
        }
        c.ev(1);
        let t = mac::hmac(&T::model(), &key[..k], &m[..n]);
        check!(t == want || !hmac::verify::<T::H>(key, m, &t), "the tag of a {n} byte message under a {k} byte key is accepted for {} bytes and a key of {} bytes", m.len(), key.len());
    }
    Ok(())
}
fn macs(x: &Ctx) {
    let n = 2 * G4 + 4096;
    let Some(z) = zeros(x, n) else { return };
    let toy: &[(usize, usize)] = &[(5, G4 - 1), (5, G4), (64, G4 + 77), (G4 + 1, 9), (G4 + 64, G4 + 3), (7, 2 * G4 + 129), (2 * G4 + 20, 0)];
    x.par_budget("4-gigabyte-toy", 2 * toy.len() as u64, BUDGET, |c| {
        let (k, m) = toy[c.idx as usize / 2];
        if c.idx % 2 == 0 {
            mac_case::<IEnds<32, 64>>(c, z.slice(k), z.slice(m), "lengths past 2^32")
        } else {
            mac_case::<IEnds<48, 128>>(c, z.slice(k), z.slice(m), "lengths past 2^32")
        }
    });
    let real: &[(bool, usize, usize)] = if x.thorough() { &[(true, 20, G4 + 77), (true, G4 + 5, 3), (false, 20, G4 + 77), (false, G4 + 5, 3)] } else { &[(true, 20, G4 + 77)] };
    x.par_budget("4-gigabyte", real.len() as u64, BUDGET, |c| {
        let (long, k, m) = real[c.idx as usize];
        if long {
            mac_case::<I512>(c, z.slice(k), z.slice(m), "lengths past 2^32")
        } else {
            mac_case::<I256>(c, z.slice(k), z.slice(m), "lengths past 2^32")
        }
    });
}
fn kdf_case<T: HashId>(c: &mut Case, salt: &[u8], ikm: &[u8], info: &[u8], n: usize) -> Res {
    c.fpn(salt.len() as u64);
    c.fpn(ikm.len() as u64);
    c.fpn(info.len() as u64);
    c.nontrivial();
    c.ev(2);
    let what = format!("HKDF over {}: salt {} bytes, input {} bytes, info {} bytes, {n} bytes out", T::NAME, salt.len(), ikm.len(), info.len());
    c.note(|| what.clone());
    let mut prk = vec![0; T::H::DIGEST_SIZE];
    hkdf::extract::<T::H>(salt, ikm, &mut prk);
    diff(&format!("{what}: extract"), &prk, &mac::extract(&T::model(), salt, ikm))?;
    let mut okm = vec![0; n];
    hkdf::expand::<T::H>(&prk, info, &mut okm);
    diff(&format!("{what}: expand"), &okm, &mac::expand(&T::model(), &prk, info, n))
}
fn kdf(x: &Ctx) {
    let Some(z) = zeros(x, 2 * G4 + 4096) else { return };
    let toy: &[(usize, usize, usize, usize)] = &[(0, G4 + 5, 3, 40), (G4 + 5, 7, 3, 40), (3, 7, G4 + 5, 100), (3, 7, G4 - 1, 100), (3, 7, G4, 33), (G4, G4, 2 * G4 + 1, 200), (64, 2 * G4 + 9, 0, 32)];
    x.par_budget("4-gigabyte-toy", 2 * toy.len() as u64, BUDGET, |c| {
        let (s, i, f, n) = toy[c.idx as usize / 2];
        if c.idx % 2 == 0 {
            kdf_case::<IEnds<32, 64>>(c, z.slice(s), z.slice(i), z.slice(f), n)
        } else {
            kdf_case::<IEnds<48, 128>>(c, z.slice(s), z.slice(i), z.slice(f), n)
        }
    });
    if x.thorough() {
        let real: &[(usize, usize, usize, usize)] = &[(3, G4 + 5, 3, 40), (G4 + 5, 7, 3, 40), (3, 7, G4 + 5, 100)];
        x.par_budget("4-gigabyte", real.len() as u64, BUDGET, |c| {
            let (s, i, f, n) = real[c.idx as usize];
            kdf_case::<I512>(c, z.slice(s), z.slice(i), z.slice(f), n)
        });
    }
}

/// GCM over a mock cipher with a constant keystream. Buffers that are written have memory of their own: a
/// library may well read back what it wrote (copy the input over, then apply the keystream in place).
fn gcm_jobs(x: &Ctx) {
    let n = G4 + 21;
    let Some(z) = zeros(x, n) else { return };
    x.par_budget("4-gigabyte-gcm", 2, BUDGET, |c| {
        let as_aad = c.idx == 0;
        let h: [u8; 16] = c.rng.arr();
        let ks: [u8; 16] = if as_aad { c.rng.arr() } else { [0; 16] };
        let g = with_mode(Mode::Chosen { h, mask: [0; 16], ks }, || <Gcm<Mock> as AeadCipher>::new(&[0; 16]));
        c.fpn(c.idx);
        c.nontrivial();
        c.ev(n as u64 / 16);
        c.note(|| format!("GCM seals {n} zero bytes of {}", if as_aad { "associated data" } else { "text" }));
        let want = gcm_zero_tag(h, ks, as_aad, n);
        if as_aad {
            return diff("tag over 4 GiB of associated data", &g.encrypt(&[], &[0; 12], z.slice(n), &mut []), &want);
        }
        let out = Map::rw(n).ok_or("no memory")?;
        let o = out.slice_mut(n);
        o.fill(0xa5);
        diff("tag over a 4 GiB message", &g.encrypt(z.slice(n), &[0; 12], &[], o), &want)?;
        let bad = not_repeating(o, &ks);
        check!(bad.is_none(), "ciphertext byte {bad:?} is not plaintext xor keystream");
        Ok(())
    });
    x.count_max("longest_gcm_input_bytes", n as u64);
}
/// the first byte of `o` that is not the block over and over
fn not_repeating(o: &[u8], block: &[u8; 16]) -> Option<usize> {
    let page: Vec<u8> = block.iter().cycle().take(4096).copied().collect();
    let k = o.chunks(4096).position(|c| *c != page[..c.len()])?;
    let i = o[k * 4096..].iter().zip(page.iter().cycle()).position(|(a, b)| a != b)?;
    Some(k * 4096 + i)
}
/// GHASH of zeros is 0, so the tag is H * lengths, masked
fn gcm_zero_tag(h: [u8; 16], ks: [u8; 16], as_aad: bool, n: usize) -> [u8; 16] {
    let bits = n as u128 * 8;
    (gcm::GMul::new(u128::from_be_bytes(h)).mul(if as_aad { bits << 64 } else { bits }) ^ u128::from_be_bytes(ks)).to_be_bytes()
}

fn cp_check(key: &[u8], nonce: &[u8], o: &[u8]) -> Res {
    for p in [0usize, 64 * 255, 64 * 65535, 1 << 28, (1 << 30) - 30, 1 << 31, o.len() - 100] {
        diff(&format!("output from byte {p} of {}", o.len()), &o[p..p + 100], &chacha::keystream(key, nonce, 64 + p as u64, 100))?;
    }
    Ok(())
}
fn cp(x: &Ctx) {
    let n = G4 + 21;
    let Some(z) = zeros(x, n) else { return };
    x.par_budget("4-gigabyte-chacha", 2, BUDGET, |c| {
        let (key, nonce) = (c.rng.bytes(32), c.rng.bytes(12));
        c.fpn(c.idx);
        c.nontrivial();
        c.ev(n as u64 / 16);
        let e = <ChaCha20Poly1305 as AeadCipher>::new(&key);
        let as_aad = c.idx == 0;
        c.note(|| format!("ChaCha20-Poly1305 seals {n} zero bytes of {}", if as_aad { "associated data" } else { "text" }));
        if as_aad {
            let t = e.encrypt(&[], &nonce, z.slice(n), &mut []);
            return diff("tag over 4 GiB of associated data", &t, &poly::tag(&key, &nonce, z.slice(n), &[]));
        }
        let out = Map::rw(n).ok_or("no memory")?;
        let o = out.slice_mut(n);
        let t = e.encrypt(z.slice(n), &nonce, &[], o);
        diff("tag over a 4 GiB message", &t, &poly::tag(&key, &nonce, &[], o))?;
        cp_check(&key, &nonce, o)
    });
    x.count_max("longest_chacha20_poly1305_input_bytes", n as u64);
}
/// Both ciphers opening zeros: with their tag, and with the tag of what a 32-bit length makes of them.
fn open(x: &Ctx) {
    let n = G4 + 21;
    let Some(z) = zeros(x, n) else { return };
    x.par_budget("4-gigabyte-opened", 8, BUDGET, |c| {
        let (gcm, as_aad, right) = (c.idx % 2 == 0, c.idx / 2 % 2 == 0, c.idx < 4);
        let (text, aad): (&[u8], &[u8]) = if as_aad { (&[], z.slice(n)) } else { (z.slice(n), &[]) };
        let tagged = if right { n } else { n % G4 };
        c.fpn(c.idx);
        c.nontrivial();
        c.ev(n as u64 / 16);
        let what = format!("{} with {n} zero bytes of {} and the tag of {tagged}", if gcm { "GCM" } else { "ChaCha20-Poly1305" }, if as_aad { "associated data" } else { "ciphertext" });
        c.note(|| what.clone());
        let (v, bad);
        if gcm {
            let (h, ks): ([u8; 16], [u8; 16]) = (c.rng.arr(), c.rng.arr());
            let g = with_mode(Mode::Chosen { h, mask: [0; 16], ks }, || <Gcm<Mock> as AeadCipher>::new(&[0; 16]));
            let out = Map::rw(n).ok_or("no memory")?;
            let o = out.slice_mut(text.len());
            v = g.decrypt(text, &[0; 12], aad, &gcm_zero_tag(h, ks, as_aad, tagged), o);
            let want: &[u8; 16] = if right { &ks } else { &[0; 16] };
            bad = not_repeating(o, want);
        } else {
            let (key, nonce) = (c.rng.bytes(32), c.rng.bytes(12));
            let tag = poly::tag(&key, &nonce, &aad[..tagged.min(aad.len())], &text[..tagged.min(text.len())]);
            let out = Map::rw(n).ok_or("no memory")?;
            let o = out.slice_mut(text.len());
            v = <ChaCha20Poly1305 as AeadCipher>::new(&key).decrypt(text, &nonce, aad, &tag, o);
            if right && !as_aad {
                cp_check(&key, &nonce, o)?;
            }
            bad = None;
        }
        check!(v == right, "{what}: {}", if v { "accepted" } else { "rejected" });
        check!(bad.is_none(), "{what}: output byte {bad:?} is wrong");
        Ok(())
    });
}

/// positions past 2^31 and 2^32, reached in different ways
fn stream(x: &Ctx) {
    let ways = if x.thorough() { 8 } else { 4 };
    x.par_budget("4-gigabyte-positions", ways, BUDGET, |c| {
        let (key, nonce) = (c.rng.bytes(32), c.rng.bytes(12));
        let mut s = Stream::new(&key, &nonce);
        let before = c.rng.below(200);
        let got: Vec<u8> = s.by_ref().take(before).collect();
        diff("first bytes", &got, &chacha::keystream(&key, &nonce, 0, before))?;
        let mut n = [1usize << 31, G4, G4, 1 << 31, G4, 1 << 33, 1 << 34, 1 << 33][c.idx as usize] + c.rng.below(100);
        c.fpn(c.idx);
        c.nontrivial();
        c.ev(n as u64);
        match c.idx {
            0 | 1 | 5 | 6 => {
                let b = s.nth(n);
                let w = chacha::keystream(&key, &nonce, (before + n) as u64, 1)[0];
                check!(b == Some(w), "nth({n}) at {before} gave {b:?}, not {w}");
                n += 1;
            }
            2 | 7 => {
                let z = Map::zeros(n).ok_or("no address space")?;
                // pages of output, over and over: the last one to write to each page stays
                let out = Map::rw(n).ok_or("no memory")?;
                let o = out.slice_mut(n);
                s.encrypt(z.slice(n), o);
                for p in [0, 1 << 20, (1 << 31) - 50, n - 300, n - 100] {
                    diff(&format!("byte {p} of {n} encrypted in one call"), &o[p..p + 100], &chacha::keystream(&key, &nonce, (before + p) as u64, 100))?;
                }
            }
            3 => {
                let b = s.by_ref().skip(n).next();
                let w = chacha::keystream(&key, &nonce, (before + n) as u64, 1)[0];
                check!(b == Some(w), "skip({n}) at {before} gave {b:?}, not {w}");
                n += 1;
            }
            _ => {
                let got = s.by_ref().take(n).count();
                check!(got == n, "{got} bytes were taken, not {n}");
            }
        }
        let p = (before + n) as u64;
        x.count_max("farthest_stream_position", p + 500);
        let i = c.idx;
        c.note(|| format!("way {i} of reaching position {p}"));
        diff(&format!("bytes from {p} (reached in way {})", c.idx), &s.take(500).collect::<Vec<u8>>(), &chacha::keystream(&key, &nonce, p, 500))
    });
}

fn sign(x: &Ctx) {
    let n = G4 + 77;
    let Some(z) = zeros(x, n) else { return };
    x.par_budget("4-gigabyte-message", if x.thorough() { 2 } else { 1 }, BUDGET, |c| {
        let sk = c.rng.bytes(32);
        let m = z.slice(n - c.idx as usize * 77);
        c.fp(&sk);
        c.nontrivial();
        c.ev(1);
        c.note(|| format!("signature of {} zero bytes", m.len()));
        let got = std::thread::scope(|s| {
            let t = s.spawn(|| ed::sign(&sk, m));
            let a = ed25519::sign(m, &sk);
            (a, t.join())
        });
        let want = got.1.map_err(|_| "the model panicked")?;
        diff(&format!("signature of {} zero bytes with key {}", m.len(), hx(&sk)), &got.0, &want)
    });
}
fn verify(x: &Ctx) {
    let n = G4 + 77;
    let Some(z) = zeros(x, n) else { return };
    x.par_budget("4-gigabyte-message", 3, BUDGET, |c| {
        c.fpn(c.idx);
        c.nontrivial();
        c.ev(1);
        let sk = c.rng.bytes(32);
        let pk = ed::public(&sk);
        let signed = if c.idx == 2 { n % G4 } else { n };
        let sig = ed::sign(&sk, z.slice(signed));
        c.note(|| format!("signature of {signed} zero bytes, key {}", hx(&sk)));
        match c.idx {
            0 => check!(ed25519::verify(z.slice(n), &sig, &pk), "a valid signature of {n} zero bytes is rejected: key {}", hx(&sk)),
            1 => check!(!ed25519::verify(z.slice(n % G4), &sig, &pk), "the signature of {n} zero bytes is accepted for {}", n % G4),
            _ => check!(!ed25519::verify(z.slice(n), &sig, &pk), "the signature of {signed} zero bytes is accepted for {n}"),
        }
        Ok(())
    });
}

/// C15: the same lengths in the build with overflow checks; whatever is computed is judged elsewhere.
fn checked(x: &Ctx) {
    let n = G4 + 85;
    let Some(z) = zeros(x, n) else { return };
    x.par_budget("4-gigabyte-operations", 8, BUDGET, |c| {
        let (key, nonce) = (c.rng.bytes(32), c.rng.bytes(12));
        c.fpn(c.idx);
        c.nontrivial();
        c.ev(n as u64);
        let i = c.idx;
        c.note(|| format!("operation {i} with {n} bytes"));
        match c.idx {
            0 => drop(Stream::new(&key, &nonce).nth((1 << 31) + 70)),
            1 => drop(Stream::new(&key, &nonce).skip(n).next()),
            2 => drop(<ChaCha20Poly1305 as AeadCipher>::new(&key).encrypt(&[], &nonce, z.slice(n), &mut [])),
            3 => drop(digest::<I256>(&[z.slice(n)])),
            4 => drop(digest::<I512>(&[b"x", z.slice((1 << 31) + 5), z.slice((1 << 31) + 5)])),
            5 => {
                let g = with_mode(Mode::Chosen { h: [3; 16], mask: [0; 16], ks: [1; 16] }, || <Gcm<Mock> as AeadCipher>::new(&[0; 16]));
                drop(g.encrypt(&[], &[0; 12], z.slice((1 << 31) + 5), &mut []))
            }
            6 => {
                let m = z.slice(n);
                drop(mac_tag::<IEnds<32, 64>>(m, &[m, m]));
                let p = z.slice((1 << 31) + 5);
                drop(mac_tag::<IEnds<48, 128>>(b"k", &[p, p, p, p, p]));
                drop(expand::<IEnds<32, 64>>(m, m, 255 * 32));
                drop(ed25519::verify(m, &[0; 64], &ed::public(&key)))
            }
            _ => {
                let out = Map::rw(1 << 31).ok_or("no memory")?;
                <ChaCha20Poly1305 as AeadCipher>::new(&key).encrypt(z.slice(1 << 31), &nonce, &[], out.slice_mut(1 << 31));
            }
        }
        Ok(())
    });
}
