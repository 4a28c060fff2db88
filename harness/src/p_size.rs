//! Families shared by the properties: inputs whose lengths climb a ladder of powers of two, one parameter at a
//! time, and histories of very many calls. Thresholds a change may hide behind (a buffer of 1 KiB, a counter of 16
//! bits, a fast path from 64 KiB on) lie below some rung.
use crate::api::*;
use crate::fw::*;
use crate::p_aead::{c10_case, seal_case};
use crate::p_mac::{expand_canary, hmac_case, sha_parts};
use crate::{by_hash, by_sha, check};
use crypto_pure::chacha20::Stream;
use crypto_pure::hmac;
use crypto_pure::sha2::HashFunction;
use crypto_pure::{curve25519, ed25519, hkdf};
use refmodel::mac::{self, Hash as _};
use refmodel::{chacha, ed};

/// the highest rung: 2^hi in the optimised and checked builds, less in the slow ones
fn top(x: &Ctx, hi: u32) -> u32 {
    if x.variant == "o0" {
        hi.min(13)
    } else if !matches!(x.variant.as_str(), "rel" | "chk") {
        hi.min(16)
    } else if x.panics_only && !x.thorough() {
        hi - 2
    } else if x.thorough() {
        hi + 1
    } else {
        hi
    }
}
/// length number `i` of the ladder from 2^lo to 2^hi: below, at, above and beyond each rung
fn rung(c: &mut Case, i: u64, lo: u32, hi: u32) -> usize {
    let k = lo + (i / 4) as u32 % (hi - lo + 1);
    match i % 4 {
        0 => (1 << k) - 1,
        1 => 1 << k,
        2 => (1 << k) + 1,
        _ => (1 << k) + c.rng.below(1 << k),
    }
}
fn rungs(lo: u32, hi: u32) -> u64 {
    4 * (hi - lo + 1) as u64
}
/// cheap bytes that differ everywhere
fn blob(c: &mut Case, n: usize) -> Vec<u8> {
    c.rng.bytes(n)
}

fn sha_rung<T: HashId>(c: &mut Case, n: usize) -> Res {
    let m = blob(c, n);
    c.nontrivial();
    c.note(|| format!("{} of {n} bytes: one update, after 1 byte, as one call", T::NAME));
    sha_parts::<T>(c, &[&m])?;
    sha_parts::<T>(c, &[&m[..1], &m[1..]])?;
    diff(&format!("one-call {} of {n} bytes", T::NAME), &T::oneshot(&m).unwrap(), &T::model().hash(&[&m]))
}
fn sha_many<T: HashId>(c: &mut Case, calls: usize) -> Res {
    let m: Vec<Vec<u8>> = (0..calls).map(|_| c.rng.below(3)).collect::<Vec<_>>().into_iter().map(|n| c.rng.bytes(n)).collect();
    let parts: Vec<&[u8]> = m.iter().map(|p| &p[..]).collect();
    c.nontrivial();
    c.note(|| format!("{} in {calls} updates of 0 to 2 bytes", T::NAME));
    c.ev(calls as u64);
    sha_parts::<T>(c, &parts)
}
const MANY: &[usize] = &[257, 1025, 65_537, 70_000];
pub fn c01(x: &Ctx) {
    let hi = top(x, 25);
    x.par("size-ladder", 4 * rungs(10, hi), |c| {
        let n = rung(c, c.idx / 4, 10, hi);
        by_sha!(c.idx % 4, sha_rung, c, n)
    });
    x.par("many-updates", 4 * MANY.len() as u64, |c| by_sha!(c.idx % 4, sha_many, c, MANY[(c.idx / 4) as usize]));
    x.count_max("ladder_top_bytes", 1 << hi);
}

fn hmac_rung<T: HashId>(c: &mut Case, which: u64, n: usize) -> Res {
    let (kl, ml) = if which == 0 { (n, c.rng.len(100)) } else { (c.rng.len(100), n) };
    let (key, m) = (blob(c, kl), blob(c, ml));
    c.note(|| format!("HMAC-{} key {kl} bytes, message {ml} bytes", T::NAME));
    hmac_case::<T>(c, &key, &m, &[&m])
}
fn hmac_many<T: HashId>(c: &mut Case, calls: usize) -> Res {
    let key = c.rng.bytes(30);
    let m = c.rng.bytes(calls / 2);
    let parts: Vec<&[u8]> = (0..calls).map(|i| if i % 2 == 1 { &m[i / 2..i / 2 + 1] } else { &[][..] }).collect();
    c.note(|| format!("HMAC-{} in {calls} updates of 0 or 1 bytes", T::NAME));
    c.ev(calls as u64);
    hmac_case::<T>(c, &key, &m, &parts)
}
pub fn c02(x: &Ctx) {
    let hi = top(x, 23);
    x.par("size-ladder", NHASH * 2 * rungs(9, hi), |c| {
        let n = rung(c, c.idx / (2 * NHASH), 9, hi);
        by_hash!(c.idx % NHASH, hmac_rung, c, c.idx / NHASH % 2, n)
    });
    x.par("many-updates", NHASH * MANY.len() as u64, |c| by_hash!(c.idx % NHASH, hmac_many, c, MANY[(c.idx / NHASH) as usize]));
}

fn verify_rung<T: HashId>(c: &mut Case, which: u64, n: usize) -> Res {
    let (kl, ml) = if which == 0 { (n, c.rng.len(100)) } else { (1 + c.rng.len(100), n) };
    let (mut key, mut m) = (blob(c, kl), blob(c, ml));
    let t = mac::hmac(&T::model(), &key, &m);
    c.fp(&t);
    c.nontrivial();
    c.ev(6);
    c.note(|| format!("HMAC-{} key {kl} bytes, message {ml} bytes: right tag, changed tag, changed at the beginning, in the middle and at the end", T::NAME));
    check!(hmac::verify::<T::H>(&key, &m, &t), "verify rejected the RFC 2104 tag of a {ml}-byte message under a {kl}-byte key");
    let mut w = t.clone();
    let b = c.rng.below(8 * w.len());
    w[b / 8] ^= 1 << (b % 8);
    check!(!hmac::verify::<T::H>(&key, &m, &w), "verify accepted a tag with bit {b} flipped ({kl}-byte key, {ml}-byte message)");
    for at in [0, 1, n / 2, n - 2, n - 1, c.rng.below(n)] {
        let d = 1 << c.rng.below(8);
        if which == 0 { key[at] ^= d } else { m[at] ^= d }
        // (tags of toy hashes are short enough to agree by chance)
        let want = t.len() < 16 && mac::hmac(&T::model(), &key, &m) == t;
        let got = hmac::verify::<T::H>(&key, &m, &t);
        check!(got == want, "verify returned {got} for a {} changed at byte {at} of {n}", if which == 0 { "key" } else { "message" });
        if which == 0 { key[at] ^= d } else { m[at] ^= d }
    }
    Ok(())
}
pub fn c03(x: &Ctx) {
    let hi = top(x, 22);
    x.par("size-ladder", NHASH * 2 * rungs(9, hi), |c| {
        let n = rung(c, c.idx / (2 * NHASH), 9, hi);
        by_hash!(c.idx % NHASH, verify_rung, c, c.idx / NHASH % 2, n)
    });
}

fn hkdf_rung<T: HashId>(c: &mut Case, which: u64, n: usize) -> Res {
    let d = T::H::DIGEST_SIZE;
    let mut l = [c.rng.len(80), c.rng.len(80), d + c.rng.len(80), c.rng.len(80)];
    l[which as usize] = n.max(if which == 2 { d } else { 0 });
    let [salt, ikm, prk, info] = l.map(|n| blob(c, n));
    c.fp(T::NAME.as_bytes());
    c.fp(&salt);
    c.fp(&info);
    c.nontrivial();
    c.ev(1);
    c.note(|| format!("HKDF-{} salt, ikm, prk, info of {l:?} bytes", T::NAME));
    if which < 2 {
        let mut o = vec![0; d];
        hkdf::extract::<T::H>(&salt, &ikm, &mut o);
        diff(&format!("HKDF-{} extract (salt {}, ikm {})", T::NAME, l[0], l[1]), &o, &mac::extract(&T::model(), &salt, &ikm))
    } else {
        let n = 2 * d + c.rng.below(d + 1);
        let want = mac::expand(&T::model(), &prk, &info, n);
        expand_canary::<T>(c, &prk, &info, n, &want)
    }
}
pub fn c04(x: &Ctx) {
    let hi = top(x, 22);
    x.par("size-ladder", NHASH * 4 * rungs(8, hi), |c| {
        let n = rung(c, c.idx / (4 * NHASH), 8, hi);
        by_hash!(c.idx % NHASH, hkdf_rung, c, c.idx / NHASH % 4, n)
    });
}

/// associated data and messages up to the given rungs for a mock cipher, less for the slow real ones
pub fn seal(x: &Ctx, kinds: &'static [Kind], hi: u32) {
    let hi = top(x, hi);
    let n = kinds.len() as u64;
    x.par("size-ladder", 2 * n * rungs(9, hi), |c| {
        let k = kinds[(c.idx % n) as usize];
        let l = rung(c, c.idx / (2 * n), 9, hi);
        let l = if matches!(k, Kind::CP | Kind::GMock) { l } else { l % (1 << hi.min(19)) };
        let (al, pl) = if c.idx / n % 2 == 0 { (l, c.rng.len(90)) } else { (c.rng.len(90), l) };
        let (key, nonce) = (c.rng.bytes(k.key_len()), c.rng.bytes(12));
        let (aad, pt) = (blob(c, al), blob(c, pl));
        seal_case(c, k, &key, &nonce, &aad, &pt)
    });
}

pub fn c07(x: &Ctx) {
    let hi = top(x, 24);
    x.par("size-ladder", 4 * rungs(9, hi), |c| {
        let n = rung(c, c.idx / 4, 9, hi);
        let (key, nonce) = (c.rng.bytes(32), c.rng.bytes(12));
        let mut s = Stream::new(&key, &nonce);
        // before it: nothing, iteration to a boundary, a call, a skip
        let pos = match c.idx % 4 {
            0 => 0,
            1 => s.by_ref().take(64 * c.rng.below(4)).count(),
            2 => {
                let l = c.rng.below(200);
                s.encrypt(&vec![0; l], &mut vec![0; l]);
                l
            }
            _ => {
                let l = c.rng.below(300);
                s.nth(l);
                l + 1
            }
        };
        let m = blob(c, n);
        let mut o = vec![0xa5; n];
        c.fp(&key);
        c.fpn(n as u64);
        c.nontrivial();
        c.ev(2);
        c.note(|| format!("{n} bytes in one call at position {pos}, then 70 more by iteration"));
        if c.rng.chance(1, 2) {
            s.encrypt(&m, &mut o)
        } else {
            s.decrypt(&m, &mut o)
        }
        let ks = chacha::keystream(&key, &nonce, pos as u64, n + 70);
        let want: Vec<u8> = m.iter().zip(&ks).map(|(a, b)| a ^ b).collect();
        diff(&format!("{n} bytes in one call at position {pos}"), &o, &want)?;
        let more: Vec<u8> = s.by_ref().take(70).collect();
        diff(&format!("70 bytes after {n} bytes in one call at position {pos}"), &more, &ks[n..])
    });
    x.par("many-calls", 2 * MANY.len() as u64, |c| {
        let calls = MANY[(c.idx / 2) as usize];
        let (key, nonce) = (c.rng.bytes(32), c.rng.bytes(12));
        let mut s = Stream::new(&key, &nonce);
        c.fp(&key);
        c.fpn(calls as u64);
        c.nontrivial();
        c.ev(calls as u64);
        c.note(|| format!("{calls} calls of 0 to 2 bytes"));
        let ks = chacha::keystream(&key, &nonce, 0, 3 * calls + 3);
        let mut pos = 0;
        for i in 0..calls {
            let l = c.rng.below(3);
            let mut o = [0u8; 3];
            match (c.idx + i as u64) % 3 {
                0 => s.encrypt(&[0; 3][..l], &mut o[..l]),
                1 => s.decrypt(&[0; 3][..l], &mut o[..l]),
                _ => {
                    o[l] = s.nth(l).unwrap();
                    check!(o[l] == ks[pos + l], "call {i} of a history of small calls: nth({l}) at {pos}");
                    pos += l + 1;
                    continue;
                }
            }
            check!(o[..l] == ks[pos..pos + l], "call {i} of a history of small calls: {l} bytes at {pos}");
            pos += l;
        }
        Ok(())
    });
}

/// uses of one object; thorough goes past 2^20
fn life(x: &Ctx, quick: u64) -> u64 {
    if x.thorough() { (1 << 20) + quick } else { quick }
}
fn budget(x: &Ctx) -> u64 {
    if x.thorough() { 6000 } else { 150 }
}
/// one object's long life: very many small messages, each judged
pub fn seal_life(x: &Ctx, kinds: &'static [Kind]) {
    if !matches!(x.variant.as_str(), "rel" | "chk") {
        return;
    }
    let long = life(x, 66_000);
    x.par_budget("many-messages", 2 * kinds.len() as u64, budget(x), |c| {
        let k = kinds[(c.idx / 2) as usize];
        let (key, mut nonce) = (c.rng.bytes(k.key_len()), c.rng.bytes(12));
        let (a, r) = (Aead::new(k, &key), RefAead::new(k, &key));
        let n = if c.idx % 2 == 0 { long } else { 5000 };
        c.fp(&key);
        c.nontrivial();
        c.ev(n);
        c.note(|| format!("{k:?} object with key {} seals {n} messages", hx(&key)));
        for i in 0..n {
            // the same nonce all the time, or another one for each message
            if c.idx % 2 == 1 || i % 3 == 0 {
                nonce[(i % 12) as usize] = nonce[(i % 12) as usize].wrapping_add(1 + c.rng.u8() % 7);
            }
            let b = c.rng.arr::<40>();
            let (al, pl) = if c.idx % 2 == 0 { (0, c.rng.below(4)) } else { (c.rng.below(20), c.rng.below(20)) };
            let (aad, pt) = (&b[..al], &b[20..20 + pl]);
            let mut o = [0xa5; 20];
            let t = a.encrypt(pt, &nonce, aad, &mut o[..pl]);
            let (ct, want) = r.seal(&nonce, aad, pt);
            check!(t == want && o[..pl] == ct[..], "{k:?} key {}: message {i} of this object (nonce {}, data {}, text {}) gave {} tag {}, expected {} tag {}", hx(&key), hx(&nonce), hx(aad), hx(pt), hx(&o[..pl]), hx(&t), hx(&ct), hx(&want));
        }
        Ok(())
    });
}
/// the same for opening: runs of forgeries between authentic inputs and the other way round
fn open_life(x: &Ctx) {
    if !matches!(x.variant.as_str(), "rel" | "chk") {
        return;
    }
    let long = life(x, 66_000);
    x.par_budget("many-forgeries", 4 * KINDS.len() as u64, budget(x), |c| {
        let k = KINDS[(c.idx / 4) as usize];
        let kind = c.idx % 4;
        let (key, nonce) = (c.rng.bytes(k.key_len()), c.rng.bytes(12));
        let (a, r) = (Aead::new(k, &key), RefAead::new(k, &key));
        let (aad, pt) = (c.rng.bytes(3), c.rng.bytes(5));
        let (ct, tag) = r.seal(&nonce, &aad, &pt);
        c.fp(&tag);
        c.nontrivial();
        c.note(|| format!("{k:?} key {}: runs of 1 to {long} {} between single others", hx(&key), if kind == 3 { "authentic inputs" } else { "forgeries" }));
        let mut total = 0u64;
        for run in [1, 2, 3, 4, 5, 8, 10, 16, 20, 32, 50, 64, 100, 128, 200, 256, 500, 512, 1000, 1024, 5000, long] {
            for odd in [false, true] {
                for i in 0..if odd { 1 } else { run as usize } {
                    total += 1;
                    let mut o = [0xa5; 5];
                    let forged = (kind == 3) == odd;
                    let v = if !forged {
                        a.decrypt(&ct, &nonce, &aad, &tag, &mut o)
                    } else {
                        let mut t = tag.to_vec();
                        let mut d = aad.clone();
                        match kind {
                            0 | 3 => t[i % 16] ^= 1 << (i / 16 % 8),
                            1 => t.truncate(i % 16),
                            _ => d[i % 3] ^= 1 << (i / 3 % 8),
                        }
                        a.decrypt(&ct, &nonce, &d, &t, &mut o)
                    };
                    check!(v != forged, "{k:?} key {}: call {total} of this object, after a run of {run} {}: {}", hx(&key), if kind == 3 { "authentic inputs" } else { "forgeries" }, if v { "a forgery was accepted" } else { "authentic input was rejected" });
                    check!(if v { o[..] == pt[..] } else { o == [0xa5; 5] }, "{k:?} key {}: call {total} of this object left {} in the output", hx(&key), hx(&o));
                }
            }
        }
        c.ev(total);
        Ok(())
    });
}
pub fn c05(x: &Ctx) {
    if !matches!(x.variant.as_str(), "rel" | "chk") {
        return;
    }
    let long = life(x, 70_000) * if x.thorough() { 15 } else { 1 };
    x.par_budget("many-blocks", 6, budget(x), |c| {
        let key = c.rng.bytes([16, 24, 32][(c.idx % 3) as usize]);
        let (a, r) = (Blk::new(&key), refmodel::aes::Aes::new(&key));
        c.fp(&key);
        c.nontrivial();
        c.ev(long);
        c.note(|| format!("key {}: {long} blocks with one object", hx(&key)));
        let mut b: [u8; 16] = c.rng.arr();
        for i in 0..long as usize {
            let (got, want) = (a.permute(&b), r.encrypt(&b));
            check!(got == want, "key {}: block {i} of this object, {}, gave {} expected {}", hx(&key), hx(&b), hx(&got), hx(&want));
            // all over the place, or counting
            if c.idx < 3 { b = got } else { b[15 - i % 3] = b[15 - i % 3].wrapping_add(1) }
        }
        Ok(())
    });
}
/// long tuples: authentic, and changed in one place
pub fn c09(x: &Ctx) {
    open_life(x);
    let hi = top(x, 22);
    x.par("size-ladder", 10 * rungs(9, hi), |c| {
        let k = KINDS[(c.idx % 5) as usize];
        let l = rung(c, c.idx / 10, 9, hi);
        let l = if matches!(k, Kind::CP | Kind::GMock) { l } else { l % (1 << hi.min(18)) };
        let (al, pl) = if c.idx / 5 % 2 == 0 { (l, 1 + c.rng.len(50)) } else { (1 + c.rng.len(50), l) };
        let (key, nonce) = (c.rng.bytes(k.key_len()), c.rng.bytes(12));
        let (mut aad, mut ct) = (blob(c, al), blob(c, pl));
        let mut tag = RefAead::new(k, &key).tag(&nonce, &aad, &ct).to_vec();
        let a = Aead::new(k, &key);
        let mut out = vec![0; pl];
        c.fp(&tag);
        c.nontrivial();
        c.ev(12);
        c.note(|| format!("{k:?} data {al} bytes, ciphertext {pl} bytes: authentic; bits flipped in the tag and at either end and inside of both inputs"));
        check!(a.decrypt(&ct, &nonce, &aad, &tag, &mut out), "{k:?} rejected an authentic tuple: data {al} bytes, ciphertext {pl} bytes");
        for b in [0, 127, c.rng.below(128)] {
            tag[b / 8] ^= 1 << (b % 8);
            check!(!a.decrypt(&ct, &nonce, &aad, &tag, &mut out), "{k:?} accepted with tag bit {b} flipped: data {al} bytes, ciphertext {pl} bytes");
            tag[b / 8] ^= 1 << (b % 8);
        }
        for data in [true, false] {
            for i in 0..4 {
                let v = if data { &mut aad } else { &mut ct };
                if v.is_empty() {
                    continue;
                }
                let at = [0, v.len() - 1, v.len() / 2, c.rng.below(v.len())][i];
                let d = 1u8 << c.rng.below(8);
                v[at] ^= d;
                let r = a.decrypt(&ct, &nonce, &aad, &tag, &mut out);
                check!(!r, "{k:?} accepted with byte {at} of the {} changed: data {al} bytes, ciphertext {pl} bytes", if data { "data" } else { "ciphertext" });
                if data {
                    aad[at] ^= d
                } else {
                    ct[at] ^= d
                }
            }
        }
        Ok(())
    });
}
pub fn c10(x: &Ctx) {
    let hi = top(x, 19);
    x.par("size-ladder", 10 * rungs(12, hi), |c| {
        let k = KINDS[(c.idx % 5) as usize];
        let l = rung(c, c.idx / 10, 12, hi);
        let l = if matches!(k, Kind::CP | Kind::GMock) { l } else { l % (1 << 17) };
        let (al, pl) = if c.idx / 5 % 4 == 0 { (l, c.rng.len(500)) } else { (c.rng.len(500), l) };
        c10_case(c, k, al, pl)
    });
}
pub fn c13(x: &Ctx) {
    let hi = top(x, 24);
    x.par("size-ladder", rungs(9, hi), |c| {
        let sk: [u8; 32] = c.rng.arr();
        let n = rung(c, c.idx, 9, hi);
        let m = blob(c, n);
        let want = ed::sign(&sk, &m);
        c.fp(&want);
        c.nontrivial();
        c.ev(1);
        c.note(|| format!("secret key {} signs {n} bytes", hx(&sk)));
        diff(&format!("signature by {} of {n} bytes", hx(&sk)), &ed25519::sign(&m, &sk), &want)
    });
}
pub fn c14(x: &Ctx) {
    let hi = top(x, 24);
    x.par("size-ladder", rungs(9, hi), |c| {
        let sk: [u8; 32] = c.rng.arr();
        let n = rung(c, c.idx, 9, hi);
        let mut m = blob(c, n);
        let (pk, sig) = (ed::public(&sk), ed::sign(&sk, &m));
        c.fp(&sig);
        c.nontrivial();
        c.ev(6);
        c.note(|| format!("message of {n} bytes: accepted; changed, shortened, extended: rejected"));
        check!(ed25519::verify(&m, &sig, &pk), "signature of {n} bytes rejected");
        for at in [0, n - 1, n / 2, c.rng.below(n)] {
            m[at] ^= 0x10;
            check!(!ed25519::verify(&m, &sig, &pk), "accepted with byte {at} of {n} changed");
            m[at] ^= 0x10;
        }
        check!(!ed25519::verify(&m[..n - 1], &sig, &pk), "accepted without the last of {n} bytes");
        m.push(0);
        check!(!ed25519::verify(&m, &sig, &pk), "accepted with a byte after the {n}");
        Ok(())
    });
}
/// one call repeated very often, on one object where there is one
pub fn c19(x: &Ctx) {
    let slow = !matches!(x.variant.as_str(), "rel" | "chk");
    let n = if slow { 300 } else { life(x, 66_000) };
    let few = if x.thorough() && !slow { 66_000 } else { 300 };
    x.par_budget("many-uses", 16, budget(x), |c| {
        let b: Vec<u8> = c.rng.bytes(64);
        c.fp(&b);
        c.nontrivial();
        let k = c.idx;
        let reps = if k >= 13 { few } else { n };
        c.ev(reps as u64);
        c.note(|| format!("operation {k} called {reps} times with the same input"));
        let mut first = None;
        let aead = KINDS.get(k as usize).map(|&k| Aead::new(k, &b[..k.key_len()]));
        for i in 0..reps {
            let r: Vec<u8> = match k {
                0..=4 => {
                    let a = aead.as_ref().unwrap();
                    let mut o = [0; 5];
                    let t = a.encrypt(&b[..5], &b[..12], &b[..3], &mut o);
                    let mut p = [0; 5];
                    let ok = i % 8 != 0 || a.decrypt(&o, &b[..12], &b[..3], &t, &mut p) && p == b[..5];
                    [&o[..], &t, &[ok as u8]].concat()
                }
                5..=8 => by_sha!((k - 5), sha_once, &b),
                9 => Stream::new(&b[..32], &b[..12]).take(70).collect(),
                10 => vec![hmac::verify::<crypto_pure::sha2::Sha256>(&b, &b, &b) as u8],
                11 => vec![crypto_pure::util::verify_16(&[7; 16], &b[..16]) as u8],
                12 => {
                    let mut o = [0; 40];
                    hkdf::expand::<crypto_pure::sha2::Sha256>(&b, &b[..3], &mut o);
                    o.to_vec()
                }
                13 => curve25519::dh(&b[..32], &b[32..]).to_vec(),
                14 => ed25519::sign(&b, &b[..32]).to_vec(),
                _ => vec![ed25519::verify(&b, &b, &b[..32]) as u8],
            };
            match &first {
                None => first = Some(r),
                Some(f) => check!(*f == r, "call {i} of operation {k} gave {}, the first gave {}", hx(&r), hx(f)),
            }
        }
        Ok(())
    });
}
fn sha_once<T: HashId>(b: &Vec<u8>) -> Vec<u8> {
    digest::<T>(&[b])
}
