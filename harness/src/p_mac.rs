//! C01 SHA-2, C02 HMAC, C03 HMAC verification, C04 HKDF, C20 verify_16
use crate::api::*;
use crate::fw::*;
use crate::mem::*;
use crate::{by_hash, by_sha, check};
use crypto_pure::hmac::{self, Hmac};
use crypto_pure::sha2::HashFunction;
use crypto_pure::{hkdf, util};
use refmodel::mac::{self, Hash};

// ------------------------------------------------------------------ C01
pub(crate) fn sha_parts<T: HashId>(c: &mut Case, parts: &[&[u8]]) -> Res {
    let got = digest::<T>(parts);
    let want = T::model().hash(parts);
    c.fp(T::NAME.as_bytes());
    for p in parts {
        c.fp(p);
    }
    c.ev(1);
    diff(&format!("{} of {} bytes in {} updates", T::NAME, parts.iter().map(|p| p.len()).sum::<usize>(), parts.len()), &got, &want)
}
fn sha_len<T: HashId>(c: &mut Case, len: usize) -> Res {
    let m = c.rng.pattern(len);
    c.nontrivial();
    c.note(|| format!("{} message {}", T::NAME, hx(&m)));
    sha_parts::<T>(c, &[&m])?;
    let one = T::oneshot(&m).unwrap();
    diff(&format!("one-call {} of {len} bytes", T::NAME), &one, &T::model().hash(&[&m]))
}
fn sha_split<T: HashId>(c: &mut Case, len: usize) -> Res {
    let m = c.rng.bytes(len);
    let want = T::model().hash(&[&m]);
    if len == 0 {
        diff(&format!("{} without any update", T::NAME), &digest::<T>(&[]), &want)?;
    }
    c.nontrivial();
    c.fp(&m);
    c.note(|| format!("{} all {} two-way splits of a {len}-byte message", T::NAME, len + 1));
    for k in 0..=len {
        c.ev(1);
        diff(&format!("{} split {k}+{}", T::NAME, len - k), &digest::<T>(&[&m[..k], &m[k..]]), &want)?;
    }
    // one byte at a time
    let bytes: Vec<&[u8]> = m.chunks(1).collect();
    diff(&format!("{} bytewise over {len} bytes", T::NAME), &digest::<T>(&bytes), &want)
}
fn sha_multi<T: HashId>(c: &mut Case) -> Res {
    let bs = T::H::BLOCK_SIZE;
    let pad = bs - bs / 8;
    let e = [0, 1, bs / 2, pad - 2, pad - 1, pad, pad + 1, bs - 1, bs, bs + 1, bs + pad - 1, bs + pad, 2 * bs - 1, 2 * bs, 2 * bs + 1, 3 * bs, 4 * bs - 1];
    let n = 2 + c.rng.below(5);
    let lens: Vec<usize> = (0..n).map(|_| *c.rng.pick(&e)).collect();
    let bufs: Vec<Vec<u8>> = lens.iter().map(|&l| c.rng.pattern(l)).collect();
    let parts: Vec<&[u8]> = bufs.iter().map(|b| &b[..]).collect();
    c.nontrivial();
    c.note(|| format!("{} updates of lengths {lens:?}", T::NAME));
    sha_parts::<T>(c, &parts)
}
fn sha_random<T: HashId>(c: &mut Case, max: usize) -> Res {
    let l = c.rng.len(max);
    let m = c.rng.pattern(l);
    let mut r = c.rng.clone();
    let parts = pieces(&mut r, &m, 40);
    c.nontrivial_if(l > 0);
    c.note(|| format!("{} {l} bytes in pieces {:?}", T::NAME, parts.iter().map(|p| p.len()).collect::<Vec<_>>()));
    sha_parts::<T>(c, &parts)
}
/// zero messages too long for 32-bit counters; digests computed with coreutils
const HUGE: &[(usize, u64, &str)] = &include!("huge_digests.in");
fn sha_huge<T: HashId>(c: &mut Case, len: u64, want: &str, z: &[u8]) -> Res {
    c.nontrivial();
    c.fpn(len);
    c.fp(T::NAME.as_bytes());
    c.note(|| format!("{} of {len} zero bytes", T::NAME));
    let mut h = T::H::default();
    let mut left = len;
    let mut first = true;
    // one update longer than 2^32 bytes when possible, then odd pieces
    while left > 0 {
        let n = if first { left.saturating_sub(1 << 20).max(1) } else { left.min(1 + c.rng.below(200_000) as u64) };
        h.update(&z[..n as usize]);
        left -= n;
        first = false;
        c.ev(1);
    }
    let mut o = vec![0; T::H::DIGEST_SIZE];
    h.write_digest(&mut o);
    check!(hx(&o) == want, "{} of {len} zero bytes: got {} expected {want}", T::NAME, hx(&o));
    Ok(())
}
#[cfg(feature = "state")]
fn far_lengths(x: &Ctx) {
    use crypto_pure::verif_state::*;
    use refmodel::sha2::{digest_after, Alg};
    fn at(a: u64, before: u64, parts: &[&[u8]]) -> Vec<u8> {
        fn end<H: HashFunction>(mut h: H, parts: &[&[u8]]) -> Vec<u8> {
            for p in parts {
                h.update(p);
            }
            let mut o = vec![0; H::DIGEST_SIZE];
            h.write_digest(&mut o);
            o
        }
        match a {
            0 => end(sha224_at(before), parts),
            1 => end(sha256_at(before), parts),
            2 => end(sha384_at(before), parts),
            _ => end(sha512_at(before), parts),
        }
    }
    let algs = [Alg::S224, Alg::S256, Alg::S384, Alg::S512];
    // the hook sets a field; where it means something else by now, that shows with short lengths and says nothing
    for (a, alg) in algs.iter().enumerate() {
        for blocks in [0, 1, 5, 1000] {
            let n = blocks * alg.block_size() as u64;
            if observe(|| at(a as u64, n, &[b"abc"]) == digest_after(*alg, n as u128, &[b"abc"])).map_or(true, |ok| !ok) {
                return x.remark("far lengths left out: the hook no longer sets them".into());
            }
        }
    }
    x.par("far-lengths", x.n(20_000, 30), |c| {
        let (a, alg) = (c.idx % 4, algs[(c.idx % 4) as usize]);
        let bs = alg.block_size() as u64;
        // bytes gone by: around powers of two up to the documented end of 2^61 - 1
        let k = 10 + c.idx / 4 % 52;
        let d = c.rng.below(4) as u64 * bs;
        let before = if k < 61 && c.rng.below(2) == 0 { (1u64 << k) + d } else { (1u64 << k) - bs - d };
        let room = ((1u64 << 61) - 1 - before).min(700) as usize;
        let l = c.rng.len(room);
        let m = c.rng.pattern(l);
        let mut r = c.rng.clone();
        let parts = pieces(&mut r, &m, 5);
        c.fpn(before);
        c.fp(&m);
        c.nontrivial();
        c.ev(1);
        c.note(|| format!("{} with {before} bytes gone by and {l} to come", alg.name()));
        diff(&format!("{} of {before} bytes and {} more", alg.name(), hx(&m)), &at(a, before, &parts), &digest_after(alg, before as u128, &parts))
    });
}
pub fn c01(x: &Ctx) {
    let maxlen = if x.thorough() { 5000 } else { 1100 };
    x.par("len-sweep", 4 * (maxlen + 1), |c| {
        let (a, l) = (c.idx % 4, (c.idx / 4) as usize);
        by_sha!(a, sha_len, c, l)
    });
    let ms = if x.thorough() { 1050 } else { 280 };
    x.par("two-way-splits", 4 * (ms + 1), |c| {
        let (a, l) = (c.idx % 4, (c.idx / 4) as usize);
        by_sha!(a, sha_split, c, l)
    });
    x.par("boundary-chunks", x.n(60_000, 20), |c| by_sha!(c.idx, sha_multi, c));
    x.par("random-histories", x.n(20_000, 20), |c| by_sha!(c.idx, sha_random, c, 4000));
    x.par("long-messages", x.n(60, 10), |c| by_sha!(c.idx, sha_random, c, 1_500_000));
    crate::p_size::c01(x);
    #[cfg(feature = "state")]
    far_lengths(x);
    if x.scale >= 1.0 {
        let max = HUGE.iter().filter(|h| x.thorough() || h.1 < 6 << 30).map(|h| h.1).max().unwrap();
        match Map::zeros(max as usize) {
            Some(z) => {
                let todo: Vec<_> = HUGE.iter().filter(|h| h.1 <= max).collect();
                x.par_budget("huge-zero-messages", todo.len() as u64, 600, |c| {
                    let (a, len, want) = *todo[c.idx as usize];
                    by_sha!(a, sha_huge, c, len, want, z.slice(max as usize))
                });
                x.count_max("longest_message_bytes", max);
            }
            None => x.remark("huge messages skipped: address space unavailable".into()),
        }
    }
}

// ------------------------------------------------------------------ C02
pub(crate) fn hmac_case<T: HashId>(c: &mut Case, key: &[u8], m: &[u8], parts: &[&[u8]]) -> Res {
    let want = mac::hmac(&T::model(), key, m);
    let mut h = Hmac::<T::H>::new(key);
    for p in parts {
        h.update(p);
    }
    let tag = h.tag();
    c.ev(1);
    let what = format!("HMAC-{} key {} bytes message {} bytes", T::NAME, key.len(), m.len());
    diff(&what, &tag, &want)?;
    diff(&format!("{what} as_ref"), tag.as_ref(), &want)?;
    check!(tag.len() == T::H::DIGEST_SIZE, "{what}: tag length {}", tag.len());
    if let Some(o) = T::hmac_oneshot(key, m) {
        diff(&format!("{what} one-call"), &o, &want)?;
    }
    c.fp(T::NAME.as_bytes());
    c.fpn(T::H::DIGEST_SIZE as u64 * 256 + T::H::BLOCK_SIZE as u64);
    c.fp(key);
    c.fp(m);
    c.nontrivial();
    Ok(())
}
fn hmac_keylen<T: HashId>(c: &mut Case, kl: usize) -> Res {
    let key = c.rng.pattern(kl);
    c.note(|| format!("HMAC-{} (digest {} block {}) key {} with messages of 0, 3, 64, 200 bytes", T::NAME, T::H::DIGEST_SIZE, T::H::BLOCK_SIZE, hx(&key)));
    for ml in [0, 3, 64, 200] {
        let m = c.rng.bytes(ml);
        hmac_case::<T>(c, &key, &m, &[&m])?;
    }
    // without any update call
    hmac_case::<T>(c, &key, &[], &[])?;
    // equivalent keys: zero padding up to the block, and the hash of an overlong key
    let m = c.rng.bytes(20);
    let t = mac_tag::<T>(&key, &[&m]);
    if kl < T::H::BLOCK_SIZE {
        let mut k2 = key.clone();
        k2.resize(kl + 1 + c.rng.below(T::H::BLOCK_SIZE - kl), 0);
        diff("HMAC under the zero-padded key", &mac_tag::<T>(&k2, &[&m]), &t)?;
    } else if kl > T::H::BLOCK_SIZE {
        diff("HMAC under the hashed key", &mac_tag::<T>(&T::model().hash(&[&key]), &[&m]), &t)?;
    }
    c.ev(1);
    Ok(())
}
fn hmac_msglen<T: HashId>(c: &mut Case, ml: usize) -> Res {
    let kl = c.rng.len(180);
    let key = c.rng.pattern(kl);
    let m = c.rng.pattern(ml);
    c.note(|| format!("HMAC-{} key {} message {}", T::NAME, hx(&key), hx(&m)));
    hmac_case::<T>(c, &key, &m, &[&m])
}
fn hmac_hist<T: HashId>(c: &mut Case) -> Res {
    let (kl, ml) = (c.rng.len(400), c.rng.len(3000));
    let key = c.rng.pattern(kl);
    let m = c.rng.pattern(ml);
    let mut r = c.rng.clone();
    let p = pieces(&mut r, &m, 20);
    c.note(|| format!("HMAC-{} key {} bytes, {ml} bytes in pieces {:?}", T::NAME, kl, p.iter().map(|p| p.len()).collect::<Vec<_>>()));
    hmac_case::<T>(c, &key, &m, &p)
}
pub fn c02(x: &Ctx) {
    let mk = if x.thorough() { 1200 } else { 300 };
    x.par("key-length-sweep", NHASH * (mk + 1), |c| {
        let (a, l) = (c.idx % NHASH, (c.idx / NHASH) as usize);
        by_hash!(a, hmac_keylen, c, l)
    });
    let mm = if x.thorough() { 2000 } else { 600 };
    x.par("message-length-sweep", NHASH * (mm + 1), |c| {
        let (a, l) = (c.idx % NHASH, (c.idx / NHASH) as usize);
        by_hash!(a, hmac_msglen, c, l)
    });
    x.par("random-histories", x.n(30_000, 20), |c| by_hash!(c.idx, hmac_hist, c));
    crate::p_size::c02(x);
    x.par("long-keys", x.n(40, 10), |c| {
        let l = 4096 + c.rng.below(200_000);
        by_hash!(c.idx, hmac_keylen, c, l)
    });
}

// ------------------------------------------------------------------ C03
/// wrong variants of a tag: every bit, compensating pairs, permutations, every length
pub fn tampered(r: &mut Rng, t: &[u8], max_len: usize) -> Vec<(String, Vec<u8>)> {
    let n = t.len();
    let mut v: Vec<(String, Vec<u8>)> = vec![];
    for i in 0..8 * n {
        let mut x = t.to_vec();
        x[i / 8] ^= 1 << (i % 8);
        v.push((format!("bit {i} flipped"), x));
    }
    for i in 0..n {
        let mut x = t.to_vec();
        x[i] = !x[i];
        v.push((format!("byte {i} inverted"), x));
    }
    for d in [1u8, 0x80, 0xff, 0x55] {
        for i in 0..n {
            for j in 0..i {
                if d != 0x80 && (i + j) % 7 != 0 {
                    continue;
                }
                let mut x = t.to_vec();
                x[i] ^= d;
                x[j] ^= d;
                v.push((format!("bytes {j} and {i} both xor {d:#x}"), x));
                let mut x = t.to_vec();
                x[i] = x[i].wrapping_add(d);
                x[j] = x[j].wrapping_sub(d);
                v.push((format!("byte {i} +{d}, byte {j} -{d}"), x));
            }
        }
    }
    // 2^k bytes changed by the same delta (sums cancel modulo 256)
    for (cnt, d) in [(2usize, 0x80u8), (4, 0x40), (8, 0x20), (16, 0x10), (16, 0xf0), (n, 0xff), (n, 0x80)] {
        if cnt <= n {
            let mut x = t.to_vec();
            for b in x.iter_mut().take(cnt) {
                *b ^= d;
            }
            v.push((format!("first {cnt} bytes xor {d:#x}"), x));
            let mut x = t.to_vec();
            for b in x.iter_mut().rev().take(cnt) {
                *b ^= d;
            }
            v.push((format!("last {cnt} bytes xor {d:#x}"), x));
        }
    }
    for k in 0..n {
        let mut x = t.to_vec();
        r.fill(&mut x[k..]);
        v.push((format!("only the first {k} bytes right"), x));
        let mut x = t.to_vec();
        r.fill(&mut x[..n - k]);
        v.push((format!("only the last {k} bytes right"), x));
        if n > 1 {
            let mut x = t.to_vec();
            x.rotate_left(k);
            v.push((format!("rotated by {k}"), x));
        }
    }
    let mut x = t.to_vec();
    x.reverse();
    v.push(("reversed".into(), x));
    v.push(("all zero".into(), vec![0; n]));
    v.push(("all ones".into(), vec![0xff; n]));
    // every other length: prefixes, and extensions by zeros, by itself, by random bytes
    for l in 0..=max_len {
        if l == n {
            continue;
        }
        let mut x = t[..l.min(n)].to_vec();
        x.resize(l, 0);
        v.push((format!("length {l}, right prefix then zeros"), x));
        if l > n {
            let x: Vec<u8> = t.iter().cycle().take(l).copied().collect();
            v.push((format!("length {l}, repeated"), x));
            let mut x = r.bytes(l - n);
            x.extend_from_slice(t);
            v.push((format!("length {l}, right suffix"), x));
        }
    }
    v.retain(|(_, x)| x != t);
    v
}
fn hmacver_case<T: HashId>(c: &mut Case, max_len: usize) -> Res {
    let (kl, ml) = (c.rng.len(200), c.rng.len(300));
    let (key, m) = (c.rng.pattern(kl), c.rng.bytes(ml));
    let t = mac::hmac(&T::model(), &key, &m);
    c.fp(T::NAME.as_bytes());
    c.fp(&key);
    c.fp(&m);
    c.nontrivial();
    check!(hmac::verify::<T::H>(&key, &m, &t), "verify rejected the RFC 2104 tag {} (key {} message {})", hx(&t), hx(&key), hx(&m));
    let v = tampered(&mut c.rng, &t, max_len);
    c.note(|| format!("HMAC-{} (digest {}) key {} message {}: right tag accepted, {} wrong tags offered", T::NAME, t.len(), hx(&key), hx(&m), v.len()));
    c.ev(v.len() as u64);
    for (w, x) in &v {
        check!(!hmac::verify::<T::H>(&key, &m, x), "verify accepted a wrong tag ({w}): {} instead of {}", hx(x), hx(&t));
    }
    // the right tag with another key or message
    for _ in 0..4 {
        let mut k2 = key.clone();
        let mut m2 = m.clone();
        match c.rng.below(4) {
            0 => k2.push(1),
            1 => m2.push(0),
            2 if kl > 0 => {
                let i = c.rng.below(kl);
                k2[i] ^= 1 << c.rng.below(8)
            }
            _ => {
                if ml > 0 {
                    m2.pop();
                } else {
                    m2.push(7)
                }
            }
        }
        let want = mac::hmac(&T::model(), &k2, &m2) == t;
        check!(hmac::verify::<T::H>(&k2, &m2, &t) == want, "verify under a changed key or message returned {}", !want);
        c.ev(1);
    }
    Ok(())
}
pub fn c03(x: &Ctx) {
    x.par("tampered-tags", x.n(500, 20), |c| by_hash!(c.idx, hmacver_case, c, 340));
    x.par("tampered-tags-long", x.n(20, 10), |c| by_hash!(c.idx, hmacver_case, c, 1400));
    // lengths that collide with the digest length modulo 2^8, 2^16 and 2^24
    x.par("wrapping-lengths", 4 * 9, |c| by_sha!(c.idx, wrap_len, c));
    crate::p_size::c03(x);
    x.par("right-tags", x.n(30_000, 20), |c| by_hash!(c.idx, right_tag, c));
}
fn wrap_len<T: HashId>(c: &mut Case) -> Res {
    let t = mac::hmac(&T::model(), b"k", b"m");
    let add = [1usize << 8, 1 << 9, 1 << 10, 1 << 12, 1 << 15, 1 << 16, 1 << 17, 1 << 20, 1 << 24][(c.idx / 4) as usize];
    let mut x: Vec<u8> = t.clone();
    x.resize(t.len() + add, 0);
    c.fpn(c.idx);
    c.nontrivial();
    c.note(|| format!("HMAC-{} tag extended by {add} bytes", T::NAME));
    check!(!hmac::verify::<T::H>(b"k", b"m", &x), "verify accepted a tag extended by {add} zero bytes");
    let y: Vec<u8> = t.iter().cycle().take(t.len() + add).copied().collect();
    check!(!hmac::verify::<T::H>(b"k", b"m", &y), "verify accepted a tag repeated over {add} more bytes");
    Ok(())
}
fn right_tag<T: HashId>(c: &mut Case) -> Res {
    let (kl, ml) = (c.rng.len(300), c.rng.len(600));
    let (key, m) = (c.rng.pattern(kl), c.rng.pattern(ml));
    let t = mac::hmac(&T::model(), &key, &m);
    c.fp(&t);
    c.nontrivial();
    c.note(|| format!("HMAC-{} key {} message {} tag {}", T::NAME, hx(&key), hx(&m), hx(&t)));
    check!(hmac::verify::<T::H>(&key, &m, &t), "verify rejected the RFC 2104 tag");
    let mut w = t.clone();
    let i = c.rng.below(w.len());
    w[i] ^= 1 << c.rng.below(8);
    check!(!hmac::verify::<T::H>(&key, &m, &w), "verify accepted a tag with byte {i} changed");
    c.ev(2);
    Ok(())
}

// ------------------------------------------------------------------ C04
pub(crate) fn expand_canary<T: HashId>(c: &mut Case, prk: &[u8], info: &[u8], n: usize, want: &[u8]) -> Res {
    let mut b = vec![0u8; n + 32];
    c.rng.fill(&mut b);
    let orig = b.clone();
    hkdf::expand::<T::H>(prk, info, &mut b[16..16 + n]);
    c.ev(1);
    diff(&format!("HKDF-{} expand to {n} bytes (prk {} info {})", T::NAME, prk.len(), info.len()), &b[16..16 + n], &want[..n])?;
    check!(b[..16] == orig[..16] && b[16 + n..] == orig[16 + n..], "expand wrote outside its {n}-byte output");
    Ok(())
}
fn hkdf_len_block<T: HashId>(c: &mut Case, i: usize, blocks: usize) -> Res {
    // all output lengths in the i-th of `blocks` equal ranges
    let d = T::H::DIGEST_SIZE;
    let max = 255 * d;
    let mut r = Rng::new(mix(c.ctx.seed) ^ d as u64);
    let prk = r.bytes(d);
    let info = r.bytes(10);
    let want = mac::expand(&T::model(), &prk, &info, max);
    c.fpn(i as u64);
    c.fp(T::NAME.as_bytes());
    c.nontrivial();
    let (lo, hi) = (max * i / blocks, max * (i + 1) / blocks);
    c.note(|| format!("HKDF-{} every output length {lo}..={hi}", T::NAME));
    for n in lo..=hi {
        expand_canary::<T>(c, &prk, &info, n, &want)?;
    }
    Ok(())
}
fn hkdf_edges<T: HashId>(c: &mut Case) -> Res {
    let d = T::H::DIGEST_SIZE;
    let pl = d + c.rng.len(150);
    let il = c.rng.len(300);
    let (prk, info) = (c.rng.pattern(pl), c.rng.pattern(il));
    let k = match c.rng.below(8) {
        0 => 255,
        1 => 254,
        2 => 128,
        3 => 127,
        _ => c.rng.below(20),
    };
    let n = (k * d + c.rng.below(3)).saturating_sub(1).min(255 * d);
    let want = mac::expand(&T::model(), &prk, &info, n);
    c.fp(&prk);
    c.fp(&info);
    c.fpn(n as u64);
    c.nontrivial();
    c.note(|| format!("HKDF-{} (digest {d}) prk {} info {} okm {n} bytes", T::NAME, hx(&prk), hx(&info)));
    expand_canary::<T>(c, &prk, &info, n, &want)
}
fn hkdf_full<T: HashId>(c: &mut Case) -> Res {
    let (sl, il, fl) = (c.rng.len(300), c.rng.len(500), c.rng.len(200));
    let (salt, ikm, info) = (c.rng.pattern(sl), c.rng.pattern(il), c.rng.pattern(fl));
    let d = T::H::DIGEST_SIZE;
    let mut b = c.rng.bytes(d + 16);
    let orig = b.clone();
    hkdf::extract::<T::H>(&salt, &ikm, &mut b[8..8 + d]);
    let prk = mac::extract(&T::model(), &salt, &ikm);
    c.fp(&prk);
    c.fp(&info);
    c.nontrivial();
    c.note(|| format!("HKDF-{} salt {} ikm {} info {}", T::NAME, hx(&salt), hx(&ikm), hx(&info)));
    diff(&format!("HKDF-{} extract (salt {sl}, ikm {il})", T::NAME), &b[8..8 + d], &prk)?;
    check!(b[..8] == orig[..8] && b[8 + d..] == orig[8 + d..], "extract wrote outside its output");
    let n = c.rng.len(6 * d);
    let want = mac::expand(&T::model(), &prk, &info, n);
    expand_canary::<T>(c, &prk, &info, n, &want)?;
    // an absent salt is a digest of zeros
    if sl == 0 {
        let mut p2 = vec![0; d];
        hkdf::extract::<T::H>(&vec![0; d], &ikm, &mut p2);
        diff("extract with a zero salt", &p2, &prk)?;
    }
    Ok(())
}
pub fn c04(x: &Ctx) {
    if x.scale >= 1.0 {
        let blocks = 48u64;
        x.par("every-output-length", 4 * blocks, |c| by_sha!(c.idx, hkdf_len_block, c, (c.idx / 4) as usize, 48));
        x.par("every-output-length-mock", 9 * 8, |c| by_hash!(4 + c.idx % 9, hkdf_len_block, c, (c.idx / 9) as usize, 8));
    }
    x.par("boundary-lengths", x.n(2_000, 20), |c| by_hash!(c.idx, hkdf_edges, c));
    crate::p_size::c04(x);
    x.par("extract-expand", x.n(20_000, 20), |c| by_hash!(c.idx, hkdf_full, c));
}

// ------------------------------------------------------------------ C20
pub fn c20(x: &Ctx) {
    x.par("tampered", x.n(400, 30), |c| {
        let t: Vec<u8> = c.rng.pattern(16);
        let a: [u8; 16] = t.clone().try_into().unwrap();
        c.fp(&t);
        c.nontrivial();
        check!(util::verify_16(&a, &t), "equal arrays reported different: {}", hx(&t));
        let v = tampered(&mut c.rng, &t, 600);
        c.note(|| format!("array {} against itself and {} different slices", hx(&t), v.len()));
        c.ev(v.len() as u64);
        for (w, y) in &v {
            check!(!util::verify_16(&a, y), "returned true for {} against {} ({w})", hx(&t), hx(y));
        }
        Ok(())
    });
    x.par("all-byte-pairs", 16 * 256, |c| {
        // every value of a byte against every other value, in every position
        let (p, v) = ((c.idx % 16) as usize, (c.idx / 16) as u8);
        let mut a: [u8; 16] = c.rng.arr();
        a[p] = v;
        c.fp(&a);
        c.nontrivial();
        for w in 0..=255u8 {
            let mut b = a;
            b[p] = w;
            check!(util::verify_16(&a, &b) == (v == w), "position {p}: {v:#x} against {w:#x}");
        }
        c.ev(256);
        Ok(())
    });
    x.par("subset-differences", 65536, |c| {
        // every set of differing positions, random and equal deltas
        let mask = c.idx as u16;
        let a: [u8; 16] = c.rng.arr();
        let d = c.rng.u8() | 1;
        let mut b = a;
        let mut e = a;
        for i in 0..16 {
            if mask >> i & 1 == 1 {
                b[i] ^= d;
                e[i] = e[i].wrapping_add(1 + c.rng.below(255) as u8);
            }
        }
        c.fp(&a);
        c.nontrivial();
        c.note(|| format!("positions {mask:016b} differ"));
        check!(util::verify_16(&a, &b) == (mask == 0), "{} against {}", hx(&a), hx(&b));
        check!(util::verify_16(&a, &e) == (mask == 0), "{} against {}", hx(&a), hx(&e));
        c.ev(2);
        Ok(())
    });
    x.par("wrapping-lengths", 24, |c| {
        let a: [u8; 16] = c.rng.arr();
        let mut y = a.to_vec();
        let add = 1usize << (c.idx + 1);
        y.resize(16 + add, 0);
        c.fpn(c.idx);
        c.nontrivial();
        check!(!util::verify_16(&a, &y), "accepted a slice of {} bytes", y.len());
        let z: Vec<u8> = a.iter().cycle().take(16 + add).copied().collect();
        check!(!util::verify_16(&a, &z), "accepted a slice of {} bytes", z.len());
        Ok(())
    });
    if x.scale >= 1.0 {
        // lengths congruent to 16 modulo 2^32
        if let Some(m) = Map::zeros((1 << 33) + 16) {
            x.par("huge-lengths", 2, |c| {
                let l = (1usize << (32 + c.idx)) + 16;
                c.fpn(c.idx);
                c.nontrivial();
                check!(!util::verify_16(&[0; 16], m.slice(l)), "accepted a slice of {l} bytes");
                Ok(())
            });
        }
    }
}
