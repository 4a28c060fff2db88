//! C05 AES, C06 GCM, C07 ChaCha20 stream, C08 ChaCha20-Poly1305, C09 decryption decision, C10 buffers
use crate::api::*;
use crate::check;
use crate::fw::*;
use crate::mem::*;
use crate::mocks::*;
use crypto_pure::chacha20::Stream;
use crypto_pure::gcm::{AeadCipher, Gcm};
use crypto_pure::poly1305::ChaCha20Poly1305;
use refmodel::{aes, chacha, gcm, poly};

// ------------------------------------------------------------------ C05
pub fn c05(x: &Ctx) {
    crate::p_size::c05(x);
    let one = |c: &mut Case, key: &[u8], blk: &[u8; 16]| -> Res {
        let got = Blk::new(key).permute(blk);
        let want = aes::Aes::new(key).encrypt(blk);
        c.fp(key);
        c.fp(blk);
        c.nontrivial();
        c.ev(1);
        c.note(|| format!("AES-{} key {} block {}", 8 * key.len(), hx(key), hx(blk)));
        diff(&format!("AES-{} key {} block {}", 8 * key.len(), hx(key), hx(blk)), &got, &want)
    };
    x.par("single-bit-keys-and-blocks", 3 * (256 + 128), |c| {
        let kl = [16, 24, 32][(c.idx % 3) as usize];
        let b = (c.idx / 3) as usize;
        let mut key = vec![0u8; kl];
        let mut blk = [0u8; 16];
        if b < 256 {
            let b = b % (8 * kl);
            key[b / 8] |= 1 << (b % 8);
        } else {
            let b = b - 256;
            blk[b / 8] |= 1 << (b % 8);
        }
        one(c, &key, &blk)?;
        one(c, &key.iter().map(|v| !v).collect::<Vec<_>>(), &blk.map(|v| !v))
    });
    x.par("first-round-sbox", 3 * 16 * 256, |c| {
        // every S-box input in every state position of round 1
        let kl = [16, 24, 32][(c.idx % 3) as usize];
        let key = c.rng.bytes(kl);
        let mut blk: [u8; 16] = c.rng.arr();
        let p = (c.idx / 3 % 16) as usize;
        blk[p] = key[p] ^ (c.idx / 48) as u8;
        one(c, &key, &blk)
    });
    x.par("random", x.n(150_000, 40), |c| {
        let kl = [16, 24, 32][c.rng.below(3)];
        let key = c.rng.pattern(kl);
        let blk = c.rng.pattern(16).try_into().unwrap();
        one(c, &key, &blk)
    });
    x.par("key-schedule-sbox", 3 * 256 * 16, |c| {
        // the last key word (first S-box input of the schedule) takes every value in every byte
        let kl = [16, 24, 32][(c.idx % 3) as usize];
        let mut key = c.rng.bytes(kl);
        let p = (c.idx / 3 % 16) as usize;
        key[kl - 16 + p] = (c.idx / 48) as u8;
        let blk = c.rng.arr();
        one(c, &key, &blk)
    });
    x.par("chains", x.n(60, 20), |c| {
        // Monte Carlo chains: the state walks through pseudo-random keys and blocks
        let kl = [16, 24, 32][(c.idx % 3) as usize];
        let mut key = c.rng.bytes(kl);
        let mut b: [u8; 16] = c.rng.arr();
        c.fp(&key);
        c.nontrivial();
        for _ in 0..10 {
            let (u, m) = (Blk::new(&key), aes::Aes::new(&key));
            for _ in 0..200 {
                let y = u.permute(&b);
                check!(m.decrypt(&y) == b, "AES-{} key {} block {} gives {}, which does not decrypt back", 8 * kl, hx(&key), hx(&b), hx(&y));
                b = y;
            }
            c.ev(200);
            for (k, v) in key.iter_mut().zip(b.iter().cycle()) {
                *k ^= v;
            }
        }
        Ok(())
    });
    x.par("injective", x.n(12, 10), |c| {
        // counter blocks under one key stay distinct, and repeat identically
        let kl = [16, 24, 32][(c.idx % 3) as usize];
        let key = c.rng.bytes(kl);
        let u = Blk::new(&key);
        let base: [u8; 16] = c.rng.arr();
        let mut seen = std::collections::HashSet::new();
        for i in 0..4096u32 {
            let mut b = base;
            b[12..].copy_from_slice(&i.to_be_bytes());
            let y = u.permute(&b);
            check!(seen.insert(y), "two blocks map to {}", hx(&y));
            check!(u.permute(&b) == y, "same block, different result");
        }
        c.fp(&key);
        c.ev(4096);
        c.nontrivial();
        Ok(())
    });
}

// ------------------------------------------------------------------ AEAD encryption
pub(crate) fn seal_case(c: &mut Case, k: Kind, key: &[u8], nonce: &[u8], aad: &[u8], pt: &[u8]) -> Res {
    let a = Aead::new(k, key);
    let mut out = vec![0x5a; pt.len()];
    let tag = a.encrypt(pt, nonce, aad, &mut out);
    let (ct, want) = RefAead::new(k, key).seal(nonce, aad, pt);
    c.fp(key);
    c.fp(nonce);
    c.fp(aad);
    c.fp(pt);
    c.fpn(k as u64);
    c.nontrivial();
    c.ev(2);
    let w = format!("{k:?} aad {} bytes, message {} bytes, key {} nonce {}", aad.len(), pt.len(), hx(key), hx(nonce));
    c.note(|| format!("{w} aad {} message {}", hx(aad), hx(pt)));
    diff(&format!("ciphertext of {w}"), &out, &ct)?;
    diff(&format!("tag of {w}"), &tag, &want)
}
fn rnd_nonce(r: &mut Rng) -> Vec<u8> {
    r.pattern(12)
}
fn len_grid(x: &Ctx, kinds: &'static [Kind], lim: u64) {
    let n = if x.panics_only && x.scale < 0.5 { lim.min(18) } else { lim } + 1;
    x.par("length-grid", kinds.len() as u64 * n * n, |c| {
        let nk = kinds.len() as u64;
        let k = kinds[(c.idx % nk) as usize];
        let (al, pl) = ((c.idx / nk % n) as usize, (c.idx / nk / n) as usize);
        let key = c.rng.bytes(k.key_len());
        let nonce = c.rng.bytes(12);
        let (aad, pt) = (c.rng.pattern(al), c.rng.pattern(pl));
        seal_case(c, k, &key, &nonce, &aad, &pt)
    });
}
fn len_sweep(x: &Ctx, kinds: &'static [Kind], max: u64) {
    x.par("message-length-sweep", kinds.len() as u64 * (max + 1), |c| {
        let nk = kinds.len() as u64;
        let k = kinds[(c.idx % nk) as usize];
        let l = (c.idx / nk) as usize;
        let (key, nonce) = (c.rng.pattern(k.key_len()), rnd_nonce(&mut c.rng));
        let al = c.rng.len(80);
        let (aad, pt) = (c.rng.pattern(al), c.rng.pattern(l));
        seal_case(c, k, &key, &nonce, &aad, &pt)?;
        // the same length as associated data
        let m2 = c.rng.pattern(al);
        seal_case(c, k, &key, &nonce, &pt, &m2)
    });
}
fn rnd_seal(x: &Ctx, kinds: &'static [Kind], n: u64, max: usize, label: &str) {
    x.par(label, n, |c| {
        let k = *c.rng.pick(kinds);
        let (key, nonce) = (c.rng.pattern(k.key_len()), rnd_nonce(&mut c.rng));
        let (al, pl) = (c.rng.len(max), c.rng.len(max));
        let (aad, pt) = (c.rng.pattern(al), c.rng.pattern(pl));
        seal_case(c, k, &key, &nonce, &aad, &pt)
    });
}

// ------------------------------------------------------------------ C06
const GK: &[Kind] = &[Kind::G128, Kind::G192, Kind::G256, Kind::GMock];
fn special_h(r: &mut Rng, i: u64) -> [u8; 16] {
    let mut h = [0u8; 16];
    match i {
        0 => {}
        1 => h = [0xff; 16],
        2 => h[0] = 0x80, // the element 1
        3 => h[0] = 0xe1, // the reduction constant
        4..=131 => {
            let b = (i - 4) as usize;
            h[b / 8] = 0x80 >> (b % 8);
        }
        _ => h = r.pattern(16).try_into().unwrap(),
    }
    h
}
fn ghash_case(c: &mut Case, h: [u8; 16], ks: [u8; 16], mask: [u8; 16], aad: &[u8], pt: &[u8], nonce: &[u8]) -> Res {
    let m = Mode::Chosen { h, mask, ks };
    c.fp(&h);
    with_mode(m, || seal_case(c, Kind::GMock, &[0; 16], nonce, aad, pt))
}
pub fn c06(x: &Ctx) {
    len_grid(x, GK, if x.thorough() { 100 } else { (36.0 * x.scale.sqrt()) as u64 });
    len_sweep(x, GK, x.n(700, 4));
    rnd_seal(x, GK, x.n(20_000, 30), 2500, "random");
    crate::p_size::seal(x, GK, 23);
    crate::p_size::seal_life(x, GK);
    x.par("own-cipher-key-lengths", x.n(300, 10), |c| {
        // a block cipher of one's own may have keys of any length
        let n = if c.idx < 140 { c.idx as usize } else { c.rng.len(5000) };
        let (al, pl) = (c.rng.len(100), c.rng.len(200));
        let (key, nonce, aad, pt) = (c.rng.bytes(n), c.rng.bytes(12), c.rng.bytes(al), c.rng.bytes(pl));
        c.fpn(n as u64);
        seal_case(c, Kind::GMock, &key, &nonce, &aad, &pt)
    });
    x.par("chosen-hash-keys", x.n(6_000, 30), |c| {
        let h = special_h(&mut c.rng, c.idx % 400);
        let (al, pl) = (c.rng.len(100), c.rng.len(200));
        let (aad, pt) = (c.rng.pattern(al), c.rng.pattern(pl));
        let mask = if c.rng.chance(1, 2) { [0; 16] } else { [0xff; 16] };
        let ks = c.rng.pattern(16).try_into().unwrap();
        let nonce = c.rng.bytes(12);
        ghash_case(c, h, ks, mask, &aad, &pt, &nonce)
    });
    x.par("bit-times-bit", 128 * 8, |c| {
        // GHASH of a single-bit block under a single-bit key: one partial product each, all 128x128
        let hb = (c.idx % 128) as u64;
        let h = special_h(&mut c.rng, 4 + hb);
        let base = (c.idx / 128) * 16;
        for b in base..base + 16 {
            let mut p = [0u8; 16];
            p[(b / 8) as usize] = 0x80 >> (b % 8);
            ghash_case(c, h, [0; 16], [0; 16], &p, &[], &[0; 12])?;
            ghash_case(c, h, [0; 16], [0; 16], &[], &p, &[0; 12])?;
        }
        Ok(())
    });
    // block counters crossing byte boundaries
    x.par("counter-crossings", x.n(8, 4), |c| {
        let blocks = [254usize, 255, 256, 257, 65534, 65535, 65536, 65540][(c.idx % 8) as usize];
        let k = if blocks > 1000 && c.idx < 8 && x.tier == Tier::Quick { Kind::GMock } else { *c.rng.pick(GK) };
        let l = 16 * blocks - c.rng.below(16);
        let (key, nonce) = (c.rng.bytes(k.key_len()), c.rng.bytes(12));
        let pt = c.rng.bytes(l);
        seal_case(c, k, &key, &nonce, b"a", &pt)
    });
    if x.scale >= 1.0 {
        huge_gcm(x);
    }
}
/// lengths whose bit count exceeds 32 bits: zero data keeps the model cheap
fn huge_gcm(x: &Ctx) {
    let n = (1usize << 29) + 17;
    let Some(z) = Map::zeros(n) else {
        return x.remark("huge GCM inputs skipped: no address space".into());
    };
    x.par_budget("huge-lengths", 2, 3000, |c| {
        let as_aad = c.idx == 0;
        let len = n;
        let h: [u8; 16] = c.rng.arr();
        let ks = [0u8; 16];
        c.fpn(c.idx);
        c.nontrivial();
        c.ev(len as u64 / 16);
        c.note(|| format!("GCM with {len} zero bytes of {}", if as_aad { "associated data" } else { "ciphertext" }));
        let g = with_mode(Mode::Chosen { h, mask: [0; 16], ks }, || <Gcm<Mock> as AeadCipher>::new(&[0; 16]));
        // GHASH of zeros is 0, so tag = H * lengths
        let bits = len as u128 * 8;
        let want = gcm::GMul::new(u128::from_be_bytes(h)).mul(if as_aad { bits << 64 } else { bits }).to_be_bytes();
        if as_aad {
            let t = g.encrypt(&[], &[0; 12], z.slice(len), &mut []);
            diff("tag over huge associated data", &t, &want)?;
        } else {
            let out = Map::rw(len).ok_or("no memory").map_err(|e| e.to_string())?;
            let o = out.slice_mut(len);
            let t = g.encrypt(z.slice(len), &[0; 12], &[], o);
            diff("tag over huge message", &t, &want)?;
            let bad = o.iter().position(|&b| b != 0);
            check!(bad.is_none(), "huge message: ciphertext byte {bad:?} is not plaintext xor keystream");
        }
        Ok(())
    });
    x.count_max("longest_gcm_input_bytes", n as u64);
}

// ------------------------------------------------------------------ C07
pub fn c07(x: &Ctx) {
    x.par("block-zero", x.n(4000, 30), |c| {
        let (key, nonce) = (c.rng.pattern(32), c.rng.pattern(12));
        let n = c.rng.len(400);
        let got: Vec<u8> = Stream::new(&key, &nonce).take(n).collect();
        c.fp(&key);
        c.fp(&nonce);
        c.nontrivial();
        c.note(|| format!("first {n} keystream bytes, key {} nonce {}", hx(&key), hx(&nonce)));
        c.ev(n as u64);
        diff(&format!("keystream key {} nonce {}", hx(&key), hx(&nonce)), &got, &chacha::keystream(&key, &nonce, 0, n))
    });
    x.par("histories", x.n(15_000, 30), |c| history(c, 30, 300));
    x.par("long-histories", x.n(200, 30), |c| history(c, 60, 20_000));
    x.par("every-split", 300, |c| {
        // encrypt in two calls, for every split of every length below 300
        let l = c.idx as usize;
        let (key, nonce) = (c.rng.bytes(32), c.rng.bytes(12));
        let m = c.rng.bytes(l);
        let want = chacha::xor(&key, &nonce, 0, &m);
        c.fp(&key);
        c.nontrivial();
        for s in 0..=l {
            let mut st = Stream::new(&key, &nonce);
            let mut o = vec![0; l];
            st.encrypt(&m[..s], &mut o[..s]);
            st.decrypt(&m[s..], &mut o[s..]);
            c.ev(1);
            diff(&format!("stream split {s}+{}", l - s), &o, &want)?;
        }
        Ok(())
    });
    let far: &[u64] = &[1 << 14, 1 << 22, 1 << 30];
    x.par_budget("far-positions", if x.scale >= 1.0 { far.len() as u64 } else { 2 }, 900, |c| {
        // consume up to just before a power of 256 blocks and look across the edge
        let p = far[c.idx as usize];
        let (key, nonce) = (c.rng.bytes(32), c.rng.bytes(12));
        let start = p - 1 - c.rng.below(200) as u64;
        let mut s = Stream::new(&key, &nonce);
        if start > 0 {
            let b = s.nth(start as usize - 1).unwrap();
            let w = chacha::keystream(&key, &nonce, start - 1, 1)[0];
            check!(b == w, "byte {} is {b:#x}, expected {w:#x}", start - 1);
        }
        let got: Vec<u8> = s.by_ref().take(400).collect();
        c.fp(&key);
        c.fpn(p);
        c.nontrivial();
        c.ev(p);
        c.note(|| format!("400 bytes from position {start}"));
        x.count_max("farthest_stream_position", start + 400);
        diff(&format!("keystream at {start}"), &got, &chacha::keystream(&key, &nonce, start, 400))
    });
    crate::p_size::c07(x);
    #[cfg(feature = "state")]
    far_blocks(x);
    #[cfg(feature = "hooks")]
    x.par("block-function", x.n(60_000, 40), |c| {
        let (key, nonce) = (c.rng.pattern(32), c.rng.pattern(12));
        let ctr = match c.rng.below(4) {
            0 => u32::MAX - c.rng.below(4) as u32,
            1 => (1u32 << c.rng.below(32)).wrapping_sub(c.rng.below(2) as u32),
            2 => c.rng.below(300) as u32,
            _ => c.rng.u32(),
        };
        let got = crypto_pure::verif::chacha_block(&key, &nonce, ctr);
        c.fp(&key);
        c.fpn(ctr as u64);
        c.nontrivial();
        c.note(|| format!("block {ctr}, key {} nonce {}", hx(&key), hx(&nonce)));
        c.ev(1);
        diff(&format!("block {ctr} key {} nonce {}", hx(&key), hx(&nonce)), &got, &chacha::block(&key, &nonce, ctr))
    });
}
fn history(c: &mut Case, ops: usize, max: usize) -> Res {
    let (key, nonce) = (c.rng.pattern(32), c.rng.pattern(12));
    let s = Stream::new(&key, &nonce);
    history_from(c, s, key, nonce, 0, ops, max)
}
/// a stream's documented end
const END: u64 = 1 << 38;
fn history_from(c: &mut Case, mut s: Stream, key: Vec<u8>, nonce: Vec<u8>, start: u64, ops: usize, max: usize) -> Res {
    c.fp(&key);
    c.fp(&nonce);
    c.fpn(start);
    let mut pos = start;
    let n = 1 + c.rng.below(ops);
    let mut log = vec![];
    for _ in 0..n {
        let mut l = c.rng.len(max);
        let mut op = c.rng.below(11);
        if pos + 5000 > END {
            // close to the end: up to it exactly, and no operation that consumes an unknown amount
            l = (l as u64).min(END - pos) as usize;
            if [7, 8].contains(&op) || [2, 4, 5].contains(&op) && pos + l as u64 + 1 > END {
                op = 3;
            }
        }
        c.fpn((op * 1_000_000 + l) as u64);
        log.push((op, l));
        c.ev(1);
        match op {
            0 | 1 => {
                let m = c.rng.bytes(l);
                let mut o = c.rng.bytes(l);
                if op == 0 {
                    s.encrypt(&m, &mut o)
                } else {
                    s.decrypt(&m, &mut o)
                }
                let ks = chacha::keystream(&key, &nonce, pos, l);
                let want: Vec<u8> = m.iter().zip(ks).map(|(a, b)| a ^ b).collect();
                diff(&format!("history {log:?} (0 encrypt, 1 decrypt, 2 next, 3 take, 4 nth, 5 skip, 6 zip, 7 step_by, 8 position, 9 fold, 10 size_hint): output"), &o, &want)?;
                pos += l as u64;
            }
            2 => {
                let b = s.next();
                let w = chacha::keystream(&key, &nonce, pos, 1)[0];
                check!(b == Some(w), "history {log:?}: next at {pos} gave {b:?}, expected {w}");
                pos += 1;
            }
            3 | 6 => {
                let got: Vec<u8> = if op == 3 { s.by_ref().take(l).collect() } else { (0..l).zip(&mut s).map(|(_, b)| b).collect() };
                diff(&format!("history {log:?}: bytes at {pos}"), &got, &chacha::keystream(&key, &nonce, pos, l))?;
                pos += l as u64;
            }
            4 => {
                let b = s.nth(l);
                let w = chacha::keystream(&key, &nonce, pos + l as u64, 1)[0];
                check!(b == Some(w), "history {log:?}: nth({l}) at {pos} gave {b:?}, expected {w}");
                pos += l as u64 + 1;
            }
            7 => {
                // every (k+1)-th byte
                let k = c.rng.below(130);
                let got: Vec<u8> = s.by_ref().take(l).step_by(k + 1).collect();
                let want: Vec<u8> = chacha::keystream(&key, &nonce, pos, l).into_iter().step_by(k + 1).collect();
                diff(&format!("history {log:?}: every {}th byte from {pos}", k + 1), &got, &want)?;
                // (how far such an iteration reads ahead is not specified: end here)
                break;
            }
            8 => {
                // up to and with the first byte that has some value
                let v = c.rng.u8();
                let p = s.position(|b| b == v);
                let mut n = 0;
                let w = loop {
                    let ks = chacha::keystream(&key, &nonce, pos + n, 256);
                    if let Some(i) = ks.iter().position(|&b| b == v) {
                        break n as usize + i;
                    }
                    n += 256;
                };
                check!(p == Some(w), "history {log:?}: first byte {v} at {p:?} of those from {pos}, expected {w}");
                pos += w as u64 + 1;
            }
            9 => {
                let got = s.by_ref().take(l).fold((0u64, 0u8), |a, b| (a.0 + 1, a.1.rotate_left(1) ^ b));
                let want = chacha::keystream(&key, &nonce, pos, l).into_iter().fold((0u64, 0u8), |a, b| (a.0 + 1, a.1.rotate_left(1) ^ b));
                check!(got == want, "history {log:?}: folding {l} bytes from {pos} gave {got:?}, expected {want:?}");
                pos += l as u64;
            }
            10 => {
                let (lo, up) = s.size_hint();
                check!(lo as u64 <= END - pos && up.map_or(true, |u| u as u64 + 64 >= END - pos), "history {log:?}: at {pos} the stream announces {lo} to {up:?} bytes");
            }
            _ => {
                let b = s.by_ref().skip(l).next();
                let w = chacha::keystream(&key, &nonce, pos + l as u64, 1)[0];
                check!(b == Some(w), "history {log:?}: skip({l}) at {pos} gave {b:?}, expected {w}");
                pos += l as u64 + 1;
            }
        }
    }
    c.nontrivial_if(n > 1);
    c.note(|| format!("key {} from {start} history (op, length) {log:?}", hx(&key)));
    Ok(())
}

#[cfg(feature = "state")]
fn far_blocks(x: &Ctx) {
    use crypto_pure::verif_state::stream_at;
    // the hook sets fields; where they mean something else by now, it shows near the start and says nothing
    let (k, n) = ([5; 32], [6; 12]);
    for b in [0, 1, 3, 1000] {
        let r = observe(|| stream_at(&k, &n, b).take(400).collect::<Vec<u8>>() == chacha::keystream(&k, &n, b as u64 * 64, 400));
        if r.map_or(true, |ok| !ok) {
            return x.remark("far blocks left out: the hook no longer places streams".into());
        }
    }
    x.par("far-blocks", x.n(20_000, 30), |c| {
        let (key, nonce) = (c.rng.pattern(32), c.rng.pattern(12));
        let edge = match c.rng.below(5) {
            0 => u32::MAX,
            1 => c.rng.u64() as u32,
            _ => 1u32 << (7 + c.idx % 25),
        };
        let b = if edge == u32::MAX { edge - c.rng.below(8) as u32 } else { edge.wrapping_sub(c.rng.below(8) as u32) };
        let s = stream_at(&key, &nonce, b);
        history_from(c, s, key, nonce, b as u64 * 64, 8, 300)
    });
}

// ------------------------------------------------------------------ C08
const CK: &[Kind] = &[Kind::CP];
pub fn c08(x: &Ctx) {
    len_grid(x, CK, if x.thorough() { 150 } else { (66.0 * x.scale.sqrt()) as u64 });
    len_sweep(x, CK, x.n(1500, 4));
    rnd_seal(x, CK, x.n(20_000, 30), 2500, "random");
    crate::p_size::seal(x, CK, 24);
    crate::p_size::seal_life(x, CK);
    rnd_seal(x, CK, x.n(20, 10), 300_000, "long");
    // ciphertexts constructed so that the accumulator ends where random data never puts it
    x.par("crafted-accumulators", x.n(6_000, 30), |c| {
        let (key, nonce) = (c.rng.bytes(32), c.rng.bytes(12));
        let pk = poly::poly_key(&key, &nonce);
        let off = c.idx % 48;
        let target = target(&mut c.rng, off);
        let mut r = c.rng.clone();
        let Some(ct) = poly::craft(&pk, &target, || r.u64()) else { return Ok(()) };
        let pt = chacha::xor(&key, &nonce, 1, &ct);
        c.fpn(off);
        c.note(|| format!("ciphertext {} drives the accumulator to {target:x?}", hx(&ct)));
        seal_case(c, Kind::CP, &key, &nonce, &[], &pt)?;
        // the ciphertext must also open
        let t = poly::aead_mac(&pk, &[], &ct);
        let mut out = vec![0; 32];
        check!(<ChaCha20Poly1305 as AeadCipher>::new(&key).decrypt(&ct, &nonce, &[], &t, &mut out), "authentic ciphertext {} rejected (accumulator {target:x?})", hx(&ct));
        diff("crafted decryption", &out, &pt)
    });
    x.par("counter-crossings", 6, |c| {
        let blocks = [254usize, 255, 256, 257, 65535, 65537][c.idx as usize];
        let (key, nonce) = (c.rng.bytes(32), c.rng.bytes(12));
        let pt = c.rng.bytes(64 * blocks - c.idx as usize);
        seal_case(c, Kind::CP, &key, &nonce, b"a", &pt)
    });
    #[cfg(feature = "hooks")]
    poly_hook(x);
}
/// target accumulator values: p - off (off in 1..), small values, limb edges
fn target(r: &mut Rng, i: u64) -> poly::N {
    let p = poly::P;
    match i {
        0..=9 => [p[0] - 1 - i, p[1], p[2], 0, 0],
        10..=15 => [i - 10, 0, 0, 0, 0],
        16 => [u64::MAX, u64::MAX, 2, 0, 0],
        17 => [u64::MAX, u64::MAX, 1, 0, 0],
        18 => [u64::MAX, u64::MAX, 0, 0, 0],
        19 => [0, 0, 3, 0, 0],
        20 => [0, 0, 2, 0, 0],
        21 => [0, 0, 1, 0, 0],
        22..=37 => {
            // a single byte set high, or all below it ones
            let b = (i - 22) as usize;
            let mut v = [0u8; 16];
            v[..b].fill(0xff);
            v[b] = 0x80;
            let mut n = poly::from_le(&v);
            n[2] = r.below(4) as u64;
            n
        }
        _ => {
            let v = r.pattern(16);
            let mut n = poly::from_le(&v);
            n[2] = r.below(4) as u64;
            poly::reduce(n)
        }
    }
}
#[cfg(feature = "hooks")]
fn poly_hook(x: &Ctx) {
    x.par("one-time-keys", x.n(40_000, 40), |c| {
        // chosen one-time keys: extreme r, s that carries out of every byte, crafted accumulators
        let mut pk: [u8; 32] = c.rng.pattern(32).try_into().unwrap();
        let s = c.rng.pattern(16);
        pk[16..].copy_from_slice(&s);
        match c.rng.below(6) {
            0 => pk[..16].fill(0xff),
            1 => {
                pk[..16].fill(0);
                let b = c.rng.below(128);
                pk[b / 8] = 1 << (b % 8);
            }
            _ => {}
        }
        // clamped here, so that it does not matter where the library does it
        for i in [3, 7, 11, 15] {
            pk[i] &= 15;
        }
        for i in [4, 8, 12] {
            pk[i] &= 252;
        }
        let t = target(&mut c.rng, c.idx % 48);
        let mut r = c.rng.clone();
        let ct = match poly::craft(&pk, &t, || r.u64()) {
            Some(ct) if c.rng.chance(3, 4) => ct,
            _ => {
                let l = c.rng.len(300);
                c.rng.pattern(l)
            }
        };
        let al = if ct.len() == 32 { 0 } else { c.rng.len(100) };
        let aad = c.rng.pattern(al);
        c.fp(&pk);
        c.fp(&ct);
        c.nontrivial();
        c.ev(1);
        c.note(|| format!("one-time key {} aad {} ciphertext {}", hx(&pk), hx(&aad), hx(&ct)));
        diff(&format!("Poly1305 key {} aad {} ciphertext {}", hx(&pk), hx(&aad), hx(&ct)), &crypto_pure::verif::poly1305(&pk, &aad, &ct), &poly::aead_mac(&pk, &aad, &ct))
    });
}
// ------------------------------------------------------------------ C09
fn other_inputs(r: &mut Rng, key: &[u8], nonce: &[u8], aad: &[u8], ct: &[u8], tag: &[u8]) -> Vec<(String, [Vec<u8>; 5])> {
    let base = [key.to_vec(), nonce.to_vec(), aad.to_vec(), ct.to_vec(), tag.to_vec()];
    let names = ["key", "nonce", "data", "ciphertext", "tag"];
    let mut v: Vec<(String, [Vec<u8>; 5])> = vec![];
    let mut add = |n: String, x: [Vec<u8>; 5]| {
        if x != base {
            v.push((n, x))
        }
    };
    for f in 0..4 {
        let n = base[f].len();
        let bits = if n <= 40 { (0..8 * n).collect::<Vec<_>>() } else { (0..100).map(|_| r.below(8 * n)).collect() };
        for b in bits {
            let mut x = base.clone();
            x[f][b / 8] ^= 1 << (b % 8);
            add(format!("bit {b} of the {} flipped", names[f]), x);
        }
        if n > 1 {
            for _ in 0..20 {
                let (i, j) = (r.below(n), r.below(n));
                let mut x = base.clone();
                x[f].swap(i, j);
                add(format!("bytes {i} and {j} of the {} swapped", names[f]), x);
                let mut x = base.clone();
                let d = r.u8();
                x[f][i] ^= d;
                x[f][j] = x[f][j].wrapping_add(d);
                add(format!("bytes {i} and {j} of the {} changed", names[f]), x);
            }
            // swapped 16-byte blocks
            if n >= 32 {
                let mut x = base.clone();
                let k = n / 16;
                let (i, j) = (r.below(k), r.below(k));
                for q in 0..16 {
                    x[f].swap(16 * i + q, 16 * j + q);
                }
                add(format!("blocks {i} and {j} of the {} swapped", names[f]), x);
            }
        }
    }
    for f in 2..4 {
        for k in 1..=33 {
            // truncation and zero extension (also across the padding), at either end
            let mut x = base.clone();
            x[f].resize(base[f].len() + k, 0);
            add(format!("{} extended by {k} zeros", names[f]), x);
            if base[f].len() >= k {
                let mut x = base.clone();
                x[f].truncate(base[f].len() - k);
                add(format!("{} shortened by {k}", names[f]), x);
                let mut x = base.clone();
                x[f].drain(..k);
                add(format!("{} without its first {k} bytes", names[f]), x);
                // moved to the other input
                let mut x = base.clone();
                if f == 3 {
                    let m: Vec<u8> = x[3].drain(..k).collect();
                    x[2].extend(m);
                } else {
                    let at = x[2].len() - k;
                    let mut m: Vec<u8> = x[2].drain(at..).collect();
                    m.extend_from_slice(&x[3]);
                    x[3] = m;
                }
                add(format!("{k} bytes moved between data and ciphertext"), x);
            }
        }
        let mut x = base.clone();
        x[f].clear();
        add(format!("empty {}", names[f]), x);
    }
    let mut x = base.clone();
    x.swap(2, 3);
    add("data and ciphertext exchanged".into(), x);
    // several fields at once
    for _ in 0..40 {
        let mut x = base.clone();
        for f in 0..5 {
            if !x[f].is_empty() && r.chance(1, 2) {
                let b = r.below(8 * x[f].len());
                x[f][b / 8] ^= 1 << (b % 8);
            }
        }
        add("several fields changed".into(), x);
    }
    v
}
fn decide(c: &mut Case, k: Kind, f: &[Vec<u8>; 5], what: &str) -> Res {
    let want = f[4] == RefAead::new(k, &f[0]).tag(&f[1], &f[2], &f[3]);
    let mut out = vec![0x33; f[3].len()];
    let got = Aead::new(k, &f[0]).decrypt(&f[3], &f[1], &f[2], &f[4], &mut out);
    c.ev(1);
    check!(got == want, "{k:?} decrypt returned {got}, authentic: {want} ({what}); key {} nonce {} data {} ciphertext {} tag {}", hx(&f[0]), hx(&f[1]), hx(&f[2]), hx(&f[3]), hx(&f[4]));
    Ok(())
}
fn c09_case(c: &mut Case, k: Kind, al: usize, pl: usize, full: bool) -> Res {
    let (key, nonce) = (c.rng.bytes(k.key_len()), c.rng.bytes(12));
    let (aad, ct) = (c.rng.pattern(al), c.rng.pattern(pl));
    let tag = RefAead::new(k, &key).tag(&nonce, &aad, &ct);
    c.fp(&key);
    c.fp(&aad);
    c.fp(&ct);
    c.nontrivial();
    let mut f = [key.clone(), nonce.clone(), aad.clone(), ct.clone(), tag.to_vec()];
    decide(c, k, &f, "authentic")?;
    let tags = tampered(&mut c.rng, &tag, if full { 300 } else { 40 });
    c.note(|| format!("{k:?} data {al} bytes, ciphertext {pl} bytes: authentic tuple, {} wrong tags and changed tuples", tags.len()));
    let a = Aead::new(k, &key);
    let mut out = vec![0; pl];
    for (w, t) in &tags {
        c.ev(1);
        check!(!a.decrypt(&ct, &nonce, &aad, t, &mut out), "{k:?} accepted a wrong tag ({w}): {} instead of {} (key {} nonce {} data {} ciphertext {})", hx(t), hx(&tag), hx(&key), hx(&nonce), hx(&aad), hx(&ct));
    }
    if full {
        let v = other_inputs(&mut c.rng, &key, &nonce, &aad, &ct, &tag);
        for (w, t) in v {
            f = t;
            decide(c, k, &f, &w)?;
        }
    }
    Ok(())
}
use crate::p_mac::tampered;
pub fn c09(x: &Ctx) {
    x.par("tampered", x.n(260, 30), |c| {
        let k = KINDS[(c.idx % 5) as usize];
        let (al, pl) = (c.rng.len(120), c.rng.len(200));
        c09_case(c, k, al, pl, true)
    });
    let n = if x.thorough() { 50 } else { 20 };
    x.par("length-grid", 5 * n * n, |c| {
        let k = KINDS[(c.idx % 5) as usize];
        let (al, pl) = ((c.idx / 5 % n) as usize, (c.idx / 5 / n) as usize);
        c09_case(c, k, al, pl, false)
    });
    crate::p_size::c09(x);
    // tags whose length equals 16 modulo a power of two
    x.par("wrapping-tag-lengths", 5 * 12, |c| {
        let k = KINDS[(c.idx % 5) as usize];
        let key = c.rng.bytes(k.key_len());
        let nonce = c.rng.bytes(12);
        let ct = c.rng.bytes(20);
        let mut t = RefAead::new(k, &key).tag(&nonce, b"d", &ct).to_vec();
        t.resize(16 + (1usize << (4 + c.idx / 5 * 2)), 0);
        c.fpn(c.idx);
        c.nontrivial();
        decide(c, k, &[key, nonce, b"d".to_vec(), ct, t], "overlong tag")
    });
    // two authentic tuples: every recombination of their parts
    x.par("recombination", x.n(300, 30), |c| {
        let k = KINDS[(c.idx % 5) as usize];
        let mk = |c: &mut Case| {
            let (al, pl) = (c.rng.len(40), c.rng.len(60));
            let mut f = [c.rng.bytes(k.key_len()), c.rng.bytes(12), c.rng.bytes(al), c.rng.bytes(pl), vec![]];
            f[4] = RefAead::new(k, &f[0]).tag(&f[1], &f[2], &f[3]).to_vec();
            f
        };
        let (a, b) = (mk(c), mk(c));
        c.fp(&a[4]);
        c.nontrivial();
        for m in 0..32 {
            let f: [Vec<u8>; 5] = std::array::from_fn(|i| if m >> i & 1 == 0 { a[i].clone() } else { b[i].clone() });
            decide(c, k, &f, &format!("recombination {m:05b}"))?;
        }
        Ok(())
    });
    x.par("hash-key-extremes", x.n(400, 10), |c| {
        // chosen hash keys, e.g. the zero key under which all data authenticate alike
        let h = special_h(&mut c.rng, c.idx % 140);
        let ks = c.rng.pattern(16).try_into().unwrap();
        with_mode(Mode::Chosen { h, mask: [0xff; 16], ks }, || c09_case(c, Kind::GMock, 20, 33, false))
    });
    // authentic inputs must be accepted, whatever they contain
    x.par("authentic", x.n(20_000, 20), |c| {
        let k = KINDS[(c.idx % 5) as usize];
        let (al, pl) = (c.rng.len(300), c.rng.len(600));
        let f0 = [c.rng.pattern(k.key_len()), c.rng.pattern(12), c.rng.pattern(al), c.rng.pattern(pl)];
        let t = RefAead::new(k, &f0[0]).tag(&f0[1], &f0[2], &f0[3]).to_vec();
        c.fp(&t);
        c.nontrivial();
        let [a, b, d, e] = f0;
        decide(c, k, &[a, b, d, e, t], "authentic")
    });
}

// ------------------------------------------------------------------ C10
struct Bufs {
    g: [Guard; 6],
}
thread_local! {
    static BUFS: Bufs = Bufs { g: std::array::from_fn(|_| Guard::new(1 << 14)) };
    static BIG: Bufs = Bufs { g: std::array::from_fn(|_| Guard::new((1 << 21) + (1 << 16))) };
}
pub(crate) fn c10_case(c: &mut Case, k: Kind, al: usize, pl: usize) -> Res {
    let key = c.rng.bytes(k.key_len());
    let nonce = c.rng.bytes(12);
    let (aad, pt) = (c.rng.pattern(al), c.rng.pattern(pl));
    let at: [At; 6] = std::array::from_fn(|_| At::rnd(&mut c.rng));
    c.fp(&key);
    c.fp(&aad);
    c.fp(&pt);
    c.nontrivial();
    c.note(|| format!("{k:?} data {al} bytes, message {pl} bytes, buffers at {at:?}: encrypt, decrypt, 8 rejected decryptions with write-protected memory"));
    let bufs = if al.max(pl) < 12_100 { &BUFS } else { &BIG };
    bufs.with(|b| {
        // 0 key, 1 nonce, 2 data, 3 input, 4 tag, 5 output; each between guard pages
        let g = &b.g;
        let place = |i: usize, s: &[u8], a: At| {
            g[i].protect(false);
            let o = g[i].off(s.len(), a);
            let all = g[i].all();
            all.fill(0x77);
            all[o..o + s.len()].copy_from_slice(s);
            o
        };
        let sl = |i: usize, o: usize, n: usize| unsafe { std::slice::from_raw_parts(g[i].ptr(o), n) };
        let (ko, no, ao, io) = (place(0, &key, at[0]), place(1, &nonce, at[1]), place(2, &aad, at[2]), place(3, &pt, at[3]));
        for i in 0..4 {
            g[i].protect(true); // a write to an input faults
        }
        let fillb = c.rng.u8();
        let oo = g[5].off(pl, at[5]);
        g[5].protect(false);
        g[5].all().fill(fillb);
        let a = Aead::new(k, sl(0, ko, key.len()));
        let out = |i: usize, o: usize, n: usize| unsafe { std::slice::from_raw_parts_mut(g[i].ptr(o), n) };
        let tag = a.encrypt(sl(3, io, pl), sl(1, no, 12), sl(2, ao, al), out(5, oo, pl));
        let ct = sl(5, oo, pl).to_vec();
        let outside = |what: &str, fillb: u8, oo: usize| {
            let all = g[5].all();
            match all.iter().enumerate().position(|(i, &x)| (i < oo || i >= oo + pl) && x != fillb) {
                Some(i) => Err(format!("{k:?} {what} wrote outside its output buffer, {} bytes from its start", i as isize - oo as isize)),
                None => Ok(()),
            }
        };
        outside("encrypt", fillb, oo)?;
        c.ev(2);
        // decrypt what was encrypted
        let to = place(4, &tag, at[4]);
        let ci = place(3, &ct, at[3]);
        g[3].protect(true);
        g[4].protect(true);
        let fillb = !fillb;
        g[5].all().fill(fillb);
        let ok = a.decrypt(sl(3, ci, pl), sl(1, no, 12), sl(2, ao, al), sl(4, to, 16), out(5, oo, pl));
        check!(ok, "{k:?} rejected its own ciphertext: key {} nonce {} data {} message {}", hx(&key), hx(&nonce), hx(&aad), hx(&pt));
        diff(&format!("{k:?} decrypted message (key {} nonce {} data {})", hx(&key), hx(&nonce), hx(&aad)), sl(5, oo, pl), &pt)?;
        outside("decrypt", fillb, oo)?;
        c.ev(3);
        // rejected tuples: the output pages are write-protected during the call, so that even a
        // transient write is seen; a second call observes the content from the block cipher
        for j in 0..8 {
            let mut t = tag.to_vec();
            let mut cc = ct.clone();
            let mut n2 = nonce.clone();
            match j {
                0 => t[c.rng.below(16)] ^= 1 << c.rng.below(8),
                1 => t[15] ^= 1,
                2 => t[0] ^= 0x80,
                3 => {
                    t.truncate(c.rng.below(16));
                }
                4 => t.push(0),
                5 if pl > 0 => cc[c.rng.below(pl)] ^= 1 << c.rng.below(8),
                6 => n2[c.rng.below(12)] ^= 1,
                _ => c.rng.fill(&mut t),
            }
            if t == tag && cc == ct && n2 == nonce {
                continue;
            }
            let to = place(4, &t, at[4]);
            let ci = place(3, &cc, at[3]);
            let n2o = place(1, &n2, at[1]);
            let prev = c.rng.bytes(pl);
            g[5].all().fill(fillb);
            g[5].all()[oo..oo + pl].copy_from_slice(&prev);
            for i in [1, 3, 4, 5] {
                g[i].protect(true);
            }
            let r1 = a.decrypt(sl(3, ci, pl), sl(1, n2o, 12), sl(2, ao, al), sl(4, to, t.len()), out(5, oo, pl));
            g[5].protect(false);
            if k == Kind::GMock {
                WATCH.with(|w| *w.borrow_mut() = Some(Watch { out: g[5].ptr(oo), want: prev.clone(), calls: 0, changed: None }));
            }
            let r2 = a.decrypt(sl(3, ci, pl), sl(1, n2o, 12), sl(2, ao, al), sl(4, to, t.len()), out(5, oo, pl));
            let w = WATCH.with(|w| w.borrow_mut().take());
            check!(!r1 && !r2, "{k:?} accepted tampered input (kind {j})");
            if let Some(w) = w {
                check!(w.changed.is_none(), "{k:?} rejected decryption had changed output byte {:?} by block-cipher call {:?}", w.changed.map(|x| x.1), w.changed.map(|x| x.0));
                c.ev(w.calls);
            }
            diff(&format!("{k:?} output buffer after a rejected decryption (kind {j})"), sl(5, oo, pl), &prev)?;
            outside("rejected decrypt", fillb, oo)?;
            c.ev(3);
        }
        Ok(())
    })
}
pub fn c10(x: &Ctx) {
    x.par("guarded-buffers", x.n(6_000, 30), |c| {
        let k = KINDS[(c.idx % 5) as usize];
        let (al, pl) = (c.rng.len(300), c.rng.len(600));
        c10_case(c, k, al, pl)
    });
    let n = if x.thorough() { 70 } else { 35 };
    x.par("length-grid", 5 * n * n, |c| {
        let k = KINDS[(c.idx % 5) as usize];
        let (al, pl) = ((c.idx / 5 % n) as usize, (c.idx / 5 / n) as usize);
        c10_case(c, k, al, pl)
    });
    x.par("long-messages", x.n(60, 20), |c| {
        let k = KINDS[(c.idx % 5) as usize];
        let (al, pl) = (c.rng.len(9000), c.rng.range(4000, 12_000));
        c10_case(c, k, al, pl)
    });
    crate::p_size::c10(x);
    x.par("round-trips", x.n(8_000, 30), |c| {
        // same instance, several messages and nonces in a row, in-order and reversed opening
        let k = KINDS[(c.idx % 5) as usize];
        let key = c.rng.pattern(k.key_len());
        let a = Aead::new(k, &key);
        let mut v = vec![];
        for _ in 0..1 + c.rng.below(5) {
            let (al, pl) = (c.rng.len(100), c.rng.len(500));
            let (n, d, p) = (c.rng.pattern(12), c.rng.pattern(al), c.rng.pattern(pl));
            let mut o = vec![0; pl];
            let t = a.encrypt(&p, &n, &d, &mut o);
            c.fp(&o);
            v.push((n, d, p, o, t));
        }
        c.nontrivial();
        if c.rng.chance(1, 2) {
            v.reverse();
        }
        let b = Aead::new(k, &key);
        for (n, d, p, o, t) in &v {
            let mut m = vec![0xcc; p.len()];
            let who = if c.rng.chance(1, 2) { &a } else { &b };
            check!(who.decrypt(o, n, d, t, &mut m), "{k:?} rejected its own ciphertext");
            c.ev(2);
            diff("round trip", &m, p)?;
        }
        Ok(())
    });
}
