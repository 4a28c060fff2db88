//! C15: no panic, overflow or stray access. Every public operation runs on buffers that lie flush
//! against unmapped pages (inputs sometimes read-only), with every byte around the buffers and every
//! input recorded before and compared after; the result is compared with the same call on ordinary
//! buffers. Then the workloads of all the other properties run with panics, crashes and hangs as the
//! only verdict.
use crate::api::*;
use crate::fw::*;
use crate::mem::*;
use crate::{by_sha, check};
use crypto_pure::chacha20::Stream;
use crypto_pure::sha2::HashFunction;
use crypto_pure::{curve25519, ed25519, hkdf, hmac, util};
use std::cell::RefCell;

const CAP: usize = 20480;
thread_local! {
    static G: RefCell<Vec<Guard>> = RefCell::new((0..6).map(|_| Guard::new(CAP)).collect());
}
/// What an operation is given: inputs and output buffers (with their initial content).
struct Args {
    op: u64,
    ins: Vec<Vec<u8>>,
    outs: Vec<Vec<u8>>,
    /// extra small parameters
    k: Vec<u64>,
}
const NOPS: u64 = 17;
const OPS: [&str; NOPS as usize] = [
    "hash", "hash chunked", "hmac", "hmac verify", "hkdf extract", "hkdf expand", "aes", "aead encrypt", "aead decrypt", "stream xor", "x25519 dh",
    "x25519 gen_pk", "ed25519 gen_pk", "ed25519 sign", "ed25519 verify", "verify_16", "stream key",
];
fn out(n: usize, r: &mut Rng) -> Vec<u8> {
    r.bytes(n)
}
fn make(r: &mut Rng, op: u64) -> Args {
    let mut a = Args { op, ins: vec![], outs: vec![], k: vec![r.u64(), r.u64(), r.u64()] };
    let any = |r: &mut Rng, m: usize| {
        let n = r.len(m);
        r.pattern(n)
    };
    let ds = [28, 32, 48, 64][(a.k[0] % 4) as usize];
    match op {
        0 => {
            a.ins.push(any(r, 3000));
            a.outs.push(out(ds, r));
        }
        1 => {
            for _ in 0..1 + r.below(4) {
                a.ins.push(any(r, 300));
            }
            a.outs.push(out(ds, r));
        }
        2 => {
            a.ins.push(any(r, 300));
            a.ins.push(any(r, 1000));
        }
        3 => {
            a.ins.push(any(r, 300));
            a.ins.push(any(r, 1000));
            let t = match a.k[0] % 4 {
                0 => mac_tag::<I224>(&a.ins[0], &[&a.ins[1]]),
                1 => mac_tag::<I256>(&a.ins[0], &[&a.ins[1]]),
                2 => mac_tag::<I384>(&a.ins[0], &[&a.ins[1]]),
                _ => mac_tag::<I512>(&a.ins[0], &[&a.ins[1]]),
            };
            a.ins.push(vary(r, t));
        }
        4 => {
            a.ins.push(any(r, 300));
            a.ins.push(any(r, 1000));
            a.outs.push(out(ds, r));
        }
        5 => {
            let n = ds + if r.chance(1, 2) { 0 } else { r.below(150) };
            a.ins.push(r.pattern(n));
            a.ins.push(any(r, 300));
            let n = match r.below(4) {
                0 => 255 * ds - r.below(3),
                1 => ds * r.below(256),
                2 => r.below(255 * ds + 1),
                _ => r.len(500),
            };
            a.outs.push(out(n, r));
        }
        6 => {
            let n = *r.pick(&[16usize, 24, 32]);
            a.ins.push(r.pattern(n));
            a.ins.push(r.pattern(16));
        }
        7 => {
            let k = KINDS[(a.k[0] % 4) as usize];
            a.ins.push(r.pattern(k.key_len()));
            a.ins.push(r.pattern(12));
            a.ins.push(any(r, 1000));
            a.ins.push(any(r, 3000));
            let n = a.ins[3].len();
            a.outs.push(out(n, r));
        }
        8 => {
            let k = KINDS[(a.k[0] % 4) as usize];
            let (key, nonce, aad, msg) = (r.pattern(k.key_len()), r.pattern(12), any(r, 1000), any(r, 3000));
            let mut ct = vec![0; msg.len()];
            let t = Aead::new(k, &key).encrypt(&msg, &nonce, &aad, &mut ct);
            let n = ct.len();
            a.outs.push(out(n, r));
            a.ins.extend([key, nonce, aad, ct, vary(r, t.to_vec())]);
        }
        9 => {
            a.ins.push(r.pattern(32));
            a.ins.push(r.pattern(12));
            a.ins.push(any(r, 2000));
            let n = a.ins[2].len();
            a.outs.push(out(n, r));
        }
        10 => {
            a.ins.push(r.pattern(32));
            a.ins.push(r.pattern(32));
        }
        11 | 12 => a.ins.push(r.pattern(32)),
        13 => {
            a.ins.push(any(r, 1000));
            a.ins.push(r.pattern(32));
        }
        14 => {
            let sk = r.pattern(32);
            let m = any(r, 500);
            let (mut pk, sig) = (ed25519::gen_pk(&sk).to_vec(), ed25519::sign(&m, &sk).to_vec());
            if r.chance(1, 3) {
                pk = r.pattern(32);
            }
            a.ins.extend([m, vary(r, sig), pk]);
        }
        15 => {
            let x = r.pattern(16);
            let y = vary(r, x.clone());
            a.ins.extend([x, y]);
        }
        _ => {
            a.ins.push(r.pattern(32));
            a.ins.push(r.pattern(12));
        }
    }
    a
}
/// right, flipped, cut, extended, empty or random
fn vary(r: &mut Rng, mut t: Vec<u8>) -> Vec<u8> {
    match r.below(6) {
        0 => {
            let k = r.below(8 * t.len());
            t[k / 8] ^= 1 << (k % 8);
        }
        1 => t.truncate(r.below(t.len())),
        2 => {
            let n = r.below(40);
            t.extend(r.bytes(n));
        }
        3 => t.clear(),
        4 => t = r.pattern(t.len()),
        _ => {}
    }
    t
}
fn hash_op<T: HashId>(parts: &[&[u8]], o: &mut [u8]) {
    let mut h = T::H::default();
    for p in parts {
        h.update(p);
    }
    h.write_digest(o);
}
fn extract_op<T: HashId>(s: &[u8], i: &[u8], o: &mut [u8]) {
    hkdf::extract::<T::H>(s, i, o);
}
fn expand_op<T: HashId>(p: &[u8], i: &[u8], o: &mut [u8]) {
    hkdf::expand::<T::H>(p, i, o);
}
fn verify_op<T: HashId>(k: &[u8], m: &[u8], t: &[u8]) -> bool {
    hmac::verify::<T::H>(k, m, t)
}
fn mac_op<T: HashId>(k: &[u8], m: &[u8]) -> Vec<u8> {
    mac_tag::<T>(k, &[m])
}
/// performs the operation; returned values that are not written to a buffer
fn perform(op: u64, k: &[u64], i: &[&[u8]], o: &mut [&mut [u8]]) -> Vec<u8> {
    let h = k[0] % 4;
    match op {
        0 | 1 => by_sha!(h, hash_op, i, o[0]),
        2 => return by_sha!(h, mac_op, i[0], i[1]),
        3 => return vec![by_sha!(h, verify_op, i[0], i[1], i[2]) as u8],
        4 => by_sha!(h, extract_op, i[0], i[1], o[0]),
        5 => by_sha!(h, expand_op, i[0], i[1], o[0]),
        6 => {
            let b: &[u8; 16] = i[1].try_into().unwrap();
            return Blk::new(i[0]).permute(b).to_vec();
        }
        7 => return Aead::new(KINDS[h as usize], i[0]).encrypt(i[3], i[1], i[2], o[0]).to_vec(),
        8 => return vec![Aead::new(KINDS[h as usize], i[0]).decrypt(i[3], i[1], i[2], i[4], o[0]) as u8],
        9 => {
            let mut s = Stream::new(i[0], i[1]);
            if k[1] % 3 != 0 {
                s.nth((k[1] % 500) as usize);
            }
            if k[1] % 2 == 0 {
                s.encrypt(i[2], o[0])
            } else {
                s.decrypt(i[2], o[0])
            }
            return vec![s.next().unwrap_or(0)];
        }
        10 => return curve25519::dh(i[0], i[1]).to_vec(),
        11 => return curve25519::gen_pk(i[0]).to_vec(),
        12 => return ed25519::gen_pk(i[0]).to_vec(),
        13 => return ed25519::sign(i[0], i[1]).to_vec(),
        14 => return vec![ed25519::verify(i[0], i[1], i[2]) as u8],
        15 => {
            let x: &[u8; 16] = i[0].try_into().unwrap();
            return vec![util::verify_16(x, i[1]) as u8];
        }
        _ => return Stream::new(i[0], i[1]).skip((k[1] % 300) as usize).take(100).collect(),
    }
    vec![]
}

fn guarded(c: &mut Case) -> Res {
    let op = c.idx % NOPS;
    let a = make(&mut c.rng, op);
    for x in a.ins.iter().chain(&a.outs) {
        c.fp(x);
    }
    c.nontrivial();
    c.note(|| format!("{}, parameters {:?}, inputs {}, output buffers of {:?} bytes", OPS[op as usize], a.k, a.ins.iter().map(|x| hx(x)).collect::<Vec<_>>().join(" | "), a.outs.iter().map(|x| x.len()).collect::<Vec<_>>()));
    // on ordinary buffers
    let mut plain = a.outs.clone();
    let want = perform(op, &a.k, &a.ins.iter().map(|x| &x[..]).collect::<Vec<_>>(), &mut plain.iter_mut().map(|x| &mut x[..]).collect::<Vec<_>>());
    // against guard pages
    let ro = c.rng.chance(1, 4);
    let canary = c.rng.u8();
    G.with(|g| {
        let g = g.borrow();
        let mut place = vec![];
        for (n, x) in a.ins.iter().chain(&a.outs).enumerate() {
            let at = At::rnd(&mut c.rng);
            let off = g[n].off(x.len(), at);
            g[n].all().fill(canary);
            g[n].all()[off..off + x.len()].copy_from_slice(x);
            place.push((off, x.len()));
            if ro && n < a.ins.len() {
                g[n].protect(true);
            }
        }
        let ni = a.ins.len();
        let r = observe(|| {
            let ins: Vec<&[u8]> = (0..ni).map(|n| unsafe { std::slice::from_raw_parts(g[n].ptr(place[n].0) as *const u8, place[n].1) }).collect();
            let mut outs: Vec<&mut [u8]> = (ni..place.len()).map(|n| unsafe { std::slice::from_raw_parts_mut(g[n].ptr(place[n].0), place[n].1) }).collect();
            perform(op, &a.k, &ins, &mut outs)
        });
        if ro {
            for n in 0..ni {
                g[n].protect(false);
            }
        }
        let got = match r {
            Ok(v) => v,
            Err(p) => return Err(format!("{}: panic at {}:{}: {}", OPS[op as usize], p.file, p.line, p.msg)),
        };
        diff(&format!("{}: value returned on buffers next to unmapped pages, against ordinary buffers", OPS[op as usize]), &got, &want)?;
        for (n, x) in a.ins.iter().chain(&plain).enumerate() {
            let (off, len) = place[n];
            let all = g[n].all();
            let what = if n < ni { "input" } else { "output" };
            diff(&format!("{}: {what} {n} after the call, against ordinary buffers", OPS[op as usize]), &all[off..off + len], x)?;
            check!(all[..off].iter().all(|&b| b == canary), "{}: bytes before {what} {n} were overwritten", OPS[op as usize]);
            check!(all[off + len..].iter().all(|&b| b == canary), "{}: bytes after {what} {n} were overwritten", OPS[op as usize]);
            c.ev(1);
        }
        Ok(())
    })
}

/// every length 0..=300 of every slice an operation accepts, and every alignment, at the guards
fn lengths(c: &mut Case) -> Res {
    let n = (c.idx % 301) as usize;
    let mode = c.idx / 301 % 2;
    let m = c.rng.pattern(n);
    c.fp(&m);
    c.nontrivial_if(n > 0);
    c.note(|| format!("every operation on {n}-byte inputs placed against a guard page ({})", if mode == 0 { "end" } else { "start" }));
    G.with(|g| {
        let g = g.borrow();
        let off = if mode == 0 { g[0].cap - n } else { 0 };
        let ooff = if mode == 0 { g[1].cap - n } else { 0 };
        g[0].all()[off..off + n].copy_from_slice(&m);
        let i = unsafe { std::slice::from_raw_parts(g[0].ptr(off) as *const u8, n) };
        let o = || unsafe { std::slice::from_raw_parts_mut(g[1].ptr(ooff), n) };
        let key = [7u8; 32];
        let mut count = 0;
        for h in 0..4u64 {
            let ds = [28, 32, 48, 64][h as usize];
            let mut d = vec![0; ds];
            perform(0, &[h], &[i], &mut [&mut d]);
            perform(2, &[h], &[i, &key], &mut []);
            perform(2, &[h], &[&key, i], &mut []);
            perform(3, &[h], &[&key, i, i], &mut []);
            perform(4, &[h], &[i, &key], &mut [&mut d]);
            perform(4, &[h], &[&key, i], &mut [&mut d]);
            perform(5, &[h], &[&d, i], &mut [o()]);
            if n >= ds {
                perform(5, &[h], &[i, &d], &mut [o()]);
            }
            let k = KINDS[h as usize];
            let aead = Aead::new(k, &key[..k.key_len()]);
            let t = aead.encrypt(i, &key[..12], i, o());
            let ct = o().to_vec();
            check!(aead.decrypt(&ct, &key[..12], i, &t, o()), "{k:?}: decryption of {n} bytes rejected its own ciphertext");
            aead.decrypt(i, &key[..12], &key, i, o());
            aead.decrypt(i, &key[..12], i, &t, o());
            count += 12;
        }
        perform(9, &[0, 0], &[&key, &key[..12], i], &mut [o()]);
        perform(9, &[0, 1], &[&key, &key[..12], i], &mut [o()]);
        perform(13, &[0], &[i, &key], &mut []);
        perform(14, &[0], &[i, &[1; 64], &key], &mut []);
        perform(14, &[0], &[&key, i, &key], &mut []);
        perform(15, &[0], &[&[1; 16], i], &mut []);
        c.ev(count + 6);
        Ok(())
    })
}

pub fn c15(x: &Ctx) {
    x.par("placed against guard pages", x.n(60_000, 20), guarded);
    x.par("every length against guard pages", 602, lengths);
}
/// Long messages given through buffers of which every part is the same few kilobytes of memory.
pub fn c15_others(x: &Ctx) {
    crate::p_mac::c01(x);
    crate::p_mac::c02(x);
    crate::p_mac::c03(x);
    crate::p_mac::c04(x);
    crate::p_aead::c05(x);
    crate::p_aead::c06(x);
    crate::p_aead::c07(x);
    crate::p_aead::c08(x);
    crate::p_aead::c09(x);
    crate::p_aead::c10(x);
    crate::p_curve::c11(x);
    crate::p_curve::c12(x);
    crate::p_curve::c13(x);
    crate::p_curve::c14(x);
    crate::p_iso::c19(x);
    crate::p_mac::c20(x);
}
