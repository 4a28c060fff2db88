//! C21: the memory an operation needs. The program's allocator counts the allocations a thread makes
//! while an operation runs, and the stack below the call is painted before and searched after it.
use crate::api::*;
use crate::fw::*;
use crate::{by_sha, check};
use crypto_pure::chacha20::Stream;
use crypto_pure::sha2::HashFunction;
use crypto_pure::{curve25519, ed25519, hkdf, hmac, util};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;
thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static MADE: Cell<u64> = const { Cell::new(0) };
}
fn tally() {
    let _ = ON.try_with(|o| {
        if o.get() {
            MADE.with(|m| m.set(m.get() + 1));
        }
    });
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        tally();
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        tally();
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        tally();
        unsafe { System.realloc(p, l, n) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe { System.dealloc(p, l) }
    }
}

/// painted depth; threads of the harness have 2 MiB
const DEPTH: usize = 768 << 10;
const PAINT: u64 = 0xa5c3_96e1_1e69_3c5a;
/// stack an operation may use, whatever it is given
const LIMIT: usize = 32 << 10;

#[inline(never)]
fn paint(lo: usize, hi: usize) {
    let mut p = lo;
    while p < hi {
        unsafe { std::ptr::write_volatile(p as *mut u64, PAINT) };
        p += 8;
    }
}
#[inline(never)]
fn lowest(lo: usize, hi: usize) -> usize {
    let mut p = lo;
    while p < hi && unsafe { std::ptr::read_volatile(p as *const u64) } == PAINT {
        p += 8;
    }
    p
}
#[inline(never)]
fn call(f: &mut dyn FnMut()) {
    f();
    std::hint::black_box(());
}
/// (allocations, bytes of stack to within 2 KiB)
#[inline(never)]
fn measure(f: &mut dyn FnMut()) -> (u64, usize) {
    let mark = 0u64;
    let top = std::hint::black_box(&mark) as *const u64 as usize & !7;
    // the painter's own frame lies just below
    let (lo, hi) = (top - DEPTH, top - 2048);
    paint(lo, hi);
    MADE.with(|m| m.set(0));
    ON.with(|o| o.set(true));
    call(f);
    ON.with(|o| o.set(false));
    let n = MADE.with(|m| m.get());
    let at = lowest(lo, hi);
    (n, top - at)
}

fn size(c: &mut Case) -> usize {
    match c.rng.below(200) {
        0 => 1 << 20,
        1..=5 => c.rng.below(300_000),
        6..=40 => c.rng.below(20_000),
        _ => c.rng.len(700),
    }
}
fn ok(c: &mut Case, x: &Ctx, what: &str, f: &mut dyn FnMut()) -> Res {
    let (n, stack) = measure(f);
    c.ev(1);
    x.count_max(&format!("stack bytes: {what}"), stack as u64);
    check!(n == 0, "{what}: {n} heap allocations during the call");
    check!(stack <= LIMIT, "{what}: {stack} bytes of stack or more (limit {LIMIT})");
    Ok(())
}
pub fn c21(x: &Ctx) {
    // the monitors must see what they are there to see
    x.par("self-test", 1, |c| {
        c.fpn(1);
        let mut v = vec![];
        let a = measure(&mut || v.push(1u8));
        assert!(a.0 == 1, "an allocation was not counted");
        #[inline(never)]
        fn deep(n: usize) -> u64 {
            let a = std::hint::black_box([n as u64; 64]);
            if n == 0 { a[0] } else { a[n % 64] ^ deep(n - 1) }
        }
        let a = measure(&mut || {
            std::hint::black_box(deep(200));
        });
        assert!(a.1 >= 200 * 512, "deep recursion measured as {} bytes", a.1);
        let a = measure(&mut || ());
        assert!(a.0 == 0 && a.1 <= 4096, "an empty call measured as {a:?}");
        Ok(())
    });
    x.par("hashing", x.n(6_000, 20), |c| {
        fn go<T: HashId>(c: &mut Case, x: &Ctx) -> Res {
            let n = size(c);
            let m = c.rng.pattern(n);
            let (a, b) = m.split_at(c.rng.below(n + 1));
            let step = 1 + c.rng.below(200);
            let mut d = vec![0; T::H::DIGEST_SIZE];
            let (kl, il, ol) = (c.rng.len(400), c.rng.len(400), c.rng.below(255 * d.len() + 1));
            let (key, info) = (c.rng.bytes(kl), c.rng.bytes(il));
            let prk = c.rng.bytes(d.len());
            let mut okm = vec![0; ol];
            let big = c.rng.chance(1, 4);
            c.fp(&key);
            c.fpn(n as u64);
            c.nontrivial();
            c.note(|| format!("{}: message of {n} bytes, key of {kl}", T::NAME));
            ok(c, x, "hash", &mut || {
                let mut h = T::H::default();
                h.update(a);
                h.update(b);
                h.write_digest(&mut d);
            })?;
            ok(c, x, "hash in pieces", &mut || {
                let mut h = T::H::default();
                for p in m.chunks(step) {
                    h.update(p);
                }
                h.write_digest(&mut d);
            })?;
            ok(c, x, "HMAC", &mut || {
                let mut h = hmac::Hmac::<T::H>::new(if big { &m } else { &key });
                h.update(a);
                h.update(b);
                std::hint::black_box(h.tag());
            })?;
            ok(c, x, "HMAC verification", &mut || {
                std::hint::black_box(hmac::verify::<T::H>(&key, &m, if big { &m } else { &d }));
            })?;
            ok(c, x, "HKDF extract", &mut || hkdf::extract::<T::H>(&key, &m, &mut d))?;
            ok(c, x, "HKDF expand", &mut || hkdf::expand::<T::H>(&prk, &info, &mut okm))
        }
        by_sha!((c.idx % 4) as usize, go, c, x)
    });
    x.par("ciphers", x.n(8_000, 20), |c| {
        let k = KINDS[(c.idx % 4) as usize];
        let (n, al) = (size(c), size(c));
        let (key, nonce) = (c.rng.bytes(k.key_len()), c.rng.bytes(12));
        let (m, aad) = (c.rng.pattern(n), c.rng.pattern(al));
        let (mut out, mut back) = (vec![0; n], vec![0; n]);
        let mut tag = [0; 16];
        c.fp(&key);
        c.fpn(n as u64);
        c.nontrivial();
        c.note(|| format!("{k:?}: message of {n} bytes, data of {al}"));
        let name = if k == Kind::CP { "ChaCha20-Poly1305" } else { "AES-GCM" };
        ok(c, x, &format!("{name} encrypt"), &mut || tag = Aead::new(k, &key).encrypt(&m, &nonce, &aad, &mut out))?;
        let a = Aead::new(k, &key);
        let mut good = false;
        ok(c, x, &format!("{name} decrypt"), &mut || good = a.decrypt(&out, &nonce, &aad, &tag, &mut back))?;
        check!(good && back == m, "round trip failed");
        tag[c.rng.below(16)] ^= 1;
        ok(c, x, &format!("{name} decrypt, forged"), &mut || good = a.decrypt(&out, &nonce, &aad, &tag, &mut back))?;
        check!(!good, "forgery accepted");
        if k == Kind::CP {
            let skip = size(c);
            ok(c, x, "ChaCha20 stream", &mut || {
                let mut s = Stream::new(&key, &nonce);
                s.nth(skip);
                s.encrypt(&m, &mut out);
                std::hint::black_box(s.by_ref().take(200).fold(0, |a, b| a ^ b));
            })?;
        }
        ok(c, x, "comparison", &mut || {
            std::hint::black_box(util::verify_16(&tag, &m));
        })
    });
    x.par("curves", x.n(1_500, 10), |c| {
        let n = size(c);
        let (sk, pk, m) = (c.rng.pattern(32), c.rng.pattern(32), c.rng.pattern(n));
        c.fp(&sk);
        c.fp(&pk);
        c.nontrivial();
        c.note(|| format!("secret {} public {} message of {n} bytes", hx(&sk), hx(&pk)));
        ok(c, x, "X25519", &mut || {
            std::hint::black_box((curve25519::gen_pk(&sk), curve25519::dh(&pk, &sk)));
        })?;
        let (mut p, mut s) = ([0; 32], [0; 64]);
        ok(c, x, "Ed25519 key generation and signing", &mut || {
            p = ed25519::gen_pk(&sk);
            s = ed25519::sign(&m, &sk);
        })?;
        let mut good = false;
        ok(c, x, "Ed25519 verification", &mut || good = ed25519::verify(&m, &s, &p))?;
        check!(good, "own signature rejected");
        s[c.rng.below(64)] ^= 1 << c.rng.below(8);
        ok(c, x, "Ed25519 verification, forged", &mut || {
            std::hint::black_box((ed25519::verify(&m, &s, &p), ed25519::verify(&m, &s, &pk), ed25519::verify(&m, &m, &p)));
        })
    });
    long_costs(x);
}

/// Time, measured on the thread's CPU clock, so coarse that only growth faster than the input can be
/// seen: a further byte of a long input may cost six times what one of 64 KiB does, and 0.3 s is free.
fn long_costs(x: &Ctx) {
    if x.variant != "rel" {
        return;
    }
    const OPS: [&str; 14] = [
        "SHA-256", "SHA-512", "HMAC message", "HMAC key", "HKDF info", "GCM encrypt", "GCM data", "GCM decrypt, forged", "ChaCha20-Poly1305 encrypt",
        "ChaCha20-Poly1305 data", "ChaCha20-Poly1305 decrypt, forged", "stream", "Ed25519 sign", "Ed25519 verify",
    ];
    const FILL: [&str; 5] = ["zeros", "zeros and then a one", "a one and then zeros", "ones", "random bytes"];
    let top = if x.thorough() { 64 << 20 } else { 6 << 20 };
    x.par_budget("long-costs", (OPS.len() * FILL.len()) as u64, 60, |c| {
        let (op, fill) = (OPS[c.idx as usize % OPS.len()], FILL[c.idx as usize / OPS.len()]);
        let mut m = match fill {
            "ones" => vec![0xff; top],
            "random bytes" => c.rng.bytes(top),
            _ => vec![0; top],
        };
        let mut out = vec![0u8; top];
        let (key, nonce): ([u8; 32], [u8; 12]) = (c.rng.arr(), c.rng.arr());
        let gcm = Aead::new(Kind::G128, &key[..16]);
        let cp = Aead::new(Kind::CP, &key);
        let (pk, sig) = (ed25519::gen_pk(&key), ed25519::sign(b"x", &key));
        c.fpn(c.idx);
        c.nontrivial();
        c.note(|| format!("{op} with up to {top} bytes of {fill}"));
        let mut time = |n: usize| {
            match fill {
                "zeros and then a one" => m[n - 1] = 1,
                "a one and then zeros" => m[0] = 1,
                _ => (),
            }
            let (m, o) = (&mut m[..n], &mut out[..n]);
            let t = cpu_now();
            let mut d = [0; 64];
            match op {
                "SHA-256" => drop(std::hint::black_box(crypto_pure::sha2::sha256(m))),
                "SHA-512" => drop(std::hint::black_box(crypto_pure::sha2::sha512(m))),
                "HMAC message" => drop(std::hint::black_box(hmac::hmac_sha256(&key, m))),
                "HMAC key" => drop(std::hint::black_box(hmac::hmac_sha256(m, &key))),
                "HKDF info" => hkdf::expand::<crypto_pure::sha2::Sha256>(&key, m, &mut d[..32]),
                "GCM encrypt" => drop(std::hint::black_box(gcm.encrypt(m, &nonce, &[], o))),
                "GCM data" => drop(std::hint::black_box(gcm.encrypt(&[], &nonce, m, &mut []))),
                "GCM decrypt, forged" => drop(std::hint::black_box(gcm.decrypt(m, &nonce, &[], &[7; 16], o))),
                "ChaCha20-Poly1305 encrypt" => drop(std::hint::black_box(cp.encrypt(m, &nonce, &[], o))),
                "ChaCha20-Poly1305 data" => drop(std::hint::black_box(cp.encrypt(&[], &nonce, m, &mut []))),
                "ChaCha20-Poly1305 decrypt, forged" => drop(std::hint::black_box(cp.decrypt(m, &nonce, &[], &[7; 16], o))),
                "stream" => Stream::new(&key, &nonce).encrypt(m, o),
                "Ed25519 sign" => drop(std::hint::black_box(ed25519::sign(m, &key))),
                _ => drop(std::hint::black_box(ed25519::verify(m, &sig, &pk))),
            }
            let t = cpu_now() - t;
            m[n - 1] = if fill == "zeros and then a one" { 0 } else { m[n - 1] };
            t
        };
        let base = (0..5).map(|_| time(65_536)).fold(f64::MAX, f64::min);
        for n in [300_000, (1 << 20) + 64, top] {
            // the best of several attempts: a disturbed measurement is repeated, real work stays
            let limit = 6.0 * base * (n as f64 / 65_536.0) + 0.3;
            let mut best = f64::MAX;
            for _ in 0..5 {
                best = best.min(time(n));
                c.ev(1);
                // far beyond the limit there is nothing to repeat
                if best <= limit || best > 4.0 * limit {
                    break;
                }
            }
            check!(best <= limit, "{op}: {n} bytes of {fill} took {best:.2} s of CPU time, 65536 bytes {base:.6} s: work grows faster than the input");
        }
        Ok(())
    });
}
