//! C19: instances are isolated from each other and shareable between threads; calls are repeatable.
use crate::api::*;
use crate::fw::*;
use crate::mocks::Mode;
use crate::{by_hash, check};
use crypto_pure::aes::{Aes128, Aes192, Aes256};
use crypto_pure::chacha20::Stream;
use crypto_pure::gcm::Gcm;
use crypto_pure::hmac::{self, Hmac, Tag};
use crypto_pure::poly1305::ChaCha20Poly1305;
use crypto_pure::sha2::*;
use crypto_pure::{curve25519, ed25519};
use refmodel::{chacha, ed, mac, x25519};
use std::sync::{Arc, Barrier};

/// One object under test with the model state that predicts everything it returns.
trait Obj {
    fn step(&mut self, r: &mut Rng) -> Res;
    /// final result, consuming the object
    fn end(self: Box<Self>, r: &mut Rng) -> Res;
    fn name(&self) -> String;
}
struct HashObj<T: HashId>(T::H, Vec<u8>);
impl<T: HashId> Obj for HashObj<T> {
    fn step(&mut self, r: &mut Rng) -> Res {
        let n = r.len(200);
        let m = r.bytes(n);
        self.0.update(&m);
        self.1.extend(m);
        Ok(())
    }
    fn end(self: Box<Self>, _: &mut Rng) -> Res {
        let mut o = vec![0; T::H::DIGEST_SIZE];
        let n = self.name();
        self.0.write_digest(&mut o);
        diff(&n, &o, &mac::Hash::hash(&T::model(), &[&self.1]))
    }
    fn name(&self) -> String {
        format!("digest of {} after {} bytes", T::NAME, self.1.len())
    }
}
struct MacObj<T: HashId>(Hmac<T::H>, Vec<u8>, Vec<u8>);
impl<T: HashId> Obj for MacObj<T> {
    fn step(&mut self, r: &mut Rng) -> Res {
        let n = r.len(200);
        let m = r.bytes(n);
        self.0.update(&m);
        self.2.extend(m);
        Ok(())
    }
    fn end(self: Box<Self>, _: &mut Rng) -> Res {
        let n = self.name();
        let want = mac::hmac(&T::model(), &self.1, &self.2);
        diff(&n, &self.0.tag(), &want)
    }
    fn name(&self) -> String {
        format!("HMAC-{} tag, key {}, after {} bytes", T::NAME, hx(&self.1), self.2.len())
    }
}
struct StreamObj(Stream, [u8; 32], [u8; 12], u64);
impl Obj for StreamObj {
    fn step(&mut self, r: &mut Rng) -> Res {
        let n = r.len(300);
        let m = r.bytes(n);
        let mut o = r.bytes(n);
        let at = self.3;
        let ks = chacha::keystream(&self.1, &self.2, at, n);
        self.3 += n as u64;
        match r.below(3) {
            0 => {
                let got: Vec<u8> = self.0.by_ref().take(n).collect();
                diff(&format!("{} bytes at {at}", self.name()), &got, &ks)
            }
            k => {
                if k == 1 {
                    self.0.encrypt(&m, &mut o)
                } else {
                    self.0.decrypt(&m, &mut o)
                }
                let want: Vec<u8> = m.iter().zip(ks).map(|(a, b)| a ^ b).collect();
                diff(&format!("{}: {n} bytes at {at}", self.name()), &o, &want)
            }
        }
    }
    fn end(mut self: Box<Self>, r: &mut Rng) -> Res {
        self.step(r)
    }
    fn name(&self) -> String {
        format!("ChaCha20 stream of key {}", hx(&self.1))
    }
}
struct BlkObj(Blk, refmodel::aes::Aes);
impl Obj for BlkObj {
    fn step(&mut self, r: &mut Rng) -> Res {
        let b: [u8; 16] = r.arr();
        diff("AES block", &self.0.permute(&b), &self.1.encrypt(&b))
    }
    fn end(mut self: Box<Self>, r: &mut Rng) -> Res {
        self.step(r)
    }
    fn name(&self) -> String {
        "AES".into()
    }
}
struct AeadObj {
    k: Kind,
    a: Aead,
    m: RefAead,
    /// an earlier sealed message, to be opened later
    kept: Option<([u8; 12], Vec<u8>, Vec<u8>, Vec<u8>, [u8; 16])>,
}
fn aead_step(k: Kind, a: &Aead, m: &RefAead, kept: &mut Option<([u8; 12], Vec<u8>, Vec<u8>, Vec<u8>, [u8; 16])>, r: &mut Rng) -> Res {
    let (la, lm) = (r.len(60), r.len(150));
    match (r.below(4), kept.take()) {
        (0, Some((n, aad, pt, ct, tag))) => {
            let mut out = vec![0; ct.len()];
            check!(a.decrypt(&ct, &n, &aad, &tag, &mut out), "{k:?}: a message sealed earlier by the same instance is rejected");
            diff(&format!("{k:?}: message sealed earlier"), &out, &pt)
        }
        (1, Some((n, aad, _, ct, mut tag))) => {
            let b = r.below(128);
            tag[b / 8] ^= 1 << (b % 8);
            let mut out = vec![0x77; ct.len()];
            check!(!a.decrypt(&ct, &n, &aad, &tag, &mut out), "{k:?}: forged tag accepted");
            diff("output of a rejected decryption", &out, &vec![0x77; ct.len()])
        }
        (_, _) => {
            let n: [u8; 12] = r.arr();
            let (aad, pt) = (r.bytes(la), r.bytes(lm));
            let mut ct = vec![0; lm];
            let tag = a.encrypt(&pt, &n, &aad, &mut ct);
            let (wc, wt) = m.seal(&n, &aad, &pt);
            diff(&format!("{k:?} ciphertext"), &ct, &wc)?;
            diff(&format!("{k:?} tag"), &tag, &wt)?;
            *kept = Some((n, aad, pt, ct, tag));
            Ok(())
        }
    }
}
impl Obj for AeadObj {
    fn step(&mut self, r: &mut Rng) -> Res {
        aead_step(self.k, &self.a, &self.m, &mut self.kept, r)
    }
    fn end(mut self: Box<Self>, r: &mut Rng) -> Res {
        self.step(r)
    }
    fn name(&self) -> String {
        format!("{:?}", self.k)
    }
}
/// the functions without objects, whose results must not depend on what happened before
struct FnObj;
impl Obj for FnObj {
    fn step(&mut self, r: &mut Rng) -> Res {
        let sk: [u8; 32] = r.arr();
        let n = r.len(100);
        let m = r.bytes(n);
        match r.below(9) {
            0 => {
                let u: [u8; 32] = r.arr();
                diff("dh", &curve25519::dh(&u, &sk), &x25519::x25519(&sk, &u))
            }
            1 => diff("curve25519::gen_pk", &curve25519::gen_pk(&sk), &x25519::base(&sk)),
            2 => diff("ed25519::gen_pk", &ed25519::gen_pk(&sk), &ed::public(&sk)),
            3 => diff("ed25519::sign", &ed25519::sign(&m, &sk), &ed::sign(&sk, &m)),
            4 => {
                let (pk, mut s) = (ed::public(&sk), ed::sign(&sk, &m));
                check!(ed25519::verify(&m, &s, &pk), "valid signature rejected");
                s[r.below(32)] ^= 1 << r.below(8);
                check!(!ed25519::verify(&m, &s, &pk), "altered signature accepted");
                Ok(())
            }
            5 => {
                fn go<T: HashId>(k: &[u8], m: &[u8], r: &mut Rng) -> Res {
                    let mut t = mac::hmac(&T::model(), k, m);
                    check!(hmac::verify::<T::H>(k, m, &t), "correct tag rejected");
                    let i = r.below(t.len());
                    t[i] ^= 1 << r.below(8);
                    check!(!hmac::verify::<T::H>(k, m, &t), "wrong tag accepted");
                    Ok(())
                }
                by_hash!(r.below(13), go, &sk, &m, r)
            }
            6 => {
                fn go<T: HashId>(k: &[u8], m: &[u8], r: &mut Rng) -> Res {
                    let n = r.len(200).min(255 * T::H::DIGEST_SIZE);
                    let mut prk = vec![0; T::H::DIGEST_SIZE];
                    crypto_pure::hkdf::extract::<T::H>(k, m, &mut prk);
                    diff("extract", &prk, &mac::extract(&T::model(), k, m))?;
                    diff("expand", &expand::<T>(&prk, m, n), &mac::expand(&T::model(), &prk, m, n))
                }
                by_hash!(r.below(13), go, &sk, &m, r)
            }
            7 => {
                let a: [u8; 16] = r.arr();
                let mut b = a;
                check!(crypto_pure::util::verify_16(&a, &b), "equal arrays compare different");
                b[r.below(16)] ^= 1 << r.below(8);
                check!(!crypto_pure::util::verify_16(&a, &b), "different arrays compare equal");
                Ok(())
            }
            _ => {
                fn go<T: HashId>(m: &[u8], _: &mut Rng) -> Res {
                    match T::oneshot(m) {
                        Some(d) => diff("one-call digest", &d, &mac::Hash::hash(&T::model(), &[m])),
                        None => Ok(()),
                    }
                }
                by_hash!(r.below(4), go, &m, r)
            }
        }
    }
    fn end(self: Box<Self>, _: &mut Rng) -> Res {
        Ok(())
    }
    fn name(&self) -> String {
        "functions".into()
    }
}
fn hash_obj<T: HashId + 'static>() -> Box<dyn Obj> {
    Box::new(HashObj::<T>(T::H::default(), vec![]))
}
fn mac_obj<T: HashId + 'static>(key: Vec<u8>) -> Box<dyn Obj> {
    Box::new(MacObj::<T>(Hmac::new(&key), key, vec![]))
}
fn new_obj(r: &mut Rng, shared_key: &[u8; 32]) -> Box<dyn Obj> {
    // half of the objects share one key (and nonce), so that state leaking between equal or
    // related objects shows as well
    let key: [u8; 32] = if r.chance(1, 2) { *shared_key } else { r.arr() };
    let nonce: [u8; 12] = if r.chance(1, 2) { [3; 12] } else { r.arr() };
    match r.below(12) {
        0 | 1 | 2 => by_hash!(r.below(13), hash_obj,),
        3 | 4 => {
            let n = r.len(200);
            let k = if r.chance(1, 2) { r.bytes(n) } else { key.to_vec() };
            by_hash!(r.below(13), mac_obj, k)
        }
        5 | 6 => Box::new(StreamObj(Stream::new(&key, &nonce), key, nonce, 0)),
        7 => {
            let l = *r.pick(&[16usize, 24, 32]);
            Box::new(BlkObj(Blk::new(&key[..l]), refmodel::aes::Aes::new(&key[..l])))
        }
        8 | 9 | 10 => {
            let k = *r.pick(&KINDS);
            let key = &key[..k.key_len()];
            Box::new(AeadObj { k, a: Aead::new(k, key), m: RefAead::new(k, key), kept: None })
        }
        _ => Box::new(FnObj),
    }
}
fn interleave(c: &mut Case, objects: usize, steps: usize) -> Res {
    let shared: [u8; 32] = c.rng.arr();
    let mut v: Vec<(usize, Box<dyn Obj>)> = vec![];
    let mut made = 0;
    let mut last = usize::MAX;
    let mut switches = 0;
    let mut trail = vec![];
    for _ in 0..steps {
        let op = c.rng.below(10);
        if v.is_empty() || (op == 0 && v.len() < objects) || v.len() < 2 {
            let o = new_obj(&mut c.rng, &shared);
            c.fp(o.name().as_bytes());
            v.push((made, o));
            made += 1;
        } else if op == 1 && made > objects {
            let i = c.rng.below(v.len());
            let (id, o) = v.swap_remove(i);
            let n = o.name();
            o.end(&mut c.rng).map_err(|e| format!("object {id} ({n}) at its end, with {} others alive: {e}; schedule {trail:?}", v.len()))?;
            trail.push(id);
            c.ev(1);
        } else {
            let i = c.rng.below(v.len());
            let (id, o) = &mut v[i];
            if *id != last {
                switches += 1;
            }
            last = *id;
            trail.push(*id);
            c.fpn(*id as u64);
            let (id, n) = (*id, o.name());
            o.step(&mut c.rng).map_err(|e| format!("object {id} ({n}): {e}; schedule {trail:?}"))?;
            c.ev(1);
        }
    }
    while !v.is_empty() {
        let i = c.rng.below(v.len());
        let (id, o) = v.swap_remove(i);
        let n = o.name();
        o.end(&mut c.rng).map_err(|e| format!("object {id} ({n}) at the end: {e}; schedule {trail:?}"))?;
        c.ev(1);
    }
    c.nontrivial_if(switches > 3);
    c.ctx.count("switches_between_objects", switches);
    c.ctx.count("objects", made as u64);
    c.note(|| format!("{made} objects, {switches} switches, schedule {trail:?}"));
    Ok(())
}

/// Whether a type is Send and Sync, observed without making the build depend on it.
struct Probe<T>(std::marker::PhantomData<T>);
trait NoSend {
    fn send(&self) -> bool {
        false
    }
}
trait NoSync {
    fn sync(&self) -> bool {
        false
    }
}
impl<T> NoSend for &Probe<T> {}
impl<T> NoSync for &Probe<T> {}
impl<T: Send> Probe<T> {
    fn send(&self) -> bool {
        true
    }
}
impl<T: Sync> Probe<T> {
    fn sync(&self) -> bool {
        true
    }
}
/// Lets an object be used from several threads even if its type does not promise that; the
/// monitors (and ThreadSanitizer) then observe what really happens.
struct Shared<T>(T);
unsafe impl<T> Send for Shared<T> {}
unsafe impl<T> Sync for Shared<T> {}
impl<T> Shared<T> {
    fn get(&self) -> &T {
        &self.0
    }
}

pub fn c19(x: &Ctx) {
    crate::p_size::c19(x);
    x.par("interleaved-objects", x.n(5_000, 40), |c| {
        let (o, s) = (2 + c.rng.below(12), 10 + c.rng.below(120));
        interleave(c, o, s)
    });
    x.par("repeated-calls", x.n(3_000, 40), |c| {
        // the same calls again after unrelated ones give the same results
        let seed = c.rng.u64();
        let first = transcript(seed);
        let mut noise = c.rng.clone();
        let n = c.rng.below(6);
        for _ in 0..n {
            FnObj.step(&mut noise)?;
        }
        c.fpn(seed);
        c.nontrivial();
        c.ev(2);
        c.note(|| format!("ten results of seed {seed:#x}, {n} unrelated calls, the same ten again"));
        diff("results of the second run of the same calls", &transcript(seed), &first)
    });
    x.par("send-and-sync", 1, |c| {
        macro_rules! probe {
            ($($t:ty),*) => {$(
                {
                    let p = Probe::<$t>(std::marker::PhantomData);
                    let r = &p;
                    check!(r.send(), "{} is not Send", stringify!($t));
                    check!(r.sync(), "{} is not Sync", stringify!($t));
                    c.ev(2);
                }
            )*};
        }
        c.nontrivial();
        c.note(|| "every public type is Send and Sync".into());
        probe!(
            Aes128, Aes192, Aes256, Stream, ChaCha20Poly1305, Gcm<Aes128>, Gcm<Aes192>, Gcm<Aes256>, Sha224, Sha256, Sha384, Sha512, Hmac<Sha224>, Hmac<Sha256>,
            Hmac<Sha384>, Hmac<Sha512>, Tag
        );
        Ok(())
    });
    // one cipher instance used by several threads at once
    let tsan = x.variant == "tsan";
    let rounds = if tsan { 60 } else { 200 };
    for (label, kind) in [("shared-gcm-128", Kind::G128), ("shared-gcm-192", Kind::G192), ("shared-gcm-256", Kind::G256), ("shared-chacha-poly", Kind::CP), ("shared-generic-gcm", Kind::GMock)] {
        threads(x, label, x.n(24, 20), rounds, |r| {
            let key = r.bytes(kind.key_len());
            let s = Arc::new(Shared((Aead::new(kind, &key), RefAead::new(kind, &key))));
            Arc::new(move |r: &mut Rng| {
                let p = s.get();
                aead_step(kind, &p.0, &p.1, &mut None, r)?;
                let mut kept = None;
                aead_step(kind, &p.0, &p.1, &mut kept, r)?;
                aead_step(kind, &p.0, &p.1, &mut kept, r)
            })
        });
    }
    threads(x, "shared-aes", x.n(24, 20), rounds * 3, |r| {
        let key = r.bytes(32);
        let s = Arc::new(Shared([16usize, 24, 32].map(|l| (Blk::new(&key[..l]), refmodel::aes::Aes::new(&key[..l])))));
        Arc::new(move |r: &mut Rng| {
            let b: [u8; 16] = r.arr();
            let (a, m) = &s.get()[r.below(3)];
            diff("AES block", &a.permute(&b), &m.encrypt(&b))
        })
    });
    threads(x, "parallel-functions", x.n(24, 20), rounds / 4, |_| Arc::new(|r: &mut Rng| FnObj.step(r)));
    threads(x, "parallel-objects", x.n(24, 20), rounds / 8, |r| {
        let shared: [u8; 32] = r.arr();
        Arc::new(move |r: &mut Rng| {
            let mut v: Vec<_> = (0..3).map(|_| new_obj(r, &shared)).collect();
            for _ in 0..10 {
                let i = r.below(3);
                v[i].step(r)?;
            }
            for o in v {
                o.end(r)?;
            }
            Ok(())
        })
    });
    // objects handed from thread to thread in the middle of their work
    x.par("migrating-objects", x.n(150, 20), |c| {
        let shared: [u8; 32] = c.rng.arr();
        let mut o = Shared(new_obj(&mut c.rng, &shared));
        let mut r = c.rng.clone();
        let hops = 2 + c.rng.below(5);
        c.fpn(c.idx);
        c.nontrivial();
        c.ev(hops as u64);
        let name = o.get().name();
        c.note(|| format!("{name} moved over {hops} threads"));
        for _ in 0..hops {
            let (oo, rr, res) = std::thread::spawn(move || {
                let o2: Shared<Box<dyn Obj>> = o;
                let mut r2 = r;
                let mut o2 = o2;
                let res = observe(|| o2.0.step(&mut r2));
                (o2, r2, res)
            })
            .join()
            .expect("thread");
            o = oo;
            r = rr;
            match res {
                Ok(x) => x?,
                Err(p) => return Err(format!("panic at {}:{}: {}", p.file, p.line, p.msg)),
            }
        }
        o.0.end(&mut r)
    });
    let _ = Mode::Prf(0);
}
/// results of ten calls drawn from a seed
fn transcript(seed: u64) -> Vec<u8> {
    let mut r = Rng::new(seed);
    let mut v = vec![];
    for _ in 0..10 {
        let k: [u8; 32] = r.arr();
        let n = r.len(120);
        let m = r.bytes(n);
        match r.below(8) {
            0 => v.extend(sha256(&m)),
            1 => v.extend(sha512(&m)),
            2 => v.extend(hmac::hmac_sha384(&k, &m)),
            3 => v.extend(curve25519::dh(&k, &k)),
            4 => v.extend(ed25519::sign(&m, &k)),
            5 => v.extend(expand::<I256>(&k, &m, 70)),
            6 => v.extend(Stream::new(&k, &k[..12]).skip(n).take(100)),
            _ => {
                let kind = *r.pick(&KINDS);
                let a = Aead::new(kind, &k[..kind.key_len()]);
                let mut o = vec![0; n];
                v.extend(a.encrypt(&m, &k[..12], &k, &mut o));
                v.extend(o);
            }
        }
    }
    v
}
/// Each case starts 4 threads that run `step` at the same time, `rounds` times each.
fn threads<S>(x: &Ctx, label: &str, n: u64, rounds: usize, setup: S)
where
    S: Fn(&mut Rng) -> Arc<dyn Fn(&mut Rng) -> Res + Send + Sync> + Sync,
{
    x.par(label, n, |c| {
        const T: usize = 4;
        let step = setup(&mut c.rng);
        let bar = Barrier::new(T);
        let seeds: Vec<u64> = (0..T).map(|_| c.rng.u64()).collect();
        c.fpn(seeds[0]);
        c.nontrivial();
        c.ev((T * rounds) as u64);
        c.note(|| format!("{T} threads x {rounds} rounds"));
        let rs: Vec<Result<Res, PanicInfo>> = std::thread::scope(|s| {
            let hs: Vec<_> = seeds
                .iter()
                .map(|&sd| {
                    let (step, bar) = (step.clone(), &bar);
                    s.spawn(move || {
                        let mut r = Rng::new(sd);
                        bar.wait();
                        observe(|| {
                            for k in 0..rounds {
                                step(&mut r).map_err(|e| format!("round {k}: {e}"))?;
                            }
                            Ok(())
                        })
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("thread")).collect()
        });
        for (t, r) in rs.into_iter().enumerate() {
            match r {
                Ok(r) => r.map_err(|e| format!("thread {t} of {T}: {e}"))?,
                Err(p) => return Err(format!("thread {t} of {T}: panic at {}:{}: {}", p.file, p.line, p.msg)),
            }
        }
        Ok(())
    });
}
