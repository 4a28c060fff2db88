//! The longest legal messages. 64 and 256 GiB of address space in which every period of the buffer is
//! the same memory; the keystream of the mock cipher has that period, so that all aliases agree.
//! Runs in a child process. A monitor thread watches the last byte of the output: once it is written
//! and nothing has gone wrong for a while, the block counter has reached its last value unharmed
//! (authenticating that much takes far longer; `full` does it, with the tag computed from the period).
use crate::fw::*;
use crate::mem::*;
use crypto_pure::aes::BlockCipher;
use crypto_pure::gcm::{AeadCipher, Gcm};
use crypto_pure::poly1305::ChaCha20Poly1305;
use refmodel::{chacha, gcm::GMul};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

/// blocks in a period: whole pages, and divides no power of two
const N: u32 = 256 * 4099;
const H: u128 = 0x66e94bd4ef8a2c3b884cfa59ca342b2e;
static CALLS: AtomicU64 = AtomicU64::new(0);

/// Keystream block that depends on the counter's place in the period alone.
#[derive(Clone)]
struct Periodic;
fn ks(counter: u32) -> [u8; 16] {
    let a = mix((counter.wrapping_sub(2) % N) as u64 + 1);
    let mut o = [0; 16];
    o[..8].copy_from_slice(&(a | 0x0101_0101_0101_0101).to_le_bytes());
    o[8..].copy_from_slice(&(a.rotate_left(23) | 0x0101_0101_0101_0101).to_le_bytes());
    o
}
impl BlockCipher for Periodic {
    fn new(_: &[u8]) -> Self {
        Periodic
    }
    fn permute(&self, b: &[u8; 16]) -> [u8; 16] {
        CALLS.store(CALLS.load(Relaxed) + 1, Relaxed);
        if b[..12] == [0; 12] {
            return H.to_be_bytes();
        }
        ks(u32::from_be_bytes([b[12], b[13], b[14], b[15]]))
    }
}
const GLEN: usize = (1 << 36) - 33;
/// GHASH of the whole ciphertext of zeros
fn expected() -> [u8; 16] {
    let g = GMul::new(H);
    let mut p = 0u128;
    let mut hn = 1u128 << 127; // one
    for i in 0..N {
        p = g.mul(p ^ u128::from_be_bytes(ks(i + 2)));
        hn = g.mul(hn);
    }
    let gn = GMul::new(hn);
    let full = GLEN / 16;
    let mut y = 0u128;
    for _ in 0..full / N as usize {
        y = gn.mul(y) ^ p;
    }
    for i in 0..(full % N as usize) as u32 {
        y = g.mul(y ^ u128::from_be_bytes(ks(i + 2)));
    }
    let mut last = ks((full as u64 + 2) as u32);
    last[GLEN % 16..].fill(0);
    y = g.mul(y ^ u128::from_be_bytes(last));
    y = g.mul(y ^ (GLEN as u128 * 8));
    (y ^ u128::from_be_bytes(ks(1))).to_be_bytes()
}
fn refuse(code: i32, m: &str) -> ! {
    println!("{m}");
    std::process::exit(code)
}
/// Exit codes: 0 right, 9 wrong (with a description), 10 panicked, 11 no address space, 13 out of time,
/// 14 outputs cannot alias here.
pub fn child(what: &str, seconds: u64) -> ! {
    std::thread::spawn(move || {
        std::thread::sleep(std::time::Duration::from_secs(seconds));
        refuse(13, "out of time")
    });
    let cp = what.starts_with("cp");
    let full = what.ends_with("full");
    let len = if cp { (1usize << 38) - 64 } else { GLEN };
    let unit = N as usize * 16;
    let (Some(input), Some(out)) = (Map::aliased(len, 1 << 24), Map::aliased(len, unit)) else { refuse(11, "no address space") };
    if !out.private_tail() {
        refuse(11, "no memory");
    }
    if full {
        let short = (2 * unit + (1 << 20) + 21).min(len);
        let g = <Gcm<Periodic> as AeadCipher>::new(&[]);
        let (i, o) = (input.slice(short), out.slice_mut(short));
        let t = g.encrypt(i, &[0x24; 12], &[], o);
        let right = (0..N).step_by(4097).all(|k| o[k as usize * 16..][..16] == ks(k + 2));
        let back = input.slice_mut(short);
        if !right || !g.decrypt(o, &[0x24; 12], &[], &t, back) || back[..1 << 24].iter().any(|&b| b != 0) {
            // say, one that copies the input over and applies the keystream in place
            refuse(14, "this implementation needs memory of its own for the whole output");
        }
        CALLS.store(0, Relaxed);
    }
    let (key, nonce) = ([0x42u8; 32], [0x24u8; 12]);
    let tail = 15usize;
    let want: Vec<u8> = if cp {
        chacha::block(&key, &nonce, u32::MAX).to_vec()
    } else {
        ks(u32::MAX).to_vec()
    };
    let want = if cp { want[64 - tail..].to_vec() } else { want[..tail].to_vec() };
    let at = out.p as usize + len - tail;
    let watch = want.clone();
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(50));
        if full {
            continue;
        }
        let now: Vec<u8> = (0..tail).map(|i| unsafe { std::ptr::read_volatile((at + i) as *const u8) }).collect();
        if now.iter().any(|&b| b != 0) {
            // what follows the last block is given time to go wrong
            std::thread::sleep(std::time::Duration::from_millis(1500));
            let now: Vec<u8> = (0..tail).map(|i| unsafe { std::ptr::read_volatile((at + i) as *const u8) }).collect();
            if now != watch {
                refuse(9, &format!("the last bytes of the ciphertext of {len} zeros are {now:02x?}, not {watch:02x?}"));
            }
            refuse(0, &format!("{}", CALLS.load(Relaxed)));
        }
    });
    let r = observe(|| {
        let (i, o) = (input.slice(len), out.slice_mut(len));
        if cp {
            <ChaCha20Poly1305 as AeadCipher>::new(&key).encrypt(i, &nonce, &[], o);
            return None;
        }
        let g = <Gcm<Periodic> as AeadCipher>::new(&[]);
        let t = g.encrypt(i, &nonce, &[], o);
        if t != expected() {
            return Some(format!("tag {t:02x?}, not {:02x?}", expected()));
        }
        for k in (0..N).step_by(4097).chain(N - 300..N) {
            if o[k as usize * 16..][..16] != ks(k + 2) {
                return Some(format!("wrong ciphertext at block {k} of the period"));
            }
        }
        if o[len - tail..] != want[..] {
            return Some("wrong last bytes".into());
        }
        if what == "gcm-full" {
            // back again, into the input's memory
            let back = input.slice_mut(len);
            back[..1 << 24].fill(0xa5);
            if !g.decrypt(o, &nonce, &[], &t, back) {
                return Some("its own ciphertext was rejected".into());
            }
            if let Some(k) = back[..1 << 24].iter().position(|&b| b != 0) {
                return Some(format!("decrypted byte at {k} modulo 16 MiB is not zero"));
            }
        }
        None
    });
    match r {
        Ok(None) => refuse(0, &format!("{}", CALLS.load(Relaxed))),
        Ok(Some(e)) => refuse(9, &e),
        Err(p) => refuse(if p.file.contains("harness") || p.file.starts_with("src/") { 12 } else { 10 }, &format!("panic at {}:{}: {}", p.file, p.line, p.msg)),
    }
}

pub fn c15long(x: &Ctx) {
    let jobs: &[(&str, u64)] = if x.thorough() { &[("gcm", 1200), ("gcm-full", 6600), ("cp", 6600)] } else { &[("gcm", 240)] };
    x.par("longest-messages", jobs.len() as u64, |c| {
        let (what, limit) = jobs[c.idx as usize];
        c.fpn(c.idx);
        c.nontrivial();
        c.note(|| format!("longest legal message: {what}"));
        let exe = std::env::current_exe().expect("own path");
        let o = std::process::Command::new(exe).args(["longest", what, &limit.to_string()]).output().expect("child process");
        let out = String::from_utf8_lossy(&o.stdout).trim().to_string();
        match o.status.code() {
            Some(0) => {
                c.ev(1);
                x.count(&format!("{what}: block cipher calls"), out.parse().unwrap_or(0));
                Ok(())
            }
            Some(9) | Some(10) => Err(format!("{what}: {out}")),
            Some(99) => Err(format!("{what}: {}", String::from_utf8_lossy(&o.stderr).trim())),
            s => {
                x.remark(format!("longest message ({what}) gave no verdict: {s:?} {out}"));
                Ok(())
            }
        }
    });
}
