//! Mock hash functions and block ciphers plugged into the library through its public traits.
use crate::fw::{hash_bytes, mix};
use crypto_pure::aes::BlockCipher;
use crypto_pure::sha2::HashFunction;
use std::cell::RefCell;

/// A toy hash with digest size D and block size B; chunking-independent, not length-extendable.
#[derive(Clone, Default)]
pub struct Toy<const D: usize, const B: usize>(Vec<u8>);
pub fn toy_digest(d: usize, b: usize, m: &[u8]) -> Vec<u8> {
    let mut h = hash_bytes(mix((d * 1000 + b) as u64), m);
    (0..d)
        .map(|_| {
            h = mix(h.wrapping_add(0x9e3779b97f4a7c15));
            (h >> 40) as u8
        })
        .collect()
}
impl<const D: usize, const B: usize> HashFunction for Toy<D, B> {
    const DIGEST_SIZE: usize = D;
    const BLOCK_SIZE: usize = B;
    fn update(&mut self, input: &[u8]) {
        self.0.extend_from_slice(input);
    }
    fn write_digest(self, output: &mut [u8]) {
        output.copy_from_slice(&toy_digest(D, B, &self.0));
    }
}
pub struct ToyRef(pub usize, pub usize);
impl refmodel::mac::Hash for ToyRef {
    fn digest_size(&self) -> usize {
        self.0
    }
    fn block_size(&self) -> usize {
        self.1
    }
    fn hash(&self, parts: &[&[u8]]) -> Vec<u8> {
        toy_digest(self.0, self.1, &parts.concat())
    }
}

/// A hash that looks at the length, the first 4 KiB and the last 64 bytes only, so that inputs of any length are cheap.
#[derive(Clone, Default)]
pub struct Ends<const D: usize, const B: usize> {
    len: u64,
    first: Vec<u8>,
    last: Vec<u8>,
}
impl<const D: usize, const B: usize> HashFunction for Ends<D, B> {
    const DIGEST_SIZE: usize = D;
    const BLOCK_SIZE: usize = B;
    fn update(&mut self, input: &[u8]) {
        self.len += input.len() as u64;
        let n = (4096 - self.first.len()).min(input.len());
        self.first.extend_from_slice(&input[..n]);
        self.last.extend_from_slice(&input[input.len().saturating_sub(64)..]);
        let n = self.last.len().saturating_sub(64);
        self.last.drain(..n);
    }
    fn write_digest(self, output: &mut [u8]) {
        let mut m = self.len.to_le_bytes().to_vec();
        m.extend_from_slice(&self.first);
        m.extend_from_slice(&self.last);
        output.copy_from_slice(&toy_digest(D, B, &m));
    }
}
pub struct EndsRef(pub usize, pub usize);
impl refmodel::mac::Hash for EndsRef {
    fn digest_size(&self) -> usize {
        self.0
    }
    fn block_size(&self) -> usize {
        self.1
    }
    fn hash(&self, parts: &[&[u8]]) -> Vec<u8> {
        let len: u64 = parts.iter().map(|p| p.len() as u64).sum();
        let first: Vec<u8> = parts.iter().flat_map(|p| p.iter()).take(4096).copied().collect();
        let mut last: Vec<u8> = parts.iter().rev().flat_map(|p| p.iter().rev()).take(64).copied().collect();
        last.reverse();
        toy_digest(self.0, self.1, &[&len.to_le_bytes()[..], &first, &last].concat())
    }
}

#[derive(Clone)]
pub enum Mode {
    /// E(0) = h, E(x) = ks xor (spread of x masked by m)
    Chosen { h: [u8; 16], mask: [u8; 16], ks: [u8; 16] },
    /// pseudo-random function of key and block
    Prf(u64),
}
pub fn mock_fn(mode: &Mode, x: &[u8; 16]) -> [u8; 16] {
    match mode {
        Mode::Chosen { h, mask, ks } => {
            if *x == [0; 16] {
                return *h;
            }
            let mut o = *ks;
            if *mask != [0; 16] {
                let a = hash_bytes(1, x).to_le_bytes();
                let b = hash_bytes(2, x).to_le_bytes();
                for i in 0..8 {
                    o[i] ^= a[i] & mask[i];
                    o[8 + i] ^= b[i] & mask[8 + i];
                }
            }
            o
        }
        Mode::Prf(k) => {
            let mut o = [0; 16];
            o[..8].copy_from_slice(&hash_bytes(*k, x).to_le_bytes());
            o[8..].copy_from_slice(&hash_bytes(!*k, x).to_le_bytes());
            o
        }
    }
}
/// Watches a buffer while the block cipher is being called.
pub struct Watch {
    pub out: *const u8,
    pub want: Vec<u8>,
    pub calls: u64,
    pub changed: Option<(u64, usize)>,
}
thread_local! {
    pub static WATCH: RefCell<Option<Watch>> = const { RefCell::new(None) };
    pub static MODE: RefCell<Option<Mode>> = const { RefCell::new(None) };
}
/// Block cipher whose function is the thread's MODE at construction time.
#[derive(Clone)]
pub struct Mock(Mode);
impl BlockCipher for Mock {
    fn new(key: &[u8]) -> Self {
        // keys of any length
        let m = MODE.with(|m| m.borrow().clone());
        // without a mode: a PRF of the key
        Mock(m.unwrap_or_else(|| Mode::Prf(hash_bytes(7, key))))
    }
    fn permute(&self, input: &[u8; 16]) -> [u8; 16] {
        WATCH.with(|w| {
            if let Some(w) = w.borrow_mut().as_mut() {
                w.calls += 1;
                if w.changed.is_none() {
                    for (i, b) in w.want.iter().enumerate() {
                        // volatile: the buffer is mutably borrowed by the library during this call
                        let x = unsafe { std::ptr::read_volatile(w.out.add(i)) };
                        if x != *b {
                            w.changed = Some((w.calls, i));
                            break;
                        }
                    }
                }
            }
        });
        mock_fn(&self.0, input)
    }
}
struct Reset;
impl Drop for Reset {
    fn drop(&mut self) {
        MODE.with(|x| *x.borrow_mut() = None);
    }
}
pub fn with_mode<T>(m: Mode, f: impl FnOnce() -> T) -> T {
    MODE.with(|x| *x.borrow_mut() = Some(m));
    let _r = Reset;
    f()
}
