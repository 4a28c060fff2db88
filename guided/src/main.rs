//! guided run PROP SEED SECONDS THREADS    searches inputs of the operations PROP is about, guided by
//!                                         what the instrumented library reports, and compares each
//!                                         answer with the reference model's
//! guided case 'TEXT'                      one input as printed with a violation
mod cov;
use cov::Rec;
use refmodel::{aes::Aes, chacha, ed, gcm, mac, poly, sha2::Alg, x25519};
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::{Duration, Instant};

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ z >> 30).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ z >> 27).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ z >> 31
    }
    fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.next() as u8).collect()
    }
}

/// What an operation is given: byte strings and small numbers.
#[derive(Clone, PartialEq, Eq, Hash, Default)]
struct Input {
    s: Vec<Vec<u8>>,
    n: Vec<usize>,
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
impl Input {
    fn text(&self, op: &str, v: usize) -> String {
        let n: Vec<String> = self.n.iter().map(|x| x.to_string()).collect();
        let s: Vec<String> = self.s.iter().map(|x| hex(x)).collect();
        format!("{op} {v} [{}] ({})", n.join(","), s.join(","))
    }
    fn parse(t: &str) -> (String, usize, Input) {
        let mut w = t.split(' ');
        let (op, v) = (w.next().unwrap().to_string(), w.next().unwrap().parse().unwrap());
        let inner = |x: &str| x[1..x.len() - 1].to_string();
        let (n, s) = (inner(w.next().unwrap()), inner(w.next().unwrap()));
        let n = n.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
        (op, v, Input { s: s.split(',').map(unhex).collect(), n })
    }
}

const ALGS: [Alg; 4] = [Alg::S224, Alg::S256, Alg::S384, Alg::S512];
/// (operation, variants, lengths of its strings, bounds of its numbers)
type Op = (&'static str, usize, &'static [(usize, usize)], &'static [usize]);
const OPS: &[Op] = &[
    ("riddle", 1, &[(0, 80)], &[]),
    ("hash", 4, &[(0, 420)], &[420, 420]),
    ("hmac", 4, &[(0, 300), (0, 300)], &[300, 300]),
    ("hmac-verify", 4, &[(0, 200), (0, 200), (0, 80)], &[2]),
    ("extract", 4, &[(0, 300), (0, 300)], &[]),
    ("expand", 4, &[(0, 300), (0, 300)], &[700]),
    ("aes", 3, &[(0, 0), (16, 16)], &[]),
    ("seal", 5, &[(0, 0), (12, 12), (0, 260), (0, 260)], &[]),
    ("reseal", 5, &[(0, 0), (12, 12), (0, 60), (0, 60), (12, 12), (0, 60), (0, 60)], &[]),
    ("open", 5, &[(0, 0), (12, 12), (0, 200), (0, 200), (0, 40)], &[2]),
    ("stream", 1, &[(32, 32), (12, 12)], &[4, 301, 4, 301, 4, 301, 4, 301]),
    ("dh", 1, &[(32, 32), (32, 32)], &[]),
    ("dh-public", 1, &[(32, 32)], &[]),
    ("ed-sign", 1, &[(0, 200), (32, 32)], &[]),
    ("ed-verify", 1, &[(0, 80), (0, 80), (32, 32)], &[]),
    ("verify-16", 1, &[(16, 16), (0, 80)], &[]),
];
fn op_of(name: &str) -> &'static Op {
    OPS.iter().find(|o| o.0 == name).unwrap()
}
/// operations and variants a property is about
fn plan(prop: &str) -> Vec<(&'static str, Vec<usize>)> {
    let all = || vec![0, 1, 2, 3];
    match prop {
        "C01" => vec![("hash", all())],
        "C02" => vec![("hmac", all())],
        "C03" => vec![("hmac-verify", all())],
        "C04" => vec![("extract", all()), ("expand", all())],
        "C05" => vec![("aes", vec![0, 1, 2])],
        "C06" => vec![("seal", vec![0, 1, 2, 4]), ("reseal", vec![0, 1, 2, 4])],
        "C07" => vec![("stream", vec![0])],
        "C08" => vec![("seal", vec![3]), ("reseal", vec![3])],
        "C09" | "C10" => vec![("open", vec![0, 1, 2, 3, 4])],
        "C11" => vec![("dh", vec![0]), ("dh-public", vec![0])],
        "C13" => vec![("ed-sign", vec![0])],
        "C14" => vec![("ed-verify", vec![0])],
        "C20" => vec![("verify-16", vec![0])],
        "C15" => OPS[1..].iter().map(|o| (o.0, (0..o.1).collect())).collect(),
        _ => panic!("nothing to search for {prop}"),
    }
}
fn bounds(op: &Op, v: usize, i: usize) -> (usize, usize) {
    let (lo, hi) = op.2[i];
    match (op.0, i) {
        ("aes" | "seal" | "reseal" | "open", 0) => {
            let k = [16, 24, 32, 32, 32][v];
            (k, k)
        }
        ("expand", 0) => (ALGS[v].digest_size(), hi),
        _ => (lo, hi),
    }
}

fn same(what: &str, got: &[u8], want: &[u8]) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        Err(format!("{what}: got {} expected {}", hex(got), hex(want)))
    }
}
/// Runs one input, observed, and compares with the model.
fn check(op: &str, v: usize, i: &Input, r: &mut Rec) -> Result<(), String> {
    let s = &i.s;
    let r = &mut *r;
    match op {
        "riddle" => {
            let yes = cov::during(r, || probe::riddle(&s[0]));
            if yes { Err("solved".into()) } else { Ok(()) }
        }
        "hash" => {
            let mut out = [0; 64];
            cov::during(r, || probe::hash(v, &s[0], &i.n, &mut out));
            let d = refmodel::sha2::digest(ALGS[v], &s[0]);
            same("digest", &out[..d.len()], &d)
        }
        "hmac" => {
            let mut out = [0; 64];
            cov::during(r, || probe::mac(v, &s[0], &s[1], &i.n, &mut out));
            let d = mac::hmac(&ALGS[v], &s[0], &s[1]);
            same("tag", &out[..d.len()], &d)
        }
        "hmac-verify" => {
            let right = mac::hmac(&ALGS[v], &s[0], &s[1]);
            let tag = presented(&right, i, &s[2]);
            let got = cov::during(r, || probe::mac_verify(v, &s[0], &s[1], &tag));
            if got == (tag == right) { Ok(()) } else { Err(format!("verification returned {got} for the tag {}, the right one is {}", hex(&tag), hex(&right))) }
        }
        "extract" => {
            let mut out = [0; 64];
            cov::during(r, || probe::extract(v, &s[0], &s[1], &mut out));
            let d = mac::extract(&ALGS[v], &s[0], &s[1]);
            same("prk", &out[..d.len()], &d)
        }
        "expand" => {
            let mut out = vec![0; i.n[0]];
            cov::during(r, || probe::expand(v, &s[0], &s[1], &mut out));
            same("okm", &out, &mac::expand(&ALGS[v], &s[0], &s[1], i.n[0]))
        }
        "aes" => {
            let b: [u8; 16] = s[1][..].try_into().unwrap();
            let out = cov::during(r, || probe::aes(&s[0], &b));
            same("block", &out, &Aes::new(&s[0]).encrypt(&b))
        }
        "seal" | "reseal" => {
            // with one object, one message or two
            let n = s.len() / 3;
            let mut outs: Vec<Vec<u8>> = (0..n).map(|k| vec![0xe7; s[3 * k + 3].len()]).collect();
            let mut tags = vec![];
            cov::during(r, || {
                let c = probe::Aead::new(v, &s[0]);
                for (k, out) in outs.iter_mut().enumerate() {
                    tags.push(c.seal(&s[3 * k + 3], &s[3 * k + 1], &s[3 * k + 2], out));
                }
            });
            for k in 0..n {
                let (nonce, data, m) = (&s[3 * k + 1], &s[3 * k + 2], &s[3 * k + 3]);
                let (ct, t) = match v {
                    0..=2 => gcm::seal(&Aes::new(&s[0]), nonce, data, m),
                    3 => poly::seal(&s[0], nonce, data, m),
                    _ => gcm::seal(&|b: &[u8; 16]| probe::mock(&s[0], b), nonce, data, m),
                };
                same(["ciphertext", "second ciphertext"][k], &outs[k], &ct)?;
                same(["tag", "second tag"][k], &tags[k], &t)?;
            }
            Ok(())
        }
        "open" => {
            let mut out = vec![0xe7; s[3].len()];
            let e = Aes::new(&s[0]);
            let toy = |b: &[u8; 16]| probe::mock(&s[0], b);
            let right = match v {
                0..=2 => gcm::tag(&e, &s[1], &s[2], &s[3]),
                3 => poly::tag(&s[0], &s[1], &s[2], &s[3]),
                _ => gcm::tag(&toy, &s[1], &s[2], &s[3]),
            };
            let tag = presented(&right, i, &s[4]);
            let got = cov::during(r, || probe::Aead::new(v, &s[0]).open(&s[3], &s[1], &s[2], &tag, &mut out));
            if got != (tag == right) {
                return Err(format!("decryption returned {got} for the tag {}, the right one is {}", hex(&tag), hex(&right)));
            }
            let m = match v {
                _ if !got => vec![0xe7; s[3].len()],
                0..=2 => gcm::ctr(&e, &s[1], &s[3]),
                3 => chacha::xor(&s[0], &s[1], 1, &s[3]),
                _ => gcm::ctr(&toy, &s[1], &s[3]),
            };
            same("output buffer", &out, &m)
        }
        "stream" => {
            let steps: Vec<(u8, usize)> = i.n.chunks(2).map(|c| (c[0] as u8, c[1])).collect();
            let mut got = vec![];
            cov::during(r, || probe::stream(&s[0], &s[1], &steps, &mut got));
            let want = chacha::keystream(&s[0], &s[1], 0, got.len());
            match got.iter().zip(&want).position(|(g, w)| g.is_some_and(|g| g != *w)) {
                None => Ok(()),
                Some(p) => Err(format!("byte {p} of the stream: got {:?} expected {}", got[p], want[p])),
            }
        }
        "dh" => {
            let out = cov::during(r, || probe::dh(&s[0], &s[1]));
            same("shared secret", &out, &x25519::x25519(&s[1], &s[0]))
        }
        "dh-public" => {
            let out = cov::during(r, || probe::dh_public(&s[0]));
            same("public key", &out, &x25519::base(&s[0]))
        }
        "ed-sign" => {
            let (p, g) = cov::during(r, || (probe::ed_public(&s[1]), probe::ed_sign(&s[0], &s[1])));
            same("public key", &p, &ed::public(&s[1]))?;
            same("signature", &g, &ed::sign(&s[1], &s[0]))
        }
        "ed-verify" => {
            let got = cov::during(r, || probe::ed_verify(&s[0], &s[1], &s[2]));
            match ed::verify(&s[0], &s[1], &s[2]) {
                ed::Verdict::Valid if !got => Err("a valid signature is rejected".into()),
                ed::Verdict::Invalid if got => Err("an invalid signature is accepted".into()),
                _ => Ok(()),
            }
        }
        "verify-16" => {
            let x: [u8; 16] = s[0][..].try_into().unwrap();
            let got = cov::during(r, || probe::verify_16(&x, &s[1]));
            if got == (x[..] == s[1][..]) { Ok(()) } else { Err(format!("verify_16 returned {got}")) }
        }
        _ => panic!("no operation {op}"),
    }
}
/// a tag as the input wants it: the right one with some bytes changed, or any string
fn presented(right: &[u8], i: &Input, d: &[u8]) -> Vec<u8> {
    if i.n[0] == 0 {
        right.iter().enumerate().map(|(j, b)| b ^ d.get(j).unwrap_or(&0)).collect()
    } else {
        d.to_vec()
    }
}
fn guarded(op: &str, v: usize, i: &Input, r: &mut Rec) -> Result<(), String> {
    catch_unwind(AssertUnwindSafe(|| check(op, v, i, r))).unwrap_or_else(|e| {
        let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        Err(format!("panic: {m}"))
    })
}

fn seed(op: &Op, v: usize, g: &mut Rng, k: usize) -> Input {
    let mut i = Input::default();
    for j in 0..op.2.len() {
        let (lo, hi) = bounds(op, v, j);
        let n = match k % 3 {
            0 => lo,
            1 => (lo + hi) / 2,
            _ => lo + g.below(hi - lo + 1),
        };
        i.s.push(if k < 2 { vec![0; n] } else { g.bytes(n) });
    }
    i.n = op.3.iter().map(|&m| if k < 2 { 0 } else { g.below(m) }).collect();
    match op.0 {
        "hmac-verify" | "open" if k % 2 == 0 => {
            i.n[0] = 0;
            i.s.last_mut().unwrap().fill(0);
        }
        "ed-verify" => {
            let sk = g.bytes(32);
            i.s[1] = ed::sign(&sk, &i.s[0]).to_vec();
            i.s[2] = ed::public(&sk).to_vec();
        }
        "verify-16" if k % 2 == 0 => i.s[1] = i.s[0].clone(),
        _ => (),
    }
    i
}

const BYTES: [u8; 10] = [0, 1, 0x7f, 0x80, 0xff, 0xfe, 0x20, 0x40, 0x10, 0x36];
fn mutate(op: &Op, v: usize, i: &mut Input, other: &Input, r: &Rec, g: &mut Rng) {
    for _ in 0..1 + g.below(3) {
        let strings = (0..i.s.len()).filter(|&j| bounds(op, v, j).1 > 0).count();
        let j = if g.below(i.s.len() + i.n.len() / 2) >= strings.min(i.s.len()) && !i.n.is_empty() { usize::MAX } else { g.below(i.s.len()) };
        // what comparisons were made with
        let c = r.some(g.next() as usize);
        if j == usize::MAX {
            let k = g.below(i.n.len());
            i.n[k] = match (g.below(4), c) {
                (0, _) => g.below(op.3[k]),
                (1, _) => i.n[k].wrapping_add(1),
                (2, _) => i.n[k].wrapping_sub(1),
                (_, Some(c)) => (if g.below(2) == 0 { c.a } else { c.b }) as usize,
                _ => other.n[k],
            };
            if i.n[k] >= op.3[k] {
                i.n[k] = g.below(op.3[k]);
            }
            continue;
        }
        let (lo, hi) = bounds(op, v, j);
        let len = i.s[j].len();
        let resize = |s: &mut Vec<u8>, n: usize, g: &mut Rng| {
            let n = n.clamp(lo, hi);
            while s.len() < n {
                s.push(g.next() as u8);
            }
            s.truncate(n);
        };
        match g.below(16) {
            13.. if len > 0 => {
                // a number of some width moved by a power of two, or by the distance of two operands
                let n = [1, 2, 4, 8][g.below(4)].min(len);
                let (a, big) = (g.below(len - n + 1), g.below(2) == 0);
                let mut w = [0; 8];
                w[..n].copy_from_slice(&i.s[j][a..a + n]);
                if big {
                    w[..n].reverse();
                }
                let d = match c {
                    Some(c) if g.below(4) == 0 => c.a.wrapping_sub(c.b),
                    _ => 1 << g.below(8 * n),
                };
                let x = u64::from_le_bytes(w);
                w = if g.below(2) == 0 { x.wrapping_add(d) } else { x.wrapping_sub(d) }.to_le_bytes();
                if big {
                    w[..n].reverse();
                }
                i.s[j][a..a + n].copy_from_slice(&w[..n]);
            }
            0 | 1 if len > 0 => i.s[j][g.below(len)] ^= 1 << g.below(8),
            2 if len > 0 => i.s[j][g.below(len)] = g.next() as u8,
            3 if len > 0 => i.s[j][g.below(len)] = BYTES[g.below(BYTES.len())],
            4 if lo < hi => {
                let n = match (g.below(4), c) {
                    (0, _) => len + 1,
                    (1, _) => len.saturating_sub(1),
                    (2, Some(c)) => (if g.below(2) == 0 { c.a } else { c.b }).min(1 << 20) as usize,
                    _ => lo + g.below(hi - lo + 1),
                };
                resize(&mut i.s[j], n, g);
            }
            5 if len > 0 => {
                let (a, n, b) = (g.below(len), 1 + g.below(16), BYTES[g.below(BYTES.len())]);
                let e = (a + n).min(len);
                i.s[j][a..e].fill(b);
            }
            6 => {
                let o = other.s[j].clone();
                i.s[j] = o;
            }
            7 if len > 0 => {
                // a part of another string
                let k = g.below(i.s.len());
                let from = if g.below(2) == 0 { other.s[k].clone() } else { i.s[k].clone() };
                if !from.is_empty() {
                    let (a, b, n) = (g.below(len), g.below(from.len()), 1 + g.below(32));
                    let n = n.min(len - a).min(from.len() - b);
                    i.s[j][a..a + n].copy_from_slice(&from[b..b + n]);
                }
            }
            8 | 9 if len > 0 => {
                // an operand of a comparison somewhere
                if let Some(c) = c {
                    let x = if g.below(2) == 0 { c.a } else { c.b };
                    let x = x.wrapping_add([0, 0, 0, 1, u64::MAX][g.below(5)]);
                    let mut b = x.to_le_bytes()[..c.size as usize].to_vec();
                    if g.below(2) == 0 {
                        b.reverse();
                    }
                    let a = g.below(len);
                    let n = b.len().min(len - a);
                    i.s[j][a..a + n].copy_from_slice(&b[..n]);
                }
            }
            _ if len > 0 => {
                // where one operand stands, the other
                if let Some(c) = c {
                    let (x, y) = if g.below(2) == 0 { (c.a, c.b) } else { (c.b, c.a) };
                    let size = c.size as usize;
                    let (mut x, mut y) = (x.to_le_bytes()[..size].to_vec(), y.to_le_bytes()[..size].to_vec());
                    if g.below(2) == 0 {
                        x.reverse();
                        y.reverse();
                    }
                    let at: Vec<usize> = (0..(len + 1).saturating_sub(size)).filter(|&p| i.s[j][p..p + size] == x[..]).collect();
                    if !at.is_empty() {
                        let p = at[g.below(at.len())];
                        i.s[j][p..p + size].copy_from_slice(&y);
                    }
                }
            }
            _ => (),
        }
    }
}

/// inputs that make a comparison of `i`, just run, come out equal, as far as an operand is part of the input
fn substitutes(op: &Op, v: usize, i: &Input, r: &Rec, g: &mut Rng, queue: &mut Vec<Input>) {
    let mut made = vec![];
    for c in r.unequal() {
        for (x, y) in [(c.a, c.b), (c.b, c.a)] {
            for (j, s) in i.s.iter().enumerate() {
                let (lo, hi) = bounds(op, v, j);
                if s.len() as u64 == x && (lo as u64..=hi as u64).contains(&y) {
                    let mut n = i.clone();
                    while n.s[j].len() < y as usize {
                        n.s[j].push(g.next() as u8);
                    }
                    n.s[j].truncate(y as usize);
                    made.push(n);
                }
                // a wide operand may have been read from fewer bytes
                for size in [8, 4, 2, 1] {
                    if size > c.size as usize || size < 8 && (x >> (8 * size) != 0 || y >> (8 * size) != 0) {
                        continue;
                    }
                    for rev in [false, true] {
                        let (mut xb, mut yb) = (x.to_le_bytes()[..size].to_vec(), y.to_le_bytes()[..size].to_vec());
                        if rev {
                            xb.reverse();
                            yb.reverse();
                        }
                        let at: Vec<usize> = (0..(s.len() + 1).saturating_sub(size)).filter(|&p| s[p..p + size] == xb[..]).collect();
                        if !at.is_empty() && at.len() < 20 && (size > 1 || !rev) {
                            let mut n = i.clone();
                            let p = at[g.below(at.len())];
                            n.s[j][p..p + size].copy_from_slice(&yb);
                            made.push(n);
                        }
                    }
                }
            }
            for (k, &n) in i.n.iter().enumerate() {
                if n as u64 == x && (y as usize) < op.3[k] {
                    let mut m = i.clone();
                    m.n[k] = y as usize;
                    made.push(m);
                }
            }
        }
    }
    while made.len() > 200 {
        let k = g.below(made.len());
        made.swap_remove(k);
    }
    queue.append(&mut made);
}

struct Found {
    msg: String,
    text: String,
}
#[derive(Default)]
struct Stats {
    execs: u64,
    distinct: u64,
    corpus: u64,
    features: u64,
    comparisons: u64,
    edges: u64,
    sample: String,
}
fn search(op: &'static Op, v: usize, seed_: u64, until: Option<Instant>, max: u64, stop: &AtomicBool) -> (Stats, Vec<Found>) {
    let mut g = Rng(seed_);
    let mut r = Rec::new();
    let mut seen = vec![false; cov::MAP];
    let mut corpus: Vec<Input> = vec![];
    let mut ran: HashSet<u64> = HashSet::new();
    let mut st = Stats::default();
    let mut found = vec![];
    let mut queue: Vec<Input> = vec![];
    while st.execs < max && !stop.load(Relaxed) && until.is_none_or(|u| Instant::now() < u) {
        let queued = queue.pop();
        let planned = queued.is_some();
        let i = if let Some(i) = queued {
            i
        } else if st.execs < 8 {
            seed(op, v, &mut g, st.execs as usize)
        } else {
            let n = corpus.len();
            let a = if g.below(2) == 0 { n - 1 - g.below(n.min(16)) } else { g.below(n) };
            let mut i = corpus[a].clone();
            let b = g.below(n);
            mutate(op, v, &mut i, &corpus[b], &r, &mut g);
            i
        };
        st.execs += 1;
        {
            use std::hash::{Hash, Hasher};
            let mut h = std::collections::hash_map::DefaultHasher::new();
            i.hash(&mut h);
            if ran.len() < 4_000_000 {
                ran.insert(h.finish());
            }
        }
        if st.execs % 64 == 0 {
            r.forget();
        }
        if let Err(msg) = guarded(op.0, v, &i, &mut r) {
            found.push(Found { msg, text: i.text(op.0, v) });
            r.take();
            if found.len() >= 3 || op.0 == "riddle" {
                break;
            }
            continue;
        }
        let mut new = false;
        for f in r.take() {
            if !std::mem::replace(&mut seen[f as usize], true) {
                new = true;
                st.features += 1;
            }
        }
        if new || corpus.is_empty() {
            if queue.len() < 2000 && (!planned || g.below(4) == 0) {
                // what it was compared with, put where it stands in the input
                r.forget();
                let _ = guarded(op.0, v, &i, &mut r);
                r.take();
                substitutes(op, v, &i, &r, &mut g, &mut queue);
            }
            corpus.push(i);
        }
    }
    st.distinct = ran.len() as u64;
    st.corpus = corpus.len() as u64;
    st.comparisons = r.comparisons;
    st.edges = r.edge_events;
    st.sample = corpus.last().map(|i| i.text(op.0, v)).unwrap_or_default();
    (st, found)
}

fn quote(s: &str) -> String {
    format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', " "))
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| ()));
    let stop = AtomicBool::new(false);
    match a[1].as_str() {
        "case" => {
            let (op, v, i) = Input::parse(&a[2]);
            match guarded(op_of(&op).0, v, &i, &mut Rec::new()) {
                Ok(()) => println!("as the model says"),
                Err(m) => {
                    println!("{m}");
                    std::process::exit(1)
                }
            }
        }
        "run" => {
            let (prop, seed, secs, threads) = (&a[2], a[3].parse::<u64>().unwrap(), a[4].parse::<f64>().unwrap(), a[5].parse::<usize>().unwrap());
            let kats = refmodel::kat::run();
            // guidance that works solves this; without it, it would take 2^70 attempts
            let (rs, solved) = search(op_of("riddle"), 0, 12345, None, 3_000_000, &stop);
            let until = Instant::now() + Duration::from_secs_f64(secs);
            let jobs: Vec<(&str, usize)> = plan(prop).into_iter().flat_map(|(o, v)| v.into_iter().map(move |v| (o, v))).collect();
            let rounds = threads.div_ceil(jobs.len()).max(1);
            // with more jobs than threads each gets its share of the time
            let share = secs * threads as f64 / (jobs.len() * rounds) as f64;
            let next = AtomicU64::new(0);
            let all: Mutex<Vec<(String, Stats, Vec<Found>)>> = Mutex::new(vec![]);
            std::thread::scope(|s| {
                for _ in 0..threads {
                    s.spawn(|| loop {
                        let k = next.fetch_add(1, Relaxed) as usize;
                        if k >= jobs.len() * rounds {
                            break;
                        }
                        let (o, v) = jobs[k % jobs.len()];
                        let end = if share < secs { Instant::now() + Duration::from_secs_f64(share) } else { until };
                        let r = search(op_of(o), v, seed.wrapping_mul(0x1_0000_01b3) ^ (k as u64) << 32, Some(end), u64::MAX, &stop);
                        if r.1.len() >= 3 {
                            stop.store(true, Relaxed);
                        }
                        all.lock().unwrap().push((format!("{o} {v}"), r.0, r.1));
                    });
                }
            });
            let all = all.into_inner().unwrap();
            let sum = |f: fn(&Stats) -> u64| all.iter().map(|x| f(&x.1)).sum::<u64>();
            let viol: Vec<String> = all.iter().flat_map(|x| &x.2).map(|f| format!("{{\"msg\":{},\"case\":{}}}", quote(&f.msg), quote(&f.text))).collect();
            let samples: Vec<String> = all.iter().take(4).map(|x| quote(&x.1.sample)).collect();
            println!(
                "{{\"riddle\":{},\"riddle_runs\":{},\"model_answers\":{kats},\"guards\":{},\"runs\":{},\"distinct\":{},\"kept\":{},\"features\":{},\"comparisons\":{},\"edges\":{},\"violations\":[{}],\"samples\":[{}]}}",
                !solved.is_empty(), rs.execs, cov::guards(), sum(|s| s.execs), sum(|s| s.distinct), sum(|s| s.corpus), sum(|s| s.features), sum(|s| s.comparisons), sum(|s| s.edges),
                viol.join(","), samples.join(",")
            );
            std::process::exit(if viol.is_empty() { 0 } else { 1 });
        }
        _ => std::process::exit(3),
    }
}
