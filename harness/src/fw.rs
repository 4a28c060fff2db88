//! Monitoring framework: deterministic case generation, parallel execution, panic and crash
//! monitors, a CPU-budget watchdog, counters for the evidence, and the report.
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone)]
pub struct Rng(u64);
pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
pub fn hash_bytes(mut h: u64, b: &[u8]) -> u64 {
    for c in b.chunks(8) {
        let mut x = [0u8; 8];
        x[..c.len()].copy_from_slice(c);
        h = mix(h ^ u64::from_le_bytes(x).wrapping_add(0x9e3779b97f4a7c15).wrapping_mul(0xff51afd7ed558ccd));
    }
    mix(h ^ b.len() as u64)
}
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(mix(seed ^ 0x5851f42d4c957f2d))
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        mix(self.0)
    }
    pub fn u32(&mut self) -> u32 {
        (self.u64() >> 32) as u32
    }
    pub fn u8(&mut self) -> u8 {
        (self.u64() >> 56) as u8
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: usize) -> usize {
        ((self.u64() as u128 * n as u128) >> 64) as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        &s[self.below(s.len())]
    }
    pub fn fill(&mut self, b: &mut [u8]) {
        for c in b.chunks_mut(8) {
            let x = self.u64().to_le_bytes();
            c.copy_from_slice(&x[..c.len()]);
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = vec![0; n];
        self.fill(&mut v);
        v
    }
    pub fn arr<const N: usize>(&mut self) -> [u8; N] {
        let mut v = [0; N];
        self.fill(&mut v);
        v
    }
    /// bytes with structure: random, constant, sparse bits, mostly-ones, counting, runs
    pub fn pattern(&mut self, n: usize) -> Vec<u8> {
        let mut v = self.bytes(n);
        if n == 0 {
            return v;
        }
        match self.below(10) {
            0 => v.fill(0),
            1 => v.fill(0xff),
            2 => {
                let b = self.u8();
                v.fill(b)
            }
            3 => {
                v.fill(0);
                let k = self.below(8 * n);
                v[k / 8] |= 1 << (k % 8);
            }
            4 => {
                v.fill(0xff);
                let k = self.below(8 * n);
                v[k / 8] ^= 1 << (k % 8);
            }
            5 => {
                for b in v.iter_mut() {
                    *b = *[0u8, 0xff, 0x80, 0x7f, 1, 0xfe].get(*b as usize % 6).unwrap();
                }
            }
            6 => {
                let k = self.below(n);
                let f = if self.chance(1, 2) { 0 } else { 0xff };
                v[k..].fill(f);
            }
            _ => {}
        }
        v
    }
    /// a length: small, or near a multiple of a block size, or larger
    pub fn len(&mut self, max: usize) -> usize {
        let l = match self.below(6) {
            0 => self.below(4),
            1 => self.below(40),
            2 => {
                let bs = *self.pick(&[16usize, 64, 128]);
                let k = 1 + self.below(8);
                bs * k + self.below(3) - 1
            }
            3 => self.below(max.min(200) + 1),
            4 => self.below(max.min(1000) + 1),
            _ => self.below(max + 1),
        };
        l.min(max)
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Violation {
    pub label: String,
    pub idx: u64,
    pub kind: &'static str, // "oracle" | "panic" | "hang"
    pub msg: String,
    pub desc: String,
}

pub struct Ctx {
    pub prop: String,
    pub seed: u64,
    pub tier: Tier,
    pub scale: f64,
    pub variant: String,
    pub only: Option<(String, u64)>,
    pub filter: Option<String>,
    pub threads: usize,
    /// only panics, crashes and hangs count (used by C15 when it drives the other workloads)
    pub panics_only: bool,
    pub max_viol: usize,
    rep: Mutex<Rep>,
    distinct: Vec<Mutex<HashSet<u64>>>,
    evals: AtomicU64,
    nontriv: AtomicU64,
    stop: AtomicBool,
}
#[derive(Default)]
struct Rep {
    viol: Vec<Violation>,
    machinery: Vec<String>,
    samples: Vec<(String, String)>,
    labels: BTreeMap<String, (u64, u64, u128)>,
    counters: BTreeMap<String, u64>,
    notes: Vec<String>,
}

pub struct Case<'a> {
    pub ctx: &'a Ctx,
    pub label: &'a str,
    pub idx: u64,
    pub rng: Rng,
    fp: u64,
    nontrivial: bool,
    pub describe: bool,
    pub desc: Vec<String>,
    events: u64,
}
impl<'a> Case<'a> {
    /// mixes the case's inputs into its fingerprint
    pub fn fp(&mut self, b: &[u8]) {
        self.fp = hash_bytes(self.fp, b);
    }
    pub fn fpn(&mut self, n: u64) {
        self.fp = mix(self.fp ^ n.wrapping_mul(0x2545f4914f6cdd1d));
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn nontrivial_if(&mut self, b: bool) {
        self.nontrivial |= b;
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.describe {
            self.desc.push(f());
        }
    }
    /// n oracle observations made in this case
    pub fn ev(&mut self, n: u64) {
        self.events += n;
    }
}
pub type Res = Result<(), String>;
#[macro_export]
macro_rules! check {
    ($c:expr, $($arg:tt)*) => {
        if !$c { return Err(format!($($arg)*)); }
    };
}
pub fn hx(b: &[u8]) -> String {
    if b.len() <= 160 {
        b.iter().map(|x| format!("{x:02x}")).collect()
    } else {
        format!("{}..({} bytes, fnv {:016x})..{}", hx(&b[..32]), b.len(), hash_bytes(0, b), hx(&b[b.len() - 16..]))
    }
}
pub fn diff(what: &str, got: &[u8], want: &[u8]) -> Res {
    if got == want {
        return Ok(());
    }
    if got.len() != want.len() {
        return Err(format!("{what}: length {} instead of {}", got.len(), want.len()));
    }
    let i = got.iter().zip(want).position(|(a, b)| a != b).unwrap();
    let s = i.saturating_sub(8);
    let e = (i + 24).min(got.len());
    Err(format!("{what}: first difference at byte {i} of {}: got [{s}..{e}] {} expected {}", got.len(), hx(&got[s..e]), hx(&want[s..e])))
}

// ---------------------------------------------------------------- panic monitor
#[derive(Clone, Debug, Default)]
pub struct PanicInfo {
    pub msg: String,
    pub file: String,
    pub line: u32,
}
thread_local! {
    static LAST: RefCell<Option<PanicInfo>> = const { RefCell::new(None) };
    static CUR: Cell<(usize, usize, u64)> = const { Cell::new((0, 0, 0)) };
}
pub fn payload(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "non-string panic payload".into()
    }
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let l = i.location();
        let p = PanicInfo {
            msg: payload(i.payload()),
            file: l.map(|l| l.file().to_string()).unwrap_or_default(),
            line: l.map(|l| l.line()).unwrap_or(0),
        };
        let _ = LAST.try_with(|x| *x.borrow_mut() = Some(p));
    }));
}
/// Runs f and returns its value or the panic it raised.
pub fn observe<T>(f: impl FnOnce() -> T) -> Result<T, PanicInfo> {
    LAST.with(|x| *x.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(p) => Err(LAST.with(|x| x.borrow_mut().take()).unwrap_or(PanicInfo { msg: payload(&*p), ..Default::default() })),
    }
}
fn own_file(f: &str) -> bool {
    f.contains("harness/src") || f.contains("refmodel/src") || f.starts_with("src/")
}

// ---------------------------------------------------------------- crash monitor
#[cfg(not(miri))]
mod crash {
    use std::ffi::c_void;
    extern "C" {
        fn sigaction(sig: i32, act: *const SigAction, old: *mut c_void) -> i32;
        fn write(fd: i32, b: *const u8, n: usize) -> isize;
        fn _exit(c: i32) -> !;
    }
    #[repr(C)]
    struct SigAction {
        h: usize,
        mask: [u64; 16],
        flags: i32,
        restorer: usize,
    }
    fn num(buf: &mut [u8], mut p: usize, mut x: u64) -> usize {
        let mut t = [0u8; 20];
        let mut n = 0;
        loop {
            t[n] = b'0' + (x % 10) as u8;
            n += 1;
            x /= 10;
            if x == 0 {
                break;
            }
        }
        while n > 0 {
            n -= 1;
            buf[p] = t[n];
            p += 1;
        }
        p
    }
    extern "C" fn handler(sig: i32, info: *const u8, _: *mut c_void) {
        let (lp, ll, idx) = super::CUR.try_with(|c| c.get()).unwrap_or((0, 0, 0));
        let mut b = [0u8; 256];
        let mut p = 0;
        let put = |b: &mut [u8; 256], p: &mut usize, s: &[u8]| {
            for &x in s {
                if *p < 200 {
                    b[*p] = x;
                    *p += 1;
                }
            }
        };
        put(&mut b, &mut p, b"\nCRASH signal=");
        p = num(&mut b, p, sig as u64);
        put(&mut b, &mut p, b" addr=");
        let addr = unsafe { (info.add(16) as *const u64).read_unaligned() };
        p = num(&mut b, p, addr);
        put(&mut b, &mut p, b" idx=");
        p = num(&mut b, p, idx);
        put(&mut b, &mut p, b" label=");
        if lp != 0 {
            put(&mut b, &mut p, unsafe { std::slice::from_raw_parts(lp as *const u8, ll.min(80)) });
        }
        put(&mut b, &mut p, b"\n");
        unsafe {
            write(2, b.as_ptr(), p);
            _exit(99)
        }
    }
    pub fn install() {
        for sig in [4, 7, 8, 11, 6] {
            let a = SigAction { h: handler as *const () as usize, mask: [0; 16], flags: 0x0800_0004, restorer: 0 }; // SA_ONSTACK|SA_SIGINFO
            unsafe { sigaction(sig, &a, std::ptr::null_mut()) };
        }
    }
}
pub fn install_crash_monitor() {
    #[cfg(not(miri))]
    crash::install();
}

// ---------------------------------------------------------------- watchdog
const MAXT: usize = 64;
#[allow(clippy::declare_interior_mutable_const)]
const Z: AtomicU64 = AtomicU64::new(0);
static SLOT_SEQ: [AtomicU64; MAXT] = [Z; MAXT]; // increases with every case started; odd = running
static SLOT_IDX: [AtomicU64; MAXT] = [Z; MAXT];
static SLOT_CLK: [AtomicU64; MAXT] = [Z; MAXT]; // clockid of the worker + 1
/// CPU seconds one case may burn; ordinary cases take micro- to milliseconds.
static CPU_BUDGET: AtomicU64 = AtomicU64::new(150);
#[repr(C)]
struct Ts(i64, i64);
#[cfg(not(miri))]
extern "C" {
    fn pthread_self() -> usize;
    fn pthread_getcpuclockid(t: usize, c: *mut i32) -> i32;
    fn clock_gettime(c: i32, t: *mut Ts) -> i32;
}
#[cfg(not(miri))]
fn my_clock() -> u64 {
    let mut c = 0i32;
    unsafe { pthread_getcpuclockid(pthread_self(), &mut c) };
    (c as u32 as u64) + 1
}
/// CPU seconds used by the calling thread
#[cfg(not(miri))]
pub fn cpu_now() -> f64 {
    clock_of(my_clock())
}
#[cfg(not(miri))]
fn clock_of(c: u64) -> f64 {
    let mut t = Ts(0, 0);
    if unsafe { clock_gettime((c - 1) as u32 as i32, &mut t) } != 0 {
        return 0.0;
    }
    t.0 as f64 + t.1 as f64 * 1e-9
}

impl Ctx {
    pub fn new(prop: &str, seed: u64, tier: Tier, variant: &str) -> Ctx {
        Ctx {
            prop: prop.into(),
            seed,
            tier,
            scale: 1.0,
            variant: variant.into(),
            only: None,
            filter: None,
            threads: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16),
            panics_only: false,
            max_viol: 5,
            rep: Default::default(),
            distinct: (0..64).map(|_| Default::default()).collect(),
            evals: AtomicU64::new(0),
            nontriv: AtomicU64::new(0),
            stop: AtomicBool::new(false),
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    /// number of random cases: quick count, multiplied in the thorough tier, scaled per variant
    pub fn n(&self, quick: u64, mult: u64) -> u64 {
        let q = if self.thorough() { quick * mult } else { quick };
        ((q as f64 * self.scale).ceil() as u64).max(1)
    }
    pub fn count(&self, k: &str, n: u64) {
        *self.rep.lock().unwrap().counters.entry(k.into()).or_default() += n;
    }
    pub fn count_max(&self, k: &str, n: u64) {
        let mut r = self.rep.lock().unwrap();
        let e = r.counters.entry(k.into()).or_default();
        *e = (*e).max(n);
    }
    pub fn remark(&self, s: String) {
        self.rep.lock().unwrap().notes.push(s);
    }
    pub fn machinery(&self, s: String) {
        self.rep.lock().unwrap().machinery.push(s);
    }
    pub fn violate(&self, label: &str, idx: u64, kind: &'static str, msg: String, desc: String) {
        let mut r = self.rep.lock().unwrap();
        r.viol.push(Violation { label: label.into(), idx, kind, msg, desc });
        if r.viol.len() >= self.max_viol {
            self.stop.store(true, Relaxed);
        }
    }
    fn case<'a>(&'a self, label: &'a str, idx: u64, describe: bool) -> Case<'a> {
        let s = hash_bytes(mix(self.seed ^ 0x1234_5678), label.as_bytes());
        Case { ctx: self, label, idx, rng: Rng::new(s ^ mix(idx.wrapping_add(0x517c_c1b7_2722_0a95))), fp: hash_bytes(1, label.as_bytes()), nontrivial: false, describe, desc: vec![], events: 0 }
    }
    fn one<'a, F: Fn(&mut Case<'a>) -> Res>(&'a self, label: &'a str, idx: u64, describe: bool, f: &F) -> (Case<'a>, Result<Res, PanicInfo>) {
        let mut c = self.case(label, idx, describe);
        CUR.with(|x| x.set((label.as_ptr() as usize, label.len(), idx)));
        let r = observe(|| f(&mut c));
        (c, r)
    }
    /// Runs cases 0..n of a family in parallel.
    pub fn par<F>(&self, label: &str, n: u64, f: F)
    where
        F: for<'a> Fn(&mut Case<'a>) -> Res + Sync,
    {
        self.par_budget(label, n, 150, f)
    }
    pub fn par_budget<F>(&self, label: &str, n: u64, cpu_budget: u64, f: F)
    where
        F: for<'a> Fn(&mut Case<'a>) -> Res + Sync,
    {
        if self.stop.load(Relaxed) {
            return;
        }
        if let Some(fl) = &self.filter {
            if !label.starts_with(fl.as_str()) {
                return;
            }
        }
        if let Some((l, i)) = &self.only {
            if l == label {
                let (c, r) = self.one(label, *i, true, &f);
                self.finish(&c, r, label, *i, true);
            }
            return;
        }
        let t0 = Instant::now();
        let next = AtomicU64::new(0);
        let chunk = (n / (self.threads as u64 * 16)).clamp(1, 256);
        let (ev0, nt0) = (self.evals.load(Relaxed), self.nontriv.load(Relaxed));
        let work = |slot: usize| {
            let mut local: Vec<u64> = vec![];
            let mut cases = 0u64;
            loop {
                let s = next.fetch_add(chunk, Relaxed);
                if s >= n || self.stop.load(Relaxed) {
                    break;
                }
                for i in s..(s + chunk).min(n) {
                    SLOT_IDX[slot].store(i, Relaxed);
                    SLOT_SEQ[slot].fetch_add(1, Relaxed);
                    let (c, r) = self.one(label, i, i < 1, &f);
                    SLOT_SEQ[slot].fetch_add(1, Relaxed);
                    cases += 1 + c.events;
                    if c.nontrivial {
                        local.push(c.fp);
                    }
                    self.finish(&c, r, label, i, i < 1);
                }
            }
            self.evals.fetch_add(cases, Relaxed);
            let mut fresh = 0;
            for h in local {
                if self.distinct[(h >> 58) as usize].lock().unwrap().insert(h) {
                    fresh += 1;
                }
            }
            self.nontriv.fetch_add(fresh, Relaxed);
        };
        if self.threads <= 1 {
            work(0);
        } else {
            let done = AtomicUsize::new(0);
            let nt = self.threads.min(n as usize).max(1);
            CPU_BUDGET.store(cpu_budget, Relaxed);
            std::thread::scope(|s| {
                for t in 0..nt {
                    let (work, done) = (&work, &done);
                    std::thread::Builder::new()
                        .stack_size(16 << 20)
                        .spawn_scoped(s, move || {
                            #[cfg(not(miri))]
                            SLOT_CLK[t].store(my_clock(), Relaxed);
                            work(t);
                            SLOT_CLK[t].store(0, Relaxed);
                            done.fetch_add(1, Relaxed);
                        })
                        .unwrap();
                }
                #[cfg(not(miri))]
                {
                    let mut seen = vec![(0u64, 0.0f64); nt];
                    let mut tick = 0u64;
                    while done.load(Relaxed) < nt {
                        std::thread::sleep(std::time::Duration::from_millis(if tick < 50 { 2 } else { 50 }));
                        tick += 1;
                        if tick % 20 != 0 {
                            continue;
                        }
                        for t in 0..nt {
                            let seq = SLOT_SEQ[t].load(Relaxed);
                            let clk = SLOT_CLK[t].load(Relaxed);
                            if clk == 0 || seq % 2 == 0 {
                                continue;
                            }
                            let now = clock_of(clk);
                            if seen[t].0 != seq {
                                seen[t] = (seq, now);
                            } else if now - seen[t].1 > cpu_budget as f64 {
                                self.violate(label, SLOT_IDX[t].load(Relaxed), "hang", format!("the case used more than {cpu_budget} s of CPU time and has not returned (such cases take far less than a second of CPU)"), String::new());
                                self.flush_and_exit();
                            }
                        }
                    }
                }
            });
        }
        let ms = t0.elapsed().as_micros();
        let mut r = self.rep.lock().unwrap();
        let e = r.labels.entry(label.into()).or_default();
        e.0 += self.evals.load(Relaxed) - ev0;
        e.1 += self.nontriv.load(Relaxed) - nt0;
        e.2 += ms;
    }
    fn finish(&self, c: &Case, r: Result<Res, PanicInfo>, label: &str, idx: u64, sample: bool) {
        let (kind, msg) = match r {
            Ok(Ok(())) => {
                if sample && !c.desc.is_empty() {
                    let mut rep = self.rep.lock().unwrap();
                    if rep.samples.len() < 60 {
                        rep.samples.push((label.into(), c.desc.join("; ")));
                    }
                }
                return;
            }
            Ok(Err(m)) => {
                if self.panics_only && !m.contains("panic at") {
                    return;
                }
                ("oracle", m)
            }
            Err(p) => {
                let m = format!("panic at {}:{}: {}", p.file, p.line, p.msg);
                if own_file(&p.file) {
                    self.machinery(format!("{label} case {idx}: {m}"));
                    self.stop.store(true, Relaxed);
                    return;
                }
                ("panic", m)
            }
        };
        self.violate(label, idx, kind, msg, c.desc.join("; "));
    }
    /// re-runs each violating case alone with descriptions on
    pub fn has_violations(&self) -> bool {
        !self.rep.lock().unwrap().viol.is_empty()
    }
    fn flush_and_exit(&self) -> ! {
        print!("{}", self.json());
        use std::io::Write;
        let _ = std::io::stdout().flush();
        std::process::exit(1)
    }
    pub fn json(&self) -> String {
        let r = self.rep.lock().unwrap();
        let mut o = String::from("{");
        o += &format!("\"prop\":{},\"variant\":{},\"seed\":{},\"evaluations\":{},\"distinct_nontrivial\":{},", q(&self.prop), q(&self.variant), self.seed, self.evals.load(Relaxed), self.nontriv.load(Relaxed));
        o += "\"violations\":[";
        o += &r.viol.iter().map(|v| format!("{{\"label\":{},\"idx\":{},\"kind\":{},\"msg\":{},\"desc\":{}}}", q(&v.label), v.idx, q(v.kind), q(&v.msg), q(&v.desc))).collect::<Vec<_>>().join(",");
        o += "],\"machinery\":[";
        o += &r.machinery.iter().map(|v| q(v)).collect::<Vec<_>>().join(",");
        o += "],\"samples\":[";
        o += &r.samples.iter().map(|(l, d)| format!("{{\"family\":{},\"case\":{}}}", q(l), q(d))).collect::<Vec<_>>().join(",");
        o += "],\"families\":{";
        o += &r.labels.iter().map(|(l, (n, d, us))| format!("{}:{{\"observations\":{},\"distinct\":{},\"ms\":{}}}", q(l), n, d, us / 1000)).collect::<Vec<_>>().join(",");
        o += "},\"counters\":{";
        o += &r.counters.iter().map(|(l, n)| format!("{}:{}", q(l), n)).collect::<Vec<_>>().join(",");
        o += "},\"notes\":[";
        o += &r.notes.iter().map(|v| q(v)).collect::<Vec<_>>().join(",");
        o += "]}\n";
        o
    }
}
pub fn q(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
