//! Exhaustive enumeration engine: every property registers finite spaces; every index of every space
//! is one execution (a fixed initial state plus a fixed operation sequence) of the real library in
//! lockstep with the reference model.
use crate::alloc;
use crate::dec::{self, Val};
use pgnumeric::{Numeric, NumericBuf};
use std::cell::Cell;
use std::collections::HashSet;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn pick<T>(self, q: T, t: T) -> T {
        if self == Tier::Quick {
            q
        } else {
            t
        }
    }
}

pub type Case = Box<dyn Fn(u64, &mut Ctx) + Send + Sync>;
pub type CustomFn = Box<dyn Fn(&Engine, &mut Ctx) + Send + Sync>;

pub enum Kind {
    Indexed { len: u64, run: Case },
    /// Explores by itself (state-space search, schedule exploration); reports through its context.
    Custom(CustomFn),
}

pub struct Space {
    pub name: String,
    pub kind: Kind,
    /// seconds after which one case counts as not terminating
    pub case_limit: u64,
    pub threads: usize,
}

pub fn space(name: impl Into<String>, len: u64, run: impl Fn(u64, &mut Ctx) + Send + Sync + 'static) -> Space {
    Space { name: name.into(), kind: Kind::Indexed { len, run: Box::new(run) }, case_limit: 60, threads: 8 }
}
pub fn custom(name: impl Into<String>, run: impl Fn(&Engine, &mut Ctx) + Send + Sync + 'static) -> Space {
    Space { name: name.into(), kind: Kind::Custom(Box::new(run)), case_limit: 600, threads: 1 }
}

/// Bitstate set of observed results (64-bit hashes folded into 2^27 bits): a lower bound on the number
/// of distinct states seen.
pub struct Bits(Vec<AtomicU64>, AtomicU64);
const BITS: usize = 27;
impl Bits {
    pub fn new() -> Bits {
        Bits((0..1usize << (BITS - 6)).map(|_| AtomicU64::new(0)).collect(), AtomicU64::new(0))
    }
    pub fn put(&self, h: u64) {
        let h = (h ^ (h >> 32)) & ((1 << BITS) - 1);
        let w = &self.0[(h >> 6) as usize];
        let m = 1u64 << (h & 63);
        if w.load(Relaxed) & m == 0 && w.fetch_or(m, Relaxed) & m == 0 {
            self.1.fetch_add(1, Relaxed);
        }
    }
    pub fn count(&self) -> u64 {
        self.1.load(Relaxed)
    }
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64 ^ (b.len() as u64).wrapping_mul(0x9E3779B97F4A7C15);
    let mut it = b.chunks_exact(8);
    for c in &mut it {
        h = (h ^ u64::from_le_bytes([c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]])).wrapping_mul(0x9E3779B97F4A7C15);
        h ^= h >> 29;
    }
    for &c in it.remainder() {
        h = (h ^ c as u64).wrapping_mul(0x100000001b3);
    }
    h ^= h >> 32;
    h.wrapping_mul(0xD6E8FEB86659FD93)
}

thread_local! {
    static IN_LIB: Cell<bool> = const { Cell::new(false) };
}

/// Allocator errors are judged by the memory property only.
pub static MEM_ERRORS: AtomicBool = AtomicBool::new(false);

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        // Panics of the library under test are outcomes; panics of the harness itself are errors.
        if !IN_LIB.with(|c| c.get()) {
            eprintln!("HARNESS PANIC: {}", info);
        }
    }));
}

fn payload(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

/// Call the library without counting a transition (replaying a prefix that was explored before).
pub fn quiet<T>(f: impl FnOnce() -> T) -> Out<T> {
    let was = IN_LIB.with(|c| c.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_LIB.with(|c| c.set(was));
    r.map_err(payload)
}

/// A library outcome: a value, or the message of the panic it raised.
pub type Out<T> = Result<T, String>;

pub struct Ctx<'a> {
    pub replay: bool,
    pub print: bool,
    pub text: Vec<String>,
    pub failure: Option<String>,
    pub transitions: u64,
    pub cases: u64,
    pub scratch: Vec<u8>,
    pub bits: &'a Bits,
    pub notes: Vec<String>,
    pub exhausted: bool,
}

impl<'a> Ctx<'a> {
    pub fn new(bits: &'a Bits, replay: bool) -> Ctx<'a> {
        Ctx {
            replay,
            print: false,
            text: vec![],
            failure: None,
            transitions: 0,
            cases: 0,
            scratch: vec![],
            bits,
            notes: vec![],
            exhausted: true,
        }
    }
    /// Describe the case (only evaluated when replaying).
    #[inline]
    pub fn desc(&mut self, f: impl FnOnce() -> String) {
        if self.replay {
            let s = f();
            if self.print {
                println!("  case: {}", s);
                let _ = std::io::stdout().flush();
            }
            self.text.push(s);
        }
    }
    #[inline]
    pub fn failed(&self) -> bool {
        self.failure.is_some()
    }
    #[cold]
    pub fn fail(&mut self, msg: impl Into<String>) {
        if self.failure.is_none() {
            self.failure = Some(msg.into());
        }
    }
    /// One transition of the implementation.
    #[inline]
    pub fn call<T>(&mut self, f: impl FnOnce() -> T) -> Out<T> {
        self.transitions += 1;
        IN_LIB.with(|c| c.set(true));
        let r = catch_unwind(AssertUnwindSafe(f));
        IN_LIB.with(|c| c.set(false));
        if MEM_ERRORS.load(Relaxed) {
            if let Some(e) = alloc::take_err() {
                self.fail(format!("memory error: {}", e));
            }
        }
        match r {
            Ok(v) => Ok(v),
            Err(e) => Err(payload(e)),
        }
    }
    #[inline]
    pub fn seen(&self, b: &[u8]) {
        self.bits.put(hash_bytes(b));
    }
    /// State of a comparison: both operands and its outcome.
    #[inline]
    pub fn seen_pair(&self, a: &[u8], b: &[u8], o: u8) {
        self.bits.put(hash_bytes(a).rotate_left(7) ^ hash_bytes(b).wrapping_mul(3) ^ (o as u64) << 50);
    }
    fn show_bytes(b: &[u8]) -> String {
        match dec::decode(b) {
            Ok(v) => format!("{} (scale {})", v.show(), if let Val::Fin(d) = &v { d.scale.to_string() } else { "-".into() }),
            Err(e) => format!("INVALID ENCODING [{}] {:02x?}", e, &b[..b.len().min(40)]),
        }
    }
    fn mismatch(&mut self, what: &str, got: &[u8], exp: &str) {
        let m = format!("{}: got {}, expected {}", what, Self::show_bytes(got), exp);
        self.fail(m);
    }
    /// The result must be exactly this value, byte for byte.
    #[inline]
    pub fn is(&mut self, what: &str, got: &Out<NumericBuf>, exp: &Val) {
        match got {
            Ok(b) => self.bytes_are(what, b.as_bytes(), exp),
            Err(p) => {
                let m = format!("{}: panicked ({}), expected {}", what, p, exp.show());
                self.fail(m)
            }
        }
    }
    #[inline]
    pub fn bytes_are(&mut self, what: &str, got: &[u8], exp: &Val) {
        let mut s = std::mem::take(&mut self.scratch);
        let fits = dec::encode_into(exp, &mut s);
        if !fits || s != got {
            let e = format!("{}{}", exp.show(), if fits { format!(" (scale {})", if let Val::Fin(d) = exp { d.scale } else { 0 }) } else { " [does not fit: failure]".into() });
            self.mismatch(what, got, &e);
        } else {
            self.bits.put(hash_bytes(got));
        }
        self.scratch = s;
    }
    #[inline]
    pub fn bytes_are_dec(&mut self, what: &str, got: &[u8], exp: &dec::Dec) {
        let mut s = std::mem::take(&mut self.scratch);
        let fits = dec::encode_dec(exp, &mut s);
        if !fits || s != got {
            self.scratch = s;
            self.bytes_are(what, got, &Val::Fin(exp.clone()));
            return;
        }
        self.bits.put(hash_bytes(got));
        self.scratch = s;
    }
    /// Checked form: exactly the value if it fits the format, otherwise None.
    #[inline]
    pub fn is_checked(&mut self, what: &str, got: &Out<Option<NumericBuf>>, exp: &dec::Dec) {
        match got {
            Ok(Some(b)) => self.bytes_are_dec(what, b.as_bytes(), exp),
            Ok(None) => {
                if exp.fits() {
                    let m = format!("{}: got None, expected {}", what, Val::Fin(exp.clone()).show());
                    self.fail(m)
                }
            }
            Err(p) => {
                let e = Val::Fin(exp.clone());
                let m = format!("{}: panicked ({}), expected {}", what, p, if exp.fits() { e.show() } else { "None".into() });
                self.fail(m)
            }
        }
    }
    /// Panicking form: exactly the value if it fits the format, otherwise a panic.
    #[inline]
    pub fn is_or_panic(&mut self, what: &str, got: &Out<NumericBuf>, exp: &dec::Dec) {
        match got {
            Ok(b) => self.bytes_are_dec(what, b.as_bytes(), exp),
            Err(p) => {
                if exp.fits() {
                    let m = format!("{}: panicked ({}), expected {}", what, p, Val::Fin(exp.clone()).show());
                    self.fail(m)
                }
            }
        }
    }
    #[inline]
    pub fn check(&mut self, ok: bool, msg: impl FnOnce() -> String) {
        if !ok {
            let m = msg();
            self.fail(m);
        }
    }
    #[inline]
    pub fn eq<T: PartialEq + std::fmt::Debug>(&mut self, what: &str, got: T, exp: T) {
        if got != exp {
            let m = format!("{}: got {:?}, expected {:?}", what, got, exp);
            self.fail(m);
        }
    }
    /// Decode a result strictly.
    pub fn decode(&mut self, what: &str, n: &Numeric) -> Option<Val> {
        match dec::decode(n.as_bytes()) {
            Ok(v) => {
                self.bits.put(hash_bytes(n.as_bytes()));
                Some(v)
            }
            Err(e) => {
                let m = format!("{}: invalid numeric: {} {:02x?}", what, e, &n.as_bytes()[..n.as_bytes().len().min(40)]);
                self.fail(m);
                None
            }
        }
    }
}

pub struct Failure {
    pub space: String,
    pub index: u64,
    pub desc: String,
    pub msg: String,
}

#[derive(Default)]
pub struct SpaceStat {
    pub name: String,
    pub len: u64,
    pub cases: u64,
    pub transitions: u64,
    pub wall: f64,
    pub complete: bool,
    pub samples: Vec<String>,
    pub notes: Vec<String>,
}

pub struct Engine {
    pub bits: Bits,
    pub deadline: Instant,
    pub known: HashSet<String>,
    pub known_hit: Mutex<Vec<String>>,
    pub failures: Mutex<Vec<Failure>>,
    pub stats: Mutex<Vec<SpaceStat>>,
    pub space_no: AtomicU64,
    pub running: Vec<(AtomicU64, AtomicU64, AtomicU64)>, // per worker: index+1 (0 idle), start millis, thread id
    pub start: Instant,
    pub case_limit: AtomicU64,
    pub stop: AtomicBool,
}

thread_local! {
    pub static CUR: Cell<(u64, u64)> = const { Cell::new((u64::MAX, 0)) };
}

extern "C" {
    fn syscall(n: i64, ...) -> i64;
    fn clock_gettime(id: i32, t: *mut [i64; 2]) -> i32;
}

fn thread_id() -> u64 {
    unsafe { syscall(186) as u64 }
}

/// Processor time used by a thread of this process, in milliseconds.
fn cpu_ms(tid: u64) -> u64 {
    let mut t = [0i64; 2];
    // the kernel's name for the clock of a thread
    if unsafe { clock_gettime((!(tid as i32) << 3) | 6, &mut t) } != 0 {
        return 0;
    }
    t[0] as u64 * 1000 + t[1] as u64 / 1_000_000
}

impl Engine {
    /// Report an execution that does not end. What counts is the processor time it uses; one that waits is given
    /// several times as long.
    pub fn watch(&self) {
        let mut seen = vec![(0u64, 0u64, 0u64); self.running.len()];
        loop {
            std::thread::sleep(Duration::from_millis(200));
            let now = self.start.elapsed().as_millis() as u64;
            let lim = self.case_limit.load(SeqCst) * 1000;
            for (k, (i, t, id)) in self.running.iter().enumerate() {
                let (idx, t0, id) = (i.load(SeqCst), t.load(SeqCst), id.load(SeqCst));
                if idx == 0 {
                    continue;
                }
                let cpu = cpu_ms(id);
                if seen[k].0 != idx || seen[k].1 != t0 {
                    seen[k] = (idx, t0, cpu);
                    continue;
                }
                let wall = now.saturating_sub(t0);
                if (cpu.saturating_sub(seen[k].2) > lim || wall > lim * if lim > 60_000 { 2 } else { 5 }) && i.load(SeqCst) == idx && t.load(SeqCst) == t0 {
                    println!("\nHANG limit={} space={} index={}", lim / 1000, self.space_no.load(SeqCst), idx - 1);
                    std::process::exit(77);
                }
            }
        }
    }
    pub fn new(secs: u64, known: HashSet<String>) -> Engine {
        Engine {
            bits: Bits::new(),
            deadline: Instant::now() + Duration::from_secs(secs),
            known,
            known_hit: Mutex::new(vec![]),
            failures: Mutex::new(vec![]),
            stats: Mutex::new(vec![]),
            space_no: AtomicU64::new(0),
            running: (0..64).map(|_| (AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0))).collect(),
            start: Instant::now(),
            case_limit: AtomicU64::new(60),
            stop: AtomicBool::new(false),
        }
    }
    /// Run one case in describing mode.
    pub fn describe(&self, run: &Case, idx: u64) -> (String, Option<String>) {
        let mut c = Ctx::new(&self.bits, true);
        run(idx, &mut c);
        (c.text.join("; "), c.failure)
    }
    pub fn run_space(&self, no: usize, sp: &Space) {
        let t0 = Instant::now();
        self.space_no.store(no as u64, SeqCst);
        self.case_limit.store(sp.case_limit, SeqCst);
        let mut st = SpaceStat { name: sp.name.clone(), ..Default::default() };
        match &sp.kind {
            Kind::Custom(f) => {
                let mut c = Ctx::new(&self.bits, false);
                CUR.with(|x| x.set((no as u64, 0)));
                f(self, &mut c);
                st.cases = c.cases;
                st.len = c.cases;
                st.transitions = c.transitions;
                st.complete = c.exhausted;
                st.notes = c.notes.clone();
                st.samples = c.text.iter().take(2).cloned().collect();
                if let Some(m) = c.failure {
                    self.failures.lock().unwrap().push(Failure { space: sp.name.clone(), index: 0, desc: c.text.join("; "), msg: m });
                }
            }
            Kind::Indexed { len, run } => {
                st.len = *len;
                let next = AtomicU64::new(0);
                let min_fail = AtomicU64::new(u64::MAX);
                let cases = AtomicU64::new(0);
                let trans = AtomicU64::new(0);
                let capped = AtomicBool::new(false);
                let nt = sp.threads.max(1);
                let chunk = (len / (nt as u64 * 200)).clamp(1, 4096);
                std::thread::scope(|s| {
                    for w in 0..nt {
                        let (next, min_fail, cases, trans, capped) = (&next, &min_fail, &cases, &trans, &capped);
                        s.spawn(move || {
                            crate::crash::altstack();
                            self.running[w].2.store(thread_id(), SeqCst);
                            let mut c = Ctx::new(&self.bits, false);
                            let mut n = 0;
                            'outer: loop {
                                let from = next.fetch_add(chunk, SeqCst);
                                if from >= *len || from > min_fail.load(SeqCst) {
                                    break;
                                }
                                if Instant::now() > self.deadline {
                                    capped.store(true, SeqCst);
                                    break;
                                }
                                for i in from..(from + chunk).min(*len) {
                                    if i > min_fail.load(Relaxed) {
                                        break 'outer;
                                    }
                                    let now = Instant::now();
                                    if now > self.deadline {
                                        capped.store(true, SeqCst);
                                        break 'outer;
                                    }
                                    CUR.with(|x| x.set((no as u64, i)));
                                    self.running[w].1.store((now - self.start).as_millis() as u64, Relaxed);
                                    self.running[w].0.store(i + 1, Relaxed);
                                    run(i, &mut c);
                                    n += 1;
                                    if c.failure.is_some() {
                                        c.failure = None;
                                        // re-run describing; also confirms that the failure replays
                                        let (d, f) = self.describe(run, i);
                                        match f {
                                            None => {
                                                min_fail.fetch_min(i, SeqCst);
                                                self.failures.lock().unwrap().push(Failure {
                                                    space: sp.name.clone(),
                                                    index: i,
                                                    desc: d,
                                                    msg: "NOT REPRODUCED on immediate replay".into(),
                                                });
                                            }
                                            Some(m) => {
                                                let key = format!("{}: {}", sp.name, d);
                                                if self.known.contains(&key) {
                                                    let mut k = self.known_hit.lock().unwrap();
                                                    if !k.contains(&key) {
                                                        k.push(key);
                                                    }
                                                } else {
                                                    min_fail.fetch_min(i, SeqCst);
                                                    self.failures.lock().unwrap().push(Failure { space: sp.name.clone(), index: i, desc: d, msg: m });
                                                }
                                            }
                                        }
                                    }
                                }
                            }
                            self.running[w].0.store(0, Relaxed);
                            CUR.with(|x| x.set((u64::MAX, 0)));
                            cases.fetch_add(n, SeqCst);
                            trans.fetch_add(c.transitions, SeqCst);
                        });
                    }
                });
                st.cases = cases.load(SeqCst);
                st.transitions = trans.load(SeqCst);
                st.complete = !capped.load(SeqCst) && min_fail.load(SeqCst) == u64::MAX;
                if *len > 0 && min_fail.load(SeqCst) == u64::MAX {
                    for i in [0, len / 3, len - 1] {
                        let (d, _) = self.describe(run, i);
                        let mut d = d;
                        if d.len() > 200 {
                            d = d.chars().take(200).collect();
                        }
                        st.samples.push(d);
                    }
                }
            }
        }
        st.wall = t0.elapsed().as_secs_f64();
        eprintln!("  {:<34} cases {:>11}/{:<11} transitions {:>12} {:>7.2}s{}", st.name, st.cases, st.len, st.transitions, st.wall, if st.complete { "" } else { "  NOT COMPLETE" });
        self.stats.lock().unwrap().push(st);
    }
}
