//! Controlled scheduler for two real threads of the real library (the `mc sched` child process).
//!
//! T1 runs operation A, T2 operation B. T1 can be stopped at any machine instruction of the program: by a
//! breakpoint byte written into the program text, or by single-stepping. While it is stopped - inside the
//! SIGTRAP handler - T2 runs B to completion (or until it blocks), then T1 goes on. Everything else is
//! sequential, so a schedule is fully determined by the instruction and its occurrence.
use std::cell::Cell;
use std::ffi::c_void;
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU32, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;

extern "C" {
    fn mprotect(a: *mut u8, n: usize, prot: i32) -> i32;
    fn syscall(n: i64, ...) -> i64;
    fn open(p: *const i8, flags: i32, ...) -> i32;
    fn read(fd: i32, b: *mut c_void, n: usize) -> isize;
    fn close(fd: i32) -> i32;
}

// what the trap handler does
const IDLE: u32 = 0; // stop stepping
const TRACE: u32 = 1; // record every instruction
const ARMED: u32 = 2; // a breakpoint is in the text
const OVER: u32 = 3; // stepping over the instruction under the breakpoint
const DENSE: u32 = 4; // B at every instruction
const FIRED: u32 = 5;
const WRITES: u32 = 6; // record writes to static data

static PHASE: AtomicU32 = AtomicU32::new(IDLE);
static BP: AtomicUsize = AtomicUsize::new(0);
static ORIG: AtomicU32 = AtomicU32::new(0);
static SKIP: AtomicU64 = AtomicU64::new(0);
static LO: AtomicUsize = AtomicUsize::new(0);
static HI: AtomicUsize = AtomicUsize::new(0);
static TRACE_PTR: AtomicUsize = AtomicUsize::new(0);
static TRACE_LEN: AtomicUsize = AtomicUsize::new(0);
static TRACE_CAP: AtomicUsize = AtomicUsize::new(0);
static STEPS: AtomicU64 = AtomicU64::new(0);
// handshake with T2: 0 nothing to do, 1 asked to run B, 2 running, 3 done, 4 end
static CMD: AtomicU32 = AtomicU32::new(0);
static T2_TID: AtomicI32 = AtomicI32::new(0);
pub static BLOCKED: AtomicU64 = AtomicU64::new(0);
pub static SPUN: AtomicU64 = AtomicU64::new(0);
pub static B_RUNS: AtomicU64 = AtomicU64::new(0);
static DENSE_MAX: AtomicU64 = AtomicU64::new(u64::MAX);
static PENDING: AtomicBool = AtomicBool::new(false);
// a second stop, of T2: its breakpoint
static BP2: AtomicUsize = AtomicUsize::new(0);
static ORIG2: AtomicU32 = AtomicU32::new(0);
static T1_TID: AtomicI32 = AtomicI32::new(0);
// static data of the program, for the detection of writes to it
static DATA: AtomicUsize = AtomicUsize::new(0);
static DATA_END: AtomicUsize = AtomicUsize::new(0);

thread_local! {
    static IS_T1: Cell<bool> = const { Cell::new(false) };
}

const FUTEX: i64 = 202;
unsafe fn wake() {
    syscall(FUTEX, &CMD as *const _ as usize, 129usize, 2usize, 0usize, 0usize, 0usize);
}
unsafe fn wait_while(v: u32, nanos: i64) {
    let ts = [nanos / 1_000_000_000, nanos % 1_000_000_000];
    syscall(FUTEX, &CMD as *const _ as usize, 128usize, v as usize, ts.as_ptr() as usize, 0usize, 0usize);
}

/// Is this thread sleeping (waiting for a lock)?
unsafe fn sleeps(tid: i32) -> bool {
    let mut path = [0u8; 48];
    let mut n = 0;
    for &b in b"/proc/self/task/" {
        path[n] = b;
        n += 1;
    }
    let mut t = [0u8; 12];
    let mut k = 0;
    let mut v = tid;
    while v > 0 {
        t[k] = b'0' + (v % 10) as u8;
        v /= 10;
        k += 1;
    }
    while k > 0 {
        k -= 1;
        path[n] = t[k];
        n += 1;
    }
    for &b in b"/stat\0" {
        path[n] = b;
        n += 1;
    }
    let fd = open(path.as_ptr() as *const i8, 0);
    if fd < 0 {
        return false;
    }
    let mut b = [0u8; 64];
    let r = read(fd, b.as_mut_ptr() as *mut c_void, 64);
    close(fd);
    let mut i = 0;
    while i < r.max(0) as usize {
        if b[i] == b')' {
            return i + 2 < 64 && b[i + 2] == b'S';
        }
        i += 1;
    }
    false
}

#[inline(never)]
unsafe fn wait_b(limit_ms: u64) -> bool {
    let mut spins = 0u32;
    while CMD.load(Acquire) != 3 {
        if CMD.load(Acquire) == 5 {
            return false; // stopped at its breakpoint
        }
        spins += 1;
        if spins < 3000 {
            std::hint::spin_loop();
            continue;
        }
        // not done soon: blocked, or just long?
        let mut asleep = 0;
        let mut ms = 0u64;
        loop {
            match CMD.load(Acquire) {
                3 => return true,
                5 => return false,
                _ => (),
            }
            if CMD.load(Acquire) == 2 && limit_ms < 5000 && sleeps(T2_TID.load(SeqCst)) {
                asleep += 1;
                if asleep >= 4 {
                    BLOCKED.fetch_add(1, Relaxed);
                    return false;
                }
            } else {
                asleep = 0;
            }
            let v = CMD.load(Acquire);
            if v != 3 {
                wait_while(v, 50_000);
            }
            ms += 1;
            if ms > limit_ms * 12 {
                SPUN.fetch_add(1, Relaxed);
                return false;
            }
        }
    }
    true
}

unsafe fn fire() {
    B_RUNS.fetch_add(1, Relaxed);
    CMD.store(1, Release);
    wake();
    if wait_b(300) {
        CMD.store(0, Release);
        PENDING.store(false, Relaxed);
    } else {
        PENDING.store(true, Relaxed);
    }
}

/// T2 has been stopped at its breakpoint: let T1 go on until A is done (or waits for T2).
#[inline(never)]
unsafe fn stay() {
    CMD.store(5, Release);
    wake();
    let mut spins = 0u32;
    let mut asleep = 0;
    let mut rounds = 0u64;
    while CMD.load(Acquire) == 5 {
        spins += 1;
        if spins < 3000 {
            std::hint::spin_loop();
            continue;
        }
        rounds += 1;
        let s = sleeps(T1_TID.load(Relaxed));
        asleep = if s { asleep + 1 } else { 0 };
        if asleep >= 4 || rounds > 2000 {
            // T1 waits for something this thread holds
            if asleep >= 4 {
                BLOCKED.fetch_add(1, Relaxed);
            } else {
                SPUN.fetch_add(1, Relaxed);
            }
            let _ = CMD.compare_exchange(5, 2, SeqCst, SeqCst);
            return;
        }
        wait_while(5, 50_000);
    }
}

const RIP: usize = 168;
const EFL: usize = 176;
const TF: u64 = 0x100;

extern "C" fn on_trap(_sig: i32, _info: *const c_void, uc: *mut u8) {
    unsafe {
        let rip = uc.add(RIP) as *mut u64;
        let efl = uc.add(EFL) as *mut u64;
        if !IS_T1.with(|x| x.get()) {
            // a breakpoint byte seen by T2 although it is gone by now
            let at = (*rip - 1) as usize;
            let b2 = BP2.load(Acquire);
            if b2 != 0 && at == b2 {
                *(b2 as *mut u8) = ORIG2.load(Relaxed) as u8;
                BP2.store(0, Release);
                *rip -= 1;
                stay();
            } else if at == BP.load(Relaxed) {
                *rip -= 1;
            }
            return;
        }
        match PHASE.load(Relaxed) {
            IDLE | FIRED => *efl &= !TF,
            TRACE => {
                STEPS.fetch_add(1, Relaxed);
                let pc = *rip as usize;
                if pc >= LO.load(Relaxed) && pc < HI.load(Relaxed) {
                    let n = TRACE_LEN.load(Relaxed);
                    if n < TRACE_CAP.load(Relaxed) {
                        *(TRACE_PTR.load(Relaxed) as *mut u32).add(n) = (pc - LO.load(Relaxed)) as u32;
                    }
                    TRACE_LEN.store(n + 1, Relaxed);
                }
                *efl |= TF;
            }
            ARMED => {
                let at = BP.load(Relaxed);
                if (*rip - 1) as usize == at {
                    *(at as *mut u8) = ORIG.load(Relaxed) as u8;
                    *rip -= 1;
                    let s = SKIP.load(Relaxed);
                    if s > 0 {
                        SKIP.store(s - 1, Relaxed);
                        PHASE.store(OVER, Relaxed);
                        *efl |= TF;
                    } else {
                        PHASE.store(FIRED, Relaxed);
                        let b2 = BP2.load(Relaxed);
                        if b2 != 0 {
                            ORIG2.store(*(b2 as *const u8) as u32, Relaxed);
                            *(b2 as *mut u8) = 0xCC;
                        }
                        fire();
                    }
                } else {
                    *efl &= !TF;
                }
            }
            WRITES => {
                // the write has been done
                *efl &= !TF;
                mprotect(DATA.load(Relaxed) as *mut u8, DATA_END.load(Relaxed) - DATA.load(Relaxed), 1);
            }
            OVER => {
                *(BP.load(Relaxed) as *mut u8) = 0xCC;
                PHASE.store(ARMED, Relaxed);
                *efl &= !TF;
            }
            _ => {
                STEPS.fetch_add(1, Relaxed);
                let pc = *rip as usize;
                if pc >= LO.load(Relaxed) && pc < HI.load(Relaxed) {
                    if PENDING.load(Relaxed) {
                        if CMD.load(Acquire) == 3 {
                            CMD.store(0, Release);
                            PENDING.store(false, Relaxed);
                        }
                    } else if B_RUNS.load(Relaxed) < DENSE_MAX.load(Relaxed) {
                        fire();
                    } else {
                        *efl &= !TF;
                        PHASE.store(IDLE, Relaxed);
                        return;
                    }
                }
                *efl |= TF;
            }
        }
    }
}

/// Find the program text and make it writable.
pub fn init() -> Result<(), String> {
    let exe = std::fs::read_link("/proc/self/exe").map_err(|e| e.to_string())?;
    let exe = exe.to_string_lossy().trim_end_matches(" (deleted)").to_string();
    let maps = std::fs::read_to_string("/proc/self/maps").map_err(|e| e.to_string())?;
    for l in maps.lines() {
        if l.contains(" r-xp ") && l.contains(&exe) {
            let (a, b) = l.split(' ').next().unwrap().split_once('-').unwrap();
            let (a, b) = (usize::from_str_radix(a, 16).unwrap(), usize::from_str_radix(b, 16).unwrap());
            if unsafe { mprotect(a as *mut u8, b - a, 7) } != 0 {
                return Err("program text cannot be made writable".into());
            }
            LO.store(a, SeqCst);
            HI.store(b, SeqCst);
            data(&maps, &exe);
            const SA_SIGINFO: i32 = 4;
            crate::crash::set_handler(5, on_trap as *const () as usize, SA_SIGINFO);
            return Ok(());
        }
    }
    Err("program text not found".into())
}

#[inline(always)]
fn step_on() {
    unsafe { std::arch::asm!("pushfq", "or dword ptr [rsp], 0x100", "popfq") }
}

/// Run `f` on T1 (this thread) recording the instructions it executes, as offsets into the text.
pub fn trace(f: &mut dyn FnMut()) -> Vec<u32> {
    let cap = 40_000_000;
    let mut v: Vec<u32> = Vec::with_capacity(cap);
    TRACE_PTR.store(v.as_mut_ptr() as usize, SeqCst);
    TRACE_CAP.store(cap, SeqCst);
    TRACE_LEN.store(0, SeqCst);
    IS_T1.with(|x| x.set(true));
    PHASE.store(TRACE, SeqCst);
    step_on();
    f();
    PHASE.store(IDLE, SeqCst);
    std::hint::black_box(0);
    let n = TRACE_LEN.load(SeqCst).min(cap);
    unsafe { v.set_len(n) };
    v
}

/// Run `f` on T1; T2 runs B at the `occ`-th execution of the instruction at `off`. Returns whether it got there.
pub fn preempt(off: u32, occ: u64, f: &mut dyn FnMut()) -> bool {
    let at = LO.load(SeqCst) + off as usize;
    IS_T1.with(|x| x.set(true));
    unsafe {
        BP.store(at, SeqCst);
        ORIG.store(*(at as *const u8) as u32, SeqCst);
        SKIP.store(occ, SeqCst);
        PHASE.store(ARMED, SeqCst);
        *(at as *mut u8) = 0xCC;
        f();
        let p = PHASE.load(SeqCst);
        if p != FIRED {
            *(at as *mut u8) = ORIG.load(SeqCst) as u8;
        }
        PHASE.store(IDLE, SeqCst);
        p == FIRED
    }
}

/// Run `f` on T1 up to the first execution of the instruction at `off`, then B on T2 up to that of the one at
/// `off2`, then the rest of `f`, then the rest of B. Returns whether both got there.
pub fn preempt2(off: u32, off2: u32, f: &mut dyn FnMut()) -> bool {
    BP2.store(LO.load(SeqCst) + off2 as usize, SeqCst);
    T1_TID.store(unsafe { syscall(186) } as i32, SeqCst);
    let r = preempt(off, 0, f);
    unsafe {
        // 5: T2 is stopped; otherwise B has run past or is running
        if CMD.compare_exchange(5, 2, SeqCst, SeqCst).is_ok() {
            wake();
        }
    }
    let b2 = BP2.load(SeqCst);
    if !r {
        // the byte was never written
        BP2.store(0, SeqCst);
        return false;
    }
    settle();
    let stopped = BP2.load(SeqCst) == 0;
    if !stopped {
        unsafe { *(b2 as *mut u8) = ORIG2.load(SeqCst) as u8 };
        BP2.store(0, SeqCst);
    }
    stopped
}

/// The static data of the program: its writable mappings.
fn data(maps: &str, exe: &str) {
    let mut end = 0;
    for l in maps.lines() {
        let (a, b) = l.split(' ').next().unwrap().split_once('-').unwrap();
        let (a, b) = (usize::from_str_radix(a, 16).unwrap(), usize::from_str_radix(b, 16).unwrap());
        if l.contains(" rw-p ") && (l.contains(exe) || end == a && l.ends_with(" 0 ")) {
            if DATA.load(SeqCst) == 0 {
                DATA.store(a, SeqCst);
            }
            end = b;
            DATA_END.store(b, SeqCst);
        }
    }
}

extern "C" fn on_write(_sig: i32, info: *const u8, uc: *mut u8) {
    unsafe {
        let at = *(info.add(16) as *const usize);
        let (lo, hi) = (DATA.load(Relaxed), DATA_END.load(Relaxed));
        if PHASE.load(Relaxed) != WRITES || at < lo || at >= hi {
            // something else: fault again, without this handler
            mprotect(lo as *mut u8, hi - lo, 3);
            crate::crash::set_handler(11, 0, 0);
            return;
        }
        mprotect(lo as *mut u8, hi - lo, 3);
        let n = TRACE_LEN.load(Relaxed);
        if n + 1 < TRACE_CAP.load(Relaxed) {
            let p = TRACE_PTR.load(Relaxed) as *mut u32;
            *p.add(n) = (*(uc.add(RIP) as *const u64) as usize).wrapping_sub(LO.load(Relaxed)) as u32;
            *p.add(n + 1) = (at - lo) as u32;
            TRACE_LEN.store(n + 2, Relaxed);
        }
        // let it happen, then protect again
        *(uc.add(EFL) as *mut u64) |= TF;
    }
}

/// Instructions of `f` that write static data of the program, other than those that running `idle` writes too.
pub fn writes(idle: &mut dyn FnMut(), f: &mut dyn FnMut()) -> Vec<u32> {
    let cap = 1_000_000;
    IS_T1.with(|x| x.set(true));
    let (lo, hi) = (DATA.load(SeqCst), DATA_END.load(SeqCst));
    let mut found = vec![];
    let mut known: Vec<u32> = vec![];
    for round in 0..2 {
        let mut v: Vec<u32> = Vec::with_capacity(cap);
        TRACE_PTR.store(v.as_mut_ptr() as usize, SeqCst);
        TRACE_CAP.store(cap, SeqCst);
        TRACE_LEN.store(0, SeqCst);
        PHASE.store(WRITES, SeqCst);
        unsafe {
            crate::crash::set_handler(11, on_write as *const () as usize, 4);
            mprotect(lo as *mut u8, hi - lo, 1);
            if round == 0 {
                idle()
            } else {
                f()
            }
            mprotect(lo as *mut u8, hi - lo, 3);
            v.set_len(TRACE_LEN.load(SeqCst).min(cap));
        }
        PHASE.store(IDLE, SeqCst);
        for w in v.chunks(2) {
            if round == 0 {
                known.push(w[1]);
            } else if !known.contains(&w[1]) {
                found.push(w[0]);
            }
        }
    }
    found
}

/// Run `f` on T1; T2 runs B before every instruction of it (up to `max` times). Returns the number of runs.
pub fn dense(max: u64, f: &mut dyn FnMut()) -> u64 {
    IS_T1.with(|x| x.set(true));
    B_RUNS.store(0, SeqCst);
    DENSE_MAX.store(max, SeqCst);
    PHASE.store(DENSE, SeqCst);
    step_on();
    f();
    PHASE.store(IDLE, SeqCst);
    std::hint::black_box(0);
    B_RUNS.load(SeqCst)
}

/// T2 finished what it was asked to do? (waits; false: it never does)
pub fn settle() -> bool {
    unsafe {
        if PENDING.load(SeqCst) {
            while !wait_b(10_000) {
                // it has come to its breakpoint late
                if CMD.compare_exchange(5, 2, SeqCst, SeqCst).is_err() {
                    return false;
                }
                wake();
            }
            CMD.store(0, SeqCst);
            PENDING.store(false, SeqCst);
        }
    }
    true
}

/// The body of T2: run `b` whenever asked. The first failure it reports is kept.
pub fn t2(b: &dyn Fn() -> Result<(), String>, failure: &Mutex<Option<String>>) {
    T2_TID.store(unsafe { syscall(186) } as i32, SeqCst);
    loop {
        let mut spins = 0;
        let c = loop {
            let c = CMD.load(Acquire);
            if c == 1 || c == 4 {
                break c;
            }
            spins += 1;
            if spins > 4000 {
                unsafe { wait_while(c, 2_000_000) };
            } else {
                std::hint::spin_loop();
            }
        };
        if c == 4 {
            return;
        }
        CMD.store(2, Release);
        // the text may have been changed: serialise
        unsafe { std::arch::x86_64::__cpuid(0) };
        if let Err(e) = b() {
            let mut f = failure.lock().unwrap();
            if f.is_none() {
                *f = Some(e);
            }
        }
        CMD.store(3, Release);
        unsafe { wake() };
    }
}

/// Wait until T2 is there.
pub fn ready() {
    while T2_TID.load(SeqCst) == 0 {
        std::thread::yield_now();
    }
}
pub fn finish() {
    CMD.store(4, SeqCst);
    unsafe { wake() };
}
