//! C25 concurrent read-only use; also the order-independence part of C27.
//!
//! Schedules are explored in child processes (`mc sched`): thread T1 runs operation A and is stopped at a
//! chosen instruction (a breakpoint written into the program text, or the trap flag); there thread T2
//! runs operation B to completion, then T1 goes on. `mc oneshot` runs operation sequences in a fresh process.
use super::*;
use crate::dec;
use crate::ops::{self, observe, A, R};
use pgnumeric::{Numeric, NumericBuf, Typmod};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::*};

/// One operation on two shared numerics.
pub struct COp {
    pub name: String,
    pub x: usize,
    pub y: usize,
    pub f: std::sync::Arc<dyn Fn(&Opnd, &Opnd) -> R + Send + Sync>,
    /// takes long: not all pairs
    pub long: bool,
}

/// The shared numerics: 12, then two of the same shape (digits, scale, sign, size) as each.
pub fn shared() -> Vec<Opnd> {
    let base = ["12345.678901", "-9.75", "2.5", "0", "99999999.99995", "NaN", "7", "123456789012345678901234567890.0001", "0.000123", "-3", "1e2000", "3.1"];
    let alike = [
        "54321.109876", "98765.432101", "-8.25", "-6.17", "3.5", "7.3", "0", "0", "99999998.99994", "99999997.89993", "NaN", "NaN", "5", "11", "223456789012345678901234567890.0003", "323456789012345678901234567891.0007",
        "0.000456", "0.000789", "-5", "-11", "3e2000", "7e2000", "2.7", "1.9",
    ];
    base.iter().chain(&alike).map(|s| Opnd::new(dec::parse(s).unwrap())).collect()
}
const ALIKE: usize = 12;

/// The operations on their first operands (`prim()` of them), then the same ones on their second operands,
/// then on their third, then on two other pairs of operands shaped like the first ones.
pub fn cops() -> Vec<COp> {
    let mut v: Vec<Vec<COp>> = (0..5).map(|_| vec![]).collect();
    let mut add = |name: &str, at: [(usize, usize); 3], long: bool, f: std::sync::Arc<dyn Fn(&Opnd, &Opnd) -> R + Send + Sync>| {
        for k in 0..5 {
            let (x, y) = if k < 3 { at[k] } else { (ALIKE + 2 * at[0].0 + k - 3, ALIKE + 2 * at[0].1 + k - 3) };
            v[k].push(COp { name: format!("{} #{} #{}", name, x, y), x, y, f: f.clone(), long })
        }
    };
    let un = ops::unary();
    let u = |n: &str| un.iter().find(|o| o.name == n).unwrap_or_else(|| panic!("{}", n)).f;
    let bi = ops::binary();
    let b = |n: &str| bi.iter().find(|o| o.name == n).unwrap_or_else(|| panic!("{}", n)).f;
    for (n, x) in [
        ("Numeric::negate", [0, 7, 1]), ("NumericBuf::abs", [1, 9, 7]), ("Numeric::signum", [1, 0, 3]), ("Numeric::inc", [4, 1, 7]), ("Numeric::ceil", [0, 8, 7]), ("Numeric::floor", [1, 0, 8]),
        ("NumericBuf.to_string", [0, 1, 4]), ("Numeric.to_string", [7, 0, 8]), ("Numeric::normalize", [4, 0, 7]), ("{:e} of Numeric", [8, 7, 0]), ("{:E} of NumericBuf", [7, 0, 8]), ("clone", [7, 0, 1]), ("to_owned", [0, 7, 4]),
        ("Numeric.hash", [0, 7, 2]), ("NumericBuf.hash", [7, 1, 0]), ("json of &Numeric", [0, 7, 8]), ("bincode round trip", [0, 7, 1]), ("text round trip", [7, 0, 8]), ("i64::try_from(&Numeric)", [4, 6, 1]),
        ("u8::try_from(&NumericBuf)", [6, 2, 9]), ("i128::try_from(&Numeric)", [7, 0, 9]), ("f64::try_from(&Numeric)", [0, 8, 7]), ("f32::try_from(&NumericBuf)", [8, 1, 4]), ("Numeric::scale", [0, 4, 6]),
    ] {
        let f = u(n);
        add(n, [(x[0], x[0]), (x[1], x[1]), (x[2], x[2])], false, std::sync::Arc::new(move |x, _| f(A::of(x))));
    }
    for (n, at) in [
        ("&Numeric + &Numeric", [(0, 1), (7, 4), (2, 6)]), ("&NumericBuf - &NumericBuf", [(0, 7), (1, 2), (4, 8)]), ("&Numeric * &Numeric", [(0, 7), (1, 2), (7, 7)]), ("&NumericBuf / &NumericBuf", [(7, 0), (0, 9), (1, 8)]),
        ("Numeric::checked_div", [(0, 3), (0, 2), (7, 9)]), ("&Numeric % &Numeric", [(7, 1), (0, 9), (4, 2)]), ("Numeric::checked_div_trunc", [(7, 6), (0, 1), (4, 8)]), ("Numeric::cmp", [(0, 4), (4, 0), (1, 9)]),
        ("Numeric == != Numeric", [(0, 0), (0, 4), (5, 5)]), ("NumericBuf < <= > >= NumericBuf", [(1, 5), (0, 2), (2, 0)]), ("&Numeric + &NumericBuf", [(5, 0), (0, 8), (7, 6)]), ("NumericBuf += &Numeric", [(4, 2), (7, 1), (8, 0)]),
    ] {
        let f = b(n);
        add(n, at, false, std::sync::Arc::new(move |x, y| f(A::of(x), A::of(y))));
    }
    let same = |x: [usize; 3]| [(x[0], x[0]), (x[1], x[1]), (x[2], x[2])];
    add("round(2)", same([0, 4, 7]), false, std::sync::Arc::new(|x, _| x.num().round(2).into()));
    add("trunc(-1)", same([7, 0, 1]), false, std::sync::Arc::new(|x, _| x.num().trunc(-1).into()));
    add("typmod(7,2)", same([0, 4, 1]), false, std::sync::Arc::new(|x, _| {
        let mut z = x.buf.clone();
        let o = z.apply_typmod(Typmod::new(7, 2).unwrap());
        R::T([&[o as u8], z.as_bytes()].concat())
    }));
    add("constants", same([0, 1, 2]), false, std::sync::Arc::new(|_, _| R::T([Numeric::nan().as_bytes(), Numeric::zero().as_bytes(), NumericBuf::nan().as_bytes(), NumericBuf::zero().as_bytes()].concat())));
    add("parse", same([0, 7, 8]), false, std::sync::Arc::new(|x, _| R::from((x.val.text() + "4e-3").parse::<NumericBuf>().ok())));
    add("parse error", same([0, 7, 8]), false, std::sync::Arc::new(|x, _| R::from((x.val.text() + "x").parse::<NumericBuf>().ok())));
    add("from f64", same([0, 1, 2]), false, std::sync::Arc::new(|x, _| NumericBuf::try_from([0.1f64 + 12345.0, -3e200, 7.25e-9][if x.val.text().len() > 5 { 0 } else if x.val.text().starts_with('-') { 1 } else { 2 }]).unwrap().into()));
    add("from f32", same([0, 1, 2]), false, std::sync::Arc::new(|x, _| NumericBuf::try_from([-1.5e10f32, 0.1, 3.0e-20][if x.val.text().len() > 5 { 0 } else if x.val.text().starts_with('-') { 1 } else { 2 }]).unwrap().into()));
    add("from i64", same([0, 1, 2]), false, std::sync::Arc::new(|x, _| NumericBuf::from([-1234567890123456789i64, 7, i64::MAX][if x.val.text().len() > 5 { 0 } else if x.val.text().starts_with('-') { 1 } else { 2 }]).into()));
    // long ones
    for (n, x) in [("Numeric::sqrt", [6, 8, 0]), ("Numeric::sqrt", [7, 2, 11]), ("Numeric::ln", [2, 10, 0]), ("Numeric::ln", [6, 7, 8]), ("Numeric::log2", [6, 2, 0]), ("Numeric::log10", [0, 2, 6]), ("Numeric::exp", [6, 8, 9]), ("Numeric::exp", [2, 1, 11])] {
        let f = u(n);
        add(n, same(x), true, std::sync::Arc::new(move |x, _| f(A::of(x))));
    }
    for (n, at) in [("Numeric::pow", [(2, 6), (6, 9), (8, 6)]), ("Numeric::pow", [(6, 2), (2, 11), (0, 1)]), ("Numeric::pow", [(1, 9), (9, 6), (2, 9)]), ("Numeric::log", [(0, 6), (2, 11), (10, 2)])] {
        let f = b(n);
        add(n, at, true, std::sync::Arc::new(move |x, y| f(A::of(x), A::of(y))));
    }
    add("factorial", same([2, 6, 1]), true, std::sync::Arc::new(|x, _| NumericBuf::factorial(if x.val.text().starts_with('-') { 19 } else { x.val.text().len() as i64 * 12 - 6 }).into()));
    v.into_iter().flatten().collect()
}

/// Number of operations on their first operands.
pub fn prim() -> usize {
    cops().len() / 5
}

pub fn eval(o: &COp, s: &[Opnd]) -> Vec<u8> {
    let r = catch_unwind(AssertUnwindSafe(|| (o.f)(&s[o.x], &s[o.y])));
    match r {
        Ok(r) => observe(&Ok(r)),
        Err(_) => vec![b'F'],
    }
}

// ---------------------------------------------------------------- fresh-process runs

pub fn me() -> std::process::Command {
    std::process::Command::new(std::env::current_exe().unwrap_or_else(|_| "/proc/self/exe".into()))
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

/// `mc oneshot i j k ...`: run the operations in this order in this fresh process; print every outcome.
pub fn oneshot() {
    std::panic::set_hook(Box::new(|_| {}));
    let s = shared();
    let o = cops();
    for a in std::env::args().skip(2) {
        println!("{}", hex(&eval(&o[a.parse::<usize>().unwrap()], &s)));
    }
}

fn oneshot_run(seq: &[usize]) -> Vec<String> {
    let out = me().arg("oneshot").args(seq.iter().map(|x| x.to_string())).output().expect("cannot start the explorer");
    String::from_utf8_lossy(&out.stdout).lines().map(|l| l.to_string()).collect()
}

/// All sequences of operations of the given length, each in a fresh process: every operation gives what it
/// gives alone.
pub fn order_independence(cfg: Cfg) -> Space {
    let n = 3 * prim();
    // the operations most likely to leave something behind come with longer sequences
    let alone: std::sync::Arc<Vec<std::sync::Mutex<Option<String>>>> = std::sync::Arc::new((0..n).map(|_| std::sync::Mutex::new(None)).collect());
    let long: Vec<usize> = cops().iter().enumerate().take(n).filter(|(_, o)| o.long).map(|(i, _)| i).collect();
    let l = long.len() as u64;
    let triples = if cfg.thorough() { l * l * l } else { 0 };
    let pairs = (n * n) as u64;
    // three operations of one kind, in every order and with repetitions
    let p = prim();
    let same = 27 * p as u64;
    let mut sp = space("operation orders in fresh processes", pairs + same + triples, move |i, c| {
        let seq: Vec<usize> = if i < pairs {
            vec![i as usize / n, i as usize % n]
        } else if i < pairs + same {
            let j = (i - pairs) as usize;
            let f = j / 27;
            vec![f + p * (j % 3), f + p * (j / 3 % 3), f + p * (j / 9 % 3)]
        } else {
            let j = i - pairs - same;
            vec![long[(j / l / l) as usize], long[(j / l % l) as usize], long[(j % l) as usize]]
        };
        let ops = cops();
        c.desc(|| seq.iter().map(|&j| ops[j].name.clone()).collect::<Vec<_>>().join("; "));
        c.transitions += seq.len() as u64;
        let got = oneshot_run(&seq);
        if got.len() != seq.len() {
            c.fail("the process running this sequence ended early");
            return;
        }
        for (k, &j) in seq.iter().enumerate() {
            let e = {
                let mut m = alone[j].lock().unwrap();
                if m.is_none() {
                    *m = oneshot_run(&[j]).pop();
                }
                m.clone().unwrap_or_default()
            };
            c.seen(got[k].as_bytes());
            let show = |h: &str| {
                let b: Vec<u8> = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap_or(0)).collect();
                ops::show(&b)
            };
            c.check(e == got[k], || format!("{} (number {} of the sequence) gives {}, alone in a fresh process it gives {}", ops[j].name, k + 1, show(&got[k]), show(&e)));
        }
    });
    sp.case_limit = 120;
    sp
}

// ---------------------------------------------------------------- C25: schedules of two threads

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn alarm(s: u32) -> u32;
    fn signal(sig: i32, h: usize) -> usize;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

fn short(b: &[u8]) -> String {
    ops::show(b)
}

/// Distinct instructions of a trace in order of first execution, with the number of executions.
fn points(trace: &[u32]) -> Vec<(u32, u64)> {
    let mut m = std::collections::HashMap::new();
    let mut v: Vec<(u32, u64)> = vec![];
    for &p in trace {
        let i = *m.entry(p).or_insert_with(|| {
            v.push((p, 0));
            v.len() - 1
        });
        v[i].1 += 1;
    }
    v
}

fn occurrences(n: u64, all: u64) -> Vec<u64> {
    // 0-based; the first, the second and the last, or all of them
    if all == 0 {
        return vec![0];
    }
    if n <= all {
        return (0..n).collect();
    }
    let mut v: Vec<u64> = (0..all.min(n)).collect();
    v.push(n - 1);
    v.dedup();
    v
}

/// `mc sched warm a b,b,... occ dense` / `mc sched cold a b,b,... occ all exp_a exp_b exp_b ...`
pub fn sched_main() {
    std::panic::set_hook(Box::new(|_| {}));
    let arg: Vec<String> = std::env::args().skip(2).collect();
    let a: usize = arg[1].parse().unwrap();
    let bs: Vec<usize> = arg[2].split(',').map(|x| x.parse().unwrap()).collect();
    if let Err(e) = crate::sched::init() {
        println!("HARNESS {}", e);
        std::process::exit(5);
    }
    let (occ, x): (u64, u64) = (arg[3].parse().unwrap(), arg[4].parse().unwrap());
    let r = if arg[0] == "warm" { warm(a, &bs, occ, x) } else if arg[0] == "twice" { twice(a, &bs, x as usize) } else { cold(a, &bs, occ, x != 0, &arg[5..]) };
    match r {
        Ok(s) => println!("OK {}", s),
        Err(e) => println!("FAIL {}", e),
    }
}

fn differs(what: &str, got: &[u8], exp: &[u8]) -> Result<(), String> {
    if got == exp {
        Ok(())
    } else {
        Err(format!("{} gives {}, alone it gives {}", what, short(got), short(exp)))
    }
}

/// A's function on operands other than those of A and B, to run before them: on others and on some of the same shape.
fn others(a: usize, b: usize, p: usize) -> Vec<usize> {
    let at = |ks: &[usize]| ks.iter().map(|k| a % p + k * p).find(|&k| k != a && k != b);
    if a == b && a < p {
        at(&[1]).into_iter().chain(at(&[3])).collect()
    } else if a >= 3 * p || b >= 3 * p {
        at(&[4, 3, 1]).into_iter().collect()
    } else {
        at(&[0, 1, 2]).into_iter().collect()
    }
}

/// All schedules of A with each of `bs` after everything has been used once. Before every schedule a prologue
/// runs alone (as if it had been the last thing to happen): A, B, or A's function on other operands; after
/// it A and B run again, one after the other. After a prologue that makes A execute the same instructions
/// as an earlier one only the dense schedule is run.
fn warm(a: usize, bs: &[usize], occ: u64, dense: u64) -> Result<String, String> {
    use crate::sched;
    let s = shared();
    let o = cops();
    let np3 = prim();
    let oa = &o[a];
    let ea = eval(oa, &s);
    let ebs: Vec<Vec<u8>> = bs.iter().map(|&b| eval(&o[b], &s)).collect();
    differs("A run again", &eval(oa, &s), &ea)?;
    let failure = std::sync::Mutex::new(None);
    let cur = AtomicUsize::new(0);
    let mut n = 0u64;
    let mut missed = 0;
    let mut res: Result<(), String> = Ok(());
    let mut got = vec![];
    let mut np = 0;
    let mut steps = 0;
    let mut traces: std::collections::HashMap<usize, Vec<(u32, u64)>> = Default::default();
    std::thread::scope(|sc| {
        sc.spawn(|| {
            sched::t2(
                &|| {
                    let i = cur.load(SeqCst);
                    differs("B", &eval(&o[bs[i]], &s), &ebs[i])
                },
                &failure,
            )
        });
        sched::ready();
        'all: for i in 0..bs.len() {
            cur.store(i, SeqCst);
            let (b, ob, eb) = (bs[i], &o[bs[i]], &ebs[i]);
            let judge = |got: &[u8], how: &dyn Fn() -> String| -> Result<(), String> {
                if !sched::settle() {
                    return Err(format!("{}: deadlock, B never ends", how()));
                }
                if let Some(e) = failure.lock().unwrap().take() {
                    return Err(format!("{}: {}", how(), e));
                }
                differs(&format!("{}: A", how()), got, &ea)
            };
            // what A and B give afterwards; the prologue of the next schedule is one such run
            let after = |what: usize, out: &[u8], how: &dyn Fn() -> String| -> Result<(), String> {
                if what == a {
                    differs(&format!("after: {}: A", how()), out, &ea)
                } else if what == b {
                    differs(&format!("after: {}: B", how()), out, eb)
                } else {
                    differs(&format!("after: {}: A", how()), &eval(oa, &s), &ea)?;
                    differs(&format!("after: {}: B", how()), &eval(ob, &s), eb)
                }
            };
            let mut pre = vec![a];
            // an unrelated operation just before a long one is left to the dense schedules of short ones
            if b != a && (!oa.long || b % np3 == a % np3) {
                pre.push(b);
            }
            if dense > 0 && !oa.long || b % np3 == a % np3 {
                pre.extend(others(a, b, np3));
            }
            let mut seen: std::collections::HashMap<u32, u64> = Default::default();
            for &p in &pre {
                let op = &o[p];
                if traces.get(&p).is_none() {
                    eval(op, &s);
                    let t = sched::trace(&mut || got = eval(oa, &s));
                    res = differs("A single-stepped", &got, &ea);
                    if res.is_err() {
                        break 'all;
                    }
                    steps += t.len();
                    let ps = points(&t);
                    np += ps.len();
                    traces.insert(p, ps);
                }
                eval(op, &s);
                let ps = &traces[&p];
                for (i, &(pc, cnt)) in ps.iter().enumerate() {
                    if sched::SPUN.load(SeqCst) > 5 {
                        break;
                    }
                    if seen.get(&pc) == Some(&cnt) {
                        continue;
                    }
                    for k in occurrences(cnt, occ) {
                        let how = || format!("B = {}; {} first; A stopped at its instruction {} of {} (text offset {:#x}, execution {} of {})", ob.name, op.name, i + 1, ps.len(), pc, k + 1, cnt);
                        if !sched::preempt(pc, k, &mut || got = eval(oa, &s)) {
                            missed += 1;
                        }
                        n += 1;
                        res = judge(&got, &how);
                        if res.is_ok() && p == a && !ob.long {
                            res = after(b, &eval(ob, &s), &how);
                        }
                        if res.is_ok() && p != a && p != b {
                            res = after(p, &[], &how);
                        }
                        let out = eval(op, &s);
                        if res.is_ok() && (p == a || p == b) {
                            res = after(p, &out, &how);
                        }
                        if res.is_err() {
                            break 'all;
                        }
                    }
                }
                for &(pc, cnt) in ps {
                    seen.insert(pc, cnt);
                }
                if dense > 0 && sched::SPUN.load(SeqCst) == 0 {
                    n += sched::dense(dense, &mut || got = eval(oa, &s));
                    let how = || format!("B = {}; {} first; B between any two instructions of A", ob.name, op.name);
                    res = judge(&got, &how).and_then(|_| after(usize::MAX, &[], &how));
                    if res.is_err() {
                        break 'all;
                    }
                }
            }
        }
        if res.is_ok() {
            for (i, x) in s.iter().enumerate() {
                if !x.intact() {
                    res = Err(format!("shared numeric #{} was changed", i));
                }
            }
        }
        sched::finish();
    });
    res?;
    Ok(format!("schedules={} points={} steps={} blocked={} missed={} spun={}", n, np, steps, sched::BLOCKED.load(SeqCst), missed, sched::SPUN.load(SeqCst)))
}

/// All schedules with a stop of A and a stop of B: A up to an instruction, B up to an instruction, the rest of
/// A, the rest of B. Only operations that write static data after they have been used before can tell these from
/// schedules with one stop or none; for others the number of writes, 0, is all there is to find out.
fn twice(a: usize, bs: &[usize], max: usize) -> Result<String, String> {
    use crate::sched;
    let s = shared();
    let o = cops();
    let np3 = prim();
    let oa = &o[a];
    let ea = eval(oa, &s);
    let ebs: Vec<Vec<u8>> = bs.iter().map(|&b| eval(&o[b], &s)).collect();
    let failure = std::sync::Mutex::new(None);
    let cur = AtomicUsize::new(0);
    let (mut n, mut missed, mut np, mut nw) = (0u64, 0, 0, 0);
    let mut res: Result<(), String> = Ok(());
    let mut got = vec![];
    let idle = || {
        drop(std::hint::black_box(vec![1u8; 100]));
        let _ = catch_unwind(|| panic!("idle"));
    };
    // where an operation writes static data, and the instructions around these
    let look = |p: usize, x: usize, np: &mut usize| -> (Vec<u32>, usize) {
        eval(&o[p], &s);
        let mut out = vec![];
        let w = sched::writes(&mut || idle(), &mut || out = eval(&o[x], &s));
        if w.is_empty() {
            return (vec![], 0);
        }
        eval(&o[p], &s);
        let t: Vec<u32> = points(&sched::trace(&mut || out = eval(&o[x], &s))).into_iter().map(|x| x.0).collect();
        let at: Vec<usize> = t.iter().enumerate().filter(|(_, p)| w.contains(p)).map(|x| x.0).collect();
        let mut v: Vec<(usize, u32)> = t.iter().enumerate().map(|(i, &p)| (at.iter().map(|&j| i.abs_diff(j)).min().unwrap_or(0), p)).collect();
        v.sort();
        v.truncate(max);
        *np += v.len();
        (v.into_iter().map(|x| x.1).collect(), w.len())
    };
    std::thread::scope(|sc| {
        sc.spawn(|| {
            sched::t2(
                &|| {
                    let i = cur.load(SeqCst);
                    differs("B", &eval(&o[bs[i]], &s), &ebs[i])
                },
                &failure,
            )
        });
        sched::ready();
        'all: for i in 0..bs.len() {
            cur.store(i, SeqCst);
            let (b, ob, eb) = (bs[i], &o[bs[i]], &ebs[i]);
            let mut pre = vec![a];
            pre.extend(others(a, b, np3));
            for &p in &pre {
                let (pa, wa) = look(p, a, &mut np);
                let (pb, wb) = look(p, b, &mut np);
                nw += wa + wb;
                for &x in &pa {
                    for &y in &pb {
                        if sched::SPUN.load(SeqCst) > 20 {
                            break 'all;
                        }
                        eval(&o[p], &s);
                        if !sched::preempt2(x, y, &mut || got = eval(oa, &s)) {
                            missed += 1;
                        }
                        n += 1;
                        let how = || format!("B = {}; {} first; A stopped before text offset {:#x}, B before {:#x}", ob.name, o[p].name, x, y);
                        res = if !sched::settle() {
                            Err(format!("{}: deadlock, B never ends", how()))
                        } else if let Some(e) = failure.lock().unwrap().take() {
                            Err(format!("{}: {}", how(), e))
                        } else {
                            differs(&format!("{}: A", how()), &got, &ea)
                        };
                        if res.is_ok() {
                            res = differs(&format!("after: {}: A", how()), &eval(oa, &s), &ea).and_then(|_| differs(&format!("after: {}: B", how()), &eval(ob, &s), eb));
                        }
                        if res.is_err() {
                            break 'all;
                        }
                    }
                }
            }
        }
        sched::finish();
    });
    res?;
    Ok(format!("schedules={} points={} writes={} blocked={} missed={} spun={}", n, np, nw, sched::BLOCKED.load(SeqCst), missed, sched::SPUN.load(SeqCst)))
}

#[repr(C)]
struct Shm {
    n: AtomicUsize,
    msg: [u8; 2000],
    trace: [u32; 6_000_000],
}

/// Run `f` in a forked copy of this process. Err: it was killed.
fn forked(shm: *mut Shm, f: impl FnOnce() -> Result<(), String>) -> Result<(), String> {
    unsafe {
        (*shm).n.store(0, SeqCst);
        (*shm).msg = [0; 2000];
        let pid = fork();
        if pid == 0 {
            for s in [4, 6, 7, 8, 11, 14] {
                signal(s, 0);
            }
            alarm(30);
            let r = f();
            if let Err(e) = &r {
                let k = e.len().min(1999);
                (&mut (*shm).msg)[..k].copy_from_slice(&e.as_bytes()[..k]);
            }
            _exit(if r.is_ok() { 0 } else { 9 })
        }
        let mut st = 0;
        waitpid(pid, &mut st, 0);
        if st == 0 {
            return Ok(());
        }
        let m: Vec<u8> = (*shm).msg.iter().copied().take_while(|&b| b != 0).collect();
        Err(if m.is_empty() { format!("the process was killed by signal {}{}", st & 0x7f, if st & 0x7f == 14 { " (deadlock: no end within 30 s)" } else { "" }) } else { String::from_utf8_lossy(&m).into_owned() })
    }
}

fn unhex(h: &str) -> Vec<u8> {
    (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap_or(0)).collect()
}

/// Schedules in which A (and B) run for the first time in the process: each in a process of its own.
fn cold(a: usize, bs: &[usize], occ: u64, all: bool, exp: &[String]) -> Result<String, String> {
    use crate::sched;
    let s = shared();
    let o = cops();
    let oa = &o[a];
    let ea = unhex(&exp[0]);
    let shm = unsafe { mmap(std::ptr::null_mut(), std::mem::size_of::<Shm>(), 3, 0x21, -1, 0) } as *mut Shm;
    let mut traces: Vec<Vec<u32>> = vec![];
    for first in [true, false] {
        forked(shm, || {
            if !first {
                eval(oa, &s);
            }
            let mut got = vec![];
            let t = sched::trace(&mut || got = eval(oa, &s));
            let n = t.len().min(6_000_000);
            unsafe {
                (&mut (*shm).trace)[..n].copy_from_slice(&t[..n]);
                (*shm).n.store(n, SeqCst);
            }
            differs("A single-stepped", &got, &ea)
        })?;
        let n = unsafe { (*shm).n.load(SeqCst) };
        traces.push(unsafe { (&(*shm).trace)[..n].to_vec() });
    }
    let warm: std::collections::HashMap<u32, u64> = points(&traces[1]).into_iter().collect();
    let ps: Vec<(u32, u64)> = points(&traces[0]).into_iter().filter(|(p, n)| all || warm.get(p).copied().unwrap_or(0) < *n).collect();
    let mut n = 0;
    let np = ps.len();
    let mut one = |bi: usize, k: Option<(usize, u32, u64, u64)>| -> Result<(), String> {
        let ob = &o[bs[bi]];
        let eb = unhex(&exp[bi + 1]);
        let how = match k {
            Some((i, pc, k, cnt)) => format!("first use in the process, A stopped at its instruction {} of {} (text offset {:#x}, execution {} of {})", i + 1, np, pc, k + 1, cnt),
            None => "first use in the process, B between any two instructions of A".into(),
        };
        let how = format!("B = {}; {}", ob.name, how);
        let r = forked(shm, || {
            let failure = std::sync::Mutex::new(None);
            let mut res = Ok(());
            std::thread::scope(|sc| {
                sc.spawn(|| sched::t2(&|| differs("B", &eval(ob, &s), &eb), &failure));
                sched::ready();
                let mut got = vec![];
                match k {
                    Some((_, pc, k, _)) => {
                        sched::preempt(pc, k, &mut || got = eval(oa, &s));
                    }
                    None => {
                        sched::dense(400, &mut || got = eval(oa, &s));
                    }
                }
                if !sched::settle() {
                    res = Err("deadlock, B never ends".to_string());
                    unsafe {
                        let m = b"deadlock, B never ends";
                        (&mut (*shm).msg)[..m.len()].copy_from_slice(m);
                        _exit(9)
                    }
                }
                res = differs("A", &got, &ea);
                if let Some(e) = failure.lock().unwrap().take() {
                    res = Err(e);
                }
                sched::finish();
            });
            res?;
            differs("A afterwards", &eval(oa, &s), &ea)?;
            differs("B afterwards", &eval(ob, &s), &eb)
        });
        n += 1;
        r.map_err(|e| format!("{}: {}", how, e))
    };
    for bi in 0..bs.len() {
        for (i, &(pc, cnt)) in ps.iter().enumerate() {
            for k in occurrences(cnt, occ) {
                one(bi, Some((i, pc, k, cnt)))?;
            }
        }
        one(bi, None)?;
    }
    Ok(format!("schedules={} points={} steps={} blocked=0 missed=0 spun=0", n, np, traces[0].len()))
}

pub fn c25(cfg: Cfg) -> Vec<Space> {
    let thor = cfg.thorough();
    let mut v = vec![];
    let names: std::sync::Arc<Vec<(String, bool)>> = std::sync::Arc::new(cops().into_iter().map(|o| (o.name, o.long)).collect());
    let p = prim();
    let n = p;
    let short: Vec<usize> = (0..n).filter(|&i| !names[i].1).collect();
    let long: Vec<usize> = (0..n).filter(|&i| names[i].1).collect();
    let child = |args: Vec<String>, c: &mut Ctx| {
        let out = me().arg("sched").args(&args).output().expect("cannot start the explorer");
        let t = String::from_utf8_lossy(&out.stdout).into_owned();
        let line = t.lines().last().unwrap_or("").to_string();
        c.seen(line.as_bytes());
        if let Some(s) = line.strip_prefix("OK ") {
            let f = |k: &str| s.split(k).nth(1).and_then(|x| x.split(' ').next()).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
            c.transitions += 2 * f("schedules=");
            SCHEDULES.fetch_add(f("schedules="), SeqCst);
        } else if let Some(s) = line.strip_prefix("FAIL ") {
            c.fail(s.to_string());
        } else if line.starts_with("HARNESS") || out.status.code() == Some(5) {
            panic!("scheduler: {}", line);
        } else {
            c.fail(format!("the process exploring these schedules died: {} {}", out.status, line));
        }
    };
    let child = std::sync::Arc::new(child);
    let mk = |name: &str, mut ps: Vec<(usize, usize)>, chunk: usize, occ: u64, dense: u64| -> Space {
        let kind = if name.starts_with("two stops") { "twice" } else { "warm" };
        let (names, child) = (names.clone(), child.clone());
        ps.sort();
        ps.dedup();
        // one process explores one A with up to `chunk` Bs
        let mut groups: Vec<(usize, Vec<usize>)> = vec![];
        for (a, b) in ps {
            match groups.last_mut() {
                Some((x, v)) if *x == a && v.len() < chunk => v.push(b),
                _ => groups.push((a, vec![b])),
            }
        }
        let mut sp = space(name, groups.len() as u64, move |i, c| {
            let (a, bs) = &groups[i as usize];
            c.desc(|| format!("A = {}, B = each of: {}", names[*a].0, bs.iter().map(|&b| names[b].0.clone()).collect::<Vec<_>>().join(", ")));
            child(vec![kind.into(), a.to_string(), bs.iter().map(|b| b.to_string()).collect::<Vec<_>>().join(","), occ.to_string(), dense.to_string()], c);
        });
        sp.threads = 4;
        sp.case_limit = 300;
        sp
    };
    let all = |a: &[usize], b: &[usize]| -> Vec<(usize, usize)> { a.iter().flat_map(|&x| b.iter().map(move |&y| (x, y))).collect() };
    let few: Vec<usize> = long.iter().copied().filter(|&i| thor || ["Numeric::ln #2", "Numeric::pow #2", "Numeric::sqrt #6"].iter().any(|p| names[i].0.starts_with(p))).collect();
    let sfew: Vec<usize> = short.iter().copied().step_by(15).collect();
    // a function against itself on the same and on other operands: what it shares is most likely shared with itself
    let own = |v: &[usize]| -> Vec<(usize, usize)> { v.iter().flat_map(|&i| [(i, i), (i, i + p), (i + p, i), (i, i + 2 * p), (i, i + 3 * p), (i + 3 * p, i)]).collect() };
    v.push(mk("a long operation stopped, the same function whole", own(&long), 4, if thor { 1 } else { 0 }, if thor { 200_000 } else { 800 }));
    v.push(mk("a short operation stopped, the same function whole", own(&short), 4, if thor { 4 } else { 1 }, if thor { u64::MAX } else { 1000 }));
    v.push(mk("two stops, where static data are written", own(&[&long[..], &short].concat()), 6, 0, if thor { 700 } else { 160 }));
    // first use
    let mut bs: Vec<usize> = if thor { (0..n).collect() } else { few.clone() };
    if !thor {
        bs.extend(short.iter().filter(|&&i| ["Numeric::inc", "Numeric::signum", "Numeric::ceil", "{:e}"].iter().any(|p| names[i].0.starts_with(p))));
    }
    let nn = names.clone();
    let alone: std::sync::Arc<Vec<Lazy>> = std::sync::Arc::new((0..n).map(|_| Lazy::new()).collect());
    let ch = child.clone();
    let mut sp = space("first use of everything", n as u64, move |i, c| {
        let a = i as usize;
        let bl: Vec<usize> = std::iter::once(a).chain(bs.iter().copied().filter(|&b| b != a)).collect();
        c.desc(|| format!("A = {}, B = each of {}", nn[a].0, bl.len()));
        let e = |j: usize| -> String { alone[j].get(|| oneshot_run(&[j]).pop().unwrap_or_default()) };
        let mut args = vec!["cold".into(), a.to_string(), bl.iter().map(|b| b.to_string()).collect::<Vec<_>>().join(","), if thor { "1".into() } else { "0".into() }, if thor && !nn[a].1 { "1".into() } else { "0".to_string() }, e(a)];
        args.extend(bl.iter().map(|&b| e(b)));
        ch(args, c);
    });
    sp.threads = 4;
    sp.case_limit = if thor { 1500 } else { 300 };
    v.push(sp);
    let mut ps = all(&long, if thor { &short } else { &sfew });
    ps.extend(all(&few, &few).into_iter().filter(|(a, b)| a != b));
    v.push(mk("stops of long operations", ps, 3, if thor { 1 } else { 0 }, if thor { 200_000 } else { 800 }));
    v.push(mk("long operations at stops of short ones", all(if thor { &short } else { &sfew }, &few), 3, 1, if thor { 10_000 } else { 200 }));
    let ps = all(&short, &short).into_iter().filter(|(a, b)| a != b).collect();
    v.push(mk("one stop of A at every instruction, B whole", ps, 9, if thor { 4 } else { 1 }, if thor { u64::MAX } else { 1000 }));
    v
}

pub static SCHEDULES: AtomicU64 = AtomicU64::new(0);

struct Lazy(std::sync::Mutex<Option<String>>);
impl Lazy {
    fn new() -> Lazy {
        Lazy(std::sync::Mutex::new(None))
    }
    fn get(&self, f: impl FnOnce() -> String) -> String {
        self.0.lock().unwrap().get_or_insert_with(f).clone()
    }
}
