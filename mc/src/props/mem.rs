//! C22 memory safety: every execution runs three times over the checking allocator - on ordinary blocks with
//! canaries and quarantine, and on fenced blocks flush against inaccessible pages at their end and at their
//! start, each with other contents of fresh memory - and must behave identically, free everything it
//! allocated, and never fault.
use super::glob::{big, start_values, steps, Consts, Step};
use super::*;
use crate::alloc;
use crate::big::Big;
use crate::dec::{self, Dec, Val};
use crate::ops::{self, observe, observe_into, A, R};
use pgnumeric::{Numeric, NumericBuf, Typmod};
use std::borrow::Cow;
use std::collections::{BTreeSet, HashMap};
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::sync::Arc;

/// (placement, contents of fresh memory, quarantine)
const MODES: [(u8, u8, bool, &str); 3] = [(alloc::PLAIN, 0, true, "ordinary blocks"), (alloc::FENCE_END, 0xAA, false, "blocks fenced at the end"), (alloc::FENCE_START, 0x55, false, "blocks fenced at the start")];

/// Run `f` in every memory mode; `f` must drop all it allocates (except what it appends to its output).
pub fn modes(c: &mut Ctx, f: &dyn Fn(&mut Ctx, &mut Vec<u8>)) {
    let mut first: Option<Vec<u8>> = None;
    for (mode, poison, quar, name) in MODES {
        let mut out = Vec::with_capacity(256);
        alloc::set_mode(mode);
        alloc::set_poison(poison);
        if quar {
            alloc::set_quarantine(true);
        }
        let before = alloc::live();
        f(c, &mut out);
        let leaked = alloc::live() - before;
        alloc::set_mode(alloc::PLAIN);
        alloc::set_poison(0);
        if quar {
            alloc::set_quarantine(false);
        }
        if let Some(e) = alloc::take_err() {
            c.fail(format!("memory error with {}: {}", name, e));
        }
        if c.failed() {
            return;
        }
        match &first {
            None => {
                c.seen(&out);
                first = Some(out);
            }
            Some(o) => {
                // the first run may have set up something that stays
                if leaked != 0 {
                    c.fail(format!("{} heap block(s) {} after everything was dropped", leaked.abs(), if leaked > 0 { "leaked" } else { "freed too often" }));
                    return;
                }
                if *o != out {
                    let k = o.iter().zip(out.iter()).take_while(|(a, b)| a == b).count();
                    let t = |v: &[u8]| String::from_utf8_lossy(&v[k.saturating_sub(20).min(v.len())..(k + 40).min(v.len())]).into_owned();
                    c.fail(format!("behaves differently with {}: output {:?} instead of {:?} (at byte {})", name, t(&out), t(o), k));
                    return;
                }
            }
        }
    }
}

fn put(out: &mut Vec<u8>, b: &[u8]) {
    out.extend_from_slice(&(b.len() as u32).to_le_bytes());
    out.extend_from_slice(b);
}

/// Everything that can be read from a numeric.
fn dump(c: &mut Ctx, out: &mut Vec<u8>, x: &NumericBuf) {
    let r = c.call(|| {
        put(out, x.as_bytes());
        let _ = write!(Wr(out), "{} {:?} {:e} {}", x, x, x, x.normalize());
        put(out, &ops::hash_stream(x));
        put(out, x.as_numeric().to_owned().as_bytes());
        put(out, x.clone().as_bytes());
    });
    if let Err(e) = r {
        c.fail(format!("a numeric cannot be read: {}", e));
    }
}
struct Wr<'a>(&'a mut Vec<u8>);
impl std::fmt::Write for Wr<'_> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0.extend_from_slice(s.as_bytes());
        Ok(())
    }
}

/// A numeric's bytes in a block of exactly their size, aligned to 2 only.
pub struct Fenced(Vec<u16>, usize);
impl Fenced {
    pub fn new(b: &[u8]) -> Fenced {
        let mut v = Vec::with_capacity((b.len() + 1) / 2);
        v.extend(b.chunks(2).map(|w| u16::from_ne_bytes([w[0], w.get(1).copied().unwrap_or(0)])));
        Fenced(v, b.len())
    }
    pub fn bytes(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.0.as_ptr() as *const u8, self.1) }
    }
    pub fn num(&self) -> &Numeric {
        unsafe { Numeric::from_bytes_unchecked(self.bytes()) }
    }
}

/// An operand built in the current memory mode: borrowed bytes and an owned copy.
fn operand(c: &mut Ctx, o: &Opnd) -> Option<(Fenced, NumericBuf)> {
    let f = Fenced::new(o.mem.bytes());
    match c.call(|| f.num().to_owned()) {
        Ok(b) => Some((f, b)),
        Err(e) => {
            c.fail(format!("to_owned failed: {}", e));
            None
        }
    }
}

fn note(out: &mut Vec<u8>, r: &Out<R>) {
    let n = out.len();
    out.extend_from_slice(&[0; 4]);
    let mut t = std::mem::take(out);
    // observe_into clears its target
    let o = observe(r);
    t.extend_from_slice(&o);
    let l = (t.len() - n) as u32;
    t[n..n + 4].copy_from_slice(&l.to_le_bytes());
    *out = t;
}

fn values(cfg: Cfg) -> Vec<Val> {
    let thor = cfg.thorough();
    let mut v: Vec<Val> = vec![Val::NaN];
    for s in ["0", "0.00", "0e-70", "1", "-1", "0.5", "-9.5", "9999", "9999.9999", "-10000", "99999999.5", "0.0001", "0.00001", "1e-64", "1e-257", "12345678901234567890.0987654321", "-1e260", "9999e252", "1e300", "123456.7890", "99999.99995", "-0.99995"] {
        v.push(big(s));
    }
    let w: Vec<i64> = if thor { vec![-65, -64, -2, -1, 0, 1, 2, 63, 64] } else { vec![-64, -1, 0, 1, 64] };
    v.extend(groups(&[0, 1, 9999], 3, &w, &[0], false).into_iter().step_by(if thor { 1 } else { 3 }).map(Val::Fin));
    v
}

pub fn c22(cfg: Cfg) -> Vec<Space> {
    let thor = cfg.thorough();
    let mut v = vec![];
    alloc::PROTECT.store(thor as u32, std::sync::atomic::Ordering::SeqCst);
    // (first: forking gets slow once there are many pages)
    v.push(oom(cfg));

    // ---- every operation spelling on every (pair of) operand(s)
    let vals = values(cfg);
    let tb = table(vals.clone());
    let un: Vec<ops::Op1> = ops::unary();
    v.push(singles("unary operations", tb.clone(), move |x, c| {
        let huge = x.mem.bytes().len() > 100;
        for o in &un {
            if o.heavy && (huge || matches!(&x.val, Val::Fin(d) if d.weight().abs() > 30)) {
                continue;
            }
            modes(c, &|c, out| {
                if let Some((f, b)) = operand(c, x) {
                    let r = ops::run1(c, o, A { n: f.num(), b: &b });
                    note(out, &r);
                    put(out, f.bytes());
                    put(out, b.as_bytes());
                }
            });
            if c.failed() {
                let m = format!("{}: {}", o.name, c.failure.take().unwrap());
                c.fail(m);
                return;
            }
        }
    }));
    let par = ops::param();
    let ps: Vec<i64> = vec![-1000, -260, -65, -9, -8, -5, -4, -3, -1, 0, 1, 2, 3, 4, 5, 7, 8, 9, 63, 64, 65, 256, 260, 1000, i32::MAX as i64, i32::MIN as i64];
    let tms: Vec<i64> = vec![1 << 16, 5 << 16 | 2, 3 << 16 | 3, 1000 << 16, 1000 << 16 | 1000, 500 << 16 | 64];
    v.push(singles("parameterised operations", tb.clone(), move |x, c| {
        for o in &par {
            for &p in if o.group == "typmod" { &tms } else { &ps } {
                modes(c, &|c, out| {
                    if let Some((f, b)) = operand(c, x) {
                        let r = ops::runp(c, o, A { n: f.num(), b: &b }, p);
                        note(out, &r);
                    }
                });
                if c.failed() {
                    let m = format!("{} {}: {}", o.name, p, c.failure.take().unwrap());
                    c.fail(m);
                    return;
                }
            }
        }
    }));
    let bin: Vec<ops::Op2> = ops::binary().into_iter().filter(|o| !o.heavy).collect();
    let bin2 = ops::binary().into_iter().filter(|o| !o.heavy && (o.name.starts_with("Numeric") && o.name.contains("checked") || o.name == "Numeric::cmp")).collect::<Vec<_>>();
    let pair = |name: &str, a: Table, b: Table, ops: Vec<ops::Op2>| {
        pairs(name, a, b, move |x, y, c| {
            for o in &ops {
                modes(c, &|c, out| {
                    if let (Some((f, b)), Some((g, d))) = (operand(c, x), operand(c, y)) {
                        let r = ops::run2(c, o, A { n: f.num(), b: &b }, A { n: g.num(), b: &d });
                        note(out, &r);
                        put(out, f.bytes());
                        put(out, g.bytes());
                    }
                });
                if c.failed() {
                    let m = format!("{}: {}", o.name, c.failure.take().unwrap());
                    c.fail(m);
                    return;
                }
            }
        })
    };
    let few: Vec<Val> = vals.iter().step_by(cfg.size(1, 2, 1)).cloned().collect();
    v.push(pair("binary operations", table(few.clone()), table(few), bin));
    // operand shapes: every pair of group strings at several distances
    let gs: Vec<Val> = groups(&[0, 1, 5000, 9999], 3, if cfg.var == Variant::Rel { &[-3, -1, 0, 2] } else { &[-1, 1] }, &[0], false).into_iter().step_by(1).map(Val::Fin).collect();
    v.push(pair("arithmetic on digit-group shapes", table(gs.clone()), table(gs), bin2.clone()));
    // long operands: the delayed carries and the quotient correction work on longer arrays
    let lens: Vec<usize> = if thor { (1..=40).chain([63, 64, 65, 100, 200]).collect() } else { vec![1, 2, 3, 4, 5, 6, 8, 12, 20, 21, 22, 30, 40, 65, 100] };
    let lg: Vec<Val> = long(&lens, if thor { &[0, 2, 3, 6, 8] } else { &[0, 2, 8] }, false).into_iter().step_by(cfg.size(1, 2, 1)).map(Val::Fin).collect();
    v.push(pair("arithmetic on long operands", table(lg.clone()), table(lg), bin2));
    // transcendental functions
    let hv: Vec<Val> = ["0", "1", "2", "-1", "0.5", "1.5", "-2.75", "10.000", "99.99", "123456.789", "1e-10", "0.0001", "9999.9999", "1e20", "3.141592653589793238462643383279", "1e-65", "-7", "30"].iter().map(|s| big(s)).chain([Val::NaN]).collect();
    let ht = table(hv);
    let hb: Vec<ops::Op2> = ops::binary().into_iter().filter(|o| o.heavy && o.name.starts_with("Numeric::")).collect();
    v.push(pair("power and logarithm", ht.clone(), ht.clone(), hb));
    let fast = dtable((1..=cfg.size(200, 100, 400)).flat_map(|k| vec![Dec::of(k * 37 + 1, 2), Dec::of(k, 20), Dec::new(false, Big::from_u128(k as u128 * 7 + 1).mul_pow10(30), k as i64)]).collect());
    let hu: Vec<ops::Op1> = ops::unary().into_iter().filter(|o| o.heavy && o.name.starts_with("Numeric::") && o.group != "exp").collect();
    v.push(singles("roots and logarithms", fast, move |x, c| {
        for o in &hu {
            modes(c, &|c, out| {
                if let Some((f, b)) = operand(c, x) {
                    let r = ops::run1(c, o, A { n: f.num(), b: &b });
                    note(out, &r);
                }
            });
        }
    }));
    v.push(space("factorial", cfg.size(60, 30, 300), |i, c| {
        c.desc(|| format!("factorial({})", i * 7));
        modes(c, &|c, out| {
            let r = c.call(|| R::from(NumericBuf::factorial(i as i64 * 7)));
            note(out, &r);
        });
    }));

    // ---- histories of operations on one numeric
    let consts: Vec<Val> = ["1", "-0.5", "9999.9999", "0", "10001", "1e-70", "NaN"].iter().map(|s| big(s)).collect();
    let sv = start_values(&["0", "1", "-9.5", "9999.9999", "12345678.87654321", "1e20", "0e-70", "1e-66", "NaN", "99999.99995", "10000"]);
    let mut extra = start_values(&["9e131071", "1e-16383"]);
    let nines = Dec::new(false, Big::pow10(131072).sub(&Big::one()), 0);
    extra.push(("10^131072-1".into(), Val::Fin(nines)));
    let hist = |name: &str, starts: Vec<(String, Val)>, st: Vec<Step>, consts: &[Val], depth: u32| -> Space {
        let n = st.len() as u64;
        let per = n.pow(depth);
        let tb = table(starts.iter().map(|s| s.1.clone()).collect());
        let names: Vec<String> = starts.iter().map(|s| s.0.clone()).collect();
        let k = Consts::new(consts.to_vec());
        space(name, per * starts.len() as u64, move |i, c| {
            let s0 = &tb[(i / per) as usize];
            let mut code = i % per;
            let mut seq = vec![];
            for _ in 0..depth {
                seq.push((code % n) as usize);
                code /= n;
            }
            seq.reverse();
            c.desc(|| format!("x = {}; {}", names[(i / per) as usize], seq.iter().map(|&j| st[j].name.clone()).collect::<Vec<_>>().join("; ")));
            modes(c, &|c, out| {
                if let Some((_f, mut x)) = operand(c, s0) {
                    for &j in &seq {
                        let f = &st[j].f;
                        let r = c.call(|| f(&mut x, &k));
                        out.push(b'0' + r.is_ok() as u8);
                        if x.as_bytes().len() > 4000 {
                            break;
                        }
                    }
                    let r = c.call(|| put(out, x.as_bytes()));
                    c.check(r.is_ok(), || "cannot be read".into());
                    if out.len() < 3000 {
                        dump(c, out, &x);
                    }
                    let r = c.call(move || drop(x));
                    c.check(r.is_ok(), || "dropping panicked".into());
                }
            });
        })
    };
    let all = steps(&consts, &[0, 1, 2, 3, 4, 5, 6], &[-1000, -8, -5, -4, -1, 0, 1, 3, 4, 5, 8, 64, 70, 1000], &[(1, 0), (4, 2), (1000, 0), (100, 66), (1000, 1000)]);
    let mut sv1 = sv.clone();
    sv1.extend(extra.clone());
    v.push(hist("every single step", sv1, all.clone(), &consts, 1));
    v.push(hist("every pair of steps", sv.clone(), all.clone(), &consts, 2));
    let inp: Vec<Step> = all
        .iter()
        .filter(|s| ["negate_mut", "abs_mut", "x = -x", "x = x.clone()", "round_mut(0)", "round_mut(-1)", "round_mut(3)", "trunc_mut(1)", "trunc_mut(-4)", "apply_typmod(4,2)", "apply_typmod(1,0)", "x /= 0", "x += 9999.9999", "x *= -0.5", "x -= 1e-70", "x = Cow::from(x).into_owned()", "x = x - 1 (consuming)"].contains(&s.name.as_str()))
        .cloned()
        .collect();
    v.push(hist("every sequence of three steps", sv.clone(), inp.clone(), &consts, 3));
    v.push(hist("every sequence of four steps", sv.iter().take(cfg.size(3, 2, 11)).cloned().collect(), inp.clone(), &consts, 4));
    if thor {
        v.push(hist("every sequence of five steps", sv.iter().take(6).cloned().collect(), inp, &consts, 5));
        v.push(hist("every sequence of three steps, all steps", sv.iter().take(6).cloned().collect(), all, &consts, 3));
    }

    // ---- programs moving several numerics about
    v.push(programs(cfg));
    // ---- parsing: the text ends at an inaccessible page
    v.push(parse_space(cfg));
    v.push(bytes_space(cfg));
    // ---- sinks that fail or panic part way
    v.push(sinks(cfg));
    let _ = (observe_into as fn(&Out<R>, &mut Vec<u8>), dec::parse as fn(&str) -> _);
    v
}

struct Vars {
    x: NumericBuf,
    y: NumericBuf,
    bag: Vec<NumericBuf>,
}
type Move = (&'static str, fn(&mut Vars));

fn moves() -> Vec<Move> {
    vec![
        ("swap(x, y)", |v| std::mem::swap(&mut v.x, &mut v.y)),
        ("x = y.clone()", |v| v.x = v.y.clone()),
        ("x.clone_from(y)", |v| { let (x, y) = (&mut v.x, &v.y); x.clone_from(y) }),
        ("x += y", |v| v.x += &v.y),
        ("y = x * y", |v| v.y = &v.x * &v.y),
        ("bag.push(x), x = NaN", |v| v.bag.push(std::mem::replace(&mut v.x, NumericBuf::nan()))),
        ("y = bag.pop()", |v| if let Some(n) = v.bag.pop() { v.y = n }),
        ("bag.sort()", |v| v.bag.sort()),
        ("bag.dedup()", |v| v.bag.dedup()),
        ("bag.extend(bag.clone())", |v| { let b = v.bag.clone(); v.bag.extend(b) }),
        ("bag.retain(positive)", |v| v.bag.retain(|n| n.is_positive())),
        ("bag.clear()", |v| v.bag.clear()),
        ("x.negate_mut()", |v| v.x.negate_mut()),
        ("x.round_mut(-1)", |v| v.x.round_mut(-1)),
        ("x /= 0", |v| v.x /= Numeric::zero()),
        ("y.apply_typmod(3,1)", |v| { v.y.apply_typmod(Typmod::new(3, 1).unwrap()); }),
        ("y = Cow::Borrowed(x).into_owned()", |v| v.y = Cow::from(&v.x).into_owned()),
        ("Cow(x).to_mut().abs_mut()", |v| { let mut c: Cow<Numeric> = Cow::from(v.x.as_numeric()); c.to_mut().abs_mut(); v.x = c.into_owned() }),
        ("Cow::Owned to_mut", |v| { let mut c: Cow<Numeric> = Cow::from(std::mem::replace(&mut v.y, NumericBuf::zero())); c.to_mut().trunc_mut(0); v.y = c.into_owned() }),
        ("x = set[..][0]", |v| {
            let s: BTreeSet<NumericBuf> = v.bag.iter().cloned().chain([v.x.clone(), v.y.clone()]).collect();
            let _ = s.contains(v.x.as_numeric());
            v.x = s.into_iter().next().unwrap()
        }),
        ("map lookup", |v| {
            let mut m: HashMap<NumericBuf, usize> = HashMap::new();
            for (i, n) in v.bag.drain(..).enumerate() {
                m.insert(n, i);
            }
            m.remove(v.x.as_numeric());
            let mut b: Vec<NumericBuf> = m.into_keys().collect();
            b.sort();
            v.bag = b
        }),
        ("x = max(x, y)", |v| { let a = std::mem::replace(&mut v.x, NumericBuf::zero()); v.x = a.max(v.y.clone()) }),
        ("drop elsewhere", |v| {
            // (not on another thread: blocks are counted per thread)
            let b: Box<NumericBuf> = Box::new(std::mem::replace(&mut v.x, NumericBuf::from(7)));
            drop(b)
        }),
        ("i64::try_from(x)", |v| { let a = std::mem::replace(&mut v.x, NumericBuf::from(-3)); if let Ok(i) = i64::try_from(a) { v.y = NumericBuf::from(i) } }),
        ("f64::try_from(y)", |v| { let a = std::mem::replace(&mut v.y, NumericBuf::from(4u8)); if let Ok(f) = f64::try_from(a) { v.x = NumericBuf::try_from(f).unwrap() } }),
        ("panic while bag and a copy of x live", |v| { let _k = v.x.clone(); let _b = v.bag.clone(); let _ = &v.x / Numeric::zero(); }),
        ("x = sum(bag)", |v| { let mut s = NumericBuf::zero(); for n in v.bag.drain(..) { s += n } v.x = s }),
        ("x = json(y)", |v| v.x = serde_json::from_str(&serde_json::to_string(&v.y).unwrap()).unwrap()),
    ]
}

fn programs(cfg: Cfg) -> Space {
    let m = moves();
    let n = m.len() as u64;
    let depth = cfg.size(4, 3, 4);
    let per = n.pow(depth);
    let starts: Vec<(&str, &str)> = vec![("12.5", "-7"), ("0.00010001", "99999999.5")];
    space("programs on several numerics", per * starts.len() as u64, move |i, c| {
        let s = starts[(i / per) as usize];
        let mut code = i % per;
        let mut seq = vec![];
        for _ in 0..depth {
            seq.push((code % n) as usize);
            code /= n;
        }
        seq.reverse();
        c.desc(|| format!("x = {}, y = {}, bag = [x, y, x]; {}", s.0, s.1, seq.iter().map(|&j| m[j].0).collect::<Vec<_>>().join("; ")));
        modes(c, &|c, out| {
            let r = c.call(|| {
                let x: NumericBuf = s.0.parse().unwrap();
                let y: NumericBuf = s.1.parse().unwrap();
                let bag = vec![x.clone(), y.clone(), x.clone()];
                Vars { x, y, bag }
            });
            let mut v = match r {
                Ok(v) => v,
                Err(e) => return c.fail(format!("setup panicked: {}", e)),
            };
            for &j in &seq {
                let f = m[j].1;
                let r = c.call(|| f(&mut v));
                out.push(b'0' + r.is_ok() as u8);
            }
            let r = c.call(|| {
                for n in [&v.x, &v.y].into_iter().chain(v.bag.iter()) {
                    put(out, n.as_bytes());
                }
                drop(v);
            });
            if let Err(e) = r {
                c.fail(format!("reading or dropping panicked: {}", e));
            }
        });
    })
}

/// Text flush against the end (or start) of a block.
fn parse_space(cfg: Cfg) -> Space {
    let al: Vec<&'static str> = vec!["0", "1", "9", ".", "e", "E", "+", "-", " ", "\t", "N", "x", "12345", "00000", "é"];
    let n = al.len() as u64;
    let len = cfg.size(5, 4, 6);
    let total: u64 = (0..=len).map(|l| n.pow(l)).sum();
    let special = ["NaN", " nan ", "1e1000", "1e-1000", "1e131071", "1e131072", "1e-16383", "1e-16384", "9999999999999999999999999999999999", "0.00000000000000000000000000000001", "1e2147483647", "1e99999999999999999999", "-.5e-5", "infinity", "nano", "na", "n"];
    space("parsing at the edge of a block", total + special.len() as u64, move |i, c| {
        let text: String = if i >= total {
            special[(i - total) as usize].into()
        } else {
            let mut i = i;
            let mut l = 0;
            while i >= n.pow(l) {
                i -= n.pow(l);
                l += 1;
            }
            (0..l)
                .map(|_| {
                    let s = al[(i % n) as usize];
                    i /= n;
                    s
                })
                .collect()
        };
        c.desc(|| format!("{:?}", text));
        modes(c, &|c, out| {
            let b: Box<[u8]> = text.as_bytes().into();
            let t = unsafe { std::str::from_utf8_unchecked(&b) };
            let r = c.call(|| match t.parse::<NumericBuf>() {
                Ok(n) => put(out, n.as_bytes()),
                Err(e) => {
                    let _ = write!(Wr(out), "{} {:?}", e, e);
                }
            });
            if let Err(e) = r {
                c.fail(format!("panicked: {}", e));
            }
        });
    })
}

/// Deserialization of every truncation and every single-byte corruption of encodings, in a block of exactly that size.
fn bytes_space(cfg: Cfg) -> Space {
    let vals: Vec<Vec<u8>> = ["0", "1", "-12345.678", "NaN", "1e-70", "1e300", "9999999999999999", "0e-100"].iter().map(|s| dec::encode(&big(s)).unwrap()).collect();
    let mut inputs: Vec<(Vec<u8>, bool)> = vec![];
    let flips: Vec<u8> = if cfg.thorough() { (1..=255).collect() } else { vec![1, 2, 4, 8, 16, 32, 64, 128, 0x24, 0xC0, 0xFF] };
    for b in &vals {
        for l in 0..=b.len() {
            inputs.push((b[..l].to_vec(), false));
            inputs.push((b[..l].to_vec(), true));
        }
        for i in 0..b.len() {
            for f in &flips {
                let mut t = b.clone();
                t[i] ^= f;
                inputs.push((t, i % 2 == 0));
            }
        }
        let mut t = b.clone();
        t.extend([0, 1, 2]);
        inputs.push((t, false));
    }
    struct Direct<'a>(&'a [u8]);
    impl<'de> serde::Deserializer<'de> for Direct<'_> {
        type Error = serde::de::value::Error;
        fn deserialize_any<V: serde::de::Visitor<'de>>(self, v: V) -> Result<V::Value, Self::Error> {
            v.visit_bytes(self.0)
        }
        fn is_human_readable(&self) -> bool {
            false
        }
        serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
    }
    space("deserializing arbitrary bytes", inputs.len() as u64, move |i, c| {
        let (b, odd) = &inputs[i as usize];
        c.desc(|| format!("bytes {:02x?}{}", b, if *odd { " at an odd address" } else { "" }));
        modes(c, &|c, out| {
            let mut s = Vec::with_capacity(b.len() + *odd as usize);
            if *odd {
                s.push(0);
            }
            s.extend_from_slice(b);
            let t = &s[*odd as usize..];
            let r = c.call(|| {
                use serde::Deserialize;
                match NumericBuf::deserialize(Direct(t)) {
                    Ok(n) => {
                        put(out, n.as_bytes());
                        let _ = write!(Wr(out), "{} {}", n, n.inc());
                    }
                    Err(e) => {
                        let _ = write!(Wr(out), "{}", e);
                    }
                }
            });
            if let Err(e) = r {
                let _ = write!(Wr(out), "panic {}", e);
            }
        });
    })
}

/// Writers, hashers and serializers that fail or panic after a number of calls or bytes.
fn sinks(cfg: Cfg) -> Space {
    struct W {
        left: usize,
        panic: bool,
        n: usize,
    }
    impl W {
        fn take(&mut self, n: usize) -> bool {
            if n > self.left {
                if self.panic {
                    panic!("sink panics");
                }
                return false;
            }
            self.left -= n;
            self.n += n;
            true
        }
    }
    impl std::fmt::Write for W {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            if self.take(s.len()) {
                Ok(())
            } else {
                Err(std::fmt::Error)
            }
        }
    }
    impl std::io::Write for W {
        fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
            if self.take(b.len()) {
                Ok(b.len())
            } else {
                Err(std::io::Error::from(std::io::ErrorKind::Other))
            }
        }
        fn flush(&mut self) -> std::io::Result<()> {
            Ok(())
        }
    }
    impl Hasher for W {
        fn finish(&self) -> u64 {
            self.n as u64
        }
        fn write(&mut self, b: &[u8]) {
            self.take(b.len());
        }
    }
    type Sink = (&'static str, fn(&NumericBuf, &mut W) -> bool);
    let kinds: Vec<Sink> = vec![
        ("{}", |x, w| write!(w, "{}", x).is_ok()),
        ("{} of Numeric", |x, w| write!(w, "{}", x.as_numeric()).is_ok()),
        ("{:e}", |x, w| write!(w, "{:e}", x).is_ok()),
        ("{:E} of Numeric", |x, w| write!(w, "{:E}", x.as_numeric()).is_ok()),
        ("{:?}", |x, w| write!(w, "{:?}", x).is_ok()),
        ("{:#?} of Numeric", |x, w| write!(w, "{:#?}", x.as_numeric()).is_ok()),
        ("{:>12}", |x, w| write!(w, "{:>12}", x).is_ok()),
        ("{:+010.2}", |x, w| write!(w, "{:+010.2}", x).is_ok()),
        ("{:<30e}", |x, w| write!(w, "{:<30e}", x).is_ok()),
        ("hash", |x, w| { x.hash(w); true }),
        ("hash of Numeric", |x, w| { x.as_numeric().hash(w); true }),
        ("json", |x, w| serde_json::to_writer(w, x).is_ok()),
        ("json of Numeric", |x, w| serde_json::to_writer(w, x.as_numeric()).is_ok()),
        ("bincode", |x, w| bincode::serialize_into(w, x).is_ok()),
        ("bincode of Numeric", |x, w| bincode::serialize_into(w, x.as_numeric()).is_ok()),
    ];
    let vals = table(["0", "NaN", "-12345.678", "0.00010001", "1e20", "99999999999999999999.5e-30", "1e300", "0e-70"].iter().map(|s| big(s)).collect());
    let nb: u64 = cfg.size(40, 40, 340);
    let nk = kinds.len() as u64;
    space("sinks that fail part way", vals.len() as u64 * nk * nb * 2, move |i, c| {
        let x = &vals[(i / (nk * nb * 2)) as usize];
        let (kn, kf) = &kinds[(i / (nb * 2) % nk) as usize];
        let left = (i / 2 % nb) as usize;
        let panic = i % 2 == 1;
        c.desc(|| format!("{} of {} into a sink that {} after {} bytes", kn, x.show(), if panic { "panics" } else { "fails" }, left));
        modes(c, &|c, out| {
            if let Some((_f, b)) = operand(c, x) {
                let mut w = W { left, panic, n: 0 };
                let r = c.call(|| kf(&b, &mut w));
                let _ = write!(Wr(out), "{:?} {}", r.is_ok(), w.n);
                if let Ok(ok) = r {
                    out.push(ok as u8);
                }
                put(out, b.as_bytes());
            }
        });
    })
}

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn signal(sig: i32, h: usize) -> usize;
    fn close(fd: i32) -> i32;
}

/// The k-th allocation of an operation fails, for every k: the process must end in the allocation error
/// handler (or carry on), never in an access through the null pointer.
fn oom(cfg: Cfg) -> Space {
    struct Job {
        name: String,
        f: Box<dyn Fn() + Send + Sync>,
    }
    let mut jobs: Vec<Job> = vec![];
    let pick = |s: &str| Arc::new(Opnd::new(big(s)));
    let xs = [pick("-12345.678901"), pick("99999999.99995")];
    let y = pick("3.25");
    for x in xs.iter().take(cfg.size(2, 1, 2)) {
        for o in ops::unary() {
            let (x, f) = (x.clone(), o.f);
            let neg = matches!(&x.val, Val::Fin(d) if d.neg);
            if o.heavy && neg && o.group != "exp" {
                continue;
            }
            jobs.push(Job { name: format!("{} on {}", o.name, x.show()), f: Box::new(move || drop(f(A::of(&x)))) });
        }
        for o in ops::binary() {
            let (x, y, f) = (x.clone(), y.clone(), o.f);
            let neg = matches!(&x.val, Val::Fin(d) if d.neg);
            if o.heavy && neg {
                continue;
            }
            jobs.push(Job { name: format!("{} on {}, {}", o.name, x.show(), y.show()), f: Box::new(move || drop(f(A::of(&x), A::of(&y)))) });
        }
        for o in ops::param() {
            for p in [-1, 0, 2, 5 << 16 | 2] {
                let (x, f) = (x.clone(), o.f);
                jobs.push(Job { name: format!("{} on {}, {}", o.name, x.show(), p), f: Box::new(move || drop(f(A::of(&x), p))) });
            }
        }
    }
    jobs.push(Job { name: "parse".into(), f: Box::new(|| drop("-12345.678e3".parse::<NumericBuf>())) });
    jobs.push(Job { name: "from u128".into(), f: Box::new(|| drop(NumericBuf::from(u128::MAX))) });
    jobs.push(Job { name: "from f64".into(), f: Box::new(|| drop(NumericBuf::try_from(1.5e300f64))) });
    jobs.push(Job { name: "factorial".into(), f: Box::new(|| drop(NumericBuf::factorial(12))) });
    jobs.push(Job { name: "nan, zero".into(), f: Box::new(|| drop((NumericBuf::nan(), NumericBuf::zero()))) });
    let ks: u64 = cfg.size(12, 6, 60);
    let n = jobs.len() as u64;
    let mut sp = space("failed allocations", n * ks, move |i, c| {
        let (j, k) = (&jobs[(i / ks) as usize], i % ks);
        c.desc(|| format!("{}, allocation number {} fails", j.name, k + 1));
        let was = c.call(|| ());
        let _ = was;
        c.transitions += 1;
        let st = unsafe {
            let pid = fork();
            if pid == 0 {
                for s in [4, 6, 7, 8, 11] {
                    signal(s, 0);
                }
                close(2);
                std::panic::set_hook(Box::new(|_| {}));
                alloc::fail_after(k as i64);
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (j.f)()));
                alloc::fail_after(-1);
                _exit(if r.is_ok() { 0 } else { 9 })
            }
            let mut st = 0;
            waitpid(pid, &mut st, 0);
            st
        };
        let sig = st & 0x7f;
        c.seen(&[sig as u8, (st >> 8) as u8, (i / ks) as u8]);
        // 6: the allocation error handler aborts
        c.check(sig == 0 || sig == 6, || format!("killed by signal {}", sig));
    });
    sp.case_limit = 60;
    sp
}
