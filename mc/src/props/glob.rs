//! C19 NaN, C20 limits, C21 spellings, C26 failed operations, C27 histories.
use super::arith::*;
use super::*;
use crate::big::Big;
use crate::dec::{self, Dec, Val};
use crate::model::{self, Exp};
use crate::ops::{self, observe, observe_into, show, A, R};
use pgnumeric::{Numeric, NumericBuf, Typmod};
use std::collections::{hash_map::Entry, HashMap, HashSet};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex};


fn tm(p: i64, s: i64) -> i64 {
    p << 16 | s
}

/// Compare one observation with the model.
fn judge(c: &mut Ctx, what: &str, got: &Out<R>, exp: &Exp) {
    let mut o = std::mem::take(&mut c.scratch);
    observe_into(got, &mut o);
    if !exp.matches(&o) {
        let p = match got {
            Err(p) => format!(" (panicked: {})", p),
            _ => String::new(),
        };
        let m = format!("{}: got {}{}, expected {}", what, show(&o), p, exp.show());
        c.fail(m);
    } else {
        c.seen(&o);
    }
    c.scratch = o;
}

// ---------------------------------------------------------------- C19

/// NaN numerics by every way of making one.
fn nan_sources() -> Vec<(&'static str, NumericBuf)> {
    let one: NumericBuf = NumericBuf::from(1);
    let nan = NumericBuf::nan();
    let mut m = NumericBuf::nan();
    m.round_mut(3);
    m.negate_mut();
    let mut s: NumericBuf = "123456789.987654321".parse().unwrap();
    s += &nan;
    vec![
        ("NumericBuf::nan()", NumericBuf::nan()),
        ("Numeric::nan().to_owned()", Numeric::nan().to_owned()),
        ("parsed NaN", "NaN".parse().unwrap()),
        ("parsed ' nAn '", " nAn ".parse().unwrap()),
        ("from f64 NaN", std::convert::TryFrom::try_from(f64::NAN).unwrap()),
        ("from f32 -NaN", std::convert::TryFrom::try_from(-f32::NAN).unwrap()),
        ("1 + NaN", one + &nan),
        ("rounded and negated NaN", m),
        ("sum assigned NaN", s),
        ("sqrt(NaN)", nan.sqrt()),
        ("clone", nan.clone()),
        ("from json", serde_json::from_str("\"NaN\"").unwrap()),
        ("from bincode", bincode::deserialize(&bincode::serialize(&nan).unwrap()).unwrap()),
    ]
}

fn nan_unary(o: &ops::Op1, a: A, c: &mut Ctx) {
    let r = ops::run1(c, o, a);
    let e = model::m1(o.group, &Val::NaN);
    if o.group.starts_with("to ") && !o.group.starts_with("to f") {
        let v = observe(&r);
        c.check(v.first() == Some(&b'T') && v.get(1) == Some(&b'E'), || format!("{}: {} instead of an error", o.name, show(&v)));
    } else if o.group == "hash" {
        c.eq(o.name, observe(&r), observe(&Ok(R::T(ops::hash_stream(Numeric::nan())))));
    } else {
        judge(c, o.name, &r, &e);
    }
}

fn nan_case_strings() -> Vec<String> {
    (0..8).map(|m| "nan".chars().enumerate().map(|(i, ch)| if m >> i & 1 == 1 { ch.to_ascii_uppercase() } else { ch }).collect()).collect()
}

pub fn c19(cfg: Cfg) -> Vec<Space> {
    let mut v = vec![];
    let src = Arc::new(nan_sources());
    let un = ops::unary();
    let (s1, nu) = (src.clone(), un.len() as u64);
    v.push(space("NaN sources x unary operations", src.len() as u64 * nu, move |i, c| {
        let (name, b) = &s1[(i / nu) as usize];
        let o = &un[(i % nu) as usize];
        c.desc(|| format!("{} of {}", o.name, name));
        nan_unary(o, A::buf(b), c);
        let e = dec::encode(&Val::NaN).unwrap();
        c.eq("bytes of the NaN afterwards", b.as_bytes(), &e[..]);
        let st = Numeric::nan();
        let z: NumericBuf = st.to_owned();
        nan_unary(o, A { n: st, b: &z }, c);
    }));
    // static constants and text in every case
    let texts = nan_case_strings();
    v.push(space("constructors", texts.len() as u64, move |i, c| {
        let t = &texts[i as usize];
        c.desc(|| t.clone());
        let r = c.call(|| t.parse::<NumericBuf>().ok());
        match &r {
            Ok(Some(n)) => c.bytes_are("parse", n.as_bytes(), &Val::NaN),
            _ => c.fail("not parsed"),
        }
        c.bytes_are("Numeric::nan()", Numeric::nan().as_bytes(), &Val::NaN);
        c.bytes_are("NumericBuf::nan()", NumericBuf::nan().as_bytes(), &Val::NaN);
        let r = c.call(|| serde_json::from_str::<NumericBuf>(&format!("\"{}\"", t)).ok());
        match &r {
            Ok(Some(n)) => c.bytes_are("json", n.as_bytes(), &Val::NaN),
            _ => c.fail("not deserialized"),
        }
    }));
    // every binary operation, NaN on either or both sides
    let mut others: Vec<Val> = vec![Val::NaN];
    others.extend(small(&[0, 1, 4, 20], true).into_iter().map(Val::Fin));
    others.extend(header_boundary(true).into_iter().map(Val::Fin));
    others.extend(extremes(true).into_iter().map(Val::Fin));
    if cfg.thorough() {
        others.extend(groups(&D8, 3, &[-2, -1, 0, 1, 2, 3], &[0], true).into_iter().map(Val::Fin));
        others.extend(long(&[4, 8, 17, 33, 64, 130], &[0, 1, 2, 3, 4, 5], true).into_iter().map(Val::Fin));
    }
    let others = table(others);
    let nans: Vec<Val> = vec![Val::NaN];
    let nans = table(nans);
    let bin = ops::binary();
    let nb = bin.len() as u64;
    v.push(space("binary operations x other operand", others.len() as u64 * nb, move |i, c| {
        let y = &others[(i / nb) as usize];
        let o = &bin[(i % nb) as usize];
        let n = &nans[0];
        c.desc(|| format!("{}: NaN with {}", o.name, y.show()));
        for (p, q, vp, vq) in [(A::of(n), A::of(y), &n.val, &y.val), (A::of(y), A::of(n), &y.val, &n.val)] {
            let r = ops::run2(c, o, p, q);
            judge(c, o.name, &r, &model::m2(o.group, vp, vq));
        }
        // both operands the same NaN object
        let r = ops::run2(c, o, A::of(n), A::of(n));
        judge(c, o.name, &r, &model::m2(o.group, &Val::NaN, &Val::NaN));
        let st = A { n: Numeric::nan(), b: &n.buf };
        let r = ops::run2(c, o, st, A::of(y));
        judge(c, o.name, &r, &model::m2(o.group, &Val::NaN, &y.val));
        c.check(y.intact() && n.intact(), || "operand changed".into());
    }));
    // NaN made in every way as left and right operand
    let bin: Vec<ops::Op2> = ops::binary();
    let (s2, nb) = (src.clone(), bin.len() as u64);
    let part = table(vec![Val::NaN, Val::Fin(Dec::zero(0)), Val::Fin(Dec::zero(70)), Val::Fin(Dec::int(1)), Val::Fin(Dec::of(-15, 1)), Val::Fin(Dec::of(1, 100))]);
    v.push(space("NaN sources x binary operations", src.len() as u64 * nb, move |i, c| {
        let (name, b) = &s2[(i / nb) as usize];
        let o = &bin[(i % nb) as usize];
        c.desc(|| format!("{}: {}", o.name, name));
        for y in part.iter() {
            let r = ops::run2(c, o, A::buf(b), A::of(y));
            judge(c, o.name, &r, &model::m2(o.group, &Val::NaN, &y.val));
            let r = ops::run2(c, o, A::of(y), A::buf(b));
            judge(c, o.name, &r, &model::m2(o.group, &y.val, &Val::NaN));
        }
    }));
    // parameters
    let mut ps: Vec<i64> = (-1002..=1002).collect();
    ps.extend([i32::MIN as i64, i32::MAX as i64, -16384, 16384, -131072, 131072]);
    let par: Vec<ops::OpP> = ops::param().into_iter().filter(|o| o.group != "typmod").collect();
    let (s3, np) = (src.clone(), ps.len() as u64);
    v.push(space("NaN sources x round and trunc", src.len() as u64 * np, move |i, c| {
        let (name, b) = &s3[(i / np) as usize];
        let p = ps[(i % np) as usize];
        c.desc(|| format!("scale {} of {}", p, name));
        for o in &par {
            let r = ops::runp(c, o, A::buf(b), p);
            judge(c, o.name, &r, &Exp::nan());
        }
    }));
    let s4 = src;
    let step = if cfg.thorough() { 1 } else { 7 };
    v.push(space("NaN sources x typmods", s4.len() as u64 * 1000, move |i, c| {
        let (name, b) = &s4[(i / 1000) as usize];
        let p = (i % 1000) as i32 + 1;
        c.desc(|| format!("precision {} of {}", p, name));
        for s in (0..=p).filter(|s| *s == p || s % step == 0) {
            let mut x = b.clone();
            let r = c.call(|| x.apply_typmod(Typmod::new(p, s).unwrap()));
            match r {
                Ok(o) => c.check(!o, || format!("scale {}: reports overflow", s)),
                Err(e) => c.fail(format!("scale {}: panicked: {}", s, e)),
            }
            c.bytes_are("value", x.as_bytes(), &Val::NaN);
        }
        let mut x = b.clone();
        let r = c.call(|| x.apply_typmod(Typmod::default()));
        c.check(matches!(r, Ok(false)), || "default typmod reports overflow".into());
        c.bytes_are("value", x.as_bytes(), &Val::NaN);
    }));
    // every float NaN pattern of f32's payload bits, both signs; f64: the same payloads at both ends of the mantissa
    let n = cfg.size(1 << 16, 1 << 12, 1u64 << 23);
    v.push(space("float NaN payloads", n, move |i, c| {
        if i == 0 {
            return;
        }
        c.desc(|| format!("payload {:#x}", i));
        let pay = if n == 1 << 23 { i as u32 } else { (i as u32) << 7 | (i as u32 & 0x7F) };
        for sign in [0u32, 1 << 31] {
            let f = f32::from_bits(sign | 0x7F80_0000 | (pay & 0x7F_FFFF));
            if f.is_nan() {
                let r = c.call(|| NumericBuf::try_from(f).ok());
                match &r {
                    Ok(Some(b)) => c.bytes_are("from f32", b.as_bytes(), &Val::NaN),
                    _ => c.fail("f32 NaN rejected"),
                }
            }
            for m in [(pay as u64) << 29, pay as u64] {
                let f = f64::from_bits((sign as u64) << 32 | 0x7FF0_0000_0000_0000 | m & 0xF_FFFF_FFFF_FFFF);
                if f.is_nan() {
                    let r = c.call(|| NumericBuf::try_from(f).ok());
                    match &r {
                        Ok(Some(b)) => c.bytes_are("from f64", b.as_bytes(), &Val::NaN),
                        _ => c.fail("f64 NaN rejected"),
                    }
                }
            }
        }
    }));
    v
}

// ---------------------------------------------------------------- C20

fn nines(n: usize) -> Big {
    Big::pow10(n).sub(&Big::one())
}

/// Values whose integer part is at the limit of the format.
fn tops() -> Vec<Dec> {
    let mut v = vec![];
    let full = nines(131072);
    for (m, s) in [
        (full.clone(), 0),
        (full.sub(&Big::one()), 0),
        (full.mul_pow10(1).add(&Big::from_u128(4)), 1),
        (full.mul_pow10(1).add(&Big::from_u128(5)), 1),
        (full.mul_pow10(3).add(&Big::from_u128(499)), 3),
        (full.mul_pow10(4).add(&Big::from_u128(9999)), 4),
        (Big::pow10(131071), 0),
        (Big::pow10(131071), 1),
        (Big::pow10(131071).mul_small(5), 0),
        (Big::pow10(131071).mul_small(9), 0),
        (Big::pow10(131068), 0),
        (Big::pow10(131068).mul_small(9999), 0),
        (Big::pow10(131067), 0),
        (nines(131068), 0),
        (full.mul_pow10(2).add(&Big::from_u128(50)), 2),
    ] {
        let d = Dec::new(false, m, s);
        v.push(d.negated());
        v.push(d);
    }
    v
}

/// Values whose display scale is at the limit of the format.
fn bottoms() -> Vec<Dec> {
    let mut v = vec![];
    for s in [16383i64, 16382, 16380, 16379, 8192, 8191] {
        for c in [0i128, 1, 5, 9999, 10001, 99999999] {
            v.push(Dec::of(c, s));
            if c != 0 {
                v.push(Dec::of(-c, s));
            }
        }
    }
    v
}

fn spell2(name: &str, groups: &[&str], a: Table, b: Table) -> Space {
    let ops: Vec<ops::Op2> = ops::binary().into_iter().filter(|o| groups.contains(&o.group)).collect();
    pairs(name, a, b, move |x, y, c| {
        let mut last: Option<(&str, Exp)> = None;
        for o in &ops {
            if last.as_ref().map(|l| l.0) != Some(o.group) {
                last = Some((o.group, model::m2(o.group, &x.val, &y.val)));
            }
            let r = ops::run2(c, o, A::of(x), A::of(y));
            judge(c, o.name, &r, &last.as_ref().unwrap().1);
        }
    })
}

pub fn c20(cfg: Cfg) -> Vec<Space> {
    let thor = cfg.thorough();
    let mut v = vec![];
    let t = tops();
    let b = bottoms();
    let mut few = vec![
        Dec::zero(0), Dec::int(1), Dec::int(-1), Dec::of(4, 1), Dec::of(5, 1), Dec::of(-5, 1), Dec::of(49, 2), Dec::of(1, 4), Dec::of(1, 5), Dec::of(9999, 4), Dec::int(9999), Dec::int(10000),
        Dec::int(10), Dec::int(-10), Dec::of(1, 1), Dec::of(1, 1000), Dec::of(1, 16383), Dec::of(0, 16383), Dec::zero(16382), Dec::of(1, 64), Dec::int(2), Dec::of(15, 1), Dec::of(10001, 4),
    ];
    for k in [4, 8, 100, 65536, 65535, 65537, 131067, 131071] {
        few.push(Dec::new(false, Big::pow10(k), 0));
        few.push(Dec::new(true, Big::pow10(k), 0));
    }
    let tb = dtable(t.clone());
    let fw = dtable(few.clone());
    let bt = dtable(b.clone());
    v.push(spell2("sums at the top", &["add", "sub"], tb.clone(), tb.clone()));
    v.push(spell2("sums top and others", &["add", "sub"], tb.clone(), fw.clone()));
    v.push(spell2("sums others and top", &["add", "sub"], fw.clone(), tb.clone()));
    v.push(spell2("sums of scales", &["add", "sub"], bt.clone(), bt.clone()));
    // products around 10^131072 and around scale 16383
    let mut l = vec![];
    let mut r = vec![];
    let n = if thor { 12 } else { 5 };
    for i in 0..=n {
        for m in [1u128, 9999, 5000, 2, 3, 99999999] {
            l.push(Dec::new(i % 2 == 1, Big::pow10(65530 + i).mul_small(m as u32), 0));
            r.push(Dec::new(false, Big::pow10(65530 + n - i).mul_small(m as u32), (i % 3) as i64));
        }
    }
    v.push(spell2("products around the weight limit", &["mul"], dtable(l.clone()), dtable(r)));
    v.push(spell2("top times others", &["mul"], tb.clone(), fw.clone()));
    v.push(spell2("others times top", &["mul"], fw.clone(), tb.clone()));
    let mut l = vec![];
    for s in [0i64, 1, 63, 64, 8190, 8191, 8192, 8193, 16382, 16383] {
        for cf in [0i128, 1, -5, 9999, 12345678, 100000000] {
            l.push(Dec::of(cf, s));
        }
    }
    let sc = dtable(l);
    v.push(spell2("products around the scale limit", &["mul"], sc.clone(), sc.clone()));
    v.push(spell2("products of scales", &["mul"], bt.clone(), if thor { bt.clone() } else { dtable(b.iter().step_by(5).cloned().collect()) }));
    // quotients: divisors far below one
    let mut divs = vec![Dec::zero(0), Dec::zero(5), Dec::zero(16383), Dec::int(1), Dec::int(-1), Dec::int(2), Dec::int(3), Dec::int(7), Dec::int(10), Dec::int(9999), Dec::int(10001)];
    for s in [1i64, 2, 3, 4, 5, 7, 8, 9, 100, 1000, 1001, 16383] {
        divs.push(Dec::of(1, s));
        divs.push(Dec::of(-9999, s));
        if thor {
            divs.push(Dec::of(2, s));
            divs.push(Dec::of(99999, s));
        }
    }
    let dv = dtable(divs);
    let tsh = dtable(t.iter().filter(|d| d.groups().0.len() < 10).cloned().collect());
    let lng = dtable(t.iter().filter(|d| d.groups().0.len() >= 10 && (thor || !d.neg)).cloned().collect());
    v.push(spell2("quotients at the limits", &["div", "div_trunc", "rem"], tsh.clone(), dv.clone()));
    let mut sp = spell2("quotients of long values at the limits", &["div", "div_trunc", "rem"], lng.clone(), if thor { dv.clone() } else { dtable(dv.iter().step_by(2).map(|o| o.d().clone()).collect()) });
    sp.case_limit = 200;
    v.push(sp);
    v.push(spell2("quotients of small values", &["div", "div_trunc", "rem"], dtable(few.iter().filter(|d| d.groups().0.len() < 10).cloned().collect()), dv));
    v.push(spell2("quotients of scales", &["div", "div_trunc", "rem"], bt.clone(), dtable(b.iter().step_by(if thor { 2 } else { 7 }).cloned().collect())));
    // unary
    let un: Vec<ops::Op1> = ops::unary()
        .into_iter()
        .filter(|o| !o.heavy && (["neg", "abs", "inc", "ceil", "floor", "signum", "copy", "text round trip", "json round trip", "bincode round trip"].contains(&o.group) || o.group.starts_with("to ")))
        .collect();
    let mut all = t.clone();
    all.extend(b.clone());
    all.extend(few.clone());
    all.extend(extremes(true));
    let un2 = un.clone();
    v.push(singles("unary operations", dtable(all.clone()), move |x, c| {
        for o in &un2 {
            let r = ops::run1(c, o, A::of(x));
            let e = model::m1(o.group, &x.val);
            if o.group.starts_with("to ") {
                int_judge(c, o, &r, &e);
            } else {
                judge(c, o.name, &r, &e);
            }
        }
    }));
    // integer limits: MIN-1.5 .. MIN+1, MAX-1 .. MAX+1.5 of every type in steps of 0.1, and far outside
    let mut lim = vec![];
    for bits in [7u32, 8, 15, 16, 31, 32, 63, 64, 127, 128] {
        let p = Dec::new(false, Big::from_u128(2).pow(bits), 0);
        for d in -25..=25i128 {
            for off in [0i128, 10] {
                let x = p.add(&Dec::of(d - off, 1));
                lim.push(x.negated());
                lim.push(x);
            }
        }
        for k in [1, 4, 5, 20, 100, 16383] {
            let x = p.sub(&Dec::of(5, 1)).sub(&Dec::of(1, k));
            lim.push(x.negated());
            lim.push(x);
            let x = p.add(&Dec::int(0)).add(&Dec::of(0, k));
            lim.push(x.negated());
            lim.push(x);
        }
    }
    let un3: Vec<ops::Op1> = un.iter().filter(|o| o.group.starts_with("to ")).cloned().collect();
    v.push(singles("integer conversion limits", dtable(lim), move |x, c| {
        for o in &un3 {
            let r = ops::run1(c, o, A::of(x));
            int_judge(c, o, &r, &model::m1(o.group, &x.val));
        }
    }));
    // rounding
    let ps: Vec<i64> = [-131073, -131072, -1001, -1000, -999, -5, -4, -3, -1, 0, 1, 2, 3, 4, 5, 16, 999, 1000, 1001, 16383, 16384, i32::MAX as i64, i32::MIN as i64].to_vec();
    let par: Vec<ops::OpP> = ops::param().into_iter().filter(|o| o.group != "typmod").collect();
    v.push(with_param("rounding", dtable(all.clone()), ps, move |x, p, c| {
        for o in &par {
            let r = ops::runp(c, o, A::of(x), p);
            judge(c, o.name, &r, &model::mp(o.group, &x.val, p));
        }
    }));
    // type modifiers
    let mut tms = vec![];
    for p in [1i64, 2, 3, 4, 5, 8, 9, 999, 1000] {
        for s in [0, 1, 3, 4, 5, 999, 1000] {
            if s <= p {
                tms.push(tm(p, s));
            }
        }
    }
    let mut tv = all.clone();
    for n in [1usize, 2, 3, 4, 5, 8, 9, 996, 999, 1000, 1001] {
        for (m, s) in [(nines(n), 0i64), (nines(n).mul_pow10(1).add(&Big::from_u128(5)), 1), (nines(n + 1), 1), (nines(n + 4).sub(&Big::from_u128(5000)), 4), (Big::pow10(n), 0), (nines(n + 1000), 1000)] {
            let d = Dec::new(false, m, s);
            tv.push(d.negated());
            tv.push(d);
        }
    }
    v.push(with_param("type modifiers", dtable(tv), tms, move |x, p, c| {
        for o in ops::groupp("typmod") {
            let r = ops::runp(c, &o, A::of(x), p);
            judge(c, o.name, &r, &model::mp(o.group, &x.val, p));
        }
    }));
    // literals at the limits
    let mut lits: Vec<String> = vec![];
    for m in ["1", "9", "9.9999", "99999", "0.1", "0.00001", "0", "10", "0.0", "-1", "12345.6789", "5e0"] {
        for e in [131066i64, 131067, 131068, 131069, 131070, 131071, 131072, 131073, 131075, 131076, 131077, -16376, -16377, -16378, -16379, -16380, -16381, -16382, -16383, -16384, -16385, 32767, 32768, 65536, 100000, 200000, -200000, 2147483647, -2147483648, 2147483648, -2147483649, 99999999999] {
            if !m.contains('e') {
                lits.push(format!("{}e{}", m, e));
            }
        }
    }
    for n in [131068usize, 131071, 131072, 131073, 131076] {
        lits.push("9".repeat(n));
        lits.push(format!("-{}.5", "1".repeat(n)));
        lits.push(format!("{}{}", "0".repeat(n), "1"));
        lits.push(format!("1{}", "0".repeat(n)));
    }
    for n in [16380usize, 16382, 16383, 16384, 16385] {
        lits.push(format!("0.{}", "0".repeat(n)));
        lits.push(format!(".{}1", "0".repeat(n - 1)));
        lits.push(format!("7.{}", "9".repeat(n)));
    }
    v.push(space("literals", lits.len() as u64, move |i, c| {
        let t = &lits[i as usize];
        c.desc(|| format!("{} [{} chars]", &t[..t.len().min(60)], t.len()));
        super::text::check_parse(t, c);
        let e = match dec::parse(t) {
            Ok(v) => Exp::N(v),
            Err(_) => Exp::Fail,
        };
        let big_exp = super::text::huge_exponent(t);
        if !big_exp {
            let r = c.call(|| R::from(serde_json::from_str::<NumericBuf>(&format!("\"{}\"", t)).ok()));
            judge(c, "json", &r, &e);
        }
    }));
    // powers of ten around the limits (exact), factorial
    let mut ps = vec![];
    for e in [131060i128, 131070, 131071, 131072, 131073, 131076, 140000, 1000000, i32::MAX as i128] {
        ps.push((Dec::int(10), Dec::int(e), if e <= 131071 { Some(e) } else { None }));
        ps.push((Dec::int(-10), Dec::int(e), if e <= 131071 { Some(e) } else { None }));
        ps.push((Dec::int(100), Dec::int(e / 2), if 2 * (e / 2) <= 131071 { Some(2 * (e / 2)) } else { None }));
        ps.push((Dec::int(10000), Dec::int(e / 4), if 4 * (e / 4) <= 131071 { Some(4 * (e / 4)) } else { None }));
        ps.push((Dec::of(1, 1), Dec::int(-e), if e <= 131071 { Some(e) } else { None }));
    }
    let pw = ops::group2("pow");
    v.push(space("powers of ten", ps.len() as u64, move |i, c| {
        let (x, y, e) = &ps[i as usize];
        let (a, b) = (Opnd::new(Val::Fin(x.clone())), Opnd::new(Val::Fin(y.clone())));
        c.desc(|| format!("{} ^ {}", a.show(), b.show()));
        for o in &pw {
            let r = ops::run2(c, o, A::of(&a), A::of(&b));
            match (e, &r) {
                (None, Ok(R::No)) => {}
                (None, r) => c.fail(format!("{}: {} instead of None", o.name, show(&observe(r)))),
                (Some(e), Ok(R::N(n))) => {
                    let neg = x.neg && y.is_integral() && y.trunc(0).mag.is_odd();
                    let want = Dec::new(neg, Big::pow10(*e as usize), 0);
                    if let Some(v) = c.decode(o.name, n) {
                        c.check(matches!(&v, Val::Fin(d) if d.cmp(&want) == std::cmp::Ordering::Equal), || format!("{}: {}", o.name, v.show()));
                    }
                }
                (Some(_), r) => c.fail(format!("{}: {} instead of a value", o.name, show(&observe(r)))),
            }
        }
    }));
    // exp and transcendental results that do not fit
    let xs: Vec<(&'static str, bool)> = vec![("5999.99", true), ("6000", false), ("5999", true), ("6001", false), ("1e10", false), ("1e131071", false), ("-5999", true), ("6000.0001", false)];
    v.push(space("exp limit", xs.len() as u64, move |i, c| {
        let (t, ok) = xs[i as usize];
        c.desc(|| t.to_string());
        let x: NumericBuf = t.parse().unwrap();
        let r = c.call(|| x.exp());
        match &r {
            Ok(o) => {
                if let Some(n) = o {
                    c.decode("exp", n);
                }
                c.check(o.is_some() == ok, || format!("exp gives a value: {}", o.is_some()));
            }
            Err(p) => c.fail(format!("exp panicked: {}", p)),
        }
    }));
    let mut fs: Vec<i64> = vec![32178, 32179, 40000, 65536, 1 << 31, 1 << 32, i64::MAX, i64::MIN, -1, 0, 1, 2];
    fs.extend((1..63).map(|k| (1i64 << k) + 32178));
    v.push(space("factorials", fs.len() as u64, move |i, c| {
        let n = fs[i as usize];
        c.desc(|| format!("{}!", n));
        let r = c.call(|| R::from(NumericBuf::factorial(n)));
        judge(c, "factorial", &r, &if n > 32177 { Exp::Fail } else { Exp::num(Dec::int(n.max(1) as i128)) });
    }));
    // float conversions of values too large for the type
    v.push(singles("float conversions", dtable(all), move |x, c| {
        let big = |m: &Dec| x.d().cmp_abs(m) == std::cmp::Ordering::Greater;
        let f = c.call(|| f32::try_from(x.num()));
        match f {
            Ok(f) => c.check(f.is_err() || !big(&Dec::new(false, Big::pow10(39), 0)), || format!("f32 of a value over 10^39: {:?}", f.map_err(|_| ()))),
            Err(p) => c.fail(format!("f32: panicked: {}", p)),
        }
        let f = c.call(|| f64::try_from(x.num()));
        match f {
            Ok(f) => {
                c.check(!big(&Dec::new(false, Big::pow10(309), 0)) || matches!(&f, Err(_)) || matches!(&f, Ok(v) if v.is_infinite() && v.is_sign_negative() == x.d().neg), || {
                    "f64 of a value over 10^309 is finite".to_string()
                })
            }
            Err(p) => c.fail(format!("f64: panicked: {}", p)),
        }
    }));
    v
}

fn int_judge(c: &mut Ctx, o: &ops::Op1, r: &Out<R>, e: &Exp) {
    match e {
        Exp::Any if o.group.starts_with("to f") => {}
        Exp::Any => {
            let v = observe(r);
            c.check(v.first() == Some(&b'T') && v.get(1) == Some(&b'E'), || format!("{}: {} instead of an error", o.name, show(&v)));
        }
        e => judge(c, o.name, r, e),
    }
}

// ---------------------------------------------------------------- C21

fn by_group<T: Clone>(v: Vec<T>, g: fn(&T) -> &'static str) -> Vec<Vec<T>> {
    let mut m: Vec<Vec<T>> = vec![];
    for o in v {
        match m.iter_mut().find(|l| g(&l[0]) == g(&o)) {
            Some(l) => l.push(o),
            None => m.push(vec![o]),
        }
    }
    m
}

fn same(c: &mut Ctx, first: &str, f: &[u8], name: &str, got: &[u8]) {
    c.check(f == got, || format!("{} gives {}, but {} gives {}", first, show(f), name, show(got)));
}

pub fn c21(cfg: Cfg) -> Vec<Space> {
    let mut v = vec![];
    let mut base: Vec<Val> = vec![Val::NaN];
    base.extend(small(cfg.size(&[0, 2, 4, 5][..], &[0, 3][..], &[0, 1, 2, 3, 4, 5, 8][..]), true).into_iter().map(Val::Fin));
    base.extend(groups(&D5, 2, &[-1, 0, 1], &[0, 5], false).into_iter().map(Val::Fin));
    let hb = header_boundary(true);
    base.extend(hb.into_iter().step_by(cfg.size(3, 9, 1)).map(Val::Fin));
    base.extend(extremes(true).into_iter().filter(|d| d.groups().0.len() < 9).step_by(cfg.size(9, 29, 4)).map(Val::Fin));
    let base = table(base);
    let bin = by_group(ops::binary().into_iter().filter(|o| !o.heavy).collect(), |o| o.group);
    v.push(pairs("binary spellings", base.clone(), base.clone(), move |x, y, c| {
        let mut f = vec![];
        let mut g = vec![];
        for l in &bin {
            let r = ops::run2(c, &l[0], A::of(x), A::of(y));
            observe_into(&r, &mut f);
            c.seen(&f);
            for o in &l[1..] {
                let r = ops::run2(c, o, A::of(x), A::of(y));
                observe_into(&r, &mut g);
                same(c, l[0].name, &f, o.name, &g);
            }
        }
        c.check(y.intact(), || format!("operand b changed: {}", y.show()));
    }));
    // the same numeric as both operands: same object, borrowed view of the same memory, and separate copies
    let mut alias: Vec<Val> = base.iter().map(|o| o.val.clone()).collect();
    alias.extend(groups(&D5, 3, &[-2, -1, 0, 1, 2], &[0], true).into_iter().map(Val::Fin));
    alias.extend(long(&[4, 8, 17, 22, 64], &[0, 1, 2, 3, 5], true).into_iter().map(Val::Fin));
    let alias = table(alias);
    let bin = by_group(ops::binary().into_iter().filter(|o| !o.heavy).collect(), |o| o.group);
    v.push(singles("both operands the same numeric", alias, move |x, c| {
        let other = Opnd::new(x.val.clone());
        let own = &other.buf;
        for l in &bin {
            let r = ops::run2(c, &l[0], A::of(x), A::of(&other));
            let f = observe(&r);
            c.seen(&f);
            for o in l {
                for (p, q, how) in [(A::of(x), A::of(x), "same operand"), (A::buf(own), A::buf(own), "same owned numeric"), (A { n: own, b: own }, A { n: x.num(), b: own }, "mixed")] {
                    let r = ops::run2(c, o, p, q);
                    let g = observe(&r);
                    c.check(f == g, || format!("{} with {}: {}, with separate copies: {}", o.name, how, show(&g), show(&f)));
                }
            }
        }
        // x op= x.clone() and x op= &x's bytes
        for k in 0..5 {
            let f = observe(&assign(c, k, x.buf.clone(), x.num()));
            let copy = x.buf.clone();
            let view: &Numeric = &copy;
            let g = observe(&assign(c, k, x.buf.clone(), view));
            c.check(f == g, || format!("compound assignment {}: {} / {}", ASSIGN[k], show(&f), show(&g)));
        }
        c.check(other.intact(), || "operand changed".into());
    }));
    // unary and parameter spellings
    let mut us: Vec<Val> = vec![Val::NaN];
    us.extend(small(&[0, 1, 2, 3, 4, 5, 8, 17], true).into_iter().map(Val::Fin));
    us.extend(groups(&D8, 3, &[-2, -1, 0, 1, 2, 3], &[0, 5], true).into_iter().map(Val::Fin));
    us.extend(header_boundary(true).into_iter().map(Val::Fin));
    us.extend(long(&[4, 8, 17, 33, 64], &[0, 1, 2, 3, 5], true).into_iter().map(Val::Fin));
    us.extend(extremes(true).into_iter().filter(|d| d.groups().0.len() < 9).map(Val::Fin));
    let us = table(us);
    let un = by_group(ops::unary().into_iter().filter(|o| !o.heavy).collect(), |o| o.group);
    v.push(singles("unary spellings", us.clone(), move |x, c| {
        for l in &un {
            let f = observe(&ops::run1(c, &l[0], A::of(x)));
            c.seen(&f);
            for o in l {
                let g = observe(&ops::run1(c, o, A::of(x)));
                same(c, l[0].name, &f, o.name, &g);
                let g = observe(&ops::run1(c, o, A::buf(&x.buf)));
                same(c, l[0].name, &f, o.name, &g);
            }
        }
    }));
    let ps: Vec<i64> = cfg.size(vec![-1001, -1000, -9, -5, -4, -1, 0, 1, 2, 3, 4, 5, 8, 63, 64, 1000, 1001], vec![-5, -1, 0, 2, 4, 64], (-12..=12).chain([62, 63, 64, 65, 1000, 1001, 16383, -1000, -1001, i32::MAX as i64, i32::MIN as i64]).collect());
    let par = by_group(ops::param().into_iter().filter(|o| o.group != "typmod").collect(), |o| o.group);
    v.push(with_param("rounding spellings", us, ps, move |x, p, c| {
        for l in &par {
            let f = observe(&ops::runp(c, &l[0], A::of(x), p));
            c.seen(&f);
            for o in l {
                let g = observe(&ops::runp(c, o, A::of(x), p));
                same(c, l[0].name, &f, o.name, &g);
                let g = observe(&ops::runp(c, o, A::buf(&x.buf), p));
                same(c, l[0].name, &f, o.name, &g);
            }
        }
    }));
    // failing alike: limits
    let t = tops();
    let tb = dtable(t.into_iter().step_by(2).collect());
    let fw = dtable(vec![Dec::zero(0), Dec::int(1), Dec::int(-1), Dec::of(5, 1), Dec::int(10), Dec::of(1, 1), Dec::of(1, 16383), Dec::zero(16383)]);
    let bin = by_group(ops::binary().into_iter().filter(|o| !o.heavy).collect(), |o| o.group);
    let run = move |x: &Opnd, y: &Opnd, c: &mut Ctx| {
        for l in &bin {
            let f = observe(&ops::run2(c, &l[0], A::of(x), A::of(y)));
            c.seen(&f);
            for o in &l[1..] {
                let g = observe(&ops::run2(c, o, A::of(x), A::of(y)));
                same(c, l[0].name, &f, o.name, &g);
            }
        }
    };
    let run = Arc::new(run);
    let r2 = run.clone();
    v.push(pairs("limits x others", tb.clone(), fw.clone(), move |x, y, c| run(x, y, c)));
    v.push(pairs("others x limits", fw, tb, move |x, y, c| r2(x, y, c)));
    // transcendental spellings
    let tr: Vec<Val> = vec![Val::NaN]
        .into_iter()
        .chain(small(&[0, 1, 3, 20], true).into_iter().step_by(cfg.size(4, 11, 1)).map(Val::Fin))
        .chain([Dec::int(0), Dec::int(1), Dec::int(-1), Dec::int(2), Dec::int(3), Dec::of(5, 1), Dec::of(-5, 1), Dec::of(25, 1), Dec::int(10), Dec::of(1, 100), Dec::int(7000)].into_iter().map(Val::Fin))
        .collect();
    let tr = table(tr);
    let un = by_group(ops::unary().into_iter().filter(|o| o.heavy).collect(), |o| o.group);
    v.push(singles("transcendental spellings", tr.clone(), move |x, c| {
        for l in &un {
            let f = observe(&ops::run1(c, &l[0], A::of(x)));
            c.seen(&f);
            for o in l {
                let g = observe(&ops::run1(c, o, A::of(x)));
                same(c, l[0].name, &f, o.name, &g);
            }
        }
    }));
    let bin = by_group(ops::binary().into_iter().filter(|o| o.heavy).collect(), |o| o.group);
    let few: Vec<Val> = tr.iter().step_by(2).map(|o| o.val.clone()).filter(|v| !matches!(v, Val::Fin(d) if d.groups().1 > 3)).collect();
    let few = table(few);
    let es = table(["0", "1", "-1", "2", "0.5", "-1.5", "3.25", "100", "-7", "NaN", "1e-20", "10.000"].iter().map(|s| dec::parse(s).unwrap()).collect());
    v.push(pairs("power and logarithm spellings", few, es, move |x, y, c| {
        for l in &bin {
            let f = observe(&ops::run2(c, &l[0], A::of(x), A::of(y)));
            c.seen(&f);
            for o in &l[1..] {
                let g = observe(&ops::run2(c, o, A::of(x), A::of(y)));
                same(c, l[0].name, &f, o.name, &g);
            }
        }
    }));
    v
}

const ASSIGN: [&str; 5] = ["+=", "-=", "*=", "/=", "%="];
const GROUP: [&str; 5] = ["add", "sub", "mul", "div", "rem"];
fn assign(c: &mut Ctx, k: usize, mut x: NumericBuf, y: &Numeric) -> Out<R> {
    c.call(move || {
        match k {
            0 => x += y,
            1 => x -= y,
            2 => x *= y,
            3 => x /= y,
            _ => x %= y,
        }
        R::N(x)
    })
}

// ---------------------------------------------------------------- state machine shared by C26, C27 and C22

/// An operation on a numeric held in a variable.
#[derive(Clone)]
pub struct Step {
    pub name: String,
    pub f: Arc<dyn Fn(&mut NumericBuf, &Consts) + Send + Sync>,
    /// value of the variable afterwards, from its value before; Err: the operation fails and leaves this value
    pub m: Arc<dyn Fn(&Val) -> Result<Val, Val> + Send + Sync>,
}

/// Operands used by the steps.
pub struct Consts {
    pub v: Vec<Opnd>,
}

impl Consts {
    pub fn new(v: Vec<Val>) -> Consts {
        Consts { v: v.into_iter().map(Opnd::new).collect() }
    }
}

fn st(name: impl Into<String>, f: impl Fn(&mut NumericBuf, &Consts) + Send + Sync + 'static, m: impl Fn(&Val) -> Result<Val, Val> + Send + Sync + 'static) -> Step {
    Step { name: name.into(), f: Arc::new(f), m: Arc::new(m) }
}

fn res(e: Exp, old: &Val) -> Result<Val, Val> {
    match e {
        Exp::N(v) => Ok(v),
        Exp::Fail => Err(old.clone()),
        _ => panic!("model: no value"),
    }
}

/// Take the value out, leaving zero: what a failing consuming operation leaves behind is that zero.
fn take(x: &mut NumericBuf) -> NumericBuf {
    std::mem::replace(x, NumericBuf::zero())
}

fn taken(e: Exp) -> Result<Val, Val> {
    res(e, &Val::Fin(Dec::zero(0)))
}

/// In-place, compound and consuming operations. `cs`: indices of constants to combine with.
pub fn steps(consts: &[Val], cs: &[usize], rounds: &[i32], tms: &[(i32, i32)]) -> Vec<Step> {
    let mut v = vec![];
    v.push(st("negate_mut", |x, _| x.negate_mut(), |v| Ok(res(model::m1("neg", v), v)?)));
    v.push(st("abs_mut", |x, _| x.abs_mut(), |v| res(model::m1("abs", v), v)));
    for &k in rounds {
        v.push(st(format!("round_mut({})", k), move |x, _| x.round_mut(k), move |v| res(model::mp("round", v, k as i64), v)));
        v.push(st(format!("trunc_mut({})", k), move |x, _| x.trunc_mut(k), move |v| res(model::mp("trunc", v, k as i64), v)));
    }
    for &(p, s) in tms {
        v.push(st(
            format!("apply_typmod({},{})", p, s),
            move |x, _| {
                if x.apply_typmod(Typmod::new(p, s).unwrap()) {
                    panic!("overflow")
                }
            },
            move |v| {
                let (o, r) = super::ord::apply_expect(v, p as i64, s as i64);
                if o {
                    Err(r)
                } else {
                    Ok(r)
                }
            },
        ));
    }
    for &i in cs {
        let cv = consts[i].clone();
        let cn = cv.show();
        for k in 0..5 {
            let (c1, c2, c3) = (cv.clone(), cv.clone(), cv.clone());
            v.push(st(
                format!("x {} {}", ASSIGN[k], cn),
                move |x, c| {
                    let y = c.v[i].num();
                    match k {
                        0 => *x += y,
                        1 => *x -= y,
                        2 => *x *= y,
                        3 => *x /= y,
                        _ => *x %= y,
                    }
                },
                move |v| res(model::m2(GROUP[k], v, &c1), v),
            ));
            if k < 3 {
                v.push(st(
                    format!("x = x {} {} (consuming)", &ASSIGN[k][..1], cn),
                    move |x, c| {
                        let y = c.v[i].num();
                        let t = take(x);
                        *x = match k {
                            0 => t + y,
                            1 => t - y,
                            _ => t * y,
                        }
                    },
                    move |v| taken(model::m2(GROUP[k], v, &c2)),
                ));
            }
            if k == 1 || k == 3 {
                v.push(st(
                    format!("x = {} {} x", cn, &ASSIGN[k][..1]),
                    move |x, c| {
                        let t = take(x);
                        *x = if k == 1 { &c.v[i].buf - t } else { &c.v[i].buf / t }
                    },
                    move |v| taken(model::m2(GROUP[k], &c3, v)),
                ));
            }
        }
    }
    v.push(st("x = -x", |x, _| *x = -take(x), |v| taken(model::m1("neg", v))));
    v.push(st("x = x.inc()", |x, _| *x = x.inc(), |v| res(model::m1("inc", v), v)));
    v.push(st("x = x.ceil()", |x, _| *x = x.ceil(), |v| res(model::m1("ceil", v), v)));
    v.push(st("x = x.floor()", |x, _| *x = x.floor(), |v| res(model::m1("floor", v), v)));
    v.push(st("x = x.signum()", |x, _| *x = x.signum(), |v| res(model::m1("signum", v), v)));
    v.push(st("x += x.clone()", |x, _| { let y = x.clone(); *x += y }, |v| res(model::m2("add", v, v), v)));
    v.push(st("x *= x.clone()", |x, _| { let y = x.clone(); *x *= y }, |v| res(model::m2("mul", v, v), v)));
    v.push(st("x -= &x.clone()", |x, _| { let y = x.clone(); *x -= &y }, |v| res(model::m2("sub", v, v), v)));
    v.push(st("x = x.clone()", |x, _| *x = x.clone(), |v| Ok(v.clone())));
    v.push(st("x = Cow::from(x).into_owned()", |x, _| *x = std::borrow::Cow::<Numeric>::from(take(x)).into_owned(), |v| Ok(v.clone())));
    v.push(st("x = parse(x.to_string())", |x, _| *x = x.to_string().parse().unwrap(), |v| Ok(v.clone())));
    v
}

fn layout(x: &NumericBuf) -> Vec<u8> {
    let d = format!("{:?}", x);
    let t = d.rfind("len:").map(|i| &d[i..]).unwrap_or("");
    t.as_bytes().to_vec()
}

pub fn start_values(which: &[&str]) -> Vec<(String, Val)> {
    which.iter().map(|s| (s.to_string(), dec::parse(s).unwrap())).collect()
}

// ---------------------------------------------------------------- C26

/// Is it still a readable numeric with the value the model says?
fn alive(c: &mut Ctx, what: &str, x: &NumericBuf, v: &Val) {
    let e = dec::encode(v).unwrap();
    let r = c.call(|| x.as_bytes().to_vec());
    match r {
        Ok(b) => {
            if b != e {
                let m = match dec::decode(&b) {
                    Ok(g) => format!("{} (scale {:?})", g.show(), if let Val::Fin(d) = &g { d.scale } else { 0 }),
                    Err(err) => format!("invalid: {}", err),
                };
                c.fail(format!("{}: holds {}, expected {}", what, m, v.show()));
                return;
            }
            c.seen(&b);
        }
        Err(p) => c.fail(format!("{}: cannot be read: {}", what, p)),
    }
    if c.failed() {
        return;
    }
    let r = c.call(|| (x.to_string(), x.clone(), x.is_nan(), x.normalize().len(), x.cmp(x), ops::hash_stream(x) == ops::hash_stream(x.as_numeric())));
    match r {
        Ok((t, cl, _, _, o, h)) => c.check(cl.as_bytes() == &e[..] && o == std::cmp::Ordering::Equal && h && (t.len() > 2000 || t == v.text()), || format!("{}: reads inconsistently", what)),
        Err(p) => c.fail(format!("{}: using it panicked: {}", what, p)),
    }
}

/// One step in lockstep with the model.
fn step_check(c: &mut Ctx, s: &Step, x: &mut NumericBuf, v: &Val, k: &Consts) -> Val {
    let f = &s.f;
    let r = c.call(|| f(x, k));
    match ((s.m)(v), r) {
        (Ok(n), Ok(())) => n,
        (Err(n), Err(_)) => n,
        (Ok(n), Err(p)) => {
            c.fail(format!("{} on {}: failed ({}), expected {}", s.name, v.show(), p, n.show()));
            n
        }
        (Err(n), Ok(())) => {
            c.fail(format!("{} on {}: succeeded, expected a failure", s.name, v.show()));
            n
        }
    }
}

pub fn big(s: &str) -> Val {
    dec::parse(s).unwrap()
}

pub fn c26(cfg: Cfg) -> Vec<Space> {
    let mut v = vec![];
    let thor = cfg.thorough();
    // histories: every sequence of steps from every start value, checked after every step
    let consts: Vec<Val> = vec![
        Val::Fin(Dec::zero(0)),
        Val::Fin(Dec::int(1)),
        Val::Fin(Dec::new(false, Big::pow10(131071).mul_small(9), 0)),
        Val::Fin(Dec::of(1, 16383)),
        Val::NaN,
        Val::Fin(Dec::of(-12345, 3)),
    ];
    let starts = start_values(&["0", "1", "-0.5", "99999.99995", "9e131071", "-9.5e131068", "1e-16383", "0e-16383", "NaN", "9999999999999999.5", "1e130000", "0.00001"]);
    let mut starts2 = starts.clone();
    let top = Dec::new(false, nines(131072).mul_pow10(1).add(&Big::from_u128(5)), 1);
    starts2.push(("top.5".into(), Val::Fin(top.clone())));
    starts2.push(("-top.5".into(), Val::Fin(top.negated())));
    let mk = |cs: &[usize], r: &[i32], t: &[(i32, i32)]| steps(&consts, cs, r, t);
    let run = |name: &str, starts: Vec<(String, Val)>, st: Vec<Step>, consts: Vec<Val>, depth: u32| -> Space {
        let n = st.len() as u64;
        let per = n.pow(depth);
        let tb = table(starts.iter().map(|s| s.1.clone()).collect());
        let names: Vec<String> = starts.iter().map(|s| s.0.clone()).collect();
        let k = Consts::new(consts);
        space(name, per * starts.len() as u64, move |i, c| {
            let s0 = &tb[(i / per) as usize];
            let mut code = i % per;
            let mut seq = vec![];
            for _ in 0..depth {
                seq.push((code % n) as usize);
                code /= n;
            }
            seq.reverse();
            c.desc(|| format!("x = {}; {}", names[(i / per) as usize], seq.iter().map(|&j| st[j].name.clone()).collect::<Vec<_>>().join("; ")));
            let mut x = s0.buf.clone();
            let mut val = s0.val.clone();
            for (d, &j) in seq.iter().enumerate() {
                if too_big(&val, &st[j]) {
                    return;
                }
                val = step_check(c, &st[j], &mut x, &val, &k);
                if c.failed() {
                    return;
                }
                // earlier steps were checked by the sequences that end there
                if d + 1 == seq.len() {
                    alive(c, "x", &x, &val);
                    let one = NumericBuf::from(1);
                    let r = c.call(|| R::from(x.checked_add(&one)));
                    judge(c, "x + 1 afterwards", &r, &model::m2("add", &val, &Val::Fin(Dec::int(1))));
                    let r = c.call(move || drop(x));
                    c.check(r.is_ok(), || "dropping x panicked".into());
                    return;
                }
            }
        })
    };
    let st_all = mk(&[0, 1, 2, 3, 4, 5], &[-1000, -4, -1, 0, 1, 4, 1000], &[(1, 0), (3, 2), (1000, 1000), (1000, 0), (5, 3)]);
    v.push(run("every single step", starts2.clone(), st_all.clone(), consts.clone(), 1));
    let st_mid = mk(&[0, 2, 3], &[-1000, 0, 1000], &[(1, 0), (1000, 1000)]);
    let mid_starts: Vec<(String, Val)> = if thor { starts.clone() } else { starts.iter().filter(|s| ["-0.5", "9e131071", "1e-16383", "NaN", "99999.99995", "1e130000"].contains(&s.0.as_str())).cloned().collect() };
    v.push(run("every pair of steps", mid_starts, if thor { st_all } else { st_mid.clone() }, consts.clone(), 2));
    let st_few: Vec<Step> = st_mid
        .iter()
        .filter(|s| {
            ["negate_mut", "round_mut(0)", "trunc_mut(0)", "round_mut(-1000)", "apply_typmod(1,0)", "x = -x", "x *= x.clone()", "x = x.inc()", "x = x.clone()"].contains(&s.name.as_str())
                || (thor && s.name.starts_with("x ") && s.name.len() < 12)
                || ["x /= 0", "x += 9", "x *= 9", "x -= 0", "x %= 0"].iter().any(|p| s.name.starts_with(p))
        })
        .cloned()
        .collect();
    v.push(run("every sequence of three steps", starts.iter().filter(|s| ["-0.5", "9e131071", "99999.99995", "NaN"].contains(&s.0.as_str())).cloned().collect(), st_few, consts.clone(), 3));

    // failing compound assignments with every kind of right operand, on every layout of the target
    let tv: Vec<Dec> = tops().into_iter().chain(bottoms().into_iter().step_by(3)).chain([Dec::zero(0), Dec::int(5), Dec::of(-15, 1), Dec::of(1, 70)]).collect();
    let rv = dtable(vec![Dec::zero(0), Dec::zero(7), Dec::zero(16383), Dec::int(1), Dec::int(-1), Dec::of(5, 1), Dec::int(10), Dec::int(-10), Dec::of(1, 16383), Dec::of(1, 1), Dec::new(false, Big::pow10(131071).mul_small(9), 0), Dec::new(true, nines(131072), 0)]);
    v.push(pairs("compound assignment, target keeps its value", dtable(tv.clone()), rv, move |a, b, c| {
        for k in 0..5 {
            if k >= 3 && a.d().groups().0.len() > 100 && (b.d().groups().0.len() > 100 || b.d().scale > 100) {
                continue;
            }
            let e = model::m2(GROUP[k], &a.val, &b.val);
            let after = match &e {
                Exp::N(v) => v.clone(),
                _ => a.val.clone(),
            };
            for kind in 0..3 {
                let mut x = a.buf.clone();
                let y = b.buf.clone();
                let yr = &b.buf;
                let r = c.call(|| {
                    let x = &mut x;
                    match (k, kind) {
                        (0, 0) => *x += b.num(),
                        (0, 1) => *x += yr,
                        (0, _) => *x += y,
                        (1, 0) => *x -= b.num(),
                        (1, 1) => *x -= yr,
                        (1, _) => *x -= y,
                        (2, 0) => *x *= b.num(),
                        (2, 1) => *x *= yr,
                        (2, _) => *x *= y,
                        (3, 0) => *x /= b.num(),
                        (3, 1) => *x /= yr,
                        (3, _) => *x /= y,
                        (_, 0) => *x %= b.num(),
                        (_, 1) => *x %= yr,
                        (_, _) => *x %= y,
                    }
                });
                c.check(r.is_ok() == matches!(e, Exp::N(_)), || format!("{} (kind {}): succeeded: {}, expected {}", ASSIGN[k], kind, r.is_ok(), e.show()));
                if c.failed() {
                    return;
                }
                alive(c, &format!("target of {} (kind {})", ASSIGN[k], kind), &x, &after);
            }
        }
        c.check(b.intact(), || "right operand changed".into());
    }));
    // every failing operation of the registry, both operands borrowed or owned: they stay valid and equal
    let bin: Vec<ops::Op2> = ops::binary().into_iter().filter(|o| !["order", "equality", "max", "min"].contains(&o.group)).collect();
    let ft = dtable(vec![Dec::zero(0), Dec::zero(16383), Dec::int(1), Dec::int(-2), Dec::of(-15, 1), Dec::of(1, 16383), Dec::new(false, Big::pow10(131071).mul_small(9), 0), Dec::new(true, Big::pow10(131071).mul_small(9), 0), Dec::new(false, nines(131072), 0)]);
    let mut sp = pairs("operands of failing binary operations", ft.clone(), ft.clone(), move |a, b, c| {
        for o in &bin {
            let bigs = [a, b].iter().any(|o| o.d().groups().0.len() > 100);
            if bigs && (o.heavy || ["div", "rem", "div_trunc", "mul"].contains(&o.group)) && !(b.d().is_zero() || b.d().groups().0.len() == 1) {
                continue;
            }
            if o.heavy && (a.d().scale > 1000 || b.d().scale > 1000) {
                continue;
            }
            // long successful evaluations are not the subject here
            let vast = |d: &Dec| d.weight() > 1000 && !d.neg;
            if o.group == "log" && (vast(a.d()) || vast(b.d())) {
                continue;
            }
            let (x, y) = (a.buf.clone(), b.buf.clone());
            let r = ops::run2(c, o, A { n: a.num(), b: &x }, A { n: b.num(), b: &y });
            if !o.heavy {
                judge(c, o.name, &r, &model::m2(o.group, &a.val, &b.val));
            }
            alive(c, &format!("left operand of {}", o.name), &x, &a.val);
            alive(c, &format!("right operand of {}", o.name), &y, &b.val);
            if c.failed() {
                return;
            }
        }
        c.check(a.intact() && b.intact(), || "borrowed operand changed".into());
    });
    sp.case_limit = 300;
    v.push(sp);
    let mut uv: Vec<Dec> = tops();
    uv.extend([Dec::zero(0), Dec::zero(5), Dec::int(-1), Dec::of(-15, 1), Dec::int(7000), Dec::of(-1, 16383)]);
    let un: Vec<ops::Op1> = ops::unary();
    v.push(singles("operands of failing unary operations", dtable(uv.clone()), move |a, c| {
        for o in &un {
            // domain and limit failures come at once; long successful evaluations are not the subject here
            if o.heavy && !(a.d().neg || a.d().is_zero() || o.group == "exp") {
                continue;
            }
            let x = a.buf.clone();
            let r = ops::run1(c, o, A { n: a.num(), b: &x });
            if ["ln", "log2", "log10"].contains(&o.group) || (o.group == "sqrt" && a.d().neg) {
                c.check(r.is_err(), || format!("{}: no panic", o.name));
            }
            alive(c, &format!("operand of {}", o.name), &x, &a.val);
            if c.failed() {
                return;
            }
        }
        c.check(a.intact(), || "borrowed operand changed".into());
    }));
    // in-place rounding and typmods that fail, after each way of changing the target's buffer layout
    let pre: Vec<(&'static str, fn(&mut NumericBuf))> = vec![
        ("fresh", |_| {}),
        ("negated twice", |x| {
            x.negate_mut();
            x.negate_mut()
        }),
        ("truncated", |x| x.trunc_mut(1)),
        ("rounded", |x| {
            let _ = quiet(|| x.round_mut(0));
        }),
        ("failed division", |x| {
            let z = NumericBuf::zero();
            let _ = quiet(|| *x /= &z);
        }),
    ];
    let np = pre.len() as u64;
    let kt = dtable(tops());
    let acts: Vec<(String, i32, i32, i32)> = [-1000, -4, -1, 0, 1, 3, 1000]
        .iter()
        .flat_map(|&k| vec![(format!("round_mut({})", k), 0, k, 0), (format!("trunc_mut({})", k), 1, k, 0)])
        .chain([(1, 0), (1000, 0), (1000, 1000), (5, 2)].iter().map(|&(p, s)| (format!("apply_typmod({},{})", p, s), 2, p, s)))
        .collect();
    let na = acts.len() as u64;
    v.push(space("failing in-place operations", kt.len() as u64 * np * na, move |i, c| {
        let a = &kt[(i / (np * na)) as usize];
        let (pn, pf) = &pre[(i / na % np) as usize];
        let (an, kind, p, s) = &acts[(i % na) as usize];
        c.desc(|| format!("x = {}, {}; {}", a.show(), pn, an));
        let mut x = a.buf.clone();
        let pr = c.call(|| pf(&mut x));
        c.check(pr.is_ok(), || "setup panicked".into());
        let start = match c.decode("x", &x) {
            Some(v) => v,
            None => return,
        };
        let r = c.call(|| match kind {
            0 => {
                x.round_mut(*p);
                false
            }
            1 => {
                x.trunc_mut(*p);
                false
            }
            _ => x.apply_typmod(Typmod::new(*p, *s).unwrap()),
        });
        let (fails, after) = match kind {
            0 | 1 => match model::mp(if *kind == 0 { "round" } else { "trunc" }, &start, *p as i64) {
                Exp::N(v) => (false, v),
                _ => (true, start.clone()),
            },
            _ => super::ord::apply_expect(&start, *p as i64, *s as i64),
        };
        match (&r, kind) {
            (Ok(o), 2) => c.check(*o == fails, || format!("reports {}", o)),
            (Ok(_), _) => c.check(!fails, || "no panic".into()),
            (Err(e), _) => c.check(fails && *kind != 2, || format!("panicked: {}", e)),
        }
        if !c.failed() {
            alive(c, "x", &x, &after);
        }
    }));
    v
}

/// Steps that would build products of several long values are left to the single-step space.
fn too_big(v: &Val, s: &Step) -> bool {
    match v {
        Val::Fin(d) => d.mag.ndigits() > 20000 && (s.name.contains('*') && !s.name.contains("* 0") || s.name.contains('/') || s.name.contains('%')) && d.groups().0.len() > 2000,
        Val::NaN => false,
    }
}

// ---------------------------------------------------------------- C27

struct Node {
    start: usize,
    hist: Vec<u16>,
}

/// Operations that consume the operand itself (so that its own buffer is what they see).
type Consume = (&'static str, &'static str, fn(NumericBuf, A) -> R);
fn consumers() -> Vec<Consume> {
    fn t(v: Result<impl std::fmt::Display, impl std::fmt::Debug>) -> R {
        R::T(match v {
            Ok(v) => format!("{}", v).into_bytes(),
            Err(e) => format!("E{:?}", e).into_bytes(),
        })
    }
    vec![
        ("x + y", "add", |x, y| (x + y.n).into()),
        ("x - y", "sub", |x, y| (x - y.b).into()),
        ("x * y", "mul", |x, y| (x * y.n).into()),
        ("x / y", "div", |x, y| (x / y.b.clone()).into()),
        ("x % y", "rem", |x, y| (x % y.n).into()),
        ("y + x", "add", |x, y| (y.n + x).into()),
        ("y - x", "sub", |x, y| (y.b - x).into()),
        ("y * x", "mul", |x, y| (y.b.clone() * x).into()),
        ("y / x", "div", |x, y| (y.n / x).into()),
        ("y % x", "rem", |x, y| (y.b.clone() % x).into()),
        ("x += y", "", |mut x, y| { x += y.n; x.into() }),
        ("x -= y", "", |mut x, y| { x -= y.b; x.into() }),
        ("x *= y", "", |mut x, y| { x *= y.b.clone(); x.into() }),
        ("x /= y", "", |mut x, y| { x /= y.n; x.into() }),
        ("x %= y", "", |mut x, y| { x %= y.n; x.into() }),
        ("y += x", "", |x, y| { let mut z = y.b.clone(); z += x; z.into() }),
        ("-x", "neg", |x, _| (-x).into()),
        ("max(x, y)", "", |x, y| x.max(y.b.clone()).into()),
        ("min(y, x)", "", |x, y| y.b.clone().min(x).into()),
        ("i8::try_from(x)", "", |x, _| t(i8::try_from(x))),
        ("i64::try_from(x)", "", |x, _| t(i64::try_from(x))),
        ("u16::try_from(x)", "", |x, _| t(u16::try_from(x))),
        ("i128::try_from(x)", "", |x, _| t(i128::try_from(x))),
        ("f64::try_from(x)", "", |x, _| t(f64::try_from(x).map(|f| f.to_bits()))),
        ("f32::try_from(x)", "", |x, _| t(f32::try_from(x).map(|f| f.to_bits()))),
        ("Cow::from(x).into_owned()", "copy", |x, _| std::borrow::Cow::<Numeric>::from(x).into_owned().into()),
        ("Cow::from(x).to_string()", "", |x, _| R::T(std::borrow::Cow::<Numeric>::from(x).to_string().into_bytes())),
        ("negate_mut", "neg", |mut x, _| { x.negate_mut(); x.into() }),
        ("abs_mut", "abs", |mut x, _| { x.abs_mut(); x.into() }),
        ("round_mut(0)", "", |mut x, _| { x.round_mut(0); x.into() }),
        ("round_mut(2)", "", |mut x, _| { x.round_mut(2); x.into() }),
        ("round_mut(-3)", "", |mut x, _| { x.round_mut(-3); x.into() }),
        ("round_mut(70)", "", |mut x, _| { x.round_mut(70); x.into() }),
        ("trunc_mut(0)", "", |mut x, _| { x.trunc_mut(0); x.into() }),
        ("trunc_mut(1)", "", |mut x, _| { x.trunc_mut(1); x.into() }),
        ("trunc_mut(-2)", "", |mut x, _| { x.trunc_mut(-2); x.into() }),
        ("trunc_mut(100)", "", |mut x, _| { x.trunc_mut(100); x.into() }),
        ("apply_typmod(5,2)", "", |mut x, _| { let r = x.apply_typmod(Typmod::new(5, 2).unwrap()); R::T([&[r as u8], x.as_bytes()].concat()) }),
        ("apply_typmod(1000,0)", "", |mut x, _| { let r = x.apply_typmod(Typmod::new(1000, 0).unwrap()); R::T([&[r as u8], x.as_bytes()].concat()) }),
        ("apply_typmod(100,90)", "", |mut x, _| { let r = x.apply_typmod(Typmod::new(100, 90).unwrap()); R::T([&[r as u8], x.as_bytes()].concat()) }),
    ]
}

pub struct Probe {
    un: Vec<ops::Op1>,
    heavy: Vec<ops::Op1>,
    heavy2: Vec<ops::Op2>,
    bin: Vec<ops::Op2>,
    par: Vec<ops::OpP>,
    con: Vec<Consume>,
    others: Vec<Opnd>,
}

impl Probe {
    fn new(others: Vec<Val>, all_spellings: bool) -> Probe {
        // reading operations see the operand itself; the spellings that clone it first are left out
        let reads = |n: &str| n.starts_with("Numeric") || n.starts_with("&Numeric") || n.contains("of Numeric") || n.contains("of &Numeric") || n.contains("(&Numeric") || n.contains("round trip") || ["to_owned", "clone", "deref", "borrow", "as_ref", "-&Numeric", "-&NumericBuf"].contains(&n);
        Probe {
            un: ops::unary().into_iter().filter(|o| !o.heavy && (all_spellings || reads(o.name))).collect(),
            heavy2: ops::binary().into_iter().filter(|o| o.heavy && o.name.starts_with("Numeric::")).collect(),
            heavy: ops::unary().into_iter().filter(|o| o.heavy && o.name.starts_with("Numeric::")).collect(),
            bin: ops::binary().into_iter().filter(|o| !o.heavy && (all_spellings || o.name.starts_with("&NumericBuf") && !o.name.ends_with(" NumericBuf") || o.name.starts_with("Numeric::") || o.name.starts_with("Numeric <"))).collect(),
            par: ops::param(),
            con: consumers(),
            others: others.into_iter().map(Opnd::new).collect(),
        }
    }

    /// All operations on `x` (in its own buffer) against the same operations on a freshly built copy.
    fn run(&self, c: &mut Ctx, x: &NumericBuf, rebuild: &dyn Fn() -> NumericBuf, heavy: bool) {
        let val = match c.decode("state", x) {
            Some(v) => v,
            None => return,
        };
        let fresh = Opnd::new(val);
        let (mut f, mut g) = (vec![], vec![]);
        let (a, b) = (A::buf(x), A::of(&fresh));
        let cmp = |c: &mut Ctx, what: &str, f: &[u8], g: &[u8]| {
            if f != g {
                c.fail(format!("{}: {} on the operand with this history, {} on a fresh operand with the same bytes", what, show(f), show(g)));
            }
        };
        for o in self.un.iter().chain(if heavy { self.heavy.iter() } else { [].iter() }) {
            observe_into(&ops::run1(c, o, a), &mut f);
            observe_into(&ops::run1(c, o, b), &mut g);
            cmp(c, o.name, &f, &g);
        }
        for o in &self.par {
            let ps: &[i64] = if o.group == "typmod" { &[5 << 16 | 2, 1000 << 16, 3 << 16 | 3, 1000 << 16 | 1000] } else { &[-1000, -5, -4, -1, 0, 1, 2, 3, 4, 5, 63, 64, 1000] };
            for &p in ps {
                observe_into(&ops::runp(c, o, a, p), &mut f);
                observe_into(&ops::runp(c, o, b, p), &mut g);
                cmp(c, o.name, &f, &g);
            }
        }
        for y in &self.others {
            let q = A::of(y);
            for o in self.bin.iter().chain(if heavy { self.heavy2.iter() } else { [].iter() }) {
                observe_into(&ops::run2(c, o, a, q), &mut f);
                observe_into(&ops::run2(c, o, b, q), &mut g);
                cmp(c, o.name, &f, &g);
                observe_into(&ops::run2(c, o, q, a), &mut f);
                observe_into(&ops::run2(c, o, q, b), &mut g);
                cmp(c, o.name, &f, &g);
            }
        }
        for o in &self.bin {
            observe_into(&ops::run2(c, o, a, a), &mut f);
            observe_into(&ops::run2(c, o, b, b), &mut g);
            cmp(c, o.name, &f, &g);
        }
        for (i, (name, _, fun)) in self.con.iter().enumerate() {
            let y = A::of(&self.others[i % self.others.len()]);
            let own = rebuild();
            observe_into(&c.call(move || fun(own, y)), &mut f);
            let cp = fresh.buf.clone();
            observe_into(&c.call(move || fun(cp, y)), &mut g);
            cmp(c, name, &f, &g);
        }
        c.check(fresh.intact(), || "fresh operand changed".into());
        if x.as_bytes() != fresh.mem.bytes() {
            c.fail("operand changed by the operations on it");
        }
    }
}

/// Breadth-first search over the reachable (bytes, buffer layout) states.
fn bfs(name: &str, starts: Vec<(String, Val)>, st: Vec<Step>, consts: Vec<Val>, others: Vec<Val>, depth: usize, cap: usize, heavy: bool, maxgroups: usize) -> Space {
    custom(name, move |eng, ctx| {
        let k = Consts::new(consts.clone());
        let probe = Probe::new(others.clone(), false);
        let tb: Vec<Opnd> = starts.iter().map(|s| Opnd::new(s.1.clone())).collect();
        let seen: Mutex<HashSet<Vec<u8>>> = Mutex::new(HashSet::new());
        let layouts: Mutex<HashMap<Vec<u8>, HashSet<Vec<u8>>>> = Mutex::new(HashMap::new());
        let mut level: Vec<Node> = (0..tb.len()).map(|i| Node { start: i, hist: vec![] }).collect();
        let trans = AtomicU64::new(0);
        let states = AtomicU64::new(0);
        let fail: Mutex<Option<(String, String)>> = Mutex::new(None);
        let space_no = CUR.with(|x| x.get()).0;
        let mut full = true;
        for d in 0..=depth {
            // the first history, in order, of every new state
            let next: Mutex<HashMap<Vec<u8>, Node>> = Mutex::new(HashMap::new());
            let pos = AtomicUsize::new(0);
            let stop = AtomicU64::new(0);
            std::thread::scope(|s| {
                for _ in 0..8 {
                    s.spawn(|| {
                        crate::crash::altstack();
                        CUR.with(|x| x.set((space_no, 0)));
                        let mut c = Ctx::new(&eng.bits, false);
                        loop {
                            let i = pos.fetch_add(1, SeqCst);
                            if i >= level.len() || fail.lock().unwrap().is_some() {
                                break;
                            }
                            if std::time::Instant::now() > eng.deadline {
                                stop.store(1, SeqCst);
                                break;
                            }
                            let nd = &level[i];
                            let desc = |h: &[u16], more: &str| format!("x = {}; {}{}", starts[nd.start].0, h.iter().map(|&j| st[j as usize].name.clone() + "; ").collect::<String>(), more);
                            let build = || {
                                let mut x = tb[nd.start].buf.clone();
                                for &j in &nd.hist {
                                    let f = &st[j as usize].f;
                                    let _ = quiet(|| f(&mut x, &k));
                                }
                                x
                            };
                            let mut c2 = Ctx::new(&eng.bits, false);
                            let x = c2.call(|| build()).expect("history no longer runs");
                            let key = {
                                let mut b = x.as_bytes().to_vec();
                                b.push(0xFF);
                                b.extend(layout(&x));
                                b
                            };
                            if !seen.lock().unwrap().insert(key.clone()) {
                                continue;
                            }
                            layouts.lock().unwrap().entry(x.as_bytes().to_vec()).or_default().insert(layout(&x));
                            states.fetch_add(1, SeqCst);
                            eng.bits.put(hash_bytes(&key));
                            probe.run(&mut c, &x, &|| build(), heavy);
                            if let Some(m) = c.failure.take() {
                                let mut f = fail.lock().unwrap();
                                if f.is_none() {
                                    *f = Some((desc(&nd.hist, "then"), m));
                                }
                                break;
                            }
                            // successors, in lockstep with the model
                            if d < depth {
                                let val = match dec::decode(x.as_bytes()) {
                                    Ok(v) => v,
                                    Err(_) => break,
                                };
                                for (j, sp) in st.iter().enumerate() {
                                    let mut y = c2.call(|| build()).unwrap();
                                    let e = step_check(&mut c, sp, &mut y, &val, &k);
                                    if !c.failed() {
                                        c.bytes_are(&sp.name, y.as_bytes(), &e);
                                    }
                                    if let Some(m) = c.failure.take() {
                                        let mut f = fail.lock().unwrap();
                                        if f.is_none() {
                                            *f = Some((desc(&nd.hist, &sp.name), m));
                                        }
                                        break;
                                    }
                                    if matches!(&e, Val::Fin(d) if d.groups().0.len() > maxgroups) {
                                        continue;
                                    }
                                    let mut key = y.as_bytes().to_vec();
                                    key.push(0xFF);
                                    key.extend(layout(&y));
                                    if seen.lock().unwrap().contains(&key) {
                                        continue;
                                    }
                                    let mut h = nd.hist.clone();
                                    h.push(j as u16);
                                    let n = Node { start: nd.start, hist: h };
                                    match next.lock().unwrap().entry(key) {
                                        Entry::Vacant(e) => {
                                            e.insert(n);
                                        }
                                        Entry::Occupied(mut e) => {
                                            if (n.start, &n.hist) < (e.get().start, &e.get().hist) {
                                                e.insert(n);
                                            }
                                        }
                                    }
                                }
                            }
                        }
                        trans.fetch_add(c.transitions, SeqCst);
                    });
                }
            });
            if let Some((desc, m)) = fail.lock().unwrap().take() {
                ctx.text.push(desc);
                ctx.fail(m);
                break;
            }
            if stop.load(SeqCst) != 0 {
                full = false;
                break;
            }
            level = next.into_inner().unwrap().into_values().collect();
            // deterministic order whatever the thread timing, shortest histories first
            level.sort_by(|a, b| (a.start, &a.hist).cmp(&(b.start, &b.hist)));
            ctx.notes.push(format!("depth {}: {} states so far, frontier {}", d, states.load(SeqCst), level.len()));
            if level.len() > cap {
                ctx.notes.push(format!("frontier at depth {} cut to its first {} of {}", d + 1, cap, level.len()));
                level.truncate(cap);
            }
        }
        let l = layouts.lock().unwrap();
        ctx.notes.push(format!("{} distinct values, at most {} buffer layouts of one value", l.len(), l.values().map(|s| s.len()).max().unwrap_or(0)));
        ctx.cases = states.load(SeqCst);
        ctx.transitions = trans.load(SeqCst);
        ctx.exhausted = full;
    })
}

pub fn c27(cfg: Cfg) -> Vec<Space> {
    let mut v = vec![];
    let consts: Vec<Val> = ["1", "-0.5", "9999.9999", "0", "10001", "1e-70"].iter().map(|s| dec::parse(s).unwrap()).collect();
    let others: Vec<Val> = ["0", "1", "-12345.678", "NaN", "0.00010001", "1e20", "3e-65", "-99999999"].iter().map(|s| dec::parse(s).unwrap()).collect();
    let starts = start_values(&[
        "0", "1", "-1", "0.5", "9999", "9999.9999", "-10000.0001", "12345678.87654321", "0.00001", "1e20", "-5e-9", "99999999.99995", "NaN", "0e-70", "1e-66", "-123e70", "10000.00000000001", "7e300", "1.5e-300", "100000000",
    ]);
    let st = steps(&consts, &[0, 1, 2, 4, 5], &[-8, -4, -1, 0, 1, 3, 4, 8, 64, 70], &[(4, 2), (1000, 0), (100, 66)]);
    v.push(bfs("histories", starts.clone(), st, consts.clone(), others.clone(), cfg.size(3, 2, 4), cfg.size(usize::MAX, usize::MAX, 3_000_000), false, 200));
    // few steps, deeper
    let st = steps(&consts, &[1, 5], &[-4, 0, 1, 64], &[(4, 2)]);
    v.push(bfs("deeper histories of fewer steps", starts.iter().step_by(3).cloned().collect(), st, consts.clone(), others.iter().take(4).cloned().collect(), cfg.size(4, 4, 7), cfg.size(400_000, 100_000, 3_000_000), false, 200));
    // layouts only: the steps that edit a buffer in place
    let st: Vec<Step> = steps(&consts, &[0, 2], &[-4, -1, 0, 1, 3, 4, 5, 8, 63, 64], &[(4, 2), (100, 66)]).into_iter().filter(|s| s.name.contains("_mut") || s.name.contains("typmod") || s.name.contains("+=") || s.name.contains("-=")).collect();
    v.push(bfs("in-place edits", starts.iter().cloned().collect(), st, consts.clone(), others.iter().take(4).cloned().collect(), cfg.size(5, 4, 8), cfg.size(400_000, 100_000, 3_000_000), false, 200));
    // transcendental functions on states with unusual layouts
    let ts = start_values(&["1.5", "2", "0.75", "123.456", "9999.9999", "1e-5", "3"]);
    let st = steps(&consts, &[0, 2], &[0, 1, 4, 30], &[(4, 2)]).into_iter().filter(|s| !s.name.contains('/') && !s.name.contains("* x")).collect();
    v.push(bfs("transcendental functions after histories", ts, st, consts.clone(), others.iter().take(2).cloned().collect(), cfg.size(3, 2, 3), usize::MAX, true, 20));
    // history of unrelated operations: nothing computed before changes a result
    v.push(super::conc::order_independence(cfg));
    v.push(super::memo::related(cfg));
    v.push(super::memo::texts_in_one_place(cfg));
    v
}
