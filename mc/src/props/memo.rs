//! Part of C27: every function is run over families of related operands (the same digits at other scales and
//! weights, the other sign, the next value, swapped operands, failing operands) in several orders, each order in
//! a fresh process, so that every operand of a family is evaluated directly before and directly after every other
//! one. Every evaluation of an operand must give the same outcome, in every order and however often.
use super::conc::me;
use super::*;
use crate::big::Big;
use crate::dec::{Dec, Val};
use crate::ops::{self, observe_into, A};

enum F {
    One(ops::Op1),
    Two(ops::Op2),
    Par(ops::OpP),
}

fn functions() -> Vec<F> {
    let mut v = vec![];
    let mut last = "";
    for o in ops::unary() {
        if !o.heavy || o.group != last {
            last = o.group;
            v.push(F::One(o));
        }
    }
    for o in ops::binary() {
        if !o.heavy || o.group != last {
            last = o.group;
            v.push(F::Two(o));
        }
    }
    v.extend(ops::param().into_iter().map(F::Par));
    v
}

impl F {
    fn name(&self) -> &'static str {
        match self {
            F::One(o) => o.name,
            F::Two(o) => o.name,
            F::Par(o) => o.name,
        }
    }
    fn heavy(&self) -> bool {
        match self {
            F::One(o) => o.heavy,
            F::Two(o) => o.heavy,
            F::Par(_) => false,
        }
    }
    fn typmod(&self) -> bool {
        matches!(self, F::Par(o) if o.group == "typmod")
    }
}

fn at(d: &Dec, s: i64) -> Dec {
    if s <= d.scale {
        return d.clone();
    }
    Dec::new(d.neg, d.mag_at(s), s)
}
fn ten4(d: &Dec, up: bool) -> Dec {
    if up {
        if d.scale >= 4 {
            Dec::new(d.neg, d.mag.clone(), d.scale - 4)
        } else {
            Dec::new(d.neg, d.mag.mul_pow10((4 - d.scale) as usize), 0)
        }
    } else {
        Dec::new(d.neg, d.mag.clone(), d.scale + 4)
    }
}

/// The n-th base value: small coefficients at small scales first, then longer digit strings.
fn base(n: u64) -> Dec {
    let (k, s) = (n / 4, (n % 4) as i64);
    if n % 5 == 4 {
        // several groups
        return Dec::of((k as i128 + 2) * 7_919_104_729 + 1, s + 3);
    }
    Dec::of(k as i128 + 2, s)
}

/// One family: operands (x, y, p).
fn family(f: &F, n: u64) -> Vec<(Val, Val, i64)> {
    let mut d = base(n);
    if f.heavy() && d.mag.ndigits() > 9 {
        // powers of such values take seconds
        d = Dec::of(n as i128 * 7919 + 1, 7);
    }
    let z = Val::Fin(Dec::zero(0));
    let mut v: Vec<(Val, Val, i64)> = vec![];
    let fin = Val::Fin;
    let vars = |d: &Dec| -> Vec<Val> {
        [d.clone(), at(d, d.scale + 1), at(d, 18), ten4(d, true), d.negated()].into_iter().map(Val::Fin).collect()
    };
    match f {
        F::One(_) => {
            for s in [0, 1, 2, 4, 16, 17, 18, 19, 20, 24] {
                let e = at(&d, s);
                if s == 0 || e.scale == s {
                    v.push((fin(e), z.clone(), 0));
                }
            }
            if f.heavy() {
                // results of every precision around: a value kept from a less precise call must not be used
                for s in (15..=34).filter(|s| ![16, 17, 18, 19, 20, 24].contains(s)) {
                    v.push((fin(at(&d, s)), z.clone(), 0));
                }
                v.push((fin(Dec::of(1_0000_0000_0000_0000_0001, 20)), z.clone(), 0));
                v.push((fin(Dec::new(false, Big::from_u128(123_456_789).mul_pow10(36), 9)), z.clone(), 0));
            }
            v.push((fin(d.negated()), z.clone(), 0));
            v.push((fin(ten4(&d, true)), z.clone(), 0));
            v.push((fin(ten4(&d, false)), z.clone(), 0));
            v.push((fin(Dec::new(d.neg, d.mag.add(&Big::one()), d.scale)), z.clone(), 0));
            v.push((z.clone(), z.clone(), 0));
            v.push((Val::NaN, z.clone(), 0));
            if !f.heavy() && n < 6 {
                v.push((fin(Dec::new(false, Big::pow10(131072).sub(&Big::one()), 0)), z.clone(), 0));
            }
        }
        F::Two(_) => {
            let e = match n % 4 {
                0 => Dec::of(3, 0),
                1 => Dec::of(15, 1),
                2 if f.heavy() => Dec::of(n as i128 + 7, 1),
                2 => base(n / 2 + 1),
                _ if f.heavy() => Dec::of(70001, 5),
                _ => Dec::of(70001, 4),
            };
            let (xs, ys) = (vars(&d), vars(&e));
            for y in &ys {
                v.push((xs[0].clone(), y.clone(), 0));
            }
            for x in &xs[1..] {
                v.push((x.clone(), ys[0].clone(), 0));
            }
            if f.heavy() {
                for s in 15..=30 {
                    v.push((fin(at(&d, s)), ys[0].clone(), 0));
                    if s % 2 == 1 {
                        v.push((xs[0].clone(), fin(at(&e, s)), 0));
                    }
                }
                v.push((fin(Dec::of(1_0000_0000_0000_0000_0001, 20)), ys[0].clone(), 0));
                v.push((fin(Dec::new(false, Big::from_u128(123_456_789).mul_pow10(36), 9)), ys[0].clone(), 0));
            }
            v.push((xs[1].clone(), ys[2].clone(), 0));
            v.push((ys[0].clone(), xs[0].clone(), 0));
            v.push((z.clone(), ys[0].clone(), 0));
            v.push((xs[0].clone(), z.clone(), 0));
            v.push((Val::NaN, ys[0].clone(), 0));
            v.push((xs[0].clone(), Val::NaN, 0));
            if !f.heavy() && n < 6 {
                let big = fin(Dec::new(false, Big::pow10(131071).mul_small(9), 0));
                v.push((big.clone(), big, 0));
            }
        }
        F::Par(_) => {
            let p = d.scale;
            let enc = |p: i64, prec: i64| if f.typmod() { prec << 16 | p.max(0) } else { p };
            for x in vars(&d) {
                v.push((x, z.clone(), enc(p, 10)));
            }
            v.push((Val::NaN, z.clone(), enc(p, 10)));
            v.push((fin(Dec::new(false, Big::pow10(d.mag.ndigits()).sub(&Big::one()), d.scale + 1)), z.clone(), enc(p, 10)));
            for (q, prec) in [(p + 1, 10), (p - 1, 10), (p + 4, 10), (-p - 1, 4), (0, 4), (1000, 1000), (-1000, 1)] {
                v.push((fin(d.clone()), z.clone(), enc(q, prec)));
            }
        }
    }
    if n < 3 {
        // long numbers that agree except in their last digits
        let long = |t: u32| fin(Dec::new(false, Big::pow10(150).divrem(&Big::from_u128(7 * n as u128 + 7)).0.mul_pow10(8).add(&Big::from_u128((t % 10) as u128).mul_pow10((t / 10) as usize)), 6 * n as i64));
        let y = v[0].1.clone();
        for t in [1, 2, 71, 401, 402, 801, 802] {
            match f {
                F::One(_) => v.push((long(t), z.clone(), 0)),
                F::Two(_) => v.push((long(t), y.clone(), 0)),
                F::Par(_) => v.push((long(t), z.clone(), if f.typmod() { 1000 << 16 | 3 } else { 3 })),
            }
        }
        if let (F::Two(_), false) = (f, f.heavy()) {
            v.push((y.clone(), long(1), 0));
            v.push((y.clone(), long(2), 0));
            v.push((y.clone(), long(801), 0));
            v.push((y, long(802), 0));
            v.push((long(1), long(2), 0));
        }
    }
    v.dedup_by(|a, b| a == b);
    v
}

/// Every ordered pair of 0..k occurs next to each other (both orders, and each element after itself).
fn tour(k: usize) -> Vec<usize> {
    let mut v = vec![];
    for i in 0..k {
        v.push(i);
        for j in i + 1..k {
            v.push(i);
            v.push(j);
        }
    }
    v.push(0);
    v
}

const ORDERS: usize = 5;

/// The order in which (family, member) pairs are evaluated.
fn order(o: usize, sizes: &[usize]) -> Vec<(usize, usize)> {
    let n = sizes.len();
    let mut v = vec![];
    match o {
        // each once, neighbours unrelated
        0 => {
            for m in 0..sizes.iter().copied().max().unwrap_or(0) {
                for i in 0..n {
                    let fam = (i * 7 + m * 3) % n;
                    let mm = (m + i * 5) % sizes[fam].max(1);
                    v.push((fam, mm));
                }
            }
            // whatever that missed
            for (i, s) in sizes.iter().enumerate() {
                v.extend((0..*s).map(|m| (i, m)));
            }
        }
        1 => {
            for (i, s) in sizes.iter().enumerate() {
                v.extend(tour(*s).into_iter().map(|m| (i, m)));
            }
        }
        2 => {
            for (i, s) in sizes.iter().enumerate().rev() {
                v.extend(tour(*s).into_iter().rev().map(|m| (i, s - 1 - m)));
            }
        }
        // the members in descending / ascending order for all families, so that the later ones of a family come long after the first
        _ => {
            let most = sizes.iter().copied().max().unwrap_or(0);
            for m in 0..most {
                let m = if o == 3 { most - 1 - m } else { m };
                for (i, s) in sizes.iter().enumerate() {
                    if m < *s {
                        v.push((i, m));
                    }
                }
            }
            let w: Vec<_> = v.iter().rev().copied().collect();
            v.extend(w);
        }
    }
    v
}

/// `mc orders <function> <first family> <families> <order>`: prints a hash per operand, and every evaluation that
/// differed from the first one of the same operand.
pub fn orders() {
    let a: Vec<u64> = std::env::args().skip(2).map(|x| x.parse().unwrap()).collect();
    let fs = functions();
    let f = &fs[a[0] as usize];
    let fam: Vec<Vec<(Opnd, Opnd, i64)>> = (a[1]..a[1] + a[2]).map(|n| family(f, n).into_iter().map(|(x, y, p)| (Opnd::new(x), Opnd::new(y), p)).collect()).collect();
    let sizes: Vec<usize> = fam.iter().map(|x| x.len()).collect();
    let mut first: Vec<Vec<Option<u64>>> = sizes.iter().map(|s| vec![None; *s]).collect();
    let mut out = vec![];
    let mut calls = 0u64;
    let mut prev = (0, 0);
    // In most orders every operand is put in the same place, so that it has the address of the one before.
    let moved = a[3] % 3 != 0;
    let most = fam.iter().flatten().map(|(x, y, _)| x.mem.bytes().len().max(y.mem.bytes().len())).max().unwrap_or(0);
    let (mut sx, mut sy) = (vec![0u32; most / 4 + 1], vec![0u32; most / 4 + 1]);
    fn put<'a>(slot: &'a mut [u32], o: &Opnd) -> &'a pgnumeric::Numeric {
        let b = o.mem.bytes();
        unsafe {
            std::ptr::copy_nonoverlapping(b.as_ptr(), slot.as_mut_ptr() as *mut u8, b.len());
            pgnumeric::Numeric::from_bytes_unchecked(std::slice::from_raw_parts(slot.as_ptr() as *const u8, b.len()))
        }
    }
    for (i, m) in order(a[3] as usize, &sizes) {
        let (x, y, p) = &fam[i][m];
        let (bx, by);
        let (x, y) = if moved {
            let (nx, ny) = (put(&mut sx, x), put(&mut sy, y));
            bx = nx.to_owned();
            by = ny.to_owned();
            (A { n: nx, b: &bx }, A { n: ny, b: &by })
        } else {
            (A::of(x), A::of(y))
        };
        calls += 1;
        let r = quiet(|| match f {
            F::One(o) => (o.f)(x),
            F::Two(o) => (o.f)(x, y),
            F::Par(o) => (o.f)(x, *p),
        });
        observe_into(&r, &mut out);
        let h = hash_bytes(&out);
        match first[i][m] {
            None => first[i][m] = Some(h),
            Some(e) if e != h => println!("DIFF {} {} {} {} {}", i, m, prev.0, prev.1, ops::show(&out)),
            _ => {}
        }
        prev = (i, m);
    }
    println!("CALLS {}", calls);
    let all: Vec<String> = first.iter().flatten().map(|h| h.map_or("-".into(), |h| format!("{:x}", h))).collect();
    println!("TABLE {}", all.join(" "));
}

pub fn related(cfg: Cfg) -> Space {
    let fs = functions();
    let blocks = cfg.size(1, 1, 12u64);
    let mut sp = space("families of related operands in every order, in fresh processes", fs.len() as u64 * blocks, move |i, c| {
        let (fi, b) = (i / blocks, i % blocks);
        let f = &fs[fi as usize];
        let per = if f.heavy() { 12u64 } else { 40 };
        c.desc(|| format!("{} on families {}..{}", f.name(), b * per, (b + 1) * per));
        let show = |fam: usize, m: usize| {
            let v = family(f, b * per + fam as u64);
            let t = |v: &Val| Opnd::new(v.clone()).show() + &if let Val::Fin(d) = v { format!(" (scale {})", d.scale) } else { String::new() };
            match f {
                F::One(_) => t(&v[m].0),
                F::Two(_) => format!("({}, {})", t(&v[m].0), t(&v[m].1)),
                F::Par(_) => format!("({}, {:#x})", t(&v[m].0), v[m].2),
            }
        };
        let mut tab: Vec<String> = vec![];
        for o in 0..ORDERS {
            let out = me().arg("orders").args([fi, b * per, per, o as u64].iter().map(|x| x.to_string())).output().expect("cannot start the explorer");
            let s = String::from_utf8_lossy(&out.stdout);
            let mut got: Vec<String> = vec![];
            for l in s.lines() {
                let w: Vec<&str> = l.splitn(6, ' ').collect();
                let n = |k: usize| w[k].parse::<usize>().unwrap();
                match w[0] {
                    "DIFF" => c.fail(format!("{} of {} gives something else after {}: {}", f.name(), show(n(1), n(2)), show(n(3), n(4)), w[5])),
                    "CALLS" => c.transitions += n(1) as u64,
                    "TABLE" => got = l.split(' ').skip(1).map(|x| x.to_string()).collect(),
                    _ => {}
                }
            }
            if got.is_empty() {
                c.fail(format!("{}: the process evaluating order {} ended early", f.name(), o));
                return;
            }
            if o == 0 {
                for h in &got {
                    c.seen(h.as_bytes());
                }
                tab = got;
            } else if let Some(k) = (0..got.len()).find(|&k| got[k] != tab[k]) {
                let mut k = k;
                let mut fam = 0;
                loop {
                    let s = family(f, b * per + fam as u64).len();
                    if k < s {
                        break;
                    }
                    k -= s;
                    fam += 1;
                }
                c.fail(format!("{} of {} depends on the order of the calls (order {} against order 0)", f.name(), show(fam, k), o));
            }
        }
    });
    sp.case_limit = 200;
    sp
}

/// Texts of the same length, with the same first and last characters wherever they allow it, parsed directly one
/// after the other from the same place: every ordered pair of them, each checked against the expected value.
pub fn texts_in_one_place(cfg: Cfg) -> Space {
    let lens: Vec<usize> = (2..=cfg.size(72, 40, 160)).chain(cfg.size(vec![100, 128, 129, 255, 256, 257, 512, 1000], vec![128, 300], vec![200, 255, 256, 257, 300, 511, 512, 513, 1000, 1024, 2048, 4096])).collect();
    let mut sp = space("texts of one length, parsed one after the other in one place", lens.len() as u64 * 3, move |i, c| {
        let (l, form) = (lens[(i / 3) as usize], i % 3);
        c.desc(|| format!("texts of {} characters", l));
        let plain: Vec<u8> = match form {
            0 => vec![b'7'; l],
            1 => (0..l).map(|k| b'0' + (k * 7 % 10) as u8).collect(),
            _ => (0..l).map(|k| if k == l / 3 { b'.' } else { b'0' + (k * 3 + 1) as u8 % 10 }).collect(),
        };
        let mut t = vec![plain.clone()];
        let mut edit = |p: usize, ch: u8| {
            let mut x = plain.clone();
            x[p.min(l - 1)] = ch;
            t.push(x);
        };
        for p in [0, 1, l / 4, l / 2, l / 2 + 1, l - 1 - l / 4, l.max(2) - 2, l - 1] {
            edit(p, b'3');
            edit(p, b'8');
            edit(p, b'.');
        }
        edit(0, b'-');
        edit(0, b' ');
        edit(l - 1, b' ');
        edit(l / 2, b'x');
        edit(l / 2, b'e');
        edit(l.max(3) - 3, b'e');
        edit(l.max(4) - 4, b'E');
        t.sort();
        t.dedup();
        let mut slot = vec![0u8; l];
        for k in tour(t.len()) {
            slot.copy_from_slice(&t[k]);
            c.transitions += 1;
            super::text::check_parse(std::str::from_utf8(&slot).unwrap(), c);
            if c.failed() {
                c.fail(format!("while parsing {:?} after the other texts of its length", String::from_utf8_lossy(&slot[..l.min(80)])));
                return;
            }
        }
    });
    sp.case_limit = 60;
    sp
}
