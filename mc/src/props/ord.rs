//! C08 order, C09 equality/hash/normalize, C11 type modifiers, C18 signs.
use super::arith::*;
use super::*;
use crate::dec::{Dec, Val};
use crate::ops::{self, observe, show, A, R};
use pgnumeric::{Numeric, NumericBuf, Typmod};
use std::cmp::Ordering;
use std::collections::{BTreeMap, HashMap};

pub fn vcmp(a: &Val, b: &Val) -> Ordering {
    match (a, b) {
        (Val::NaN, Val::NaN) => Ordering::Equal,
        (Val::NaN, _) => Ordering::Greater,
        (_, Val::NaN) => Ordering::Less,
        (Val::Fin(x), Val::Fin(y)) => x.cmp(y),
    }
}

fn sym(o: Ordering) -> u8 {
    match o {
        Ordering::Less => b'<',
        Ordering::Equal => b'=',
        Ordering::Greater => b'>',
    }
}

pub fn with_nan(v: Vec<Dec>) -> Table {
    table(std::iter::once(Val::NaN).chain(v.into_iter().map(Val::Fin)).collect())
}

pub fn c08(cfg: Cfg) -> Vec<Space> {
    let orders = ops::group2("order");
    let eqs = ops::group2("equality");
    let mx = ops::group2("max");
    let mn = ops::group2("min");
    let all = move |x: &Opnd, y: &Opnd, c: &mut Ctx| {
        let e = vcmp(&x.val, &y.val);
        let (a, b) = (A::of(x), A::of(y));
        for o in &orders {
            let r = observe(&ops::run2(c, o, a, b));
            c.check(r == [b'T', sym(e)], || format!("{}: got {}, expected {:?}", o.name, show(&r), e));
        }
        for o in &eqs {
            let r = observe(&ops::run2(c, o, a, b));
            let want = if e == Ordering::Equal { b'=' } else { b'#' };
            c.check(r == [b'T', want], || format!("{}: got {}, expected {}", o.name, show(&r), want as char));
        }
        for (os, hi) in [(&mx, Ordering::Greater), (&mn, Ordering::Less)] {
            for o in os {
                let r = observe(&ops::run2(c, o, a, b));
                let one = |v: &Opnd| r.len() > 1 && r[0] == b'N' && r[1..] == *v.mem.bytes();
                let ok = if e == Ordering::Equal { one(x) || one(y) } else if e == hi { one(x) } else { one(y) };
                c.check(ok, || format!("{}: got {}", o.name, show(&r)));
            }
        }
    };
    let core = |x: &Opnd, y: &Opnd, c: &mut Ctx| {
        let e = vcmp(&x.val, &y.val);
        let (a, b) = (x.num(), y.num());
        let r = c.call(|| (Ord::cmp(a, b), a == b, a.partial_cmp(b), a < b, a >= b));
        match r {
            Ok((o, q, p, lt, ge)) => {
                c.eq("cmp", o, e);
                c.eq("==", q, e == Ordering::Equal);
                c.eq("partial_cmp", p, Some(e));
                c.eq("<", lt, e == Ordering::Less);
                c.eq(">=", ge, e != Ordering::Less);
                c.seen_pair(x.mem.bytes(), y.mem.bytes(), sym(o));
            }
            Err(p) => c.fail(format!("comparison panicked: {}", p)),
        }
    };
    let sm = with_nan(small(cfg.size(&[0, 1, 4][..], &[0, 4][..], &[0, 1, 2, 3, 4, 5, 8][..]), true));
    let gr = group_table(cfg, true);
    let lo = long_table(cfg);
    let bd = boundary_table();
    let ex = with_nan(extremes(true));
    let gaps: Vec<i64> = (-20..=20).chain([-70, -64, 63, 64, 70]).collect();
    let gp = with_nan(groups(&[1, 9999], 2, &gaps, &[0, 3], true));
    let mut v = vec![
        pairs("all spellings: small x small", sm.clone(), sm.clone(), all.clone()),
        pairs("all spellings: extremes x extremes", ex.clone(), ex.clone(), all.clone()),
        pairs("groups x groups", gr.clone(), gr.clone(), core),
        pairs("gaps x gaps", gp.clone(), gp.clone(), core),
        pairs("long x long", lo.clone(), lo.clone(), core),
        pairs("header boundary x header boundary", bd.clone(), bd.clone(), core),
        pairs("header boundary x small", bd.clone(), sm.clone(), core),
        pairs("extremes x small", ex.clone(), sm.clone(), core),
        pairs("ladder of weights", dtable(ladder(&[1], 32767, true)), dtable(ladder(&[9999], 32767, true).into_iter().chain(ladder(&[1], 32767, true)).collect()), core),
    ];
    for (s, t) in [(0, 0), (0, 2), (3, 4), (5, 0)] {
        let n = cfg.size(500, 200, cfg.deep(2000, 4500));
        v.push(pairs(format!("range(scale {}) x range(scale {})", s, t), dtable(range(-n, n, s)), dtable(range(-n, n, t)), core));
    }
    let (da, db) = digit_pairs(cfg);
    v.push(pairs("digits x digits", da, db, core));
    let mt = mid_table(cfg);
    v.push(pairs("hundreds of digits", mt.clone(), mt, core));
    v.push(neighbours("neighbours", cfg, core));
    v.push(long_neighbours("long neighbours", cfg, core));
    v.push(pairs("machine integers", machine_table(cfg, true), machine_table(cfg, true), core));
    v.push(pairs("up to every digit of the format", vast_table(cfg), dtable(vast_partners()), core));
    // sorting every ordered triple (and pair-wise agreement gives transitivity)
    let tri: Vec<Val> = std::iter::once(Val::NaN)
        .chain([Dec::of(0, 0), Dec::of(0, 5), Dec::of(1, 0), Dec::of(10, 1), Dec::of(-1, 0), Dec::of(-100, 2), Dec::of(9999, 4), Dec::of(10000, 4), Dec::of(10000, 0), Dec::of(9999, 0), Dec::of(-10001, 4), Dec::of(1, 20), Dec::of(-1, 20), Dec::of(1, 300), Dec::int(1).mul(&Dec::of(10i128.pow(38), 0)), Dec::of(1, 64), Dec::of(10, 65), Dec::of(123, 0), Dec::of(1230, 1), Dec::of(-123, 0), Dec::of(5, 1)].into_iter().map(Val::Fin))
        .collect();
    let tri = table(tri);
    let n = tri.len() as u64;
    v.push(space("sort of every ordered 4-tuple", n * n * n * n, move |i, c| {
        let ix = [(i / (n * n * n)) as usize, (i / (n * n) % n) as usize, (i / n % n) as usize, (i % n) as usize];
        c.desc(|| ix.iter().map(|&k| tri[k].show()).collect::<Vec<_>>().join(", "));
        let mut e = ix;
        e.sort_by(|&p, &q| vcmp(&tri[p].val, &tri[q].val));
        let r = c.call(|| {
            let mut v: Vec<&Numeric> = ix.iter().map(|&k| tri[k].num()).collect();
            v.sort();
            v
        });
        match r {
            Ok(v) => {
                // stable sort: the result is determined even for equal values
                for (k, n) in v.iter().enumerate() {
                    if n.as_bytes() != tri[e[k]].mem.bytes() {
                        c.fail(format!("sorted position {} holds {}, expected {}", k, n, tri[e[k]].show()));
                        break;
                    }
                }
            }
            Err(p) => c.fail(format!("sort panicked: {}", p)),
        }
    }));
    v
}

pub fn c09(cfg: Cfg) -> Vec<Space> {
    let norms = ops::group1("normalize");
    let hashes = ops::group1("hash");
    let single = move |x: &Opnd, c: &mut Ctx| {
        let e = match &x.val {
            Val::NaN => "NaN".to_string(),
            Val::Fin(d) => d.normalized_text(),
        };
        for o in &norms {
            match ops::run1(c, o, A::of(x)) {
                Ok(R::T(t)) => c.check(t == e.as_bytes(), || format!("{}: got {:?}, expected {:?}", o.name, String::from_utf8_lossy(&t[..t.len().min(200)]), &e[..e.len().min(200)])),
                _ => c.fail(format!("{} failed", o.name)),
            }
        }
        let h0 = ops::hash_stream(x.num());
        c.seen(&h0);
        for o in &hashes {
            match ops::run1(c, o, A::of(x)) {
                Ok(R::T(t)) => c.check(t == h0, || format!("{}: hashes differently from the borrowed numeric", o.name)),
                _ => c.fail(format!("{} failed", o.name)),
            }
        }
        // every other scale of the same value
        if let Val::Fin(d) = &x.val {
            for extra in [1, 3, 4, 60, 64] {
                let mut z = d.clone();
                z.mag = z.mag_at(z.scale + extra);
                z.scale += extra;
                if !z.fits() {
                    continue;
                }
                let z = Opnd::new(Val::Fin(z));
                let r = c.call(|| (ops::hash_stream(z.num()), ops::hash_stream(&z.buf), x.num() == z.num(), z.num().normalize()));
                match r {
                    Ok((h, hb, q, t)) => {
                        c.check(h == h0 && hb == h0, || format!("hash differs at scale {}", z.d().scale));
                        c.check(q, || format!("not equal to itself at scale {}", z.d().scale));
                        c.check(t == e, || format!("normalize at scale {}: got {}", z.d().scale, &t[..t.len().min(200)]));
                    }
                    Err(p) => c.fail(format!("panicked: {}", p)),
                }
            }
        }
    };
    let pair = |x: &Opnd, y: &Opnd, c: &mut Ctx| {
        let (a, b) = (x.num(), y.num());
        let r = c.call(|| (a == b, ops::hash_stream(a) == ops::hash_stream(&y.buf), a.normalize() == y.buf.normalize()));
        let e = vcmp(&x.val, &y.val) == Ordering::Equal;
        match r {
            Ok((q, h, n)) => {
                c.eq("==", q, e);
                c.eq("normalized strings equal", n, e);
                c.eq("hash streams equal", h, e);
                c.seen_pair(x.mem.bytes(), y.mem.bytes(), q as u8);
            }
            Err(p) => c.fail(format!("panicked: {}", p)),
        }
    };
    let sc: &[i64] = cfg.size(&[0, 1, 2, 3, 4, 5, 8][..], &[0, 1, 3, 4][..], &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 17, 64][..]);
    let sm = with_nan(small(sc, true));
    let gr = group_table(cfg, true);
    let lo = long_table(cfg);
    let bd = boundary_table();
    let ex = with_nan(extremes(true));
    let gp = with_nan(groups(&[1, 9999], 2, &(-20..=20).collect::<Vec<i64>>(), &[0, 4], true));
    let mut v = vec![
        singles("small", sm.clone(), single.clone()),
        singles("groups", gr.clone(), single.clone()),
        singles("gaps", gp.clone(), single.clone()),
        singles("long", lo.clone(), single.clone()),
        singles("header boundary", bd.clone(), single.clone()),
        singles("extremes", ex.clone(), single.clone()),
        singles("digits x point positions", grid_table(cfg), single.clone()),
        singles("up to every digit of the format", vast_table(cfg), single.clone()),
        pairs("small x small", sm.clone(), sm.clone(), pair),
        pairs("gaps x gaps", gp.clone(), gp.clone(), pair),
        pairs("header boundary x header boundary", bd.clone(), bd.clone(), pair),
        singles("ladder of weights, one by one", dtable(ladder(&[1, 0, 5], 32767, true)), single.clone()),
        pairs("ladder of weights", dtable(ladder(&[1], 32767, true)), dtable(ladder(&[1], 32767, true)), pair),
    ];
    v.push(neighbours("neighbours", cfg, pair));
    v.push(long_neighbours("long neighbours", cfg, pair));
    v.push(singles("machine integers", machine_table(cfg, true), single.clone()));
    v.push(pairs("pairs of machine integers", machine_table(cfg, false), machine_table(cfg, false), pair));
    let lo2 = dtable(long(cfg.size(&[4, 5, 8, 17, 33][..], &[4, 17][..], &[4, 5, 8, 16, 17, 22, 33, 64, 65][..]), &[0, 1, 2, 3, 4, 5, 6, 7, 8], true));
    v.push(pairs("long x long", lo2.clone(), lo2, pair));
    let n = cfg.size(200, 100, cfg.deep(800, 2500));
    for (s, t) in [(0, 0), (0, 2), (3, 4)] {
        v.push(pairs(format!("range(scale {}) x range(scale {})", s, t), dtable(range(-n, n, s)), dtable(range(-n, n, t)), pair));
    }
    // lookups in collections keyed by owned numerics with borrowed keys
    let keys = sm.clone();
    v.push(space("HashMap / BTreeMap lookup of every small value by every equal spelling", keys.len() as u64, move |i, c| {
        let k = &keys[i as usize];
        c.desc(|| format!("key={}", k.show()));
        let r = c.call(|| {
            let mut h: HashMap<NumericBuf, usize> = HashMap::new();
            let mut t: BTreeMap<NumericBuf, usize> = BTreeMap::new();
            for (j, o) in keys.iter().enumerate() {
                h.entry(o.buf.clone()).or_insert(j);
                t.entry(o.buf.clone()).or_insert(j);
            }
            let hb: Option<usize> = h.get(k.num()).copied();
            let tb: Option<usize> = t.get(k.num()).copied();
            (h.len(), t.len(), hb, h.get(&k.buf).copied(), tb, t.get(&k.buf).copied())
        });
        let first = keys.iter().position(|o| vcmp(&o.val, &k.val) == Ordering::Equal);
        match r {
            Ok((hl, tl, a, b, d, e)) => {
                c.eq("map sizes agree", hl, tl);
                c.check(a == first && b == first && d == first && e == first, || format!("lookups {:?} {:?} {:?} {:?}, expected {:?}", a, b, d, e, first));
            }
            Err(p) => c.fail(format!("panicked: {}", p)),
        }
    }));
    v
}

pub fn apply_expect(v: &Val, p: i64, s: i64) -> (bool, Val) {
    match v {
        Val::NaN => (false, Val::NaN),
        Val::Fin(d) => {
            let r = d.round(s);
            if !r.fits() {
                return (true, v.clone());
            }
            let int_digits = if r.is_zero() { 0 } else { (r.mag.ndigits() as i64 - r.scale).max(0) };
            (int_digits > p - s, Val::Fin(r))
        }
    }
}

fn apply_check(x: &Opnd, t: Typmod, e: (bool, Val), c: &mut Ctx) {
    let mut b = x.buf.clone();
    let r = c.call(|| b.apply_typmod(t));
    match r {
        Ok(o) => {
            c.eq("apply_typmod reports overflow", o, e.0);
            c.bytes_are("value after apply_typmod", b.as_bytes(), &e.1);
        }
        Err(p) => c.fail(format!("apply_typmod panicked: {}", p)),
    }
}

pub fn c11(cfg: Cfg) -> Vec<Space> {
    let mut v = vec![];
    const W: u64 = 1006;
    v.push(space("every (precision, scale) in -2..=1003", W * W, |i, c| {
        let (p, s) = ((i / W) as i32 - 2, (i % W) as i32 - 2);
        c.desc(|| format!("precision {}, scale {}", p, s));
        let ok = (1..=1000).contains(&p) && s >= 0 && s <= p;
        match c.call(|| Typmod::new(p, s)) {
            Ok(None) => c.check(!ok, || "rejected".into()),
            Ok(Some(t)) => {
                c.check(ok, || "accepted".into());
                let r = c.call(|| (t.value(), t.extract(), t.to_string(), unsafe { Typmod::from_value_unchecked(t.value()) }, unsafe { Typmod::new_unchecked(p, s) }));
                match r {
                    Ok((val, ex, text, back, un)) => {
                        c.eq("value", val, ((p << 16) | s) + 4);
                        c.eq("extract", ex, (p, s));
                        c.check(text == format!("({}, {})", p, s), || format!("text {:?}", text));
                        c.check(back == t && un == t, || "not equal to itself through its value".into());
                        c.seen(&val.to_le_bytes());
                    }
                    Err(e) => c.fail(format!("panicked: {}", e)),
                }
            }
            Err(e) => c.fail(format!("Typmod::new panicked: {}", e)),
        }
    }));
    let mut odd: Vec<i32> = vec![i32::MIN, i32::MIN + 1, i32::MAX, i32::MAX - 1, -65536, 65535, 65536, 65537, 65546, 131072, 1 << 30, -(1 << 30)];
    for k in 0..32 {
        odd.push(1i32.wrapping_shl(k));
        odd.push(1i32.wrapping_shl(k).wrapping_add(10));
        odd.push(1i32.wrapping_shl(k).wrapping_neg());
    }
    let on = odd.len() as u64;
    v.push(space("far out of range (precision, scale)", on * on, move |i, c| {
        let (p, s) = (odd[(i / on) as usize], odd[(i % on) as usize]);
        c.desc(|| format!("precision {}, scale {}", p, s));
        let ok = (1..=1000).contains(&p) && s >= 0 && s <= p;
        match c.call(|| (Typmod::new(p, s), Typmod::with_precision(p))) {
            Ok((t, w)) => {
                c.eq("accepted", t.is_some(), ok);
                c.eq("with_precision accepted", w.is_some(), (1..=1000).contains(&p));
                if let Some(t) = t {
                    c.eq("extract", t.extract(), (p, s));
                }
            }
            Err(e) => c.fail(format!("panicked: {}", e)),
        }
    }));
    v.push(space("with_precision -5..=1010", 1016, |i, c| {
        let p = i as i32 - 5;
        c.desc(|| format!("precision {}", p));
        match c.call(|| Typmod::with_precision(p)) {
            Ok(t) => {
                c.eq("accepted", t.is_some(), (1..=1000).contains(&p));
                if let Some(t) = t {
                    c.check(Some(t) == Typmod::new(p, 0), || "differs from new(p, 0)".into());
                    c.eq("extract", t.extract(), (p, 0));
                    c.check(t == unsafe { Typmod::with_precision_unchecked(p) }, || "unchecked form differs".into());
                }
            }
            Err(e) => c.fail(format!("panicked: {}", e)),
        }
    }));
    // application
    let mut tms: Vec<(i64, i64)> = Vec::new();
    for p in 1..=cfg.size(10, 8, 14) {
        for s in 0..=p {
            tms.push((p, s));
        }
    }
    for p in [16, 17, 20, 38, 64, 65, 100, 999, 1000] {
        for s in [0, 1, 2, 4, 5, 8, 15, 16, 17, 20, 37, 38, 63, 64, 65, 99, 100, 998, 999, 1000] {
            if s <= p {
                tms.push((p, s));
            }
        }
    }
    let nt = tms.len() as u64;
    let mut app = |name: &str, t: Table, tms: Vec<(i64, i64)>| {
        let nt = tms.len() as u64;
        v.push(space(name, t.len() as u64 * nt, move |i, c| {
            let x = &t[(i / nt) as usize];
            let (p, s) = tms[(i % nt) as usize];
            c.desc(|| format!("x={}, typmod ({}, {})", x.show(), p, s));
            apply_check(x, Typmod::new(p as i32, s as i32).unwrap(), apply_expect(&x.val, p, s), c);
        }));
    };
    let _ = nt;
    app("apply: small", with_nan(small(cfg.size(&[0, 1, 2, 3, 4, 5, 8, 11, 17][..], &[0, 1, 3, 4, 5][..], &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 16, 17, 40][..]), true)), tms.clone());
    app("apply: groups", group_table(cfg, true), tms.clone());
    app("apply: long", dtable(long(cfg.size(&[4, 5, 8, 17, 33, 250][..], &[4, 17, 250][..], &[4, 5, 6, 7, 8, 9, 16, 17, 18, 33, 64, 65, 249, 250, 251][..]), &[0, 1, 2, 3, 4, 5, 6, 7, 8], true)), tms.clone());
    app("apply: header boundary", boundary_table(), tms.clone());
    let few: Vec<(i64, i64)> = vec![(1, 0), (1, 1), (5, 2), (38, 10), (1000, 0), (1000, 1), (1000, 500), (1000, 999), (1000, 1000)];
    app("apply: extremes", with_nan(extremes(true)), few);
    let gridtm: Vec<(i64, i64)> = (0..=12).map(|k| (20, k)).chain([(1, 0), (4, 0), (5, 0), (8, 4), (9, 4), (9, 5), (13, 1), (50, 7), (1000, 9)]).collect();
    app("apply: digits x point positions", dtable(crate::lat::grid(1..=cfg.size(44, 30, cfg.deep(90, 150)), |l| (0..=l + 9).collect(), true)), gridtm);
    let bigtm: Vec<(i64, i64)> = vec![(1000, 0), (1000, 2), (1000, 5), (1000, 700), (300, 40)];
    app("apply: up to every digit of the format", vast_table(cfg), bigtm);
    // values next to every overflow threshold: 10^(p-s) -+ half an ulp, one digit finer
    let mut v2 = vec![];
    let nt = tms.len() as u64;
    v2.push(space("apply: at the overflow threshold", nt * 12, move |i, c| {
        let (p, s) = tms[(i / 12) as usize];
        let k = (i % 12) as i64;
        let thr = crate::big::Big::pow10((p + 1) as usize); // 10^(p-s) at scale s+1
        let off = [0u32, 1, 4, 5, 6, 10][(k / 2) as usize];
        let m = thr.sub(&crate::big::Big::from_u128(off as u128));
        let x = Opnd::new(Val::Fin(Dec::new(k % 2 == 1, m, s + 1)));
        c.desc(|| format!("x={}, typmod ({}, {})", x.show(), p, s));
        apply_check(&x, Typmod::new(p as i32, s as i32).unwrap(), apply_expect(&x.val, p, s), c);
    }));
    v.append(&mut v2);
    let dt = with_nan(small(&[0, 1, 4], true).into_iter().chain(header_boundary(true)).chain(extremes(true)).collect());
    v.push(singles("default type modifier", dt, |x, c| {
        apply_check(x, Typmod::default(), (false, x.val.clone()), c);
    }));
    v.push(space("default type modifier value", 1, |_, c| {
        c.desc(|| "Typmod::default()".into());
        c.eq("value", Typmod::default().value(), -1);
    }));
    v
}

pub fn sign_check() -> impl Fn(&Opnd, &mut Ctx) + Clone {
    let gs: Vec<Vec<ops::Op1>> = ["neg", "abs", "signum", "inc"].iter().map(|g| ops::group1(g)).collect();
    let qs: Vec<Vec<ops::Op1>> = ["is_nan", "is_negative", "is_positive", "scale"].iter().map(|g| ops::group1(g)).collect();
    move |x: &Opnd, c: &mut Ctx| {
        let exp: [Val; 4] = match &x.val {
            Val::NaN => [Val::NaN, Val::NaN, Val::NaN, Val::NaN],
            Val::Fin(d) => [
                Val::Fin(d.negated()),
                Val::Fin(d.absv()),
                Val::Fin(Dec::int(if d.is_zero() { 0 } else if d.neg { -1 } else { 1 })),
                Val::Fin(d.add(&Dec::int(1))),
            ],
        };
        for (g, e) in gs.iter().zip(exp.iter()) {
            for o in g {
                let r = ops::run1(c, o, A::of(x));
                let r: Out<NumericBuf> = match r {
                    Ok(R::N(n)) => Ok(n),
                    Ok(_) => Err("no numeric".into()),
                    Err(p) => Err(p),
                };
                match e {
                    Val::Fin(d) => c.is_or_panic(o.name, &r, d),
                    Val::NaN => c.is(o.name, &r, e),
                }
            }
        }
        let (nan, neg, pos, sc) = match &x.val {
            Val::NaN => (1, 0, 0, "None".to_string()),
            Val::Fin(d) => (0, d.neg as u8, !d.neg as u8, format!("Some({})", d.scale)),
        };
        let exp: [Vec<u8>; 4] = [vec![nan], vec![neg], vec![pos], sc.into_bytes()];
        for (g, e) in qs.iter().zip(exp.iter()) {
            for o in g {
                match ops::run1(c, o, A::of(x)) {
                    Ok(R::T(t)) => c.check(t == *e, || format!("{}: got {:?}, expected {:?}", o.name, t, e)),
                    _ => c.fail(format!("{} failed", o.name)),
                }
            }
        }
    }
}

pub fn c18(cfg: Cfg) -> Vec<Space> {
    let f = sign_check();
    let sc: Vec<i64> = if cfg.thorough() { (0..=70).collect() } else { (0..=20).chain([63, 64, 65]).collect() };
    let n = cfg.size(20000, 10000, cfg.deep(200_000, 1_000_000));
    vec![
        singles("small", with_nan(small(&sc, true)), f.clone()),
        singles("range(scale 0)", dtable(range(-n, n, 0)), f.clone()),
        singles("range(scale 2)", dtable(range(-n, n, 2)), f.clone()),
        singles("range(scale 4)", dtable(range(-n, n, 4)), f.clone()),
        singles("groups", group_table(cfg, true), f.clone()),
        singles("groups with larger scale", dtable(groups(&D5, 3, &[-3, -1, 0, 1, 3], &[0, 1, 4, 70], true)), f.clone()),
        singles("long", long_table(cfg), f.clone()),
        singles("header boundary", boundary_table(), f.clone()),
        singles("digits x point positions", grid_table(cfg), f.clone()),
        singles("up to every digit of the format", vast_table(cfg), f.clone()),
        singles("extremes", with_nan(extremes(true)), f.clone()),
        singles("ladder of weights", dtable(ladder(&[1], 32767, true).into_iter().chain(ladder(&[5000], 32767, true)).chain(ladder(&[9999, 1], 32767, true)).collect()), f),
        space("constants", 1, |_, c| {
            c.desc(|| "zero() and nan() of both types".into());
            let r = c.call(|| (NumericBuf::zero(), NumericBuf::nan(), Numeric::zero().to_owned(), Numeric::nan().to_owned()));
            match r {
                Ok((a, b, d, e)) => {
                    c.bytes_are("NumericBuf::zero()", a.as_bytes(), &Val::Fin(Dec::zero(0)));
                    c.bytes_are("NumericBuf::nan()", b.as_bytes(), &Val::NaN);
                    c.bytes_are("Numeric::zero()", d.as_bytes(), &Val::Fin(Dec::zero(0)));
                    c.bytes_are("Numeric::nan()", e.as_bytes(), &Val::NaN);
                    c.bytes_are("Numeric::zero() bytes", Numeric::zero().as_bytes(), &Val::Fin(Dec::zero(0)));
                    c.bytes_are("Numeric::nan() bytes", Numeric::nan().as_bytes(), &Val::NaN);
                }
                Err(p) => c.fail(format!("panicked: {}", p)),
            }
        }),
    ]
}
