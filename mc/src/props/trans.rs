//! C14 sqrt, C15 exp and logarithms, C16 power, C17 factorial.
use super::*;
use crate::big::Big;
use crate::dec::{self, Dec, Val};
use crate::fx::{self, Fx};
use pgnumeric::NumericBuf;
use std::cmp::Ordering;

/// Highest result scale the library selects by itself.
const CAP: i64 = 1000;
const SIG: i64 = 16;

/// Allowed error in thousandths of a unit of the last displayed place.
const TOL: u64 = 600;

fn clamp(s: i64) -> i64 {
    s.clamp(0, CAP)
}

fn fin(c: &mut Ctx, what: &str, r: &Out<NumericBuf>) -> Option<Dec> {
    match r {
        Ok(n) => match c.decode(what, n) {
            Some(Val::Fin(d)) => Some(d),
            Some(Val::NaN) => {
                c.fail(format!("{}: NaN", what));
                None
            }
            None => None,
        },
        Err(p) => {
            let m = format!("{}: panicked ({})", what, p);
            c.fail(m);
            None
        }
    }
}

fn must_panic<T>(c: &mut Ctx, what: &str, r: &Out<T>) {
    c.check(r.is_err(), || format!("{}: returned instead of panicking", what));
}

fn near(c: &mut Ctx, what: &str, r: &Dec, t: &Dec) {
    let e = fx::milli_ulps(r, t);
    if std::env::var_os("MC_ERR").is_some() && e > 505 {
        eprintln!("ERR {} {} r={}", e, what, Val::Fin(r.clone()).show());
    }
    c.check(e <= TOL, || {
        format!("{}: got {}, which is {}.{:03} units in the last place off {}", what, Val::Fin(r.clone()).show(), e / 1000, e % 1000, Val::Fin(t.round((r.scale + 5).min(t.scale))).show())
    });
}

// ---------------------------------------------------------------- C14

fn sqrt_scale(x: &Dec) -> i64 {
    // weight of zero is 0
    let w = x.weight();
    let sw = (w + 1) * 4 / 2 - 1;
    clamp((SIG - sw).max(x.scale))
}

fn sqrt_case(x: &Opnd, c: &mut Ctx) {
    let d = x.d();
    let n = x.num();
    let r = c.call(|| n.sqrt());
    if d.neg {
        must_panic(c, "sqrt(x)", &r);
        return;
    }
    let s = sqrt_scale(d);
    if let Some(r) = fin(c, "sqrt(x)", &r) {
        c.eq("scale of sqrt(x)", r.scale, s);
        c.check(!r.neg, || "sqrt(x) is negative".into());
        if c.failed() {
            return;
        }
        // (1000 R - t)^2 <= 10^6 x 10^2s <= (1000 R + t)^2 with R = r 10^s
        let (mut lhs, mut k) = (d.mag.mul_pow10(6), Big::one());
        if 2 * s >= d.scale {
            lhs = lhs.mul_pow10((2 * s - d.scale) as usize);
        } else {
            k = Big::pow10((d.scale - 2 * s) as usize);
        }
        let t = Big::from_u128(501);
        let q = r.mag.mul_pow10(3);
        let hi = q.add(&t);
        let hi2 = hi.mul(&hi).mul(&k);
        let mut ok = hi2.cmp(&lhs) != Ordering::Less;
        if q.cmp(&t) == Ordering::Greater {
            let lo = q.sub(&t);
            ok &= lo.mul(&lo).mul(&k).cmp(&lhs) != Ordering::Greater;
        }
        c.check(ok, || format!("sqrt(x) = {} is not the square root rounded to {} places", Val::Fin(r.clone()).show(), s));
    }
}

/// x is the square of y exactly
fn square_case(y: &Opnd, c: &mut Ctx) {
    let root = y.d().absv();
    let x = root.mul(&root);
    if x.scale > dec::DSCALE_MAX || !x.fits() {
        return;
    }
    let o = Opnd::new(Val::Fin(x.clone()));
    let n = o.num();
    let r = c.call(|| n.sqrt());
    let s = sqrt_scale(&x);
    c.is("sqrt(y*y)", &r, &Val::Fin(root.round(s)));
}

/// integers around squares, at a given scale
fn near_squares(n: i128, scale: i64) -> Vec<Dec> {
    let mut v = vec![];
    for i in 1..=n {
        for e in [-1, 1] {
            v.push(Dec::of(i * i + e, scale));
        }
    }
    v
}

pub fn c14(cfg: Cfg) -> Vec<Space> {
    let mut v = vec![];
    let n = cfg.size(250_000, 40_000, 2_000_000);
    for s in [0, 1, 2, 3, 5, 8] {
        v.push(singles(format!("range 0..{} at scale {}", n, s), dtable(range(0, n, s)), sqrt_case));
    }
    let g = if cfg.thorough() { groups(&arith::D8, 4, &(-17..=17).collect::<Vec<_>>(), &[0, 1, 3, 5], false) } else { groups(cfg.size(&arith::D8[..], &arith::D5[..], &arith::D8[..]), 4, &(-8..=8).collect::<Vec<_>>(), &[0], false) };
    v.push(singles("groups", dtable(g), sqrt_case));
    let n = cfg.size(200_000, 40_000, 1_000_000);
    v.push(singles("squares of integers", dtable(range(0, n, 0)), square_case));
    v.push(singles("squares at scale 3", dtable(range(0, n, 3)), square_case));
    v.push(singles("squares of groups", dtable(groups(cfg.size(&arith::D8[..], &arith::D5[..], &arith::D8[..]), 4, &(-6..=6).collect::<Vec<_>>(), &[0], false)), square_case));
    v.push(singles("squares of long", dtable(long(cfg.size(&[5, 9, 17, 33, 65, 200][..], &[5, 17, 33][..], &[5, 9, 17, 18, 33, 65, 129, 200, 401, 1000][..]), &[0, 1, 2, 3, 4, 5, 6, 7, 8], false)), square_case));
    for s in [0, 2, 7, 16, 40] {
        v.push(singles(format!("next to squares at scale {}", s), dtable(near_squares(cfg.size(25_000, 5000, 200_000), s)), sqrt_case));
    }
    v.push(singles("long", dtable(long(cfg.size(&[5, 9, 17, 33, 65, 129, 300][..], &[5, 17, 65][..], &[5, 9, 17, 18, 33, 65, 129, 200, 401, 1000][..]), &[0, 1, 2, 3, 4, 5, 6, 7, 8], false)), sqrt_case));
    v.push(singles("header boundary", boundary(), sqrt_case));
    let g: Vec<Dec> = crate::lat::grid(1..=cfg.size(150, 60, 300), |l| (0..=l + 9).collect(), false);
    v.push(singles("digits x point positions", dtable(g), sqrt_case));
    let g: Vec<Dec> = crate::lat::grid(1..=cfg.size(80, 30, 160), |l| (0..=l + 3).collect(), false);
    let near: Vec<Dec> = g.iter().flat_map(|d| {
        let q = d.mul(d);
        let u = Dec::of(1, q.scale);
        [q.add(&u), q.add(&u.negated())]
    }).filter(|d| !d.neg).collect();
    v.push(singles("next to squares of digits x point positions", dtable(near), sqrt_case));
    v.push(singles("squares of digits x point positions", dtable(g), square_case));
    let every: Vec<i64> = (0..=1003).step_by(cfg.size(1, 3, 1)).collect();
    v.push(singles("wide scale", dtable(padded(&every)), sqrt_case));
    let mut e = vec![];
    for w in [-4096, -4095, -4094, -2048, -1000, -501, -500, -251, -250, -249, -17, 17, 100, 251, 500, 1000] {
        for g in [&[1u16][..], &[9999], &[1, 9999], &[2, 0, 3], &[5000, 1]] {
            push_scaled(&mut e, g, w, &[0, 1], false);
        }
    }
    for s in [998, 999, 1000, 1001, 1002, 1999, 2000, 2001, 16382, 16383] {
        for c in [0i128, 1, 2, 4, 99, 123456789] {
            e.push(Dec::of(c, s));
        }
    }
    v.push(singles("scale extremes", dtable(e), sqrt_case));
    let mut e = vec![];
    for w in if cfg.thorough() { vec![4095, 8191, 16383, 32766, 32767] } else { vec![2048, 4095] } {
        for g in [&[1u16][..], &[9999], &[2, 0, 3]] {
            push_scaled(&mut e, g, w, &[0], false);
        }
    }
    v.push(singles("weight extremes", dtable(e), sqrt_case));
    // roots next to powers of two and of ten: the integers around their squares and around the squares of their halves
    let mut e = vec![];
    for r in power_neighbours(cfg.size(130, 66, 400), cfg.size(40, 24, 120)) {
        let q = r.mul(&r);
        for x in [q.clone(), q.add(&Dec::int(1)), q.sub(&Dec::int(1)), q.add(&r), q.add(&r).add(&Dec::int(1)), q.sub(&r), q.sub(&r).add(&Dec::int(1))] {
            for s in cfg.size(&[0i64, 1, 2, 6, 12, 21][..], &[0, 6][..], &[0, 1, 2, 3, 4, 5, 6, 9, 12, 16, 21, 32, 40][..]) {
                e.push(Dec::new(false, x.mag.clone(), *s));
            }
        }
    }
    v.push(singles("next to squares and midpoints of powers of 2 and 10", dtable(e), sqrt_case));
    v.push(singles("machine integers", arith::machine_table(cfg, false), sqrt_case));
    v.push(singles("negative", dtable(range(-300, -1, 0).into_iter().chain(range(-300, -1, 5)).chain([Dec::of(-1, 16383), Dec::new(true, Big::pow10(131071), 0)]).collect()), sqrt_case));
    v
}

fn boundary() -> Table {
    dtable(header_boundary(false))
}

// ---------------------------------------------------------------- C15

fn f64_of(d: &Dec) -> f64 {
    // enough of the leading digits
    let nd = d.mag.ndigits();
    let (m, e) = if nd > 25 { (d.mag.div_pow10(nd - 25).0, (nd - 25) as i64 - d.scale) } else { (d.mag.clone(), -d.scale) };
    let f: f64 = format!("{}e{}", m.to_string(), e).parse().unwrap();
    if d.neg {
        -f
    } else {
        f
    }
}

/// trunc toward zero, both values when v is within tol of an integer
fn truncs(v: f64, tol: f64) -> Vec<i64> {
    let mut r = vec![(v - tol).trunc() as i64, (v + tol).trunc() as i64];
    r.dedup();
    r
}

/// The decimal weight of ln(x) as the scale selection estimates it.
fn ln_dweights(x: &Dec, lnx: f64) -> Vec<i64> {
    let one = Dec::int(1);
    if x.cmp(&Dec::of(9, 1)) != Ordering::Less && x.cmp(&Dec::of(11, 1)) != Ordering::Greater {
        let y = x.sub(&one);
        return vec![if y.is_zero() { 0 } else { y.mag.ndigits() as i64 - 1 - y.scale }];
    }
    // the estimate uses the leading five to eight digits
    truncs(lnx.abs().log10(), 2e-4 / lnx.abs().min(1.0))
}

fn scale_in(c: &mut Ctx, what: &str, got: i64, exp: &[i64]) {
    c.check(exp.contains(&got), || format!("scale of {} is {}, expected {:?}", what, got, exp));
}

/// ln x as a decimal accurate far beyond `s` places
fn ln_ref(x: &Dec, s: i64) -> Dec {
    let p = s as usize + 12;
    fx::ln(x, p).to_dec(p)
}

fn ln_case(x: &Opnd, c: &mut Ctx) {
    let d = x.d();
    let n = x.num();
    let r = c.call(|| n.ln());
    if d.neg || d.is_zero() {
        must_panic(c, "ln(x)", &r);
        return;
    }
    let lf = f64_of(&ln_ref(d, 16));
    let exp: Vec<i64> = ln_dweights(d, lf).iter().map(|w| clamp((SIG - w).max(d.scale))).collect();
    if let Some(r) = fin(c, "ln(x)", &r) {
        scale_in(c, "ln(x)", r.scale, &exp);
        if !c.failed() {
            near(c, "ln(x)", &r, &ln_ref(d, r.scale));
        }
    }
}

fn log_check(c: &mut Ctx, what: &str, r: &Out<NumericBuf>, x: &Dec, b: &Dec) {
    if x.neg || x.is_zero() || b.neg || b.is_zero() {
        must_panic(c, what, r);
        return;
    }
    if b.cmp(&Dec::int(1)) == Ordering::Equal {
        must_panic(c, what, r);
        return;
    }
    let (lx, lb) = (f64_of(&ln_ref(x, 16)), f64_of(&ln_ref(b, 16)));
    let mut exp = vec![];
    for wx in ln_dweights(x, lx) {
        for wb in ln_dweights(b, lb) {
            exp.push(clamp((SIG - (wx - wb)).max(x.scale).max(b.scale)));
        }
    }
    if let Some(r) = fin(c, what, r) {
        scale_in(c, what, r.scale, &exp);
        if c.failed() {
            return;
        }
        // quotient to scale + 8: both logarithms with enough significant digits
        let s = r.scale;
        let wb = if lb == 0.0 || lb.abs() < 1e-300 { -(b.sub(&Dec::int(1)).scale) } else { lb.abs().log10().floor() as i64 };
        let wx = if lx.abs() < 1e-300 { 0 } else { lx.abs().log10().floor() as i64 };
        let p = (s + 12 + 2 * wb.abs() + wx.abs()) as usize;
        let (nx, nb) = (fx::ln(x, p), fx::ln(b, p));
        let g = (s + 8) as usize;
        let q = nx.mag.mul_pow10(g).divrem(&nb.mag).0;
        near(c, what, &r, &Dec::new(nx.neg != nb.neg, q, g as i64));
    }
}

fn log_case(x: &Opnd, b: &Opnd, c: &mut Ctx) {
    let (n, m) = (x.num(), b.num());
    let r = c.call(|| n.log(m));
    log_check(c, "x.log(b)", &r, x.d(), b.d());
}

fn log2_10_case(x: &Opnd, c: &mut Ctx) {
    let n = x.num();
    let r = c.call(|| n.log2());
    log_check(c, "x.log2()", &r, x.d(), &Dec::int(2));
    let r = c.call(|| n.log10());
    log_check(c, "x.log10()", &r, x.d(), &Dec::int(10));
}

/// exp with `s` accurate decimals: (value at scale s+g)
fn exp_ref(x: &Dec, s: i64) -> Dec {
    // significant digits needed: decimal weight + s
    let xf = f64_of(x);
    let w = (xf * std::f64::consts::LOG10_E).floor() as i64;
    let p = (w.max(0) + s + 14 + 6) as usize;
    let p = if x.scale > p as i64 && x.scale < 3000 { x.scale as usize } else { p };
    exp_fx(&fx::from_dec(x, p), p, s)
}

fn exp_fx(x: &Fx, p: usize, s: i64) -> Dec {
    let (m, n) = fx::exp(x, p);
    // m / 10^p * 10^n at scale s + 8
    let want = s + 8;
    let sh = want - p as i64 + n;
    let mag = if sh >= 0 { m.mul_pow10(sh as usize) } else if (-sh) as usize > m.ndigits() + 1 { Big::zero() } else { m.div_pow10((-sh) as usize).0 };
    Dec::new(false, mag, want)
}

fn exp_case(x: &Opnd, c: &mut Ctx) {
    let d = x.d();
    let n = x.num();
    let r = c.call(|| n.exp());
    let lim = Dec::int(6000);
    let a = d.absv();
    match r {
        Err(p) => c.fail(format!("exp(x): panicked ({})", p)),
        Ok(None) => {
            // the limit is tested in double precision
            let close = lim.sub(&Dec::of(1, 11));
            c.check(a.cmp(&close) == Ordering::Greater, || "exp(x): None below the limit".into());
        }
        Ok(Some(r)) => {
            c.check(a.cmp(&lim) == Ordering::Less, || "exp(x): a value beyond the limit".into());
            if c.failed() {
                return;
            }
            let r = Ok(r);
            if let Some(r) = fin(c, "exp(x)", &r) {
                let v = (f64_of(d) * std::f64::consts::LOG10_E).clamp(-2000.0, 2000.0);
                let exp: Vec<i64> = truncs(v, 1e-9).iter().map(|w| clamp((SIG - w).max(d.scale))).collect();
                scale_in(c, "exp(x)", r.scale, &exp);
                if !c.failed() {
                    near(c, "exp(x)", &r, &exp_ref(d, r.scale));
                }
            }
        }
    }
}

/// b^k + {-2..2} for b = 2, 10 (positive ones)
fn power_neighbours(k2: u32, k10: u32) -> Vec<Dec> {
    let mut v = vec![];
    for (b, m) in [(2u128, k2), (10, k10)] {
        for k in 0..=m {
            for d in -2..=2 {
                let x = Dec::new(false, Big::from_u128(b).pow(k), 0).add(&Dec::int(d));
                if !x.neg && !x.is_zero() {
                    v.push(x);
                }
            }
        }
    }
    v
}

/// b^k + {-1, 0, 1}, also with additional display digits
fn powers_scaled(bases: &[u128], digits: usize, scales: &[i64]) -> Vec<Dec> {
    let mut v = vec![];
    for &b in bases {
        let mut p = Big::one();
        while p.ndigits() <= digits {
            for d in [-1, 0, 1] {
                let x = Dec::new(false, p.clone(), 0).add(&Dec::int(d));
                if !x.is_zero() {
                    v.extend(scales.iter().map(|&s| x.round(s)));
                }
            }
            p = p.mul(&Big::from_u128(b));
        }
    }
    v
}

/// 1 +- c * 10^-k
fn near_one(kmax: i64, step: i64) -> Vec<Dec> {
    let mut v = vec![];
    let mut k = 1;
    while k <= kmax {
        for cf in [1i128, 2, 9, 12345] {
            for sg in [1, -1] {
                v.push(Dec::int(1).add(&Dec::of(sg * cf, k)));
            }
        }
        k += step;
    }
    v.retain(|d| !d.neg && !d.is_zero());
    v
}

fn powers(bases: &[i128], e: i64) -> Vec<Dec> {
    let mut v = vec![];
    for &b in bases {
        for k in 0..=e {
            v.push(Dec::new(false, Big::from_u128(b as u128).pow(k as u32), 0));
        }
    }
    v
}

/// wide scale: few digits, large display scale
fn padded(scales: &[i64]) -> Vec<Dec> {
    let mut v = vec![];
    for &s in scales {
        for (c, k) in [(1i128, 0), (2, 0), (3, 0), (10, 0), (15, 1), (1, 1), (123456, 3), (99, 2), (11, 1), (1000, 0)] {
            v.push(Dec::of(c, k).round(s.max(k)));
        }
    }
    v
}

pub fn c15(cfg: Cfg) -> Vec<Space> {
    let mut v = vec![];
    let n = cfg.size(60_000, 10_000, 400_000);
    for s in [0, 1, 2, 4] {
        v.push(singles(format!("ln: range -20..{} at scale {}", n, s), dtable(range(-20, n, s)), ln_case));
    }
    for (s, n) in [(0, cfg.size(1500, 300, 6000)), (1, cfg.size(8000, 1500, 60000)), (2, cfg.size(40_000, 8000, 600_000)), (3, cfg.size(60_000, 12_000, 400_000)), (7, cfg.size(40_000, 8000, 400_000))] {
        v.push(singles(format!("exp: range -{0}..{0} at scale {1}", n, s), dtable(range(-n, n, s)), exp_case));
    }
    v.push(singles("ln: groups", dtable(if cfg.thorough() { groups(&arith::D8, 4, &(-9..=9).collect::<Vec<_>>(), &[0, 5], false) } else { groups(cfg.size(&arith::D8[..], &arith::D5[..], &arith::D8[..]), 3, &(-6..=6).collect::<Vec<_>>(), &[0], false) }), ln_case));
    v.push(singles("exp: groups", dtable(if cfg.thorough() { groups(&arith::D8, 3, &(-9..=1).collect::<Vec<_>>(), &[0, 5], true) } else { groups(&arith::D5, 3, &(-4..=1).collect::<Vec<_>>(), &[0], true) }), exp_case));
    v.push(singles("ln: next to 1", dtable(near_one(cfg.size(400, 100, 1500), 1)), ln_case));
    v.push(singles("log2, log10: next to 1", dtable(near_one(cfg.size(200, 60, 1000), 1)), log2_10_case));
    v.push(singles("log2, log10: range", dtable(range(-10, cfg.size(12000, 2000, 200_000), 0).into_iter().chain(range(0, cfg.size(12000, 2000, 200_000), 3)).collect()), log2_10_case));
    v.push(singles("log2, log10: exact powers", dtable(powers(&[2, 10], cfg.size(700, 150, 1500))), log2_10_case));
    let t = dtable(small(cfg.size(&[0, 1, 3, 5][..], &[0, 1, 3][..], &[0, 1, 2, 3, 4, 5, 9][..]), false).into_iter().chain(range(-3, cfg.size(60, 12, 200), 0)).chain(range(1, cfg.size(60, 12, 200), 2)).chain(near_one(8, 1)).chain(near_one(33, 16)).collect());
    v.push(pairs("log: x, base", t.clone(), t, log_case));
    // powers and their neighbours, with more digits to give than their magnitude asks for
    let bs: &[u128] = cfg.size(&[2, 3, 5, 7, 10, 12, 100, 1024, 10000][..], &[2, 10][..], &[2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 64, 99, 100, 101, 1000, 1024, 9999, 10000, 10001][..]);
    let sc: &[i64] = cfg.size(&[0, 10, 20, 35, 50][..], &[20][..], &[0, 5, 10, 15, 20, 25, 30, 35, 36, 37, 38, 39, 40, 50, 60, 80][..]);
    v.push(singles("ln: powers and their neighbours x scales", dtable(powers_scaled(bs, cfg.size(40, 20, 80), sc)), ln_case));
    v.push(singles("log2, log10: powers and their neighbours x scales", dtable(powers_scaled(cfg.size(&[2, 5, 10, 16][..], &[2, 10][..], bs), cfg.size(30, 20, 60), cfg.size(&[0, 20, 40][..], &[20][..], sc))), log2_10_case));
    let mut e = vec![];
    for b in cfg.size(&[2u128, 3, 7, 10, 11, 16, 60, 1000][..], &[3, 10][..], &[2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 17, 20, 60, 99, 100, 1000, 1024][..]) {
        for x in powers_scaled(&[*b], cfg.size(24, 12, 40), cfg.size(&[0, 20][..], &[20][..], &[0, 10, 20, 40][..])) {
            for s in [0, 30] {
                e.push((x.clone(), Dec::int(*b as i128).round(s)));
                e.push((x.clone(), Dec::of(1, 3).mul(&Dec::int(*b as i128 + 1)).round(s.max(3))));
            }
        }
    }
    let e: Vec<(Opnd, Opnd)> = e.into_iter().filter(|(_, b)| !b.is_zero()).map(|(x, b)| (Opnd::new(Val::Fin(x)), Opnd::new(Val::Fin(b)))).collect();
    v.push(space("log: powers of the base and their neighbours x scales", e.len() as u64, move |i, c| {
        let (x, b) = &e[i as usize];
        c.desc(|| format!("x={}, b={}", x.show(), b.show()));
        log_case(x, b, c);
    }));
    // 10^k, k large, with many digits
    let mut e = vec![];
    for k in cfg.size(&[50usize, 100, 400, 1000, 4000][..], &[100, 1000][..], &[50, 77, 100, 150, 200, 400, 800, 1000, 2000, 4000, 10000][..]) {
        for s in cfg.size(&[17i64, 25, 33, 36, 37, 38, 39, 45, 60][..], &[20, 40][..], &[17, 20, 25, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 45, 50, 60, 70, 80][..]) {
            e.push(Dec::new(false, Big::pow10(*k), 0).round(*s));
        }
    }
    v.push(singles("ln: large powers of 10 x scales", dtable(e), ln_case));
    let m = cfg.size(24, 8, 60);
    v.push(pairs("log: powers of the same number", dtable(powers(&[2, 3, 7, 10], m)), dtable(powers(&[2, 3, 7, 10], m)), log_case));
    let mut near_limit = vec![];
    for c in [6000i128, 5999, 6001, 5998, 10000, 100000] {
        for s in [0, 1, 3, 9, 10, 11, 20] {
            for e in [-1, 0, 1] {
                let d = Dec::int(c).round(s).add(&Dec::of(e, s));
                near_limit.push(d.negated());
                near_limit.push(d);
            }
        }
    }
    near_limit.push(Dec::new(false, Big::pow10(131071), 0));
    near_limit.push(Dec::new(true, Big::pow10(131071), 0));
    near_limit.push(Dec::of(1, 16383));
    near_limit.push(Dec::of(-1, 16383));
    near_limit.push(Dec::of(0, 16383));
    v.push(singles("exp: limit", dtable(near_limit), exp_case));
    let mut l = vec![];
    let st = cfg.size(97, 397, 7);
    let mut k = -5995;
    while k < 6000 {
        l.push(Dec::of(k * 10 + 3, 1));
        k += st;
    }
    v.push(singles("exp: large arguments", dtable(l), exp_case));
    let sc: Vec<i64> = cfg.size((0..=120).chain([150, 200, 255, 300, 400]).collect(), (0..=60).chain([100]).collect(), (0..=300).chain([400, 500, 700, 999, 1000, 1001, 1500]).collect());
    let sc = &sc[..];
    let g = dtable(crate::lat::grid(1..=cfg.size(60, 24, 120), |l| (0..=l + 9).collect(), false));
    v.push(singles("ln: digits x point positions", g.clone(), ln_case));
    v.push(singles("log2, log10: digits x point positions", dtable(crate::lat::grid(1..=cfg.size(40, 16, 80), |l| (0..=l + 5).collect(), false)), log2_10_case));
    v.push(singles("exp: digits x point positions", dtable(crate::lat::grid(1..=cfg.size(60, 24, 120), |l| (l - 3..=l + 9).filter(|s| *s >= 0).collect(), true)), exp_case));
    v.push(singles("ln: wide scale", dtable(padded(sc)), ln_case));
    v.push(singles("exp: wide scale", dtable(padded(sc)), exp_case));
    v.push(singles("log2, log10: wide scale", dtable(padded(&sc[..sc.len() - 1])), log2_10_case));
    let mut e = vec![];
    for w in cfg.size(&[-4096, -1000, -250, -65, -64, -17, 17, 63, 64, 250, 1000][..], &[-250, -65, 64, 250][..], &[-4096, -4000, -1000, -250, -65, -64, -17, 17, 63, 64, 250, 1000, 4000, 8191][..]).iter().copied() {
        for g in [&[1u16][..], &[9999], &[2, 0, 3]] {
            push_scaled(&mut e, g, w, &[0], false);
        }
    }
    // large value and many decimals at the same time: most range reduction steps
    for w in cfg.size(&[30, 250][..], &[30][..], &[30, 100, 250, 1000, 2500][..]).iter().copied() {
        for s in cfg.size(&[100, 400][..], &[100][..], &[100, 400, 1000][..]).iter().copied() {
            push_scaled(&mut e, &[7, 1], w, &[s], false);
            push_scaled(&mut e, &[9999], w, &[s], false);
        }
    }
    // few digits, huge weight
    for w in cfg.size(&[8000, 32767][..], &[4000][..], &[8000, 16383, 20000, 30000, 32000, 32766, 32767][..]).iter().copied() {
        for g in [&[7u16][..], &[9999], &[1]] {
            for s in if cfg.thorough() { vec![0, 300, 1000] } else { vec![1000] } {
                push_scaled(&mut e, g, w, &[s], false);
            }
        }
    }
    let mut sp = singles("ln: extremes", dtable(e), ln_case);
    sp.case_limit = 240;
    v.push(sp);
    let mut e = vec![];
    for w in cfg.size(&[300, 2000][..], &[300][..], &[300, 2000, 8000, 32767][..]).iter().copied() {
        for g in [&[7u16][..], &[1]] {
            push_scaled(&mut e, g, w, &[0, 100], false);
        }
    }
    e.extend([Dec::of(1, 1200), Dec::of(7, 4000), Dec::of(1, 16383)]);
    let mut sp = singles("log2, log10: extremes", dtable(e), log2_10_case);
    sp.case_limit = 240;
    v.push(sp);
    v
}

// ---------------------------------------------------------------- C16

fn to_i32(y: &Dec) -> Option<i32> {
    if !y.is_integral() {
        return None;
    }
    let m = y.trunc(0).mag.to_u128()?;
    if m > 1 << 31 {
        return None;
    }
    let v = if y.neg { -(m as i64) } else { m as i64 };
    i32::try_from(v).ok()
}

/// (mag * 10^k)^e by repeated multiplication of mantissas cut to p + 12 digits (exact while they are shorter):
/// relative error below 10^-p.
fn fpow(mag: &Big, k: i64, e: u32, p: usize) -> (Big, i64) {
    let cut = |m: Big, k: i64| {
        let n = m.ndigits();
        if n > p + 12 {
            (m.div_pow10(n - p - 12).0, k + (n - p - 12) as i64)
        } else {
            (m, k)
        }
    };
    let mut r = (Big::one(), 0i64);
    for i in (0..32).rev() {
        r = cut(r.0.mul(&r.0), 2 * r.1);
        if e >> i & 1 == 1 {
            r = cut(r.0.mul(mag), r.1 + k);
        }
    }
    r
}

fn is_odd(y: &Dec) -> bool {
    y.is_integral() && y.trunc(0).mag.is_odd()
}

fn one_text(c: &mut Ctx, r: &Out<Option<NumericBuf>>, why: &str) {
    match r {
        Ok(Some(n)) => {
            if let Some(v) = c.decode("x.pow(y)", n) {
                let ok = matches!(&v, Val::Fin(d) if d.cmp(&Dec::int(1)) == Ordering::Equal);
                c.check(ok, || format!("x.pow(y): got {}, expected 1 ({})", v.show(), why));
            }
        }
        _ => c.fail(format!("x.pow(y): no value, expected 1 ({})", why)),
    }
}

fn pow_case(x: &Opnd, y: &Opnd, c: &mut Ctx) {
    let (a, b) = (x.num(), y.num());
    let r = c.call(|| a.pow(b));
    let (x, y) = match (&x.val, &y.val) {
        (Val::Fin(x), Val::Fin(y)) => (x, y),
        (vx, vy) => {
            // special rules for NaN
            if let Val::Fin(y) = vy {
                if y.is_zero() {
                    return one_text(c, &r, "NaN to the power 0");
                }
            }
            if let Val::Fin(x) = vx {
                if x.cmp(&Dec::int(1)) == Ordering::Equal {
                    return one_text(c, &r, "1 to the power NaN");
                }
            }
            match &r {
                Ok(Some(n)) => c.bytes_are("x.pow(y)", n.as_bytes(), &Val::NaN),
                _ => c.fail("x.pow(y) with NaN: no value"),
            }
            return;
        }
    };
    if (x.is_zero() && y.neg) || (x.neg && !y.is_integral()) {
        must_panic(c, "x.pow(y)", &r);
        return;
    }
    let r = match r {
        Err(p) => {
            c.fail(format!("x.pow(y): panicked ({})", p));
            return;
        }
        Ok(r) => r,
    };
    let neg = x.neg && is_odd(y);
    if let Some(e) = to_i32(y) {
        let s = clamp(SIG.max(x.scale));
        let ax = x.absv();
        let t: Option<Dec> = if x.is_zero() {
            Some(if e == 0 { Dec::int(1).round(s) } else { Dec::zero(s) })
        } else if e == 0 {
            Some(Dec::int(1).round(s))
        } else {
            let l10 = (f64_of_big(&ax.mag) - ax.scale as f64) * e as f64; // log10 of the result
            if l10 > 131072.0 + 1.0 {
                None
            } else if l10 < -(s as f64) - 3.0 {
                Some(Dec::zero(s))
            } else {
                // significant digits needed for an error far below a unit in place s
                let p = (l10.max(0.0) as i64 + s + 30) as usize;
                let (m, k) = fpow(&ax.mag, -ax.scale, e.unsigned_abs(), p);
                if e > 0 {
                    Some(Dec::new(neg, m, -k).at_least(s + 8))
                } else {
                    // 1 / (m 10^k) to s + 8 places
                    let g = s + 8 - k;
                    let q = if g < 0 { Big::zero() } else { Big::pow10(g as usize).divrem(&m).0 };
                    Some(Dec::new(neg, q, s + 8))
                }
            }
        };
        // does the rounded true value fit the format?
        let fits = match &t {
            None => false,
            Some(t) => t.mag.ndigits() as i64 - t.scale <= 131_072 && t.round(s).fits(),
        };
        match r {
            None => c.check(!fits, || "x.pow(y): None although the value fits".into()),
            Some(r) => {
                c.check(fits, || "x.pow(y): a value although the power does not fit".into());
                if c.failed() {
                    return;
                }
                let t = t.unwrap();
                if let Some(r) = fin(c, "x.pow(y)", &Ok(r)) {
                    c.eq("scale of x.pow(y)", r.scale, s);
                    if c.failed() {
                        return;
                    }
                    // integral powers of integers (and any exactly representable power) are exact
                    if e >= 0 && t.scale <= s {
                        let ok = r.cmp(&t) == Ordering::Equal;
                        c.check(ok, || format!("x.pow(y): got {}, expected exactly {}", Val::Fin(r.clone()).show(), Val::Fin(t.clone()).show()));
                    } else {
                        near(c, "x.pow(y)", &r, &t);
                    }
                }
            }
        }
        return;
    }
    // general case
    if x.is_zero() {
        if let Some(r) = opt_fin(c, r) {
            c.check(r.is_zero(), || "0 to a positive power is not 0".into());
        }
        return;
    }
    let ax = x.absv();
    // y * ln|x|, precisely enough
    let ny = y.mag.ndigits() as i64 - y.scale;
    if ax.cmp(&Dec::int(1)) == Ordering::Equal {
        let s = clamp(SIG.max(x.scale).max(y.scale));
        if let Some(r) = opt_fin(c, r) {
            c.eq("1 to a power", (r.neg, r.scale, r.cmp_abs(&Dec::int(1))), (neg, s, Ordering::Equal));
        }
        return;
    }
    // leading digit of ln|x|
    let nearness = ax.sub(&Dec::int(1));
    let lw = -(nearness.mag.ndigits() as i64 - nearness.scale); // >0 when x is close to 1
    let p0 = (30 + lw.max(0) + ny.max(0)) as usize;
    if ny > 12 + lw.max(0) {
        // |y ln x| is certainly beyond every limit
        pow_limit(c, r, nearness.neg == y.neg, None);
        return;
    }
    let l = fx::ln(&ax, p0).to_dec(p0).mul(y);
    let z = f64_of(&l);
    if z.abs() > 6000.0 * (1.0 + 1e-11) {
        pow_limit(c, r, !l.neg, None);
        return;
    }
    let near_limit = z.abs() >= 6000.0 * (1.0 - 1e-11);
    if near_limit {
        pow_limit(c, r, !l.neg, Some(()));
        return;
    }
    let v = z * std::f64::consts::LOG10_E;
    let exp: Vec<i64> = truncs(v, 1e-6 * (1.0 + v.abs())).iter().map(|w| clamp((SIG - w).max(x.scale).max(y.scale))).collect();
    if let Some(r) = opt_fin(c, r) {
        scale_in(c, "x.pow(y)", r.scale, &exp);
        if c.failed() {
            return;
        }
        let s = r.scale;
        let w = v.max(0.0) as i64;
        let p = (w + s + 30) as usize;
        let pl = p + ny.max(0) as usize + 4;
        let l = fx::ln(&ax, pl).to_dec(pl).mul(y);
        let mut t = exp_fx(&fx::from_dec(&l, p), p, s);
        t.neg = neg && !t.mag.is_zero();
        near(c, "x.pow(y)", &r, &t);
    }
}

fn opt_fin(c: &mut Ctx, r: Option<NumericBuf>) -> Option<Dec> {
    match r {
        None => {
            c.fail("x.pow(y): None although the value fits");
            None
        }
        Some(r) => fin(c, "x.pow(y)", &Ok(r)),
    }
}

fn pow_limit(c: &mut Ctx, r: Option<NumericBuf>, large: bool, either: Option<()>) {
    match r {
        None => c.check(large || either.is_some(), || "x.pow(y): None for a power that underflows to zero".into()),
        Some(n) => {
            if let Some(d) = fin(c, "x.pow(y)", &Ok(n)) {
                c.check(!large || either.is_some(), || format!("x.pow(y): got {} for a power beyond the limit", Val::Fin(d.clone()).show()));
                if !large {
                    c.check(d.is_zero() && !d.neg, || format!("x.pow(y): got {} for a power that underflows", Val::Fin(d.clone()).show()));
                }
            }
        }
    }
}

/// log10 of a natural
fn f64_of_big(m: &Big) -> f64 {
    let nd = m.ndigits();
    let (t, e) = if nd > 25 { (m.div_pow10(nd - 25).0, nd - 25) } else { (m.clone(), 0) };
    t.to_string().parse::<f64>().unwrap().log10() + e as f64
}

fn vals(v: Vec<Dec>) -> Vec<Val> {
    v.into_iter().map(Val::Fin).collect()
}

pub fn c16(cfg: Cfg) -> Vec<Space> {
    let mut v = vec![];
    // integer exponents
    let m = cfg.size(500, 150, 1000);
    let e = cfg.size(100, 50, 150);
    v.push(pairs("integers to integers", dtable(range(-m, m, 0)), dtable(range(-e, e, 0)), pow_case));
    // every base of one group to every exponent whose result is near the machine integers
    let bits = cfg.size(130.0, 70.0, 260.0);
    let mut l = vec![];
    for b in (2i128..cfg.size(10_000, 1000, 30_000)).chain((10_000..100_000).step_by(cfg.size(997, 9973, 97))) {
        for k in 1..=(bits / (b as f64).log2()) as i128 {
            l.push((Dec::int(if (b + k) % 3 == 0 { -b } else { b }), Dec::int(k)));
        }
    }
    v.push(list_pairs("every base to powers of the machine integers' size", l));
    v.push(pairs("machine integers to small integers", arith::machine_table(cfg, true), dtable([2, 3, 4, -1, -2].map(Dec::int).to_vec()), pow_case));
    for s in [1, 2, 3, 5] {
        v.push(pairs(format!("scale {} to integers", s), dtable(range(-2 * m, 2 * m, s)), dtable(range(-e, e, 0).into_iter().chain([Dec::of(20, 1), Dec::of(-3000, 3)]).collect()), pow_case));
    }
    let g = dtable(groups(&arith::D5, 3, cfg.size(&[-5, -2, -1, 0, 1, 2, 5][..], &[-1, 0, 1][..], &[-5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5][..]), &[0], true));
    v.push(pairs("groups to integers", g, dtable(range(cfg.size(-12, -6, -20), cfg.size(20, 8, 30), 0)), pow_case));
    // large exponents
    let t = dtable(near_one(cfg.size(9, 6, 9), cfg.size(1, 3, 1)).into_iter().filter(|d| cfg.thorough() || d.absv().cmp(&Dec::of(14, 1)) == Ordering::Less).chain([Dec::int(-1), Dec::int(1), Dec::of(-10001, 4), Dec::of(99999, 5), Dec::of(-99999, 5)]).collect());
    let es = [100i128, 101, 999, 1000, 4096, 10001, 65535, 65536, 99999];
    v.push(pairs("next to 1, large integers", t, dtable(es.iter().flat_map(|&e| [Dec::int(e), Dec::int(-e)]).collect()), pow_case));
    let mut tiny = near_one(30, 7);
    // (larger distances from 1 give results of 100000 digits)
    let far = cfg.size(8, 15, 4);
    tiny.retain(|d| d.scale >= far && (cfg.thorough() || d.sub(&Dec::int(1)).absv().cmp(&Dec::of(1, 7)) == Ordering::Less));
    tiny.truncate(cfg.size(24, 24, 100));
    tiny.extend([Dec::int(1), Dec::int(-1), Dec::of(10, 1), Dec::of(-100, 2)]);
    let es = [i32::MAX as i128, i32::MAX as i128 - 1, i32::MIN as i128, i32::MIN as i128 + 1, 1 << 31, (1 << 31) + 1, -(1 << 31) - 1, 1_000_000_007, 1_000_000_008, 30_000_000_001, 12_3450_0000_0000];
    v.push(pairs("next to 1, exponents around i32", dtable(tiny), dtable(es.iter().map(|&e| Dec::int(e)).collect()), pow_case));
    // overflow boundary for integers: 10^k, 2^n around 10^131072
    let mut b = vec![];
    let lim2 = 435_411; // 2^435411 < 10^131072 <= 2^435412
    let list: Vec<(i128, Vec<i128>)> = vec![
        (10, vec![131_070, 131_071, 131_072, 131_073, 200_000, 400_000, 10_000_000, i32::MAX as i128]),
        (100, vec![65_535, 65_536, 65_537]),
        (9999, vec![32_768, 32_769]),
        (10_000, vec![32_767, 32_768, 32_769]),
        (10_000_000_000_000_000, vec![8_191, 8_192, 8_193]),
        (2, if cfg.thorough() { vec![lim2 - 1, lim2, lim2 + 1, lim2 + 2] } else { vec![lim2, lim2 + 1] }),
    ];
    for (x, es) in list {
        for e in es {
            b.push((Dec::int(x), Dec::int(e)));
            if x != 2 && x != 9999 {
                b.push((Dec::int(-x), Dec::int(e)));
                b.push((Dec::int(x), Dec::int(-e)));
            }
        }
    }
    // reciprocals: (10^-k)^-n
    for (s, es) in [(1, vec![131_071i128, 131_072, 131_073]), (4, vec![32_767, 32_768]), (100, vec![1_310, 1_311]), (16383, vec![7, 8, 9])] {
        for e in es {
            b.push((Dec::of(1, s), Dec::int(-e)));
            b.push((Dec::of(1, s), Dec::int(e)));
            b.push((Dec::of(-1, s), Dec::int(-e)));
        }
    }
    for s in [500, 999, 1000, 1001, 8191, 8192, 16383] {
        for cf in [1i128, 5, -5, 99999] {
            for e in [1, 2, 3, -1, 0] {
                b.push((Dec::of(cf, s), Dec::int(e)));
            }
        }
    }
    v.push(list_pairs("limits of integral powers", b));
    // non-integral exponents
    let xs = dtable(small(&[0, 1, 3, 5], false).into_iter().chain(near_one(10, 3)).collect());
    let mut ys = vec![];
    for s in [1, 2, 4, 7] {
        for cf in [1i128, 3, 5, 7, 33, 125, 999, 10001, 123456789] {
            ys.push(Dec::of(cf, s));
            ys.push(Dec::of(-cf, s));
        }
    }
    ys.retain(|y| !y.is_integral());
    v.push(pairs("non-integral exponents", xs, dtable(ys.clone()), pow_case));
    v.push(pairs("groups, non-integral exponents", dtable(groups(&arith::D5, 2, cfg.size(&[-3, -1, 0, 1, 4][..], &[-1, 0, 1][..], &[-9, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 9][..]), &[0], false)), dtable(groups(&arith::D5, 2, &[-2, -1, 0], &[0], true)), pow_case));
    v.push(pairs("negative base and zero", dtable(range(-12, 0, 0).into_iter().chain(range(-12, 0, 2)).collect()), dtable(range(-30, 30, 1)), pow_case));
    // large results and the limit |y ln x| = 6000
    let mut b = vec![];
    for x in [Dec::int(2), Dec::int(10), Dec::of(5, 1), Dec::of(1, 1), Dec::of(1001, 3), Dec::of(999, 3), Dec::int(3), Dec::new(false, Big::pow10(600), 0), Dec::of(1, 600)] {
        let l = f64_of(&ln_ref(&x, 16));
        let edge = (6000.0 / l.abs()) as i128;
        for e in [edge / 1000, edge / 10, edge / 3, edge - 2, edge - 1, edge, edge + 1, edge * 2, edge * 1000] {
            for sg in [1i128, -1] {
                b.push((x.clone(), Dec::of(sg * (e * 10 + 5), 1)));
                b.push((x.clone(), Dec::of(sg * (e * 1000 + 1), 3)));
            }
        }
    }
    for x in [Dec::of(5, 1), Dec::int(2), Dec::int(-2), Dec::of(-5, 1), Dec::of(9999999, 7), Dec::of(10000001, 7), Dec::of(-9999999, 7), Dec::of(-10000001, 7)] {
        for e in [3_000_000_000i128, 3_000_000_001, 30_000_000_000, 30_000_000_001, 300_000_000_000, 10i128.pow(30), 10i128.pow(30) + 1] {
            b.push((x.clone(), Dec::int(e)));
            b.push((x.clone(), Dec::int(-e)));
        }
    }
    // long bases: carries of long products
    let lens: Vec<usize> = cfg.size((1..=130).map(|g| 4 * g + g % 4).collect::<Vec<_>>(), (1..=40).map(|g| 13 * g).collect(), (21..=1300).collect());
    let mut lb = crate::lat::grid(lens.into_iter(), |l| vec![0, 3, l / 2, l - 1, l], false);
    lb.retain(|d| d.scale <= 300);
    v.push(pairs("long bases to small integers", dtable(lb), dtable([2, 3, -1, -2].map(Dec::int).to_vec()), pow_case));
    v.push(pairs("digits x point positions to integers", dtable(crate::lat::grid(1..=cfg.size(20, 12, 40), |l| (0..=l + 5).collect(), true)), dtable(vec![Dec::int(2), Dec::int(3), Dec::int(5), Dec::int(13), Dec::int(-1), Dec::int(-2), Dec::int(-7), Dec::int(31)]), pow_case));
    v.push(pairs("digits x point positions, non-integral exponents", dtable(crate::lat::grid(1..=cfg.size(12, 8, 24), |l| (0..=l + 3).collect(), false)), dtable(vec![Dec::of(5, 1), Dec::of(-25, 2), Dec::of(31, 1), Dec::of(1, 7)]), pow_case));
    v.push(list_pairs("limits of general powers", b));
    // base extremely close to 1, exponent extremely large
    let mut b = vec![];
    for k in cfg.size(&[20i64, 100, 300][..], &[20, 100][..], &[20, 100, 300, 900, 990, 1000, 1010, 1100, 1500][..]).iter().copied() {
        for sg in [1i128, -1] {
            let x = Dec::int(1).add(&Dec::of(sg, k));
            for (m, e) in [(1i128, 0i64), (5, -1), (2, 0), (2, 3), (3, 3), (59, 2), (61, 2), (1, 6)] {
                let y = Dec::new(false, Big::from_u128(m as u128).mul_pow10((k + e) as usize), 0).add(&Dec::of(5, 1));
                b.push((x.clone(), y.negated()));
                b.push((x.clone(), y));
            }
        }
    }
    v.push(list_pairs("base next to 1, huge exponent", b));
    // special values
    let mut sp = vals(range(-3, 3, 0));
    sp.extend(vals(vec![Dec::of(5, 1), Dec::of(-5, 1), Dec::of(10, 1), Dec::zero(5), Dec::of(100, 2), Dec::int(1 << 40), Dec::int(-(1 << 40) - 1), Dec::of(1, 16383), Dec::zero(16383)]));
    sp.push(Val::NaN);
    let t = table(sp);
    v.push(pairs("special values", t.clone(), t, pow_case));
    // wide scale
    let sc: Vec<i64> = cfg.size((17..=80).chain([100, 200, 300]).collect(), vec![20, 37, 50, 64], (10..=200).chain([300, 500, 999, 1000]).collect());
    let sc = &sc[..];
    v.push(pairs("wide scale", dtable(padded(sc)), dtable(vec![Dec::of(5, 1), Dec::of(-15, 1), Dec::of(3, 3), Dec::int(3), Dec::int(-3), Dec::of(2, 0).round(60), Dec::of(25, 1).round(70)]), pow_case));
    v
}

pub fn list_pairs(name: &str, l: Vec<(Dec, Dec)>) -> Space {
    let t: Vec<(Opnd, Opnd)> = l.into_iter().filter(|(a, b)| a.fits() && b.fits()).map(|(a, b)| (Opnd::new(Val::Fin(a)), Opnd::new(Val::Fin(b)))).collect();
    let n = t.len() as u64;
    let mut s = space(name, n, move |i, c| {
        let (a, b) = &t[i as usize];
        c.desc(|| format!("a={}, b={}", a.show(), b.show()));
        pow_case(a, b, c);
        if !a.intact() || !b.intact() {
            c.fail("operand changed");
        }
    });
    s.case_limit = 240;
    s
}

// ---------------------------------------------------------------- C17

pub fn c17(cfg: Cfg) -> Vec<Space> {
    let mut v = vec![];
    let n = cfg.size(3000u32, 1000, 8000);
    // factorials of 0..n, shared
    let mut f = vec![Big::one()];
    for i in 1..=n {
        let x = f[i as usize - 1].mul_small(i);
        f.push(x);
    }
    let f = std::sync::Arc::new(f);
    v.push(space(format!("factorial 0..{}", n), n as u64 + 1, move |i, c| {
        c.desc(|| format!("n={}", i));
        let r = c.call(|| NumericBuf::factorial(i as i64));
        match r {
            Ok(Some(r)) => c.bytes_are("factorial(n)", r.as_bytes(), &Val::Fin(Dec::new(false, f[i as usize].clone(), 0))),
            r => c.fail(format!("factorial(n): {:?} instead of a value", r.map(|x| x.is_some()))),
        }
    }));
    let mut edge: Vec<i64> = vec![i64::MIN, i64::MIN + 1, -(1 << 32), i32::MIN as i64, -32178, -2, -1, 32178, 32179, 33000, 65536, 100_000, i32::MAX as i64, i32::MAX as i64 + 1, 1 << 32, (1 << 32) + 5, 1 << 40, i64::MAX - 1, i64::MAX];
    edge.extend(-300..0);
    edge.extend(32178..32500);
    // what machine integers would wrap to a small argument
    for k in [16u32, 31, 32, 33, 48, 62] {
        for m in 1..=3i64 {
            edge.extend((-3..=40).map(|d| (m << k).wrapping_add(d)));
            edge.extend((-3..=40).map(|d| (-m << k).wrapping_add(d)));
        }
    }
    edge.retain(|n| !(2..=32177).contains(n));
    v.push(space("outside the range", edge.len() as u64, move |i, c| {
        let n = edge[i as usize];
        c.desc(|| format!("n={}", n));
        match c.call(|| NumericBuf::factorial(n)) {
            Ok(None) => c.check(n > 1, || "None for n <= 1".into()),
            Ok(Some(r)) => {
                c.check(n <= 1, || "a value although the factorial does not fit".into());
                c.bytes_are("factorial(n)", r.as_bytes(), &Val::Fin(Dec::int(1)));
            }
            Err(p) => c.fail(format!("panicked: {}", p)),
        }
        c.seen(&n.to_le_bytes());
    }));
    let big: Vec<u32> = if cfg.thorough() { (1..=60).map(|k| k * 530).chain([31_622, 31_623, 31_624, 31_625, 32_175, 32_176, 32_177]).collect() } else { cfg.size(vec![9_999, 10_001, 20_000, 26_001, 31_623, 31_624, 32_176, 32_177], vec![10_001, 32_177], vec![]) };
    let mut s = space("large factorials", big.len() as u64, move |i, c| {
        let n = big[i as usize];
        c.desc(|| format!("n={}", n));
        let mut m = Big::one();
        for k in 2..=n {
            m = m.mul_small(k);
        }
        match c.call(|| NumericBuf::factorial(n as i64)) {
            Ok(Some(r)) => c.bytes_are("factorial(n)", r.as_bytes(), &Val::Fin(Dec::new(false, m, 0))),
            r => c.fail(format!("factorial(n): {:?} instead of a value", r.map(|x| x.is_some()))),
        }
    });
    s.case_limit = 200;
    v.push(s);
    v
}
