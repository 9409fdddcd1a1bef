//! C04 add/sub, C05 mul, C06 div, C07 rem, C10 rounding.
use super::*;
use crate::big::Big;
use crate::dec::{Dec, Val};
use pgnumeric::{Numeric, NumericBuf};
use std::cmp::Ordering;
use std::ops::*;

pub const D8: [u16; 8] = [1, 9999, 0, 5000, 4999, 10, 9990, 2];
pub const D5: [u16; 5] = [1, 9999, 0, 5000, 4999];

fn addsub(x: &Opnd, y: &Opnd, c: &mut Ctx) {
    let (a, b) = (x.num(), y.num());
    let s = x.d().add(y.d());
    let r = c.call(|| a.checked_add(b));
    c.is_checked("a.checked_add(b)", &r, &s);
    let s = x.d().sub(y.d());
    let r = c.call(|| a.checked_sub(b));
    c.is_checked("a.checked_sub(b)", &r, &s);
}

fn addsub_ops(x: &Opnd, y: &Opnd, c: &mut Ctx) {
    addsub(x, y, c);
    let r = c.call(|| Add::add(&x.buf, &y.buf));
    c.is_or_panic("a + b", &r, &x.d().add(y.d()));
    let r = c.call(|| Sub::sub(&x.buf, &y.buf));
    c.is_or_panic("a - b", &r, &x.d().sub(y.d()));
}

pub fn small_table(cfg: Cfg) -> Table {
    dtable(small(cfg.size(&[0, 1, 2, 3, 4, 5, 8][..], &[0, 1, 3, 4][..], cfg.deep(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 17][..], &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 40][..])), true))
}

pub fn group_table(cfg: Cfg, signs: bool) -> Table {
    dtable(if cfg.thorough() {
        groups(&D8, 3, &[-2, -1, 0, 1, 2, 3], &[0], signs)
    } else if cfg.var == Variant::Rel {
        groups(&D5, 3, &[-2, -1, 0, 1, 2], &[0, 5], signs)
    } else {
        groups(&D5, 3, &[-1, 0, 2], &[0], signs)
    })
}

pub fn long_table(cfg: Cfg) -> Table {
    let lens: &[usize] = cfg.size(
        &[4, 5, 7, 8, 9, 15, 16, 17, 20, 21, 22, 23, 24, 31, 32, 33, 43, 44, 45, 46, 64, 65, 100, 130][..],
        &[4, 8, 17, 21, 22, 33, 64][..],
        &[4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 18, 20, 21, 22, 23, 24, 31, 32, 33, 43, 44, 45, 46, 63, 64, 65, 66, 100, 127, 128, 129, 250, 260][..],
    );
    dtable(long(lens, &[0, 1, 2, 3, 4, 5, 6, 7, 8], true))
}

pub fn boundary_table() -> Table {
    dtable(header_boundary(true))
}
/// Numbers of one and two groups at every power of two of the weights and next to it.
pub fn ladder_table() -> Table {
    dtable(ladder(&[1], 32767, true).into_iter().chain(ladder(&[9999, 1], 32767, true)).collect())
}
pub fn extreme_table() -> Table {
    dtable(extremes(true))
}

/// One group at far apart weights.
fn gap_table(cfg: Cfg) -> Table {
    let ws: Vec<i64> = if cfg.thorough() { (-80..=80).collect() } else { (-20..=20).chain([-70, -40, 40, 70]).collect() };
    dtable(groups(&[1, 9999], 1, &ws, &[0], true))
}

pub fn c04(cfg: Cfg) -> Vec<Space> {
    let sm = small_table(cfg);
    let gr = group_table(cfg, true);
    let lo = long_table(cfg);
    let bd = boundary_table();
    let ex = extreme_table();
    let gp = gap_table(cfg);
    let n = cfg.size(700, 150, cfg.deep(2100, 4000));
    let mut v = vec![pairs("small x small", sm.clone(), sm.clone(), addsub_ops)];
    for (s, t) in [(0, 0), (0, 1), (2, 1), (4, 0)] {
        v.push(pairs(format!("range(scale {}) x range(scale {})", s, t), dtable(range(-n, n, s)), dtable(range(-n, n, t)), addsub));
    }
    v.push(pairs("groups x groups", gr.clone(), gr.clone(), addsub));
    v.push(pairs("gaps x gaps", gp.clone(), gp.clone(), addsub));
    v.push(pairs("long x long", lo.clone(), lo.clone(), addsub));
    v.push(pairs("long x small", lo.clone(), sm.clone(), addsub));
    v.push(pairs("header boundary", bd.clone(), bd.clone(), addsub_ops));
    v.push(pairs("header boundary x small", bd, sm, addsub));
    v.push(pairs("extremes", ex.clone(), ex, addsub_ops));
    v.push(pairs("ladder of weights", dtable(ladder(&[1], 32767, true)), dtable(ladder(&[9999], 32767, true)), addsub));
    let (da, db) = digit_pairs(cfg);
    v.push(pairs("digits x digits", da, db, addsub));
    let mt = mid_table(cfg);
    v.push(pairs("hundreds of digits", mt.clone(), mt, addsub));
    v.push(neighbours("neighbours", cfg, addsub));
    v.push(pairs("up to every digit of the format", vast_table(cfg), dtable(vast_partners()), addsub));
    v.push(pairs("machine integers", machine_table(cfg, true), machine_table(cfg, true), addsub_ops));
    v.push(long_neighbours("long neighbours", cfg, addsub));
    v.push(holes("holes in long operands", cfg, addsub));
    v
}

fn mul(x: &Opnd, y: &Opnd, c: &mut Ctx) {
    let (a, b) = (x.num(), y.num());
    let r = c.call(|| a.checked_mul(b));
    c.is_checked("a.checked_mul(b)", &r, &x.d().mul(y.d()));
}
fn mul_ops(x: &Opnd, y: &Opnd, c: &mut Ctx) {
    mul(x, y, c);
    let r = c.call(|| Mul::mul(&x.buf, &y.buf));
    c.is_or_panic("a * b", &r, &x.d().mul(y.d()));
}

pub fn c05(cfg: Cfg) -> Vec<Space> {
    let sm = small_table(cfg);
    let gr = group_table(cfg, false);
    let lo = long_table(cfg);
    let bd = boundary_table();
    let n = cfg.size(1100, 250, cfg.deep(3000, 6000));
    let mut v = vec![pairs("small x small", sm.clone(), sm.clone(), mul_ops)];
    for (s, t) in [(0, 0), (1, 3), (4, 6)] {
        v.push(pairs(format!("range(scale {}) x range(scale {})", s, t), dtable(range(-20, n, s)), dtable(range(-20, n, t)), mul));
    }
    v.push(pairs("groups x groups", gr.clone(), gr.clone(), mul));
    v.push(pairs("long x long", lo.clone(), lo.clone(), mul));
    v.push(pairs("long x small", lo.clone(), sm.clone(), mul));
    v.push(pairs("header boundary", bd.clone(), bd.clone(), mul_ops));
    // Deferred-carry threshold: 21 full groups plus one group d put the running digit sum at the
    // point where the accumulator must be normalised; the second operand is all nines.
    let mut a = Vec::new();
    let (lo_d, hi_d, step) = cfg.size((4740, 4800, 1), (4760, 4776, 4), (4600, 4900, 1));
    for d in (lo_d..=hi_d).step_by(step) {
        for pos in [0usize, 1, 10, 20, 21] {
            for more in [0usize, 1, 2, 22] {
                let mut g = vec![9999u16; 21];
                g.insert(pos, d as u16);
                g.extend(vec![9999; more]);
                let w = g.len() as i64 - 1;
                push_scaled(&mut a, &g, w, &[0], false);
            }
        }
    }
    let mut b = Vec::new();
    for l in cfg.size(vec![22, 23, 24, 44, 45, 46, 67, 130], vec![22, 45], vec![22, 23, 24, 25, 30, 43, 44, 45, 46, 47, 66, 67, 68, 130, 250]) {
        for (k, g) in long_shapes(l).iter().enumerate() {
            if [0, 3, 4, 7].contains(&k) {
                push_scaled(&mut b, g, l as i64 - 1, &[0], false);
                push_scaled(&mut b, g, 3, &[0], false);
            }
        }
    }
    v.push(pairs("carry threshold", dtable(a), dtable(b), mul));
    // many groups
    let mut h = Vec::new();
    for l in cfg.size(vec![200, 250, 500, 1000], vec![250], vec![200, 250, 500, 1000, 2000, 4000]) {
        for g in long_shapes(l) {
            push_scaled(&mut h, &g, l as i64 / 2, &[0], true);
        }
    }
    let h = dtable(h);
    v.push(pairs("very long", h.clone(), h, mul));
    v.push(holes("holes in long operands", cfg, mul));
    let (da, db) = digit_pairs(cfg);
    v.push(pairs("digits x digits", da, db, mul));
    let mt = mid_table(cfg);
    v.push(pairs("hundreds of digits", mt.clone(), mt, mul));
    v.push(pairs("up to every digit of the format", vast_table(cfg), dtable(vast_partners()), mul));
    v.push(pairs("up to every digit of the format, other way round", dtable(vast_partners()), vast_table(cfg), mul));
    let e: Vec<Dec> = extremes(true);
    // the product of two numbers of over 30000 groups each costs seconds and always overflows: keep those with few groups
    let e: Vec<Dec> = e.into_iter().filter(|d| d.groups().0.len() < 5000).collect();
    let e = dtable(e);
    v.push(pairs("extremes", e.clone(), e, mul_ops));
    v.push(pairs("extremes x small", extreme_table(), dtable(small(&[0, 1, 4], true)), mul));
    v.push(pairs("ladder of weights", dtable(ladder(&[2], 32767, true)), dtable(ladder(&[9999], 32767, true)), mul));
    v.push(pairs("machine integers", machine_table(cfg, true), machine_table(cfg, false), mul_ops));
    v
}

/// PostgreSQL's result scale for division.
pub fn div_scale(a: &Dec, b: &Dec) -> i64 {
    let (ga, wa) = a.groups();
    let (gb, wb) = b.groups();
    let mut q = wa - wb;
    if ga.first().copied().unwrap_or(0) <= gb.first().copied().unwrap_or(0) {
        q -= 1;
    }
    (16 - 4 * q).max(a.scale).max(b.scale).clamp(0, 1000)
}

/// |a/b| * 10^s as a fraction of naturals
fn quotient_frac(a: &Dec, b: &Dec, s: i64) -> (Big, Big) {
    let sh = s + b.scale - a.scale;
    if sh >= 0 {
        (a.mag.mul_pow10(sh as usize), b.mag.clone())
    } else {
        (a.mag.clone(), b.mag.mul_pow10(-sh as usize))
    }
}

/// Is q the quotient a/b at scale s, rounded half away from zero (or truncated)?
pub fn is_quotient(a: &Dec, b: &Dec, q: &Dec, s: i64, round: bool) -> bool {
    if q.scale != s || (!q.is_zero() && q.neg != (a.neg != b.neg)) {
        return false;
    }
    let (n, d) = quotient_frac(a, b, s);
    let qd = q.mag.mul(&d);
    if round {
        // 2qd - d <= 2n < 2qd + d
        let n2 = n.mul_small(2);
        let q2 = qd.mul_small(2);
        n2.add(&d).cmp(&q2) != Ordering::Less && n2.cmp(&q2.add(&d)) == Ordering::Less
    } else {
        qd.cmp(&n) != Ordering::Greater && n.cmp(&qd.add(&d)) == Ordering::Less
    }
}

/// Does the rounded quotient stay within the format's integer digits?
pub fn quotient_fits(a: &Dec, b: &Dec, s: i64, round: bool) -> bool {
    let (n, d) = quotient_frac(a, b, s);
    // quick estimate by digit counts
    let est = n.ndigits() as i64 - d.ndigits() as i64;
    if est + 2 < 131072 + s {
        return true;
    }
    let lim = Big::pow10((131072 + s) as usize).mul(&d);
    if round {
        n.mul_small(2).add(&d).cmp(&lim.mul_small(2)) == Ordering::Less
    } else {
        n.cmp(&lim) == Ordering::Less
    }
}

pub fn check_div(c: &mut Ctx, what: &str, r: &Out<Option<NumericBuf>>, a: &Dec, b: &Dec, round: bool) {
    if b.is_zero() {
        c.check(matches!(r, Ok(None)), || format!("{}: division by zero gave {:?}", what, r.as_ref().map(|o| o.is_some())));
        return;
    }
    let s = if round { div_scale(a, b) } else { 0 };
    match r {
        Ok(Some(n)) => {
            if let Some(Val::Fin(q)) = c.decode(what, n) {
                if !is_quotient(a, b, &q, s, round) {
                    c.fail(format!("{}: {} (scale {}) is not the {} quotient at scale {}", what, Val::Fin(q.clone()).show(), q.scale, if round { "rounded" } else { "truncated" }, s));
                }
            } else {
                c.fail(format!("{}: NaN", what));
            }
        }
        Ok(None) => {
            if quotient_fits(a, b, s, round) {
                c.fail(format!("{}: None although the quotient is representable", what));
            }
        }
        Err(p) => c.fail(format!("{}: panicked ({})", what, p)),
    }
}

fn div(x: &Opnd, y: &Opnd, c: &mut Ctx) {
    let (a, b) = (x.num(), y.num());
    let r = c.call(|| a.checked_div(b));
    check_div(c, "a.checked_div(b)", &r, x.d(), y.d(), true);
    let r = c.call(|| a.checked_div_trunc(b));
    check_div(c, "a.checked_div_trunc(b)", &r, x.d(), y.d(), false);
}

fn div_ops(x: &Opnd, y: &Opnd, c: &mut Ctx) {
    div(x, y, c);
    let r = c.call(|| x.num().checked_div(y.num()));
    let o = c.call(|| Div::div(&x.buf, &y.buf));
    match (r, o) {
        (Ok(Some(r)), Ok(o)) => c.check(r.as_bytes() == o.as_bytes(), || "a / b differs from checked_div".into()),
        (Ok(None), Err(_)) => {}
        (r, o) => c.fail(format!("checked_div gives value: {}, operator gives value: {}", matches!(r, Ok(Some(_))), o.is_ok())),
    }
}

/// Operand pairs a = q*b + r for group patterns q, b and remainders at the edges; these are the pairs
/// on which trial quotient digits need correcting.
fn knuth(name: &str, cfg: Cfg, check: fn(&Dec, &Dec, &mut Ctx)) -> Space {
    let d: &[u16] = cfg.size(&[0, 1, 4999, 5000, 9999][..], &[0, 1, 5000, 9999][..], &[0, 1, 2, 4999, 5000, 5001, 9998, 9999][..]);
    let strings = |maxlen: usize, minlen: usize| -> Vec<Big> {
        let mut v = Vec::new();
        for len in minlen..=maxlen {
            for code in 0..d.len().pow(len as u32) {
                let mut k = code;
                let mut g = vec![];
                for _ in 0..len {
                    g.push(d[k % d.len()]);
                    k /= d.len();
                }
                if g[0] != 0 {
                    v.push(Dec::from_groups(false, &g, len as i64 - 1, 0).mag);
                }
            }
        }
        v
    };
    let bs = strings(3, 1);
    let qs = strings(cfg.size(3, 2, 3), 1);
    let (nb, nq) = (bs.len() as u64, qs.len() as u64);
    space(name, nb * nq * 6, move |i, c| {
        let b = &bs[(i / 6 / nq) as usize];
        let q = &qs[(i / 6 % nq) as usize];
        let one = Big::one();
        let half = b.divrem_small(2).0;
        let r = match i % 6 {
            0 => Big::zero(),
            1 => one.clone(),
            2 => b.sub(&one),
            3 => half,
            4 => half.add(&one),
            _ => {
                if half.is_zero() {
                    Big::zero()
                } else {
                    half.sub(&one)
                }
            }
        };
        let a = Dec::new(false, q.mul(b).add(&r), 0);
        let b = Dec::new(false, b.clone(), 0);
        c.desc(|| format!("a={}, b={} (a = q*b+r, q={})", Val::Fin(a.clone()).show(), Val::Fin(b.clone()).show(), q.to_string()));
        check(&a, &b, c);
    })
}

/// Multiples of long divisors, their neighbours, and the dividends on both sides of a tie at the result scale.
fn long_multiples(name: &str, cfg: Cfg, f: impl Fn(&Opnd, &Opnd, &mut Ctx) + Send + Sync + 'static) -> Space {
    let lens: &[usize] = cfg.size(&[5, 6, 9, 12, 26, 40, 64, 65, 100, 130, 260, 300][..], &[5, 12, 40, 65][..], &[4, 5, 6, 7, 8, 9, 10, 12, 16, 17, 20, 26, 33, 40, 64, 65, 100, 130, 257, 260, 300, 513, 1000, 2100][..]);
    let mut bs: Vec<Big> = vec![];
    for &l in lens {
        for g in long_shapes(l) {
            bs.push(Dec::from_groups(false, &g, l as i64 - 1, 0).mag);
        }
        let mut g = vec![0u16; l];
        g[0] = 1;
        g[l - 1] = 7;
        bs.push(Dec::from_groups(false, &g, l as i64 - 1, 0).mag);
    }
    let mut qs: Vec<Big> = [1u128, 2, 3, 7, 4999, 9999, 10000, 10001, 12345678, 99999999, 100000000, 10u128.pow(17) + 3, u128::MAX].iter().map(|&q| Big::from_u128(q)).collect();
    for l in [12usize, 25, 40] {
        qs.push(Big::pow10(4 * l).sub(&Big::one()));
        qs.push(Big::pow10(4 * l).add(&Big::one()));
    }
    let nq = qs.len() as u64;
    space(name, bs.len() as u64 * nq * 6 * 3, move |i, c| {
        let (b, q) = (&bs[(i / 18 / nq) as usize], &qs[(i / 18 % nq) as usize]);
        let one = Big::one();
        let p = q.mul(b);
        let a = match i / 3 % 6 {
            0 => p.sub(&one),
            1 => p,
            2 => p.add(&one),
            k => {
                let r = div_scale(&Dec::new(false, p, 0), &Dec::new(false, b.clone(), 0));
                let t = q.mul_pow10(r as usize + 1).add(&Big::from_u128(5)).mul(b).div_pow10(r as usize + 1).0;
                match k {
                    3 => t,
                    4 => t.add(&one),
                    _ => t.sub(&one),
                }
            }
        };
        let (sa, sb) = [(0, 0), (8, 8), (3, 70)][(i % 3) as usize];
        let (a, b) = (Dec::new(i % 2 == 1, a, sa), Dec::new(i % 7 == 3, b.clone(), sb));
        let (x, y) = (Opnd::new(Val::Fin(a)), Opnd::new(Val::Fin(b)));
        c.desc(|| format!("a={}, b={} (q={})", x.show(), y.show(), q.to_string()));
        f(&x, &y, c);
    })
}

/// Long numbers with a few groups of zeros (or nines) at the places where an algorithm would divide them.
fn holes(name: &str, cfg: Cfg, f: impl Fn(&Opnd, &Opnd, &mut Ctx) + Send + Sync + 'static) -> Space {
    let lens: &[usize] = cfg.size(&[32, 64, 65, 300, 1000, 3200, 4101][..], &[32, 65, 300][..], &[24, 32, 33, 48, 64, 65, 100, 128, 256, 257, 300, 512, 1000, 1025, 2050, 3200, 4101, 8200][..]);
    let mut spec: Vec<(usize, usize, usize)> = vec![];
    for &l in lens {
        let mut at: Vec<usize> = vec![];
        for (n, d) in [(1, 2), (1, 4), (3, 4), (1, 3), (2, 3), (1, 8)] {
            let m = l * n / d;
            at.extend([m - 1, m, m + 1]);
        }
        at.sort();
        at.dedup();
        for p in at {
            for run in 1..=3 {
                if p + run < l {
                    spec.push((l, p, run));
                }
            }
        }
    }
    space(name, spec.len() as u64 * 4, move |i, c| {
        let (l, p, run) = spec[(i / 4) as usize];
        let fill: Vec<u16> = (0..l).map(|k| 1 + (k * 7919 % 9998) as u16).collect();
        let mut g = fill.clone();
        g[p..p + run].iter_mut().for_each(|x| *x = if i % 2 == 0 { 0 } else { 9999 });
        let a = Dec::from_groups(false, &g, l as i64 - 1, 0);
        let n = if i / 2 % 2 == 0 { l - l / 20 - 1 } else { l };
        let b = {
            let frac = (n / 2).min(4000) as i64;
            Dec::from_groups(true, &fill[..n], n as i64 - 1 - frac, frac * 4)
        };
        let (x, y) = (Opnd::new(Val::Fin(a)), Opnd::new(Val::Fin(b)));
        c.desc(|| format!("a={} groups, {} of them {} from group {}; b={} groups", l, run, if i % 2 == 0 { 0 } else { 9999 }, p, n));
        f(&x, &y, c);
        f(&y, &x, c);
    })
}

fn div_dec(a: &Dec, b: &Dec, c: &mut Ctx) {
    let x = Opnd::new(Val::Fin(a.clone()));
    let y = Opnd::new(Val::Fin(b.clone()));
    div(&x, &y, c);
}
fn rem_dec(a: &Dec, b: &Dec, c: &mut Ctx) {
    let x = Opnd::new(Val::Fin(a.clone()));
    let y = Opnd::new(Val::Fin(b.clone()));
    rem(&x, &y, c);
}

/// Powers of two and five: quotients with ties at the result scale.
pub fn powers25(max: u32) -> Vec<Dec> {
    let mut v = Vec::new();
    for base in [2u32, 5] {
        let mut m = Big::one();
        for _ in 0..max {
            m = m.mul_small(base);
            v.push(Dec::new(false, m.clone(), 0));
            v.push(Dec::new(true, m.clone(), 3));
        }
    }
    v
}

fn knuth_groups(cfg: Cfg) -> Table {
    // long divisors and dividends of full/edge groups
    let lens: &[usize] = cfg.size(&[2, 3, 4, 5, 8, 16, 21, 33][..], &[2, 3, 5][..], &[2, 3, 4, 5, 6, 7, 8, 12, 16, 21, 22, 33, 64, 100][..]);
    let mut v = long(lens, &[0, 1, 2, 3, 4, 5, 6, 7, 8], false);
    for &l in lens {
        for first in [1u16, 2, 3, 4999, 5000, 5001, 9998, 9999] {
            for second in [0u16, 1, 4999, 5000, 9999] {
                for last in [1u16, 9999] {
                    let mut g = vec![0; l];
                    g[0] = first;
                    g[1] = second;
                    if l > 2 {
                        g[l - 1] = last;
                    } else if second == 0 {
                        g[1] = last;
                    }
                    push_scaled(&mut v, &g, 1, &[0], false);
                }
            }
        }
    }
    dtable(v)
}

pub fn c06(cfg: Cfg) -> Vec<Space> {
    let sm = small_table(cfg);
    let gr = group_table(cfg, false);
    let lo = long_table(cfg);
    let bd = boundary_table();
    let kg = knuth_groups(cfg);
    let n = cfg.size(900, 150, cfg.deep(2500, 5000));
    let mut v = vec![pairs("small x small", sm.clone(), sm.clone(), div_ops)];
    for (s, t) in [(0, 0), (1, 2), (5, 0), (0, 7)] {
        v.push(pairs(format!("range(scale {}) x range(scale {})", s, t), dtable(range(-30, n, s)), dtable(range(-30, n, t)), div));
    }
    v.push(knuth("quotient correction q*b+r", cfg, div_dec));
    v.push(long_multiples("multiples and ties of long divisors", cfg, div));
    v.push(pairs("long quotients", kg.clone(), kg.clone(), div));
    v.push(pairs("ties: n / 2^k, 5^k", dtable(range(1, cfg.size(1500, 200, cfg.deep(20000, 60000)), 0)), dtable(powers25(60)), div));
    let gs = if cfg.thorough() || cfg.var == Variant::Rel { dtable(groups(&D5, 3, &[-1, 0, 1], &[0], false)) } else { dtable(groups(&D5, 2, &[-1, 0], &[0], false)) };
    v.push(pairs("groups x groups", gr.clone(), gs, div));
    v.push(pairs("long x small", lo.clone(), sm.clone(), div));
    v.push(pairs("small x long", sm.clone(), lo.clone(), div));
    v.push(pairs("header boundary", bd.clone(), bd.clone(), div_ops));
    // result scale selection up to the cap
    let wide = dtable(groups(&[1, 2, 9999], 1, &[-300, -251, -250, -249, -248, -200, -64, -17, -16, -4, 0, 4, 100, 246, 250, 300], &[0, 1], true));
    v.push(pairs("result scale cap", wide.clone(), wide, div));
    let (da, db) = digit_pairs(cfg);
    v.push(pairs("digits x digits", da, db, div));
    let mt = mid_table(cfg);
    v.push(pairs("hundreds of digits", mt.clone(), mt, div));
    v.push(pairs("up to every digit of the format", vast_table(cfg), dtable(vast_partners()), div));
    v.push(pairs("up to every digit of the format, other way round", dtable(vast_partners()), vast_table(cfg), div));
    let e: Vec<Dec> = extremes(false);
    v.push(pairs("extremes x small", dtable(e.clone()), dtable(small(&[0, 1, 3], false)), div_ops));
    let few = dtable(e.into_iter().filter(|d| d.groups().0.len() < 100).collect());
    v.push(pairs("extremes x extremes", few.clone(), few, div));
    v.push(pairs("ladder of weights", dtable(ladder(&[2], 4200, true)), dtable(ladder(&[7], 4200, true)), div));
    v.push(pairs("machine integers", machine_table(cfg, true), machine_table(cfg, false), div_ops));
    v
}

pub fn check_rem(c: &mut Ctx, what: &str, r: &Out<Option<NumericBuf>>, a: &Dec, b: &Dec) {
    if b.is_zero() {
        c.check(matches!(r, Ok(None)), || format!("{}: remainder by zero gave {:?}", what, r.as_ref().map(|o| o.is_some())));
        return;
    }
    let s = a.scale.max(b.scale);
    let exp = Dec::new(a.neg, a.mag_at(s).divrem(&b.mag_at(s)).1, s);
    c.is_checked(what, r, &exp);
}

fn rem(x: &Opnd, y: &Opnd, c: &mut Ctx) {
    let (a, b) = (x.num(), y.num());
    let r = c.call(|| a.checked_rem(b));
    check_rem(c, "a.checked_rem(b)", &r, x.d(), y.d());
}
fn rem_ops(x: &Opnd, y: &Opnd, c: &mut Ctx) {
    rem(x, y, c);
    let r = c.call(|| x.num().checked_rem(y.num()));
    let o = c.call(|| Rem::rem(&x.buf, &y.buf));
    match (r, o) {
        (Ok(Some(r)), Ok(o)) => c.check(r.as_bytes() == o.as_bytes(), || "a % b differs from checked_rem".into()),
        (Ok(None), Err(_)) => {}
        (r, o) => c.fail(format!("checked_rem gives value: {}, operator gives value: {}", matches!(r, Ok(Some(_))), o.is_ok())),
    }
}

pub fn c07(cfg: Cfg) -> Vec<Space> {
    let sm = small_table(cfg);
    let gr = group_table(cfg, false);
    let lo = long_table(cfg);
    let bd = boundary_table();
    let kg = knuth_groups(cfg);
    let n = cfg.size(900, 150, cfg.deep(2500, 5000));
    let mut v = vec![pairs("small x small", sm.clone(), sm.clone(), rem_ops)];
    for (s, t) in [(0, 0), (1, 2), (5, 0), (0, 3)] {
        v.push(pairs(format!("range(scale {}) x range(scale {})", s, t), dtable(range(-n, n, s)), dtable(range(-30, n, t)), rem));
    }
    v.push(knuth("quotient correction q*b+r", cfg, rem_dec));
    v.push(long_multiples("multiples of long divisors", cfg, rem));
    v.push(pairs("long quotients", kg.clone(), kg.clone(), rem));
    let gs = if cfg.thorough() || cfg.var == Variant::Rel { dtable(groups(&D5, 3, &[-1, 0, 1], &[0], true)) } else { dtable(groups(&D5, 2, &[-1, 0], &[0], true)) };
    v.push(pairs("groups x groups", gr.clone(), gs, rem));
    v.push(pairs("long x small", lo.clone(), sm.clone(), rem));
    v.push(pairs("small x long", sm.clone(), lo.clone(), rem));
    v.push(pairs("header boundary", bd.clone(), bd.clone(), rem_ops));
    let (da, db) = digit_pairs(cfg);
    v.push(pairs("digits x digits", da, db, rem));
    let mt = mid_table(cfg);
    v.push(pairs("hundreds of digits", mt.clone(), mt, rem));
    v.push(pairs("up to every digit of the format", vast_table(cfg), dtable(vast_partners()), rem));
    v.push(pairs("up to every digit of the format, other way round", dtable(vast_partners()), vast_table(cfg), rem));
    let e: Vec<Dec> = extremes(true);
    let few: Vec<Dec> = e.into_iter().filter(|d| d.groups().0.len() < 100).collect();
    v.push(pairs("extremes x small", dtable(few.clone()), dtable(small(&[0, 3], true).into_iter().step_by(5).collect()), rem_ops));
    let few: Vec<Dec> = few.into_iter().step_by(2).collect();
    let mut sp = pairs("extremes x extremes", dtable(few.clone()), dtable(few), rem);
    sp.case_limit = 200;
    v.push(sp);
    v.push(pairs("ladder of weights", dtable(ladder(&[2], 2100, true)), dtable(ladder(&[7], 2100, true)), rem));
    v.push(pairs("machine integers", machine_table(cfg, true), machine_table(cfg, false), rem_ops));
    v.push(long_neighbours("long neighbours", cfg, rem));
    v
}

fn rounding(x: &Opnd, s: i64, c: &mut Ctx) {
    let a = x.num();
    let s = s as i32;
    let k = (s as i64).clamp(-1000, 1000);
    let e = x.d().round(k);
    let r = c.call(|| a.round(s));
    c.is_or_panic("x.round(n)", &r, &e);
    let r = c.call(|| {
        let mut m = x.buf.clone();
        m.round_mut(s);
        m
    });
    c.is_or_panic("x.round_mut(n)", &r, &e);
    let e = x.d().trunc(k);
    let r = c.call(|| a.trunc(s));
    c.is_or_panic("x.trunc(n)", &r, &e);
    let r = c.call(|| {
        let mut m = x.buf.clone();
        m.trunc_mut(s);
        m
    });
    c.is_or_panic("x.trunc_mut(n)", &r, &e);
}

fn ceilfloor(x: &Opnd, c: &mut Ctx) {
    let a = x.num();
    let r = c.call(|| a.ceil());
    c.is_or_panic("x.ceil()", &r, &x.d().ceil());
    let r = c.call(|| a.floor());
    c.is_or_panic("x.floor()", &r, &x.d().floor());
}

pub fn c10(cfg: Cfg) -> Vec<Space> {
    let n = cfg.size(20_011, 2_001, cfg.deep(200_001, 1_000_001));
    let mut all = Vec::new();
    for s in 0..=5 {
        all.extend(range(if s < 2 { -n } else { 0 }, n, s));
    }
    let all = dtable(all);
    let gr = group_table(cfg, true);
    let lo = long_table(cfg);
    let bd = boundary_table();
    let ex = extreme_table();
    let mut v = vec![
        singles("ceil/floor, coefficients x scales", all.clone(), ceilfloor),
        with_param("round/trunc, coefficients x scales", all, (-6..=7).collect(), rounding),
        singles("ceil/floor, groups", gr.clone(), ceilfloor),
        with_param("round/trunc, groups", gr, (-14..=22).collect(), rounding),
        singles("ceil/floor, long", lo.clone(), ceilfloor),
    ];
    // every cut position of long operands
    let cut: Vec<Dec> = long(cfg.size(&[4, 9, 22, 33][..], &[4, 9][..], &[4, 5, 9, 16, 22, 33, 64, 130][..]), &[0, 1, 2, 3, 4, 5, 6, 7, 8], true);
    let maxcut = cfg.size(140, 40, 530);
    v.push(with_param("round/trunc, long, every cut", dtable(cut), (-maxcut..=maxcut).collect(), rounding));
    v.push(with_param("round/trunc, long", lo, vec![-9, -4, -3, -1, 0, 1, 2, 4, 9, 63, 64, 100], rounding));
    let mut ps: Vec<i64> = (55..=70).collect();
    ps.extend([-260, -257, -256, -255, -253, -64, -5, -4, -1, 0, 1, 4, 250, 252, 253, 256]);
    let gt = dtable(grid(1..=cfg.size(40, 26, cfg.deep(90, 180)), |l| (0..=l + 9).collect(), true));
    v.push(singles("ceil/floor, digits x point positions", gt.clone(), ceilfloor));
    v.push(with_param("round/trunc, digits x point positions", gt, (-12..=14).collect(), rounding));
    v.push(singles("ceil/floor, machine integers", machine_table(cfg, true), ceilfloor));
    v.push(with_param("round/trunc, machine integers", machine_table(cfg, true), (-41..=5).collect(), rounding));
    let vt = vast_table(cfg);
    v.push(singles("ceil/floor, up to every digit of the format", vt.clone(), ceilfloor));
    v.push(with_param("round/trunc, up to every digit of the format", vt, vec![-1000, -999, -257, -4, -1, 0, 1, 2, 3, 4, 5, 500, 999, 1000], rounding));
    v.push(with_param("round/trunc, header boundary", bd.clone(), ps, rounding));
    v.push(singles("ceil/floor, header boundary", bd, ceilfloor));
    let edge = vec![i32::MIN as i64, i32::MIN as i64 + 1, -100_000, -1001, -1000, -999, -998, 0, 1, 997, 998, 999, 1000, 1001, 16383, 100_000, i32::MAX as i64 - 1, i32::MAX as i64];
    let mut big = Vec::new();
    for w in [246, 247, 248, 249, 250, 251, 252] {
        push_scaled(&mut big, &[4999], w, &[0], true);
        push_scaled(&mut big, &[5000], w, &[0, 1003], true);
        push_scaled(&mut big, &[9999, 9999], w, &[0], true);
    }
    for s in 995..=1005 {
        for co in [1, 4, 5, 9, 49, 50, 99, 9995, 99995] {
            big.push(Dec::of(co, s));
            big.push(Dec::of(-co, s));
        }
    }
    v.push(with_param("round/trunc, scale clamp", dtable(big), edge.clone(), rounding));
    v.push(with_param("round/trunc, scale clamp, small", dtable(small(&[0, 1, 4], true)), edge.clone(), rounding));
    v.push(with_param("round/trunc, extremes", ex.clone(), edge.clone(), rounding));
    v.push(singles("ceil/floor, extremes", ex, ceilfloor));
    v.push(singles("ceil/floor, ladder of weights", ladder_table(), ceilfloor));
    v.push(with_param("round/trunc, ladder of weights", ladder_table(), edge, rounding));
    v.push(space("NaN", 1, |_, c| {
        c.desc(|| "NaN".into());
        let n: &Numeric = Numeric::nan();
        for s in [i32::MIN, -1, 0, 1, i32::MAX] {
            let r = c.call(|| n.round(s));
            c.is("NaN.round", &r, &Val::NaN);
            let r = c.call(|| n.trunc(s));
            c.is("NaN.trunc", &r, &Val::NaN);
            let r = c.call(|| {
                let mut b = NumericBuf::nan();
                b.round_mut(s);
                b.trunc_mut(s);
                b
            });
            c.is("NaN.round_mut", &r, &Val::NaN);
        }
        let r = c.call(|| n.ceil());
        c.is("NaN.ceil", &r, &Val::NaN);
        let r = c.call(|| n.floor());
        c.is("NaN.floor", &r, &Val::NaN);
    }));
    v
}

/// Every number of digits up to a bound, in several digit patterns, with the point at every position.
pub fn grid_table(cfg: Cfg) -> Table {
    let n = cfg.size(90, 60, cfg.deep(300, 500));
    dtable(grid(1..=n, |l| (0..=l + 9).collect(), true))
}

/// Numbers of up to the format's largest number of digits, alternating in sign.
pub fn vast_table(cfg: Cfg) -> Table {
    let mut v: Vec<Dec> = grid(long_lengths().into_iter(), long_scales, false);
    v.retain(|d| d.fits());
    for (i, d) in v.iter_mut().enumerate() {
        if i % 2 == 1 {
            *d = d.negated();
        }
    }
    if !cfg.thorough() {
        let mut k = 0;
        v.retain(|d| {
            k += 1;
            d.mag.ndigits() < 10000 || k % 7 == 0
        });
    }
    dtable(v)
}

/// Operands of intermediate length: pairs of them are affordable.
pub fn mid_table(cfg: Cfg) -> Table {
    let lens = cfg.size(
        vec![26usize, 27, 40, 41, 63, 64, 65, 90, 99, 100, 101, 127, 128, 129, 180, 200, 256, 300, 400, 513, 1000, 1003],
        vec![27, 64, 101, 129, 400],
        vec![26, 27, 28, 29, 40, 41, 42, 43, 63, 64, 65, 66, 90, 99, 100, 101, 127, 128, 129, 180, 200, 255, 256, 257, 300, 400, 401, 513, 800, 1000, 1003, 1501],
    );
    dtable(grid(lens.into_iter(), |l| vec![0, 1, l / 2, l, l + 5], false))
}

/// Every number of digits up to a bound, the point everywhere, both signs.
pub fn digit_pairs(cfg: Cfg) -> (Table, Table) {
    let n = cfg.size(13, 9, cfg.deep(22, 32));
    let a = grid(1..=n, |l| (0..=l + 2).collect(), true);
    let b = grid(1..=n, |l| (0..=l + 2).collect(), false);
    (dtable(a), dtable(b))
}

/// A number and one that differs from it by one unit of one digit, at several scales.
pub fn neighbours(name: &str, cfg: Cfg, f: impl Fn(&Opnd, &Opnd, &mut Ctx) + Send + Sync + 'static) -> Space {
    let lens: Vec<usize> = (1..=cfg.size(30, 18, cfg.deep(60, 130))).chain(cfg.size(vec![64, 100, 257], vec![64], vec![64, 65, 100, 128, 257, 1000])).collect();
    let mut v: Vec<(Dec, usize)> = vec![];
    for l in lens {
        for d in grid(std::iter::once(l), |l| vec![0, 1, 3, l / 2, l, l + 6], false) {
            for pos in 0..l {
                v.push((d.clone(), pos));
            }
        }
    }
    space(name, v.len() as u64 * 12, move |i, c| {
        let (d, pos) = &v[(i / 12) as usize];
        let k = i % 12;
        let unit = Dec::new(false, Big::pow10(*pos), d.scale);
        let mut y = if k % 2 == 0 { d.add(&unit) } else { d.sub(&unit) };
        let extra = [0, 1, 70][(k / 2 % 3) as usize];
        y.mag = y.mag_at(y.scale + extra);
        y.scale += extra;
        let (x, y) = if k < 6 { (d.clone(), y) } else { (y.negated(), d.negated()) };
        if !x.fits() || !y.fits() {
            return;
        }
        let (x, y) = (Opnd::new(Val::Fin(x)), Opnd::new(Val::Fin(y)));
        c.desc(|| format!("a={}, b={}", x.show(), y.show()));
        f(&x, &y, c);
    })
}

/// A long number and one that differs from it by one unit of one digit near either end, in the middle, or near a group count that is a
/// power of two.
pub fn long_neighbours(name: &str, cfg: Cfg, f: impl Fn(&Opnd, &Opnd, &mut Ctx) + Send + Sync + 'static) -> Space {
    let lens: &[usize] = cfg.size(&[513, 1021, 1025, 2047, 2500, 4099, 8190, 16391, 32770, 65541, 131072][..], &[513, 1025, 4099][..], &[513, 600, 1021, 1025, 1500, 2047, 2500, 4099, 5003, 8190, 16391, 20001, 32770, 65541, 100003, 131072][..]);
    let mut v: Vec<(Dec, usize)> = vec![];
    for &l in lens {
        let mut at: Vec<usize> = (0..6).chain(l - 6..l).chain([l / 2, l / 3]).collect();
        for k in 7..15 {
            for d in 0..5 {
                at.push((4usize << k) + d); // from the end
                at.push(l.wrapping_sub(4usize << k).wrapping_sub(d)); // from the start
            }
        }
        at.retain(|&p| p < l);
        at.sort();
        at.dedup();
        for d in grid(std::iter::once(l), |l| vec![0, 3, l.min(8000)], false) {
            for &pos in &at {
                v.push((d.clone(), pos));
            }
        }
    }
    space(name, v.len() as u64, move |i, c| {
        let (d, pos) = &v[i as usize];
        let unit = Dec::new(false, Big::pow10(*pos), d.scale);
        let y = if d.mag.digit(*pos) == 9 { d.sub(&unit) } else { d.add(&unit) };
        let (x, y) = if i % 3 == 0 { (d.clone(), y) } else { (y.negated(), d.negated()) };
        if !x.fits() || !y.fits() {
            return;
        }
        let (x, y) = (Opnd::new(Val::Fin(x)), Opnd::new(Val::Fin(y)));
        c.desc(|| format!("a={}, b={}", x.show(), y.show()));
        f(&x, &y, c);
    })
}

/// Numbers around the bounds of machine integers and around the largest numbers of digit groups that fit them.
pub fn machine_table(cfg: Cfg, signs: bool) -> Table {
    let ks: &[u32] = cfg.size(&[8, 15, 16, 31, 32, 53, 62, 63, 64, 126, 127, 128][..], &[31, 32, 63, 64, 127, 128][..], &[7, 8, 15, 16, 24, 31, 32, 33, 52, 53, 54, 62, 63, 64, 65, 95, 96, 126, 127, 128][..]);
    let mut m: Vec<Big> = vec![];
    for &k in ks {
        let p = Big::from_u128(2).pow(k);
        for d in 0..=2 {
            m.push(p.add(&Big::from_u128(d)));
            m.push(p.sub(&Big::from_u128(d)));
        }
        // the leading groups of 2^k and then the largest, or the smallest, groups
        let n = p.ndigits();
        let mut cut = 4;
        while cut < n + 3 {
            let tail = (cut.min(n) / 4 * 4).min(n - 1);
            let (q, _, _) = p.div_pow10(tail);
            m.push(q.add(&Big::one()).mul_pow10(tail).sub(&Big::one()));
            m.push(q.mul_pow10(tail));
            cut += 4;
        }
    }
    for n in [4usize, 8, 9, 10, 12, 15, 16, 17, 18, 19, 20, 28, 32, 36, 37, 38, 39] {
        m.push(Big::pow10(n));
        m.push(Big::pow10(n).sub(&Big::one()));
    }
    m.sort_by(|a, b| a.cmp(b));
    m.dedup();
    let sc: &[i64] = cfg.size(&[0, 2][..], &[0][..], &[0, 2, 4, 9][..]);
    let mut v = vec![];
    for x in m {
        for &s in sc {
            for neg in [false, true] {
                if !neg || (signs && !x.is_zero()) {
                    v.push(Dec::new(neg, x.clone(), s));
                }
            }
        }
    }
    dtable(v)
}

/// Second operands for numbers of very many digits.
pub fn vast_partners() -> Vec<Dec> {
    let mut v = vec![Dec::int(3), Dec::int(-7), Dec::of(1, 4), Dec::of(99999, 2), Dec::int(10000), Dec::of(-5, 1), Dec::of(5, 17), Dec::int(123456789012345678)];
    v.extend(grid([44usize, 101].into_iter(), |l| vec![0, l / 2, l + 3], false).into_iter().step_by(5));
    v
}
