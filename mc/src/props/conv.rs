//! C12 integer conversions, C13 floating-point conversions.
use super::arith::*;
use super::ord::with_nan;
use super::*;
use crate::big::Big;
use crate::dec::{Dec, Val};
use pgnumeric::NumericBuf;
use std::cmp::Ordering;
use std::convert::TryFrom;

/// A decimal magnitude+sign within i128/u128 bounds, for range checks.
fn in_range(d: &Dec, lo: &Dec, hi: &Dec) -> bool {
    d.cmp(lo) != Ordering::Less && d.cmp(hi) != Ordering::Greater
}

fn udec(v: u128) -> Dec {
    Dec::new(false, Big::from_u128(v), 0)
}

macro_rules! each_int {
    ($m:ident ! ($($a:tt)*)) => {
        $m!(i8, $($a)*); $m!(i16, $($a)*); $m!(i32, $($a)*); $m!(i64, $($a)*); $m!(i128, $($a)*); $m!(isize, $($a)*);
        $m!(u8, $($a)*); $m!(u16, $($a)*); $m!(u32, $($a)*); $m!(u64, $($a)*); $m!(u128, $($a)*); $m!(usize, $($a)*);
    };
}

macro_rules! idec {
    ($t:ty, $v:expr) => {{
        let s = format!("{}", $v);
        let (neg, d) = match s.strip_prefix('-') {
            Some(r) => (true, r.to_string()),
            None => (false, s),
        };
        Dec::new(neg, Big::from_digits(&d.bytes().map(|c| c - b'0').collect::<Vec<u8>>()), 0)
    }};
}

/// to-integer conversion of one operand to one type, all three forms
macro_rules! to_int {
    ($t:ty, $x:expr, $r:expr, $c:expr) => {{
        let (lo, hi) = (idec!($t, <$t>::MIN), idec!($t, <$t>::MAX));
        let exp: Option<String> = match $r {
            Some(r) if in_range(r, &lo, &hi) => Some(r.text()),
            _ => None,
        };
        let forms: [(&str, Out<Option<String>>); 3] = [
            (concat!(stringify!($t), "::try_from(&Numeric)"), $c.call(|| <$t>::try_from($x.num()).ok().map(|v| v.to_string()))),
            (concat!(stringify!($t), "::try_from(&NumericBuf)"), $c.call(|| <$t>::try_from(&$x.buf).ok().map(|v| v.to_string()))),
            (concat!(stringify!($t), "::try_from(NumericBuf)"), $c.call(|| <$t>::try_from($x.buf.clone()).ok().map(|v| v.to_string()))),
        ];
        for (n, f) in forms.iter() {
            match f {
                Ok(v) => $c.check(*v == exp, || format!("{}: got {:?}, expected {:?}", n, v, exp)),
                Err(p) => $c.fail(format!("{}: panicked {}", n, p)),
            }
        }
        if let Some(e) = &exp {
            $c.seen(e.as_bytes());
        }
    }};
}

fn all_ints(x: &Opnd, c: &mut Ctx) {
    let r = match &x.val {
        Val::NaN => None,
        Val::Fin(d) => Some(d.round(0)),
    };
    each_int!(to_int!(x, &r, c));
}

/// from-integer: exact value, and back
macro_rules! from_int {
    ($t:ty, $v:expr, $c:expr) => {{
        let v: $t = $v;
        let e = idec!($t, v);
        $c.desc(|| format!("{}{}", v, stringify!($t)));
        let r = $c.call(|| NumericBuf::from(v));
        $c.is(concat!("NumericBuf::from(", stringify!($t), ")"), &r, &Val::Fin(e));
        if let Ok(n) = r {
            let b = $c.call(|| (<$t>::try_from(&n).ok(), <$t>::try_from(n.as_numeric()).ok(), <$t>::try_from(n.clone()).ok()));
            match b {
                Ok(t) => $c.check(t == (Some(v), Some(v), Some(v)), || format!("back: {:?}", t)),
                Err(p) => $c.fail(format!("back: panicked {}", p)),
            }
        }
    }};
}

fn interesting_u128() -> Vec<u128> {
    let mut v: Vec<u128> = (0..300).collect();
    let near = |x: u128, v: &mut Vec<u128>| {
        for d in 0..3u128 {
            v.push(x.wrapping_add(d));
            v.push(x.wrapping_sub(d));
        }
    };
    for k in 0..128 {
        near(1u128 << k, &mut v);
    }
    let mut p = 1u128;
    for _ in 0..39 {
        for m in [1u128, 2, 5, 9] {
            near(p.wrapping_mul(m), &mut v);
        }
        p = p.wrapping_mul(10);
    }
    let mut p = 1u128;
    for _ in 0..10 {
        for m in [1u128, 9999, 5000, 1234, 10001] {
            near(p.wrapping_mul(m), &mut v);
            v.push(p.wrapping_mul(m).wrapping_add(p / 10000));
        }
        p = p.wrapping_mul(10000);
    }
    near(u128::MAX, &mut v);
    // repeating patterns of base-10000 digits with zero groups inside
    for a in [0u128, 1, 9999, 10] {
        for b in [0u128, 1, 9999, 10] {
            for c in [0u128, 1, 9999, 10] {
                for d in [0u128, 1, 9999, 10] {
                    let mut x = 0u128;
                    for g in [a, b, c, d, a, b, c, d] {
                        x = x * 10000 + g;
                        v.push(x);
                    }
                }
            }
        }
    }
    v.sort();
    v.dedup();
    v
}

const FULL_GROUPS: [u64; 40] = [0, 1, 2, 3, 9, 10, 99, 100, 255, 256, 327, 328, 500, 736, 737, 738, 999, 1000, 1023, 1844, 2147, 3276, 3277, 4095, 4096, 4294, 4999, 5000, 5001, 5477, 5807, 6553, 7295, 8191, 9000, 9223, 9551, 9551, 9998, 9999];

pub fn c12(cfg: Cfg) -> Vec<Space> {
    let mut v = vec![
        space("every u8, i8, u16, i16", 65536, |i, c| {
            from_int!(u16, i as u16, c);
            from_int!(i16, i as u16 as i16, c);
            if i < 256 {
                from_int!(u8, i as u8, c);
                from_int!(i8, i as u8 as i8, c);
            }
        }),
        space("bool", 2, |i, c| {
            c.desc(|| format!("{}", i == 1));
            let r = c.call(|| NumericBuf::from(i == 1));
            c.is("NumericBuf::from(bool)", &r, &Val::Fin(Dec::int(i as i128)));
        }),
    ];
    let ints = interesting_u128();
    let n = ints.len() as u64;
    v.push(space("interesting integers of every type", n, move |i, c| {
        let x = ints[i as usize];
        macro_rules! both {
            ($t:ty,) => {
                from_int!($t, x as $t, c);
                from_int!($t, (x as $t).wrapping_neg(), c);
                from_int!($t, <$t>::MAX.wrapping_sub(x as $t), c);
                from_int!($t, <$t>::MIN.wrapping_add(x as $t), c);
            };
        }
        each_int!(both!());
    }));
    let n = cfg.size(100_000, 30_000, cfg.deep(2_000_000u64, 8_000_000));
    v.push(space("consecutive i32/u32/i64/u64/i128/u128/isize/usize", n, |i, c| {
        from_int!(u32, i as u32, c);
        from_int!(i32, -(i as i32), c);
        from_int!(u64, i.wrapping_mul(100_000_007), c);
        from_int!(i64, -(i as i64).wrapping_mul(1_000_003), c);
        from_int!(u128, (i as u128).wrapping_mul(10_000_000_000_000_000_000_000_000_033), c);
        from_int!(i128, -(i as i128).wrapping_mul(10_000_000_000_000_061), c);
        from_int!(isize, -(i as isize), c);
        from_int!(usize, i as usize, c);
    }));
    // towards integers: every limit of every type +- small fractions
    let mut lims: Vec<Dec> = vec![Dec::int(0)];
    for bits in [7u32, 8, 15, 16, 31, 32, 63, 64, 127] {
        lims.push(udec(1u128 << bits));
    }
    lims.push(udec(u128::MAX).add(&Dec::int(1)));
    for p in [10i128, 100, 1000, 10_000, 100_000_000] {
        lims.push(Dec::int(p));
    }
    let mut vals = Vec::new();
    for l in &lims {
        for scale in 0..=cfg.size(9, 6, 12) {
            let unit = |k: i128| Dec::of(k, scale);
            let half = if scale > 0 { 5 * 10i128.pow(scale as u32 - 1) } else { 0 };
            for whole in [-2i128, -1, 0, 1, 2] {
                for f in [0, 1, half - 1, half, half + 1, 2 * half - 1, -1, -half, 1 - half, -half - 1] {
                    let x = l.add(&Dec::int(whole)).add(&unit(f));
                    vals.push(x.negated());
                    vals.push(x);
                }
            }
        }
    }
    v.push(singles("limits of every type and fractions around them", with_nan(vals), all_ints));
    // multiples of powers of ten: trailing zero groups must be restored, overflow noticed
    let mut big = Vec::new();
    for e in 0..=48 {
        for m in [1i128, 2, 3, 6, 9, 12, 17, 18, 34, 92, 99, 127, 128, 255, 256, 327, 328, 655, 656, 2147, 2148, 4294, 4295, 9223, 9224, 9999] {
            for s in [0, 1, 5] {
                let x = Dec::new(false, Big::from_u128(m as u128).mul_pow10(e + s), s as i64);
                big.push(x.negated());
                big.push(x);
            }
        }
    }
    v.push(singles("multiples of powers of ten", dtable(big), all_ints));
    let n = cfg.size(20000, 10000, cfg.deep(200_000, 1_000_000));
    v.push(singles("range(scale 2)", dtable(range(-n, n, 2)), all_ints));
    v.push(singles("range(scale 5)", dtable(range(-n, n, 5)), all_ints));
    v.push(singles("small", with_nan(small(&[0, 1, 2, 3, 4, 5, 8, 17, 40, 64], true)), all_ints));
    v.push(singles("groups", dtable(groups(&D8, 3, &[-2, -1, 0, 1, 2, 3, 4, 5, 7, 9, 10], &[0], true)), all_ints));
    v.push(singles("long", dtable(long(&[4, 5, 9, 10, 11, 17], &[0, 1, 2, 3, 4, 5, 6, 7, 8], true)), all_ints));
    v.push(singles("digits x point positions", grid_table(cfg), all_ints));
    v.push(singles("up to every digit of the format", vast_table(cfg), all_ints));
    v.push(singles("machine integers", super::arith::machine_table(cfg, true), all_ints));
    // the leading groups of every type's limits, then anything
    let mut e = vec![];
    for bits in [15u32, 16, 31, 32, 63, 64, 127, 128] {
        let p = Big::from_u128(2).pow(bits);
        let mut cut = 4;
        while cut < p.ndigits() {
            let (q, _, _) = p.div_pow10(cut / 4 * 4);
            for lead in [q.clone(), q.sub(&Big::one()), q.add(&Big::one())] {
                for f in cfg.size(&[0u64, 1, 9, 736, 737, 738, 999, 4095, 5000, 5477, 5807, 7295, 9551, 9998, 9999][..], &[0, 1, 9999][..], &FULL_GROUPS[..]) {
                    for rest in [0u64, 1, 9999] {
                        let mut x = lead.clone();
                        for g in 0..cut / 4 {
                            x = x.mul_small(10000).add(&Big::from_u128(if g == 0 { *f } else { rest } as u128));
                        }
                        e.push(Dec::new(false, x.clone(), 0));
                        e.push(Dec::new(true, x, 0));
                    }
                }
            }
            cut += 4;
        }
    }
    v.push(singles("leading groups of the limits", dtable(e), all_ints));
    v.push(singles("header boundary", boundary_table(), all_ints));
    v.push(singles("extremes", with_nan(extremes(true)), all_ints));
    v.push(singles("ladder of weights", super::arith::ladder_table(), all_ints));
    v
}

// ---------------------------------------------------------------- floats

fn pow2(n: usize) -> Big {
    thread_local! {
        static C: std::cell::RefCell<std::collections::HashMap<usize, Big>> = std::cell::RefCell::new(Default::default());
    }
    C.with(|c| {
        c.borrow_mut()
            .entry(n)
            .or_insert_with(|| {
                let mut r = Big::one();
                let mut k = n;
                while k > 0 {
                    let s = k.min(26);
                    r = r.mul_small(1 << s);
                    k -= s;
                }
                r
            })
            .clone()
    })
}
fn pow5(n: usize) -> Big {
    thread_local! {
        static C: std::cell::RefCell<std::collections::HashMap<usize, Big>> = std::cell::RefCell::new(Default::default());
    }
    C.with(|c| {
        c.borrow_mut()
            .entry(n)
            .or_insert_with(|| {
                let mut r = Big::one();
                let mut k = n;
                while k > 0 {
                    let s = k.min(11);
                    r = r.mul_small(5u32.pow(s as u32));
                    k -= s;
                }
                r
            })
            .clone()
    })
}

/// exact decimal value of m * 2^e
fn bin_to_dec(neg: bool, m: u64, e: i64) -> Dec {
    let m = Big::from_u128(m as u128);
    if e >= 0 {
        Dec::new(neg, m.mul(&pow2(e as usize)), 0)
    } else {
        Dec::new(neg, m.mul(&pow5(-e as usize)), -e)
    }
}

/// (negative, mantissa, exponent) of a finite float
fn split64(f: f64) -> (bool, u64, i64) {
    let b = f.to_bits();
    let (e, m) = ((b >> 52 & 0x7FF) as i64, b & ((1 << 52) - 1));
    if e == 0 {
        (b >> 63 == 1, m, -1074)
    } else {
        (b >> 63 == 1, m | 1 << 52, e - 1075)
    }
}
fn split32(f: f32) -> (bool, u64, i64) {
    let b = f.to_bits();
    let (e, m) = ((b >> 23 & 0xFF) as i64, (b & ((1 << 23) - 1)) as u64);
    if e == 0 {
        (b >> 31 == 1, m, -149)
    } else {
        (b >> 31 == 1, m | 1 << 23, e - 150)
    }
}

/// the decimal value with `prec` significant digits nearest to d (ties to even), trailing zeros removed
fn significant(d: &Dec, prec: usize) -> Dec {
    if d.is_zero() {
        return Dec::zero(0);
    }
    let n = d.mag.ndigits();
    let mut r = d.clone();
    if n > prec {
        let cut = n - prec;
        let (q, top, _) = d.mag.div_pow10(cut);
        let half = Big::from_u128(5).mul_pow10(cut - 1);
        let rest = d.mag.sub(&q.mul_pow10(cut));
        let up = match rest.cmp(&half) {
            Ordering::Greater => true,
            Ordering::Less => false,
            Ordering::Equal => q.digit(0) % 2 == 1,
        };
        let _ = top;
        r.mag = if up { q.add(&Big::one()) } else { q };
        r.scale -= cut as i64;
    }
    let t = r.mag.trailing_zeros() as i64;
    let drop = t.min(r.scale.max(0)).max(0);
    r.mag = r.mag.div_pow10(drop as usize).0;
    r.scale -= drop;
    if r.scale < 0 {
        r.mag = r.mag.mul_pow10(-r.scale as usize);
        r.scale = 0;
    }
    r
}

fn from_float_check<F: Copy>(f: F, exact: Option<Dec>, nan: bool, prec: usize, c: &mut Ctx, conv: fn(F) -> Result<NumericBuf, ()>) {
    match c.call(|| conv(f)) {
        Ok(Ok(n)) => match (&exact, nan) {
            (Some(d), _) => c.bytes_are_dec("NumericBuf::try_from(float)", n.as_bytes(), &significant(d, prec)),
            (None, true) => c.bytes_are("NumericBuf::try_from(NaN)", n.as_bytes(), &Val::NaN),
            (None, false) => c.fail("infinity accepted"),
        },
        Ok(Err(())) => c.check(exact.is_none() && !nan, || "finite float rejected".into()),
        Err(p) => c.fail(format!("panicked: {}", p)),
    }
}
fn from64(f: f64, c: &mut Ctx) {
    let (n, m, e) = split64(f);
    from_float_check(f, if f.is_finite() { Some(bin_to_dec(n, m, e)) } else { None }, f.is_nan(), 15, c, |f| NumericBuf::try_from(f).map_err(|_| ()));
}
fn from32(f: f32, c: &mut Ctx) {
    let (n, m, e) = split32(f);
    from_float_check(f, if f.is_finite() { Some(bin_to_dec(n, m, e)) } else { None }, f.is_nan(), 6, c, |f| NumericBuf::try_from(f).map_err(|_| ()));
}

/// compare |d| with m * 2^e
fn cmp_bin(d: &Dec, m: u64, e: i64) -> Ordering {
    if d.is_zero() || m == 0 {
        return (m == 0).cmp(&d.is_zero());
    }
    // magnitudes first
    let ld = d.mag.ndigits() as f64 - d.scale as f64; // |d| in [10^(ld-1), 10^ld)
    let lm = ((m as f64).log2() + e as f64) * std::f64::consts::LOG10_2;
    if lm > ld + 1.0 {
        return Ordering::Less;
    }
    if lm < ld - 2.0 {
        return Ordering::Greater;
    }
    let m = Big::from_u128(m as u128).mul_pow10(d.scale as usize);
    if e >= 0 {
        d.mag.cmp(&m.mul(&pow2(e as usize)))
    } else {
        d.mag.mul(&pow2(-e as usize)).cmp(&m)
    }
}

pub enum Near {
    Fits,
    Wrong(String),
}

/// Is the float (mantissa m, exponent e; m == max means infinity when `inf`) nearest to |d|?
fn nearest(d: &Dec, m: u64, e: i64, bits: u32, emin: i64, inf: bool) -> Near {
    let top = 1u64 << bits; // one past the largest mantissa
    if inf {
        // |d| >= MAX + half ulp : emax exponent
        let (em, ee) = (2 * (top - 1) + 1, if bits == 53 { 970 } else { 103 });
        return if cmp_bin(d, em, ee) != Ordering::Less { Near::Fits } else { Near::Wrong("infinity although a finite number is nearer".into()) };
    }
    // upper midpoint
    let even = m % 2 == 0;
    match cmp_bin(d, 2 * m + 1, e - 1) {
        Ordering::Greater => return Near::Wrong("the next larger number is nearer".into()),
        Ordering::Equal if !even => return Near::Wrong("tie must go to even".into()),
        _ => {}
    }
    if m == 0 {
        return Near::Fits;
    }
    // lower midpoint; below a power of two the spacing halves
    let (lm, le) = if m == top / 2 && e > emin { (4 * m - 1, e - 2) } else { (2 * m - 1, e - 1) };
    match cmp_bin(d, lm, le) {
        Ordering::Less => Near::Wrong("the next smaller number is nearer".into()),
        Ordering::Equal if !even => Near::Wrong("tie must go to even".into()),
        _ => Near::Fits,
    }
}

fn to_floats(x: &Opnd, c: &mut Ctx) {
    let f64s = [
        ("f64::try_from(&Numeric)", c.call(|| f64::try_from(x.num()).ok())),
        ("f64::try_from(&NumericBuf)", c.call(|| f64::try_from(&x.buf).ok())),
        ("f64::try_from(NumericBuf)", c.call(|| f64::try_from(x.buf.clone()).ok())),
    ];
    let first = f64s[0].1.clone().ok().flatten().map(f64::to_bits);
    for (n, r) in f64s.iter() {
        match (r, &x.val) {
            (Ok(Some(f)), Val::NaN) => c.check(f.is_nan(), || format!("{}: NaN became {:?}", n, f)),
            (Ok(Some(f)), Val::Fin(d)) => {
                if first == Some(f.to_bits()) && *n != f64s[0].0 {
                    continue;
                }
                if f.is_nan() {
                    c.fail(format!("{}: NaN for a finite numeric", n));
                    continue;
                }
                c.check(*f == 0.0 || f.is_sign_negative() == d.neg, || format!("{}: wrong sign {:?}", n, f));
                let (_, m, e) = split64(f.abs());
                if let Near::Wrong(w) = nearest(d, m, e, 53, -1074, f.is_infinite()) {
                    c.fail(format!("{}: got {:e}: {}", n, f, w));
                }
                c.seen(&f.to_bits().to_le_bytes());
            }
            (Ok(None), _) => c.fail(format!("{}: error", n)),
            (Err(p), _) => c.fail(format!("{}: panicked {}", n, p)),
        }
    }
    let f32s = [
        ("f32::try_from(&Numeric)", c.call(|| f32::try_from(x.num()).ok())),
        ("f32::try_from(&NumericBuf)", c.call(|| f32::try_from(&x.buf).ok())),
        ("f32::try_from(NumericBuf)", c.call(|| f32::try_from(x.buf.clone()).ok())),
    ];
    let first = f32s[0].1.clone().ok().flatten().map(f32::to_bits);
    for (n, r) in f32s.iter() {
        match (r, &x.val) {
            (Ok(Some(f)), Val::NaN) => c.check(f.is_nan(), || format!("{}: NaN became {:?}", n, f)),
            (Ok(Some(f)), Val::Fin(d)) => {
                if first == Some(f.to_bits()) && *n != f32s[0].0 {
                    continue;
                }
                if f.is_nan() || f.is_infinite() {
                    c.fail(format!("{}: {} for a finite numeric", n, f));
                    continue;
                }
                c.check(*f == 0.0 || f.is_sign_negative() == d.neg, || format!("{}: wrong sign {:?}", n, f));
                c.check(*f != 0.0 || d.is_zero(), || format!("{}: nonzero became zero", n));
                let (_, m, e) = split32(f.abs());
                if let Near::Wrong(w) = nearest(d, m, e, 24, -149, false) {
                    c.fail(format!("{}: got {:e}: {}", n, f, w));
                }
                c.seen(&f.to_bits().to_le_bytes());
            }
            (Ok(None), Val::Fin(d)) => {
                // an error is right when the nearest is infinity, or zero for a nonzero value
                let zero = !d.is_zero() && cmp_bin(d, 1, -150) != Ordering::Greater;
                let inf = cmp_bin(d, 2 * ((1 << 24) - 1) + 1, 103) != Ordering::Less;
                c.check(zero || inf, || format!("{}: error although representable", n));
            }
            (Ok(None), Val::NaN) => c.fail(format!("{}: error for NaN", n)),
            (Err(p), _) => c.fail(format!("{}: panicked {}", n, p)),
        }
    }
}

fn mant_patterns(bits: u32) -> Vec<u64> {
    let full = (1u64 << bits) - 1;
    let mut v = vec![0, 1, 2, 3, full, full - 1, 1 << (bits - 1), (1 << (bits - 1)) - 1, (1 << (bits - 1)) + 1, full / 3, full / 3 * 2, full / 5, full / 7, full / 10, full / 100];
    for k in (0..bits).step_by(7) {
        v.push(1 << k);
        v.push(full ^ (1 << k));
    }
    let mut s = 12345u64;
    for _ in 0..12 {
        s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        v.push(s >> (64 - bits));
    }
    v.sort();
    v.dedup();
    v
}

pub fn c13(cfg: Cfg) -> Vec<Space> {
    let mut v = vec![];
    let mp = mant_patterns(52);
    let n = mp.len() as u64;
    v.push(space("f64 -> numeric: every exponent x mantissa patterns x sign", 2048 * n * 2, move |i, c| {
        let f = f64::from_bits((i % 2) << 63 | (i / 2 / n) << 52 | mp[(i / 2 % n) as usize]);
        c.desc(|| format!("{:e} (bits {:016x})", f, f.to_bits()));
        from64(f, c);
    }));
    let lows: Vec<u32> = cfg.size(vec![0, 1, 0x7fff, 0x8000, 0xffff], vec![0, 0xffff], (0..65536).step_by(1021).chain([1, 0x7fff, 0x8000, 0xffff]).collect());
    let nl = lows.len() as u64;
    v.push(space("f32 -> numeric: every upper half x lower-half patterns", 65536 * nl, move |i, c| {
        let f = f32::from_bits(((i / nl) as u32) << 16 | lows[(i % nl) as usize]);
        c.desc(|| format!("{:e} (bits {:08x})", f, f.to_bits()));
        from32(f, c);
    }));
    let k = cfg.size(20000u64, 5000, cfg.deep(200_000, 1_000_000));
    v.push(space("f64 -> numeric: decimal ties and neighbours", k * 6, move |i, c| {
        let j = (i / 6) as f64;
        let f = [1e15 + j, 1e14 + j / 2.0, 1e13 + j / 4.0, (9.007e15 + j), 1e16 + 2.0 * j, 1e12 + j / 8.0][(i % 6) as usize];
        c.desc(|| format!("{:?}", f));
        from64(f, c);
    }));
    v.push(space("f32 -> numeric: decimal ties and neighbours", k * 4, move |i, c| {
        let j = (i / 4) as f32;
        let f = [1e6 + j, 1e5 + j / 2.0, 9.9e6 + j, 1e4 + j / 8.0][(i % 4) as usize];
        c.desc(|| format!("{:?}", f));
        from32(f, c);
    }));
    v.push(space("decimal literals -> f64 -> numeric", 1000 * 60, |i, c| {
        let (m, e) = (i / 60, (i % 60) as i32 - 30);
        let f: f64 = format!("{}e{}", m * 1_000_000_007 + m, e).parse().unwrap();
        c.desc(|| format!("{:e}", f));
        from64(f, c);
        from32(f as f32, c);
    }));
    // numeric -> float: every float pattern's exact value, its upper midpoint and both sides of it
    for (ty, bits, emax) in [("f64", 52u32, 2047u64), ("f32", 23, 255)] {
        let mut mp = mant_patterns(bits);
        if !cfg.thorough() {
            mp = mp.into_iter().step_by(if bits == 52 { 6 } else { 2 }).chain([(1 << bits) - 1]).collect();
        }
        let n = mp.len() as u64;
        let step = if bits == 52 { cfg.size(5, 9, 1) } else { 1 };
        let exps: Vec<u64> = (0..emax).filter(|e| e % step == 0 || *e < 3 || *e > emax - 4).collect();
        v.push(space(format!("numeric -> floats: neighbourhood of every {} exponent", ty), exps.len() as u64 * n * 5, move |i, c| {
            let (e, k, m) = (exps[(i / 5 / n) as usize], i % 5, mp[(i / 5 % n) as usize]);
            let (m, e) = {
                let bias = if bits == 52 { 1075 } else { 150 };
                if e == 0 {
                    (m, 1 - bias)
                } else {
                    (m | 1 << bits, e as i64 - bias)
                }
            };
            // exact; upper midpoint exactly, just below, just above; exact value with trailing zeros
            let mut d = match k {
                0 | 4 => bin_to_dec(i % 2 == 1, m, e),
                _ => bin_to_dec(i % 2 == 1, 2 * m + 1, e - 1),
            };
            if k == 4 {
                d.mag = d.mag.mul_pow10(7);
                d.scale += 7;
            }
            if k == 2 || k == 3 {
                d.mag = d.mag.mul_pow10(30);
                d.scale += 30;
                d.mag = if k == 2 { d.mag.sub(&Big::one()) } else { d.mag.add(&Big::one()) };
            }
            let x = Opnd::new(Val::Fin(d));
            c.desc(|| format!("x={}", x.show()));
            to_floats(&x, c);
        }));
    }
    v.push(space("numeric -> floats: short decimals at every exponent", 400 * 800, |i, c| {
        let (m, e) = ((i / 800) as i128, i as i64 % 800 - 400);
        let m = if m < 200 { m } else { m * 45_035_996_273_704_961 + 3 };
        let d = if e <= 0 { Dec::of(m, -e) } else { Dec::new(false, Big::from_u128(m as u128).mul_pow10(e as usize), 0) };
        let x = Opnd::new(Val::Fin(d));
        c.desc(|| format!("x={}e{}", m, e));
        to_floats(&x, c);
    }));
    // coefficients of 15..20 digits, at every scale: those next to 2^53 and beyond are not doubles themselves
    let nc = cfg.size(160u64, 40, cfg.deep(400, 2000));
    let ns = cfg.size(31u64, 31, 400);
    v.push(space("numeric -> floats: coefficients of 15 to 20 digits x scales", nc * 6 * ns, move |i, c| {
        let (k, base, s) = (i / 6 / ns, i / ns % 6, (i % ns) as i64);
        let m: u128 = match base {
            0 => (1 << 53) + 2 * k as u128 + 1,
            1 => 9_999_999_999_999_999 - 61 * k as u128,
            2 => (1 << 54) - 1 + 1_000_003 * k as u128,
            3 => (1 << 63) - 1 - 7_919_000_017 * k as u128,
            4 => (1 << 64) + 1 + 999_999_999_989 * k as u128,
            _ => 899_999_999_999_999 + 777_777_777 * k as u128,
        };
        let x = Opnd::new(Val::Fin(Dec::of(if k % 2 == 0 { m as i128 } else { -(m as i128) }, s)));
        c.desc(|| format!("x={}", x.show()));
        to_floats(&x, c);
    }));
    v.push(singles("numeric -> floats: machine integers", super::arith::machine_table(cfg, true), to_floats));
    v.push(singles("numeric -> floats: small", with_nan(small(&[0, 1, 2, 3, 4, 5, 8, 17, 40, 64], true)), to_floats));
    v.push(singles("numeric -> floats: groups", group_table(cfg, true), to_floats));
    v.push(singles("numeric -> floats: long", long_table(cfg), to_floats));
    v.push(singles("numeric -> floats: digits x point positions", grid_table(cfg), to_floats));
    v.push(singles("numeric -> floats: up to every digit of the format", vast_table(cfg), to_floats));
    v.push(singles("numeric -> floats: header boundary", boundary_table(), to_floats));
    v.push(singles("numeric -> floats: extremes", with_nan(extremes(true)), to_floats));
    v.push(singles("numeric -> floats: ladder of weights", super::arith::ladder_table(), to_floats));
    v
}
