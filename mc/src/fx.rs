//! Reference transcendental functions: fixed-point arithmetic with guard digits on the model's naturals.
//! Different algorithms from the library's (atanh/ln 2/ln 10 reduction; exp by ln 10 and halving).
use crate::big::Big;
use crate::dec::Dec;
use std::cell::RefCell;
use std::cmp::Ordering;
use std::collections::HashMap;

/// neg * mag / 10^p for an implied precision p
#[derive(Clone, Debug)]
pub struct Fx {
    pub neg: bool,
    pub mag: Big,
}

impl Fx {
    pub fn new(neg: bool, mag: Big) -> Fx {
        let neg = neg && !mag.is_zero();
        Fx { neg, mag }
    }
    pub fn add(&self, o: &Fx) -> Fx {
        if self.neg == o.neg {
            return Fx::new(self.neg, self.mag.add(&o.mag));
        }
        match self.mag.cmp(&o.mag) {
            Ordering::Less => Fx::new(o.neg, o.mag.sub(&self.mag)),
            _ => Fx::new(self.neg, self.mag.sub(&o.mag)),
        }
    }
    pub fn mul(&self, o: &Fx, p: usize) -> Fx {
        Fx::new(self.neg != o.neg, self.mag.mul(&o.mag).div_pow10(p).0)
    }
    pub fn to_dec(&self, p: usize) -> Dec {
        Dec::new(self.neg, self.mag.clone(), p as i64)
    }
}

/// value of a decimal at precision p (truncated)
pub fn from_dec(d: &Dec, p: usize) -> Fx {
    let s = d.scale;
    let mag = if s <= p as i64 { d.mag.mul_pow10((p as i64 - s) as usize) } else { d.mag.div_pow10((s - p as i64) as usize).0 };
    Fx::new(d.neg, mag)
}

/// 2 * atanh(num/den) at precision p, |num/den| <= 1/3 or so
fn two_atanh(num: &Big, den: &Big, p: usize) -> Big {
    let z = num.mul_pow10(p).divrem(den).0;
    let z2 = z.mul(&z).div_pow10(p).0;
    let mut term = z.clone();
    let mut sum = z;
    let mut k = 1u32;
    loop {
        term = term.mul(&z2).div_pow10(p).0;
        k += 2;
        if term.is_zero() {
            break;
        }
        sum = sum.add(&term.divrem_small(k).0);
    }
    sum.mul_small(2)
}

thread_local! {
    static LN2: RefCell<HashMap<usize, Big>> = RefCell::new(HashMap::new());
    static LN10: RefCell<HashMap<usize, Big>> = RefCell::new(HashMap::new());
}

pub fn ln2(p: usize) -> Big {
    LN2.with(|c| c.borrow_mut().entry(p).or_insert_with(|| two_atanh(&Big::one(), &Big::from_u128(3), p)).clone())
}
pub fn ln10(p: usize) -> Big {
    // ln 10 = 3 ln 2 + ln(10/8) = 3 ln 2 + 2 atanh(1/9)
    let l2 = ln2(p);
    LN10.with(|c| c.borrow_mut().entry(p).or_insert_with(|| l2.mul_small(3).add(&two_atanh(&Big::one(), &Big::from_u128(9), p))).clone())
}

/// ln of a positive decimal at precision p, absolute error below 10^-(p-9) or so
pub fn ln(d: &Dec, p: usize) -> Fx {
    assert!(!d.neg && !d.is_zero());
    // d = m / 10^(nd-1) * 10^k with m / 10^(nd-1) in [1, 10)
    let nd = d.mag.ndigits();
    let k = nd as i64 - 1 - d.scale;
    // y = mag / 10^(nd-1); reduce to [3/4, 3/2) by a power of two
    let ten = Big::pow10(nd - 1);
    let mut den = ten.clone();
    let mut j = 0u32;
    // while mag/den >= 3/2: den *= 2
    while d.mag.mul_small(2).cmp(&den.mul_small(3)) != Ordering::Less {
        den = den.mul_small(2);
        j += 1;
    }
    // if y < 3/4: multiply by ten / ... cannot happen for [1,10)
    let (num, neg) = match d.mag.cmp(&den) {
        Ordering::Less => (den.sub(&d.mag), true),
        _ => (d.mag.sub(&den), false),
    };
    let sum = d.mag.add(&den);
    let a = Fx::new(neg, two_atanh(&num, &sum, p));
    let b = Fx::new(false, ln2(p).mul_small(j));
    let l10 = ln10(p);
    let c = Fx::new(k < 0, l10.mul_small(k.unsigned_abs() as u32));
    a.add(&b).add(&c)
}

/// e^x for |x| up to about 400000: returns (m, n) meaning m * 10^n with m at precision p in about (0.3, 3.2)
pub fn exp(x: &Fx, p: usize) -> (Big, i64) {
    let l10 = ln10(p);
    // n = round(x / ln10)
    let (q, r) = x.mag.divrem(&l10);
    let mut n = q.to_u128().expect("model: exp argument") as i64;
    let mut r = Fx::new(false, r);
    if r.mag.mul_small(2).cmp(&l10) == Ordering::Greater {
        n += 1;
        r = r.add(&Fx::new(true, l10));
    }
    if x.neg {
        n = -n;
        r = Fx::new(!r.neg, r.mag);
    }
    // r in [-1.16, 1.16]: halve 8 times, Taylor, square
    const H: u32 = 8;
    let g = p + 6;
    let r = Fx::new(r.neg, r.mag.mul_pow10(6).divrem_small(1 << H).0);
    let one = Fx::new(false, Big::pow10(g));
    let mut sum = one.add(&r);
    let mut term = r.clone();
    let mut k = 1u32;
    loop {
        k += 1;
        term = term.mul(&r, g);
        term = Fx::new(term.neg, term.mag.divrem_small(k).0);
        if term.mag.is_zero() {
            break;
        }
        sum = sum.add(&term);
    }
    let mut m = sum.mag;
    for _ in 0..H {
        m = m.mul(&m).div_pow10(g).0;
    }
    (m.div_pow10(6).0, n)
}

/// |r - t| in units of 10^-scale(r), times 1000 rounded up, where t is known at precision p >= scale + 6
/// with error at most 10^(6 - ...) : the caller guarantees that t's error is below one thousandth of a unit.
pub fn milli_ulps(r: &Dec, t: &Dec) -> u64 {
    let s = r.scale;
    let p = t.scale.max(s);
    let d = r.sub(t);
    // |d| * 1000 / 10^-s
    let m = d.mag_at(p).mul_small(1000).div_pow10((p - s) as usize);
    m.0.to_u128().map_or(u64::MAX, |v| v.min(u64::MAX as u128) as u64).saturating_add(m.2 as u64)
}
