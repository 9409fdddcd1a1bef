//! What every operation group must give, as one function of the operands' values.
use crate::dec::{self, Dec, Val};
use crate::props::arith::div_scale;
use crate::props::ord::{apply_expect, vcmp};
use std::cmp::Ordering;

#[derive(Clone, Debug)]
pub enum Exp {
    N(Val),
    /// None or a panic
    Fail,
    T(Vec<u8>),
    /// a numeric equal to 1, whatever its scale
    One,
    /// not decided here (transcendental result of finite operands)
    Any,
}

impl Exp {
    pub fn num(d: Dec) -> Exp {
        if d.fits() {
            Exp::N(Val::Fin(d))
        } else {
            Exp::Fail
        }
    }
    pub fn opt(d: Option<Dec>) -> Exp {
        d.map_or(Exp::Fail, Exp::num)
    }
    pub fn nan() -> Exp {
        Exp::N(Val::NaN)
    }
    pub fn txt(s: impl Into<String>) -> Exp {
        Exp::T(s.into().into_bytes())
    }
    pub fn show(&self) -> String {
        match self {
            Exp::N(v) => format!("{} (scale {})", v.show(), if let Val::Fin(d) = v { d.scale.to_string() } else { "-".into() }),
            Exp::Fail => "failure".into(),
            Exp::T(t) => format!("{:?}", String::from_utf8_lossy(&t[..t.len().min(200)])),
            Exp::One => "1".into(),
            Exp::Any => "any".into(),
        }
    }
    /// Observation (see ops::observe) this outcome has, None when not a single one.
    pub fn observation(&self) -> Option<Vec<u8>> {
        Some(match self {
            Exp::N(v) => {
                let mut o = vec![b'N'];
                o.extend(dec::encode(v).expect("model: expectation does not fit"));
                o
            }
            Exp::Fail => vec![b'F'],
            Exp::T(t) => {
                let mut o = vec![b'T'];
                o.extend_from_slice(t);
                o
            }
            Exp::One | Exp::Any => return None,
        })
    }
    pub fn matches(&self, obs: &[u8]) -> bool {
        match self {
            Exp::Any => true,
            Exp::One => obs[0] == b'N' && matches!(dec::decode(&obs[1..]), Ok(Val::Fin(d)) if d.cmp(&Dec::int(1)) == Ordering::Equal),
            e => e.observation().unwrap() == obs,
        }
    }
}

pub fn quotient(a: &Dec, b: &Dec, s: i64, round: bool) -> Dec {
    let sh = s + b.scale - a.scale;
    let (n, d) = if sh >= 0 { (a.mag.mul_pow10(sh as usize), b.mag.clone()) } else { (a.mag.clone(), b.mag.mul_pow10(-sh as usize)) };
    let (mut q, r) = n.divrem(&d);
    if round && r.mul_small(2).cmp(&d) != Ordering::Less {
        q = q.add(&crate::big::Big::one());
    }
    Dec::new(a.neg != b.neg, q, s)
}
pub fn div(a: &Dec, b: &Dec) -> Option<Dec> {
    (!b.is_zero()).then(|| quotient(a, b, div_scale(a, b), true))
}
pub fn div_trunc(a: &Dec, b: &Dec) -> Option<Dec> {
    (!b.is_zero()).then(|| quotient(a, b, 0, false))
}
pub fn rem(a: &Dec, b: &Dec) -> Option<Dec> {
    if b.is_zero() {
        return None;
    }
    let s = a.scale.max(b.scale);
    Some(Dec::new(a.neg, a.mag_at(s).divrem(&b.mag_at(s)).1, s))
}

fn int_range(t: &str) -> Option<(Dec, Dec)> {
    let bits = match t {
        "i8" | "u8" => 8,
        "i16" | "u16" => 16,
        "i32" | "u32" => 32,
        "i64" | "u64" | "isize" | "usize" => 64,
        "i128" | "u128" => 128,
        _ => return None,
    };
    let p = |n: u32| Dec::new(false, crate::big::Big::from_u128(1).shl_small(1).pow(n), 0);
    Some(if t.starts_with('u') { (Dec::int(0), p(bits).sub(&Dec::int(1))) } else { (p(bits - 1).negated(), p(bits - 1).sub(&Dec::int(1))) })
}

pub fn m1(g: &str, v: &Val) -> Exp {
    let flag = |b: bool| Exp::T(vec![b as u8]);
    match g {
        "copy" | "json round trip" | "bincode round trip" | "text round trip" => return Exp::N(v.clone()),
        "text" => return Exp::txt(v.text()),
        "json" => return Exp::txt(format!("\"{}\"", v.text())),
        "bytes" => return Exp::T(dec::encode(v).unwrap()),
        "bincode" => {
            let b = dec::encode(v).unwrap();
            let mut o = (b.len() as u64).to_le_bytes().to_vec();
            o.extend(b);
            return Exp::T(o);
        }
        "hash" => return Exp::Any,
        "is_nan" => return flag(v.is_nan()),
        _ => {}
    }
    let d = match v {
        Val::NaN => {
            return match g {
                "normalize" | "{:e}" | "{:E}" => Exp::txt("NaN"),
                "is_negative" | "is_positive" => flag(false),
                "scale" => Exp::txt("None"),
                "to f32" | "to f64" => Exp::txt("nan"),
                _ if g.starts_with("to ") => Exp::Any, // an error, judged by the caller
                _ => Exp::nan(),
            }
        }
        Val::Fin(d) => d,
    };
    match g {
        "neg" => Exp::num(d.negated()),
        "abs" => Exp::num(d.absv()),
        "signum" => Exp::num(Dec::int(if d.is_zero() { 0 } else if d.neg { -1 } else { 1 })),
        "inc" => Exp::num(d.add(&Dec::int(1))),
        "ceil" => Exp::num(d.ceil()),
        "floor" => Exp::num(d.floor()),
        "normalize" => Exp::txt(d.normalized_text()),
        "{:e}" => Exp::txt(crate::props::repr::sci(d, 'e')),
        "{:E}" => Exp::txt(crate::props::repr::sci(d, 'E')),
        "is_negative" => flag(d.neg),
        "is_positive" => flag(!d.neg),
        "scale" => Exp::txt(format!("Some({})", d.scale)),
        _ => match g.strip_prefix("to ").and_then(int_range) {
            Some((lo, hi)) => {
                let r = d.round(0);
                if r.cmp(&lo) != Ordering::Less && r.cmp(&hi) != Ordering::Greater {
                    Exp::txt(r.text())
                } else {
                    Exp::Any
                }
            }
            None => Exp::Any,
        },
    }
}

fn sym(o: Ordering) -> u8 {
    match o {
        Ordering::Less => b'<',
        Ordering::Equal => b'=',
        Ordering::Greater => b'>',
    }
}

pub fn m2(g: &str, a: &Val, b: &Val) -> Exp {
    match g {
        "order" => return Exp::T(vec![sym(vcmp(a, b))]),
        "equality" => return Exp::T(vec![if vcmp(a, b) == Ordering::Equal { b'=' } else { b'#' }]),
        // std::cmp::max returns the second of equals, min the first
        "max" => return Exp::N(if vcmp(a, b) == Ordering::Greater { a.clone() } else { b.clone() }),
        "min" => return Exp::N(if vcmp(a, b) == Ordering::Greater { b.clone() } else { a.clone() }),
        _ => {}
    }
    let (x, y) = match (a, b) {
        (Val::Fin(x), Val::Fin(y)) => (x, y),
        _ => {
            if g == "pow" {
                if matches!(b, Val::Fin(y) if y.is_zero()) || matches!(a, Val::Fin(x) if x.cmp(&Dec::int(1)) == Ordering::Equal) {
                    return Exp::One;
                }
            }
            return Exp::nan();
        }
    };
    match g {
        "add" => Exp::num(x.add(y)),
        "sub" => Exp::num(x.sub(y)),
        "mul" => Exp::num(x.mul(y)),
        "div" => Exp::opt(div(x, y)),
        "rem" => Exp::opt(rem(x, y)),
        "div_trunc" => Exp::opt(div_trunc(x, y)),
        _ => Exp::Any,
    }
}

pub fn mp(g: &str, v: &Val, p: i64) -> Exp {
    match g {
        "typmod" => {
            let (prec, s) = (p >> 16, p & 0xFFFF);
            if !(1..=1000).contains(&prec) || s > prec {
                return Exp::Fail;
            }
            let (o, r) = apply_expect(v, prec, s);
            let mut t = vec![o as u8];
            t.extend(dec::encode(&r).unwrap());
            Exp::T(t)
        }
        _ => match v {
            Val::NaN => Exp::nan(),
            Val::Fin(d) => {
                let s = p.clamp(-1000, 1000);
                Exp::num(if g == "round" { d.round(s) } else { d.trunc(s) })
            }
        },
    }
}
