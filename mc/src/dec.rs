//! Reference numerics: exact decimals (sign, coefficient, display scale) or NaN, and the
//! PostgreSQL on-disk encoding written directly from its documentation.
use crate::big::Big;
use std::cmp::Ordering;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Dec {
    pub neg: bool,
    pub mag: Big,
    pub scale: i64,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Val {
    NaN,
    Fin(Dec),
}

pub const WEIGHT_MAX: i64 = 32767;
pub const DSCALE_MAX: i64 = 16383;
const SHORT_DSCALE_MAX: i64 = 63;

impl Val {
    pub fn is_nan(&self) -> bool {
        matches!(self, Val::NaN)
    }
    pub fn fin(&self) -> &Dec {
        match self {
            Val::Fin(d) => d,
            Val::NaN => panic!("model: NaN where a finite value is needed"),
        }
    }
    pub fn text(&self) -> String {
        match self {
            Val::NaN => "NaN".into(),
            Val::Fin(d) => d.text(),
        }
    }
    /// Compact form for messages.
    pub fn show(&self) -> String {
        let s = self.text();
        if s.len() <= 120 {
            s
        } else {
            format!("{}...{} [{} chars]", &s[..50], &s[s.len() - 50..], s.len())
        }
    }
}

impl Dec {
    pub fn new(neg: bool, mag: Big, scale: i64) -> Dec {
        let neg = neg && !mag.is_zero();
        Dec { neg, mag, scale }
    }
    pub fn int(v: i128) -> Dec {
        Dec::new(v < 0, Big::from_u128(v.unsigned_abs()), 0)
    }
    pub fn of(v: i128, scale: i64) -> Dec {
        Dec::new(v < 0, Big::from_u128(v.unsigned_abs()), scale)
    }
    pub fn zero(scale: i64) -> Dec {
        Dec::new(false, Big::zero(), scale)
    }
    pub fn is_zero(&self) -> bool {
        self.mag.is_zero()
    }
    /// Coefficient at a scale that is at least the current one.
    pub fn mag_at(&self, scale: i64) -> Big {
        assert!(scale >= self.scale);
        self.mag.mul_pow10((scale - self.scale) as usize)
    }
    /// The same value at scale 0 or above; digits beyond place s are dropped.
    pub fn at_least(self, s: i64) -> Dec {
        let d = self.up();
        if d.scale > s {
            d.trunc(s)
        } else {
            d
        }
    }
    pub fn negated(&self) -> Dec {
        Dec::new(!self.neg, self.mag.clone(), self.scale)
    }
    pub fn absv(&self) -> Dec {
        Dec::new(false, self.mag.clone(), self.scale)
    }
    pub fn add(&self, o: &Dec) -> Dec {
        let s = self.scale.max(o.scale);
        let (a, b) = (self.mag_at(s), o.mag_at(s));
        if self.neg == o.neg {
            Dec::new(self.neg, a.add(&b), s)
        } else if a.cmp(&b) != Ordering::Less {
            Dec::new(self.neg, a.sub(&b), s)
        } else {
            Dec::new(o.neg, b.sub(&a), s)
        }
    }
    pub fn sub(&self, o: &Dec) -> Dec {
        self.add(&o.negated())
    }
    pub fn mul(&self, o: &Dec) -> Dec {
        Dec::new(self.neg != o.neg, self.mag.mul(&o.mag), self.scale + o.scale)
    }
    pub fn cmp(&self, o: &Dec) -> Ordering {
        if self.neg != o.neg {
            return if self.neg { Ordering::Less } else { Ordering::Greater };
        }
        let c = self.cmp_abs(o);
        if self.neg {
            c.reverse()
        } else {
            c
        }
    }
    pub fn cmp_abs(&self, o: &Dec) -> Ordering {
        if self.is_zero() || o.is_zero() {
            return o.is_zero().cmp(&self.is_zero());
        }
        // position of the leading digit first: avoids huge rescaling
        let la = self.mag.ndigits() as i64 - self.scale;
        let lb = o.mag.ndigits() as i64 - o.scale;
        if la != lb {
            return la.cmp(&lb);
        }
        let s = self.scale.max(o.scale);
        self.mag_at(s).cmp(&o.mag_at(s))
    }
    /// Half away from zero to `s` places (s may be negative); resulting scale is max(s,0).
    pub fn round(&self, s: i64) -> Dec {
        if s >= self.scale {
            return Dec::new(self.neg, self.mag_at(s), s);
        }
        let (q, top, _) = self.mag.div_pow10((self.scale - s) as usize);
        let q = if top >= 5 { q.add(&Big::one()) } else { q };
        Dec::new(self.neg, q, s).up()
    }
    pub fn trunc(&self, s: i64) -> Dec {
        if s >= self.scale {
            return Dec::new(self.neg, self.mag_at(s), s);
        }
        let (q, _, _) = self.mag.div_pow10((self.scale - s) as usize);
        Dec::new(self.neg, q, s).up()
    }
    fn up(self) -> Dec {
        if self.scale < 0 {
            let m = self.mag.mul_pow10((-self.scale) as usize);
            Dec::new(self.neg, m, 0)
        } else {
            self
        }
    }
    pub fn is_integral(&self) -> bool {
        self.is_zero() || self.scale <= 0 || self.mag.trailing_zeros() as i64 >= self.scale
    }
    pub fn floor(&self) -> Dec {
        let t = self.trunc(0);
        if self.neg && !self.is_integral() {
            t.sub(&Dec::int(1))
        } else {
            t
        }
    }
    pub fn ceil(&self) -> Dec {
        let t = self.trunc(0);
        if !self.neg && !self.is_integral() {
            t.add(&Dec::int(1))
        } else {
            t
        }
    }
    /// Value equality after dropping trailing zeros: (neg, mag, scale) with minimal scale (may be negative).
    pub fn canon(&self) -> (bool, Big, i64) {
        if self.is_zero() {
            return (false, Big::zero(), 0);
        }
        let t = self.mag.trailing_zeros();
        (self.neg, self.mag.div_pow10(t).0, self.scale - t as i64)
    }
    pub fn text(&self) -> String {
        let d = self.mag.to_digits();
        let sc = self.scale.max(0) as usize;
        let mut s = String::with_capacity(d.len() + sc + 3);
        if self.neg {
            s.push('-');
        }
        if d.len() > sc {
            s.extend(d[..d.len() - sc].iter().map(|c| (c + b'0') as char));
        } else {
            s.push('0');
        }
        if sc > 0 {
            s.push('.');
            for _ in d.len()..sc {
                s.push('0');
            }
            s.extend(d[d.len().saturating_sub(sc)..].iter().map(|c| (c + b'0') as char));
        }
        s
    }
    pub fn normalized_text(&self) -> String {
        let t = self.text();
        if t.contains('.') {
            t.trim_end_matches('0').trim_end_matches('.').to_string()
        } else {
            t
        }
    }
    /// Base-10000 groups, most significant first, and the weight of the first one.
    /// No leading/trailing zero groups; ([], 0) for zero.
    pub fn groups(&self) -> (Vec<u16>, i64) {
        let mut g = Vec::new();
        let w = self.groups_into(&mut g);
        (g, w)
    }
    pub fn groups_into(&self, g: &mut Vec<u16>) -> i64 {
        g.clear();
        if self.is_zero() {
            return 0;
        }
        let pad = (4 - self.scale.rem_euclid(4)) % 4;
        let frac = (self.scale + pad) / 4; // number of fractional groups
        let scaled;
        let m = if pad == 0 {
            &self.mag
        } else {
            scaled = self.mag.mul_pow10(pad as usize);
            &scaled
        };
        for &l in m.0.iter().rev() {
            g.push((l / 10000) as u16);
            g.push((l % 10000) as u16);
        }
        let mut w = g.len() as i64 - 1 - frac;
        let lead = g.iter().take_while(|&&x| x == 0).count();
        if lead > 0 {
            g.drain(..lead);
            w -= lead as i64;
        }
        while g.last() == Some(&0) {
            g.pop();
        }
        w
    }
    pub fn weight(&self) -> i64 {
        self.groups().1
    }
    pub fn from_groups(neg: bool, g: &[u16], weight: i64, scale: i64) -> Dec {
        // value = sum g[i] * 10000^(weight - i); scale must cover all stored digits
        let mut d = Vec::with_capacity(g.len() * 4);
        for &x in g {
            d.extend_from_slice(&[(x / 1000) as u8, (x / 100 % 10) as u8, (x / 10 % 10) as u8, (x % 10) as u8]);
        }
        let mag = Big::from_digits(&d);
        let natural = 4 * (g.len() as i64 - 1 - weight); // scale of `mag`, may be negative
        if natural <= scale {
            Dec::new(neg, mag.mul_pow10((scale - natural) as usize), scale)
        } else {
            let (q, _, nz) = mag.div_pow10((natural - scale) as usize);
            assert!(!nz, "model: scale hides digits");
            Dec::new(neg, q, scale)
        }
    }
    pub fn fits(&self) -> bool {
        let (_, w) = self.groups();
        self.scale >= 0 && self.scale <= DSCALE_MAX && w <= WEIGHT_MAX && w >= -WEIGHT_MAX
    }
}

fn put_len(out: &mut Vec<u8>, len: usize) {
    if cfg!(feature = "be") {
        out.extend_from_slice(&(len as u32).to_be_bytes());
    } else {
        out.extend_from_slice(&((len as u32) << 2).to_le_bytes());
    }
}

thread_local! {
    static G: std::cell::RefCell<Vec<u16>> = const { std::cell::RefCell::new(Vec::new()) };
}

/// PostgreSQL on-disk bytes of the value, None if it does not fit the format.
pub fn encode_into(v: &Val, out: &mut Vec<u8>) -> bool {
    out.clear();
    let d = match v {
        Val::NaN => {
            put_len(out, 6);
            out.extend_from_slice(&0xC000u16.to_le_bytes());
            return true;
        }
        Val::Fin(d) => d,
    };
    encode_dec(d, out)
}

pub fn encode_dec(d: &Dec, out: &mut Vec<u8>) -> bool {
    out.clear();
    G.with(|g| {
        let mut g = g.borrow_mut();
        let w = d.groups_into(&mut g);
        if d.scale < 0 || d.scale > DSCALE_MAX || w > WEIGHT_MAX || w < -WEIGHT_MAX {
            return false;
        }
        let short = d.scale <= SHORT_DSCALE_MAX && (-64..=63).contains(&w);
        let hdr = if short { 6 } else { 8 };
        put_len(out, hdr + 2 * g.len());
        if short {
            let h = 0x8000u16 | if d.neg { 0x2000 } else { 0 } | (d.scale as u16) << 7 | (w as u16 & 0x7F);
            out.extend_from_slice(&h.to_le_bytes());
        } else {
            let h = if d.neg { 0x4000u16 } else { 0 } | d.scale as u16;
            out.extend_from_slice(&h.to_le_bytes());
            out.extend_from_slice(&(w as i16).to_le_bytes());
        }
        for x in g.iter() {
            out.extend_from_slice(&x.to_le_bytes());
        }
        true
    })
}

pub fn encode(v: &Val) -> Option<Vec<u8>> {
    let mut o = Vec::new();
    if encode_into(v, &mut o) {
        Some(o)
    } else {
        None
    }
}

/// Strict decoder: Err unless the bytes are the canonical encoding of a numeric.
pub fn decode(b: &[u8]) -> Result<Val, String> {
    if b.len() < 6 {
        return Err(format!("numeric of only {} bytes", b.len()));
    }
    let word = [b[0], b[1], b[2], b[3]];
    let len = if cfg!(feature = "be") {
        let w = u32::from_be_bytes(word);
        if w & 0xC000_0000 != 0 {
            return Err("flag bits set in length word".into());
        }
        w as usize
    } else {
        let w = u32::from_le_bytes(word);
        if w & 3 != 0 {
            return Err("flag bits set in length word".into());
        }
        (w >> 2) as usize
    };
    if len != b.len() {
        return Err(format!("length word {} but {} bytes", len, b.len()));
    }
    let u = |i: usize| u16::from_le_bytes([b[i], b[i + 1]]);
    let h = u(4);
    let (neg, scale, w, off) = match h & 0xC000 {
        0xC000 => {
            return if h == 0xC000 && len == 6 {
                Ok(Val::NaN)
            } else {
                Err(format!("non-canonical NaN header {:#x}, {} bytes", h, len))
            }
        }
        0x8000 => {
            let w = (h & 0x3F) as i64 - if h & 0x40 != 0 { 64 } else { 0 };
            (h & 0x2000 != 0, ((h & 0x1F80) >> 7) as i64, w, 6)
        }
        s => {
            if b.len() < 8 {
                return Err("long header truncated".into());
            }
            (s == 0x4000, (h & 0x3FFF) as i64, u(6) as i16 as i64, 8)
        }
    };
    if (len - off) % 2 != 0 {
        return Err("odd digit bytes".into());
    }
    let g: Vec<u16> = (off..len).step_by(2).map(u).collect();
    if off == 8 && scale <= 63 && (-64..=63).contains(&w) {
        return Err("long header where the short one fits".into());
    }
    if g.iter().any(|&x| x > 9999) {
        return Err(format!("digit group out of range: {:?}", &g[..g.len().min(8)]));
    }
    if g.is_empty() {
        if neg || w != 0 {
            return Err(format!("zero with sign {} weight {}", neg, w));
        }
        return Ok(Val::Fin(Dec::zero(scale)));
    }
    if g[0] == 0 {
        return Err("leading zero group".into());
    }
    if *g.last().unwrap() == 0 {
        return Err("trailing zero group".into());
    }
    if w < -WEIGHT_MAX {
        return Err(format!("weight {}", w));
    }
    let natural = 4 * (g.len() as i64 - 1 - w);
    if natural > scale {
        let cut = natural - scale;
        if cut >= 4 || *g.last().unwrap() as u32 % crate::big::P10[cut as usize] != 0 {
            return Err(format!("scale {} hides stored digits (natural {})", scale, natural));
        }
    }
    Ok(Val::Fin(Dec::from_groups(neg, &g, w, scale)))
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum PErr {
    Empty,
    Invalid,
    Overflow,
}

/// Reference parser: a character-level grammar, independent of the implementation's structure.
/// Literals with an exponent whose digits (after leading zeros) are so many that the value cannot be
/// materialised are classified arithmetically.
pub fn parse(s: &str) -> Result<Val, PErr> {
    let ws = |c: char| matches!(c, ' ' | '\t' | '\n' | '\x0C' | '\r');
    let t = s.trim_matches(ws);
    if t.is_empty() {
        return Err(PErr::Empty);
    }
    if t.eq_ignore_ascii_case("nan") {
        return Ok(Val::NaN);
    }
    let mut it = t.chars().peekable();
    let mut neg = false;
    if let Some(&c) = it.peek() {
        if c == '+' || c == '-' {
            neg = c == '-';
            it.next();
        }
    }
    let mut digits = Vec::new();
    let mut nfrac: i64 = 0;
    let mut seen_point = false;
    let mut ndig = 0;
    while let Some(&c) = it.peek() {
        if c.is_ascii_digit() {
            digits.push(c as u8 - b'0');
            ndig += 1;
            if seen_point {
                nfrac += 1;
            }
        } else if c == '.' && !seen_point {
            seen_point = true;
        } else {
            break;
        }
        it.next();
    }
    if ndig == 0 {
        return Err(PErr::Invalid);
    }
    let mut exp: i128 = 0;
    if matches!(it.peek(), Some('e') | Some('E')) {
        it.next();
        let mut eneg = false;
        if let Some(&c) = it.peek() {
            if c == '+' || c == '-' {
                eneg = c == '-';
                it.next();
            }
        }
        let mut n = 0;
        while let Some(&c) = it.peek() {
            if !c.is_ascii_digit() {
                break;
            }
            n += 1;
            exp = (exp * 10 + (c as u8 - b'0') as i128).min(1 << 90);
            it.next();
        }
        if n == 0 {
            return Err(PErr::Invalid);
        }
        if eneg {
            exp = -exp;
        }
    }
    if it.next().is_some() {
        return Err(PErr::Invalid);
    }
    let scale = (nfrac as i128 - exp).max(0);
    if scale > DSCALE_MAX as i128 {
        return Err(PErr::Overflow);
    }
    let mag = Big::from_digits(&digits);
    if mag.is_zero() {
        // zero fits whatever the exponent, as long as the scale does
        return Ok(Val::Fin(Dec::zero(scale as i64)));
    }
    // mag * 10^(exp - nfrac) at `scale`
    let shift = exp - nfrac as i128 + scale;
    if shift > 140_000 {
        return Err(PErr::Overflow);
    }
    let d = Dec::new(neg, mag.mul_pow10(shift as usize), scale as i64);
    if d.fits() {
        Ok(Val::Fin(d))
    } else {
        Err(PErr::Overflow)
    }
}
