//! Operand lattices: finite alphabets of numerics, simplest first.
use crate::big::Big;
use crate::dec::{self, Dec, Val};
use pgnumeric::{Numeric, NumericBuf};

/// Properly aligned storage for a numeric's bytes.
pub struct Aligned {
    words: Vec<u64>,
    len: usize,
}

impl Aligned {
    pub fn new(b: &[u8]) -> Aligned {
        let mut words = vec![0u64; b.len() / 8 + 1];
        unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), words.as_mut_ptr() as *mut u8, b.len()) };
        Aligned { words, len: b.len() }
    }
    pub fn bytes(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.words.as_ptr() as *const u8, self.len) }
    }
    pub fn num(&self) -> &Numeric {
        unsafe { Numeric::from_bytes_unchecked(self.bytes()) }
    }
}

pub struct Opnd {
    pub val: Val,
    pub mem: Aligned,
    pub buf: NumericBuf,
}

impl Opnd {
    pub fn new(val: Val) -> Opnd {
        let b = dec::encode(&val).unwrap_or_else(|| panic!("model: operand does not fit: {}", val.show()));
        let mem = Aligned::new(&b);
        let mut buf = mem.num().to_owned();
        if buf.as_bytes() != &b[..] {
            // copying is judged elsewhere (C03); use the other way in if it works
            if let Ok(p) = val.text().parse::<NumericBuf>() {
                buf = p;
            }
        }
        Opnd { val, mem, buf }
    }
    #[inline]
    pub fn num(&self) -> &Numeric {
        self.mem.num()
    }
    #[inline]
    pub fn d(&self) -> &Dec {
        self.val.fin()
    }
    pub fn show(&self) -> String {
        match &self.val {
            Val::NaN => "NaN".into(),
            Val::Fin(d) => format!("{}{}", self.val.show(), if d.scale > 40 { format!("(scale {})", d.scale) } else { String::new() }),
        }
    }
    /// Operands are shared by all executions of a space: they must never change.
    pub fn intact(&self) -> bool {
        let e = dec::encode(&self.val).unwrap();
        self.mem.bytes() == &e[..] && self.buf.as_bytes() == &e[..]
    }
}

pub type Table = std::sync::Arc<Vec<Opnd>>;

pub fn table(v: Vec<Val>) -> Table {
    std::sync::Arc::new(v.into_iter().map(Opnd::new).collect())
}
pub fn dtable(v: Vec<Dec>) -> Table {
    std::sync::Arc::new(v.into_iter().map(|d| Opnd::new(Val::Fin(d))).collect())
}

/// Coefficients around every decimal and group boundary.
pub const COEF: [i128; 47] = [
    0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 15, 19, 25, 49, 50, 51, 95, 99, 100, 101, 125, 499, 500, 999, 1000, 1001, 1999, 4999, 5000, 5001, 9995,
    9999, 10000, 10001, 12345, 19999, 49999, 50000, 99999, 100000, 9999_9999, 1_0000_0000, 1_0000_0001, 123456789, 99999_99999_99999, 1_0000_0000_0000_0000,
];

/// coefficient x scale x sign
pub fn small(scales: &[i64], signs: bool) -> Vec<Dec> {
    let mut v = Vec::new();
    for &c in COEF.iter() {
        for &s in scales {
            v.push(Dec::of(c, s));
            if signs && c != 0 {
                v.push(Dec::of(-c, s));
            }
        }
    }
    v
}

/// All integers lo..=hi at the given scale.
pub fn range(lo: i128, hi: i128, scale: i64) -> Vec<Dec> {
    (lo..=hi).map(|c| Dec::of(c, scale)).collect()
}

/// All digit-group strings over `d` of length up to `maxlen` (first and last group nonzero) at all weights,
/// with display scale minimal + each of `extra`.
pub fn groups(d: &[u16], maxlen: usize, weights: &[i64], extra: &[i64], signs: bool) -> Vec<Dec> {
    let mut v = Vec::new();
    for len in 1..=maxlen {
        let n = d.len().pow(len as u32);
        for code in 0..n {
            let mut g = Vec::new();
            let mut c = code;
            for _ in 0..len {
                g.push(d[c % d.len()]);
                c /= d.len();
            }
            if g[0] == 0 || g[len - 1] == 0 {
                continue;
            }
            for &w in weights {
                push_scaled(&mut v, &g, w, extra, signs);
            }
        }
    }
    v
}

pub fn push_scaled(v: &mut Vec<Dec>, g: &[u16], w: i64, extra: &[i64], signs: bool) {
    let natural = 4 * (g.len() as i64 - 1 - w);
    let last = *g.last().unwrap();
    let tz = if last % 1000 == 0 {
        3
    } else if last % 100 == 0 {
        2
    } else if last % 10 == 0 {
        1
    } else {
        0
    };
    let min = (natural - tz).max(0);
    for &e in extra {
        let d = Dec::from_groups(false, g, w, min + e);
        if d.scale > dec::DSCALE_MAX {
            continue;
        }
        if signs {
            v.push(d.negated());
        }
        v.push(d);
    }
}

/// Deterministic pseudo-random digit groups (a fixed pattern, not sampling: the same list every run).
pub fn lcg_groups(seed: u64, len: usize) -> Vec<u16> {
    let mut s = seed.wrapping_mul(0x9E3779B97F4A7C15) | 1;
    let mut g: Vec<u16> = (0..len)
        .map(|_| {
            s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            ((s >> 33) % 10000) as u16
        })
        .collect();
    if g[0] == 0 {
        g[0] = 1;
    }
    if g[len - 1] == 0 {
        g[len - 1] = 7;
    }
    g
}

/// Shapes of long operands.
pub fn long_shapes(len: usize) -> Vec<Vec<u16>> {
    let mut v: Vec<Vec<u16>> = vec![
        vec![9999; len],
        vec![1; len],
        (0..len).map(|i| if i == 0 || i == len - 1 { 1 } else { 0 }).collect(),
        (0..len).map(|i| if i == 0 { 1 } else { 9999 }).collect(),
        (0..len).map(|i| if i == len - 1 { 1 } else { 9999 }).collect(),
        (0..len).map(|i| if i % 2 == 0 { 9999 } else { 0 }).collect(),
        (0..len).map(|i| if i == 0 { 5000 } else if i == len - 1 { 1 } else { 0 }).collect(),
        (0..len).map(|i| if i == 0 { 4999 } else { 9999 }).collect(),
        lcg_groups(len as u64, len),
    ];
    for g in v.iter_mut() {
        if *g.last().unwrap() == 0 {
            *g.last_mut().unwrap() = 2;
        }
    }
    v.dedup();
    v
}

/// Long operands of every listed length, at weights 0 (fraction), len-1 (integer) and len/2.
pub fn long(lens: &[usize], shapes: &[usize], signs: bool) -> Vec<Dec> {
    let mut v = Vec::new();
    for &l in lens {
        let sh = long_shapes(l);
        for &k in shapes {
            if let Some(g) = sh.get(k) {
                let mut ws = vec![l as i64 - 1, l as i64 / 2, -1];
                ws.dedup();
                for w in ws {
                    push_scaled(&mut v, g, w, &[0], signs);
                }
            }
        }
    }
    v
}

/// Values at the short/long header boundary.
pub fn header_boundary(signs: bool) -> Vec<Dec> {
    let mut v = Vec::new();
    for w in [-66, -65, -64, -63, -17, -16, -15, -1, 0, 1, 62, 63, 64, 65] {
        for g in [&[1u16][..], &[9999], &[1, 1], &[9999, 9999], &[5000, 5], &[10, 1000]] {
            push_scaled(&mut v, g, w, &[0, 1, 3], signs);
        }
    }
    for s in 60..=68 {
        for c in [0i128, 1, 5, 10, 9999, 10000, 12345678] {
            v.push(Dec::of(c, s));
            if signs && c != 0 {
                v.push(Dec::of(-c, s));
            }
        }
    }
    v
}

/// Values at and just inside the limits of the format.
pub fn extremes(signs: bool) -> Vec<Dec> {
    let mut v = Vec::new();
    for w in [32767, 32766, 32765, 16384, 16383, 8191] {
        for g in [&[1u16][..], &[9999], &[5000], &[9999, 9999]] {
            push_scaled(&mut v, g, w, &[0, 16383], signs);
        }
    }
    for s in [16383, 16382, 16381, 16380, 8192, 8191, 1001, 1000, 999] {
        for c in [0i128, 1, 5, 9999, 123456789] {
            v.push(Dec::of(c, s));
            if signs && c != 0 {
                v.push(Dec::of(-c, s));
            }
        }
    }
    // all nines: every integer digit of the format, with and without fraction
    let nines = Big::pow10(131072).sub(&Big::one());
    v.push(Dec::new(false, nines.clone(), 0));
    v.push(Dec::new(false, nines.mul_pow10(1).add(&Big::from_u128(4)), 1));
    v.push(Dec::new(false, nines.mul_pow10(1).add(&Big::from_u128(5)), 1));
    if signs {
        for i in v.len() - 3..v.len() {
            let n = v[i].negated();
            v.push(n);
        }
    }
    v
}

/// One group at every power of two of the weights and next to it, up to `max`.
pub fn ladder(groups: &[u16], max: i64, signs: bool) -> Vec<Dec> {
    let mut ws = vec![0];
    for k in 0..16 {
        for d in -1..=1 {
            ws.extend([(1i64 << k) + d, -(1i64 << k) + d]);
        }
    }
    ws.retain(|w| *w <= max && *w >= -max.min(4095));
    ws.sort();
    ws.dedup();
    let mut v = Vec::new();
    for w in ws {
        push_scaled(&mut v, groups, w, &[0], signs);
    }
    v
}

/// Decimal digit strings of `len` digits in several patterns.
pub fn digit_patterns(len: usize) -> Vec<Big> {
    let mut v: Vec<Vec<u8>> = vec![
        vec![9; len],
        (0..len).map(|i| (i == 0) as u8).collect(),
        (0..len).map(|i| (i == 0 || i == len - 1) as u8).collect(),
        (0..len).map(|i| ((i + 1) % 10) as u8).collect(),
        (0..len).map(|i| if i == len / 2 { 5 } else if i == 0 { 7 } else { 0 }).collect(),
        (0..len).map(|i| if i * 2 < len { 4 } else { 9 }).collect(),
    ];
    v.iter_mut().for_each(|d| {
        if d[0] == 0 {
            d[0] = 1
        }
    });
    v.dedup();
    v.iter().map(|d| Big::from_digits(d)).collect()
}

/// Every pattern of every listed length at every scale the function gives for it.
pub fn grid(lens: impl Iterator<Item = usize>, scales: impl Fn(i64) -> Vec<i64>, signs: bool) -> Vec<Dec> {
    let mut v = vec![];
    for l in lens {
        let mut sc = scales(l as i64);
        sc.retain(|s| (0..=dec::DSCALE_MAX).contains(s));
        sc.dedup();
        for m in digit_patterns(l) {
            for &s in &sc {
                let d = Dec::new(false, m.clone(), s);
                if signs {
                    v.push(d.negated());
                }
                v.push(d);
            }
        }
    }
    v
}

/// Lengths from one digit to the limits of the format.
pub fn long_lengths() -> Vec<usize> {
    vec![255, 256, 257, 400, 511, 512, 513, 640, 999, 1000, 1001, 1002, 1003, 1004, 1005, 1023, 1024, 1025, 1300, 2000, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 8192, 10000, 16383, 16384, 16387, 20000, 32768, 40000, 65535, 65536, 65540, 100000, 131071, 131072]
}

/// Scales putting the point everywhere it matters in an `l`-digit number.
pub fn long_scales(l: i64) -> Vec<i64> {
    let mut v: Vec<i64> = vec![0, 1, 2, 3, 4, 5, l / 2, l - 5, l - 4, l - 3, l - 2, l - 1, l, l + 1, l + 2, l + 3, l + 4, l + 5, l + 400];
    v.retain(|&s| s >= 0);
    v.sort();
    v.dedup();
    v
}
