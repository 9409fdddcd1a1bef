//! C01 parsing, C02 display.
use super::*;
use crate::big::Big;
use crate::dec::{self, PErr, Val};
use pgnumeric::{NumericBuf, NumericParseError};

fn kind(e: &NumericParseError) -> PErr {
    // the error kind is observable through its text
    let t = e.to_string();
    if t.contains("empty") {
        PErr::Empty
    } else if t.contains("overflow") || t.contains("out of range") {
        PErr::Overflow
    } else {
        PErr::Invalid
    }
}

/// An exponent of magnitude 2^30 or more counts as out of range before anything after it is looked at.
pub fn huge_exponent(s: &str) -> bool {
    if let Some(p) = s.find(|c| c == 'e' || c == 'E') {
        let d: String = s[p + 1..].trim_start_matches(|c| c == '+' || c == '-').chars().take_while(|c| c.is_ascii_digit()).collect();
        let d = d.trim_start_matches('0');
        d.len() >= 10 && (d.len() > 10 || d.parse::<u64>().unwrap() >= i32::MAX as u64 / 2)
    } else {
        false
    }
}

pub fn check_parse(s: &str, c: &mut Ctx) {
    let r = c.call(|| s.parse::<NumericBuf>());
    let e = dec::parse(s);
    let r = match r {
        Ok(r) => r,
        Err(p) => {
            c.fail(format!("parsing panicked: {}", p));
            return;
        }
    };
    match (r, e) {
        (Ok(b), Ok(v)) => c.bytes_are("parsed", b.as_bytes(), &v),
        (Ok(b), Err(k)) => c.fail(format!("accepted as {:?}, expected {:?} error", b.to_string().chars().take(60).collect::<String>(), k)),
        (Err(x), Ok(v)) => {
            if huge_exponent(s) && kind(&x) == PErr::Overflow {
                return;
            }
            c.fail(format!("rejected ({:?}), expected {}", kind(&x), v.show()))
        }
        (Err(x), Err(k)) => {
            c.bits.put(k as u64 + 1);
            if huge_exponent(s) && kind(&x) == PErr::Overflow {
                return;
            }
            c.check(kind(&x) == k, || format!("error {:?}, expected {:?}", kind(&x), k));
        }
    }
}

/// All strings over the alphabet of exactly this length.
fn strings(alpha: &'static [&'static str], len: u32, check: fn(&str, &mut Ctx)) -> Space {
    let n = alpha.len() as u64;
    space(format!("all strings of length {} over {} symbols", len, n), n.pow(len), move |mut i, c| {
        let mut s = String::with_capacity(len as usize);
        for _ in 0..len {
            s.push_str(alpha[(i % n) as usize]);
            i /= n;
        }
        c.desc(|| format!("{:?}", s));
        check(&s, c);
    })
}

const ALPHA: [&str; 12] = ["1", "0", ".", "e", "-", "+", " ", "9", "n", "a", "E", "x"];
const NUM_ALPHA: [&str; 7] = ["1", "0", ".", "e", "-", "9", " "];

fn digit_strings(maxlen: usize) -> Vec<String> {
    let mut v = vec![String::new()];
    for l in 1..=maxlen {
        for pat in 0..5 {
            let s: String = (0..l)
                .map(|i| match pat {
                    0 => '9',
                    1 => (b'1' + (i % 9) as u8) as char,
                    2 => '0',
                    3 => {
                        if i == 0 {
                            '1'
                        } else {
                            '0'
                        }
                    }
                    _ => {
                        if i == l - 1 {
                            '7'
                        } else {
                            '0'
                        }
                    }
                })
                .collect();
            if !v.contains(&s) {
                v.push(s);
            }
        }
    }
    v
}

pub fn c01(cfg: Cfg) -> Vec<Space> {
    let mut v = Vec::new();
    texts(cfg, check_parse, &mut v);
    v.push(super::memo::texts_in_one_place(cfg));
    v
}

/// Spaces of texts, each given to `check`.
pub fn texts(cfg: Cfg, check: fn(&str, &mut Ctx), v: &mut Vec<Space>) {
    for l in 0..=cfg.size(7, 5, cfg.deep(7, 8)) {
        v.push(strings(&ALPHA, l, check));
    }
    for l in 8..=cfg.size(9, 6, cfg.deep(9, 10)) {
        v.push(strings(&NUM_ALPHA, l, check));
    }
    // sign, integer part, fraction, exponent: every alignment of the point inside a group
    let ds = digit_strings(cfg.size(17, 6, cfg.deep(25, 40)));
    let exps: Vec<Option<i64>> = std::iter::once(None).chain((-cfg.size(24, 9, cfg.deep(40, 60))..=cfg.size(24, 9, cfg.deep(40, 60))).map(Some)).collect();
    let (nd, ne) = (ds.len() as u64, exps.len() as u64);
    {
        let ds = ds.clone();
        v.push(space("literal structure", nd * nd * ne * 3, move |i, c| {
            let sign = ["", "-", "+"][(i % 3) as usize];
            let e = exps[(i / 3 % ne) as usize];
            let (a, b) = (&ds[(i / 3 / ne % nd) as usize], &ds[(i / 3 / ne / nd) as usize]);
            let mut s = format!("{}{}", sign, a);
            if !b.is_empty() || i % 2 == 0 {
                s.push('.');
                s.push_str(b);
            }
            match e {
                Some(e) => s.push_str(&format!("{}{}{}", if i % 5 == 0 { "E" } else { "e" }, if e > 0 && i % 4 == 0 { "+" } else { "" }, e)),
                None => {}
            }
            c.desc(|| format!("{:?}", s));
            check(&s, c);
        }));
    }
    // long literals: integer and fraction lengths around internal buffer sizes
    let lens: Vec<usize> = cfg.size((0..=300).collect(), vec![0, 1, 3, 119, 120, 121, 127, 128, 129, 130], (0..=700).collect());
    let n = lens.len() as u64;
    v.push(space("long literals", n * n * 4, move |i, c| {
        let (a, b) = (lens[(i / 4 % n) as usize], lens[(i / 4 / n) as usize]);
        let pat = i % 4;
        let dig = |k: usize, l: usize| match pat {
            0 => '9',
            1 => (b'0' + (k * 7 % 10) as u8) as char,
            2 => {
                if k == 0 {
                    '1'
                } else {
                    '0'
                }
            }
            _ => {
                if k + 1 == l {
                    '3'
                } else {
                    '0'
                }
            }
        };
        let mut s: String = (0..a).map(|k| dig(k, a)).collect();
        s.push('.');
        s.extend((0..b).map(|k| dig(k, b)));
        if pat == 1 {
            s.push_str(&format!("e{}", (a as i64 - b as i64) % 50));
        }
        c.desc(|| format!("{:?}", s));
        check(&s, c);
    }));
    // limits of weight, scale and exponent
    let mut lim: Vec<String> = Vec::new();
    for m in ["1", "9", "10", "9999", "10000", "0.1", "0.0001", "0.00001", "123.456", "0", "0.0", "00000", ".0", "-1", "-0"] {
        for e in [131060i64, 131066, 131067, 131068, 131069, 131070, 131071, 131072, 131073, 131074, 131075, 131076, 131077, 131080, 200000, 1000000, 1073741820, 1073741821, 1073741822, 1073741823, 1073741824, 2147483647, 2147483648, 4294967296, 9999999999, 10000000000, 99999999999999999] {
            lim.push(format!("{}e{}", m, e));
            lim.push(format!("{}e+0000000000{}", m, e));
        }
        for e in [16370i64, 16377, 16378, 16379, 16380, 16381, 16382, 16383, 16384, 16385, 16386, 16390, 20000, 131072, 1073741822, 1073741823, 1073741824, 2147483648, 9999999999, 10000000000] {
            lim.push(format!("{}e-{}", m, e));
            lim.push(format!("{}E-000{}", m, e));
        }
    }
    for k in [131064usize, 131068, 131071, 131072, 131073, 131076, 131080, 140000] {
        for z in ["", "1", "0"] {
            lim.push(format!("{}{}", "0".repeat(k), z)); // leading zeros are no digits
            lim.push(format!("1{}{}", "0".repeat(k - 1), z));
            lim.push(format!("9{}.5{}", "9".repeat(k - 1), z));
            lim.push(format!("{}.{}", "0".repeat(k), z));
        }
    }
    for k in [16380usize, 16382, 16383, 16384, 16385] {
        lim.push(format!("0.{}", "0".repeat(k)));
        lim.push(format!("1.{}", "3".repeat(k)));
        lim.push(format!("0.{}1", "0".repeat(k - 1)));
        lim.push(format!("0.{}1e5", "0".repeat(k - 1)));
        lim.push(format!("0.{}1e-5", "0".repeat(k - 6)));
        lim.push(format!("0.{}123e16384", "0".repeat(k)));
    }
    // exponents that machine integers would wrap to small ones
    for k in [31u32, 32, 33, 62, 63, 64, 65, 127, 128] {
        let p = Big::from_u128(2).pow(k);
        for d in 0..=6u128 {
            for x in [p.add(&Big::from_u128(d)), p.sub(&Big::from_u128(d)), p.add(&Big::from_u128(16380 + d)), p.add(&Big::from_u128(131068 + d))] {
                for (m, s) in [("1", ""), ("-7.5", "+"), ("123.456", "-"), ("0.00", ""), ("0", "-"), ("9", "00000"), ("9", "-0000000000")] {
                    lim.push(format!("{}e{}{}", m, s, x.to_string()));
                }
            }
        }
    }
    // exponents of many digits
    for k in 1..=60usize {
        for d in ["1", "2", "5", "9"] {
            for z in ["", "0", "000000000000"] {
                lim.push(format!("3e{}{}{}", z, d, "0".repeat(k - 1)));
                lim.push(format!("3.25E-{}{}{}", z, "0".repeat(k - 1), d));
                lim.push(format!("3.25E-{}{}{}", z, d, "9".repeat(k - 1)));
                lim.push(format!("0e{}{}{}", z, d, "7".repeat(k - 1)));
            }
        }
    }
    v.push(space("limits", lim.len() as u64, move |i, c| {
        let s = &lim[i as usize];
        c.desc(|| if s.len() < 100 { format!("{:?}", s) } else { format!("{:?}..{:?} ({} chars)", &s[..20], &s[s.len() - 20..], s.len()) });
        check(s, c);
    }));
    // zeros in front of and behind the point that exceed every digit count of the format, with
    // and without an exponent that brings the value back into range
    let zs: &[usize] = cfg.size(&[0, 1, 4, 1000, 16383, 65535, 65536, 131072, 147457, 150000, 262144, 600_000][..], &[0, 1, 16383, 65536, 150000][..], &[0, 1, 2, 3, 4, 5, 1000, 16383, 16384, 32767, 32768, 65535, 65536, 65537, 131071, 131072, 131073, 147455, 147456, 147457, 150000, 262143, 262144, 300_000, 524_288, 1_048_577][..]);
    let nz = zs.len() as u64;
    v.push(space("zeros around the point x exponents", nz * nz * 4 * 7, move |i, c| {
        let (a, b) = (zs[(i / 28 % nz) as usize], zs[(i / 28 / nz) as usize]);
        let core = ["", "7", "12345", "9000000000"][(i % 4) as usize];
        let e = [None, Some(0), Some(b as i64), Some(b as i64 + 4), Some(b as i64 - 16370), Some(b as i64 + 131_071), Some(-(a as i64))][(i / 4 % 7) as usize];
        let s = format!("{}{}.{}{}{}", "0".repeat(a), if core == "12345" { "3" } else { "" }, "0".repeat(b), core, e.map_or(String::new(), |e| format!("e{}", e)));
        c.desc(|| format!("{} zeros{} . {} zeros {} {:?}", a, if core == "12345" { " 3" } else { "" }, b, core, e));
        check(&s, c);
    }));
    // any other character anywhere
    let base = ["1.5e3", "NaN", "-12", "1 "];
    v.push(space("foreign characters", 4 * 7 * 0x2100, move |i, c| {
        let b = base[(i % 4) as usize];
        let pos = (i / 4 % 7) as usize;
        let ch = char::from_u32((i / 28) as u32).unwrap_or('\u{FFFD}');
        let mut s = b.to_string();
        s.insert(pos.min(b.len()), ch);
        c.desc(|| format!("{:?}", s));
        check(&s, c);
    }));
    // among many digits: every length, every position
    let lens = cfg.size(48u64, 24, cfg.deep(160, 240));
    v.push(space("foreign characters among many digits", lens * lens * 0x108 * 3, move |i, c| {
        let ch = match i % 0x108 {
            k if k < 0x100 => k as u8 as char,
            k => ['\u{0130}', '\u{0430}', '\u{0660}', '\u{07FF}', '\u{2212}', '\u{3030}', '\u{FF10}', '\u{1D7CE}'][(k - 0x100) as usize],
        };
        let i = i / 0x108;
        let (form, len, pos) = (i % 3, 1 + i / 3 % lens, i / 3 / lens);
        let mut s: Vec<char> = (0..len).map(|k| (b'0' + (k * 7 % 10) as u8) as char).collect();
        if form == 1 {
            s.insert(len as usize / 3, '.');
        }
        if form == 2 {
            s.insert(0, '.');
            s.insert(0, '-');
        }
        if (pos as usize) < s.len() {
            s[pos as usize] = ch;
        } else if pos as usize == s.len() {
            s.push(ch);
        } else {
            return;
        }
        let s: String = s.into_iter().collect();
        c.desc(|| format!("{:?}", s));
        check(&s, c);
    }));
    // whitespace around and inside
    let ws = ["", " ", "\t", "\n", "\r", "\x0C", "\x0B", " \t\n", "\u{A0}", "\u{2003}"];
    let core = ["1", "-1.5", "NaN", "nAn", "NAN", "", "1e5", "-", "+NaN", "-NaN", "Na", "NaNs", "1.", ".5", "inf", "Infinity", "0x10", "1_000", "١"];
    v.push(space("whitespace", (ws.len() * ws.len() * core.len() * core.len()) as u64, move |i, c| {
        let n = ws.len() as u64;
        let m = core.len() as u64;
        let (a, b) = (ws[(i % n) as usize], ws[(i / n % n) as usize]);
        let (x, y) = (core[(i / n / n % m) as usize], core[(i / n / n / m) as usize]);
        let s = if x == y { format!("{}{}{}", a, x, b) } else { format!("{}{}{}", x, a, y) };
        c.desc(|| format!("{:?}", s));
        check(&s, c);
    }));
    // all coefficients of up to 5 digits with every point position
    let n = cfg.size(200_000u64, 5_000, cfg.deep(1_000_000, 5_000_000));
    v.push(space("all small coefficients", n * 7, move |i, c| {
        let k = i / 7;
        let p = (i % 7) as usize;
        let mut s = format!("{:06}", k);
        s.insert(s.len() - p.min(6), '.');
        c.desc(|| format!("{:?}", s));
        check(&s, c);
    }));
    // integers next to the limits of the machine types, however they are written
    let mut ints: Vec<String> = vec![];
    for k in [0u32, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128] {
        let p = Big::from_u128(2).pow(k);
        for d in 0..=2u64 {
            for x in [p.add(&Big::from_u128(d as u128)), if p.cmp(&Big::from_u128(d as u128)) == std::cmp::Ordering::Less { Big::one() } else { p.sub(&Big::from_u128(d as u128)) }] {
                ints.push(x.to_string());
            }
        }
    }
    for e in 0..=40 {
        for m in ["1", "4", "7", "99", "123456789"] {
            ints.push(format!("{}{}", m, "0".repeat(e)));
        }
    }
    ints.sort();
    ints.dedup();
    let pads = [0usize, 1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 15, 16, 17, 19, 20, 21, 30, 38, 39, 40, 41, 127, 128];
    let (ni, np) = (ints.len() as u64, pads.len() as u64);
    v.push(space("machine integers x padding", ni * np * 3 * 5, move |i, c| {
        let s = format!("{}{}{}{}", ["", "-", "+"][(i % 3) as usize], "0".repeat(pads[(i / 15 % np) as usize]), ints[(i / 15 / np) as usize], ["", ".", ".0", "e0", "e-3"][(i / 3 % 5) as usize]);
        c.desc(|| format!("{:?}", s));
        check(&s, c);
    }));
}

fn display(x: &Opnd, c: &mut Ctx) {
    let e = x.val.text();
    let n = x.num();
    let t = c.call(|| n.to_string());
    let t2 = c.call(|| x.buf.to_string());
    match (t, t2) {
        (Ok(t), Ok(t2)) => {
            let short = |t: &str| if t.len() < 150 { t.to_string() } else { format!("{}..{} ({} chars)", &t[..60], &t[t.len() - 60..], t.len()) };
            c.check(t == e, || format!("displayed {:?}, expected {:?}", short(&t), short(&e)));
            c.check(t2 == e, || format!("owned displayed {:?}, expected {:?}", short(&t2), short(&e)));
            c.bits.put(hash_bytes(t.as_bytes()));
            let r = c.call(|| t.parse::<NumericBuf>());
            match r {
                Ok(Ok(b)) => c.bytes_are("parse(display)", b.as_bytes(), &x.val),
                Ok(Err(e)) => c.fail(format!("displayed text does not parse: {}", e)),
                Err(p) => c.fail(format!("parsing displayed text panicked: {}", p)),
            }
        }
        (a, b) => c.fail(format!("display panicked: {:?} {:?}", a.err(), b.err())),
    }
}

pub fn c02(cfg: Cfg) -> Vec<Space> {
    let n = cfg.size(100_001, 5_001, cfg.deep(1_000_001, 4_000_001));
    let mut v = vec![];
    for s in 0..=6 {
        v.push(singles(format!("all coefficients up to {}, scale {}", n, s), dtable(range(if s % 2 == 0 { -n } else { 0 }, n, s)), display));
    }
    v.push(singles("small", dtable(small(&(0..=24).collect::<Vec<_>>(), true)), display));
    v.push(singles(
        "groups",
        dtable(if cfg.thorough() {
            groups(&[1, 9999, 0, 10, 100, 1000, 9, 99, 999, 5000, 1234], 4, &[-3, -2, -1, 0, 1, 2, 3, 4], &[0, 1, 2, 3, 4, 5], true)
        } else {
            groups(&[1, 9999, 0, 10, 1000, 99, 5000], 3, &[-3, -2, -1, 0, 1, 2, 3, 4], &[0, 1, 2, 3, 4, 5], cfg.var == Variant::Rel)
        }),
        display,
    ));
    v.push(singles("long", super::arith::long_table(cfg), display));
    v.push(singles("digits x point positions", super::arith::grid_table(cfg), display));
    v.push(singles("up to every digit of the format", super::arith::vast_table(cfg), display));
    v.push(singles("header boundary", super::arith::boundary_table(), display));
    v.push(singles("extremes", super::arith::extreme_table(), display));
    v.push(singles("ladder of weights", super::arith::ladder_table(), display));
    // weights and scales swept one by one
    let mut sw = Vec::new();
    for w in -70..=70 {
        for g in [&[1u16][..], &[9999], &[1, 2], &[100, 0, 1]] {
            push_scaled(&mut sw, g, w, &[0, 1, 2, 3, 7], true);
        }
    }
    for s in 0..=cfg.size(200, 80, cfg.deep(1100, 2000)) {
        for co in [0i128, 1, 9, 10, 1234567, 1_0000_0000, -5, -99999] {
            sw.push(crate::dec::Dec::of(co, s));
        }
    }
    v.push(singles("weight and scale sweep", dtable(sw), display));
    v.push(singles("NaN", table(vec![Val::NaN]), display));
    v
}
