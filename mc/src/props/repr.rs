//! C03 on-disk representation, C23 serialization, C24 scientific notation.
use super::arith::*;
use super::*;
use crate::big::Big;
use crate::dec::{self, Dec, Val};
use crate::lat;
use crate::ops;
use pgnumeric::{Numeric, NumericBuf};
use std::cmp::Ordering;

// ---------------------------------------------------------------- C03

fn with_nan(t: Table) -> Table {
    let mut v: Vec<Val> = t.iter().map(|o| o.val.clone()).collect();
    v.push(Val::NaN);
    table(v)
}

/// Bytes at a chosen offset from an 8-byte boundary.
pub struct Placed {
    words: Vec<u64>,
    off: usize,
    len: usize,
}
impl Placed {
    pub fn new(b: &[u8], off: usize) -> Placed {
        let mut words = vec![0xA5A5_A5A5_A5A5_A5A5u64; b.len() / 8 + 3];
        unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), (words.as_mut_ptr() as *mut u8).add(off), b.len()) };
        Placed { words, off, len: b.len() }
    }
    pub fn bytes(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts((self.words.as_ptr() as *const u8).add(self.off), self.len) }
    }
}

/// Every way in gives the same bytes; reinterpreting them anywhere gives the same numeric.
fn in_and_out(x: &Opnd, c: &mut Ctx) {
    let text = x.val.text();
    let t = text.clone();
    let r = c.call(|| t.parse::<NumericBuf>().ok());
    match r {
        Ok(Some(n)) => c.bytes_are("parse", n.as_bytes(), &x.val),
        r => c.fail(format!("parse failed: {:?}", r.map(|_| ()))),
    }
    let e = dec::encode(&x.val).unwrap();
    for off in [0usize, 2, 4, 6] {
        let p = Placed::new(&e, off);
        let n = unsafe { Numeric::from_bytes_unchecked(p.bytes()) };
        let r = c.call(|| n.as_bytes().to_vec());
        c.eq("as_bytes of reinterpreted bytes", r.as_ref().map(|b| &b[..] == &e[..]), Ok(true));
        let r = c.call(|| n.to_owned());
        c.is("to_owned of reinterpreted bytes", &r, &x.val);
        if let Ok(o) = r {
            let r = c.call(|| o.clone());
            c.is("clone", &r, &x.val);
        }
        if off != 4 || e.len() < 400 {
            let r = c.call(|| (n.to_string(), n.scale(), n.is_negative(), n.is_positive(), n.is_nan()));
            let exp = match &x.val {
                Val::NaN => (text.clone(), None, false, false, true),
                Val::Fin(d) => (text.clone(), Some(d.scale as i32), d.neg, !d.neg, false),
            };
            c.eq("text, scale and sign of reinterpreted bytes", r, Ok(exp));
            let r = c.call(|| n.negate());
            c.is("negate of reinterpreted bytes", &r, &match &x.val {
                Val::NaN => Val::NaN,
                Val::Fin(d) => Val::Fin(d.negated()),
            });
            let r = c.call(|| n.cmp(x.num()) == Ordering::Equal && n == x.num());
            c.eq("equality with reinterpreted bytes", r, Ok(true));
        }
        if c.failed() {
            return;
        }
    }
}

/// Reinterpreted bytes at odd multiples of two behave like any other operand, also in binary operations.
fn behave(x: &Opnd, y: &Opnd, c: &mut Ctx) {
    let (px, py) = (Placed::new(x.mem.bytes(), 2), Placed::new(y.mem.bytes(), 6));
    let (a, b) = unsafe { (Numeric::from_bytes_unchecked(px.bytes()), Numeric::from_bytes_unchecked(py.bytes())) };
    let r = c.call(|| a.checked_add(b));
    c.is_checked("a + b", &r, &x.d().add(y.d()));
    let r = c.call(|| a.checked_mul(b));
    c.is_checked("a * b", &r, &x.d().mul(y.d()));
    c.eq("a cmp b", c_cmp(a, b), x.d().cmp(y.d()));
    // equal bytes exactly when equal value and scale
    let same = x.d().scale == y.d().scale && x.d().cmp(y.d()) == Ordering::Equal;
    c.check((x.buf.as_bytes() == y.buf.as_bytes()) == same, || "bytes equal but value or scale differ, or the other way round".into());
}
fn c_cmp(a: &Numeric, b: &Numeric) -> Ordering {
    a.partial_cmp(b).unwrap()
}

fn result_bytes(c: &mut Ctx, what: &str, o: &Out<ops::R>) {
    if let Ok(ops::R::N(n)) = o {
        if let Some(v) = c.decode(what, n) {
            // the strict decoder accepts exactly the canonical form; confirm by encoding back
            c.bytes_are(what, n.as_bytes(), &v);
        }
        let r = c.call(|| n.as_numeric().to_owned().as_bytes() == n.as_bytes());
        c.check(r == Ok(true), || format!("{}: copying the result changes its bytes", what));
    }
}

pub fn c03(cfg: Cfg) -> Vec<Space> {
    let mut v = vec![];
    let sm = with_nan(small_table(cfg));
    v.push(singles("in and out: small", sm.clone(), in_and_out));
    v.push(singles("in and out: groups", table(groups(&D8, 3, &(-5..=5).collect::<Vec<_>>(), &[0, 1, 2, 3], true).into_iter().map(Val::Fin).collect()), in_and_out));
    v.push(singles("in and out: header boundary", boundary_table(), in_and_out));
    v.push(singles("in and out: long", long_table(cfg), in_and_out));
    v.push(singles("in and out: extremes", extreme_table(), in_and_out));
    v.push(singles("in and out: ladder of weights", super::arith::ladder_table(), in_and_out));
    // every (weight, scale) around the boundary between the headers
    let mut e = vec![];
    for w in (-70..=-60).chain(-2..=2).chain(58..=70) {
        for g in [&[1u16][..], &[1000], &[9999], &[7, 1000]] {
            let nat = (4 * (g.len() as i64 - 1 - w)).max(0);
            for s in (56..=70).chain([120, 127, 128, 129, 255, 256, 257, 300]) {
                if s >= nat {
                    let d = Dec::from_groups(false, g, w, s);
                    e.push(d.negated());
                    e.push(d);
                }
            }
        }
    }
    for s in 0..=400 {
        e.push(Dec::zero(s));
        e.push(Dec::int(1).round(s));
        e.push(Dec::of(-10001, 4).round(s.max(4)));
    }
    for s in 16300..=16383 {
        e.push(Dec::zero(s));
        e.push(Dec::int(3).round(s));
    }
    v.push(singles("in and out: all headers near the boundary", dtable(e), in_and_out));
    v.push(singles("in and out: digits x point positions", grid_table(cfg), in_and_out));
    v.push(singles("in and out: up to every digit of the format", vast_table(cfg), in_and_out));
    let t = dtable(lat::small(&[0, 1, 2, 4], true));
    v.push(pairs("behaviour at any alignment", t.clone(), t, behave));
    // results of every operation
    let u: Vec<ops::Op1> = ops::unary();
    let ops1 = u.clone();
    let mk = |name: &str, t: Table, list: Vec<ops::Op1>| {
        singles(name, t, move |x, c| {
            for o in list.iter() {
                let r = ops::run1(c, o, ops::A::of(x));
                result_bytes(c, o.name, &r);
            }
        })
    };
    let light: Vec<ops::Op1> = ops1.iter().filter(|o| !o.heavy).cloned().collect();
    v.push(mk("results of unary operations: small", with_nan(dtable(lat::small(&[0, 1, 3, 4, 7], true))), ops1.clone()));
    v.push(mk("results of unary operations: groups", with_nan(dtable(groups(&D5, 3, &[-2, -1, 0, 1, 2], &[0, 3], true))), light.clone()));
    v.push(mk("results of unary operations: header boundary", boundary_table(), light.clone()));
    let few: Vec<ops::Op1> = light.iter().filter(|o| !o.group.starts_with("{:")).cloned().collect();
    v.push(mk("results of unary operations: extremes", extreme_table(), few));
    let b: Vec<ops::Op2> = ops::binary().into_iter().filter(|o| o.name.starts_with("Numeric::") || o.name.contains('=')).collect();
    let lb: Vec<ops::Op2> = b.iter().filter(|o| !o.heavy).cloned().collect();
    let mk2 = |name: &str, t: Table, list: Vec<ops::Op2>| {
        pairs(name, t.clone(), t, move |x, y, c| {
            for o in list.iter() {
                let r = ops::run2(c, o, ops::A::of(x), ops::A::of(y));
                result_bytes(c, o.name, &r);
            }
        })
    };
    v.push(mk2("results of binary operations: small", with_nan(dtable(lat::small(&[0, 2, 5], true))), lb.clone()));
    v.push(mk2("results of binary operations: groups", with_nan(dtable(groups(&D5, 2, &[-2, -1, 0, 1], &[0], true))), lb.clone()));
    v.push(mk2("results of binary operations: header boundary", dtable(header_boundary(false)), lb.into_iter().filter(|o| o.name.starts_with("Numeric::")).collect()));
    v.push(mk2("results of log and pow", with_nan(dtable(range(-3, 12, 0).into_iter().chain(range(-5, 25, 1)).collect())), b.into_iter().filter(|o| o.heavy).collect()));
    let p: Vec<ops::OpP> = ops::param().into_iter().filter(|o| o.group != "typmod").collect();
    let t = with_nan(dtable(groups(&D8, 2, &[-17, -16, -15, -2, -1, 0, 1, 15, 16], &[0, 1], true)));
    v.push(with_param("results of round and trunc", t, (-20..=80).collect(), move |x, n, c| {
        for o in p.iter() {
            let r = ops::runp(c, o, ops::A::of(x), n);
            result_bytes(c, o.name, &r);
        }
    }));
    v.push(space("constants", 1, |_, c| {
        c.desc(|| "nan() and zero()".into());
        let zero = Val::Fin(Dec::zero(0));
        let r = c.call(|| NumericBuf::nan());
        c.is("NumericBuf::nan()", &r, &Val::NaN);
        let r = c.call(|| NumericBuf::zero());
        c.is("NumericBuf::zero()", &r, &zero);
        let r = c.call(|| Numeric::nan().as_bytes().to_vec());
        c.bytes_are("Numeric::nan()", &r.unwrap_or_default(), &Val::NaN);
        let r = c.call(|| Numeric::zero().as_bytes().to_vec());
        c.bytes_are("Numeric::zero()", &r.unwrap_or_default(), &zero);
    }));
    v
}

// ---------------------------------------------------------------- C23

/// What a serializer is given, and what a deserializer hands out.
#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Str(String),
    Bytes(Vec<u8>),
    Other,
}

pub struct Ser(pub bool);
#[derive(Debug)]
pub struct SErr(pub String);
impl std::fmt::Display for SErr {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for SErr {}
impl serde::ser::Error for SErr {
    fn custom<T: std::fmt::Display>(m: T) -> SErr {
        SErr(m.to_string())
    }
}
impl serde::de::Error for SErr {
    fn custom<T: std::fmt::Display>(m: T) -> SErr {
        SErr(m.to_string())
    }
}

macro_rules! other {
    ($($f:ident($t:ty)),+) => { $( fn $f(self, _: $t) -> Result<Tok, SErr> { Ok(Tok::Other) } )+ };
}
type Imp = serde::ser::Impossible<Tok, SErr>;
impl serde::Serializer for Ser {
    type Ok = Tok;
    type Error = SErr;
    type SerializeSeq = Imp;
    type SerializeTuple = Imp;
    type SerializeTupleStruct = Imp;
    type SerializeTupleVariant = Imp;
    type SerializeMap = Imp;
    type SerializeStruct = Imp;
    type SerializeStructVariant = Imp;
    fn is_human_readable(&self) -> bool {
        self.0
    }
    other!(serialize_bool(bool), serialize_i8(i8), serialize_i16(i16), serialize_i32(i32), serialize_i64(i64), serialize_u8(u8), serialize_u16(u16), serialize_u32(u32), serialize_u64(u64), serialize_f32(f32), serialize_f64(f64), serialize_char(char), serialize_unit_struct(&'static str));
    fn serialize_str(self, s: &str) -> Result<Tok, SErr> {
        Ok(Tok::Str(s.to_string()))
    }
    fn serialize_bytes(self, b: &[u8]) -> Result<Tok, SErr> {
        Ok(Tok::Bytes(b.to_vec()))
    }
    fn serialize_none(self) -> Result<Tok, SErr> {
        Ok(Tok::Other)
    }
    fn serialize_some<T: serde::Serialize + ?Sized>(self, _: &T) -> Result<Tok, SErr> {
        Ok(Tok::Other)
    }
    fn serialize_unit(self) -> Result<Tok, SErr> {
        Ok(Tok::Other)
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<Tok, SErr> {
        Ok(Tok::Other)
    }
    fn serialize_newtype_struct<T: serde::Serialize + ?Sized>(self, _: &'static str, t: &T) -> Result<Tok, SErr> {
        t.serialize(self)
    }
    fn serialize_newtype_variant<T: serde::Serialize + ?Sized>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<Tok, SErr> {
        Ok(Tok::Other)
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Imp, SErr> {
        Err(SErr("sequence".into()))
    }
    fn serialize_tuple(self, _: usize) -> Result<Imp, SErr> {
        Err(SErr("tuple".into()))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Imp, SErr> {
        Err(SErr("tuple".into()))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Imp, SErr> {
        Err(SErr("tuple".into()))
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Imp, SErr> {
        Err(SErr("map".into()))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Imp, SErr> {
        Err(SErr("struct".into()))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Imp, SErr> {
        Err(SErr("struct".into()))
    }
}

/// A format that hands out one token in a chosen manner.
pub enum Give<'de> {
    Bytes(&'de [u8]),
    Borrowed(&'de [u8]),
    Buf(Vec<u8>),
    Str(&'de str),
    BorrowedStr(&'de str),
    String(String),
    U64(u64),
    Unit,
}
pub struct De<'de>(pub Give<'de>, pub bool);
impl<'de> serde::Deserializer<'de> for De<'de> {
    type Error = SErr;
    fn is_human_readable(&self) -> bool {
        self.1
    }
    fn deserialize_any<V: serde::de::Visitor<'de>>(self, v: V) -> Result<V::Value, SErr> {
        match self.0 {
            Give::Bytes(b) => v.visit_bytes(b),
            Give::Borrowed(b) => v.visit_borrowed_bytes(b),
            Give::Buf(b) => v.visit_byte_buf(b),
            Give::Str(s) => v.visit_str(s),
            Give::BorrowedStr(s) => v.visit_borrowed_str(s),
            Give::String(s) => v.visit_string(s),
            Give::U64(u) => v.visit_u64(u),
            Give::Unit => v.visit_unit(),
        }
    }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}

fn de_buf(g: Give, human: bool) -> Option<NumericBuf> {
    <NumericBuf as serde::Deserialize>::deserialize(De(g, human)).ok()
}

fn got(c: &mut Ctx, what: &str, r: &Out<Option<NumericBuf>>, exp: Option<&Val>) {
    match (r, exp) {
        (Ok(Some(n)), Some(v)) => c.bytes_are(what, n.as_bytes(), v),
        (Ok(None), None) => {}
        (Ok(Some(n)), None) => {
            let m = format!("{}: accepted, giving {:02x?}", what, &n.as_bytes()[..n.as_bytes().len().min(24)]);
            c.fail(m)
        }
        (Ok(None), Some(v)) => c.fail(format!("{}: rejected {}", what, v.show())),
        (Err(p), _) => c.fail(format!("{}: panicked ({})", what, p)),
    }
}

fn round_trip(x: &Opnd, c: &mut Ctx) {
    use serde::Serialize;
    let n = x.num();
    let text = x.val.text();
    let e = dec::encode(&x.val).unwrap();
    for (human, exp) in [(true, Tok::Str(text.clone())), (false, Tok::Bytes(e.clone()))] {
        let r = c.call(|| n.serialize(Ser(human)).ok());
        c.check(r == Ok(Some(exp.clone())), || format!("&Numeric serialized as {:?}", r));
        let r = c.call(|| x.buf.serialize(Ser(human)).ok());
        c.check(r == Ok(Some(exp.clone())), || format!("NumericBuf serialized as {:?}", r));
    }
    let v = Some(&x.val);
    let r = c.call(|| serde_json::to_string(n).ok());
    c.eq("json text", r, Ok(Some(format!("\"{}\"", text))));
    let r = c.call(|| serde_json::to_string(&x.buf).unwrap());
    if let Ok(j) = &r {
        let r = c.call(|| serde_json::from_str::<NumericBuf>(j).ok());
        got(c, "json round trip", &r, v);
        let r = c.call(|| serde_json::from_slice::<NumericBuf>(j.as_bytes()).ok());
        got(c, "json round trip from bytes", &r, v);
        let r = c.call(|| serde_json::from_reader::<_, NumericBuf>(j.as_bytes()).ok());
        got(c, "json round trip from reader", &r, v);
        let r = c.call(|| serde_json::from_str::<&Numeric>(j).is_ok());
        c.eq("borrowed numeric from json", r, Ok(false));
    }
    let r = c.call(|| serde_json::to_value(&x.buf).ok().and_then(|v| serde_json::from_value::<NumericBuf>(v).ok()));
    got(c, "json value round trip", &r, v);
    let r = c.call(|| bincode::serialize(n).unwrap());
    if let Ok(b) = &r {
        let mut exp = (e.len() as u64).to_le_bytes().to_vec();
        exp.extend_from_slice(&e);
        c.check(b == &exp, || "bincode output is not the length and the bytes".into());
        let r = c.call(|| bincode::serialize(&x.buf).unwrap() == *b);
        c.eq("bincode of NumericBuf", r, Ok(true));
        for off in [0, 1, 2, 3, 5] {
            let p = Placed::new(b, off);
            let r = c.call(|| bincode::deserialize::<NumericBuf>(p.bytes()).ok());
            got(c, "bincode round trip", &r, v);
            let r = c.call(|| bincode::deserialize_from::<_, NumericBuf>(p.bytes()).ok());
            got(c, "bincode round trip from reader", &r, v);
            let r = c.call(|| bincode::deserialize::<&Numeric>(p.bytes()).ok().map(|n| n.to_owned()));
            if off % 2 == 0 {
                got(c, "borrowed bincode round trip", &r, v);
            } else {
                got(c, "borrowed numeric at an odd address", &r, None);
            }
        }
    }
    let r = c.call(|| {
        let v = vec![x.buf.clone(), NumericBuf::nan(), x.buf.clone()];
        let b = bincode::serialize(&(7u8, &v)).unwrap();
        bincode::deserialize::<(u8, Vec<NumericBuf>)>(&b).ok().map(|(_, v)| v.into_iter().last().unwrap())
    });
    got(c, "bincode round trip inside a structure", &r, v);
    give_bytes(&e, c);
    // text in all manners
    let r = c.call(|| de_buf(Give::Str(&text), true));
    got(c, "visit_str", &r, v);
    let r = c.call(|| de_buf(Give::BorrowedStr(&text), true));
    got(c, "visit_borrowed_str", &r, v);
    let r = c.call(|| de_buf(Give::String(text.clone()), true));
    got(c, "visit_string", &r, v);
    for g in [Give::U64(5), Give::Unit] {
        let r = c.call(|| de_buf(g, false));
        got(c, "a token that is neither text nor bytes", &r, None);
    }
    let r = c.call(|| <&Numeric as serde::Deserialize>::deserialize(De(Give::BorrowedStr(&text), true)).is_ok());
    c.eq("borrowed numeric from text", r, Ok(false));
}

/// Bytes are accepted exactly when they are a numeric, in every manner and at every alignment.
fn give_bytes(e: &[u8], c: &mut Ctx) {
    let model = dec::decode(e).ok();
    let v = model.as_ref();
    for off in [0usize, 1, 2, 3] {
        let p = Placed::new(e, off);
        let b = p.bytes();
        let r = c.call(|| de_buf(Give::Bytes(b), false));
        got(c, "visit_bytes", &r, v);
        let r = c.call(|| de_buf(Give::Borrowed(b), false));
        got(c, "visit_borrowed_bytes", &r, v);
        let r = c.call(|| <&Numeric as serde::Deserialize>::deserialize(De(Give::Borrowed(b), false)).ok().map(|n| n.to_owned()));
        got(c, "borrowed numeric", &r, if off % 2 == 0 { v } else { None });
        if c.failed() {
            return;
        }
    }
    let r = c.call(|| de_buf(Give::Buf(e.to_vec()), false));
    got(c, "visit_byte_buf", &r, v);
    let r = c.call(|| <&Numeric as serde::Deserialize>::deserialize(De(Give::Bytes(e), false)).is_ok());
    c.eq("borrowed numeric from transient bytes", r, Ok(false));
}

fn with_len(body: &[u8]) -> Vec<u8> {
    let len = body.len() + 4;
    let mut v = if cfg!(feature = "be") { (len as u32).to_be_bytes().to_vec() } else { ((len as u32) << 2).to_le_bytes().to_vec() };
    v.extend_from_slice(body);
    v
}

fn words(w: &[u16]) -> Vec<u8> {
    w.iter().flat_map(|x| x.to_le_bytes()).collect()
}

pub fn c23(cfg: Cfg) -> Vec<Space> {
    let mut v = vec![];
    v.push(singles("round trips: small", with_nan(small_table(cfg)), round_trip));
    v.push(singles("round trips: groups", with_nan(group_table(cfg, true)), round_trip));
    v.push(singles("round trips: header boundary", boundary_table(), round_trip));
    v.push(singles("round trips: long", long_table(cfg), round_trip));
    v.push(singles("round trips: extremes", extreme_table(), round_trip));
    v.push(singles("round trips: ladder of weights", super::arith::ladder_table(), round_trip));
    v.push(singles("round trips: digits x point positions", grid_table(cfg), round_trip));
    v.push(singles("round trips: up to every digit of the format", vast_table(cfg), round_trip));
    // every header word with short tails
    let tails: Vec<Vec<u16>> = vec![vec![], vec![1], vec![9999], vec![10000], vec![0], vec![0xFFFF], vec![1, 0], vec![0, 1], vec![5000], vec![1, 1], vec![10], vec![100], vec![1000], vec![0xFFC0, 1], vec![63, 1], vec![64, 1], vec![0x8000, 1], vec![0x8001, 1], vec![0x7FFF, 1000], vec![0, 0, 1], vec![1, 10000, 1], vec![1, 2, 9990]];
    let nt = tails.len() as u64;
    v.push(space("every header word x tails", 65536 * nt, move |i, c| {
        let (h, t) = ((i / nt) as u16, &tails[(i % nt) as usize]);
        let mut w = vec![h];
        w.extend_from_slice(t);
        let b = with_len(&words(&w));
        c.desc(|| format!("bytes {:02x?}", b));
        c.seen(&b);
        let model = dec::decode(&b).ok();
        let r = c.call(|| de_buf(Give::Bytes(&b), false));
        got(c, "visit_bytes", &r, model.as_ref());
        let p = Placed::new(&b, 2);
        let r = c.call(|| <&Numeric as serde::Deserialize>::deserialize(De(Give::Borrowed(p.bytes()), false)).ok().map(|n| n.to_owned()));
        got(c, "borrowed numeric", &r, model.as_ref());
    }));
    // every value of every byte of representative encodings; truncations and extensions
    let mut base: Vec<Vec<u8>> = vec![];
    for d in [Dec::int(0), Dec::int(7), Dec::of(-15, 1), Dec::of(12345678, 4), Dec::of(1, 64), Dec::of(-999, 70), Dec::zero(80), Dec::new(false, Big::pow10(300), 0), Dec::of(1, 16383), Dec::new(true, Big::pow10(131071), 0), Dec::of(10, 3), Dec::of(100, 3)] {
        base.push(dec::encode(&Val::Fin(d)).unwrap());
    }
    base.push(dec::encode(&Val::NaN).unwrap());
    let mut list = vec![];
    for b in &base {
        for i in 0..b.len() {
            for x in 0..=255u8 {
                let mut m = b.clone();
                m[i] = x;
                list.push(m);
            }
        }
        for n in 0..b.len() {
            list.push(b[..n].to_vec());
            if n >= 4 {
                list.push(with_len(&b[4..n]));
            }
        }
        for t in [&[0u8][..], &[0, 0], &[1], &[1, 0], &[0x0f, 0x27], &[0x10, 0x27], &[0, 0, 1, 0], &[0xff; 7]] {
            let mut m = b.clone();
            m.extend_from_slice(t);
            list.push(m.clone());
            list.push(with_len(&m[4..]));
        }
        // two 16-bit words replaced
        let nw = b.len() / 2;
        let al = [0u16, 1, 9999, 10000, 0x7FFF, 0x8000, 0x8001, 0xC000, 0xC001, 0x4000, 0xFFFF, 63, 64];
        for i in 2..nw {
            for j in i + 1..nw {
                for x in al {
                    for y in al {
                        let mut m = b.clone();
                        m[2 * i..2 * i + 2].copy_from_slice(&x.to_le_bytes());
                        m[2 * j..2 * j + 2].copy_from_slice(&y.to_le_bytes());
                        list.push(m);
                    }
                }
            }
        }
    }
    list.sort();
    list.dedup();
    list.sort_by_key(|b| b.len());
    v.push(space("mutated encodings", list.len() as u64, move |i, c| {
        let b = &list[i as usize];
        c.desc(|| format!("bytes {:02x?}", b));
        c.seen(b);
        give_bytes(b, c);
        // through bincode as well
        let mut s = (b.len() as u64).to_le_bytes().to_vec();
        s.extend_from_slice(b);
        let r = c.call(|| bincode::deserialize::<NumericBuf>(&s).ok());
        got(c, "bincode", &r, dec::decode(b).ok().as_ref());
    }));
    // length words
    let lens: Vec<u32> = (0..=64).chain([0x3FFF_FFFF, 0x4000_0000, 0x8000_0000, 0xFFFF_FFFF, 6 << 2, 8 << 2, 10 << 2, 6 << 24, 8 << 24, 10 << 24, 0x1800_0000]).collect();
    let bodies: Vec<Vec<u16>> = vec![vec![], vec![0xC000], vec![0x8000], vec![0x8000, 7], vec![0x8000, 7, 1], vec![0x0050, 0], vec![0x0050, 2, 5]];
    let mut list = vec![];
    for l in &lens {
        for end in [false, true] {
            for b in &bodies {
                let mut m = if end { l.to_be_bytes().to_vec() } else { l.to_le_bytes().to_vec() };
                m.extend(words(b));
                list.push(m);
            }
        }
    }
    v.push(space("length words", list.len() as u64, move |i, c| {
        let b = &list[i as usize];
        c.desc(|| format!("bytes {:02x?}", b));
        c.seen(b);
        give_bytes(b, c);
    }));
    // malformed text
    let al: Vec<char> = "0159.-+eEnNaA \t\"x_,\u{0}\u{660}".chars().collect();
    let n = al.len() as u64;
    let depth = cfg.size(3u32, 3, 4);
    let total: u64 = (0..=depth).map(|d| n.pow(d)).sum();
    v.push(space(format!("texts up to {} characters", depth), total, move |mut i, c| {
        let mut len = 0;
        while i >= n.pow(len) {
            i -= n.pow(len);
            len += 1;
        }
        let mut s = String::new();
        for _ in 0..len {
            s.push(al[(i % n) as usize]);
            i /= n;
        }
        c.desc(|| format!("text {:?}", s));
        let m = dec::parse(&s).ok();
        let r = c.call(|| de_buf(Give::Str(&s), true));
        got(c, "visit_str", &r, m.as_ref());
        let j = serde_json::to_string(&s).unwrap();
        let r = c.call(|| serde_json::from_str::<NumericBuf>(&j).ok());
        got(c, "json", &r, m.as_ref());
        c.seen(s.as_bytes());
    }));
    // every text of C01, from a string, from a transient string and through JSON
    super::text::texts(cfg, |s, c| {
        let m = dec::parse(s).ok();
        for (what, give) in [("visit_str", Give::Str(s)), ("visit_borrowed_str", Give::BorrowedStr(s)), ("visit_string", Give::String(s.to_string()))] {
            let r = c.call(|| de_buf(give, true));
            if !(super::text::huge_exponent(s) && matches!(r, Ok(None))) {
                got(c, what, &r, m.as_ref());
            }
        }
        c.seen(s.as_bytes());
    }, &mut v);
    let js: Vec<&str> = vec!["1", "1.5", "null", "true", "[]", "[1]", "{}", "{\"a\":1}", "\"", "\"1", "", "[36,0,0,0,0,128]", "-0", "1e5", "\"\\u0031\"", "\" 1 \"", "\"1e99999999999\"", "\"1e16383\"", "\"1e-16384\""];
    v.push(space("json values that are not numerics", js.len() as u64, move |i, c| {
        let j = js[i as usize];
        c.desc(|| j.into());
        let m = match serde_json::from_str::<serde_json::Value>(j) {
            Ok(serde_json::Value::String(s)) => dec::parse(&s).ok(),
            _ => None,
        };
        let r = c.call(|| serde_json::from_str::<NumericBuf>(j).ok());
        got(c, "json", &r, m.as_ref());
        c.seen(j.as_bytes());
    }));
    v
}

// ---------------------------------------------------------------- C24

pub fn sci(d: &Dec, e: char) -> String {
    if d.is_zero() {
        return format!("0{}+00", e);
    }
    let dg = d.mag.to_digits();
    let x = dg.len() as i64 - 1 - d.scale;
    let keep = dg.len() - dg.iter().rev().take_while(|&&c| c == 0).count();
    let mut s = String::new();
    if d.neg {
        s.push('-');
    }
    s.push((dg[0] + b'0') as char);
    if keep > 1 {
        s.push('.');
        s.extend(dg[1..keep].iter().map(|c| (c + b'0') as char));
    }
    s.push(e);
    s.push(if x < 0 { '-' } else { '+' });
    s.push_str(&format!("{:02}", x.abs()));
    s
}

fn sci_case(x: &Opnd, c: &mut Ctx) {
    let n = x.num();
    let mut texts = vec![];
    for (e, r) in [('e', c.call(|| format!("{:e}", n))), ('E', c.call(|| format!("{:E}", n))), ('e', c.call(|| format!("{:e}", x.buf))), ('E', c.call(|| format!("{:E}", x.buf)))] {
        let exp = match &x.val {
            Val::NaN => "NaN".into(),
            Val::Fin(d) => sci(d, e),
        };
        match r {
            Ok(s) => {
                c.check(s == exp, || format!("{{:{}}} gives {:?}, expected {:?}", e, short(&s), short(&exp)));
                c.seen(s.as_bytes());
                texts.push(s);
            }
            Err(p) => c.fail(format!("{{:{}}} panicked: {}", e, p)),
        }
    }
    for s in texts.iter().take(2) {
        let r = c.call(|| s.parse::<NumericBuf>().map(|p| p == *n).map_err(|e| format!("{:?}", e)));
        c.check(r == Ok(Ok(true)), || format!("{:?} does not parse back to an equal numeric: {:?}", short(s), r));
    }
}

fn short(s: &str) -> String {
    if s.len() < 150 {
        s.into()
    } else {
        format!("{}...{}", &s[..70], &s[s.len() - 70..])
    }
}

pub fn c24(cfg: Cfg) -> Vec<Space> {
    let mut v = vec![];
    v.push(singles("small", with_nan(small_table(cfg)), sci_case));
    let n = cfg.size(12000, 3000, cfg.deep(100_000, 1_000_000));
    for s in [0, 1, 2, 3, 4, 5, 7, 8] {
        v.push(singles(format!("range at scale {}", s), dtable(range(-n / 4, n, s)), sci_case));
    }
    v.push(singles("groups", dtable(groups(&D8, cfg.size(4, 3, 4), cfg.size(&[-5, -2, -1, 0, 1, 2, 3, 4, 7][..], &[-2, -1, 0, 1, 3][..], &[-9, -6, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9][..]), &[0, 2], true)), sci_case));
    v.push(singles("header boundary", boundary_table(), sci_case));
    v.push(singles("long", long_table(cfg), sci_case));
    v.push(singles("digits x point positions", grid_table(cfg), sci_case));
    v.push(singles("up to every digit of the format", vast_table(cfg), sci_case));
    // every exponent
    let mut e = vec![];
    let top = cfg.size(1300, 300, cfg.deep(4000, 12_000));
    for k in 0..=top {
        for cf in [1i128, 99, 123456789] {
            e.push(Dec::new(false, Big::from_u128(cf as u128).mul_pow10(k as usize), 0));
            e.push(Dec::of(-cf, k));
        }
    }
    v.push(singles("every exponent", dtable(e), sci_case));
    let mut e = vec![];
    for k in cfg.size(&[4095i64, 9999, 16379, 16380, 16381, 16382, 16383][..], &[4095, 16380, 16383][..], &[1500, 2000, 4095, 4096, 8191, 9999, 10000, 16379, 16380, 16381, 16382, 16383][..]).iter().copied() {
        for cf in [1i128, 5, 10, 999, 10000, 12345678] {
            e.push(Dec::of(cf, k));
            e.push(Dec::of(-cf, k));
        }
        e.push(Dec::zero(k));
        e.push(Dec::int(1).round(k));
        e.push(Dec::of(31415, 4).round(k));
    }
    for w in cfg.size(&[1000i64, 4000][..], &[1000][..], &[1000, 4000, 8191, 16383, 32767][..]).iter().copied() {
        for g in [&[1u16][..], &[9999], &[10, 1]] {
            push_scaled(&mut e, g, w, &[0, 5], false);
        }
    }
    if cfg.var == Variant::Rel {
        push_scaled(&mut e, &[9999, 1], 32767, &[0], true);
        push_scaled(&mut e, &[10], 32767, &[0], true);
        v.push(singles("ladder of weights", dtable(ladder(&[1], 8200, false).into_iter().chain(ladder(&[1000, 5], 2100, true)).collect()), sci_case));
    }
    let mut s = singles("far exponents", dtable(e), sci_case);
    s.case_limit = 240;
    v.push(s);
    v
}
