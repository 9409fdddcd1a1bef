//! Registry of the public operations of the library, every spelling, grouped by meaning.
use crate::engine::{Ctx, Out};
use crate::lat::Opnd;
use pgnumeric::{Numeric, NumericBuf, Typmod};
use std::borrow::{Borrow, Cow};
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};

/// One numeric, as borrowed bytes and as an owned buffer.
#[derive(Clone, Copy)]
pub struct A<'a> {
    pub n: &'a Numeric,
    pub b: &'a NumericBuf,
}

impl<'a> A<'a> {
    pub fn of(o: &'a Opnd) -> A<'a> {
        A { n: o.num(), b: &o.buf }
    }
    pub fn buf(b: &'a NumericBuf) -> A<'a> {
        A { n: b.as_numeric(), b }
    }
}

pub enum R {
    N(NumericBuf),
    No,
    T(Vec<u8>),
}

impl From<NumericBuf> for R {
    fn from(n: NumericBuf) -> R {
        R::N(n)
    }
}
impl From<Option<NumericBuf>> for R {
    fn from(n: Option<NumericBuf>) -> R {
        match n {
            Some(n) => R::N(n),
            None => R::No,
        }
    }
}

/// Observable outcome: a numeric's bytes, a failure (None or a panic), or other data.
pub fn observe(o: &Out<R>) -> Vec<u8> {
    let mut v = Vec::new();
    observe_into(o, &mut v);
    v
}
pub fn observe_into(o: &Out<R>, v: &mut Vec<u8>) {
    v.clear();
    match o {
        Ok(R::N(n)) => {
            v.push(b'N');
            v.extend_from_slice(n.as_bytes());
        }
        Ok(R::T(t)) => {
            v.push(b'T');
            v.extend_from_slice(t);
        }
        Ok(R::No) | Err(_) => v.push(b'F'),
    }
}
pub fn show(v: &[u8]) -> String {
    match v.first() {
        Some(b'N') => match crate::dec::decode(&v[1..]) {
            Ok(x) => format!("{} (scale {})", x.show(), if let crate::dec::Val::Fin(d) = &x { d.scale.to_string() } else { "-".into() }),
            Err(e) => format!("INVALID [{}] {:02x?}", e, &v[1..v.len().min(40)]),
        },
        Some(b'T') => format!("{:?}", String::from_utf8_lossy(&v[1..v.len().min(200)])),
        _ => "failure".into(),
    }
}

#[derive(Clone, Copy)]
pub struct Op1 {
    pub group: &'static str,
    pub name: &'static str,
    pub f: fn(A) -> R,
    /// slow for operands with many digits or large values
    pub heavy: bool,
}
#[derive(Clone, Copy)]
pub struct Op2 {
    pub group: &'static str,
    pub name: &'static str,
    pub f: fn(A, A) -> R,
    pub heavy: bool,
}
#[derive(Clone, Copy)]
pub struct OpP {
    pub group: &'static str,
    pub name: &'static str,
    pub f: fn(A, i64) -> R,
}

fn txt(s: impl Into<String>) -> R {
    R::T(s.into().into_bytes())
}

/// Records everything written to a hasher, with the kind of write.
#[derive(Default)]
pub struct Rec(pub Vec<u8>);
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        crate::engine::hash_bytes(&self.0)
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(&(b.len() as u32).to_le_bytes());
        self.0.extend_from_slice(b);
    }
}
pub fn hash_stream<T: Hash + ?Sized>(t: &T) -> Vec<u8> {
    let mut r = Rec::default();
    t.hash(&mut r);
    r.0
}

fn num_res<T: std::fmt::Display, E: std::fmt::Debug>(r: Result<T, E>) -> R {
    match r {
        Ok(v) => txt(format!("{}", v)),
        Err(e) => txt(format!("E{:?}", e)),
    }
}
fn f64_res<E: std::fmt::Debug>(r: Result<f64, E>) -> R {
    match r {
        Ok(v) => txt(if v.is_nan() { "nan".into() } else { format!("{:016x}", v.to_bits()) }),
        Err(e) => txt(format!("E{:?}", e)),
    }
}
fn f32_res<E: std::fmt::Debug>(r: Result<f32, E>) -> R {
    match r {
        Ok(v) => txt(if v.is_nan() { "nan".into() } else { format!("{:08x}", v.to_bits()) }),
        Err(e) => txt(format!("E{:?}", e)),
    }
}

macro_rules! op1 {
    ($v:ident, $heavy:expr, $group:expr; $($name:expr => |$a:ident| $e:expr),+ $(,)?) => {
        $( $v.push(Op1 { group: $group, name: $name, f: { fn f($a: A) -> R { ($e).into() } f }, heavy: $heavy }); )+
    };
}

macro_rules! conv {
    ($v:ident, $t:ty, $res:ident) => {
        op1!($v, false, concat!("to ", stringify!($t));
            concat!(stringify!($t), "::try_from(&Numeric)") => |a| $res(<$t>::try_from(a.n)),
            concat!(stringify!($t), "::try_from(&NumericBuf)") => |a| $res(<$t>::try_from(a.b)),
            concat!(stringify!($t), "::try_from(NumericBuf)") => |a| $res(<$t>::try_from(a.b.clone())));
    };
}

pub fn unary() -> Vec<Op1> {
    let mut v = Vec::new();
    op1!(v, false, "neg";
        "Numeric::negate" => |a| a.n.negate(),
        "NumericBuf::negate" => |a| a.b.negate(),
        "-&Numeric" => |a| -a.n,
        "-&NumericBuf" => |a| -a.b,
        "-NumericBuf" => |a| -(a.b.clone()),
        "negate_mut" => |a| { let mut x = a.b.clone(); x.negate_mut(); x });
    op1!(v, false, "abs";
        "Numeric::abs" => |a| a.n.abs(),
        "NumericBuf::abs" => |a| a.b.abs(),
        "abs_mut" => |a| { let mut x = a.b.clone(); x.abs_mut(); x });
    op1!(v, false, "signum"; "Numeric::signum" => |a| a.n.signum(), "NumericBuf::signum" => |a| a.b.signum());
    op1!(v, false, "inc"; "Numeric::inc" => |a| a.n.inc(), "NumericBuf::inc" => |a| a.b.inc());
    op1!(v, false, "ceil"; "Numeric::ceil" => |a| a.n.ceil(), "NumericBuf::ceil" => |a| a.b.ceil());
    op1!(v, false, "floor"; "Numeric::floor" => |a| a.n.floor(), "NumericBuf::floor" => |a| a.b.floor());
    op1!(v, true, "sqrt"; "Numeric::sqrt" => |a| a.n.sqrt(), "NumericBuf::sqrt" => |a| a.b.sqrt());
    op1!(v, true, "ln"; "Numeric::ln" => |a| a.n.ln(), "NumericBuf::ln" => |a| a.b.ln());
    op1!(v, true, "log2"; "Numeric::log2" => |a| a.n.log2(), "NumericBuf::log2" => |a| a.b.log2());
    op1!(v, true, "log10"; "Numeric::log10" => |a| a.n.log10(), "NumericBuf::log10" => |a| a.b.log10());
    op1!(v, true, "exp"; "Numeric::exp" => |a| a.n.exp(), "NumericBuf::exp" => |a| a.b.exp());
    op1!(v, false, "text";
        "Numeric.to_string" => |a| txt(a.n.to_string()),
        "NumericBuf.to_string" => |a| txt(a.b.to_string()),
        "format! {} of Numeric" => |a| txt(format!("{}", a.n)));
    op1!(v, false, "normalize"; "Numeric::normalize" => |a| txt(a.n.normalize()), "NumericBuf::normalize" => |a| txt(a.b.normalize()));
    op1!(v, false, "{:e}"; "{:e} of Numeric" => |a| txt(format!("{:e}", a.n)), "{:e} of NumericBuf" => |a| txt(format!("{:e}", a.b)));
    op1!(v, false, "{:E}"; "{:E} of Numeric" => |a| txt(format!("{:E}", a.n)), "{:E} of NumericBuf" => |a| txt(format!("{:E}", a.b)));
    op1!(v, false, "copy";
        "to_owned" => |a| a.n.to_owned(),
        "clone" => |a| a.b.clone(),
        "Cow::from(&Numeric)" => |a| Cow::from(a.n).into_owned(),
        "Cow::from(&NumericBuf)" => |a| Cow::from(a.b).into_owned(),
        "Cow::from(NumericBuf)" => |a| Cow::from(a.b.clone()).into_owned(),
        "as_numeric.to_owned" => |a| a.b.as_numeric().to_owned(),
        "from_bytes(as_bytes).to_owned" => |a| unsafe { Numeric::from_bytes_unchecked(a.b.as_bytes()) }.to_owned());
    op1!(v, false, "bytes";
        "Numeric::as_bytes" => |a| R::T(a.n.as_bytes().to_vec()),
        "NumericBuf::as_bytes" => |a| R::T(a.b.as_bytes().to_vec()),
        "as_ref" => |a| { let n: &Numeric = a.b.as_ref(); R::T(n.as_bytes().to_vec()) },
        "borrow" => |a| { let n: &Numeric = a.b.borrow(); R::T(n.as_bytes().to_vec()) },
        "deref" => |a| { let n: &Numeric = a.b; R::T(n.as_bytes().to_vec()) });
    op1!(v, false, "is_nan"; "Numeric::is_nan" => |a| R::T(vec![a.n.is_nan() as u8]), "NumericBuf::is_nan" => |a| R::T(vec![a.b.is_nan() as u8]));
    op1!(v, false, "is_negative"; "Numeric::is_negative" => |a| R::T(vec![a.n.is_negative() as u8]), "NumericBuf::is_negative" => |a| R::T(vec![a.b.is_negative() as u8]));
    op1!(v, false, "is_positive"; "Numeric::is_positive" => |a| R::T(vec![a.n.is_positive() as u8]), "NumericBuf::is_positive" => |a| R::T(vec![a.b.is_positive() as u8]));
    op1!(v, false, "scale"; "Numeric::scale" => |a| txt(format!("{:?}", a.n.scale())), "NumericBuf::scale" => |a| txt(format!("{:?}", a.b.scale())));
    op1!(v, false, "hash";
        "Numeric.hash" => |a| R::T(hash_stream(a.n)),
        "NumericBuf.hash" => |a| R::T(hash_stream(a.b)),
        "(&Numeric).hash" => |a| R::T(hash_stream(&a.n)));
    op1!(v, false, "json";
        "json of &Numeric" => |a| txt(serde_json::to_string(a.n).unwrap()),
        "json of NumericBuf" => |a| txt(serde_json::to_string(a.b).unwrap()));
    op1!(v, false, "bincode";
        "bincode of &Numeric" => |a| R::T(bincode::serialize(a.n).unwrap()),
        "bincode of NumericBuf" => |a| R::T(bincode::serialize(a.b).unwrap()));
    op1!(v, false, "json round trip"; "json round trip" => |a| serde_json::from_str::<NumericBuf>(&serde_json::to_string(a.n).unwrap()).unwrap());
    op1!(v, false, "bincode round trip"; "bincode round trip" => |a| bincode::deserialize::<NumericBuf>(&bincode::serialize(a.n).unwrap()).unwrap());
    op1!(v, false, "text round trip"; "text round trip" => |a| a.n.to_string().parse::<NumericBuf>().ok());
    conv!(v, i8, num_res);
    conv!(v, i16, num_res);
    conv!(v, i32, num_res);
    conv!(v, i64, num_res);
    conv!(v, i128, num_res);
    conv!(v, isize, num_res);
    conv!(v, u8, num_res);
    conv!(v, u16, num_res);
    conv!(v, u32, num_res);
    conv!(v, u64, num_res);
    conv!(v, u128, num_res);
    conv!(v, usize, num_res);
    conv!(v, f32, f32_res);
    conv!(v, f64, f64_res);
    v
}

macro_rules! spell {
    ($v:ident, $group:expr, $sym:expr, $op:tt, $asg:tt, $checked:ident, $heavy:expr) => {
        op2!($v, $heavy, $group;
            concat!("&Numeric ", $sym, " &Numeric") => |a, b| a.n $op b.n,
            concat!("&Numeric ", $sym, " &NumericBuf") => |a, b| a.n $op b.b,
            concat!("&Numeric ", $sym, " NumericBuf") => |a, b| a.n $op b.b.clone(),
            concat!("&NumericBuf ", $sym, " &Numeric") => |a, b| a.b $op b.n,
            concat!("&NumericBuf ", $sym, " &NumericBuf") => |a, b| a.b $op b.b,
            concat!("&NumericBuf ", $sym, " NumericBuf") => |a, b| a.b $op b.b.clone(),
            concat!("NumericBuf ", $sym, " &Numeric") => |a, b| a.b.clone() $op b.n,
            concat!("NumericBuf ", $sym, " &NumericBuf") => |a, b| a.b.clone() $op b.b,
            concat!("NumericBuf ", $sym, " NumericBuf") => |a, b| a.b.clone() $op b.b.clone(),
            concat!("NumericBuf ", $sym, "= &Numeric") => |a, b| { let mut x = a.b.clone(); x $asg b.n; x },
            concat!("NumericBuf ", $sym, "= &NumericBuf") => |a, b| { let mut x = a.b.clone(); x $asg b.b; x },
            concat!("NumericBuf ", $sym, "= NumericBuf") => |a, b| { let mut x = a.b.clone(); x $asg b.b.clone(); x },
            concat!("Numeric::", stringify!($checked)) => |a, b| a.n.$checked(b.n),
            concat!("NumericBuf::", stringify!($checked)) => |a, b| a.b.$checked(b.b));
    };
}

macro_rules! op2 {
    ($v:ident, $heavy:expr, $group:expr; $($name:expr => |$a:ident, $b:ident| $e:expr),+ $(,)?) => {
        $( $v.push(Op2 { group: $group, name: $name, f: { fn f($a: A, $b: A) -> R { ($e).into() } f }, heavy: $heavy }); )+
    };
}

fn ord(o: Ordering) -> R {
    R::T(vec![match o {
        Ordering::Less => b'<',
        Ordering::Equal => b'=',
        Ordering::Greater => b'>',
    }])
}
fn pord(o: Option<Ordering>) -> R {
    match o {
        Some(o) => ord(o),
        None => txt("?"),
    }
}
fn rel(lt: bool, le: bool, gt: bool, ge: bool) -> R {
    R::T(vec![match (lt, le, gt, ge) {
        (true, true, false, false) => b'<',
        (false, true, false, true) => b'=',
        (false, false, true, true) => b'>',
        _ => b'!',
    }])
}
fn eqv(eq: bool, ne: bool) -> R {
    R::T(vec![match (eq, ne) {
        (true, false) => b'=',
        (false, true) => b'#',
        _ => b'!',
    }])
}

macro_rules! cmps {
    ($v:ident; $($l:expr, $r:expr => |$a:ident, $b:ident| $x:expr, $y:expr);+ $(;)?) => {
        $(
            op2!($v, false, "order"; concat!($l, " < <= > >= ", $r) => |$a, $b| rel($x < $y, $x <= $y, $x > $y, $x >= $y));
            op2!($v, false, "order"; concat!($l, " partial_cmp ", $r) => |$a, $b| pord(PartialOrd::partial_cmp(&$x, &$y)));
            op2!($v, false, "equality"; concat!($l, " == != ", $r) => |$a, $b| eqv($x == $y, $x != $y));
        )+
    };
}

pub fn binary() -> Vec<Op2> {
    let mut v = Vec::new();
    spell!(v, "add", "+", +, +=, checked_add, false);
    spell!(v, "sub", "-", -, -=, checked_sub, false);
    spell!(v, "mul", "*", *, *=, checked_mul, false);
    spell!(v, "div", "/", /, /=, checked_div, false);
    spell!(v, "rem", "%", %, %=, checked_rem, false);
    op2!(v, false, "div_trunc";
        "Numeric::checked_div_trunc" => |a, b| a.n.checked_div_trunc(b.n),
        "NumericBuf::checked_div_trunc" => |a, b| a.b.checked_div_trunc(b.b));
    op2!(v, true, "log"; "Numeric::log" => |a, b| a.n.log(b.n), "NumericBuf::log" => |a, b| a.b.log(b.b));
    op2!(v, true, "pow"; "Numeric::pow" => |a, b| a.n.pow(b.n), "NumericBuf::pow" => |a, b| a.b.pow(b.b));
    op2!(v, false, "order";
        "Numeric::cmp" => |a, b| ord(a.n.cmp(b.n)),
        "NumericBuf::cmp" => |a, b| ord(a.b.cmp(b.b)),
        "(&Numeric)::cmp" => |a, b| ord((&a.n).cmp(&b.n)));
    cmps!(v;
        "Numeric", "Numeric" => |a, b| *a.n, *b.n;
        "NumericBuf", "NumericBuf" => |a, b| *a.b, *b.b;
        "NumericBuf", "Numeric" => |a, b| *a.b, *b.n;
        "NumericBuf", "&Numeric" => |a, b| *a.b, b.n;
        "Numeric", "NumericBuf" => |a, b| *a.n, *b.b;
        "&Numeric", "NumericBuf" => |a, b| a.n, *b.b;
        "&Numeric", "Numeric" => |a, b| a.n, *b.n;
        "Numeric", "&Numeric" => |a, b| *a.n, b.n;
        "&NumericBuf", "NumericBuf" => |a, b| a.b, *b.b;
        "NumericBuf", "&NumericBuf" => |a, b| *a.b, b.b);
    op2!(v, false, "max";
        "NumericBuf::max" => |a, b| a.b.clone().max(b.b.clone()),
        "std::cmp::max(&Numeric)" => |a, b| std::cmp::max(a.n, b.n).to_owned());
    op2!(v, false, "min";
        "NumericBuf::min" => |a, b| a.b.clone().min(b.b.clone()),
        "std::cmp::min(&Numeric)" => |a, b| std::cmp::min(a.n, b.n).to_owned());
    v
}

fn tm(a: A, t: Typmod) -> R {
    let mut x = a.b.clone();
    let r = x.apply_typmod(t);
    let mut v = vec![r as u8];
    v.extend_from_slice(x.as_bytes());
    R::T(v)
}

pub fn param() -> Vec<OpP> {
    let mut v = Vec::new();
    macro_rules! opp {
        ($group:expr; $($name:expr => |$a:ident, $p:ident| $e:expr),+ $(,)?) => {
            $( v.push(OpP { group: $group, name: $name, f: { fn f($a: A, $p: i64) -> R { ($e).into() } f } }); )+
        };
    }
    opp!("round";
        "Numeric::round" => |a, p| a.n.round(p as i32),
        "NumericBuf::round" => |a, p| a.b.round(p as i32),
        "round_mut" => |a, p| { let mut x = a.b.clone(); x.round_mut(p as i32); x });
    opp!("trunc";
        "Numeric::trunc" => |a, p| a.n.trunc(p as i32),
        "NumericBuf::trunc" => |a, p| a.b.trunc(p as i32),
        "trunc_mut" => |a, p| { let mut x = a.b.clone(); x.trunc_mut(p as i32); x });
    opp!("typmod"; "apply_typmod" => |a, p| match Typmod::new((p >> 16) as i32, (p & 0xFFFF) as i32) { Some(t) => tm(a, t), None => R::No });
    v
}

pub fn run1(c: &mut Ctx, o: &Op1, a: A) -> Out<R> {
    let f = o.f;
    c.call(|| f(a))
}
pub fn run2(c: &mut Ctx, o: &Op2, a: A, b: A) -> Out<R> {
    let f = o.f;
    c.call(|| f(a, b))
}
pub fn runp(c: &mut Ctx, o: &OpP, a: A, p: i64) -> Out<R> {
    let f = o.f;
    c.call(|| f(a, p))
}

pub fn group1(g: &str) -> Vec<Op1> {
    unary().into_iter().filter(|o| o.group == g).collect()
}
pub fn group2(g: &str) -> Vec<Op2> {
    binary().into_iter().filter(|o| o.group == g).collect()
}
pub fn groupp(g: &str) -> Vec<OpP> {
    param().into_iter().filter(|o| o.group == g).collect()
}
