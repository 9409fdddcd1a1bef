use crate::engine::*;
use crate::lat::*;

pub mod arith;
pub mod conc;
pub mod conv;
pub mod glob;
pub mod mem;
pub mod memo;
pub mod ord;
pub mod repr;
pub mod text;
pub mod trans;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Variant {
    /// optimised build, no internal assertions
    Rel,
    /// debug assertions, overflow checks, std's unsafe-precondition checks
    Chk,
    /// big-endian length word
    Be,
}

#[derive(Clone, Copy)]
pub struct Cfg {
    pub tier: Tier,
    pub var: Variant,
    /// this property's quick check can afford the large sizes
    pub lift: bool,
}

impl Cfg {
    pub fn new(prop: &str, tier: Tier, var: Variant) -> Cfg {
        let lift = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C18", "C19", "C20", "C23", "C24"].contains(&prop);
        Cfg { tier, var, lift }
    }
    /// size parameter: small (builds with internal checks) / middle / large
    pub fn size<T>(&self, quick: T, quick_chk: T, thorough: T) -> T {
        if self.thorough() {
            thorough
        } else if self.var == Variant::Rel || self.lift {
            quick
        } else {
            quick_chk
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough || self.lift && self.var == Variant::Rel
    }
    /// within a large size: what the thorough tier takes
    pub fn deep<T>(&self, large: T, deepest: T) -> T {
        if self.tier == Tier::Thorough {
            deepest
        } else {
            large
        }
    }
}

pub fn pairs(name: impl Into<String>, a: Table, b: Table, f: impl Fn(&Opnd, &Opnd, &mut Ctx) + Send + Sync + 'static) -> Space {
    let (na, nb) = (a.len() as u64, b.len() as u64);
    space(name, na * nb, move |i, c| {
        let (x, y) = (&a[(i / nb) as usize], &b[(i % nb) as usize]);
        c.desc(|| format!("a={}, b={}", x.show(), y.show()));
        f(x, y, c);
        if i % nb == nb - 1 && !x.intact() {
            c.fail(format!("shared operand changed during the row: a={}", x.show()));
        }
    })
}

pub fn singles(name: impl Into<String>, a: Table, f: impl Fn(&Opnd, &mut Ctx) + Send + Sync + 'static) -> Space {
    space(name, a.len() as u64, move |i, c| {
        let x = &a[i as usize];
        c.desc(|| format!("x={}", x.show()));
        f(x, c);
        if !x.intact() {
            c.fail(format!("operand changed: x={}", x.show()));
        }
    })
}

/// table x small integer parameter
pub fn with_param(name: impl Into<String>, a: Table, ps: Vec<i64>, f: impl Fn(&Opnd, i64, &mut Ctx) + Send + Sync + 'static) -> Space {
    let n = ps.len() as u64;
    space(name, a.len() as u64 * n, move |i, c| {
        let x = &a[(i / n) as usize];
        let p = ps[(i % n) as usize];
        c.desc(|| format!("x={}, n={}", x.show(), p));
        f(x, p, c);
        if i % n == n - 1 && !x.intact() {
            c.fail(format!("operand changed: x={}", x.show()));
        }
    })
}

pub fn spaces(prop: &str, cfg: Cfg) -> Option<Vec<Space>> {
    Some(match prop {
        "C01" => text::c01(cfg),
        "C02" => text::c02(cfg),
        "C03" => repr::c03(cfg),
        "C22" => mem::c22(cfg),
        "C23" => repr::c23(cfg),
        "C24" => repr::c24(cfg),
        "C04" => arith::c04(cfg),
        "C05" => arith::c05(cfg),
        "C06" => arith::c06(cfg),
        "C07" => arith::c07(cfg),
        "C08" => ord::c08(cfg),
        "C09" => ord::c09(cfg),
        "C10" => arith::c10(cfg),
        "C11" => ord::c11(cfg),
        "C12" => conv::c12(cfg),
        "C13" => conv::c13(cfg),
        "C14" => trans::c14(cfg),
        "C15" => trans::c15(cfg),
        "C16" => trans::c16(cfg),
        "C17" => trans::c17(cfg),
        "C18" => ord::c18(cfg),
        "C19" => glob::c19(cfg),
        "C20" => glob::c20(cfg),
        "C21" => glob::c21(cfg),
        "C25" => conc::c25(cfg),
        "C26" => glob::c26(cfg),
        "C27" => glob::c27(cfg),
        _ => return None,
    })
}
