//! the double-double format (C01, C20, C21)
use crate::rt::*;
use crate::spec::*;
use core::cell::Cell;
use core::cmp::Ordering;
use rustc_apfloat::ieee::{Double as F64, IeeeFloat};
use rustc_apfloat::ppc::{DoubleDouble as D, FallbackS};
use rustc_apfloat::*;

type Fb = IeeeFloat<FallbackS<F64>>;
type T = crate::spec::Double;

/// a double-double with parts `hi` and `lo`
fn dd(hi: In, lo: In) -> D {
    D::from_bits(hi.bits + (lo.bits << 64))
}
fn part(k: K, p: &'static str) -> In {
    match p {
        "ah" => input_sm::<T>(k, "a.hi.sign", "a.hi.exp", "a.hi.frac"),
        "al" => input_sm::<T>(k, "a.lo.sign", "a.lo.exp", "a.lo.frac"),
        "bh" => input_sm::<T>(k, "b.hi.sign", "b.hi.exp", "b.hi.frac"),
        _ => input_sm::<T>(k, "b.lo.sign", "b.lo.exp", "b.lo.frac"),
    }
}
fn cat(k: K) -> Category {
    match k {
        K::Zero => Category::Zero,
        K::Inf => Category::Infinity,
        K::QNan | K::SNan => Category::NaN,
        _ => Category::Normal,
    }
}

pub mod C01_dd {
    use super::*;
    pub fn DoubleDouble() {
        let (h, l) = (part(any_kind("a.hi.kind"), "ah"), part(any_kind("a.lo.kind"), "al"));
        let v = dd(h, l);
        check_eq(v.to_bits(), h.bits + (l.bits << 64), "to_bits(from_bits(b))");
        check(v.category() == cat(h.k), "category");
        check(v.is_negative() == h.neg, "is_negative");
        check(v.is_signaling() == (h.k == K::SNan), "is_signaling");
    }
}
pub mod C20_pred {
    use super::*;
    pub fn DoubleDouble() {
        let (h, l) = (part(any_kind("a.hi.kind"), "ah"), part(any_kind("a.lo.kind"), "al"));
        let v = dd(h, l);
        check(v.category() == cat(h.k), "category");
        check(v.is_negative() == h.neg, "is_negative");
        check(v.is_nan() == h.nan(), "is_nan");
        check(v.is_signaling() == (h.k == K::SNan), "is_signaling");
        check(v.is_infinite() == (h.k == K::Inf), "is_infinite");
        check(v.is_zero() == (h.k == K::Zero), "is_zero");
        check(v.is_finite() == (h.fin() || h.k == K::Zero), "is_finite");
        check(v.is_pos_zero() == (h.k == K::Zero && !h.neg), "is_pos_zero");
        check(v.is_neg_zero() == (h.k == K::Zero && h.neg), "is_neg_zero");
        check(v.ilogb() == val::<T>(h).ilogb(), "ilogb");
        // a zero low part keeps its sign
        let flip = if l.fin() { !l.neg } else { l.neg };
        check_eq((-v).to_bits(), signed::<T>(!h.neg, h.mag) + (signed::<T>(flip, l.mag) << 64), "neg");
        let ab = if h.neg { -v } else { v };
        check_eq(v.abs().to_bits(), ab.to_bits(), "abs");
    }
}
pub mod C20_integer {
    use super::*;
    pub fn DoubleDouble() {
        let (h, l) = (part(any_kind("a.hi.kind"), "ah"), part(any_kind("a.lo.kind"), "al"));
        assume(h.fin() && h.exp >= -1 || l.k == K::Zero);
        join();
        // the lowest set bit is at or above 2^0
        let li = |x: In| {
            if x.k == K::Zero {
                return true;
            }
            x.k == K::Norm && (x.exp >= 0 || x.exp > -53 && x.sig & ((1 << -x.exp) - 1) == 0)
        };
        check(dd(h, l).is_integer() == (li(h) && li(l)), "is_integer");
    }
}
pub mod C20_denormal {
    use super::*;
    /// denormal: a part is, or the parts do not sum to the high part
    pub fn DoubleDouble() {
        let (h, l) = (part(any_kind("a.hi.kind"), "ah"), part(any_kind("a.lo.kind"), "al"));
        assume(!l.nan());
        let v = dd(h, l);
        join();
        let want = if !h.fin() {
            false
        } else if h.k == K::Sub || l.k == K::Sub {
            true
        } else if l.k == K::Zero {
            false
        } else if l.k == K::Inf {
            true
        } else {
            // hi + lo rounds to hi (to nearest, ties to even)
            let half = h.exp - 1; // exponent of half an ulp
            let msb = l.exp + 52;
            let one = h.sig == 1 << 52 && h.exp > -1074;
            let away = h.neg == l.neg;
            let half = if one && !away { half - 1 } else { half };
            if msb < half {
                false
            } else if msb > half {
                true
            } else {
                // exactly at half or above it
                let tie = l.sig == 1 << 52;
                !(tie && h.sig & 1 == 0)
            }
        };
        check(v.is_denormal() == want, "is_denormal");
        check(v.is_normal() == (h.fin() && !want), "is_normal");
    }
}
pub mod C20_special {
    use super::*;
    pub fn DoubleDouble() {
        let (ka, kb) = (any_kind("a.hi.kind"), any_kind("b.hi.kind"));
        let fin = |k: K| matches!(k, K::Norm | K::Sub);
        assume(!(fin(ka) && fin(kb)));
        let (h, l) = (part(ka, "ah"), part(if fin(ka) { any_kind("a.lo.kind") } else { K::Zero }, "al"));
        let (g, m) = (part(kb, "bh"), part(if fin(kb) { any_kind("b.lo.kind") } else { K::Zero }, "bl"));
        assume((l.k == K::Zero || l.fin()) && (m.k == K::Zero || m.fin()));
        let (x, y) = (dd(h, l), dd(g, m));
        let r = any_round();
        let op = any_in("op", 0, 2);
        let neg = h.neg != g.neg;
        let (got, want) = match op {
            0 | 1 => {
                let gneg = if op == 0 { g.neg } else { !g.neg };
                let v = if op == 0 { x.add_r(y, r) } else { x.sub_r(y, r) };
                let w = if h.nan() || g.nan() || ka == K::Inf && kb == K::Inf && h.neg != gneg {
                    (Category::NaN, false)
                } else if ka == K::Inf {
                    (Category::Infinity, h.neg)
                } else if kb == K::Inf {
                    (Category::Infinity, gneg)
                } else if ka == K::Zero && kb == K::Zero {
                    (Category::Zero, if h.neg == gneg { h.neg } else { r == Round::TowardNegative })
                } else if ka == K::Zero {
                    (Category::Normal, gneg)
                } else {
                    (Category::Normal, h.neg)
                };
                if w.0 == Category::Normal {
                    // adding a zero changes nothing
                    let (hh, ll, n) = if ka == K::Zero { (g, m, gneg != g.neg) } else { (h, l, false) };
                    let ll = if n && ll.fin() { minus::<T>(ll) } else { ll };
                    let hh = if n { minus::<T>(hh) } else { hh };
                    check_eq(v.value.to_bits(), hh.bits + (ll.bits << 64), "x + 0 = x");
                    check(v.status == Status::OK, "x + 0 is exact");
                }
                if ka == K::Inf && kb == K::Inf && h.neg != gneg {
                    check(v.status == Status::INVALID_OP, "Inf - Inf is invalid");
                }
                (v.value, w)
            }
            _ => {
                let v = x.mul_r(y, r);
                let inv = ka == K::Inf && kb == K::Zero || ka == K::Zero && kb == K::Inf;
                let w = if h.nan() || g.nan() || inv {
                    (Category::NaN, false)
                } else if ka == K::Inf || kb == K::Inf {
                    (Category::Infinity, neg)
                } else {
                    (Category::Zero, neg)
                };
                (v.value, w)
            }
        };
        check(got.category() == want.0, "category");
        if want.0 != Category::NaN {
            check(got.is_negative() == want.1, "sign");
        }
    }
}
pub mod C20_cmp {
    use super::*;
    pub fn DoubleDouble() {
        let (h, l) = (part(any_kind("a.hi.kind"), "ah"), part(any_kind("a.lo.kind"), "al"));
        let (g, m) = (part(any_kind("b.hi.kind"), "bh"), part(any_kind("b.lo.kind"), "bl"));
        assume(!l.nan() && !m.nan());
        let (x, y) = (dd(h, l), dd(g, m));
        join();
        check(x.bitwise_eq(y) == (h.bits == g.bits && l.bits == m.bits), "bitwise_eq");
        let got = x.partial_cmp(&y);
        if h.nan() || g.nan() {
            check(got.is_none(), "NaN is unordered");
            check(x != y, "NaN is unequal");
            return;
        }
        let c = order(h, g);
        let want = if c == Ordering::Equal { order(l, m) } else { c };
        check(got == Some(want), "partial_cmp");
        check((x == y) == (want == Ordering::Equal), "==");
        if h.fin() && g.fin() && (l.fin() || l.k == K::Zero) && (m.fin() || m.k == K::Zero) {
            // by magnitude: a low part of the other sign makes the value smaller
            let c = h.mag.cmp(&g.mag);
            let lo = |h: In, l: In| if l.neg != h.neg { minus::<T>(In { neg: false, ..l }) } else { In { neg: false, ..l } };
            let want = if c == Ordering::Equal { order(lo(h, l), lo(g, m)) } else { c };
            check(x.cmp_abs_normal(y) == want, "cmp_abs_normal");
        }
    }
}
fn order(x: In, y: In) -> Ordering {
        let m = x.mag.cmp(&y.mag);
        if x.mag == 0 && y.mag == 0 {
            Ordering::Equal
        } else if x.neg != y.neg {
            if x.neg { Ordering::Less } else { Ordering::Greater }
        } else if x.neg {
            m.reverse()
        } else {
            m
        }
    }
pub mod C20_scale {
    use super::*;
    pub fn DoubleDouble() {
        let (h, l) = (part(any_kind("a.hi.kind"), "ah"), part(any_kind("a.lo.kind"), "al"));
        let r = any_round();
        let v = dd(h, l);
        join();
        let n = any_iin("n", ExpInt::MIN as i128, ExpInt::MAX as i128) as ExpInt;
        let c = Scale { n, r, calls: Cell::new(0) };
        share("scale", &c);
        // any operation on the parts will do: the contract flips signs
        stub::<fn(F64, ExpInt, Round) -> F64>(F64::scalbn_r, s_scale);
        let got = v.scalbn_r(n, r);
        if c.calls.get() == 2 {
            check_eq(got.to_bits(), minus::<T>(h).bits + (minus::<T>(l).bits << 64), "scalbn_r scales both parts");
        }
    }
    struct Scale {
        n: ExpInt,
        r: Round,
        calls: Cell<u32>,
    }
    fn s_scale(x: F64, n: ExpInt, r: Round) -> F64 {
        let c = shared::<Scale>("scale");
        c.calls.set(c.calls.get() + 1);
        check(n == c.n, "the scale is passed");
        check(r == c.r, "the rounding mode is passed");
        -x
    }
}

// ---------------------------------------------------------------- C21 delegation
// (an operation that does not go through the fallback's method of the same name is not judged here)
struct Ctx {
    x: D,
    y: D,
    w: D,
    r: Round,
    ret: D,
    st: Status,
    n: u128,
    called: Cell<bool>,
}
fn ctx() -> &'static Ctx {
    let c = shared::<Ctx>("ctx");
    c.called.set(true);
    c
}
fn arg(got: Fb, want: D, what: &str) {
    check(got.bitwise_eq(Fb::from(want)), what);
}
fn mode(got: Round) {
    check(got == ctx().r, "the caller's rounding mode is passed");
}
fn ret() -> StatusAnd<Fb> {
    let c = ctx();
    c.st.and(Fb::from(c.ret))
}
fn s_fma(x: Fb, y: Fb, w: Fb, r: Round) -> StatusAnd<Fb> {
    let c = ctx();
    mode(r);
    arg(x, c.x, "self is passed");
    arg(y, c.y, "the multiplicand is passed");
    arg(w, c.w, "the addend is passed");
    ret()
}
fn s_div(x: Fb, y: Fb, r: Round) -> StatusAnd<Fb> {
    mode(r);
    s_rem(x, y)
}
fn s_rem(x: Fb, y: Fb) -> StatusAnd<Fb> {
    let c = ctx();
    arg(x, c.x, "self is passed");
    arg(y, c.y, "the divisor is passed");
    ret()
}
fn s_other(_: Fb, _: Fb) -> StatusAnd<Fb> {
    check(false, "the other remainder is computed");
    ret()
}
fn s_integral(x: Fb, r: Round) -> StatusAnd<Fb> {
    mode(r);
    s_next(x)
}
fn s_next(x: Fb) -> StatusAnd<Fb> {
    arg(x, ctx().x, "self is passed");
    ret()
}
fn s_next_neg(x: Fb) -> StatusAnd<Fb> {
    arg(x, -ctx().x, "the negation of self is passed");
    ret()
}
fn s_from_u(x: u128, r: Round) -> StatusAnd<Fb> {
    mode(r);
    check_eq(x, ctx().n, "the integer is passed");
    ret()
}
fn s_to_u(x: Fb, w: usize, r: Round, e: &mut bool) -> StatusAnd<u128> {
    let c = ctx();
    mode(r);
    arg(x, c.x, "self is passed");
    check(w == 77, "the width is passed");
    *e = true;
    c.st.and(c.n)
}
fn s_inverse(x: Fb) -> Option<Fb> {
    arg(x, ctx().x, "self is passed");
    let c = ctx();
    if c.n & 1 == 0 { Some(Fb::from(c.ret)) } else { None }
}
fn s_str(s: &str, r: Round) -> Result<StatusAnd<Fb>, ParseError> {
    mode(r);
    check(s.len() == 3, "the text is passed");
    Ok(ret())
}
/// a value whose parts overlap nowhere: high part of kind `h`, low part zero or (`wide`) a power of two `gap` binades below
fn some(h: K, p: &'static str, wide: bool) -> D {
    let h = part(h, p);
    if wide && h.k == K::Norm {
        let neg = any_neg("lo.sign");
        let d = any_in("lo.gap", 54, 104);
        let e = (h.exp + 1075) as u128;
        assume(e == [107, 1000, 2046][any_in("lo.at", 0, 2) as usize]);
        let lo = ((neg as u128) << 63) + ((e - d) << 52);
        return D::from_bits(h.bits + (lo << 64));
    }
    D::from_bits(h.bits)
}
fn delegate(op: u128, wide: bool) {
    let any_k = |n: &str| match any_in(n, 0, 3) {
        0 => K::Zero,
        1 => K::Norm,
        2 => K::Inf,
        _ => K::QNan,
    };
    let x = match op {
        6 | 9 => D::ZERO,
        _ if wide => some(K::Norm, "ah", true),
        0..=3 => {
            let x = some(any_k("a.kind"), "ah", false);
            assume(x.category() != Category::Normal || x.ilogb() > -800);
            x
        }
        _ => some(any_kind("a.kind1"), "ah", false),
    };
    let y = match op {
        0..=3 => {
            let y = some(if wide { K::Norm } else { any_k("b.kind") }, "bh", false);
            assume(y.category() != Category::Normal || y.ilogb() > -800);
            y
        }
        _ => D::ZERO,
    };
    let w = if op == 0 {
        let c = input_sm::<T>(K::Norm, "c.sign", "c.exp", "c.frac");
        assume(c.exp > -800);
        D::from_bits(c.bits)
    } else {
        D::ZERO
    };
    // what the fallback computes: one value of either sign, any flags
    let ret = D::from_bits((1u128 << 62) + (any("ret", 1) << 63));
    let st = Status::from_bits_truncate(any("ret.status", 5) as u8);
    let c = Ctx { x, y, w, r: any_round(), ret, st, n: any("n", 128), called: Cell::new(false) };
    join();
    share("ctx", &c);
    let got = match op {
        0 => {
            stub::<fn(Fb, Fb, Fb, Round) -> StatusAnd<Fb>>(Fb::mul_add_r, s_fma);
            x.mul_add_r(y, w, c.r)
        }
        1 => {
            stub::<fn(Fb, Fb, Round) -> StatusAnd<Fb>>(Fb::div_r, s_div);
            x.div_r(y, c.r)
        }
        2 => {
            stub::<fn(Fb, Fb) -> StatusAnd<Fb>>(Fb::ieee_rem, s_rem);
            stub::<fn(Fb, Fb) -> StatusAnd<Fb>>(Fb::c_fmod, s_other);
            x.ieee_rem(y)
        }
        3 => {
            stub::<fn(Fb, Fb) -> StatusAnd<Fb>>(Fb::c_fmod, s_rem);
            stub::<fn(Fb, Fb) -> StatusAnd<Fb>>(Fb::ieee_rem, s_other);
            x.c_fmod(y)
        }
        4 => {
            stub::<fn(Fb, Round) -> StatusAnd<Fb>>(Fb::round_to_integral, s_integral);
            x.round_to_integral(c.r)
        }
        5 => {
            stub::<fn(Fb) -> StatusAnd<Fb>>(Fb::next_up, s_next);
            x.next_up()
        }
        6 => {
            stub::<fn(u128, Round) -> StatusAnd<Fb>>(Fb::from_u128_r, s_from_u);
            D::from_u128_r(c.n, c.r)
        }
        7 => {
            stub::<fn(Fb, usize, Round, &mut bool) -> StatusAnd<u128>>(Fb::to_u128_r, s_to_u);
            let mut e = false;
            let r = x.to_u128_r(77, c.r, &mut e);
            if c.called.get() {
                check_eq(r.value, c.n, "the integer is returned");
                check(e, "is_exact is returned");
            }
            r.status.and(c.ret)
        }
        8 => {
            stub::<fn(Fb) -> Option<Fb>>(Fb::get_exact_inverse, s_inverse);
            let r = x.get_exact_inverse();
            if c.called.get() {
                check(r.is_some() == (c.n & 1 == 0), "an inverse is returned as found");
            }
            c.st.and(r.unwrap_or(c.ret))
        }
        9 => {
            stub::<fn(&str, Round) -> Result<StatusAnd<Fb>, ParseError>>(Fb::from_str_r, s_str);
            match D::from_str_r("1.5", c.r) {
                Ok(v) => v,
                Err(_) => {
                    if c.called.get() {
                        check(false, "the parsed value is returned");
                    }
                    c.st.and(c.ret)
                }
            }
        }
        _ => {
            // next_down mirrors next_up
            stub::<fn(Fb) -> StatusAnd<Fb>>(Fb::next_up, s_next_neg);
            let r = x.next_down();
            r.status.and(-r.value)
        }
    };
    if c.called.get() {
        check_eq(got.value.to_bits(), c.ret.to_bits(), "the result is converted back");
        check_eq(got.status.bits() as u128, c.st.bits() as u128, "the flags are returned");
    }
}
pub mod C21_op {
    use super::*;
    pub fn DoubleDouble() {
        delegate(any_in("op", 0, 10), false)
    }
}
pub mod C21_wide {
    use super::*;
    pub fn DoubleDouble() {
        delegate(any_in("op", 0, 10), true)
    }
}
pub mod C21_round {
    use super::*;
    /// conversion to the fallback and back is the identity on canonical pairs
    pub fn DoubleDouble() {
        let wide = any_in("wide", 0, 1) == 1;
        let x = some(any_kind("a.kind"), "ah", wide);
        let f = Fb::from(x);
        check(f.category() == x.category(), "category of the fallback value");
        check(f.is_negative() == x.is_negative(), "sign of the fallback value");
        let y = D::from(f);
        if x.is_signaling() {
            return;
        }
        check_eq(y.to_bits(), x.to_bits(), "converted back");
    }
}

pub mod C21_side {
    use super::*;
    /// the operation and the fallback's, side by side
    pub fn DoubleDouble() {
        let wide = any_in("wide", 0, 1) == 1;
        let op = any_in("op", 0, 5);
        let x = match op {
            3 => D::ZERO,
            _ => some(if wide { K::Norm } else { any_kind("a.kind") }, "ah", wide),
        };
        let r = any_round();
        join();
        let back = |v: StatusAnd<Fb>| v.map(D::from);
        let (got, want) = match op {
            0 => (x.round_to_integral(r), back(Fb::from(x).round_to_integral(r))),
            1 => (x.next_up(), back(Fb::from(x).next_up())),
            2 => (x.next_down(), back((-Fb::from(x)).next_up().map(|v| -v))),
            3 => {
                // two groups of bits, far apart or not
                let n = (any("n.high", 10) << split(any_in("n.at", 10, 118))) + any("n.low", 10);
                (D::from_u128_r(n, r), back(Fb::from_u128_r(n, r)))
            }
            4 => {
                let w = [1, 31, 64, 65, 128][split(any_in("w", 0, 4)) as usize];
                let (mut e, mut f) = (false, true);
                let got = x.to_u128_r(w, r, &mut e);
                let want = Fb::from(x).to_u128_r(w, r, &mut f);
                check_eq(got.value, want.value, "the fallback's integer");
                check(e == f, "the fallback's exactness");
                (got.status.and(x), want.status.and(x))
            }
            _ => {
                let (got, want) = (x.get_exact_inverse(), Fb::from(x).get_exact_inverse());
                check(got.is_some() == want.is_some(), "an inverse is found as by the fallback");
                match (got, want) {
                    (Some(g), Some(w)) => (Status::OK.and(g), Status::OK.and(D::from(w))),
                    _ => (Status::OK.and(x), Status::OK.and(x)),
                }
            }
        };
        check_eq(got.value.to_bits(), want.value.to_bits(), "the fallback's value");
        check_eq(got.status.bits() as u128, want.status.bits() as u128, "the fallback's flags");
    }
}

// ---------------------------------------------------------------- C33 sums and products of doubles
/// (-1)^neg * s * 2^q as a double nearest to it and the double that is left
pub fn parts(neg: bool, s: Z, q: i32) -> u128 {
    let r = Round::NearestTiesToEven;
    let hi = round::<T>(neg, s, q, r).0;
    if hi & 0x7ff0_0000_0000_0000 == 0x7ff0_0000_0000_0000 {
        return hi;
    }
    let l = z_bitlen(s);
    if l <= 53 {
        return hi;
    }
    let k = l - 53;
    let low = z_low(s, k);
    if z_eq(low, z(0)) {
        return hi;
    }
    let half = z_shl(z(1), k - 1);
    let up = z_lt(half, low) || (z_eq(low, half) && z_eq(z_low(z_shr(s, k), 1), z(1)));
    let lo = if up { round::<T>(!neg, z_sub(z_shl(half, 1), low), q, r).0 } else { round::<T>(neg, low, q, r).0 };
    hi + (lo << 64)
}
fn exact_sum(sub: bool, top: bool) {
    let gap = split(any_in("gap", 0, 130)) as u32;
    let swap = any("swap", 1) == 1;
    let (na, nc) = (any_neg("a.hi.sign"), any_neg("b.hi.sign"));
    let (fa, fc) = (any("a.hi.frac", 52), any("b.hi.frac", 52));
    // the smaller exponent
    let e = if top { 2046 - gap as u128 } else { any_in("exp", 1, 1900) };
    let a = D::from_bits(((na as u128) << 63) + ((e + gap as u128) << 52) + fa);
    let c = D::from_bits(((nc as u128) << 63) + (e << 52) + fc);
    join();
    let got = match (sub, swap) {
        (false, false) => a.add_r(c, Round::NearestTiesToEven),
        (false, true) => c.add_r(a, Round::NearestTiesToEven),
        (true, false) => a.sub_r(-c, Round::NearestTiesToEven),
        (true, true) => c.sub_r(-a, Round::NearestTiesToEven),
    };
    let (x, y) = (z_shl(z(fa + (1 << 52)), gap), z(fc + (1 << 52)));
    let (neg, s) = if na == nc {
        (na, z_add(x, y))
    } else if z_lt(x, y) {
        (nc, z_sub(y, x))
    } else {
        (na, z_sub(x, y))
    };
    if z_eq(s, z(0)) {
        check_eq(got.value.to_bits(), 0, "cancelled sum");
        return;
    }
    check_eq(got.value.to_bits(), parts(neg, s, e as i32 - 1075), "exact sum of two doubles");
}
pub mod C33_sum {
    pub fn DoubleDouble() {
        super::exact_sum(false, false)
    }
}
pub mod C33_difference {
    pub fn DoubleDouble() {
        super::exact_sum(true, false)
    }
}
pub mod C33_top {
    pub fn DoubleDouble() {
        super::exact_sum(false, true)
    }
}
/// a normalised double-double times a power of two, plus itself, minus itself
pub mod C33_scale {
    use super::*;
    pub fn DoubleDouble() {
        let op = any_in("op", 0, 3);
        // the low part is below half a unit of the high part's last place
        let gap = split(any_in("gap", 55, 130));
        let (na, nl, nc) = (any_neg("a.hi.sign"), any_neg("a.lo.sign"), any_neg("b.hi.sign"));
        let (fa, fl) = (any("a.hi.frac", 52), any("a.lo.frac", 52));
        let e = [400, 1000, 1600][split(any_in("exp", 0, 2)) as usize];
        let k = any_in("power", 0, 200);
        let bits = |neg: bool, e: u128, f: u128| ((neg as u128) << 63) + (e << 52) + f;
        let a = D::from_bits(bits(na, e, fa) + (bits(nl, e - gap, fl) << 64));
        let c = D::from_bits(bits(nc, 923 + k, 0));
        let r = Round::NearestTiesToEven;
        join();
        let (got, want) = match op {
            0 => (a.mul_r(c, r), bits(na != nc, e + k - 100, fa) + (bits(nl != nc, e + k - 100 - gap, fl) << 64)),
            1 => (c.mul_r(a, r), bits(na != nc, e + k - 100, fa) + (bits(nl != nc, e + k - 100 - gap, fl) << 64)),
            2 => (a.add_r(a, r), bits(na, e + 1, fa) + (bits(nl, e + 1 - gap, fl) << 64)),
            _ => (a.sub_r(a, r), 0),
        };
        check_eq(got.value.to_bits(), want, "scaled double-double");
    }
}

/// sums of a normalised pair and a double of the same sign at the top of the range
pub mod C33_over {
    use super::*;
    pub fn DoubleDouble() {
        let gap = split(any_in("gap", 54, 107)) as u32;
        let d = split(any_in("exp", 0, 120)) as u32;
        let (neg, nl) = (any_neg("a.hi.sign"), any_neg("a.lo.sign"));
        let (fa, fl, fc) = (any("a.hi.frac", 52), any("a.lo.frac", 52), any("b.hi.frac", 52));
        let bits = |neg: bool, e: u128, f: u128| ((neg as u128) << 63) + (e << 52) + f;
        let a = D::from_bits(bits(neg, 2046, fa) + (bits(nl, 2046 - gap as u128, fl) << 64));
        let c = D::from_bits(bits(neg, 2046 - d as u128, fc));
        let r = Round::NearestTiesToEven;
        let swap = any("swap", 1) == 1;
        join();
        let got = if swap { c.add_r(a, r) } else { a.add_r(c, r) }.value;
        // in units of 2^(1023 - 52 - 120)
        let one = 1 << 52;
        let (x, l, y) = (z_shl(z(one + fa), 120), z_shl(z(one + fl), 120 - gap), z_shl(z(one + fc), 120 - d));
        let s = z_add(y, if neg == nl { z_add(x, l) } else { z_sub(x, l) });
        let top = z_sub(z_shl(z(1), 173), z_shl(z(1), 119));
        // the steps round separately: a unit in the last place either way
        let slack = z_shl(z(1), 120);
        if !z_lt(s, z_add(top, slack)) {
            check_eq(got.to_bits(), bits(neg, 2047, 0), "a sum beyond the largest value");
        }
        if z_lt(s, z_sub(top, slack)) {
            check(got.is_finite(), "a sum within the range");
        }
        if got.is_infinite() {
            check_eq(got.to_bits(), bits(neg, 2047, 0), "an infinity without low part");
        }
    }
}

/// sums of two normalised pairs of the same sign: normalised, and within the format's error bound
pub mod C33_near {
    use super::*;
    pub fn DoubleDouble() {
        let ga = split(any_in("a.gap", 54, 107)) as u32;
        let gc = split(any_in("b.gap", 54, 107)) as u32;
        let d = split(any_in("exp", 0, 110)) as u32;
        let (na, nc) = (any_neg("a.lo.sign"), any_neg("b.lo.sign"));
        let (fa, fl, fc, fm) = (any("a.hi.frac", 52), any("a.lo.frac", 52), any("b.hi.frac", 52), any("b.lo.frac", 52));
        let bits = |neg: bool, e: u128, f: u128| ((neg as u128) << 63) + (e << 52) + f;
        let a = D::from_bits(bits(false, 1500, fa) + (bits(na, 1500 - ga as u128, fl) << 64));
        let c = D::from_bits(bits(false, 1500 - d as u128, fc) + (bits(nc, 1500 - (d + gc) as u128, fm) << 64));
        let r = Round::NearestTiesToEven;
        let swap = any("swap", 1) == 1;
        join();
        let got = if swap { c.add_r(a, r) } else { a.add_r(c, r) }.value.to_bits();
        // in units of 2^(1500 - 1075 - 220)
        let one = 1 << 52;
        let (x, l) = (z_shl(z(one + fa), 220), z_shl(z(one + fl), 220 - ga));
        let (y, m) = (z_shl(z(one + fc), 220 - d), z_shl(z(one + fm), 220 - d - gc));
        let x = if na { z_sub(x, l) } else { z_add(x, l) };
        let y = if nc { z_sub(y, m) } else { z_add(y, m) };
        let s = z_add(x, y);
        let (h, l) = (got & 0xffff_ffff_ffff_ffff, got >> 64);
        check(h >> 63 == 0, "positive");
        let eh = split(h >> 52) as u32;
        check(eh >= 1499 && eh <= 1501, "exponent");
        if eh < 1499 || eh > 1501 {
            return;
        }
        let zh = z_shl(z(one + (h & (one - 1))), 220 + eh - 1500);
        let lneg = l >> 63 == 1;
        let el = split((l >> 52) & 0x7ff) as u32;
        if el < 1280 {
            check(l & (one - 1) == 0 && el == 0, "no low part");
            return;
        }
        let zl = z_shl(z(one + (l & (one - 1))), 220 + el - 1500);
        check(!z_lt(z_shl(z(1), 219 + eh - 1500), zl), "low part below half a unit");
        let v = if lneg { z_sub(zh, zl) } else { z_add(zh, zl) };
        let e = if z_lt(v, s) { z_sub(s, v) } else { z_sub(v, s) };
        check(!z_lt(z_shl(z(1), 220 - 52), e), "error bound");
    }
}

/// as C33_near where the sum of the high parts is about the largest value
pub mod C33_brink {
    use super::*;
    pub fn DoubleDouble() {
        let ga = split(any_in("a.gap", 54, 107)) as u32;
        let gc = split(any_in("b.gap", 54, 107)) as u32;
        let d = split(any_in("exp", 0, 60)) as u32;
        let (na, nc) = (any_neg("a.lo.sign"), any_neg("b.lo.sign"));
        let fl = any("a.lo.frac", 52);
        let bits = |neg: bool, e: u128, f: u128| ((neg as u128) << 63) + (e << 52) + f;
        let one = 1 << 52;
        // the high parts add up to 2^1024, a few units more or less
        let k = any_in("units", 0, 8);
        let (fc, m) = if d > 52 { (any("b.hi.frac", 3) << 49, one - 1) } else { let f = any("b.hi.frac", 4) << if d < 48 { 48 } else { d }; (f, one - ((one + f) >> d) - 4 + k) };
        assume(d < 49 || d > 52);
        assume(d > 0 && m < one);
        let fm = any("b.lo.frac", 3) << 49;
        let a = D::from_bits(bits(false, 2046, m) + (bits(na, 2046 - ga as u128, fl) << 64));
        let c = D::from_bits(bits(false, 2046 - d as u128, fc) + (bits(nc, 2046 - (d + gc) as u128, fm) << 64));
        let r = Round::NearestTiesToEven;
        let swap = any("swap", 1) == 1;
        join();
        let got = if swap { c.add_r(a, r) } else { a.add_r(c, r) }.value.to_bits();
        // in units of 2^(1023 - 52 - 170)
        let (x, l) = (z_shl(z(one + m), 170), z_shl(z(one + fl), 170 - ga));
        let (y, m) = (z_shl(z(one + fc), 170 - d), z_shl(z(one + fm), 170 - d - gc));
        let x = if na { z_sub(x, l) } else { z_add(x, l) };
        let y = if nc { z_sub(y, m) } else { z_add(y, m) };
        let s = z_add(x, y);
        // the largest value, and half a unit of its high part more
        let top = z_shl(z(2 * one - 1), 170);
        let (h, l) = (got & 0xffff_ffff_ffff_ffff, got >> 64);
        // (rounding the low part separately may push the sum over the top)
        if !z_lt(s, z_add(top, z_shl(z((1 << 20) - 1), 149))) {
            return;
        }
        let eh = split(h >> 52) as u32;
        // (and between numbers of about the same size the low parts are rounded into the smaller one first)
        check(eh == 2046 || d < 49 && h == 0x7ff << 52, "exponent");
        if eh != 2046 {
            return;
        }
        let zh = z_shl(z(one + (h & (one - 1))), 170);
        let lneg = l >> 63 == 1;
        let el = split((l >> 52) & 0x7ff) as u32;
        if el < 1880 {
            check(l & (one - 1) == 0 && el == 0, "no low part");
            return;
        }
        let zl = z_shl(z(one + (l & (one - 1))), 170 + el - 2046);
        check(!z_lt(z_shl(z(1), 169), zl), "low part below half a unit");
        let v = if lneg { z_sub(zh, zl) } else { z_add(zh, zl) };
        let e = if z_lt(v, s) { z_sub(s, v) } else { z_sub(v, s) };
        check(!z_lt(z_shl(z(1), 170 - 52), e), "error bound");
    }
}

// ---------------------------------------------------------------- C34 conversions keep the value
/// s with the lowest k bits rounded away in the mode, and whether they were zero
fn drop_bits(neg: bool, s: Z, k: u32, r: Round) -> (Z, bool) {
    let (q, rem) = (z_shr(s, k), z_low(s, k));
    if k == 0 || z_eq(rem, z(0)) {
        return (q, true);
    }
    let half = z_shl(z(1), k - 1);
    let up = match r {
        Round::TowardZero => false,
        Round::TowardPositive => !neg,
        Round::TowardNegative => neg,
        Round::NearestTiesToAway => !z_lt(rem, half),
        Round::NearestTiesToEven => z_lt(half, rem) || (z_eq(rem, half) && z_eq(z_low(q, 1), z(1))),
    };
    (if up { z_add(q, z(1)) } else { q }, false)
}
/// the double-double of (-1)^neg * s * 2^q, s rounded to 106 bits in the mode
pub fn wide(neg: bool, s: Z, q: i32, r: Round) -> (u128, Status) {
    let l = z_bitlen(s);
    if l <= 106 {
        return (parts(neg, s, q), Status::OK);
    }
    let k = l - 106;
    let (s, exact) = drop_bits(neg, s, k, r);
    (parts(neg, s, q + k as i32), if exact { Status::OK } else { Status::INEXACT })
}
pub mod C34_int {
    use super::*;
    /// every integer of each bit length
    pub fn DoubleDouble() {
        let r = any_round();
        let len = split(any_in("len", 1, 128)) as u32;
        let signed = any("signed", 1) == 1;
        assume(!signed || len < 128);
        let neg = signed && any("neg", 1) == 1;
        let n = (1u128 << (len - 1)) + any("low", len - 1);
        join();
        let got = if signed { D::from_i128_r(if neg { -(n as i128) } else { n as i128 }, r) } else { D::from_u128_r(n, r) };
        let want = wide(neg, z(n), 0, r);
        check_eq(got.value.to_bits(), want.0, "the integer");
        check_eq(got.status.bits() as u128, want.1.bits() as u128, "flags");
    }
}
/// a fraction of n bits with exactly z trailing zeros
fn tail(name: &str, n: u32) -> u128 {
    let tz = split(any_in("tz", 0, 52));
    assume(tz <= n as u128);
    if tz == n as u128 {
        0
    } else {
        ((any(name, n - tz as u32 - 1) << 1) + 1) << tz
    }
}
/// a normalised pair within 106 bits: (pair, negative, s) for the value s * 2^(exponent of the high part - 106)
fn pair(top: u128) -> (D, bool, Z, i32) {
    let gap = split(any_in("gap", 54, 106)) as u32;
    let na = any_neg("a.hi.sign");
    let e = top + 1023;
    let bits = |neg: bool, e: u128, f: u128| ((neg as u128) << 63) + (e << 52) + f;
    let q = top as i32 - 106;
    if gap == 106 {
        let fh = tail("a.hi.frac", 52);
        return (D::from_bits(bits(na, e, fh)), na, z_shl(z(fh + (1 << 52)), 54), q);
    }
    let nl = any_neg("a.lo.sign");
    let fh = any("a.hi.frac", 52);
    let fl = tail("a.lo.frac", 105 - gap);
    let l = bits(nl, e - gap as u128, fl << (gap - 53));
    let (sh, sl) = (z_shl(z(fh + (1 << 52)), 54), z_add(z_shl(z(fl), 1), z(1 << (106 - gap))));
    let s = if na == nl { z_add(sh, sl) } else { z_sub(sh, sl) };
    (D::from_bits(bits(na, e, fh) + (l << 64)), na, s, q)
}
/// the value rounded to an integer, and whether it was one
fn integer(neg: bool, s: Z, q: i32, r: Round) -> (Z, bool) {
    if q >= 0 {
        (z_shl(s, q as u32), true)
    } else {
        drop_bits(neg, s, -q as u32, r)
    }
}
pub mod C34_to {
    use super::*;
    pub fn DoubleDouble() {
        let r = any_round();
        let w = [32, 64, 106, 128][split(any_in("width", 0, 3)) as usize];
        let (x, neg, s, q) = pair(split(any_in("top", 0, 128)));
        let signed = any("signed", 1) == 1;
        join();
        let mut exact = any("exact", 1) == 1;
        let (n, ex) = integer(neg, s, q, r);
        let max = z_shl(z(1), if signed { w as u32 - 1 } else { w as u32 });
        let fits = if neg { if signed { !z_lt(max, n) } else { z_eq(n, z(0)) } } else { z_lt(n, max) };
        let st = if !fits {
            Status::INVALID_OP
        } else if ex {
            Status::OK
        } else {
            Status::INEXACT
        };
        if signed {
            let got = x.to_i128_r(w, r, &mut exact);
            let lim = if neg { z_neg(max) } else { z_sub(max, z(1)) };
            check_eq(got.value as u128, z_i128(if !fits { lim } else if neg { z_neg(n) } else { n }) as u128, "signed integer");
            check_eq(got.status.bits() as u128, st.bits() as u128, "flags");
        } else {
            let got = x.to_u128_r(w, r, &mut exact);
            check_eq(got.value, z_u128(if fits { n } else if neg { z(0) } else { z_sub(max, z(1)) }), "unsigned integer");
            check_eq(got.status.bits() as u128, st.bits() as u128, "flags");
        }
        check(exact == (fits && ex), "is_exact");
    }
}
pub mod C34_round {
    use super::*;
    pub fn DoubleDouble() {
        let r = any_round();
        let (x, neg, s, q) = pair(split(any_in("top", 0, 110)));
        join();
        let got = x.round_to_integral(r);
        let (n, ex) = integer(neg, s, q, r);
        if z_eq(n, z(0)) {
            check_eq(got.value.to_bits(), (neg as u128) << 63, "rounds to zero");
        } else {
            check_eq(got.value.to_bits(), wide(neg, n, 0, r).0, "rounds to an integer");
        }
        check_eq(got.status.bits() as u128, (if ex { Status::OK } else { Status::INEXACT }).bits() as u128, "flags");
    }
}
