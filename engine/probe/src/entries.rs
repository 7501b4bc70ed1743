#![allow(non_snake_case)]
use crate::rt::*;
use crate::spec::*;
use core::cmp::Ordering;
use rustc_apfloat::*;

macro_rules! fns {
    ($($name:ident = $body:ident: $($t:ident),*;)*) => { $(
        pub mod $name { use super::*; $( pub fn $t() { $body::<$t>() } )* }
    )* };
}

fn bits_roundtrip<T: Fmt>() {
    let k = any_kind("kind");
    let i = a::<T>(k);
    let x = val::<T>(i);
    check_eq(x.to_bits(), i.bits, "to_bits(from_bits(b))");
    let cat = match k {
        K::Zero => Category::Zero,
        K::Inf => Category::Infinity,
        K::QNan | K::SNan => Category::NaN,
        _ => Category::Normal,
    };
    check(x.category() == cat, "category");
    check(x.is_negative() == i.neg, "is_negative");
    check(x.is_signaling() == (k == K::SNan), "is_signaling");
    check(x.is_denormal() == (k == K::Sub), "is_denormal");
}
fn add_fin<T: Fmt>() {
    sum_fin::<T>(false)
}
fn sub_fin<T: Fmt>() {
    sum_fin::<T>(true)
}
fn sum_fin<T: Fmt>(sub: bool) {
    let (x, y) = (a::<T>(any_fin("a.kind")), b::<T>(any_fin("b.kind")));
    let r = any_round();
    let (vx, vy) = (val::<T>(x), val::<T>(y));
    join();
    let got = if sub { vx.sub_r(vy, r) } else { vx.add_r(vy, r) };
    let mut y = y;
    y.neg = y.neg != sub;
    // an operand more than P+3 binades below only matters by being nonzero
    let (mut xs, mut xe, mut ys, mut ye) = (x.sig, x.exp, y.sig, y.exp);
    let far = T::P as i32 + 3;
    if xe > ye + far && xs >> (T::P - 1) == 1 {
        ys = 1;
        ye = xe - 4;
    } else if ye > xe + far && ys >> (T::P - 1) == 1 {
        xs = 1;
        xe = ye - 4;
    }
    let e = if xe < ye { xe } else { ye };
    let v1 = z_shl(z(xs), (xe - e) as u32);
    let v2 = z_shl(z(ys), (ye - e) as u32);
    let s = z_add(if x.neg { z_neg(v1) } else { v1 }, if y.neg { z_neg(v2) } else { v2 });
    let want = if z_eq(s, z(0)) {
        (signed::<T>(if x.neg == y.neg { x.neg } else { r == Round::TowardNegative }, 0), Status::OK)
    } else if z_lt(s, z(0)) {
        round::<T>(true, z_neg(s), e, r)
    } else {
        round::<T>(false, s, e, r)
    };
    result::<T>(got, want, "sum");
}
fn mul_fin<T: Fmt>() {
    let (x, y) = (a::<T>(any_fin("a.kind")), b::<T>(any_fin("b.kind")));
    let r = any_round();
    let (vx, vy) = (val::<T>(x), val::<T>(y));
    join();
    let got = vx.mul_r(vy, r);
    let want = round::<T>(x.neg != y.neg, z_mul(z(x.sig), z(y.sig)), x.exp + y.exp, r);
    result::<T>(got, want, "product");
}

// ---------------------------------------------------------------- C02 NaN operands
fn nan_ops<T: Fmt>() {
    let (ka, kb) = (any_kind("a.kind"), any_kind("b.kind"));
    assume(matches!(ka, K::QNan | K::SNan) || matches!(kb, K::QNan | K::SNan));
    let (x, y) = (a::<T>(ka), b::<T>(kb));
    let r = any_round();
    let (vx, vy) = (val::<T>(x), val::<T>(y));
    let first = if x.nan() { x } else { y };
    let st = if x.k == K::SNan || y.k == K::SNan { Status::INVALID_OP } else { Status::OK };
    let got = match any_in("op", 0, 6) {
        0 => vx.add_r(vy, r),
        1 => vx.sub_r(vy, r),
        2 => vx.mul_r(vy, r),
        3 => vx.div_r(vy, r),
        4 => vx.ieee_rem(vy),
        5 => vx.c_fmod(vy),
        _ => {
            assume(x.nan() && kb == K::Zero);
            vx.round_to_integral(r)
        }
    };
    check(got.value.is_nan() && !got.value.is_signaling(), "result is a quiet NaN");
    result::<T>(got, (quiet_arith::<T>(first), st), "propagated NaN");
}
// ---------------------------------------------------------------- C03 infinities and zeros
fn special_ops<T: Fmt>() {
    let (ka, kb) = (any_kind("a.kind"), any_kind("b.kind"));
    let nan1 = matches!(ka, K::QNan | K::SNan) || matches!(kb, K::QNan | K::SNan);
    assume(!nan1);
    assume(matches!(ka, K::Zero | K::Inf) || matches!(kb, K::Zero | K::Inf));
    let (x, y) = (a::<T>(ka), b::<T>(kb));
    let r = any_round();
    let (vx, vy) = (val::<T>(x), val::<T>(y));
    let inv = (nan::<T>(), Status::INVALID_OP);
    let neg = x.neg != y.neg;
    let addition = |y: In| {
        if ka == K::Inf && kb == K::Inf {
            if x.neg == y.neg { (x.bits, Status::OK) } else { inv }
        } else if ka == K::Inf {
            (x.bits, Status::OK)
        } else if kb == K::Inf {
            (y.bits, Status::OK)
        } else if kb == K::Zero && ka == K::Zero {
            let s = if x.neg == y.neg { x.neg } else { r == Round::TowardNegative };
            (signed::<T>(s, 0), Status::OK)
        } else if kb == K::Zero {
            (x.bits, Status::OK)
        } else {
            (y.bits, Status::OK)
        }
    };
    match any_in("op", 0, 5) {
        0 => result::<T>(vx.add_r(vy, r), addition(y), "sum"),
        1 => result::<T>(vx.sub_r(vy, r), addition(minus::<T>(y)), "difference"),
        2 => {
            let want = if ka == K::Inf && kb == K::Zero || ka == K::Zero && kb == K::Inf {
                inv
            } else if ka == K::Inf || kb == K::Inf {
                (signed::<T>(neg, T::INF), Status::OK)
            } else {
                (signed::<T>(neg, 0), Status::OK)
            };
            result::<T>(vx.mul_r(vy, r), want, "product")
        }
        3 => {
            let want = if ka == K::Inf && kb == K::Inf || ka == K::Zero && kb == K::Zero {
                inv
            } else if ka == K::Inf {
                (signed::<T>(neg, T::INF), Status::OK)
            } else if kb == K::Inf || ka == K::Zero {
                (signed::<T>(neg, 0), Status::OK)
            } else {
                (signed::<T>(neg, T::INF), Status::DIV_BY_ZERO)
            };
            result::<T>(vx.div_r(vy, r), want, "quotient")
        }
        op => {
            let want = if ka == K::Inf || kb == K::Zero { inv } else { (x.bits, Status::OK) };
            result::<T>(if op == 4 { vx.ieee_rem(vy) } else { vx.c_fmod(vy) }, want, "remainder")
        }
    }
}
// ---------------------------------------------------------------- C04 special operands of the fused operation
fn fma_special<T: Fmt>() {
    let (ka, kb, kc) = (any_kind("a.kind"), any_kind("b.kind"), any_kind("c.kind"));
    let isnan = |k: K| matches!(k, K::QNan | K::SNan);
    let fin = |k: K| matches!(k, K::Sub | K::Norm);
    assume(!(fin(ka) && fin(kb) && !isnan(kc) && kc != K::Inf));
    let (x, y, w) = (a::<T>(ka), b::<T>(kb), c::<T>(kc));
    let r = any_round();
    let got = val::<T>(x).mul_add_r(val::<T>(y), val::<T>(w), r);
    let neg = x.neg != y.neg;
    let inv = (nan::<T>(), Status::INVALID_OP);
    let want = if x.nan() || y.nan() {
        let s = ka == K::SNan || kb == K::SNan || kc == K::SNan;
        (quiet_arith::<T>(if x.nan() { x } else { y }), if s { Status::INVALID_OP } else { Status::OK })
    } else if ka == K::Inf && kb == K::Zero || ka == K::Zero && kb == K::Inf {
        inv
    } else if w.nan() {
        (quiet_arith::<T>(w), if kc == K::SNan { Status::INVALID_OP } else { Status::OK })
    } else if ka == K::Inf || kb == K::Inf {
        if kc == K::Inf && w.neg != neg { inv } else { (signed::<T>(neg, T::INF), Status::OK) }
    } else if kc == K::Inf {
        (w.bits, Status::OK)
    } else if kc == K::Zero {
        // the product is a zero
        (signed::<T>(if neg == w.neg { neg } else { r == Round::TowardNegative }, 0), Status::OK)
    } else {
        (w.bits, Status::OK)
    };
    result::<T>(got, want, "fused result");
}
// ---------------------------------------------------------------- C12 comparisons
fn compare<T: Fmt>() {
    let (x, y) = (a::<T>(any_kind("a.kind")), b::<T>(any_kind("b.kind")));
    let (vx, vy) = (val::<T>(x), val::<T>(y));
    check(vx.bitwise_eq(vy) == (x.bits == y.bits), "bitwise_eq");
    let got = vx.partial_cmp(&vy);
    if x.nan() || y.nan() {
        check(got.is_none(), "NaN is unordered");
        check(!(vx == vy) && vx != vy && !(vx < vy) && !(vx <= vy) && !(vx > vy) && !(vx >= vy), "operators on NaN");
        return;
    }
    let m = x.mag.cmp(&y.mag);
    let want = if x.mag == 0 && y.mag == 0 {
        Ordering::Equal
    } else if x.neg != y.neg {
        if x.neg { Ordering::Less } else { Ordering::Greater }
    } else if x.neg {
        m.reverse()
    } else {
        m
    };
    check(got == Some(want), "partial_cmp");
    check((vx == vy) == (want == Ordering::Equal), "==");
    check((vx != vy) == (want != Ordering::Equal), "!=");
    check((vx < vy) == (want == Ordering::Less), "<");
    check((vx <= vy) == (want != Ordering::Greater), "<=");
    check((vx > vy) == (want == Ordering::Greater), ">");
    check((vx >= vy) == (want != Ordering::Less), ">=");
    if x.fin() && y.fin() {
        check(vx.cmp_abs_normal(vy) == m, "cmp_abs_normal");
    }
}
// ---------------------------------------------------------------- C13 min and max
fn min_max<T: Fmt>() {
    let (x, y) = (a::<T>(any_kind("a.kind")), b::<T>(any_kind("b.kind")));
    let (vx, vy) = (val::<T>(x), val::<T>(y));
    let (mn, mx, mi, ma) = (vx.min(vy).to_bits(), vx.max(vy).to_bits(), vx.minimum(vy).to_bits(), vx.maximum(vy).to_bits());
    if x.nan() || y.nan() {
        if !x.nan() || !y.nan() {
            let other = if x.nan() { y } else { x };
            check_eq(mn, other.bits, "min ignores NaN");
            check_eq(mx, other.bits, "max ignores NaN");
        } else {
            check(mn == x.bits || mn == y.bits, "min of NaNs is an operand");
            check(mx == x.bits || mx == y.bits, "max of NaNs is an operand");
        }
        let first = if x.nan() { x } else { y };
        check_eq(mi, first.bits, "minimum propagates NaN");
        check_eq(ma, first.bits, "maximum propagates NaN");
        return;
    }
    // numeric order, with -0 below +0 when `zero` is set
    let less = |x: In, y: In, zero: bool| {
        if x.mag == 0 && y.mag == 0 {
            zero && x.neg && !y.neg
        } else if x.neg != y.neg {
            x.neg
        } else if x.neg {
            y.mag < x.mag
        } else {
            x.mag < y.mag
        }
    };
    if less(x, y, true) {
        check_eq(mi, x.bits, "minimum");
        check_eq(ma, y.bits, "maximum");
    } else {
        check_eq(mi, y.bits, "minimum");
        check_eq(ma, x.bits, "maximum");
    }
    if less(x, y, false) {
        check_eq(mn, x.bits, "min");
        check_eq(mx, y.bits, "max");
    } else if less(y, x, false) {
        check_eq(mn, y.bits, "min");
        check_eq(mx, x.bits, "max");
    } else {
        check(mn == x.bits || mn == y.bits, "min of equals is an operand");
        check(mx == x.bits || mx == y.bits, "max of equals is an operand");
    }
}
// ---------------------------------------------------------------- C14 sign operations, predicates
fn sign_ops<T: Fmt>() {
    let x = a::<T>(any_kind("a.kind"));
    let v = val::<T>(x);
    check_eq((-v).to_bits(), signed::<T>(!x.neg, x.mag), "neg");
    check_eq((-(-v)).to_bits(), x.bits, "neg of neg");
    check_eq(v.abs().to_bits(), x.mag, "abs");
    let o = b::<T>(any_kind("b.kind"));
    let s = o.neg;
    let o = val::<T>(o);
    check_eq(v.copy_sign(o).to_bits(), signed::<T>(s, x.mag), "copy_sign");
}
fn predicates<T: Fmt>() {
    let x = a::<T>(any_kind("a.kind"));
    let v = val::<T>(x);
    let k = x.k;
    check(v.is_negative() == x.neg, "is_negative");
    check(v.is_nan() == x.nan(), "is_nan");
    check(v.is_infinite() == (k == K::Inf), "is_infinite");
    check(v.is_zero() == (k == K::Zero), "is_zero");
    check(v.is_non_zero() == (k != K::Zero), "is_non_zero");
    check(v.is_denormal() == (k == K::Sub), "is_denormal");
    check(v.is_signaling() == (k == K::SNan), "is_signaling");
    check(v.is_finite() == (k == K::Zero || x.fin()), "is_finite");
    check(v.is_normal() == (k == K::Norm), "is_normal");
    check(v.is_finite_non_zero() == x.fin(), "is_finite_non_zero");
    check(v.is_pos_zero() == (k == K::Zero && !x.neg), "is_pos_zero");
    check(v.is_neg_zero() == (k == K::Zero && x.neg), "is_neg_zero");
    check(v.is_pos_infinity() == (k == K::Inf && !x.neg), "is_pos_infinity");
    check(v.is_neg_infinity() == (k == K::Inf && x.neg), "is_neg_infinity");
    check(v.is_smallest() == (x.mag == 1), "is_smallest");
    check(v.is_smallest_normalized() == (x.mag == T::MINNORM), "is_smallest_normalized");
    check(v.is_largest() == (x.mag == T::LARGEST), "is_largest");
    check(v.category() == match k {
        K::Zero => Category::Zero,
        K::Inf => Category::Infinity,
        K::QNan | K::SNan => Category::NaN,
        _ => Category::Normal,
    }, "category");
}
// ---------------------------------------------------------------- C15 neighbours
fn step<T: Fmt>() {
    let x = a::<T>(any_kind("a.kind"));
    let v = val::<T>(x);
    let up = any("up", 1) == 1;
    let got = if up { v.next_up() } else { v.next_down() };
    // magnitude grows when stepping away from zero
    let want = if x.k == K::SNan {
        (T::NAN, Status::INVALID_OP)
    } else if x.k == K::QNan {
        (x.bits, Status::OK)
    } else if x.mag == 0 {
        (signed::<T>(!up, 1), Status::OK)
    } else if x.neg != up {
        // away from zero
        if x.k == K::Inf {
            (x.bits, Status::OK)
        } else if x.mag == T::LARGEST {
            (signed::<T>(x.neg, T::INF), Status::OK)
        } else if T::X87 && x.sig == (1 << 63) - 1 {
            (signed::<T>(x.neg, T::MINNORM), Status::OK)
        } else if T::X87 && x.k == K::Norm && x.sig == ((1 << 63) - 1) * 2 + 1 {
            (x.bits + 1 + (1 << 63), Status::OK)
        } else {
            (x.bits + 1, Status::OK)
        }
    } else if x.k == K::Inf {
        (signed::<T>(x.neg, T::LARGEST), Status::OK)
    } else if T::X87 && x.mag == T::MINNORM {
        (signed::<T>(x.neg, (1 << 63) - 1), Status::OK)
    } else if T::X87 && x.k == K::Norm && x.sig == 1 << 63 {
        (x.bits - 1 - (1 << 63), Status::OK)
    } else {
        (x.bits - 1, Status::OK)
    };
    if x.k == K::SNan {
        check(got.value.is_nan() && !got.value.is_signaling(), "quiet NaN");
        check(got.value.is_negative() == x.neg, "sign of NaN");
        check_eq(got.status.bits() as u128, want.1.bits() as u128, "flags");
    } else {
        result::<T>(got, want, "neighbour");
    }
}
// ---------------------------------------------------------------- C09 from integers
fn from_u<T: Fmt>() {
    let x = any("x", 128);
    let r = any_round();
    join();
    let got = T::F::from_u128_r(x, r);
    let want = if x == 0 { (0, Status::OK) } else { round::<T>(false, z(x), 0, r) };
    result::<T>(got, want, "from_u128_r");
}
fn from_i<T: Fmt>() {
    let x = any_iin("x", i128::MIN, i128::MAX);
    let r = any_round();
    join();
    let got = T::F::from_i128_r(x, r);
    let want = if x == 0 {
        (0, Status::OK)
    } else if x < 0 {
        round::<T>(true, z_neg(zi(x)), 0, r)
    } else {
        round::<T>(false, zi(x), 0, r)
    };
    result::<T>(got, want, "from_i128_r");
}
// ---------------------------------------------------------------- C10 to integers
/// (integer part after rounding, inexact) of the magnitude; None when it is at least 2^130
fn to_int(neg: bool, sig: u128, exp: i32, r: Round) -> Option<(Z, bool)> {
    let v = z(sig);
    if exp > 130 {
        return None;
    }
    if exp >= 0 {
        return Some((z_shl(v, exp as u32), false));
    }
    let s = (-exp) as u32;
    if s > 130 {
        let up = match r {
            Round::TowardPositive => !neg,
            Round::TowardNegative => neg,
            _ => false,
        };
        return Some((z(up as u128), true));
    }
    let q = z_shr(v, s);
    let rem = z_low(v, s);
    if z_eq(rem, z(0)) {
        return Some((q, false));
    }
    let half = z_shl(z(1), s - 1);
    let up = match r {
        Round::TowardZero => false,
        Round::TowardPositive => !neg,
        Round::TowardNegative => neg,
        Round::NearestTiesToAway => !z_lt(rem, half),
        Round::NearestTiesToEven => z_lt(half, rem) || (z_eq(rem, half) && z_eq(z_low(q, 1), z(1))),
    };
    Some((if up { z_add(q, z(1)) } else { q }, true))
}
fn to_u<T: Fmt>() {
    let x = a::<T>(any_kind("a.kind"));
    let w = any_in("width", 1, 128);
    let r = any_round();
    let mut exact = true;
    let got = val::<T>(x).to_u128_r(w as usize, r, &mut exact);
    let max = z_sub(z_shl(z(1), w as u32), z(1));
    let bound = if x.neg { z(0) } else { max };
    let (want, st, ex) = match x.k {
        K::QNan | K::SNan => (z(0), Status::INVALID_OP, false),
        K::Inf => (bound, Status::INVALID_OP, false),
        K::Zero => (z(0), Status::OK, !x.neg),
        _ => match to_int(x.neg, x.sig, x.exp, r) {
            None => (bound, Status::INVALID_OP, false),
            Some((n, inexact)) => {
                if z_lt(bound, n) {
                    (bound, Status::INVALID_OP, false)
                } else {
                    (n, if inexact { Status::INEXACT } else { Status::OK }, !inexact)
                }
            }
        },
    };
    check_eq(got.value, z_u128(want), "to_u128_r");
    check_eq(got.status.bits() as u128, st.bits() as u128, "flags");
    check(exact == ex, "is_exact");
}
fn to_i<T: Fmt>() {
    let x = a::<T>(any_kind("a.kind"));
    let w = any_in("width", 1, 128);
    let r = any_round();
    let mut exact = true;
    let got = val::<T>(x).to_i128_r(w as usize, r, &mut exact);
    let half = z_shl(z(1), w as u32 - 1);
    let bound = if x.neg { half } else { z_sub(half, z(1)) };
    let (want, st, ex) = match x.k {
        K::QNan | K::SNan => (z(0), Status::INVALID_OP, false),
        K::Inf => (bound, Status::INVALID_OP, false),
        K::Zero => (z(0), Status::OK, !x.neg),
        _ => match to_int(x.neg, x.sig, x.exp, r) {
            None => (bound, Status::INVALID_OP, false),
            Some((n, inexact)) => {
                if z_lt(bound, n) {
                    (bound, Status::INVALID_OP, false)
                } else {
                    (n, if inexact { Status::INEXACT } else { Status::OK }, !inexact)
                }
            }
        },
    };
    check_eq_i(got.value, z_i128(if x.neg { z_neg(want) } else { want }), "to_i128_r");
    check_eq(got.status.bits() as u128, st.bits() as u128, "flags");
    check(exact == ex, "is_exact");
}
// ---------------------------------------------------------------- C22 rounding to integral
fn integral<T: Fmt>() {
    let x = a::<T>(any_kind("a.kind"));
    let r = any_round();
    let v = val::<T>(x);
    if !x.fin() || x.exp >= 0 {
        if !x.nan() {
            result::<T>(v.round_to_integral(r), (x.bits, Status::OK), "unchanged");
        }
        check(v.is_integer() == (x.fin() || x.k == K::Zero), "is_integer");
        return;
    }
    let got = v.round_to_integral(r);
    let (n, inexact) = to_int(x.neg, x.sig, x.exp, r).unwrap();
    let st = if inexact { Status::INEXACT } else { Status::OK };
    let want = if z_eq(n, z(0)) { signed::<T>(x.neg, 0) } else { round::<T>(x.neg, n, 0, r).0 };
    result::<T>(got, (want, st), "round_to_integral");
    check(v.is_integer() == !inexact, "is_integer");
}
// ---------------------------------------------------------------- C23 exact inverse
fn inverse<T: Fmt>() {
    let x = a::<T>(any_kind("a.kind"));
    let got = val::<T>(x).get_exact_inverse();
    let e = x.exp + T::P as i32 - 1;
    let ok = x.k == K::Norm && x.sig == 1 << (T::P - 1) && -e <= T::EMAX && -e >= T::EMIN;
    check(got.is_some() == ok, "an inverse exists");
    if let Some(g) = got {
        check_eq(g.to_bits(), round::<T>(x.neg, z(1), -e, Round::NearestTiesToEven).0, "inverse");
    }
}
// ---------------------------------------------------------------- C16 scalbn, ilogb, frexp
fn log<T: Fmt>() {
    let x = a::<T>(any_kind("a.kind"));
    let got = val::<T>(x).ilogb() as i128;
    let want = match x.k {
        K::Zero => IEK_ZERO as i128,
        K::Inf => IEK_INF as i128,
        K::QNan | K::SNan => IEK_NAN as i128,
        _ => (z_bitlen(z(x.sig)) as i32 - 1 + x.exp) as i128,
    };
    check_eq_i(got, want, "ilogb");
}
fn frexp<T: Fmt>() {
    let x = a::<T>(any_kind("a.kind"));
    let r = any_round();
    let mut e = 0;
    let got = val::<T>(x).frexp_r(&mut e, r).to_bits();
    match x.k {
        K::Zero => {
            check_eq(got, x.bits, "fraction of zero");
            check_eq_i(e as i128, 0, "exponent of zero");
        }
        K::Inf => {
            check_eq(got, x.bits, "fraction of infinity");
            check_eq_i(e as i128, IEK_INF as i128, "exponent of infinity");
        }
        K::QNan | K::SNan => {
            check_eq(got, quiet_arith::<T>(x), "fraction of NaN");
            check_eq_i(e as i128, IEK_NAN as i128, "exponent of NaN");
        }
        _ => {
            let len = z_bitlen(z(x.sig)) as i32;
            check_eq_i(e as i128, (len + x.exp) as i128, "exponent");
            check_eq(got, round::<T>(x.neg, z(x.sig), -len, r).0, "fraction");
        }
    }
}
fn scale<T: Fmt>() {
    let x = a::<T>(any_kind("a.kind"));
    let n = any_iin("n", ExpInt::MIN as i128, ExpInt::MAX as i128);
    let r = any_round();
    join();
    let got = val::<T>(x).scalbn_r(n as ExpInt, r).to_bits();
    if x.nan() {
        check_eq(got, quiet_arith::<T>(x), "scaled NaN");
        return;
    }
    if !x.fin() {
        check_eq(got, x.bits, "scaled infinity or zero");
        return;
    }
    let span = (T::EMAX - T::EMIN + T::P as i32 + 2) as i128;
    let want = if n > span {
        overflow::<T>(x.neg, r).0
    } else if n < -span {
        let up = match r {
            Round::TowardPositive => !x.neg,
            Round::TowardNegative => x.neg,
            _ => false,
        };
        signed::<T>(x.neg, up as u128)
    } else {
        round::<T>(x.neg, z(x.sig), (x.exp as i128 + n) as i32, r).0
    };
    check_eq(got, want, "scaled value");
}


// ---------------------------------------------------------------- C11 conversions
fn conv<T: Fmt, U: Fmt>()
where
    T::F: FloatConvert<U::F>,
{
    let x = a::<T>(any_kind("a.kind"));
    let r = any_round();
    let mut lost = true;
    let v = val::<T>(x);
    join();
    let got: StatusAnd<U::F> = v.convert_r(r, &mut lost);
    let sign = |m: u128| signed::<U>(x.neg, m);
    match x.k {
        K::Zero => {
            result::<U>(got, (sign(0), Status::OK), "zero");
            check(!lost, "zero: nothing lost");
        }
        K::Inf => {
            let st = if U::NANONLY { Status::INEXACT } else { Status::OK };
            result::<U>(got, (sign(U::INF), st), "infinity");
            check(lost == U::NANONLY, "infinity: information lost");
        }
        K::QNan | K::SNan => {
            let f = quiet::<T>(x) & ((1 << (T::P - 1)) - 1);
            let st = if x.k == K::SNan { Status::INVALID_OP } else { Status::OK };
            let (m, cut) = if U::NANONLY {
                (U::NAN, !T::NANONLY)
            } else if U::P >= T::P {
                (U::INF + (f << (U::P - T::P)), false)
            } else {
                let d = T::P - U::P;
                (U::INF + (f >> d), !T::NANONLY && f & ((1 << d) - 1) != 0)
            };
            result::<U>(got, (sign(m), st), "NaN");
            // (an x87 signalling NaN converted elsewhere is always reported, like LLVM does)
            let cut = cut || T::X87 && !U::X87 && x.k == K::SNan;
            check(lost == cut, "NaN: information lost");
        }
        _ => {
            let want = round::<U>(x.neg, z(x.sig), x.exp, r);
            result::<U>(got, want, "converted value");
            check(lost == (want.1 != Status::OK), "information lost");
        }
    }
}
macro_rules! all {
    ($($name:ident = $body:ident;)*) => { fns! { $($name = $body: Half, BFloat, Single, Double, Quad, X87, E5M2, E4M3;)* } };
}
all! {
    C01 = bits_roundtrip;
    C02 = nan_ops;
    C03 = special_ops;
    C04 = fma_special;
    C05 = add_fin;
    C05_sub = sub_fin;
    C06 = mul_fin;
    C09_u = from_u;
    C09_i = from_i;
    C10_u = to_u;
    C10_i = to_i;
    C12 = compare;
    C13 = min_max;
    C14_sign = sign_ops;
    C14_pred = predicates;
    C15 = step;
    C16_log = log;
    C16_frexp = frexp;
    C16_scale = scale;
    C22 = integral;
    C23 = inverse;
}

macro_rules! pairs {
    ($($t:ident),*; $us:tt) => { pub mod C11 { use super::*; $( pub mod $t { use super::*; pairs!(@ $t $us); } )* } };
    (@ $t:ident ($($u:ident),*)) => { $( pub fn $u() { conv::<crate::spec::$t, crate::spec::$u>() } )* };
}
pairs!(Half, BFloat, Single, Double, Quad, X87, E5M2, E4M3; (Half, BFloat, Single, Double, Quad, X87, E5M2, E4M3));
pub mod api;
pub mod consts;
pub mod dd;
pub mod effects;
pub mod safe;
pub mod print;
pub mod small;
pub mod text;
