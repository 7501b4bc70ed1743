//! C26: no panic, assertion, index, shift or integer overflow on any encoding.
//! The obligations are the panicking edges themselves; operands are raw bits, so encodings
//! that no operation produces (x87 unnormals and pseudo-denormals) are covered as well.
use crate::rt::*;
use crate::spec::*;
use core::cmp::Ordering;
use rustc_apfloat::*;

fn raw<T: Fmt>(n: &'static str) -> T::F {
    if T::W == 8 {
        // by encoding class: same set, fewer partitions
        return match n {
            "a" => val::<T>(a::<T>(any_kind("a.kind"))),
            "b" => val::<T>(b::<T>(any_kind("b.kind"))),
            _ => val::<T>(c::<T>(any_kind("c.kind"))),
        };
    }
    T::F::from_bits(any(n, T::W))
}
fn done() {
    check(true, "returns");
}
fn s_add<T: Fmt>() {
    let (x, y, r) = (raw::<T>("a"), raw::<T>("b"), any_round());
    let _ = x.add_r(y, r);
    done();
}
fn s_sub<T: Fmt>() {
    let (x, y, r) = (raw::<T>("a"), raw::<T>("b"), any_round());
    let _ = x.sub_r(y, r);
    done();
}
fn s_mul<T: Fmt>() {
    let (x, y, r) = (raw::<T>("a"), raw::<T>("b"), any_round());
    let _ = x.mul_r(y, r);
    done();
}
fn s_cmp<T: Fmt>() {
    let (x, y) = (raw::<T>("a"), raw::<T>("b"));
    match any_in("op", 0, 3) {
        0 => {
            let _ = (x.partial_cmp(&y), x == y, x < y, x >= y, x.bitwise_eq(y));
        }
        1 => {
            // documented for normal-category operands only
            assume(x.is_finite_non_zero() && y.is_finite_non_zero());
            let _ = x.cmp_abs_normal(y);
        }
        2 => {
            let _ = (x.min(y), x.max(y));
        }
        _ => {
            let _ = (x.minimum(y), x.maximum(y), x.copy_sign(y));
        }
    }
    done();
}
fn s_un<T: Fmt>() {
    let (x, r) = (raw::<T>("a"), any_round());
    let mut e = 0;
    match any_in("op", 0, 9) {
        0 => {
            let _ = x.round_to_integral(r);
        }
        1 => {
            let _ = x.next_up();
        }
        2 => {
            let _ = x.next_down();
        }
        3 => {
            let _ = x.ilogb();
        }
        4 => {
            let _ = x.frexp_r(&mut e, r);
        }
        5 => {
            let _ = x.get_exact_inverse();
        }
        6 => {
            let _ = (x.is_integer(), x.is_smallest(), x.is_smallest_normalized(), x.is_largest());
        }
        7 => {
            let _ = (-x, x.abs(), x.to_bits());
        }
        8 => {
            let _ = (x.is_normal(), x.is_denormal(), x.is_signaling(), x.is_finite(), x.category());
        }
        _ => {
            let n = any("n", 128);
            let _ = (T::F::qnan(Some(n)), T::F::snan(Some(n)), T::F::largest(), T::F::smallest_normalized());
        }
    }
    done();
}
fn s_scale<T: Fmt>() {
    let (x, r) = (raw::<T>("a"), any_round());
    let n = any_iin("n", ExpInt::MIN as i128, ExpInt::MAX as i128) as ExpInt;
    let _ = x.scalbn_r(n, r);
    done();
}
fn s_from<T: Fmt>() {
    let r = any_round();
    if any("op", 1) == 0 {
        let _ = T::F::from_u128_r(any("n", 128), r);
    } else {
        let _ = T::F::from_i128_r(any_iin("n", i128::MIN, i128::MAX), r);
    }
    done();
}
fn s_to<T: Fmt>() {
    let (x, r) = (raw::<T>("a"), any_round());
    let w = any_in("width", 1, 128) as usize;
    let mut e = false;
    if any("op", 1) == 0 {
        let _ = x.to_u128_r(w, r, &mut e);
    } else {
        let _ = x.to_i128_r(w, r, &mut e);
    }
    done();
}
fn s_div<T: Fmt>() {
    let (x, y, r) = (raw::<T>("a"), raw::<T>("b"), any_round());
    let _ = x.div_r(y, r);
    done();
}
fn s_rem<T: Fmt>() {
    let (x, y) = (raw::<T>("a"), raw::<T>("b"));
    if any("op", 1) == 0 {
        let _ = x.ieee_rem(y);
    } else {
        let _ = x.c_fmod(y);
    }
    done();
}
fn s_fma<T: Fmt>() {
    let (x, y, w, r) = (raw::<T>("a"), raw::<T>("b"), raw::<T>("c"), any_round());
    let _ = x.mul_add_r(y, w, r);
    done();
}
fn s_conv<T: Fmt>()
where
    T::F: FloatConvert<ieee::Half> + FloatConvert<ieee::BFloat> + FloatConvert<ieee::Single> + FloatConvert<ieee::Double> + FloatConvert<ieee::Quad>
        + FloatConvert<ieee::X87DoubleExtended> + FloatConvert<ieee::Float8E5M2> + FloatConvert<ieee::Float8E4M3FN>,
{
    let (x, r) = (raw::<T>("a"), any_round());
    let mut f = false;
    match any_in("to", 0, 7) {
        0 => { let _: StatusAnd<ieee::Half> = x.convert_r(r, &mut f); }
        1 => { let _: StatusAnd<ieee::BFloat> = x.convert_r(r, &mut f); }
        2 => { let _: StatusAnd<ieee::Single> = x.convert_r(r, &mut f); }
        3 => { let _: StatusAnd<ieee::Double> = x.convert_r(r, &mut f); }
        4 => { let _: StatusAnd<ieee::Quad> = x.convert_r(r, &mut f); }
        5 => { let _: StatusAnd<ieee::X87DoubleExtended> = x.convert_r(r, &mut f); }
        6 => { let _: StatusAnd<ieee::Float8E5M2> = x.convert_r(r, &mut f); }
        _ => { let _: StatusAnd<ieee::Float8E4M3FN> = x.convert_r(r, &mut f); }
    }
    done();
}
macro_rules! fns {
    ($($name:ident = $body:ident;)*) => { $(
        pub mod $name { use super::*; fns!(@ $body Half BFloat Single Double Quad X87 E5M2 E4M3); }
    )* };
    (@ $body:ident $($t:ident)*) => { $( pub fn $t() { $body::<crate::spec::$t>() } )* };
}
fns! {
    C26_add = s_add; C26_sub = s_sub; C26_mul = s_mul; C26_cmp = s_cmp; C26_un = s_un; C26_scale = s_scale; C26_from = s_from; C26_to = s_to;
    C26_div = s_div; C26_rem = s_rem; C26_fma = s_fma; C26_conv = s_conv;
}
/// every pair of 64-bit parts
pub mod C26_dd {
    use super::*;
    type D = ppc::DoubleDouble;
    fn raw(h: &'static str, l: &'static str) -> D {
        D::from_bits(any(h, 64) + (any(l, 64) << 64))
    }
    pub fn Pred() {
        let x = raw("a.hi", "a.lo");
        match any_in("op", 0, 9) {
            0 => { let _ = (x.is_denormal(), x.is_normal()); }
            1 => { let _ = (x.is_smallest(), x.is_smallest_normalized(), x.is_largest()); }
            2 => { let _ = x.is_integer(); }
            3 => { let _ = x.ilogb(); }
            4 => { let _ = (-x, x.abs(), x.to_bits()); }
            5 => { let mut e = 0; let _ = x.frexp_r(&mut e, any_round()); }
            6 => { let _ = x.get_exact_inverse(); }
            7 => { let _ = x.next_up(); }
            8 => { let _ = x.next_down(); }
            _ => { let _ = x.round_to_integral(any_round()); }
        }
        done();
    }
    pub fn Int() {
        let x = raw("a.hi", "a.lo");
        let r = any_round();
        let mut e = false;
        match any_in("op", 0, 3) {
            0 => { let _ = x.to_u128_r(any_in("width", 1, 128) as usize, r, &mut e); }
            1 => { let _ = x.to_i128_r(any_in("width", 1, 128) as usize, r, &mut e); }
            2 => { let _ = D::from_u128_r(any("n", 128), r); }
            _ => { let _ = D::from_i128_r(any_iin("n", i128::MIN, i128::MAX), r); }
        }
        done();
    }
    pub fn Scale() {
        let _ = raw("a.hi", "a.lo").scalbn_r(any_iin("n", ExpInt::MIN as i128, ExpInt::MAX as i128) as ExpInt, any_round());
        done();
    }
    pub fn Cmp() {
        let (x, y) = (raw("a.hi", "a.lo"), raw("b.hi", "b.lo"));
        match any_in("op", 0, 3) {
            0 => {
                let _ = (x.partial_cmp(&y), x == y, x < y);
            }
            1 => {
                assume(x.is_finite_non_zero() && y.is_finite_non_zero());
                let _ = x.cmp_abs_normal(y);
            }
            2 => {
                let _ = (x.bitwise_eq(y), x.copy_sign(y));
            }
            _ => {
                let _ = (x.min(y), x.max(y));
            }
        }
        done();
    }
    pub fn Add() {
        let (x, y) = (raw("a.hi", "a.lo"), raw("b.hi", "b.lo"));
        let _ = x.add_r(y, any_round());
        done();
    }
    pub fn Mul() {
        let (x, y) = (raw("a.hi", "a.lo"), raw("b.hi", "b.lo"));
        let _ = x.mul_r(y, any_round());
        done();
    }
}
