//! C18: published parameters and constants
use crate::rt::*;
use crate::spec::*;
use rustc_apfloat::*;

fn constants<T: Fmt>() {
    check_eq(T::F::BITS as u128, T::W as u128, "BITS");
    check_eq(T::F::PRECISION as u128, T::P as u128, "PRECISION");
    check_eq_i(T::F::MAX_EXP as i128, T::EMAX as i128, "MAX_EXP");
    check_eq_i(T::F::MIN_EXP as i128, T::EMIN as i128, "MIN_EXP");
    check_eq(T::F::ZERO.to_bits(), 0, "ZERO");
    check_eq(T::F::default().to_bits(), 0, "default is +0");
    check_eq(T::F::INFINITY.to_bits(), T::INF, "INFINITY");
    check_eq(T::F::NAN.to_bits(), T::NAN, "NAN");
    check_eq(T::F::SMALLEST.to_bits(), 1, "SMALLEST");
    check_eq(T::F::largest().to_bits(), T::LARGEST, "largest");
    check_eq(T::F::smallest_normalized().to_bits(), T::MINNORM, "smallest_normalized");
    check(T::F::INFINITY.is_infinite() == !T::NANONLY, "INFINITY is infinite");
    check(T::F::NAN.is_nan() && !T::F::NAN.is_signaling(), "NAN is a quiet NaN");
    check(T::F::largest().is_largest(), "largest is largest");
    check(T::F::SMALLEST.is_smallest(), "SMALLEST is smallest");
    check(T::F::smallest_normalized().is_smallest_normalized(), "smallest_normalized");
}
fn payloads<T: Fmt>() {
    let pl = if any_in("payload.given", 0, 1) == 0 { None } else { Some(any("payload", 128)) };
    let q = T::F::qnan(pl);
    let s = T::F::snan(pl);
    check(q.is_nan() && !q.is_signaling() && !q.is_negative(), "qnan is a positive quiet NaN");
    if T::NANONLY {
        check_eq(q.to_bits(), T::NAN, "qnan");
        check_eq(s.to_bits(), T::NAN, "snan");
        return;
    }
    check(s.is_nan() && s.is_signaling() && !s.is_negative(), "snan is a positive signaling NaN");
    // the payload field lies below the quiet bit
    let field = (1u128 << (T::P - 2)) - 1;
    let p = pl.unwrap_or(0) & field;
    check_eq(q.to_bits(), T::NAN + p, "qnan payload");
    // an empty signaling payload would be an infinity: the bit below the quiet bit is set instead
    check_eq(s.to_bits(), T::INF + if p == 0 { 1 << (T::P - 3) } else { p }, "snan payload");
}
macro_rules! all {
    ($($name:ident = $body:ident;)*) => { $( pub mod $name { use super::*;
        pub fn Half() { $body::<crate::spec::Half>() } pub fn BFloat() { $body::<crate::spec::BFloat>() }
        pub fn Single() { $body::<crate::spec::Single>() } pub fn Double() { $body::<crate::spec::Double>() }
        pub fn Quad() { $body::<crate::spec::Quad>() } pub fn X87() { $body::<crate::spec::X87>() }
        pub fn E5M2() { $body::<crate::spec::E5M2>() } pub fn E4M3() { $body::<crate::spec::E4M3>() }
    } )* };
}
all! { C18_const = constants; C18_nan = payloads; }

pub mod C18_dd {
    use super::*;
    use rustc_apfloat::ppc::DoubleDouble as D;
    pub fn DoubleDouble() {
        check_eq(D::BITS as u128, 128, "BITS");
        check_eq(D::PRECISION as u128, 106, "PRECISION");
        check_eq_i(D::MAX_EXP as i128, 1023, "MAX_EXP");
        check_eq_i(D::MIN_EXP as i128, -1022 + 53, "MIN_EXP");
        check_eq(D::ZERO.to_bits(), 0, "ZERO");
        check_eq(D::default().to_bits(), 0, "default is +0");
        check_eq(D::INFINITY.to_bits(), 0x7ff0 << 48, "INFINITY");
        check_eq(D::NAN.to_bits(), 0x7ff8 << 48, "NAN");
        check_eq(D::SMALLEST.to_bits(), 1, "SMALLEST");
        check_eq(D::largest().to_bits(), 0x7c8ffffffffffffe_7fefffffffffffff, "largest");
        check_eq(D::smallest_normalized().to_bits(), 0x0360000000000000, "smallest_normalized");
        // NaNs are the high part's
        let pl = if any_in("payload.given", 0, 1) == 0 { None } else { Some(any("payload", 128)) };
        let (q, s) = (D::qnan(pl), D::snan(pl));
        check(q.is_nan() && !q.is_signaling() && !q.is_negative(), "qnan is a positive quiet NaN");
        check(s.is_nan() && s.is_signaling() && !s.is_negative(), "snan is a positive signaling NaN");
        let p = pl.unwrap_or(0) & ((1 << 51) - 1);
        check_eq(q.to_bits(), (0x7ff8 << 48) + p, "qnan payload");
        check_eq(s.to_bits(), (0x7ff0 << 48) + if p == 0 { 1 << 50 } else { p }, "snan payload");
    }
}
