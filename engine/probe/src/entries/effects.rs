//! C19: roots of the effect analysis (structural; never interpreted).
//! `pure` roots reach every operation that must not allocate, `text` roots parsing and printing.
use crate::rt::*;
use core::fmt::{Debug, Display, Write};
use core::ops::*;
use core::str::FromStr;
use rustc_apfloat::*;

fn ops<F>()
where
    F: Float + FloatConvert<ieee::Half> + FloatConvert<ieee::BFloat> + FloatConvert<ieee::Single> + FloatConvert<ieee::Double> + FloatConvert<ieee::Quad> + FloatConvert<ieee::X87DoubleExtended>,
{
    let (x, y, w) = (F::from_bits(any("x", 128)), F::from_bits(any("y", 128)), F::from_bits(any("w", 128)));
    let r = round_mode("r");
    let n = any("n", 128);
    let mut e = 0;
    let mut f = false;
    let (mut x1, mut x2, mut x3, mut x4, mut x5) = (x, x, x, x, x);
    x1 += y;
    x2 -= y;
    x3 *= y;
    x4 /= y;
    x5 %= y;
    let _ = (F::qnan(Some(n)), F::snan(Some(n)), F::largest(), F::smallest_normalized(), F::ZERO, F::INFINITY, F::NAN, F::SMALLEST, F::default());
    let _ = (x.add_r(y, r), x.sub_r(y, r), x.mul_r(y, r), x.mul_add_r(y, w, r), x.mul_add(y, w), x.div_r(y, r), x.ieee_rem(y), x.c_fmod(y), x + y, x - y, x * y, x / y, x % y, -x);
    let _ = (x.round_to_integral(r), x.next_up(), x.next_down(), x.abs(), x.copy_sign(y));
    let _ = (F::from_i128_r(n as i128, r), F::from_i128(n as i128), F::from_u128_r(n, r), F::from_u128(n), x.to_bits());
    let _ = (x.to_i128_r(n as usize, r, &mut f), x.to_i128(n as usize), x.to_u128_r(n as usize, r, &mut f), x.to_u128(n as usize));
    let _ = (x.cmp_abs_normal(y), x.bitwise_eq(y), x == y, x < y, x <= y, x > y, x >= y, x != y, x.partial_cmp(&y), x.min(y), x.max(y), x.minimum(y), x.maximum(y));
    let _ = (x.is_negative(), x.is_normal(), x.is_finite(), x.is_zero(), x.is_denormal(), x.is_infinite(), x.is_nan(), x.is_signaling(), x.category());
    let _ = (x.is_non_zero(), x.is_finite_non_zero(), x.is_pos_zero(), x.is_neg_zero(), x.is_pos_infinity(), x.is_neg_infinity(), x.is_smallest(), x.is_smallest_normalized(), x.is_largest(), x.is_integer());
    let _ = (x.get_exact_inverse(), x.ilogb(), x.scalbn_r(e, r), x.scalbn(e), x.frexp_r(&mut e, r), x.frexp(&mut e));
    let _ = (FloatConvert::<ieee::Half>::convert_r(x, r, &mut f), FloatConvert::<ieee::BFloat>::convert_r(x, r, &mut f), FloatConvert::<ieee::Single>::convert_r(x, r, &mut f), FloatConvert::<ieee::Double>::convert_r(x, r, &mut f));
    let _ = (FloatConvert::<ieee::Quad>::convert_r(x, r, &mut f), FloatConvert::<ieee::X87DoubleExtended>::convert_r(x, r, &mut f), FloatConvert::<ieee::Double>::convert(x, &mut f));
}
fn text<F: Float + Debug + Display + FromStr>(s: &str, out: &mut dyn Write) {
    let x = F::from_bits(any("x", 128));
    let _ = (F::from_str_r(s, round_mode("r")), s.parse::<F>());
    let _ = write!(out, "{} {:?}", x, x);
}
fn dd_ops() {
    let (x, y, w) = (ppc::DoubleDouble::from_bits(any("x", 128)), ppc::DoubleDouble::from_bits(any("y", 128)), ppc::DoubleDouble::from_bits(any("w", 128)));
    let r = round_mode("r");
    let n = any("n", 128);
    let mut e = 0;
    let mut f = false;
    let (mut x1, mut x2, mut x3, mut x4, mut x5) = (x, x, x, x, x);
    x1 += y;
    x2 -= y;
    x3 *= y;
    x4 /= y;
    x5 %= y;
    type F = ppc::DoubleDouble;
    let _ = (F::qnan(Some(n)), F::snan(Some(n)), F::largest(), F::smallest_normalized(), F::ZERO, F::INFINITY, F::NAN, F::SMALLEST, F::default());
    let _ = (x.add_r(y, r), x.sub_r(y, r), x.mul_r(y, r), x.mul_add_r(y, w, r), x.mul_add(y, w), x.div_r(y, r), x.ieee_rem(y), x.c_fmod(y), x + y, x - y, x * y, x / y, x % y, -x);
    let _ = (x.round_to_integral(r), x.next_up(), x.next_down(), x.abs(), x.copy_sign(y));
    let _ = (F::from_i128_r(n as i128, r), F::from_i128(n as i128), F::from_u128_r(n, r), F::from_u128(n), x.to_bits());
    let _ = (x.to_i128_r(n as usize, r, &mut f), x.to_i128(n as usize), x.to_u128_r(n as usize, r, &mut f), x.to_u128(n as usize));
    let _ = (x.cmp_abs_normal(y), x.bitwise_eq(y), x == y, x < y, x <= y, x > y, x >= y, x != y, x.partial_cmp(&y), x.min(y), x.max(y), x.minimum(y), x.maximum(y));
    let _ = (x.is_negative(), x.is_normal(), x.is_finite(), x.is_zero(), x.is_denormal(), x.is_infinite(), x.is_nan(), x.is_signaling(), x.category());
    let _ = (x.is_non_zero(), x.is_finite_non_zero(), x.is_pos_zero(), x.is_neg_zero(), x.is_pos_infinity(), x.is_neg_infinity(), x.is_smallest(), x.is_smallest_normalized(), x.is_largest(), x.is_integer());
    let _ = (x.get_exact_inverse(), x.ilogb(), x.scalbn_r(e, r), x.scalbn(e), x.frexp_r(&mut e, r), x.frexp(&mut e));
}
macro_rules! roots { ($($n:ident = $t:ty;)*) => {
    pub mod C19_pure { use super::*; $( pub fn $n() { ops::<$t>() } )* pub fn DoubleDouble() { dd_ops() } }
    pub mod C19_text { use super::*; $( pub fn $n(s: &str, o: &mut dyn Write) { text::<$t>(s, o) } )* pub fn DoubleDouble(s: &str, o: &mut dyn Write) { text::<ppc::DoubleDouble>(s, o) } }
} }
roots! {
    Half = ieee::Half; BFloat = ieee::BFloat; Single = ieee::Single; Double = ieee::Double; Quad = ieee::Quad; X87 = ieee::X87DoubleExtended; E5M2 = ieee::Float8E5M2; E4M3 = ieee::Float8E4M3FN;
}
