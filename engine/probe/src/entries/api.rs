//! C17: the convenience forms against the explicit-mode forms
use crate::rt::*;
use crate::spec::*;
use core::cell::Cell;
use core::marker::PhantomData;
use rustc_apfloat::*;

const NTE: Round = Round::NearestTiesToEven;
fn same<F: Float>(x: StatusAnd<F>, y: StatusAnd<F>, id: &str) {
    check_eq(x.value.to_bits(), y.value.to_bits(), id);
    check_eq(x.status.bits() as u128, y.status.bits() as u128, "flags");
}

// ---- direct: both forms analysed on the same symbolic operands
fn d_add<T: Fmt>() {
    let (x, y) = (a::<T>(any_kind("a.kind")), b::<T>(any_kind("b.kind")));
    let (x, y) = (val::<T>(x), val::<T>(y));
    join();
    let want = x.add_r(y, NTE);
    same(x + y, want, "+");
    let mut z = x;
    z += y;
    check_eq(z.to_bits(), want.value.to_bits(), "+=");
}
fn d_sub<T: Fmt>() {
    let (x, y) = (a::<T>(any_kind("a.kind")), b::<T>(any_kind("b.kind")));
    let nan = x.nan() || y.nan();
    let (x, y) = (val::<T>(x), val::<T>(y));
    join();
    let want = x.sub_r(y, NTE);
    same(x - y, want, "-");
    let mut z = x;
    z -= y;
    check_eq(z.to_bits(), want.value.to_bits(), "-=");
    if !nan {
        same(x.add_r(-y, NTE), want, "sub is add of the negation");
    }
}
fn d_sub_modes<T: Fmt>() {
    let (x, y) = (a::<T>(any_kind("a.kind")), b::<T>(any_kind("b.kind")));
    assume(!x.nan() && !y.nan());
    let r = any_round();
    let (x, y) = (val::<T>(x), val::<T>(y));
    join();
    same(x.sub_r(y, r), x.add_r(-y, r), "sub is add of the negation");
}
fn d_mul<T: Fmt>() {
    let (x, y) = (val::<T>(a::<T>(any_kind("a.kind"))), val::<T>(b::<T>(any_kind("b.kind"))));
    join();
    let want = x.mul_r(y, NTE);
    same(x * y, want, "*");
    let mut z = x;
    z *= y;
    check_eq(z.to_bits(), want.value.to_bits(), "*=");
}
fn d_div<T: Fmt>() {
    let (x, y) = (val::<T>(a::<T>(any_kind("a.kind"))), val::<T>(b::<T>(any_kind("b.kind"))));
    join();
    let want = x.div_r(y, NTE);
    same(x / y, want, "/");
    let mut z = x;
    z /= y;
    check_eq(z.to_bits(), want.value.to_bits(), "/=");
}
fn d_rem<T: Fmt>() {
    let (x, y) = (val::<T>(a::<T>(any_kind("a.kind"))), val::<T>(b::<T>(any_kind("b.kind"))));
    join();
    let want = x.c_fmod(y);
    same(x % y, want, "%");
    let mut z = x;
    z %= y;
    check_eq(z.to_bits(), want.value.to_bits(), "%=");
}
fn d_fma<T: Fmt>() {
    let (x, y) = (val::<T>(a::<T>(any_kind("a.kind"))), val::<T>(b::<T>(any_kind("b.kind"))));
    let w = val::<T>(c::<T>(any_kind("c.kind")));
    same(x.mul_add(y, w), x.mul_add_r(y, w, NTE), "mul_add");
}
fn d_scalars<T: Fmt>() {
    let x = val::<T>(a::<T>(any_kind("a.kind")));
    match any_in("op", 0, 5) {
        0 => {
            let n = any("x", 128);
            join();
            same(T::F::from_u128(n), T::F::from_u128_r(n, NTE), "from_u128");
        }
        1 => {
            let n = any_iin("x", i128::MIN, i128::MAX);
            join();
            same(T::F::from_i128(n), T::F::from_i128_r(n, NTE), "from_i128");
        }
        2 => {
            let n = any_iin("n", ExpInt::MIN as i128, ExpInt::MAX as i128) as ExpInt;
            join();
            check_eq(x.scalbn(n).to_bits(), x.scalbn_r(n, NTE).to_bits(), "scalbn");
        }
        3 => {
            let (mut e, mut f) = (0, 0);
            let (g, w) = (x.frexp(&mut e).to_bits(), x.frexp_r(&mut f, NTE).to_bits());
            check_eq(g, w, "frexp");
            check_eq_i(e as i128, f as i128, "frexp exponent");
        }
        4 => {
            let mut e = false;
            let (g, w) = (x.to_u128(64), x.to_u128_r(64, Round::TowardZero, &mut e));
            check_eq(g.value, w.value, "to_u128");
            check_eq(g.status.bits() as u128, w.status.bits() as u128, "flags");
        }
        _ => {
            let mut e = false;
            let (g, w) = (x.to_i128(64), x.to_i128_r(64, Round::TowardZero, &mut e));
            check_eq_i(g.value, w.value, "to_i128");
            check_eq(g.status.bits() as u128, w.status.bits() as u128, "flags");
        }
    }
}
fn d_convert<T: Fmt>()
where
    T::F: FloatConvert<ieee::Half> + FloatConvert<ieee::Double>,
{
    let x = val::<T>(a::<T>(any_kind("a.kind")));
    let (mut l, mut m) = (false, false);
    if any_in("dst", 0, 1) == 0 {
        let g: StatusAnd<ieee::Half> = x.convert(&mut l);
        same(g, x.convert_r(NTE, &mut m), "convert");
    } else {
        let g: StatusAnd<ieee::Double> = x.convert(&mut l);
        same(g, x.convert_r(NTE, &mut m), "convert");
    }
    check(l == m, "convert: information lost");
}

// ---- contracts: the explicit-mode form must be called with the caller's operands; its result is returned as is.
// (a form that does not go through the explicit-mode method is left to the direct entries above)
struct Ctx<F> {
    x: F,
    y: F,
    w: F,
    ret: F,
    st: Status,
    n: u128,
    called: Cell<bool>,
}
fn ctx<F: 'static>() -> &'static Ctx<F> {
    let c = shared::<Ctx<F>>("ctx");
    c.called.set(true);
    c
}
fn bin<F: Float + 'static>(x: F, y: F, r: Round, what: &str) -> StatusAnd<F> {
    let c = ctx::<F>();
    check(x.bitwise_eq(c.x), what);
    check(y.bitwise_eq(c.y), what);
    check(r == NTE, "nearest-even is passed");
    c.st.and(c.ret)
}
fn s_add<F: Float + 'static>(x: F, y: F, r: Round) -> StatusAnd<F> {
    bin(x, y, r, "+ passes its operands")
}
fn s_sub<F: Float + 'static>(x: F, y: F, r: Round) -> StatusAnd<F> {
    bin(x, y, r, "- passes its operands")
}
fn s_mul<F: Float + 'static>(x: F, y: F, r: Round) -> StatusAnd<F> {
    bin(x, y, r, "* passes its operands")
}
fn s_div<F: Float + 'static>(x: F, y: F, r: Round) -> StatusAnd<F> {
    bin(x, y, r, "/ passes its operands")
}
fn s_rem<F: Float + 'static>(x: F, y: F) -> StatusAnd<F> {
    bin(x, y, NTE, "% passes its operands")
}
fn s_fma<F: Float + 'static>(x: F, y: F, w: F, r: Round) -> StatusAnd<F> {
    check(w.bitwise_eq(ctx::<F>().w), "mul_add passes its addend");
    bin(x, y, r, "mul_add passes its operands")
}
fn s_str<F: Float + 'static>(s: &str, r: Round) -> Result<StatusAnd<F>, ParseError> {
    let c = ctx::<F>();
    check(s.len() == 3, "the text is passed");
    check(r == NTE, "nearest-even is passed");
    Ok(c.st.and(c.ret))
}
fn s_from_u<F: Float + 'static>(x: u128, r: Round) -> StatusAnd<F> {
    let c = ctx::<F>();
    check_eq(x, c.n, "the integer is passed");
    check(r == NTE, "nearest-even is passed");
    c.st.and(c.ret)
}
fn s_to_u<F: Float + 'static>(x: F, w: usize, r: Round, e: &mut bool) -> StatusAnd<u128> {
    let c = ctx::<F>();
    check(x.bitwise_eq(c.x), "the value is passed");
    check(w == 77, "the width is passed");
    check(r == Round::TowardZero, "toward-zero is passed");
    *e = true;
    c.st.and(c.n)
}
fn s_scale<F: Float + 'static>(x: F, n: ExpInt, r: Round) -> F {
    let c = ctx::<F>();
    check(x.bitwise_eq(c.x), "the value is passed");
    check_eq_i(n as i128, 77, "the scale is passed");
    check(r == NTE, "nearest-even is passed");
    c.ret
}
fn s_frexp<F: Float + 'static>(x: F, n: &mut ExpInt, r: Round) -> F {
    let c = ctx::<F>();
    check(x.bitwise_eq(c.x), "the value is passed");
    check(r == NTE, "nearest-even is passed");
    *n = 77;
    c.ret
}
trait Src {
    type F: Float + 'static;
    fn x() -> Self::F;
    fn y() -> Self::F;
    fn w() -> Self::F;
}
struct Scalar<T>(PhantomData<T>);
impl<T: Fmt> Src for Scalar<T>
where
    T::F: 'static,
{
    type F = T::F;
    fn x() -> T::F {
        val::<T>(a::<T>(any_kind("a.kind")))
    }
    fn y() -> T::F {
        val::<T>(b::<T>(any_kind("b.kind")))
    }
    fn w() -> T::F {
        val::<T>(c::<T>(K::Norm))
    }
}
struct Pair;
fn pair(k: &str, s: &str, e: &str, f: &str, ls: &str, le: &str, lf: &str) -> ppc::DoubleDouble {
    let h = input_sm::<Double>(any_kind(k), s, e, f);
    let l = if h.k == K::Norm { input_sm::<Double>(K::Norm, ls, le, lf).bits } else { 0 };
    ppc::DoubleDouble::from_bits(h.bits + (l << 64))
}
impl Src for Pair {
    type F = ppc::DoubleDouble;
    fn x() -> Self::F {
        pair("a.kind", "a.sign", "a.exp", "a.frac", "a.lo.sign", "a.lo.exp", "a.lo.frac")
    }
    fn y() -> Self::F {
        pair("b.kind", "b.sign", "b.exp", "b.frac", "b.lo.sign", "b.lo.exp", "b.lo.frac")
    }
    fn w() -> Self::F {
        Self::F::from_bits(input_sm::<Double>(K::Norm, "c.sign", "c.exp", "c.frac").bits)
    }
}
fn contract<S: Src>() {
    let op = any_in("op", 0, 15);
    let zero = <S::F as Float>::ZERO;
    let x = if matches!(op, 6 | 7) { zero } else { S::x() };
    let y = if matches!(op, 0..=5 | 11..=15) { S::y() } else { zero };
    let w = if op == 5 { S::w() } else { zero };
    // the value returned: a zero or a subnormal
    let ret = S::F::from_bits(any("ret", 1));
    let st = Status::from_bits_truncate(any("ret.status", 5) as u8);
    join();
    let c = Ctx { x, y, w, ret, st, n: any("n", 128), called: Cell::new(false) };
    share("ctx", &c);
    let got = match op {
        0 => {
            stub::<fn(S::F, S::F, Round) -> StatusAnd<S::F>>(S::F::add_r, s_add::<S::F>);
            x + y
        }
        1 => {
            stub::<fn(S::F, S::F, Round) -> StatusAnd<S::F>>(S::F::sub_r, s_sub::<S::F>);
            x - y
        }
        2 => {
            stub::<fn(S::F, S::F, Round) -> StatusAnd<S::F>>(S::F::mul_r, s_mul::<S::F>);
            x * y
        }
        3 => {
            stub::<fn(S::F, S::F, Round) -> StatusAnd<S::F>>(S::F::div_r, s_div::<S::F>);
            x / y
        }
        4 => {
            stub::<fn(S::F, S::F) -> StatusAnd<S::F>>(S::F::c_fmod, s_rem::<S::F>);
            x % y
        }
        5 => {
            stub::<fn(S::F, S::F, S::F, Round) -> StatusAnd<S::F>>(S::F::mul_add_r, s_fma::<S::F>);
            x.mul_add(y, w)
        }
        6 => {
            stub::<fn(&str, Round) -> Result<StatusAnd<S::F>, ParseError>>(S::F::from_str_r, s_str::<S::F>);
            match "1.5".parse::<S::F>() {
                Ok(v) => c.st.and(v),
                Err(_) => zero.add_r(zero, NTE),
            }
        }
        7 => {
            stub::<fn(u128, Round) -> StatusAnd<S::F>>(S::F::from_u128_r, s_from_u::<S::F>);
            S::F::from_u128(c.n)
        }
        8 => {
            stub::<fn(S::F, usize, Round, &mut bool) -> StatusAnd<u128>>(S::F::to_u128_r, s_to_u::<S::F>);
            let r = x.to_u128(77);
            if c.called.get() {
                check_eq(r.value, c.n, "the integer is returned");
            }
            r.status.and(c.ret)
        }
        9 => {
            stub::<fn(S::F, ExpInt, Round) -> S::F>(S::F::scalbn_r, s_scale::<S::F>);
            c.st.and(x.scalbn(77))
        }
        10 => {
            stub::<fn(S::F, &mut ExpInt, Round) -> S::F>(S::F::frexp_r, s_frexp::<S::F>);
            let mut e = 0;
            let r = x.frexp(&mut e);
            if c.called.get() {
                check_eq_i(e as i128, 77, "the exponent is returned");
            }
            c.st.and(r)
        }
        op => {
            let mut z = x;
            match op {
                11 => {
                    stub::<fn(S::F, S::F, Round) -> StatusAnd<S::F>>(S::F::add_r, s_add::<S::F>);
                    z += y
                }
                12 => {
                    stub::<fn(S::F, S::F, Round) -> StatusAnd<S::F>>(S::F::sub_r, s_sub::<S::F>);
                    z -= y
                }
                13 => {
                    stub::<fn(S::F, S::F, Round) -> StatusAnd<S::F>>(S::F::mul_r, s_mul::<S::F>);
                    z *= y
                }
                14 => {
                    stub::<fn(S::F, S::F, Round) -> StatusAnd<S::F>>(S::F::div_r, s_div::<S::F>);
                    z /= y
                }
                _ => {
                    stub::<fn(S::F, S::F) -> StatusAnd<S::F>>(S::F::c_fmod, s_rem::<S::F>);
                    z %= y
                }
            }
            c.st.and(z)
        }
    };
    if c.called.get() {
        check_eq(got.value.to_bits(), c.ret.to_bits(), "the result is returned");
        check_eq(got.status.bits() as u128, c.st.bits() as u128, "the flags are returned");
    }
}

macro_rules! all {
    ($($name:ident = $body:ident: $($t:ident)*;)*) => { $( pub mod $name { use super::*; $( pub fn $t() { $body::<crate::spec::$t>() } )* } )* };
}
all! {
    C17_add = d_add: Half BFloat Single Double Quad X87 E5M2 E4M3;
    C17_sub = d_sub: Half BFloat Single Double Quad X87 E5M2 E4M3;
    C17_subr = d_sub_modes: Half BFloat Single Double Quad X87 E5M2 E4M3;
    C17_mul = d_mul: Half BFloat E5M2 E4M3;
    C17_div = d_div: E5M2 E4M3;
    C17_rem = d_rem: E5M2 E4M3;
    C17_fma = d_fma: E5M2 E4M3;
    C17_conv = d_convert: Half BFloat Single Double Quad X87 E5M2 E4M3;
    C17_num = d_scalars: Half BFloat Single Double Quad X87 E5M2 E4M3;
}
pub mod C17_via {
    use super::*;
    macro_rules! via { ($($t:ident)*) => { $( pub fn $t() { contract::<Scalar<crate::spec::$t>>() } )* }; }
    via!(Half BFloat Single Double Quad X87 E5M2 E4M3);
    pub fn DoubleDouble() { contract::<Pair>() }
}
