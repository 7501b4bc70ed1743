//! operations decided on narrow formats or restricted operands (C07, C08, C24, C28, C29)
use crate::rt::*;
use crate::spec::*;
use rustc_apfloat::*;

/// quotient rounded once: long division to P+3 bits and a sticky bit
fn quotient<T: Fmt>(x: In, y: In, r: Round) -> (u128, Status) {
    quotient_of::<T>(x.neg != y.neg, z(x.sig), x.exp, z(y.sig), y.exp, r)
}
/// (-1)^neg * x * 2^xe / (y * 2^ye) rounded once
pub fn quotient_of<T: Fmt>(neg: bool, x: Z, xe: i32, y: Z, ye: i32, r: Round) -> (u128, Status) {
    let (lx, ly) = (z_bitlen(x), z_bitlen(y));
    let l = if lx > ly { lx } else { ly };
    let (mut rem, d) = (z_shl(x, l - lx), z_shl(y, l - ly));
    let mut q = z(0);
    let n = T::P + 2;
    let mut i = 0;
    while i < n {
        q = z_shl(q, 1);
        if !z_lt(rem, d) {
            rem = z_sub(rem, d);
            q = z_add(q, z(1));
        }
        rem = z_shl(rem, 1);
        i += 1;
    }
    q = z_shl(q, 1);
    if !z_eq(rem, z(0)) {
        q = z_add(q, z(1));
    }
    let e = (xe + lx as i32) - (ye + ly as i32) - n as i32;
    round::<T>(neg, q, e, r)
}
fn div_fin<T: Fmt>() {
    let (x, y) = (a::<T>(any_fin("a.kind")), b::<T>(any_fin("b.kind")));
    let r = any_round();
    let (vx, vy) = (val::<T>(x), val::<T>(y));
    join();
    let got = vx.div_r(vy, r);
    result::<T>(got, quotient::<T>(x, y, r), "quotient");
}
/// one of sixteen significand patterns: around powers of two and of various lengths
pub fn pattern<T: Fmt>(i: u128) -> u128 {
    let f = T::P - 1;
    let all = (1u128 << f) - 1;
    // 1 followed by n-1 free bits, as a divisor of n bits
    let short = |n: u32, v: u128| if n <= f { v << (f - n) & all } else { v & all };
    match i {
        0 => all,
        1 => 1,
        2 => 0,
        3 => 1 << (f - 1),
        4 => all - 1,
        5 => all / 3,
        6 => all / 3 * 2 + 1,
        7 => short(4, 0b1011),
        8 => short(7, 0b1010101),
        9 => short(8, 0b11111111),
        10 => short(16, 0xb5c3),
        11 => short(31, 0x5a5a_a5a5),
        12 => short(32, 0xffff_ffff),
        13 => short(64, 0x9e37_79b9_7f4a_7c15),
        14 => 0x1234_5678_9abc_def0_1357_9bdf_0246 & all,
        _ => (1 << (f / 2)) - 1,
    }
}
/// a finite value with one of the patterns and any exponent
fn patterned<T: Fmt>(k: K, neg: &str, e: &str, i: u128) -> In {
    let f = pattern::<T>(i);
    let neg = any_neg(neg);
    let q = T::EMIN - (T::P as i32 - 1);
    let (bits, sig, exp) = if k == K::Sub {
        assume(f != 0);
        (f, f, q)
    } else {
        let e = any_in(e, 1, (T::EMAX - T::EMIN + 1) as u128);
        let ib: u128 = if T::X87 { 1 << 63 } else { 0 };
        ((e << T::FRAC) + ib + f, (1 << (T::P - 1)) + f, e as i32 - 1 + q)
    };
    In { k, neg, mag: bits, bits: signed::<T>(neg, bits), sig, exp }
}
fn pats<T: Fmt>() -> (In, In) {
    let (x, y) = (patterned::<T>(any_fin("a.kind"), "a.sign", "a.exp", split(any_in("a.pat", 0, 15))), patterned::<T>(any_fin("b.kind"), "b.sign", "b.exp", split(any_in("b.pat", 0, 15))));
    (x, y)
}
fn div_pat<T: Fmt>() {
    let (x, y) = pats::<T>();
    let r = any_round();
    // the dividend in [1, 2), or any
    if any_in("at", 0, 1) == 0 {
        assume(x.exp == 1 - T::P as i32);
    }
    let (vx, vy) = (val::<T>(x), val::<T>(y));
    join();
    let got = vx.div_r(vy, r);
    result::<T>(got, quotient::<T>(x, y, r), "quotient");
}
/// products of patterned values, one of them in [1, 2)
fn mul_pat<T: Fmt>() {
    let (x, y) = (patterned::<T>(K::Norm, "a.sign", "a.exp", split(any_in("a.pat", 0, 15))), patterned::<T>(any_fin("b.kind"), "b.sign", "b.exp", split(any_in("b.pat", 0, 15))));
    assume(x.exp == 1 - T::P as i32);
    let r = any_round();
    let (vx, vy) = (val::<T>(x), val::<T>(y));
    join();
    let got = vx.mul_r(vy, r);
    result::<T>(got, round::<T>(x.neg != y.neg, z_mul(z(x.sig), z(y.sig)), x.exp + y.exp, r), "product");
}
/// a patterned value times a patterned one plus any normal one
fn fma_pat<T: Fmt>() {
    let (x, y) = (patterned::<T>(K::Norm, "a.sign", "a.exp", split(any_in("a.pat", 0, 15))), patterned::<T>(K::Norm, "b.sign", "b.exp", split(any_in("b.pat", 0, 15))));
    let w = c::<T>(K::Norm);
    let p = T::P as i32;
    assume(x.exp == 1 - p);
    let gap = any_in("gap", 0, 4 * T::P as u128 + 6) as i32 - 2 * p - 3;
    assume(w.exp - (x.exp + y.exp) == gap);
    fma::<T>(x, y, w)
}
/// remainders of patterned values whose exponents are a given distance apart
fn rem_pat<T: Fmt>() {
    let (x, y) = pats::<T>();
    let gap = match any_in("gap", 0, 9) {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 5,
        4 => T::P as i32 - 1,
        5 => T::P as i32,
        6 => T::P as i32 + 3,
        7 => 2 * T::P as i32 + 1,
        8 => -1,
        _ => -2,
    };
    assume(x.exp - y.exp == gap);
    if any("ieee", 1) == 1 {
        rem_of::<T>(x, y);
    } else {
        fmod_of::<T>(x, y);
    }
}
/// x mod y on integers scaled to the smaller exponent
fn fmod_fin<T: Fmt>() {
    fmod_of::<T>(a::<T>(any_fin("a.kind")), b::<T>(any_fin("b.kind")))
}
fn fmod_of<T: Fmt>(x: In, y: In) {
    let (vx, vy) = (val::<T>(x), val::<T>(y));
    join();
    let got = vx.c_fmod(vy);
    let (rem, e, _, _) = divide(x, y);
    let want = if z_eq(rem, z(0)) { signed::<T>(x.neg, 0) } else { round::<T>(x.neg, rem, e, Round::NearestTiesToEven).0 };
    result::<T>(got, (want, Status::OK), "remainder");
}
/// (x mod y, exponent, quotient is odd, y) on magnitudes, as integers times 2^exponent
fn divide(x: In, y: In) -> (Z, i32, bool, Z) {
    let e = if x.exp < y.exp { x.exp } else { y.exp };
    let d = z_shl(z(y.sig), (y.exp - e) as u32);
    let mut rem = z(x.sig);
    let mut k = x.exp - e;
    let mut odd = false;
    // x.sig * 2^k mod d, one bit at a time
    loop {
        odd = false;
        while !z_lt(rem, d) {
            rem = z_sub(rem, d);
            odd = !odd;
        }
        if k == 0 {
            break;
        }
        rem = z_shl(rem, 1);
        k -= 1;
    }
    (rem, e, odd, d)
}
fn rem_fin<T: Fmt>() {
    rem_of::<T>(a::<T>(any_fin("a.kind")), b::<T>(any_fin("b.kind")))
}
fn rem_of<T: Fmt>(x: In, y: In) {
    let (vx, vy) = (val::<T>(x), val::<T>(y));
    join();
    let got = vx.ieee_rem(vy);
    let (rem, e, odd, d) = divide(x, y);
    let twice = z_shl(rem, 1);
    let down = z_lt(d, twice) || (z_eq(d, twice) && odd);
    let (neg, m) = if down { (!x.neg, z_sub(d, rem)) } else { (x.neg, rem) };
    let want = if z_eq(m, z(0)) { signed::<T>(x.neg, 0) } else { round::<T>(neg, m, e, Round::NearestTiesToEven).0 };
    result::<T>(got, (want, Status::OK), "IEEE remainder");
}
fn fma_fin<T: Fmt>() {
    let (x, y, w) = (a::<T>(any_fin("a.kind")), b::<T>(any_fin("b.kind")), c::<T>(any_fin0("c.kind")));
    fma::<T>(x, y, w)
}
/// a normal product and a normal addend whose last bit lies `gap` bits above that of the product;
/// the multiplicand is in [1, 2), the exponents of the others are free
fn fma_gap<T: Fmt>() {
    let (x, y, w) = (a::<T>(K::Norm), b::<T>(K::Norm), c::<T>(K::Norm));
    let p = T::P as i32;
    assume(x.exp == 1 - p);
    // -2P-3 ..= 2P+3
    let gap = any_in("gap", 0, 4 * T::P as u128 + 6) as i32 - 2 * p - 3;
    assume(w.exp - (x.exp + y.exp) == gap);
    fma::<T>(x, y, w)
}
fn fma<T: Fmt>(x: In, y: In, w: In) {
    let r = any_round();
    let (vx, vy, vw) = (val::<T>(x), val::<T>(y), val::<T>(w));
    join();
    let got = vx.mul_add_r(vy, vw, r);
    let neg = x.neg != y.neg;
    let p = z_mul(z(x.sig), z(y.sig));
    let pe = x.exp + y.exp;
    if w.k == K::Zero {
        result::<T>(got, round::<T>(neg, p, pe, r), "fused result");
        return;
    }
    let e = if pe < w.exp { pe } else { w.exp };
    let v1 = z_shl(p, (pe - e) as u32);
    let v2 = z_shl(z(w.sig), (w.exp - e) as u32);
    let s = z_add(if neg { z_neg(v1) } else { v1 }, if w.neg { z_neg(v2) } else { v2 });
    let want = if z_eq(s, z(0)) {
        (signed::<T>(if neg == w.neg { neg } else { r == Round::TowardNegative }, 0), Status::OK)
    } else if z_lt(s, z(0)) {
        round::<T>(true, z_neg(s), e, r)
    } else {
        round::<T>(false, s, e, r)
    };
    result::<T>(got, want, "fused result");
}
/// the sum of two finite nonzero values rounded once
fn sum<T: Fmt>(x: In, y: In, r: Round) -> (u128, Status) {
    // an operand more than P+3 binades below only matters by being nonzero
    let (mut xs, mut xe, mut ys, mut ye) = (x.sig, x.exp, y.sig, y.exp);
    let far = T::P as i32 + 3;
    if xe > ye + far && xs >> (T::P - 1) == 1 {
        ys = 1;
        ye = xe - 4;
    } else if ye > xe + far && ys >> (T::P - 1) == 1 {
        xs = 1;
        xe = ye - 4;
    }
    let e = if xe < ye { xe } else { ye };
    let v1 = z_shl(z(xs), (xe - e) as u32);
    let v2 = z_shl(z(ys), (ye - e) as u32);
    let s = z_add(if x.neg { z_neg(v1) } else { v1 }, if y.neg { z_neg(v2) } else { v2 });
    if z_eq(s, z(0)) {
        (signed::<T>(if x.neg == y.neg { x.neg } else { r == Round::TowardNegative }, 0), Status::OK)
    } else if z_lt(s, z(0)) {
        round::<T>(true, z_neg(s), e, r)
    } else {
        round::<T>(false, s, e, r)
    }
}
/// 1 * a + c and -1 * a + c for every a and c
fn fma_one<T: Fmt>() {
    let (x, w) = (a::<T>(any_fin("a.kind")), c::<T>(any_fin("c.kind")));
    let neg = any_neg("b.sign");
    let r = any_round();
    let one = T::F::from_bits(signed::<T>(neg, T::MINNORM + ((T::EMAX - T::NANONLY as i32 - 1) as u128) * (1 << T::FRAC)));
    let (vx, vw) = (val::<T>(x), val::<T>(w));
    join();
    let got = one.mul_add_r(vx, vw, r);
    let x = if neg { minus::<T>(x) } else { x };
    result::<T>(got, sum::<T>(x, w, r), "fused result");
}
fn any_fin0(name: &str) -> K {
    match any_in(name, 0, 2) {
        0 => K::Norm,
        1 => K::Sub,
        _ => K::Zero,
    }
}
// ---------------------------------------------------------------- C07 signs
fn signs<T: Fmt>() {
    let (x, y) = (a::<T>(any_fin0("a.kind")), b::<T>(any_fin0("b.kind")));
    let r = any_round();
    let (vx, vy) = (val::<T>(x), val::<T>(y));
    join();
    let neg = x.neg != y.neg;
    let got = match any_in("op", 0, 3) {
        0 => vx.mul_r(vy, r).value,
        1 => vx.div_r(vy, r).value,
        op => {
            let v = if op == 2 { vx.c_fmod(vy).value } else { vx.ieee_rem(vy).value };
            if v.is_zero() {
                check(v.is_negative() == x.neg, "zero remainder has the sign of the dividend");
            }
            return;
        }
    };
    if !got.is_nan() || T::NANONLY && x.k != K::Zero {
        check(got.is_negative() == neg, "sign is the exclusive or");
    }
}
fn sign_mul<T: Fmt>() {
    let (x, y) = (a::<T>(any_fin("a.kind")), b::<T>(any_fin("b.kind")));
    let r = any_round();
    let neg = x.neg != y.neg;
    let (vx, vy) = (val::<T>(x), val::<T>(y));
    join();
    let got = vx.mul_r(vy, r);
    check(got.value.is_negative() == neg, "sign is the exclusive or");
}
// ---------------------------------------------------------------- C08 range limits
/// sums of operands in the top two binades, and in the bottom ones
fn range_add<T: Fmt>() {
    let (x, y) = (a::<T>(any_fin("a.kind")), b::<T>(any_fin("b.kind")));
    assume(x.neg == y.neg);
    let top = T::EMAX - (T::P as i32 - 1);
    assume(x.exp >= top - 1 && y.exp >= top - T::P as i32 - 1);
    let r = any_round();
    let (vx, vy) = (val::<T>(x), val::<T>(y));
    join();
    let got = vx.add_r(vy, r);
    result::<T>(got, sum::<T>(x, y, r), "sum at the top of the range");
}
fn range_mul<T: Fmt>() {
    let (x, y) = (a::<T>(K::Norm), b::<T>(any_fin("b.kind")));
    let r = any_round();
    let e = x.exp + y.exp;
    // far out of range both ways: no rounding of the significand is involved
    let p = T::P as i32;
    let over = e > T::EMAX && y.k == K::Norm;
    let under = e + 2 * p < T::EMIN - p;
    assume(over || under);
    let (vx, vy) = (val::<T>(x), val::<T>(y));
    join();
    let neg = x.neg != y.neg;
    let want = if over {
        overflow::<T>(neg, r)
    } else {
        let up = match r {
            Round::TowardPositive => !neg,
            Round::TowardNegative => neg,
            _ => false,
        };
        (signed::<T>(neg, up as u128), Status::UNDERFLOW | Status::INEXACT)
    };
    result::<T>(vx.mul_r(vy, r), want, "product out of range");
}
fn range_scale<T: Fmt>() {
    let x = a::<T>(any_fin("a.kind"));
    let n = any_iin("n", ExpInt::MIN as i128, ExpInt::MAX as i128);
    let r = any_round();
    let len = z_bitlen(z(x.sig)) as i128;
    let msb = x.exp as i128 + len - 1 + n;
    let p = T::P as i128;
    assume(msb >= T::EMAX as i128 || msb <= T::EMIN as i128);
    join();
    let got = val::<T>(x).scalbn_r(n as ExpInt, r);
    let want = if msb > T::EMAX as i128 {
        overflow::<T>(x.neg, r).0
    } else if msb < T::EMIN as i128 - p - 1 {
        let up = match r {
            Round::TowardPositive => !x.neg,
            Round::TowardNegative => x.neg,
            _ => false,
        };
        signed::<T>(x.neg, up as u128)
    } else {
        round::<T>(x.neg, z(x.sig), (x.exp as i128 + n) as i32, r).0
    };
    check_eq(got.to_bits(), want, "scaled to the range limits");
}
fn range_int<T: Fmt>() {
    let x = any_iin("x", i128::MIN, i128::MAX);
    let r = any_round();
    let m = if x < 0 { z_neg(zi(x)) } else { zi(x) };
    assume(T::EMAX < 128 && x != 0 && z_bitlen(m) as i32 >= T::EMAX);
    join();
    let got = T::F::from_i128_r(x, r);
    result::<T>(got, round::<T>(x < 0, m, 0, r), "integer at the top of the range");
}
fn range_conv<T: Fmt, U: Fmt>()
where
    T::F: FloatConvert<U::F>,
{
    let x = a::<T>(any_fin("a.kind"));
    let r = any_round();
    let mut lost = true;
    let v = val::<T>(x);
    let msb = x.exp + z_bitlen(z(x.sig)) as i32 - 1;
    assume(msb >= U::EMAX || msb < U::EMIN);
    join();
    let got: StatusAnd<U::F> = v.convert_r(r, &mut lost);
    result::<U>(got, round::<U>(x.neg, z(x.sig), x.exp, r), "converted to the range limits");
}
fn range_div<T: Fmt>() {
    let (x, y) = (a::<T>(any_fin("a.kind")), b::<T>(any_fin("b.kind")));
    let r = any_round();
    let (vx, vy) = (val::<T>(x), val::<T>(y));
    join();
    let want = quotient::<T>(x, y, r);
    assume(want.1.intersects(Status::OVERFLOW | Status::UNDERFLOW) || want.0 == signed::<T>(x.neg != y.neg, T::LARGEST));
    result::<T>(vx.div_r(vy, r), want, "quotient at the range limits");
}

macro_rules! all {
    ($($name:ident = $body:ident: $($t:ident)*;)*) => { $( pub mod $name { use super::*; $( pub fn $t() { $body::<crate::spec::$t>() } )* } )* };
}
all! {
    C28 = div_fin: Half BFloat Single Double Quad X87 E5M2 E4M3;
    C29_fmod = fmod_fin: Half BFloat Single Double Quad X87 E5M2 E4M3;
    C29_rem = rem_fin: Half BFloat Single Double Quad X87 E5M2 E4M3;
    C24 = fma_fin: Half BFloat Single Double Quad X87 E5M2 E4M3;
    C28_pat = div_pat: Half BFloat Single Double Quad X87;
    C29_pat = rem_pat: Half BFloat Single Double Quad X87;
    C24_pat = fma_pat: Half BFloat Single Double Quad X87;
    C06_pat = mul_pat: Half BFloat Single Double Quad X87;
    C24_gap = fma_gap: Half BFloat Single Double Quad X87;
    C24_one = fma_one: Half BFloat Single Double Quad X87 E5M2 E4M3;
    C07_all = signs: Half BFloat E5M2 E4M3;
    C07_mul = sign_mul: Half BFloat Single Double Quad X87 E5M2 E4M3;
    C08_add = range_add: Half BFloat Single Double Quad X87 E5M2 E4M3;
    C08_mul = range_mul: Half BFloat Single Double Quad X87 E5M2 E4M3;
    C08_scale = range_scale: Half BFloat Single Double Quad X87 E5M2 E4M3;
    C08_int = range_int: Half BFloat Single E5M2 E4M3;
    C08_div = range_div: Half BFloat E5M2 E4M3;
}
pub mod C08_conv {
    use super::*;
    macro_rules! pairs { ($($t:ident $u:ident $n:ident;)*) => { $( pub fn $n() { range_conv::<crate::spec::$t, crate::spec::$u>() } )* }; }
    pairs! {
        Quad X87 QuadX87; Quad Double QuadDouble; X87 Double X87Double; Double Single DoubleSingle; Double Half DoubleHalf;
        Single Half SingleHalf; Single BFloat SingleBFloat; Single E5M2 SingleE5M2; Single E4M3 SingleE4M3; Half E4M3 HalfE4M3; BFloat E5M2 BFloatE5M2;
    }
}
