//! Reference semantics, written from the published format definitions and IEEE 754.
//! Nothing here is shared with the crate under analysis except its public types.
use crate::rt::*;
use rustc_apfloat::{ieee, Float, Round, Status};

pub trait Fmt {
    type F: Float;
    /// storage width, significand precision (with the integer bit), largest and smallest normal exponents
    const W: u32;
    const P: u32;
    const EMAX: i32;
    const EMIN: i32;
    /// explicit integer bit (x87)
    const X87: bool = false;
    /// no infinities, one NaN magnitude (E4M3FN)
    const NANONLY: bool = false;
    const FRAC: u32 = if Self::X87 { Self::P } else { Self::P - 1 };
    const SIGN: u128 = 1 << (Self::W - 1);
    /// all-ones exponent field, in place
    const EXPF: u128 = ((1 << (Self::W - 1 - Self::FRAC)) - 1) << Self::FRAC;
    /// encodings of magnitude
    const INF: u128 = if Self::NANONLY { Self::EXPF | ((1 << Self::FRAC) - 1) } else if Self::X87 { Self::EXPF | 1 << 63 } else { Self::EXPF };
    const NAN: u128 = if Self::NANONLY { Self::INF } else { Self::INF | 1 << (Self::P - 2) };
    const LARGEST: u128 = if Self::NANONLY { Self::INF - 1 } else if Self::X87 { ((0x7ffe) << 64) | ((1 << 64) - 1) } else { Self::EXPF - 1 };
    const MINNORM: u128 = if Self::X87 { (1 << 64) | (1 << 63) } else { 1 << Self::FRAC };
}
macro_rules! fmt {
    ($($n:ident = $t:ident $w:expr, $p:expr, $emax:expr, $emin:expr $(, $x:ident)?;)*) => { $(
        pub struct $n;
        impl Fmt for $n {
            type F = ieee::$t;
            const W: u32 = $w;
            const P: u32 = $p;
            const EMAX: i32 = $emax;
            const EMIN: i32 = $emin;
            $(const $x: bool = true;)?
        } )* };
}
fmt! {
    Half = Half 16, 11, 15, -14;
    BFloat = BFloat 16, 8, 127, -126;
    Single = Single 32, 24, 127, -126;
    Double = Double 64, 53, 1023, -1022;
    Quad = Quad 128, 113, 16383, -16382;
    X87 = X87DoubleExtended 80, 64, 16383, -16382, X87;
    E5M2 = Float8E5M2 8, 3, 15, -14;
    E4M3 = Float8E4M3FN 8, 4, 8, -6, NANONLY;
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum K {
    Zero,
    Sub,
    Norm,
    Inf,
    QNan,
    SNan,
}
/// an input value: its encoding and what it stands for
#[derive(Clone, Copy)]
pub struct In {
    pub k: K,
    pub neg: bool,
    pub mag: u128,
    pub bits: u128,
    /// finite nonzero: value = sig * 2^exp
    pub sig: u128,
    pub exp: i32,
}
impl In {
    pub fn nan(&self) -> bool {
        matches!(self.k, K::QNan | K::SNan)
    }
    pub fn fin(&self) -> bool {
        matches!(self.k, K::Norm | K::Sub)
    }
}
pub fn signed<T: Fmt>(neg: bool, mag: u128) -> u128 {
    mag + ((neg as u128) << (T::W - 1))
}
fn mk<T: Fmt>(k: K, neg: bool, mag: u128, sig: u128, exp: i32) -> In {
    In { k, neg, mag, bits: signed::<T>(neg, mag), sig, exp }
}
pub fn any_neg(name: &str) -> bool {
    any(name, 1) == 1
}
/// every value of kind `k`
pub fn input_sm<T: Fmt>(k: K, sn: &str, en: &str, mn: &str) -> In {
    let neg = any_neg(sn);
    input_s::<T>(k, neg, en, mn)
}
pub fn input_s<T: Fmt>(k: K, neg: bool, en: &str, mn: &str) -> In {
    let ib: u128 = if T::X87 { 1 << 63 } else { 0 };
    match k {
        K::Zero => mk::<T>(k, neg, 0, 0, 0),
        K::Inf => {
            assume(!T::NANONLY);
            mk::<T>(k, neg, T::INF, 0, 0)
        }
        K::Sub => {
            let m = any_in(mn, 1, (1 << (T::P - 1)) - 1);
            mk::<T>(k, neg, m, m, T::EMIN - (T::P as i32 - 1))
        }
        K::Norm => {
            // biased exponent 1..; the top binade of a NaN-only format is one value short
            let top = (T::EMAX - T::EMIN + 1) as u128;
            let e = any_in(en, 1, top);
            let m = if T::NANONLY && e == top { any_in(mn, 0, (1 << (T::P - 1)) - 2) } else { any(mn, T::P - 1) };
            let sig = (1 << (T::P - 1)) + m;
            mk::<T>(k, neg, (e << T::FRAC) + ib + m, sig, e as i32 - 1 + T::EMIN - (T::P as i32 - 1))
        }
        K::QNan => {
            if T::NANONLY {
                mk::<T>(k, neg, T::NAN, 0, 0)
            } else {
                let m = any(mn, T::P - 2);
                mk::<T>(k, neg, T::NAN + m, 0, 0)
            }
        }
        K::SNan => {
            assume(!T::NANONLY);
            let m = any_in(mn, 1, (1 << (T::P - 2)) - 1);
            mk::<T>(k, neg, T::INF + m, 0, 0)
        }
    }
}
pub fn a<T: Fmt>(k: K) -> In {
    input_sm::<T>(k, "a.sign", "a.exp", "a.frac")
}
pub fn b<T: Fmt>(k: K) -> In {
    input_sm::<T>(k, "b.sign", "b.exp", "b.frac")
}
pub fn c<T: Fmt>(k: K) -> In {
    input_sm::<T>(k, "c.sign", "c.exp", "c.frac")
}
pub fn any_kind(name: &str) -> K {
    match any_in(name, 0, 5) {
        0 => K::Zero,
        1 => K::Sub,
        2 => K::Norm,
        3 => K::Inf,
        4 => K::QNan,
        _ => K::SNan,
    }
}
pub fn any_fin(name: &str) -> K {
    match any_in(name, 0, 1) {
        0 => K::Norm,
        _ => K::Sub,
    }
}
pub fn any_round() -> Round {
    round_mode("round")
}
pub fn val<T: Fmt>(i: In) -> T::F {
    T::F::from_bits(i.bits)
}
/// default NaN: positive, quiet, empty payload
pub fn nan<T: Fmt>() -> u128 {
    T::NAN
}
/// the quieted form of a NaN input.  For x87 signalling NaNs see DESIGN.md.
pub fn quiet<T: Fmt>(i: In) -> u128 {
    match i.k {
        K::SNan => i.bits + (1 << (T::P - 2)),
        _ => i.bits,
    }
}

/// the quieted NaN an operation returns (x87: the bit below the integer bit)
pub fn quiet_arith<T: Fmt>(i: In) -> u128 {
    quiet::<T>(i)
}
pub fn minus<T: Fmt>(i: In) -> In {
    In { neg: !i.neg, bits: signed::<T>(!i.neg, i.mag), ..i }
}

/// outcome of a magnitude that does not fit
pub fn overflow<T: Fmt>(neg: bool, r: Round) -> (u128, Status) {
    let away = match r {
        Round::NearestTiesToEven | Round::NearestTiesToAway => true,
        Round::TowardPositive => !neg,
        Round::TowardNegative => neg,
        Round::TowardZero => false,
    };
    if away {
        (signed::<T>(neg, T::INF), Status::OVERFLOW | Status::INEXACT)
    } else {
        (signed::<T>(neg, T::LARGEST), Status::INEXACT)
    }
}

/// encode sig * 2^q, sig < 2^P, q >= qmin, normalised unless q == qmin
fn encode<T: Fmt>(neg: bool, sig: Z, q: i32) -> u128 {
    let qmin = T::EMIN - (T::P as i32 - 1);
    let e = (q - qmin) as u128; // exponent of the binade of q, as field-1
    // for an implicit integer bit: field*2^FRAC + (sig - 2^(P-1)) = e*2^FRAC + sig
    let m = if T::X87 {
        // explicit integer bit: field is e+1 when the integer bit is set, else 0
        if z_lt(sig, z(1 << (T::P - 1))) {
            sig
        } else {
            z_add(sig, z((e + 1) << T::FRAC))
        }
    } else {
        z_add(sig, z(e << T::FRAC))
    };
    z_u128(z_add(m, z((neg as u128) << (T::W - 1))))
}

/// (-1)^neg * v * 2^e rounded once to the format (v > 0)
pub fn round<T: Fmt>(neg: bool, v: Z, e: i32, r: Round) -> (u128, Status) {
    let p = T::P as i32;
    let len = z_bitlen(v) as i32;
    let msb = len - 1 + e;
    if msb > T::EMAX {
        return overflow::<T>(neg, r);
    }
    let qmin = T::EMIN - (p - 1);
    let mut q = if msb < T::EMIN { qmin } else { msb - (p - 1) };
    let mut inexact = false;
    let mut sig;
    if e >= q {
        sig = z_shl(v, (e - q) as u32);
    } else {
        // keep at most two bits below the significand beyond the sticky information
        let s = q - e;
        if s > len + 1 {
            // below half of the smallest: nothing but stickiness is left
            inexact = true;
            let up = match r {
                Round::TowardPositive => !neg,
                Round::TowardNegative => neg,
                _ => false,
            };
            sig = z(up as u128);
        } else {
            let s = s as u32;
            sig = z_shr(v, s);
            let rem = z_low(v, s);
            if !z_eq(rem, z(0)) {
                inexact = true;
                let half = z_shl(z(1), s - 1);
                let up = match r {
                    Round::TowardZero => false,
                    Round::TowardPositive => !neg,
                    Round::TowardNegative => neg,
                    Round::NearestTiesToAway => !z_lt(rem, half),
                    Round::NearestTiesToEven => {
                        z_lt(half, rem) || (z_eq(rem, half) && z_eq(z_low(sig, 1), z(1)))
                    }
                };
                if up {
                    sig = z_add(sig, z(1));
                }
            }
        }
        if z_eq(sig, z(1 << T::P)) {
            sig = z(1 << (T::P - 1));
            q += 1;
        }
    }
    if q + p - 1 > T::EMAX {
        return overflow::<T>(neg, r);
    }
    if T::NANONLY && q + p - 1 == T::EMAX && z_eq(sig, z((1 << T::P) - 1)) {
        return overflow::<T>(neg, r);
    }
    let mut st = Status::OK;
    if inexact {
        st |= Status::INEXACT;
        if z_lt(sig, z(1 << (T::P - 1))) {
            st |= Status::UNDERFLOW;
        }
    }
    (encode::<T>(neg, sig, q), st)
}
pub fn result<T: Fmt>(r: rustc_apfloat::StatusAnd<T::F>, want: (u128, Status), id: &str) {
    check_eq(r.value.to_bits(), want.0, id);
    check_eq(r.status.bits() as u128, want.1.bits() as u128, "flags");
}
