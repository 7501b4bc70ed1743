//! C35, C31: decimal printing of finite values, and reading it back
use super::small::pattern;
use super::text::{put, recorded, Buf, Nul};
use crate::rt::*;
use crate::spec::*;
use core::cell::Cell;
use core::ptr::NonNull;
use core::fmt::{self, Display, Formatter, FormattingOptions};
use rustc_apfloat::*;

/// the standard library's formatting of an exponent: sign, at least the digits the width asks for
fn w_exp(x: &i32, f: &mut Formatter<'_>) -> fmt::Result {
    let mut n = x.unsigned_abs();
    let mut len = 1;
    if *x < 0 {
        put(b'-');
        len += 1;
    } else if f.sign_plus() {
        put(b'+');
        len += 1;
    }
    let mut d = [0u8; 6];
    let mut k = 0;
    loop {
        d[k] = b'0' + (n % 10) as u8;
        n /= 10;
        k += 1;
        if n == 0 {
            break;
        }
    }
    if f.sign_aware_zero_pad() {
        let mut have = len - 1 + k;
        while have < f.width().unwrap_or(0) {
            put(b'0');
            have += 1;
        }
    }
    while k > 0 {
        k -= 1;
        put(d[k]);
    }
    Ok(())
}

/// fmt::Arguments as the standard library of the pinned nightly lays it out
struct Raw {
    template: NonNull<u8>,
    args: NonNull<Arg>,
}
#[derive(Clone, Copy)]
struct Arg {
    ty: Placeholder,
}
#[derive(Clone, Copy)]
struct Placeholder {
    value: NonNull<()>,
    formatter: unsafe fn(NonNull<()>, &mut Formatter<'_>) -> fmt::Result,
}
/// core::fmt::write: literal pieces and placeholders with fixed options
fn w_fmt(_: &mut dyn fmt::Write, a: fmt::Arguments<'_>) -> fmt::Result {
    let raw = unsafe { (&a as *const fmt::Arguments<'_> as *const Raw).read() };
    let byte = |i: usize| unsafe { raw.template.as_ptr().add(i).read() };
    let mut i = 0;
    let mut arg = 0;
    loop {
        let n = byte(i);
        i += 1;
        if n == 0 {
            return Ok(());
        }
        if n < 0x80 {
            for k in 0..n as usize {
                put(byte(i + k));
            }
            i += n as usize;
            continue;
        }
        // (long pieces and options taken from arguments are not modelled)
        if n & 0xf0 != 0xc0 {
            unsupported();
        }
        let mut o = FormattingOptions::new();
        if n & 1 != 0 {
            if byte(i + 2) & 0x20 != 0 {
                o.sign(Some(fmt::Sign::Plus));
            }
            o.alternate(byte(i + 2) & 0x80 != 0);
            o.sign_aware_zero_pad(byte(i + 3) & 1 != 0);
            i += 4;
        }
        if n & 2 != 0 {
            o.width(Some(byte(i) as u16 + byte(i + 1) as u16 * 256));
            i += 2;
        }
        if n & 4 != 0 {
            o.precision(Some(byte(i) as u16 + byte(i + 1) as u16 * 256));
            i += 2;
        }
        if n & 8 != 0 {
            arg = byte(i) as usize + byte(i + 1) as usize * 256;
            i += 2;
        }
        let mut nul = Nul;
        let mut f = o.create_formatter(&mut nul);
        let x = unsafe { raw.args.as_ptr().add(arg).read() }.ty;
        unsafe { (x.formatter)(x.value, &mut f)? };
        arg += 1;
    }
}

fn contracts(buf: &Buf) {
    recorded(buf);
    stub::<fn(&i32, &mut Formatter<'static>) -> fmt::Result>(<i32 as Display>::fmt, w_exp);
    stub::<for<'a, 'b> fn(&'a mut (dyn fmt::Write + 'a), fmt::Arguments<'b>) -> fmt::Result>(fmt::write, w_fmt);
}
fn digit(c: u8) -> bool {
    c >= b'0' && c <= b'9'
}

pub fn print<T: Fmt>(x: In)
where
    T::F: Display,
{
    value(val::<T>(x), T::P, x.neg, z(x.sig), x.exp);
}
/// x is (-1)^neg * sig * 2^e in a format of the given precision
fn value<F: Display>(x: F, prec: u32, neg: bool, sig: Z, e: i32) {
    let mut o = FormattingOptions::new();
    let alt = any("alternate", 1) == 1;
    o.alternate(alt);
    let width = match any_in("width.given", 0, 2) {
        0 => 3,
        1 => {
            o.width(Some(0));
            0
        }
        _ => {
            let w = any_in("width", 1, 30);
            o.width(Some(w as u16));
            w as usize
        }
    };
    let natural = 2 + prec as usize * 59 / 196;
    let mut p = natural;
    if any("precision.given", 1) == 1 {
        let n = split(any_in("precision", 0, 20)) as usize;
        o.precision(Some(n as u16));
        if n > 0 {
            p = n;
        }
    }
    let buf = Buf { b: [const { Cell::new(0) }; 160], n: Cell::new(0) };
    contracts(&buf);
    let mut nul = Nul;
    let mut f = o.create_formatter(&mut nul);
    let r = x.fmt(&mut f);
    check(r.is_ok(), "formats");
    // ---- read the text: [-] digits [. digits] [E sign digits]
    let len = buf.n.get();
    let at = |i: usize| if i < len { buf.b[i].get() } else { 0 };
    let mut i = 0;
    check((at(0) == b'-') == neg, "minus sign");
    if at(0) == b'-' {
        i = 1;
    }
    let first = i;
    let mut v = z(0);
    let mut exp = 0;
    // digits after the first one that is not zero; zeros at the end
    let mut n = 0;
    let mut tail = 0;
    let mut point = false;
    while i < len {
        let c = at(i);
        if c == b'.' {
            check(!point, "one point");
            point = true;
        } else if digit(c) {
            if c != b'0' || n > 0 {
                // a run of zeros is added when a digit follows it
                if c == b'0' {
                    tail += 1;
                } else {
                    for _ in 0..tail {
                        v = z_mul(v, z(10));
                    }
                    v = z_add(z_mul(v, z(10)), z((c - b'0') as u128));
                    n += 1 + tail;
                    tail = 0;
                }
            }
            if point {
                exp -= 1;
            }
        } else {
            break;
        }
        i += 1;
    }
    exp += tail as i32;
    let mut e10 = 0i32;
    let sci = i < len;
    if sci {
        check(at(i) == if alt { b'e' } else { b'E' }, "exponent letter");
        let minus = at(i + 1) == b'-';
        check(minus || at(i + 1) == b'+', "exponent sign");
        check(at(i + 2) != b'0' || len - i == 3 || alt && len - i == 4, "exponent without superfluous zeros");
        check(!alt || len - i >= 4, "two exponent digits");
        let mut j = i + 2;
        check(j < len, "exponent digits");
        while j < len {
            check(digit(at(j)), "exponent digit");
            e10 = e10 * 10 + (at(j) - b'0') as i32;
            j += 1;
        }
        if minus {
            e10 = -e10;
        }
    }
    exp += e10;
    let end = i;
    check(n >= 1, "a digit that is not zero");
    check(n <= p, "no more digits than the precision");
    if n < 1 || n > p {
        return;
    }
    // ---- value: unit is the place of the last digit the precision allows
    let unit = exp - (p - n) as i32;
    // both sides as integers: text = v * 10^exp, value = sig * 2^e; in tenths of units
    let mut t = v;
    let mut w = sig;
    let mut u = z(1);
    let low = if unit < 0 { unit } else { 0 };
    // everything times 10^-low, and times 2^-e when that is an integer
    for _ in low..exp {
        t = z_mul(t, z(5));
    }
    for _ in low..unit {
        u = z_mul(u, z(5));
    }
    for _ in low..0 {
        w = z_mul(w, z(5));
    }
    // powers of two: t has exp-low, u has unit-low, w has e-low
    let (kt, ku, kw) = (exp - low, unit - low, e - low);
    let k = if kw < 0 { kw } else { 0 };
    let t = z_shl(t, (kt - k) as u32);
    let u = z_shl(u, (ku - k) as u32);
    let w = z_shl(w, (kw - k) as u32);
    let err = if z_lt(t, w) { z_sub(w, t) } else { z_sub(t, w) };
    check(z_lt(err, u), "within one unit of the last digit");
    // digits that have to be cut blindly may be lost to truncation; expansions with less than a digit to spare are rounded
    let mut exact = sig;
    let mut tz = 0;
    while tz < prec && z_eq(z_low(exact, 1), z(0)) {
        exact = z_shr(exact, 1);
        tz += 1;
    }
    let q = e + tz as i32;
    if q >= 0 {
        exact = z_shl(exact, q as u32);
    } else {
        for _ in q..0 {
            exact = z_mul(exact, z(5));
        }
    }
    if z_bitlen(exact) as usize <= (p * 196 + 58) / 59 + 3 {
        let twice = z_shl(err, 1);
        check(!z_lt(u, twice) && (!z_eq(u, twice) || z_lt(w, t)), "rounded to nearest, halves up");
    }
    // ---- layout
    let msd = exp + n as i32 - 1;
    let want = width == 0
        || if exp >= 0 {
            exp as usize > width || n + exp as usize > p
        } else {
            msd < 0 && -msd as usize > width
        };
    check(sci == want, "scientific notation when the width does not suffice");
    if sci {
        check(at(first) != b'0', "leading digit");
        check(at(first + 1) == b'.', "point after the leading digit");
        let frac = end - first - 2;
        if alt {
            check(frac == if p > n - 1 { p } else { n - 1 }, "filled to the precision");
        } else {
            check(frac == if n == 1 { 1 } else { n - 1 }, "no superfluous zeros");
        }
    } else if exp >= 0 {
        check(!point && end - first == n + exp as usize, "integer");
    } else if msd >= 0 {
        check(end - first == n + 1 && at(first) != b'0' && at(first + msd as usize + 1) == b'.', "digits around the point");
    } else {
        check(end - first == 2 + (-exp) as usize && at(first) == b'0' && at(first + 1) == b'.', "zeros after the point");
    }
}
/// every value
fn all<T: Fmt>()
where
    T::F: Display,
{
    let k = any_fin("a.kind");
    let neg = any_neg("a.sign");
    let f = split(any_in("a.frac", 0, (1 << (T::P - 1)) - 1));
    let e = if k == K::Norm { split(any_in("a.exp", 1, (T::EMAX - T::EMIN + 1) as u128)) as i32 } else { 0 };
    let sig = if k == K::Norm { (1 << (T::P - 1)) + f } else { f };
    assume(sig != 0);
    let bits = ((e as u128) << T::FRAC) + f;
    assume(bits <= T::LARGEST);
    let exp = if k == K::Norm { e - 1 } else { 0 } + T::EMIN - (T::P as i32 - 1);
    let x = In { k, neg, mag: bits, bits: signed::<T>(neg, bits), sig, exp };
    print::<T>(x);
}
/// n / 2^k and n * 2^k for odd n of up to 16 bits and for every n below 512: n is free
fn dyadic<T: Fmt>() -> In {
    let len = split(any_in("bits", 1, 16)) as u32;
    assume(len <= T::P);
    let n = any_in("n", 1 << (len - 1), (1 << len) - 1);
    if len > 9 {
        assume(n % 2 == 1);
    }
    let neg = any_neg("a.sign");
    let sig = n << (T::P - len);
    let ib: u128 = if T::X87 { 0 } else { 1 << (T::P - 1) };
    let e = [0, -1, -2, -3, -5, -8, 1, 3, 7, 20][split(any_in("scale", 0, 9)) as usize];
    let top = len as i32 - 1 + e;
    assume(top <= T::EMAX && top >= T::EMIN);
    let bits = (((top - T::EMIN + 1) as u128) << T::FRAC) + (sig - ib);
    In { k: K::Norm, neg, mag: bits, bits: signed::<T>(neg, bits), sig, exp: top + 1 - T::P as i32 }
}
fn ints<T: Fmt>()
where
    T::F: Display,
{
    let x = dyadic::<T>();
    print::<T>(x);
}
/// C31: the text printed with the natural precision denotes the value it was printed from
fn back<T: Fmt>()
where
    T::F: Display,
{
    back_of::<T>(dyadic::<T>())
}
fn back_pat<T: Fmt>()
where
    T::F: Display,
{
    back_of::<T>(patterned::<T>())
}
/// the ends of the range and the subnormals
fn back_far<T: Fmt>()
where
    T::F: Display,
{
    let i = split(any_in("a.pat", 0, 15));
    let f = pattern::<T>(i);
    let at = split(any_in("at", 0, 5)) as usize;
    let neg = i % 2 == 1;
    let top = (T::EMAX - T::EMIN + 1) as u128;
    let e = [top, top - 1, 1, 2, top / 4, 0][at];
    assume(e > 0 || f > 0);
    let ib: u128 = if T::X87 && e > 0 { 1 << 63 } else { 0 };
    let bits = (e << T::FRAC) + ib + f;
    back_of::<T>(In { k: if e > 0 { K::Norm } else { K::Sub }, neg, mag: bits, bits: signed::<T>(neg, bits), sig: 0, exp: 0 })
}
fn back_of<T: Fmt>(x: In)
where
    T::F: Display,
{
    let mut o = FormattingOptions::new();
    o.alternate(any("alternate", 1) == 1);
    match any_in("width.given", 0, 2) {
        0 => {}
        1 => {
            o.width(Some(0));
        }
        _ => {
            o.width(Some(any_in("width", 1, 30) as u16));
        }
    }
    let buf = Buf { b: [const { Cell::new(0) }; 160], n: Cell::new(0) };
    contracts(&buf);
    let mut nul = Nul;
    let mut f = o.create_formatter(&mut nul);
    let r = val::<T>(x).fmt(&mut f);
    check(r.is_ok(), "formats");
    let mut t = [0u8; 160];
    let n = buf.n.get();
    for i in 0..n {
        t[i] = buf.b[i].get();
    }
    // every byte written is ASCII
    let got = T::F::from_str_r(unsafe { core::str::from_utf8_unchecked(&t[..n]) }, Round::NearestTiesToEven);
    check(got.is_ok(), "parses");
    let Ok(got) = got else { return };
    check_eq(got.value.to_bits(), x.bits, "same value");
}
/// patterned significands around exponents where the notation changes and at both ends of what
/// the specification's integers hold
fn patterned<T: Fmt>() -> In {
    let i = split(any_in("a.pat", 0, 15));
    let e = T::P as i32;
    let at = [0, 1, 2, 3, 4, 6, 9, 10, e - 1, e, e + 1, e + 7, -1, -2, -4, -7, -8, -10, -11, -14, -24, -60, 60, 100, 127, -126][split(any_in("at", 0, 25)) as usize];
    assume(at >= T::EMIN && at <= T::EMAX);
    let f = pattern::<T>(i);
    let ib: u128 = if T::X87 { 1 << 63 } else { 0 };
    let neg = i % 2 == 1;
    let bits = (((at - T::EMIN + 1) as u128) << T::FRAC) + ib + f;
    In { k: K::Norm, neg, mag: bits, bits: signed::<T>(neg, bits), sig: (1 << (T::P - 1)) + f, exp: at - (e - 1) }
}
fn pats<T: Fmt>()
where
    T::F: Display,
{
    print::<T>(patterned::<T>())
}
/// subnormals: few bits
fn subs<T: Fmt>()
where
    T::F: Display,
{
    let i = split(any_in("a.pat", 0, 7));
    let f = [1, 2, 3, 5, 7, 13, (1 << (T::P - 1)) - 1, 1 << (T::P - 2)][i as usize];
    let neg = i % 2 == 1;
    print::<T>(In { k: K::Sub, neg, mag: f, bits: signed::<T>(neg, f), sig: f, exp: T::EMIN - (T::P as i32 - 1) })
}
macro_rules! fns {
    ($($m:ident = $f:ident: $($t:ident)*;)*) => { $(pub mod $m {
        $(pub fn $t() { super::$f::<crate::spec::$t>() })*
    })* }
}
fns! { C35_all = all: E5M2 E4M3 Half; C31_back = back: Half BFloat Single Double X87 Quad E5M2 E4M3; C31_pat = back_pat: Half BFloat Single Double X87 Quad; C31_far = back_far: Half BFloat Single Double; C35_int = ints: Half BFloat Single Double X87 Quad; C35_pat = pats: Half BFloat Single Double X87 Quad; C35_sub = subs: Half BFloat Single; }

pub mod C35_dd {
    use super::*;
    /// a patterned high part, a low part of one bit or none at various distances
    pub fn DoubleDouble() {
        let i = split(any_in("a.pat", 0, 15));
        let j = split(any_in("low", 0, 6)) as usize;
        let at = [0, 3, 9, 52, 53, 60, -1, -7, -20][split(any_in("at", 0, 8)) as usize];
        // distance of the low part's bit from the leading bit of the high part, and its sign
        let (d, minus) = [(0, false), (54, false), (54, true), (60, false), (80, true), (105, false), (105, true)][j];
        let neg = i % 2 == 1;
        let f = pattern::<Double>(i);
        let hi = (((at + 1023) as u128) << 52) + f + ((neg as u128) << 63);
        let m = z_shl(z((1 << 52) + f), 53);
        let (lo, sig) = if d == 0 {
            (0, m)
        } else {
            let bits = (((at - d + 1023) as u128) << 52) + (((minus != neg) as u128) << 63);
            let one = z_shl(z(1), (105 - d) as u32);
            (bits, if minus { z_sub(m, one) } else { z_add(m, one) })
        };
        value(ppc::DoubleDouble::from_bits(hi + (lo << 64)), 106, neg, sig, at - 105);
    }
}
