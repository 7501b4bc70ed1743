//! C25, C27: parsing of hexadecimal and special text, printing of special values
use crate::rt::*;
use crate::spec::*;
use core::cell::Cell;
use core::fmt::{self, Display, Formatter, FormattingOptions, Write};
use rustc_apfloat::*;

// ---- C27: the formatter's output methods by contract: they append to a buffer of the entry
pub struct Buf {
    pub b: [Cell<u8>; 160],
    pub n: Cell<usize>,
}
pub fn put(c: u8) {
    let b = shared::<Buf>("buf");
    b.b[b.n.get()].set(c);
    b.n.set(b.n.get() + 1);
}
fn w_str(_: &mut Formatter<'_>, s: &str) -> fmt::Result {
    for &c in s.as_bytes() {
        put(c);
    }
    Ok(())
}
fn w_char(_: &mut Formatter<'_>, c: char) -> fmt::Result {
    put(c as u8);
    Ok(())
}
/// the formatter's output methods append to the buffer
pub fn recorded(buf: &Buf) {
    share("buf", buf);
    stub::<fn(&mut Formatter<'static>, &str) -> fmt::Result>(Formatter::write_str, w_str);
    stub::<fn(&mut Formatter<'static>, &str) -> fmt::Result>(<Formatter as Write>::write_str, w_str);
    stub::<fn(&mut Formatter<'static>, char) -> fmt::Result>(<Formatter as Write>::write_char, w_char);
    stub::<fn(&mut Formatter<'static>, &str) -> fmt::Result>(Formatter::pad, w_str);
}
pub struct Nul;
impl Write for Nul {
    fn write_str(&mut self, _: &str) -> fmt::Result {
        Ok(())
    }
}
fn display<F: Float + Display>(x: F, nan: bool, inf: bool, neg: bool) {
    let mut o = FormattingOptions::new();
    let alt = any("alternate", 1) == 1;
    o.alternate(alt);
    // no width, width 0 (scientific), any other width
    let sci = match any_in("width.given", 0, 2) {
        0 => false,
        1 => {
            o.width(Some(0));
            true
        }
        _ => {
            o.width(Some(any_in("width", 1, 65535) as u16));
            false
        }
    };
    let mut digits = 1;
    if any("precision.given", 1) == 1 {
        let p = split(any_in("precision", 0, 20));
        o.precision(Some(p as u16));
        if alt && p > 1 {
            digits = p as usize;
        }
    }
    let buf = Buf { b: [const { Cell::new(0) }; 160], n: Cell::new(0) };
    recorded(&buf);
    let mut nul = Nul;
    let mut f = o.create_formatter(&mut nul);
    let r = x.fmt(&mut f);
    check(r.is_ok(), "formats");
    let mut at = 0;
    let mut want = |s: &str| {
        for &c in s.as_bytes() {
            check_eq(buf.b[at].get() as u128, c as u128, "text");
            at += 1;
        }
    };
    if nan {
        want("NaN");
    } else if inf {
        want(if neg { "-Inf" } else { "+Inf" });
    } else {
        if neg {
            want("-");
        }
        if sci {
            want("0.0");
            if alt {
                for _ in 1..digits {
                    want("0");
                }
                want("e+00");
            } else {
                want("E+0");
            }
        } else {
            want("0");
        }
    }
    check_eq(buf.n.get() as u128, at as u128, "length");
}
fn show<T: Fmt>()
where
    T::F: Display,
{
    let x = a::<T>(any_kind("a.kind"));
    assume(!x.fin());
    display(val::<T>(x), x.nan(), x.k == K::Inf, x.neg);
}
pub mod C27 {
    use super::*;
    macro_rules! f { ($($t:ident)*) => { $( pub fn $t() { show::<crate::spec::$t>() } )* } }
    f!(Half BFloat Single Double Quad X87 E5M2 E4M3);
    pub fn DoubleDouble() {
        let h = input_sm::<crate::spec::Double>(any_kind("a.kind"), "a.sign", "a.exp", "a.frac");
        assume(!h.fin());
        display(ppc::DoubleDouble::from_bits(h.bits), h.nan(), h.k == K::Inf, h.neg);
    }
}

// ---- C25
const D: [&str; 40] = [
    "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "d10", "d11", "d12", "d13", "d14", "d15", "d16", "d17", "d18", "d19", "d20", "d21", "d22", "d23", "d24", "d25", "d26",
    "d27", "d28", "d29", "d30", "d31", "d32", "d33", "d34", "d35", "d36", "d37", "d38", "d39",
];
struct Text {
    b: [u8; 64],
    n: usize,
}
impl Text {
    fn new() -> Text {
        Text { b: [0; 64], n: 0 }
    }
    fn c(&mut self, c: u8) {
        self.b[self.n] = c;
        self.n += 1;
    }
    fn s(&mut self, s: &str) {
        for &c in s.as_bytes() {
            self.c(c);
        }
    }
    fn str(&self) -> &str {
        // every byte written is ASCII
        unsafe { core::str::from_utf8_unchecked(&self.b[..self.n]) }
    }
    /// optional sign; true when negative
    fn sign(&mut self) -> bool {
        match any_in("text.sign", 0, 2) {
            0 => false,
            1 => {
                self.c(b'+');
                false
            }
            _ => {
                self.c(b'-');
                true
            }
        }
    }
}
/// a hexadecimal digit: 0-9 (free), or any of the sixteen in either case
fn digit(t: &mut Text, name: &str, free: bool) -> u128 {
    let case = if free { any_in("case", 0, 2) } else { 0 };
    if case > 0 {
        let d = any_in(name, 10, 15);
        t.c(if case == 1 { b'a' - 10 + d as u8 } else { b'A' - 10 + d as u8 });
        d
    } else {
        let d = any_in(name, 0, 9);
        t.c(b'0' + d as u8);
        d
    }
}
/// [sign] 0x digits [. digits] p exponent
fn hex<T: Fmt>(ni: usize, nf: usize, point: bool, lead: bool) {
    let r = any_round();
    let mut t = Text::new();
    let neg = t.sign();
    t.s("0x");
    let mut v = z(0);
    for i in 0..ni + nf {
        if i == ni {
            t.c(b'.');
        }
        // long literals: the leading digits, those around the rounding position and the last three vary
        let n = ni + nf;
        let d = if n > 8 && i >= 2 && i + 3 < n && !(i >= T::P as usize / 4 && i < T::P as usize / 4 + 2) {
            t.c(b'0');
            0
        } else {
            digit(&mut t, D[i], i == 0 && lead || i + 1 == n && !lead)
        };
        v = z_add(z_shl(v, 4), z(d));
    }
    if point && nf == 0 {
        t.c(b'.');
    }
    t.c(b'p');
    let e = if ni + nf > 8 { exponent_at::<T>(&mut t, ni as i32) } else { exponent::<T>(&mut t) };
    join();
    let got = T::F::from_str_r(t.str(), r);
    check(got.is_ok(), "parses");
    let Ok(got) = got else { return };
    if z_eq(v, z(0)) {
        result::<T>(got, (signed::<T>(neg, 0), Status::OK), "zero");
    } else {
        result::<T>(got, round::<T>(neg, v, e - 4 * nf as i32, r), "value of the literal");
    }
}
/// one to five decimal digits, within reach of the format's range limits
fn exponent<T: Fmt>(t: &mut Text) -> i32 {
    let minus = match any_in("exp.sign", 0, 2) {
        0 => false,
        1 => {
            t.c(b'+');
            false
        }
        _ => {
            t.c(b'-');
            true
        }
    };
    // leading digits are partitioned, the last two symbolic
    let span = (T::EMAX as u128 + T::P as u128 + 40) / 100;
    let top = split(any_in("exp.top", 0, if span > 3 { 3 } else { span }));
    let top = if top == 3 { span } else { top };
    if top >= 100 {
        t.c(b'0' + (top / 100) as u8);
    }
    if top >= 10 {
        t.c(b'0' + (top / 10 % 10) as u8);
    }
    if top >= 1 {
        t.c(b'0' + (top % 10) as u8);
    }
    let (d1, d0) = (any_in("e1", 0, 9), any_in("e0", 0, 9));
    t.c(b'0' + d1 as u8);
    t.c(b'0' + d0 as u8);
    let e = (top * 100 + d1 * 10 + d0) as i32;
    if minus {
        -e
    } else {
        e
    }
}
/// an exponent that puts the leading digit in the middle, at the subnormal or at the overflow end of the range
fn exponent_at<T: Fmt>(t: &mut Text, ni: i32) -> i32 {
    let e = match any_in("exp.at", 0, 2) {
        0 => 0,
        1 => T::EMIN - 2,
        _ => T::EMAX - 1,
    } - 4 * (ni - 1);
    if e < 0 {
        t.c(b'-');
    }
    let m = if e < 0 { -e } else { e } as u32;
    for d in [10000, 1000, 100, 10, 1] {
        if m >= d || d == 1 {
            t.c(b'0' + (m / d % 10) as u8);
        }
    }
    e
}
fn h_short<T: Fmt>() {
    match any_in("shape", 0, 5) {
        0 => hex::<T>(1, 0, false, true),
        1 => hex::<T>(2, 0, true, false),
        2 => hex::<T>(1, 1, true, true),
        3 => hex::<T>(0, 2, true, false),
        4 => hex::<T>(3, 2, true, true),
        _ => hex::<T>(1, 6, true, false),
    }
}
macro_rules! fns {
    ($($name:ident = $body:ident;)*) => { $(
        pub mod $name { use super::*; fns!(@ $body Half BFloat Single Double Quad X87 E5M2 E4M3); }
    )* };
    (@ $body:ident $($t:ident)*) => { $( pub fn $t() { $body::<crate::spec::$t>() } )* };
}
/// one or two free digits and an exponent around the top of the range
fn d_edge<T: Fmt>() {
    let r = any_round();
    let mut t = Text::new();
    let neg = t.sign();
    let top = if T::EMAX > 100 { 37 } else if T::EMAX > 10 { 3 } else { 1 };
    let point = any("point", 1) == 1;
    let d0 = any_in("d0", 0, 9);
    t.c(b'0' + d0 as u8);
    let mut v = z(d0);
    if point {
        let d1 = any_in("d1", 0, 9);
        t.c(b'.');
        t.c(b'0' + d1 as u8);
        v = z_add(z_mul(v, z(10)), z(d1));
    }
    let e = top + split(any_in("exp", 0, 4)) as usize;
    put_exp(&mut t, e);
    is_value::<T>(&t, neg, pow10(v, e - point as usize), r);
}
/// a literal next to the top of the range: d.d with the largest exponents
fn d_top<T: Fmt>() {
    let r = any_round();
    let mut t = Text::new();
    let neg = t.sign();
    let top = match T::EMAX {
        16383 => 4932,
        1023 => 308,
        127 => 38,
        x if x > 10 => 4,
        _ => 2,
    };
    let d0 = any_in("d0", 1, 9);
    t.c(b'0' + d0 as u8);
    t.c(b'.');
    let d1 = any_in("d1", 0, 9);
    t.c(b'0' + d1 as u8);
    // long intermediate values: literal by literal
    let (d0, d1) = if top == 308 { (split(d0), split(d1)) } else { (d0, d1) };
    let e = top - split(any_in("exp", 0, 1)) as u32;
    t.c(b'e');
    for d in [1000, 100, 10, 1] {
        if e >= d {
            t.c(b'0' + (e / d % 10) as u8);
        }
    }
    let m = z_add(z_mul(z(d0), z(10)), z(d1));
    if top < 1000 {
        // m * 10^(e-1)
        let mut v = m;
        for _ in 1..e {
            v = z_mul(v, z(5));
        }
        is_scaled::<T>(&t, neg, v, e as i32 - 1, r);
    } else {
        // the largest values lie between 1.1e4932 and 1.2e4932
        join();
        let got = T::F::from_str_r(t.str(), r);
        check(got.is_ok(), "parses");
        let Ok(got) = got else { return };
        if e == top && (d0 > 1 || d1 > 1) {
            result::<T>(got, crate::spec::overflow::<T>(neg, r), "beyond the largest value");
        } else {
            check(got.value.is_finite_non_zero(), "finite below the largest value");
            check(got.status == Status::INEXACT || got.status == Status::OK, "no overflow below the largest value");
            check(got.value.is_negative() == neg, "sign");
        }
    }
}
/// more digits than a limb holds: what does not fit decides the rounding
fn h_long<T: Fmt>() {
    match any_in("shape", 0, 2) {
        0 => hex::<T>(33, 0, false, false),
        1 => hex::<T>(34, 1, true, false),
        _ => hex::<T>(2, 33, true, true),
    }
}
/// nan text with a payload in the three radices
fn h_nan<T: Fmt>() {
    nan_text::<T>(|s, r| T::F::from_str_r(s, r).ok().map(|g| (g.value.to_bits(), g.status)));
}
fn nan_text<T: Fmt>(parse: impl Fn(&str, Round) -> Option<(u128, Status)>) {
    let mut t = Text::new();
    let neg = any("neg", 1) == 1;
    if neg {
        t.c(b'-');
    }
    let snan = match any_in("nan.s", 0, 2) {
        0 => false,
        1 => {
            t.c(b's');
            true
        }
        _ => {
            t.c(b'S');
            true
        }
    };
    t.s(if any("nan.case", 1) == 0 { "nan" } else { "NaN" });
    let paren = any("paren", 1) == 1;
    let radix = any_in("radix", 0, 3);
    if paren {
        assume(radix > 0);
        t.c(b'(');
    }
    let n = 6;
    let mut v = 0;
    match radix {
        0 => {}
        1 => {
            for i in 0..n {
                let d = any_in(D[i], if i == 0 { 1 } else { 0 }, 9);
                t.c(b'0' + d as u8);
                v = v * 10 + d;
            }
        }
        2 => {
            t.s("0");
            for i in 0..n {
                let d = any_in(D[i], 0, 7);
                t.c(b'0' + d as u8);
                v = v * 8 + d;
            }
        }
        _ => {
            t.s(if any("x.case", 1) == 0 { "0x" } else { "0X" });
            for i in 0..n {
                v = v * 16 + digit(&mut t, D[i], i < 2);
            }
        }
    }
    if paren {
        t.c(b')');
    }
    join();
    let got = parse(t.str(), any_round());
    check(got.is_some(), "parses");
    let Some(got) = got else { return };
    let p = if radix == 0 { None } else { Some(v) };
    let want = if snan { T::F::snan(p) } else { T::F::qnan(p) };
    check_eq(got.0, if neg { (-want).to_bits() } else { want.to_bits() }, "payload");
    check(got.1 == Status::OK, "flags");
}
fn eq(t: &[u8], s: &str) -> bool {
    let s = s.as_bytes();
    if t.len() != s.len() {
        return false;
    }
    for i in 0..s.len() {
        if t[i] != s[i] {
            return false;
        }
    }
    true
}
fn ascii(t: &mut Text, n: usize) {
    for i in 0..n {
        t.c(any_in(D[i], 0, 127) as u8);
    }
}
/// any text without digits up to four characters: only the special spellings are accepted
fn h_word<T: Fmt>(n: usize) {
    words::<T>(n, |s, r| T::F::from_str_r(s, r).ok().map(|g| (g.value.to_bits(), g.status)));
}
fn words<T: Fmt>(n: usize, parse: impl Fn(&str, Round) -> Option<(u128, Status)>) {
    let mut t = Text::new();
    ascii(&mut t, n);
    for i in 0..n {
        assume(!t.b[i].is_ascii_digit());
    }
    let got = parse(t.str(), Round::NearestTiesToEven);
    let b = &t.b[..n];
    let neg = n > 0 && b[0] == b'-';
    let plus = n > 0 && b[0] == b'+';
    let w = if neg || plus { &b[1..] } else { b };
    let inf = if plus { eq(w, "Inf") } else { eq(w, "inf") || eq(w, "INFINITY") || neg && eq(w, "Inf") };
    let nan = !plus && (eq(w, "nan") || eq(w, "NaN"));
    let snan = !plus && (eq(w, "snan") || eq(w, "sNaN") || eq(w, "Snan") || eq(w, "SNaN"));
    check(got.is_some() == (inf || nan || snan), "accepts exactly the special spellings");
    if let Some((x, st)) = got {
        let m = if inf { T::INF } else { T::F::NAN.to_bits() };
        if snan {
            check_eq(x, if neg { (-T::F::snan(None)).to_bits() } else { T::F::snan(None).to_bits() }, "snan");
        } else {
            check_eq(x, signed::<T>(neg, m), "special value");
        }
        check(st == Status::OK, "flags");
    }
}
/// any text of up to four characters after 0x
fn h_gram<T: Fmt>(n: usize) {
    let mut t = Text::new();
    let s = any_in("text.sign", 0, 2);
    if s > 0 {
        t.c(if s == 1 { b'+' } else { b'-' });
    }
    t.c(b'0');
    t.c(if any("x.case", 1) == 0 { b'x' } else { b'X' });
    let at = t.n;
    ascii(&mut t, n);
    let b = &t.b[at..at + n];
    // digits* [. digits*] p [sign] digits+, at least one digit before the p
    let (mut dots, mut digits, mut i, mut ok) = (0, 0, 0, false);
    while i < n {
        let c = b[i];
        i += 1;
        if c == b'p' || c == b'P' {
            if digits == 0 {
                break;
            }
            if i < n && (b[i] == b'+' || b[i] == b'-') {
                i += 1;
            }
            ok = i < n;
            while i < n {
                if !b[i].is_ascii_digit() {
                    ok = false;
                }
                i += 1;
            }
        } else if c == b'.' {
            dots += 1;
            if dots > 1 {
                break;
            }
        } else if c.is_ascii_hexdigit() {
            digits += 1;
        } else {
            break;
        }
    }
    let got = T::F::from_str_r(t.str(), Round::NearestTiesToEven);
    check(got.is_ok() == ok, "accepts exactly the grammar");
}
fn h_word4<T: Fmt>() {
    h_word::<T>(any_in("len", 0, 5) as usize);
}
fn h_gram4<T: Fmt>() {
    h_gram::<T>(any_in("len", 0, 4) as usize);
}
/// exponents far beyond the range of any format and around the limits of the exponent type
fn h_extreme<T: Fmt>() {
    let r = any_round();
    let mut t = Text::new();
    let neg = t.sign();
    t.s("0x");
    match any_in("shape", 0, 2) {
        0 => {}
        1 => t.s(".0000000000"),
        _ => t.s("00"),
    }
    digit(&mut t, "d0", false);
    let nonzero = t.b[t.n - 1] != b'0';
    if any("long", 1) == 1 {
        t.s("000000000000");
    }
    t.c(b'p');
    let minus = match any_in("exp.sign", 0, 2) {
        0 => false,
        1 => {
            t.c(b'+');
            false
        }
        _ => {
            t.c(b'-');
            true
        }
    };
    t.s(match any_in("exp.top", 0, 6) {
        0 => "40",
        1 => "4294967",
        2 => "2147483",
        3 => "21474836",
        4 => "214748364",
        5 => "9999999999",
        _ => "9223372036854775",
    });
    for i in 1..4 {
        t.c(b'0' + any_in(D[i], 0, 9) as u8);
    }
    join();
    let got = T::F::from_str_r(t.str(), r);
    check(got.is_ok(), "parses");
    let Ok(got) = got else { return };
    if !nonzero {
        result::<T>(got, (signed::<T>(neg, 0), Status::OK), "zero");
    } else if minus {
        result::<T>(got, round::<T>(neg, z(1), -40000, r), "a value far below the range");
    } else {
        result::<T>(got, overflow::<T>(neg, r), "a value far above the range");
    }
}
fns! { C25_extreme = h_extreme; C25_hex = h_short; C25_long = h_long; C25_nan = h_nan; C25_word = h_word4; C25_grammar = h_gram4; }
pub mod C25_infinity {
    use super::*;
    fn one<T: Fmt>() {
        let (s, neg) = match any_in("text", 0, 5) {
            0 => ("inf", false),
            1 => ("INFINITY", false),
            2 => ("+Inf", false),
            3 => ("-Inf", true),
            4 => ("-inf", true),
            _ => ("-INFINITY", true),
        };
        let got = T::F::from_str_r(s, any_round());
        check(got.is_ok(), "parses");
        if let Ok(g) = got {
            result::<T>(g, (signed::<T>(neg, T::INF), Status::OK), "infinity");
        }
    }
    fns!(@ one Half BFloat Single Double Quad X87 E5M2 E4M3);
}
// ---- C30
fn pow10(v: Z, e: usize) -> Z {
    let mut v = v;
    for _ in 0..e {
        v = z_mul(v, z(10));
    }
    v
}
fn put_exp(t: &mut Text, e: usize) {
    // the spelling of the exponent varies with its value: e5, e+6, E7
    t.c(if e % 3 == 1 { b'E' } else { b'e' });
    if e % 3 == 0 {
        t.c(b'+');
    }
    if e >= 10 {
        t.c(b'0' + (e / 10) as u8);
    }
    t.c(b'0' + (e % 10) as u8);
}
fn is_value<T: Fmt>(t: &Text, neg: bool, v: Z, r: Round) {
    is_scaled::<T>(t, neg, v, 0, r);
}
/// the text denotes v * 2^e
fn is_scaled<T: Fmt>(t: &Text, neg: bool, v: Z, e: i32, r: Round) {
    join();
    refine();
    let got = T::F::from_str_r(t.str(), r);
    check(got.is_ok(), "parses");
    let Ok(got) = got else { return };
    if z_eq(v, z(0)) {
        result::<T>(got, (signed::<T>(neg, 0), Status::OK), "zero");
    } else {
        result::<T>(got, round::<T>(neg, v, e, r), "value of the literal");
    }
}
/// one to four free digits, a power of ten
fn d_int<T: Fmt>() {
    let r = any_round();
    let mut t = Text::new();
    let neg = t.sign();
    let n = any_in("digits", 1, 4) as usize;
    let mut v = z(0);
    for i in 0..n {
        let d = any_in(D[i], 0, 9);
        t.c(b'0' + d as u8);
        v = z_add(z_mul(v, z(10)), z(d));
    }
    let e = split(any_in("exp", 0, 30)) as usize;
    // longer literals: small exponents
    assume(n < 3 || e < 4);
    if e > 0 {
        put_exp(&mut t, e);
    }
    is_value::<T>(&t, neg, pow10(v, e), r);
}
/// an integer written with a point: dd.dd e 2 or more, with leading and trailing zeros
fn d_point<T: Fmt>() {
    let r = any_round();
    let mut t = Text::new();
    let neg = t.sign();
    let zeros = any("zeros", 1) == 1;
    if zeros {
        t.s("000");
    }
    let at = any_in("point", 0, 3) as usize;
    let mut v = z(0);
    for i in 0..3 {
        if i == at {
            t.c(b'.');
        }
        let d = any_in(D[i], 0, 9);
        t.c(b'0' + d as u8);
        v = z_add(z_mul(v, z(10)), z(d));
    }
    if at == 3 {
        t.c(b'.');
    }
    if zeros {
        t.s("00000");
    }
    let e = match any_in("exp", 0, 3) {
        0 => 3,
        1 => 4,
        2 => 6,
        _ => 11,
    };
    put_exp(&mut t, e);
    is_value::<T>(&t, neg, pow10(v, e + at - 3), r);
}
/// more digits than a limb holds: the first, the tenth, the fortieth and the last vary
fn d_long<T: Fmt>() {
    let r = any_round();
    let mut t = Text::new();
    let neg = t.sign();
    let n = 39 + 3 * any_in("digits", 0, 2) as usize;
    let mut v = z(0);
    for i in 0..n {
        let d = if i == 0 || i == n - 1 { any_in(D[if i == 0 { 0 } else { 1 }], 1, 9) } else { 3 };
        t.c(b'0' + d as u8);
        v = z_add(z_mul(v, z(10)), z(d));
    }
    is_value::<T>(&t, neg, v, r);
}
/// any exponent of up to twelve digits on a zero, far exponents on any number
fn d_extreme<T: Fmt>() {
    let r = any_round();
    let mut t = Text::new();
    let neg = t.sign();
    let d = match any_in("shape", 0, 3) {
        0 => {
            let d = any_in("d0", 0, 9);
            t.c(b'0' + d as u8);
            d
        }
        1 => {
            t.s("0.00");
            let d = any_in("d0", 0, 9);
            t.c(b'0' + d as u8);
            d
        }
        2 => {
            let d = any_in("d0", 0, 9);
            t.c(b'0' + d as u8);
            t.s("00.");
            d
        }
        _ => {
            let d = any_in("d0", 0, 9);
            t.c(b'.');
            t.c(b'0' + d as u8);
            t.s("00");
            d
        }
    };
    t.c(b'e');
    let minus = any("exp.minus", 1) == 1;
    if minus {
        t.c(b'-');
    }
    t.s(match any_in("exp.top", 0, 7) {
        0 => "6",
        1 => "51",
        2 => "214748364",
        3 => "429496729",
        4 => "2147483",
        5 => "99999999999",
        6 => "922337203685477580",
        _ => "0000000054",
    });
    for i in 1..4 {
        t.c(b'0' + any_in(D[i], 0, 9) as u8);
    }
    join();
    let got = T::F::from_str_r(t.str(), r);
    check(got.is_ok(), "parses");
    let Ok(got) = got else { return };
    if d == 0 {
        result::<T>(got, (signed::<T>(neg, 0), Status::OK), "zero");
    } else if minus {
        result::<T>(got, round::<T>(neg, z(1), -40000, r), "a value far below the range");
    } else {
        result::<T>(got, overflow::<T>(neg, r), "a value far above the range");
    }
}
/// any ASCII text of up to five characters that starts with a digit or a point: accepted exactly when it is a decimal literal
fn d_gram<T: Fmt>() {
    let mut t = Text::new();
    let s = any_in("text.sign", 0, 2);
    if s > 0 {
        t.c(if s == 1 { b'+' } else { b'-' });
    }
    let at = t.n;
    // a literal with a negative exponent or a fraction is not evaluated here: zero digits only
    let n = any_in("len", 1, 5) as usize;
    for i in 0..n {
        let c = any_in(D[i], 0, 127) as u8;
        assume(!(c > b'0' && c <= b'9'));
        t.c(c);
    }
    let b = &t.b[at..at + n];
    assume(b[0] == b'0' || b[0] == b'.' || b[0] == b'e' || b[0] == b'E');
    assume(!(n > 1 && b[0] == b'0' && (b[1] == b'x' || b[1] == b'X')));
    let (mut dots, mut digits, mut i, mut ok) = (0, 0, 0, true);
    while i < n && ok {
        let c = b[i];
        i += 1;
        if c == b'.' {
            dots += 1;
            ok = dots < 2;
        } else if c == b'0' {
            digits += 1;
        } else if c == b'e' || c == b'E' {
            ok = digits > 0;
            // a missing exponent counts as zero
            if i < n && (b[i] == b'+' || b[i] == b'-') {
                i += 1;
            }
            while i < n {
                if b[i] != b'0' {
                    ok = false;
                }
                i += 1;
            }
        } else {
            ok = false;
        }
    }
    let got = T::F::from_str_r(t.str(), any_round());
    check(got.is_ok() == (ok && digits > 0), "accepts exactly the grammar");
    if let Ok(g) = got {
        result::<T>(g, (signed::<T>(s == 2, 0), Status::OK), "zero");
    }
}
/// got is (-1)^neg * n / 10^k rounded once (n > 0)
fn is_quotient<T: Fmt>(got: StatusAnd<T::F>, neg: bool, n: Z, k: usize, r: Round) {
    let bits = got.value.to_bits();
    let mag = bits & (T::SIGN - 1);
    check((bits & T::SIGN != 0) == neg, "sign");
    if mag >= T::INF {
        check(false, "finite");
        return;
    }
    let e = (mag >> T::FRAC) as i32;
    let e = split(e as u128) as i32;
    let f = mag & ((1 << (T::P - 1)) - 1);
    let qmin = T::EMIN - (T::P as i32 - 1);
    let (s, q) = if e == 0 { (z(f), qmin) } else { (z_add(z(f), z(1 << (T::P - 1))), e - 1 + qmin) };
    // s * 2^q against n / 10^k: s * 5^k * 2^(q+k) against n
    let mut a = s;
    let mut u = z(1);
    for _ in 0..k {
        a = z_mul(a, z(5));
        u = z_mul(u, z(5));
    }
    let x = q + k as i32;
    let (a, u, mut b) = if x >= 0 { (z_shl(a, x as u32), z_shl(u, x as u32), n) } else { (a, u, z_shl(n, (-x) as u32)) };
    // a against b, u is one unit in the last place; below a power of two the unit is half as much
    let mut a = a;
    let mut even = z_eq(z_low(s, 1), z(0));
    let exact = z_eq(a, b);
    if !exact && z_lt(b, a) && e > 1 && f == 0 {
        a = z_shl(a, 1);
        b = z_shl(b, 1);
        even = true;
    }
    let d = z_sub(b, a);
    if !exact {
        let below = z_lt(a, b);
        match r {
            Round::TowardZero => check(below && z_lt(d, u), "toward zero"),
            Round::TowardPositive | Round::TowardNegative if (r == Round::TowardPositive) == neg => check(below && z_lt(d, u), "toward zero on this sign"),
            Round::TowardPositive | Round::TowardNegative => check(!below && z_lt(z_neg(d), u), "away from zero on this sign"),
            _ => {
                let twice = z_shl(if below { d } else { z_neg(d) }, 1);
                check(!z_lt(u, twice), "nearest");
                if z_eq(u, twice) {
                    check(if r == Round::NearestTiesToEven { even } else { !below }, "tie");
                }
            }
        }
    }
    let tiny = z_lt(s, z(1 << (T::P - 1)));
    let mut want = Status::OK;
    if !exact {
        want = if tiny { Status::UNDERFLOW | Status::INEXACT } else { Status::INEXACT };
    }
    check(got.status == want, "status");
}
/// literals whose value has a fraction: a fixed prefix, then a free digit; the point before or after
/// the prefix or after the digit, any of twenty powers of ten
fn d_frac<T: Fmt>() {
    let r = any_round();
    let mut t = Text::new();
    let neg = t.sign();
    let half = 1u128 << (T::P - 1);
    // the last two: just above and just below a tie
    let i = split(any_in("prefix", 0, 9)) as usize;
    let prefix = [0, 1, 97, 179769313, 49999999999999999, half, half + 1, 2 * half - 1, half, half + 1][i];
    let mut ds = [0u8; 60];
    let mut n = 0;
    if i >= 8 {
        while n < 19 {
            ds[n] = if i == 8 { 0 } else { 9 };
            n += 1;
        }
        ds[n] = if i == 8 { 5 } else { 4 };
        n += 1;
    }
    let more = n;
    let mut m = prefix;
    while m > 0 {
        ds[n] = (m % 10) as u8;
        m /= 10;
        n += 1;
    }
    // where the point stands: n digits before the free one
    let at = [0, n, n + 1][split(any_in("point", 0, 2)) as usize];
    for i in 0..n {
        if i == at {
            t.c(b'.');
        }
        t.c(b'0' + ds[n - 1 - i]);
    }
    if at == n {
        t.c(b'.');
    }
    let d = any_in("d", 0, 9);
    t.c(b'0' + d as u8);
    let mut v = z(0);
    for i in 0..n {
        v = z_add(z_mul(v, z(10)), z(ds[n - 1 - i] as u128));
    }
    let v = z_add(z_mul(v, z(10)), z(d));
    // the power of ten of the last digit
    let k = [1, 2, 3, 4, 5, 6, 7, 8, 10, 14, 17, 20, 28, 34, 37, 38, 40, 44, 45, 46][split(any_in("exp", 0, 19)) as usize] + more;
    let e = n as i32 + 1 - at as i32 - k as i32;
    if e != 0 {
        t.c(if k % 2 == 0 { b'e' } else { b'E' });
        let m = if e < 0 {
            t.c(b'-');
            -e
        } else {
            e
        };
        if m >= 10 {
            t.c(b'0' + (m / 10) as u8);
        }
        t.c(b'0' + (m % 10) as u8);
    }
    assume(z_lt(z(0), v));
    join();
    let got = T::F::from_str_r(t.str(), r);
    check(got.is_ok(), "parses");
    let Ok(got) = got else { return };
    if T::EMAX < 200 {
        let one = pow10(z(1), k);
        if !z_lt(v, z_shl(one, T::EMAX as u32 + 1)) {
            return result::<T>(got, crate::spec::overflow::<T>(neg, r), "overflow");
        }
        // (the last binade is the integers' business)
        if !z_lt(v, z_shl(one, T::EMAX as u32)) {
            return;
        }
    }
    is_quotient::<T>(got, neg, v, k, r);
}
/// literals at, just above and just below a boundary: the middle of two neighbours or a value itself,
/// from half the smallest subnormal to one; the last of 20, 40 or 60 further digits is free
fn d_near<T: Fmt>() {
    let r = any_round();
    let neg = any_neg("text.sign");
    let p = T::P as i32;
    let qmin = T::EMIN - (p - 1);
    let top = 1u128 << p;
    let at = split(any_in("at", 0, 10));
    let (s, q) = match at {
        // the middle of zero and the smallest subnormal, of the next two, and below and above the smallest normal number
        0 => (1, qmin - 1),
        1 => (3, qmin - 1),
        2 => (top - 1, qmin - 1),
        3 => (top + 1, qmin - 1),
        // the smallest subnormal and normal numbers
        4 => (1, qmin),
        5 => (top / 2, qmin),
        // the number below one, the middle above it, and the one below one; one; the middle above it; a half
        6 => (top - 1, -p),
        7 => (2 * top - 1, -p - 1),
        8 => (1, 0),
        9 => (top + 1, -p),
        _ => (1, -1),
    };
    assume(q > -160);
    // its digits, the last first
    let mut ds = [0u8; 128];
    let mut n = 0;
    let mut m = s;
    while m > 0 {
        ds[n] = (m % 10) as u8;
        m /= 10;
        n += 1;
    }
    for _ in 0..-q {
        let mut c = 0;
        for i in 0..n {
            let v = 5 * ds[i] + c;
            ds[i] = v % 10;
            c = v / 10;
        }
        if c > 0 {
            ds[n] = c;
            n += 1;
        }
    }
    let more = 20 * (1 + split(any_in("more", 0, 2)) as usize);
    let below = any("below", 1) == 1;
    if below {
        let mut i = 0;
        while ds[i] == 0 {
            ds[i] = 9;
            i += 1;
        }
        ds[i] -= 1;
    }
    let d = any_in("d", 0, 9);
    let mut b = [0u8; 200];
    let mut l = 0;
    if neg {
        b[0] = b'-';
        l = 1;
    }
    let mut v = z(0);
    for i in 0..n {
        b[l] = b'0' + ds[n - 1 - i];
        l += 1;
        v = z_add(z_mul(v, z(10)), z(ds[n - 1 - i] as u128));
    }
    for _ in 1..more {
        let c = if below { 9 } else { 0 };
        b[l] = b'0' + c;
        l += 1;
        v = z_add(z_mul(v, z(10)), z(c as u128));
    }
    b[l] = b'0' + d as u8;
    l += 1;
    let v = z_add(z_mul(v, z(10)), z(d));
    let k = more + (-q) as usize;
    b[l] = b'e';
    b[l + 1] = b'-';
    b[l + 2] = b'0' + (k / 100) as u8;
    b[l + 3] = b'0' + (k / 10 % 10) as u8;
    b[l + 4] = b'0' + (k % 10) as u8;
    l += 5;
    join();
    let got = T::F::from_str_r(unsafe { core::str::from_utf8_unchecked(&b[..l]) }, r);
    check(got.is_ok(), "parses");
    let Ok(got) = got else { return };
    is_quotient::<T>(got, neg, v, k, r);
}
/// digits and power of ten of decimal numbers very close to the middle of two values or to a value:
/// the products of convergents, found by tools/hard.py
fn hard<T: Fmt>(fraction: bool) -> &'static [(u128, i32)] {
    if fraction {
        return match T::P {
        8 => &[(218153, -10), (8881784197, -25), (18735446499, -40)],
        11 => &[(597, -5), (4991889, -12), (904401531443, -20)],
        24 => &[(336881633700159, -25), (6475049196144587, -40), (27117475087047575, -55)],
        53 => &[(49635064114686541, -25), (1508227115074120249725077, -57), (622735436358679031404457, -93), (1721583799766314784191397, -128)],
        64 => &[(4817292435502801, -25), (662607775410982833714098657, -55), (233981429668902529962299349, -64), (2091196734170335781210570007, -79), (1477375689431085720744490885, -93), (11370591665279464073600915685, -107), (739795340512624727522831933, -118), (2661198767700535829981778535, -128)],
        113 => &[(10000000000697727879702701, -25), (75275336396799796206529523589977289611, -55), (88948704678026337480923590559729370721, -64), (6594084051030023087363846250383286625, -79), (91887024281016481426017288468951768229, -93), (97961663362356667922023482316925574893, -107), (94622766431154077197132797801189023, -118), (83041893305030623296467015314296477809, -128)],
        _ => &[],
        };
    }
    match T::P {
        8 => &[(114369813257, 10), (346623211, 20), (70874852119, 25)],
        24 => &[(378303246901049, 8), (2528615538442535, 15), (1538638695401495, 20)],
        53 => &[(100483870590765524051387, 25), (137326372731351999216733, 57), (2969311328757546071496683, 85), (7169065283035040131933967, 110)],
        64 => &[(603090287642081504137849085, 25), (5182376072679952363703290271, 55), (2682365341660909648593319081, 61), (5214719477932398466348803479, 70), (16133335037810406750520783147, 84), (1310008436211418169071304759, 97), (5884683245369794303881581967, 109), (3810575500102256017552120019, 122), (3225411767684587327959166171, 131), (651731685283030923481537883, 140), (5413707442432936769595333823, 147)],
        113 => &[(53919893334305488498502123354238368481, 30), (79175258482044175684983554117919191253, 55), (2073694741482312874561909632547725257, 61), (26355844412299232847181388345444609099, 70), (61647822255354289188853302826420542885, 84), (40675043413929864181732394988309651421, 97), (84258307027918467316295157797173279109, 109), (7954297133683773705148339605974367649, 122), (87487878711568999500492460812037444157, 131), (8096668490041446622418316213457602365, 140), (1797303766572644293790628861983423959, 147)],
        _ => &[],
    }
}
/// such literals, and with another last digit
fn d_hard<T: Fmt>(fraction: bool) {
    let r = any_round();
    let list = hard::<T>(fraction);
    let i = split(any_in("case", 0, 11)) as usize;
    assume(i < list.len());
    let (digits, e) = list[i];
    let mut t = Text::new();
    let neg = any_neg("text.sign");
    if neg {
        t.c(b'-');
    }
    let mut ds = [0u8; 40];
    let mut n = 0;
    let mut m = digits / 10;
    while m > 0 {
        ds[n] = (m % 10) as u8;
        m /= 10;
        n += 1;
    }
    for i in 0..n {
        t.c(b'0' + ds[n - 1 - i]);
    }
    // the last digit, one less or one more
    let d = (digits + 9 + any_in("d", 0, 2)) % 10;
    t.c(b'0' + d as u8);
    t.c(b'e');
    if e < 0 {
        t.c(b'-');
    }
    let k = e.unsigned_abs() as usize;
    t.c(b'0' + (k / 100) as u8);
    t.c(b'0' + (k / 10 % 10) as u8);
    t.c(b'0' + (k % 10) as u8);
    let v = z_add(z_mul(z(digits / 10), z(10)), z(d));
    join();
    let got = T::F::from_str_r(t.str(), r);
    check(got.is_ok(), "parses");
    let Ok(got) = got else { return };
    if fraction {
        return is_quotient::<T>(got, neg, v, k, r);
    }
    let mut v = v;
    for _ in 0..k {
        v = z_mul(v, z(5));
    }
    result::<T>(got, round::<T>(neg, v, k as i32, r), "value of the literal");
}
fn i_hard<T: Fmt>() {
    d_hard::<T>(false)
}
fn f_hard<T: Fmt>() {
    d_hard::<T>(true)
}
/// integers of many digits next to a boundary: the last digit is free
fn i_near<T: Fmt>() {
    let r = any_round();
    let neg = any_neg("text.sign");
    let top = 1u128 << T::P;
    let at = split(any_in("at", 0, 8)) as usize;
    let s = [top + 1, 2 * top - 1, top / 2][at % 3];
    let q = [20, 110, 210][at / 3];
    assume(q + T::P as i32 <= T::EMAX);
    let mut ds = [0u8; 120];
    let mut n = 0;
    let mut m = s;
    while m > 0 {
        ds[n] = (m % 10) as u8;
        m /= 10;
        n += 1;
    }
    for _ in 0..q {
        let mut c = 0;
        for i in 0..n {
            let v = 2 * ds[i] + c;
            ds[i] = v % 10;
            c = v / 10;
        }
        if c > 0 {
            ds[n] = c;
            n += 1;
        }
    }
    let d = any_in("d", 0, 9);
    let mut b = [0u8; 128];
    let mut l = 0;
    if neg {
        b[0] = b'-';
        l = 1;
    }
    let mut v = z(0);
    for i in 1..n {
        b[l] = b'0' + ds[n - i];
        l += 1;
        v = z_add(z_mul(v, z(10)), z(ds[n - i] as u128));
    }
    b[l] = b'0' + d as u8;
    l += 1;
    let v = z_add(z_mul(v, z(10)), z(d));
    join();
    let got = T::F::from_str_r(unsafe { core::str::from_utf8_unchecked(&b[..l]) }, r);
    check(got.is_ok(), "parses");
    let Ok(got) = got else { return };
    result::<T>(got, round::<T>(neg, v, 0, r), "value of the literal");
}
fns! { C30_near = i_near; C32_frac = d_frac; C32_near = d_near; C32_hard = f_hard; C30_hard = i_hard; }
fns! { C30_int = d_int; C30_point = d_point; C30_edge = d_edge; C30_top = d_top; C30_long = d_long; C30_extreme = d_extreme; C30_grammar = d_gram; }

// ---- text of a double-double
fn parse_dd(s: &str, r: Round) -> Option<(u128, Status)> {
    ppc::DoubleDouble::from_str_r(s, r).ok().map(|g| (g.value.to_bits(), g.status))
}
pub mod C25_dd_nan {
    pub fn DoubleDouble() {
        super::nan_text::<crate::spec::Double>(super::parse_dd);
    }
}
pub mod C25_dd_word {
    pub fn DoubleDouble() {
        super::words::<crate::spec::Double>(crate::rt::any_in("len", 0, 5) as usize, super::parse_dd);
    }
}
pub mod C34_hex {
    use super::*;
    use crate::entries::dd::wide;
    use rustc_apfloat::ppc::DoubleDouble as Dd;
    /// the leading digits, those around the end of the high part and the last ones are free
    pub fn DoubleDouble() {
        let r = any_round();
        let n = [1, 4, 13, 14, 20, 26, 27, 30][split(any_in("digits", 0, 7)) as usize];
        let at = split(any_in("point", 0, 2)) as usize;
        let mut t = Text::new();
        let neg = t.sign();
        t.s("0x");
        let mut v = z(0);
        for i in 0..n {
            if i == at && at > 0 {
                t.c(b'.');
            }
            let d = if i >= 2 && i + 3 < n && i != 13 && i != 12 {
                t.c(b'0');
                0
            } else {
                digit(&mut t, D[i], i == 0 || i + 1 == n)
            };
            v = z_add(z_shl(v, 4), z(d));
        }
        t.c(b'p');
        let i = split(any_in("exp.at", 0, 4)) as usize;
        let e = [0, 900, -900, -400, 77][i];
        t.s(["0", "900", "-900", "-400", "77"][i]);
        join();
        let got = Dd::from_str_r(t.str(), r);
        check(got.is_ok(), "parses");
        let Ok(got) = got else { return };
        if z_eq(v, z(0)) {
            check_eq(got.value.to_bits(), (neg as u128) << 63, "zero");
            return;
        }
        let q = e - if at > 0 && at < n { 4 * (n - at) as i32 } else { 0 };
        let want = wide(neg, v, q, r);
        check_eq(got.value.to_bits(), want.0, "value of the literal");
        check_eq(got.status.bits() as u128, want.1.bits() as u128, "flags");
    }
}
pub mod C34_decimal {
    use super::*;
    use crate::entries::dd::wide;
    /// one or two free digits, a power of ten
    pub fn DoubleDouble() {
        let r = any_round();
        let mut t = Text::new();
        let neg = t.sign();
        let n = any_in("digits", 1, 2) as usize;
        let mut v = z(0);
        for i in 0..n {
            let d = any_in(D[i], 0, 9);
            t.c(b'0' + d as u8);
            v = z_add(z_mul(v, z(10)), z(d));
        }
        let e = split(any_in("exp", 0, 45)) as usize;
        if e > 0 {
            put_exp(&mut t, e);
        }
        join();
        refine();
        let got = parse_dd(t.str(), r);
        check(got.is_some(), "parses");
        let Some(got) = got else { return };
        if z_eq(v, z(0)) {
            check_eq(got.0, (neg as u128) << 63, "zero");
            return;
        }
        let want = wide(neg, pow10(v, e), 0, r);
        check_eq(got.0, want.0, "value of the literal");
        check_eq(got.1.bits() as u128, want.1.bits() as u128, "flags");
    }
}
