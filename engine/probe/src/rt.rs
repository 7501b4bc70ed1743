//! Analysis runtime: these functions are interpreted by the analyser, never executed.
#![allow(unused_variables)]

/// an exact (unbounded) integer of the analyser
#[derive(Clone, Copy)]
pub struct Z(u128);

#[inline(never)] pub fn any(name: &str, bits: u32) -> u128 { loop {} }
#[inline(never)] pub fn any_in(name: &str, lo: u128, hi: u128) -> u128 { loop {} }
#[inline(never)] pub fn any_iin(name: &str, lo: i128, hi: i128) -> i128 { loop {} }
#[inline(never)] pub fn assume(c: bool) { loop {} }
/// partition on every value of `x`
#[inline(never)] pub fn split(x: u128) -> u128 { loop {} }
#[inline(never)] pub fn check(c: bool, id: &str) { loop {} }
#[inline(never)] pub fn check_eq(got: u128, want: u128, id: &str) { loop {} }
#[inline(never)] pub fn check_eq_i(got: i128, want: i128, id: &str) { loop {} }
#[inline(never)] pub fn z(x: u128) -> Z { loop {} }
#[inline(never)] pub fn zi(x: i128) -> Z { loop {} }
#[inline(never)] pub fn z_add(a: Z, b: Z) -> Z { loop {} }
#[inline(never)] pub fn z_sub(a: Z, b: Z) -> Z { loop {} }
#[inline(never)] pub fn z_mul(a: Z, b: Z) -> Z { loop {} }
#[inline(never)] pub fn z_neg(a: Z) -> Z { loop {} }
#[inline(never)] pub fn z_shl(a: Z, k: u32) -> Z { loop {} }
/// floor(a / 2^k)
#[inline(never)] pub fn z_shr(a: Z, k: u32) -> Z { loop {} }
/// a mod 2^k
#[inline(never)] pub fn z_low(a: Z, k: u32) -> Z { loop {} }
#[inline(never)] pub fn z_bitlen(a: Z) -> u32 { loop {} }
#[inline(never)] pub fn z_lt(a: Z, b: Z) -> bool { loop {} }
#[inline(never)] pub fn z_eq(a: Z, b: Z) -> bool { loop {} }
#[inline(never)] pub fn z_u128(a: Z) -> u128 { loop {} }
#[inline(never)] pub fn z_i128(a: Z) -> i128 { loop {} }
/// merge the states that differ only in a sign
#[inline(never)] pub fn join() { loop {} }
/// partition further on narrow values where an obligation is undecided
#[inline(never)] pub fn refine() { loop {} }
#[inline(never)] pub fn round_mode(name: &str) -> rustc_apfloat::Round { loop {} }

/// calls of `real` are analysed as calls of `with` (a contract that checks the arguments)
#[inline(never)] pub fn stub<T>(real: T, with: T) { loop {} }
/// make a local of the entry visible to contracts
#[inline(never)] pub fn share<T>(name: &str, x: &T) { loop {} }
#[inline(never)] pub fn shared<T>(name: &str) -> &'static T { loop {} }
/// gives the path up as undecided
#[inline(never)] pub fn unsupported() -> ! { loop {} }
