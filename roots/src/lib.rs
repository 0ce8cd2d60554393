//! Entry points the extractor starts from: every public operation of rabe-bn, instantiated once.
//! Nothing here runs; the functions only name what the analysis has to reach.
#![allow(improper_ctypes, clippy::all)]
use rabe_bn::arith::{U256, U512};
use rabe_bn::{pairing, Fr, Group, Gt, G1, G2};
use rand::distributions::{Distribution, Standard};
use rand::RngCore;

extern "C" {
    fn opaque_u32(p: *mut OpaqueRng) -> u32;
    fn opaque_u64(p: *mut OpaqueRng) -> u64;
    fn opaque_fill(p: *mut OpaqueRng, d: *mut u8, n: usize);
}

/// A generator about which nothing is known except that it is the one supplied by the caller.
pub struct OpaqueRng(pub u64);

impl RngCore for OpaqueRng {
    fn next_u32(&mut self) -> u32 {
        unsafe { opaque_u32(self) }
    }
    fn next_u64(&mut self) -> u64 {
        unsafe { opaque_u64(self) }
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        unsafe { opaque_fill(self, dest.as_mut_ptr(), dest.len()) }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

// ---- Fr ----
pub fn root_fr_zero() -> Fr { Fr::zero() }
pub fn root_fr_one() -> Fr { Fr::one() }
pub fn root_fr_pow(a: &Fr, e: Fr) -> Fr { a.pow(e) }
pub fn root_fr_from_str(s: &str) -> Option<Fr> { Fr::from_str(s) }
pub fn root_fr_inverse(a: &Fr) -> Option<Fr> { a.inverse() }
pub fn root_fr_is_zero(a: &Fr) -> bool { a.is_zero() }
pub fn root_fr_interpret(b: &[u8; 64]) -> Fr { Fr::interpret(b) }
pub fn root_fr_from_slice(b: &[u8]) -> Result<Fr, rabe_bn::FieldError> { Fr::from_slice(b) }
pub fn root_fr_into_bytes(a: &Fr) -> Vec<u8> { a.into_bytes() }
pub fn root_fr_new_mul_factor(a: U256) -> Fr { Fr::new_mul_factor(a) }
pub fn root_fr_add(a: Fr, b: Fr) -> Fr { a + b }
pub fn root_fr_sub(a: Fr, b: Fr) -> Fr { a - b }
pub fn root_fr_neg(a: Fr) -> Fr { -a }
pub fn root_fr_mul(a: Fr, b: Fr) -> Fr { a * b }
pub fn root_fr_eq(a: &Fr, b: &Fr) -> bool { a == b }
pub fn root_fr_ne(a: &Fr, b: &Fr) -> bool { a != b }
pub fn root_fr_sample(r: &mut OpaqueRng) -> Fr { Standard.sample(r) }
pub fn root_fr_into_vec(a: Fr) -> Vec<u8> { Vec::<u8>::from(a) }
pub fn root_fr_clone(a: &Fr) -> Fr { a.clone() }
pub fn root_fr_display(a: &Fr, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::Display::fmt(a, f) }
pub fn root_fr_debug(a: &Fr, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::Debug::fmt(a, f) }

// ---- groups ----
macro_rules! group_roots {
    ($t:ty, $($n:ident)*) => { group_roots!(@ $t, $($n),*); };
    (@ $t:ty, $zero:ident, $one:ident, $random:ident, $is_zero:ident, $into_bytes:ident, $normalize:ident,
     $add:ident, $sub:ident, $neg:ident, $mul:ident, $eq:ident, $ne:ident, $sample:ident, $clone:ident, $debug:ident) => {
        pub fn $zero() -> $t { <$t as Group>::zero() }
        pub fn $one() -> $t { <$t as Group>::one() }
        pub fn $random(r: &mut OpaqueRng) -> $t { <$t as Group>::random(r) }
        pub fn $is_zero(a: &$t) -> bool { Group::is_zero(a) }
        pub fn $into_bytes(a: &$t) -> Vec<u8> { Group::into_bytes(a) }
        pub fn $normalize(a: &mut $t) { Group::normalize(a) }
        pub fn $add(a: $t, b: $t) -> $t { a + b }
        pub fn $sub(a: $t, b: $t) -> $t { a - b }
        pub fn $neg(a: $t) -> $t { -a }
        pub fn $mul(a: $t, b: Fr) -> $t { a * b }
        pub fn $eq(a: &$t, b: &$t) -> bool { a == b }
        pub fn $ne(a: &$t, b: &$t) -> bool { a != b }
        pub fn $sample(r: &mut OpaqueRng) -> $t { Standard.sample(r) }
        pub fn $clone(a: &$t) -> $t { a.clone() }
        pub fn $debug(a: &$t, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::Debug::fmt(a, f) }
    };
}
group_roots!(G1, root_g1_zero root_g1_one root_g1_random root_g1_is_zero root_g1_into_bytes root_g1_normalize root_g1_add root_g1_sub root_g1_neg root_g1_mul root_g1_eq root_g1_ne root_g1_sample root_g1_clone root_g1_debug);
group_roots!(G2, root_g2_zero root_g2_one root_g2_random root_g2_is_zero root_g2_into_bytes root_g2_normalize root_g2_add root_g2_sub root_g2_neg root_g2_mul root_g2_eq root_g2_ne root_g2_sample root_g2_clone root_g2_debug);
pub fn root_g1_into_vec(a: G1) -> Vec<u8> { Vec::<u8>::from(a) }
pub fn root_g1_display(a: &G1, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::Display::fmt(a, f) }

// ---- Gt ----
pub fn root_gt_one() -> Gt { Gt::one() }
pub fn root_gt_pow(a: &Gt, e: Fr) -> Gt { a.pow(e) }
pub fn root_gt_inverse(a: &Gt) -> Gt { a.inverse() }
pub fn root_gt_into_bytes(a: &Gt) -> Vec<u8> { a.into_bytes() }
pub fn root_gt_mul(a: Gt, b: Gt) -> Gt { a * b }
pub fn root_gt_eq(a: &Gt, b: &Gt) -> bool { a == b }
pub fn root_gt_ne(a: &Gt, b: &Gt) -> bool { a != b }
pub fn root_gt_sample(r: &mut OpaqueRng) -> Gt { Standard.sample(r) }
pub fn root_gt_into_vec(a: Gt) -> Vec<u8> { Vec::<u8>::from(a) }
pub fn root_gt_clone(a: &Gt) -> Gt { a.clone() }
pub fn root_gt_display(a: &Gt, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::Display::fmt(a, f) }
pub fn root_gt_debug(a: &Gt, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::Debug::fmt(a, f) }
pub fn root_pairing(a: G1, b: G2) -> Gt { pairing(a, b) }

// ---- arith ----
pub fn root_u256_from_arr(a: [u64; 4]) -> U256 { U256::from(a) }
pub fn root_u256_from_slice(s: &[u8]) -> Result<U256, rabe_bn::arith::Error> { U256::from_slice(s) }
pub fn root_u256_zero() -> U256 { U256::zero() }
pub fn root_u256_one() -> U256 { U256::one() }
pub fn root_u256_into_bytes(a: &U256) -> Vec<u8> { a.into_bytes() }
pub fn root_u256_random(r: &mut OpaqueRng, m: &U256) -> U256 { U256::random(r, m) }
pub fn root_u256_is_zero(a: &U256) -> bool { a.is_zero() }
pub fn root_u256_set_bit(a: &mut U256, n: usize, t: bool) -> bool { a.set_bit(n, t) }
pub fn root_u256_get_bit(a: &U256, n: usize) -> Option<bool> { a.get_bit(n) }
pub fn root_u256_add(a: &mut U256, b: &U256, m: &U256) { a.add(b, m) }
pub fn root_u256_sub(a: &mut U256, b: &U256, m: &U256) { a.sub(b, m) }
pub fn root_u256_mul(a: &mut U256, b: &U256, m: &U256, inv: u64) { a.mul(b, m, inv) }
pub fn root_u256_neg(a: &mut U256, m: &U256) { a.neg(m) }
pub fn root_u256_is_even(a: &U256) -> bool { a.is_even() }
pub fn root_u256_invert(a: &mut U256, m: &U256) { a.invert(m) }
pub fn root_u256_bits_all(a: &U256) -> ([bool; 256], usize, bool) {
    let mut o = [false; 256];
    let mut n = 0;
    let mut it = a.bits();
    while let Some(b) = it.next() {
        if n < 256 { o[n] = b; }
        n += 1;
        if n > 300 { break; }
    }
    let again = it.next().is_some();
    (o, n, again)
}
pub fn root_u256_cmp(a: &U256, b: &U256) -> std::cmp::Ordering { a.cmp(b) }
pub fn root_u256_lt(a: &U256, b: &U256) -> bool { a < b }
pub fn root_u256_le(a: &U256, b: &U256) -> bool { a <= b }
pub fn root_u256_gt(a: &U256, b: &U256) -> bool { a > b }
pub fn root_u256_ge(a: &U256, b: &U256) -> bool { a >= b }
pub fn root_u256_eq(a: &U256, b: &U256) -> bool { a == b }
pub fn root_u256_ne(a: &U256, b: &U256) -> bool { a != b }
pub fn root_u256_clone(a: &U256) -> U256 { a.clone() }
pub fn root_u256_display(a: &U256, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::Display::fmt(a, f) }
pub fn root_u512_from(c1: &U256, c0: &U256, m: &U256) -> U512 { U512::from(c1, c0, m) }
pub fn root_u512_random(r: &mut OpaqueRng) -> U512 { U512::random(r) }
pub fn root_u512_get_bit(a: &U512, n: usize) -> Option<bool> { a.get_bit(n) }
pub fn root_u512_divrem(a: &U512, m: &U256) -> (Option<U256>, U256) { a.divrem(m) }
pub fn root_u512_interpret(b: &[u8; 64]) -> U512 { U512::interpret(b) }
pub fn root_u512_from_iter(v: &[u64]) -> U512 { v.iter().copied().collect() }
pub fn root_u512_eq(a: &U512, b: &U512) -> bool { a == b }
pub fn root_u512_display(a: &U512, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::Display::fmt(a, f) }

#[cfg(feature = "serde")]
mod serde_roots;
#[cfg(feature = "borsh")]
mod borsh_roots;
