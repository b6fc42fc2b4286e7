//! Vocabulary of the analyser. Nothing here is ever executed: the analyser interprets calls to these
//! functions abstractly.
pub trait Ty {}
#[inline(never)] pub fn any<T>() -> T { loop {} }
#[inline(never)] pub fn any_in(_lo: i64, _hi: i64) -> i64 { loop {} }
#[inline(never)] pub fn assume(_b: bool) { loop {} }
#[inline(never)] pub fn check(_id: &'static str, _b: bool) { loop {} }
#[inline(never)] pub fn check_v(_id: &'static str, _b: bool, _a: i64, _c: i64) { loop {} }
#[inline(never)] pub fn fail(_id: &'static str) { loop {} }
#[inline(never)] pub fn reached(_id: &'static str) { loop {} }
#[inline(never)] pub fn stop() { loop {} }
#[inline(never)] pub fn key_set(_i: usize, _v: i64) { loop {} }
#[inline(never)] pub fn key_get(_i: usize) -> i64 { loop {} }
#[inline(never)] pub fn dat_set<T>(_i: usize, _v: T) { loop {} }
#[inline(never)] pub fn dat_get<T>(_i: usize) -> T { loop {} }
/// finite partition enumerated by the driver: one analysis per value in 0..n
#[inline(never)] pub fn part(_n: i64) -> i64 { loop {} }
#[inline(never)] pub fn split(_x: i64) -> i64 { loop {} }
#[inline(never)] pub fn any_slice(_len: usize) -> &'static [u8] { loop {} }
#[inline(never)] pub fn any_slice_in(_len: usize, _lo: i64, _hi: i64) -> &'static [u8] { loop {} }
#[inline(never)] pub fn uf(_id: i64, _a: i64, _b: i64, _c: i64, _lo: i64, _hi: i64) -> i64 { loop {} }
#[inline(never)] pub fn same(_a: i64, _b: i64) -> bool { loop {} }
#[inline(never)] pub fn proved(_b: bool) -> bool { loop {} }
#[inline(never)] pub fn range_lo(_a: i64) -> i64 { loop {} }
#[inline(never)] pub fn range_hi(_a: i64) -> i64 { loop {} }
#[inline(never)] pub fn coef(_a: i64, _b: i64) -> i64 { loop {} }
#[inline(never)] pub fn linear_rest(_a: i64) -> (i64, i64) { loop {} }
#[inline(never)] pub fn is_const(_a: i64) -> bool { loop {} }
#[inline(never)] pub fn note<T>(_id: &'static str, _v: T) { loop {} }
#[inline(never)] pub fn dump_facts() { loop {} }
#[inline(never)] pub fn set_ite(_on: i64) { loop {} }
#[inline(never)] pub fn set_unroll_cap(_n: i64) { loop {} }
#[inline(never)] pub fn set_merge_cap(_n: i64) { loop {} }
#[inline(never)] pub fn assume_avx2(_on: i64) { loop {} }
#[inline(never)] pub fn avx2_on() -> bool { loop {} }
/// provably equal length and contents
#[inline(never)] pub fn same_bytes(_a: &[u8], _b: &[u8]) -> bool { loop {} }
/// bound, in thousandths, of the distance between a value and eight times the DCT coefficient (u, v) of the inputs
#[inline(never)] pub fn dct_error(_a: i64, _in: &[i16], _u: i64, _v: i64) -> i64 { loop {} }
/// bound, in thousandths, of |a - (k0 r + k1 g + k2 b) / 10^6 - k3|
#[inline(never)] pub fn ycc_error(_a: i64, _r: i64, _g: i64, _b: i64, _k0: i64, _k1: i64, _k2: i64, _k3: i64) -> i64 { loop {} }
