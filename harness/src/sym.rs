//! Symbolic inputs and assertions. The symbolic executor interprets the `__v_*` functions; the replay
//! binary implements them natively over the values of one model.
#![allow(dead_code)]

mod ffi {
    extern "C-unwind" {
        pub fn __v_real(name: *const u8, len: usize, idx: u32, lo: f64, hi: f64) -> f64;
        pub fn __v_choice(name: *const u8, len: usize, idx: u32, n: u32) -> u32;
        pub fn __v_uf(name: *const u8, len: usize, idx: u32, args: *const f64, n: usize, lo: f64, hi: f64) -> f64;
        pub fn __v_same(a: f64, b: f64) -> bool;
        pub fn __v_assume(c: bool);
        pub fn __v_check(name: *const u8, len: usize, idx: u32, c: bool);
        pub fn __v_check_eq(name: *const u8, len: usize, idx: u32, a: f64, b: f64, scale: f64);
        pub fn __v_check_eq_known(
            name: *const u8, len: usize, idx: u32, a: f64, b: f64, alt: f64, scale: f64, id: *const u8, idlen: usize,
        );
        pub fn __v_check_le(name: *const u8, len: usize, idx: u32, a: f64, b: f64, scale: f64);
        pub fn __v_cover(name: *const u8, len: usize, idx: u32);
        pub fn __v_obs(name: *const u8, len: usize, idx: u32, x: f64);
        pub fn __v_param(name: *const u8, len: usize) -> u32;
        pub fn __v_native() -> bool;
        pub fn __v_deriv(y: f64, x: f64) -> f64;
        pub fn __v_la_set(mode: u32, vals: *const f64);
        pub fn __v_fresh(name: *const u8, len: usize, idx: u32, x: f64) -> f64;
        pub fn __v_la_calls() -> usize;
        pub fn __v_la_get(k: usize, what: u32, i: usize, j: usize) -> f64;
        pub fn __v_allow_panic(allow: bool);
        pub fn __v_la_limit(n: usize);
        pub fn __v_rounding(x: f64);
    }
}
use ffi::*;

pub const NOIDX: u32 = u32::MAX;

/// An arbitrary real number in `[lo, hi]`
pub fn real(name: &'static str, lo: f64, hi: f64) -> f64 {
    unsafe { __v_real(name.as_ptr(), name.len(), NOIDX, lo, hi) }
}
pub fn real_i(name: &'static str, i: usize, lo: f64, hi: f64) -> f64 {
    unsafe { __v_real(name.as_ptr(), name.len(), i as u32, lo, hi) }
}
/// An arbitrary number in `0..n`, one execution path for each
pub fn choice(name: &'static str, n: u32) -> u32 {
    unsafe { __v_choice(name.as_ptr(), name.len(), NOIDX, n) }
}
pub fn choice_i(name: &'static str, i: usize, n: u32) -> u32 {
    unsafe { __v_choice(name.as_ptr(), name.len(), i as u32, n) }
}
/// An arbitrary function of `args` with values in `[lo, hi]`
pub fn uf(name: &'static str, args: &[f64], lo: f64, hi: f64) -> f64 {
    unsafe { __v_uf(name.as_ptr(), name.len(), NOIDX, args.as_ptr(), args.len(), lo, hi) }
}
pub fn uf_i(name: &'static str, i: usize, args: &[f64], lo: f64, hi: f64) -> f64 {
    unsafe { __v_uf(name.as_ptr(), name.len(), i as u32, args.as_ptr(), args.len(), lo, hi) }
}
/// Whether `a` and `b` are the same term
pub fn same(a: f64, b: f64) -> bool {
    unsafe { __v_same(a, b) }
}
pub fn assume(c: bool) {
    unsafe { __v_assume(c) }
}
pub fn check(name: &'static str, c: bool) {
    unsafe { __v_check(name.as_ptr(), name.len(), NOIDX, c) }
}
pub fn check_i(name: &'static str, i: usize, c: bool) {
    unsafe { __v_check(name.as_ptr(), name.len(), i as u32, c) }
}
/// `a == b`; `scale` is the size of the terms that may cancel (native tolerance only)
pub fn eq(name: &'static str, a: f64, b: f64) {
    unsafe { __v_check_eq(name.as_ptr(), name.len(), NOIDX, a, b, 0.0) }
}
pub fn eq_i(name: &'static str, i: usize, a: f64, b: f64) {
    unsafe { __v_check_eq(name.as_ptr(), name.len(), i as u32, a, b, 0.0) }
}
pub fn eq_scaled(name: &'static str, i: usize, a: f64, b: f64, scale: f64) {
    unsafe { __v_check_eq(name.as_ptr(), name.len(), i as u32, a, b, scale) }
}
/// `a == b`, or the listed finding `id`: `a == alt`
pub fn eq_known(name: &'static str, i: usize, a: f64, b: f64, alt: f64, scale: f64, id: &'static str) {
    unsafe {
        __v_check_eq_known(name.as_ptr(), name.len(), i as u32, a, b, alt, scale, id.as_ptr(), id.len())
    }
}
/// `a <= b`
pub fn le(name: &'static str, a: f64, b: f64, scale: f64) {
    unsafe { __v_check_le(name.as_ptr(), name.len(), NOIDX, a, b, scale) }
}
pub fn le_i(name: &'static str, i: usize, a: f64, b: f64, scale: f64) {
    unsafe { __v_check_le(name.as_ptr(), name.len(), i as u32, a, b, scale) }
}
/// This point must be reachable
pub fn cover(name: &'static str) {
    unsafe { __v_cover(name.as_ptr(), name.len(), NOIDX) }
}
pub fn cover_i(name: &'static str, i: usize) {
    unsafe { __v_cover(name.as_ptr(), name.len(), i as u32) }
}
/// A value compared between the symbolic executor and the native run when the translation is validated
pub fn obs(name: &'static str, i: usize, x: f64) {
    unsafe { __v_obs(name.as_ptr(), name.len(), i as u32, x) }
}
/// A bound that depends on the tier
pub fn param(name: &'static str) -> u32 {
    unsafe { __v_param(name.as_ptr(), name.len()) }
}
/// The derivative of `f` at `x`; `x` must be a symbolic input
pub fn deriv(f: &dyn Fn(f64) -> f64, x: f64, h: f64) -> f64 {
    if unsafe { __v_native() } {
        // five point stencil
        (8.0 * (f(x + h) - f(x - h)) - (f(x + 2.0 * h) - f(x - 2.0 * h))) / (12.0 * h)
    } else {
        unsafe { __v_deriv(f(x), x) }
    }
}

/// How linear systems are solved
pub enum La {
    /// Execute the real decomposition
    Real,
    /// Any solution of `A x = b`
    Contract,
    /// Arbitrary values within the bounds, a function of `b` only
    Free { lo: [f64; 10], hi: [f64; 10] },
    /// A constant vector
    Const([f64; 10]),
    /// Arbitrary values within the bounds, new ones for every call
    Call { lo: [f64; 10], hi: [f64; 10] },
}
fn bounds(lo: &[f64; 10], hi: &[f64; 10]) -> [f64; 20] {
    let mut v = [0.0; 20];
    let mut i = 0;
    while i < 10 {
        v[i] = lo[i];
        v[10 + i] = hi[i];
        i += 1;
    }
    v
}
pub fn la(mode: La) {
    unsafe {
        match mode {
            La::Real => __v_la_set(0, core::ptr::null()),
            La::Contract => __v_la_set(1, core::ptr::null()),
            La::Free { lo, hi } => __v_la_set(2, bounds(&lo, &hi).as_ptr()),
            La::Call { lo, hi } => __v_la_set(4, bounds(&lo, &hi).as_ptr()),
            La::Const(x) => __v_la_set(3, x.as_ptr()),
        }
    }
}
/// Number of linear systems solved so far
pub fn la_calls() -> usize {
    unsafe { __v_la_calls() }
}
/// `A[i, j]` of the k-th linear system
pub fn la_a(k: usize, i: usize, j: usize) -> f64 {
    unsafe { __v_la_get(k, 0, i, j) }
}
/// `b[i]` of the k-th linear system
pub fn la_b(k: usize, i: usize) -> f64 {
    unsafe { __v_la_get(k, 1, i, 0) }
}
/// The answer to the k-th linear system
pub fn la_x(k: usize, i: usize) -> f64 {
    unsafe { __v_la_get(k, 2, i, 0) }
}
/// Assume what was just checked (rounding may violate it in a native run)
pub fn lemma(c: bool) {
    if !native() {
        assume(c);
    }
}
/// Forget how `x` was computed: what is checked from here on holds for any number that satisfies the
/// assumptions made about the result (which have to be checked for `x` first)
pub fn fresh(name: &'static str, x: f64) -> f64 {
    unsafe { __v_fresh(name.as_ptr(), name.len(), NOIDX, x) }
}
pub fn native() -> bool {
    unsafe { __v_native() }
}
/// Whether a panic from here on is an allowed outcome
pub fn allow_panic(allow: bool) {
    unsafe { __v_allow_panic(allow) }
}
/// Consider only runs with at most `n` different linear systems
pub fn la_limit(n: usize) {
    unsafe { __v_la_limit(n) }
}
/// From here on every operation on terms over the input `x` has a rounding error of at most half a unit
/// in the last place; a constant turns it off
pub fn rounding(x: f64) {
    unsafe { __v_rounding(x) }
}
