//! Primitives of the specification language. They have no meaning at run
//! time: the analyser interprets calls to them by name.

/// An arbitrary value of the type (floats include NaN and infinities).
#[inline(never)]
pub fn any<T>() -> T {
    loop {}
}
/// Restrict the analysis to states in which `c` holds.
#[inline(never)]
pub fn assume(_c: bool) {}
/// `c` must hold in every reachable state.
#[inline(never)]
pub fn claim(_c: bool, _msg: &'static str) {}
/// `a` and `b` are the same function of the inputs over the reals.
#[inline(never)]
pub fn claim_eq(_a: f32, _b: f32, _msg: &'static str) {}
/// `a` and `b` are the same value bit for bit: nothing was computed.
#[inline(never)]
pub fn claim_same(_a: f32, _b: f32, _msg: &'static str) {}
/// `x` lies in `[lo, hi]` up to an absolute rounding slack `tol`.
#[inline(never)]
pub fn claim_in(_x: f32, _lo: f32, _hi: f32, _tol: f32, _msg: &'static str) {}
/// `x` is positive for all admissible inputs (sign of a rational function).
#[inline(never)]
pub fn claim_pos(_x: f32, _msg: &'static str) {}
/// Head of a loop that runs an arbitrary number of times.
#[inline(never)]
pub fn again() -> bool {
    loop {}
}
/// Fresh buffer of `len` samples with arbitrary content.
#[inline(never)]
pub fn region(_len: usize) -> &'static mut [f32] {
    loop {}
}
/// Current content of the buffer at `i`.
#[inline(never)]
pub fn peek(_s: &[f32], _i: usize) -> f32 {
    loop {}
}
/// Number of stores to / loads from the buffer so far.
#[inline(never)]
pub fn writes(_s: &[f32]) -> usize {
    loop {}
}
#[inline(never)]
pub fn reads(_s: &[f32]) -> usize {
    loop {}
}
/// Index of the last store / load.
#[inline(never)]
pub fn last_write(_s: &[f32]) -> usize {
    loop {}
}
#[inline(never)]
pub fn last_read(_s: &[f32]) -> usize {
    loop {}
}
/// Panics below this point are not part of the claim.
#[inline(never)]
pub fn allow_panics() {}
/// Merge the outcomes of branching scalar functions at their return.
#[inline(never)]
pub fn summarize(_on: bool) {}
/// Fresh buffer of `len` samples with arbitrary content in `[lo, hi]`.
#[inline(never)]
pub fn region_in(_len: usize, _lo: f32, _hi: f32) -> &'static mut [f32] {
    loop {}
}
/// `a` and `b` are the same function of the inputs over the reals, up to a
/// relative difference `tol` of their coefficients.
#[inline(never)]
pub fn claim_close(_a: f32, _b: f32, _tol: f32, _msg: &'static str) {}
/// Both pointers designate the same element of the same buffer.
#[inline(never)]
pub fn same_ptr(_a: *const f32, _b: *const f32) -> bool {
    loop {}
}
/// The slice lies inside its buffer.
#[inline(never)]
pub fn within(_s: *const [f32]) -> bool {
    loop {}
}
/// Loops with more than `n` iterations are described by an invariant.
#[inline(never)]
pub fn unroll(_n: usize) {}
/// From here on every loop of the library has to end within `n` iterations
/// on every path.
#[inline(never)]
pub fn bounded(_n: usize) {}
/// Calls to the function of this name are an unknown function of their
/// arguments.
#[inline(never)]
pub fn opaque(_name: &'static str) {}
/// Any integer of `lo..hi`, each analysed on its own.
#[inline(never)]
pub fn pick(_lo: i32, _hi: i32) -> i32 {
    loop {}
}
/// Every load from and store to a buffer must be volatile from here on.
#[inline(never)]
pub fn volatile_only() {}
