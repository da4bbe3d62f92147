//! Buffer views: memory safety, wrapping, checked access, sub slices,
//! interpolated reads, lifecycle.
use crate::intr::*;
use embedded_audio_tools::errors::MemSliceError;
use embedded_audio_tools::float::lerp_unchecked;
use embedded_audio_tools::memory_access::*;
use embedded_audio_tools::*;

/// No Rust slice of f32 is longer.
pub const MAXLEN: usize = (isize::MAX / 4) as usize;
/// Lengths whose positions are exact in f32.
pub const EXACT: usize = 1 << 24;
/// Positions for which the signed index arithmetic cannot overflow.
pub const FAR: isize = 1 << 61;

pub fn len() -> usize {
    let n: usize = any();
    assume(n <= MAXLEN);
    n
}
pub fn len1(max: usize) -> usize {
    let n: usize = any();
    assume(n >= 1 && n <= max);
    n
}

// ------------------------------------------------------------------ M01
// Every safe operation with arbitrary arguments, on any (also an empty or
// null) buffer. Panics are memory safe and allowed here.

/// Empty and other buffers are looked at apart from each other.
fn apart(n: usize) -> usize {
    if n == 0 {
        0
    } else {
        n
    }
}
fn some_view() -> MemorySlice<NonMutable> {
    if any() {
        from_slice(&region(apart(len()))[..])
    } else {
        null()
    }
}
fn some_view_mut() -> MemorySlice<Mutable> {
    if any() {
        from_slice_mut(&mut region(apart(len()))[..])
    } else {
        null_mut()
    }
}
/// Buffers read at fractional positions.
fn short_view() -> MemorySlice<NonMutable> {
    if any() {
        let n: usize = any();
        assume(n <= EXACT);
        from_slice(&region(apart(n))[..])
    } else {
        null()
    }
}
fn short_view_mut() -> MemorySlice<Mutable> {
    if any() {
        let n: usize = any();
        assume(n <= EXACT);
        from_slice_mut(&mut region(apart(n))[..])
    } else {
        null_mut()
    }
}
pub fn claim_m01_view_get() {
    allow_panics();
    some_view().get(any());
}
pub fn claim_m01_view_get_wrapped() {
    allow_panics();
    some_view().get_wrapped(any());
}
pub fn claim_m01_view_four() {
    allow_panics();
    some_view().get_slice_of_four_wrapped(any());
}
pub fn claim_m01_view_lerp() {
    allow_panics();
    short_view().lerp(any());
}
pub fn claim_m01_view_lerp_wrapped() {
    allow_panics();
    short_view().lerp_wrapped(any());
}
pub fn claim_m01_view_lagrange() {
    allow_panics();
    unroll(0);
    short_view().lagrange_wrapped(any(), any());
}
pub fn claim_m01_view_lagrange_four() {
    allow_panics();
    short_view().lagrange_four_points_wrapped(any());
}
pub fn claim_m01_view_as_slice() {
    allow_panics();
    let v = some_view();
    v.as_slice();
    claim(v.len() == 0 || within(v.as_slice()), "as_slice stays inside the buffer");
}
pub fn claim_m01_view_sub() {
    allow_panics();
    if let Ok(s) = some_view().get_sub_slice(any(), any()) {
        s.get(any());
        s.get_wrapped(any());
        if let Ok(t) = s.get_sub_slice(any(), any()) {
            t.get(any());
            t.lerp_wrapped(any());
        }
    }
}
pub fn claim_m01_mut_get() {
    allow_panics();
    let v = some_view_mut();
    v.get(any());
    v.get_wrapped(any());
}
pub fn claim_m01_mut_four() {
    allow_panics();
    some_view_mut().get_slice_of_four_wrapped(any());
}
pub fn claim_m01_mut_lerp() {
    allow_panics();
    let v = short_view_mut();
    v.lerp(any());
    v.lerp_wrapped(any());
}
pub fn claim_m01_mut_assign() {
    allow_panics();
    some_view_mut().assign(any(), any());
}
pub fn claim_m01_mut_sub() {
    allow_panics();
    if let Ok(mut s) = some_view_mut().get_sub_slice(any(), any()) {
        s.assign(any(), any());
        s.get_wrapped(any());
        s.get_slice_of_four_wrapped(any());
    }
}
fn some_buffer() -> MemorySlice<Mutable> {
    some_view_mut()
}
/// Any history of delay line operations with arbitrary arguments.
pub fn claim_m01_delay_line() {
    allow_panics();
    let mut d = DelayLine::new(some_buffer());
    while again() {
        match any::<u8>() {
            0 => d.change_buffer(some_buffer()),
            1 => d.write_and_advance(any()),
            2 => d.advance(),
            3 => {
                d.read();
            }
            4 => {
                d.get_ptr_slice_mut();
                d.len();
            }
            _ => {}
        }
    }
    match any::<u8>() {
        0 => {
            d.read_wrapped_at(any());
        }
        1 => {
            d.read_lerp_wrapped_at(any());
        }
        2 => {
            d.read_lagrange_wrapped_at(any());
        }
        3 => d.write_and_advance(any()),
        4 => {
            d.read();
        }
        5 => d.advance(),
        _ => {}
    }
}
pub fn claim_m01_comb() {
    allow_panics();
    let mut c = Comb::new(some_buffer());
    while again() {
        match any::<u8>() {
            0 => c.change_buffer(some_buffer()),
            1 => c.set_dampening(any()),
            2 => c.set_feedback(any()),
            3 => {
                c.get_ptr_slice_mut();
            }
            _ => {
                c.tick(any());
            }
        }
    }
}
pub fn claim_m01_allpass() {
    allow_panics();
    let mut c = AllPass::new(some_buffer());
    while again() {
        match any::<u8>() {
            0 => c.change_buffer(some_buffer()),
            1 => {
                c.get_ptr_slice_mut();
            }
            _ => {
                c.tick(any());
            }
        }
    }
}
pub fn claim_m01_wavetable() {
    allow_panics();
    let mut o = WavetableOscillator::new(some_view(), SoftPhaseAccumulator::new(any(), any()));
    while again() {
        match any::<u8>() {
            0 => o.set_freq_unchecked(any()),
            1 => o.set_phase_shift_unchecked(any()),
            2 => o.set_sr_unchecked(any()),
            _ => {
                o.next();
            }
        }
    }
}
/// An accumulator that is not ours may return any phase.
pub struct AnyPhase;
impl PhaseAccumulator for AnyPhase {
    type Object = AnyPhase;
    fn new(_: f32, _: f32) -> AnyPhase {
        AnyPhase
    }
    fn set_sr_unchecked(&mut self, _: f32) {}
    fn set_freq_unchecked(&mut self, _: f32) {}
    fn set_phase_shift(&mut self, _: u32) {}
    fn next_value(&mut self) -> u32 {
        any()
    }
    fn next_value_normalized(&mut self) -> f32 {
        any()
    }
}
pub fn claim_m01_wavetable_foreign() {
    allow_panics();
    WavetableOscillator::new(some_view(), AnyPhase).next();
}
pub fn claim_m01_tables() {
    allow_panics();
    use embedded_audio_tools::float::AdditionalF32Ext;
    match any::<u8>() {
        0 => any::<f32>().lookup_bl_rect(),
        1 => any::<f32>().lookup_sin(),
        2 => any::<f32>().fixed_point_sin(),
        _ => any::<f32>().fixed_point_cos(),
    };
}
pub fn claim_m01_sin_i16() {
    allow_panics();
    embedded_audio_tools::fixed_point::math::sin_i16(any(), any());
}

// ------------------------------------------------------------------ M02
fn wrapped_case() -> (&'static mut [f32], usize) {
    let n = len1(MAXLEN);
    (region(n), n)
}
pub fn claim_m02_get_wrapped() {
    let (b, n) = wrapped_case();
    let i: isize = any();
    let x = from_slice(b).get_wrapped(i);
    claim_same(x, peek(b, i.rem_euclid(n as isize) as usize), "element at the index modulo the length");
}
pub fn claim_m02_get_wrapped_mut() {
    let (b, n) = wrapped_case();
    let i: isize = any();
    let x = from_slice_mut(b).get_wrapped(i);
    claim_same(x, peek(b, i.rem_euclid(n as isize) as usize), "element at the index modulo the length");
}
pub fn claim_m02_get_wrapped_unchecked() {
    let (b, n) = wrapped_case();
    let i: isize = any();
    let x = unsafe { from_slice(b).get_wrapped_unchecked(i) };
    claim_same(x, peek(b, i.rem_euclid(n as isize) as usize), "element at the index modulo the length");
}
pub fn claim_m02_four() {
    let (b, n) = wrapped_case();
    let i: isize = any();
    assume(i >= -FAR && i <= FAR);
    let x = from_slice(b).get_slice_of_four_wrapped(i);
    let n = n as isize;
    claim_same(x[0], peek(b, i.rem_euclid(n) as usize), "first of four");
    claim_same(x[1], peek(b, (i + 1).rem_euclid(n) as usize), "second of four");
    claim_same(x[2], peek(b, (i + 2).rem_euclid(n) as usize), "third of four");
    claim_same(x[3], peek(b, (i + 3).rem_euclid(n) as usize), "fourth of four");
}

// ------------------------------------------------------------------ M03
pub fn claim_m03_get() {
    let n = len();
    let b = region(n);
    let i: usize = any();
    match from_slice(b).get(i) {
        Ok(x) => {
            claim(i < n, "accepted only inside");
            claim_same(x, peek(b, i), "the element itself");
        }
        Err(e) => {
            claim(i >= n, "rejected only outside");
            claim(matches!(e, MemSliceError::IndexOutOfBound), "index error");
            claim(reads(b) == 0, "nothing read");
        }
    }
}
pub fn claim_m03_get_mut() {
    let n = len();
    let b = region(n);
    let i: usize = any();
    match from_slice_mut(b).get(i) {
        Ok(x) => {
            claim(i < n, "accepted only inside");
            claim_same(x, peek(b, i), "the element itself");
        }
        Err(_) => claim(i >= n, "rejected only outside"),
    }
}
pub fn claim_m03_assign() {
    let n = len();
    let b = region(n);
    let i: usize = any();
    let j: usize = any();
    let v: f32 = any();
    assume(j < n && j != i);
    let old = peek(b, j);
    match from_slice_mut(b).assign(i, v) {
        Ok(()) => {
            claim(i < n, "accepted only inside");
            claim_same(peek(b, i), v, "the element is stored");
            claim(writes(b) == 1, "one store");
        }
        Err(e) => {
            claim(i >= n, "rejected only outside");
            claim(matches!(e, MemSliceError::IndexOutOfBound), "index error");
            claim(writes(b) == 0, "nothing stored");
        }
    }
    claim_same(peek(b, j), old, "other elements keep their value");
}
pub fn claim_m03_unchecked() {
    let n = len();
    let b = region(n);
    let i: usize = any();
    assume(i < n);
    let v: f32 = any();
    let mut m = from_slice_mut(b);
    unsafe {
        claim_same(m.get_unchecked(i), peek(b, i), "unchecked read");
        m.assign_unchecked(i, v);
    }
    claim_same(peek(b, i), v, "unchecked store");
    claim(writes(b) == 1, "one store");
}
pub fn claim_m03_null() {
    let i: usize = any();
    claim(matches!(null().get(i), Err(MemSliceError::IndexOutOfBound)), "nothing in a null view");
    claim(matches!(null_mut().get(i), Err(MemSliceError::IndexOutOfBound)), "nothing in a null view");
    claim(matches!(null_mut().assign(i, any()), Err(MemSliceError::IndexOutOfBound)), "no store into a null view");
}

// ------------------------------------------------------------------ M04
pub fn claim_m04_sub() {
    let n = len();
    let b = region(n);
    let off: usize = any();
    let sub: usize = any();
    match from_slice(b).get_sub_slice(off, sub) {
        Ok(s) => {
            claim(within(s.as_slice()), "inside the parent");
            claim(s.len() == sub, "has the requested length");
            let i: usize = any();
            match s.get(i) {
                Ok(x) => {
                    claim(i < sub, "element of the view");
                    claim_same(x, peek(b, off + i), "element offset+i of the parent");
                }
                Err(_) => claim(i >= sub, "bounds of the view"),
            }
        }
        Err(MemSliceError::IndexOutOfBound) => claim(off >= n, "offset error only if the offset is outside"),
        Err(MemSliceError::LengthOutOfBound) => {
            claim(off < n && sub >= n - off, "length error only if the end is not inside")
        }
    }
}
pub fn claim_m04_sub_mut() {
    let n = len();
    let b = region(n);
    let off: usize = any();
    let sub: usize = any();
    let i: usize = any();
    let v: f32 = any();
    if let Ok(mut s) = from_slice_mut(b).get_sub_slice(off, sub) {
        claim(within(s.as_slice()), "inside the parent");
        claim(s.len() == sub, "has the requested length");
        if s.assign(i, v).is_ok() {
            claim(i < sub, "bounds of the view");
            claim_same(peek(b, off + i), v, "stores reach the parent at offset+i");
            claim(writes(b) == 1, "one store");
        }
    }
}
pub fn claim_m04_accepts() {
    let n = len();
    let b = region(n);
    let off: usize = any();
    let sub: usize = any();
    assume(off < n && sub < n - off);
    claim(from_slice(b).get_sub_slice(off, sub).is_ok(), "a range ending before the last element is accepted");
    claim(from_slice_mut(b).get_sub_slice(off, sub).is_ok(), "a range ending before the last element is accepted");
}
/// A view of a view composes the offsets.
pub fn claim_m04_nested() {
    let n = len();
    let b = region(n);
    let (o1, l1, o2, l2): (usize, usize, usize, usize) = (any(), any(), any(), any());
    if let Ok(s) = from_slice(b).get_sub_slice(o1, l1) {
        if let Ok(t) = s.get_sub_slice(o2, l2) {
            claim(within(t.as_slice()), "inside the outer buffer");
            claim(o2 < l1 && l2 <= l1 - o2, "inside the first view");
            let i: usize = any();
            assume(i < l2);
            if let Ok(x) = t.get(i) {
                claim_same(x, peek(b, o1 + o2 + i), "offsets add up");
            }
        }
    }
}

// ------------------------------------------------------------------ M06
pub fn claim_m06_lerp() {
    let n = len1(EXACT);
    let b = region_in(n, -1.0e6, 1.0e6);
    let x: f32 = any();
    match from_slice(b).lerp(x) {
        Ok(y) => {
            claim(x >= 0.0 && x <= (n - 1) as f32, "accepted only between the first and the last element");
            let i = x as usize;
            let f = x - i as f32;
            if i + 1 < n {
                claim_eq(y, lin(peek(b, i), peek(b, i + 1), f), "between the neighbours");
            } else {
                claim_eq(y, peek(b, i), "the last element");
            }
        }
        Err(e) => {
            claim(matches!(e, MemSliceError::IndexOutOfBound), "index error");
            claim(!(x >= 0.0 && x <= (n - 1) as f32), "rejected only outside");
        }
    }
}
fn lin(a: f32, b: f32, f: f32) -> f32 {
    a + (b - a) * f
}
pub fn claim_m06_lerp_wrapped() {
    let n = len1(EXACT);
    let b = region_in(n, -1.0e6, 1.0e6);
    let x: f32 = any();
    assume(x >= -16777216.0 && x <= 16777216.0);
    let y = from_slice(b).lerp_wrapped(x);
    let i = floor(x);
    let p = peek(b, i.rem_euclid(n as isize) as usize);
    let q = peek(b, (i + 1).rem_euclid(n as isize) as usize);
    claim_eq(y, lin(p, q, x - i as f32), "between the wrapped neighbours");
}
pub fn claim_m06_lerp_unchecked() {
    let n = len1(EXACT);
    let b = region_in(n, -1.0e6, 1.0e6);
    let x: f32 = any();
    assume(x >= 0.0 && x < (n - 1) as f32);
    let y = unsafe { from_slice(b).lerp_unchecked(x) };
    let i = x as usize;
    assume(i + 1 < n);
    claim_eq(y, lin(peek(b, i), peek(b, i + 1), x - i as f32), "between the neighbours");
}
pub fn claim_m06_exact() {
    let n = len1(EXACT);
    let b = region_in(n, -1.0e6, 1.0e6);
    let i: usize = any();
    assume(i < n);
    match from_slice(b).lerp(i as f32) {
        Ok(y) => claim_eq(y, peek(b, i), "no interpolation on an element"),
        Err(_) => claim(false, "elements are always readable"),
    }
    claim_eq(from_slice(b).lerp_wrapped(i as f32), peek(b, i), "no interpolation on an element");
}
pub fn floor(x: f32) -> isize {
    micromath::F32Ext::floor(x) as isize
}

// ------------------------------------------------------------------ M07
/// Value at `lo + x` of the polynomial through the `W` wrapped samples
/// starting at `lo`.
pub fn poly<const W: usize>(b: &[f32], n: usize, lo: isize, x: f32) -> f32 {
    let mut y = 0.0;
    let mut i = 0;
    while i < W {
        let mut t = peek(b, (lo + i as isize).rem_euclid(n as isize) as usize);
        let mut j = 0;
        while j < W {
            if i != j {
                t *= (x - j as f32) / (i as f32 - j as f32);
            }
            j += 1;
        }
        y += t;
        i += 1;
    }
    y
}
fn lagrange_case<const W: usize>() {
    let n = len1(EXACT);
    let b = region_in(n, -1.0e6, 1.0e6);
    let x: f32 = any();
    assume(x >= -1.0e6 && x <= 1.0e6);
    let y = from_slice(b).lagrange_wrapped(x, W);
    let lo = floor(x) - ((W as isize - 1) / 2);
    claim_eq(y, poly::<W>(b, n, lo, x - lo as f32), "polynomial through the surrounding samples");
}
pub fn claim_m07_window2() {
    lagrange_case::<2>()
}
pub fn claim_m07_window3() {
    lagrange_case::<3>()
}
pub fn claim_m07_window4() {
    lagrange_case::<4>()
}
pub fn claim_m07_window5() {
    lagrange_case::<5>()
}
pub fn claim_m07_window6() {
    lagrange_case::<6>()
}
/// Windows below two samples are widened to two.
pub fn claim_m07_small_window() {
    let n = len1(EXACT);
    let b = region_in(n, -1.0e6, 1.0e6);
    let x: f32 = any();
    assume(x >= -1.0e6 && x <= 1.0e6);
    let i = floor(x);
    let want = poly::<2>(b, n, i, x - i as f32);
    claim_eq(from_slice(b).lagrange_wrapped(x, 0), want, "at least two samples");
    claim_eq(from_slice(b).lagrange_wrapped(x, 1), want, "at least two samples");
}
pub fn claim_m07_four_points() {
    let n = len1(EXACT);
    let b = region_in(n, -1.0e6, 1.0e6);
    let x: f32 = any();
    assume(x >= -1.0e6 && x <= 1.0e6);
    let y = from_slice(b).lagrange_four_points_wrapped(x);
    let lo = floor(x) - 1;
    claim_eq(y, poly::<4>(b, n, lo, x - lo as f32), "polynomial through the four surrounding samples");
}
/// Whole positions return the sample itself, for every window.
fn lagrange_whole<const W: usize>() {
    let n = len1(EXACT);
    let b = region_in(n, -1.0e6, 1.0e6);
    let i: isize = any();
    assume(i >= -1_000_000 && i <= 1_000_000);
    let want = peek(b, i.rem_euclid(n as isize) as usize);
    claim_eq(from_slice(b).lagrange_wrapped(i as f32, W), want, "no interpolation on a sample");
}
pub fn claim_m07_whole2() {
    lagrange_whole::<2>()
}
pub fn claim_m07_whole4() {
    lagrange_whole::<4>()
}
pub fn claim_m07_whole5() {
    lagrange_whole::<5>()
}
pub fn claim_m07_whole8() {
    lagrange_whole::<8>()
}
/// Wide windows, on a sample.
fn widest<const N: usize>(w: usize, k: isize) {
    let b = region_in(N, -1.0e6, 1.0e6);
    let want = peek(b, k.rem_euclid(N as isize) as usize);
    claim_eq(from_slice(b).lagrange_wrapped(k as f32, w), want, "no interpolation on a sample");
}
pub fn claim_m07_whole_wide() {
    widest::<128>(25, 60);
    widest::<31>(24, 30);
    widest::<7>(20, -2);
}
/// Windows of up to 100 samples look at all of them, wider ones at 100.
/// (The weights of that many samples span more than the range of a float;
/// what they are is left to the implementation.)
fn looks<const N: usize>(w: usize, x: f32) {
    let b = region_in(N, -1.0e6, 1.0e6);
    from_slice(b).lagrange_wrapped(x, w);
    claim(reads(b) >= if w < 100 { w } else { 100 }, "all samples of the window count");
}
fn looks_all(from: usize, step: usize) {
    let mut w = from;
    while w <= 100 {
        looks::<61>(w, 30.5);
        w += step;
    }
}
pub fn claim_m07_reads0() {
    looks_all(26, 8);
}
pub fn claim_m07_reads1() {
    looks_all(27, 8);
}
pub fn claim_m07_reads2() {
    looks_all(28, 8);
}
pub fn claim_m07_reads3() {
    looks_all(29, 8);
}
pub fn claim_m07_reads4() {
    looks_all(30, 8);
}
pub fn claim_m07_reads5() {
    looks_all(31, 8);
}
pub fn claim_m07_reads6() {
    looks_all(32, 8);
}
pub fn claim_m07_reads7() {
    looks_all(33, 8);
}
pub fn claim_m07_wider() {
    looks::<128>(101, 127.0);
    looks::<128>(170, 60.5);
    looks::<7>(5000, -2.0);
}
/// Wide windows at single positions between samples.
fn wide<const W: usize, const N: usize>(w: usize, x: f32) {
    let b = region_in(N, -1.0e6, 1.0e6);
    let lo = floor(x) - ((W as isize - 1) / 2);
    let x0 = x - lo as f32;
    let mut y = 0.0;
    for i in 0..W {
        let mut t = peek(b, (lo + i as isize).rem_euclid(N as isize) as usize);
        for j in 0..W {
            if i != j {
                t = t * (x0 - j as f32) / (i as f32 - j as f32);
            }
        }
        y += t;
    }
    claim_eq(from_slice(b).lagrange_wrapped(x, w), y, "polynomial through all samples of the window");
}
pub fn claim_m07_wide7() {
    wide::<7, 11>(7, -2.75);
    wide::<8, 11>(8, 9.25);
    wide::<9, 11>(9, 3.5);
    wide::<10, 4>(10, 3.5);
    wide::<11, 12>(11, 0.75);
    wide::<13, 31>(13, 14.25);
    wide::<14, 31>(14, -29.5);
}
pub fn claim_m07_wide12() {
    wide::<12, 31>(12, 29.5);
    wide::<25, 40>(25, 20.25);
    wide::<15, 31>(15, 62.5);
    wide::<16, 31>(16, 30.75);
    wide::<17, 9>(17, 4.5);
    wide::<18, 31>(18, 8.25);
}
pub fn claim_m07_wide19() {
    wide::<19, 31>(19, 14.5);
    wide::<20, 31>(20, 14.75);
    wide::<21, 31>(21, 14.5);
    wide::<22, 31>(22, 14.25);
    wide::<23, 31>(23, 14.5);
    wide::<24, 31>(24, -14.5);
}
pub fn claim_m07_whole_four_points() {
    let n = len1(EXACT);
    let b = region_in(n, -1.0e6, 1.0e6);
    let i: isize = any();
    assume(i >= -1_000_000 && i <= 1_000_000);
    let want = peek(b, i.rem_euclid(n as isize) as usize);
    claim_eq(from_slice(b).lagrange_four_points_wrapped(i as f32), want, "no interpolation on a sample");
}
/// Any window up to the limit of 100 samples and beyond neither panics nor
/// leaves its internal array.
pub fn claim_m07_no_panic() {
    unroll(0);
    let n = len1(EXACT);
    let b = region_in(n, -1.0e6, 1.0e6);
    let x: f32 = any();
    assume(x >= -1.0e6 && x <= 1.0e6);
    from_slice(b).lagrange_wrapped(x, any());
}

// ------------------------------------------------------------------ M08
pub fn claim_m08_attach() {
    let n = len();
    let b = region(n);
    let p = b.as_ptr();
    let mut m = from_slice_mut(b);
    claim(m.len() == n && from_slice(b).len() == n, "length of the attached slice");
    claim(same_ptr(m.as_slice() as *const f32, p), "starts where the slice starts");
    claim(same_ptr(m.as_slice_mut() as *const f32, p), "starts where the slice starts");
    claim(same_ptr(from_slice(b).as_slice() as *const f32, p), "starts where the slice starts");
    claim(m.as_slice().len() == n && m.as_slice_mut().len() == n, "conversion keeps the length");
}
pub fn claim_m08_null() {
    claim(null().len() == 0 && null_mut().len() == 0, "null views are empty");
    claim(null().as_slice().len() == 0 && null_mut().as_slice().len() == 0, "null views convert to empty slices");
    claim(null().as_slice().is_null() && null_mut().as_slice_mut().is_null(), "null views are null");
    claim(MemorySlice::<NonMutable>::default().len() == 0, "default is null");
    claim(MemorySlice::<Mutable>::default().as_slice().is_null(), "default is null");
}
pub fn claim_m08_rebind() {
    let (n, k) = (len(), len());
    let b = region(n);
    let c = region(k);
    let v: f32 = any();
    let i: usize = any();
    assume(i < k);
    let mut m = if any() { from_slice_mut(b) } else { null_mut() };
    unsafe { m.change_mut_slice_unchecked(c.as_mut_ptr(), k) };
    claim(m.len() == k, "length of the new slice");
    claim(same_ptr(m.as_slice() as *const f32, c.as_ptr()), "starts at the new slice");
    m.assign(i, v);
    claim_same(peek(c, i), v, "stores go to the new slice");
    claim(writes(b) == 0, "the old slice is left alone");
    let mut w = if any() { from_slice(b) } else { null() };
    unsafe { w.change_slice_unchecked(c.as_ptr(), k) };
    claim(w.len() == k, "length of the new slice");
    match w.get(i) {
        Ok(x) => claim_same(x, v, "reads come from the new slice"),
        Err(_) => claim(false, "readable"),
    }
    claim(reads(b) == 0, "the old slice is left alone");
}
/// A copy of a view designates the same buffer.
pub fn claim_m08_copy() {
    let n = len();
    let b = region(n);
    let mut m = from_slice_mut(b);
    let c = m;
    let d = m.clone();
    let i: usize = any();
    let v: f32 = any();
    assume(i < n);
    m.assign(i, v);
    if let (Ok(x), Ok(y)) = (c.get(i), d.get(i)) {
        claim_same(x, v, "copies see the store");
        claim_same(y, v, "clones see the store");
    } else {
        claim(false, "readable");
    }
}

// ------------------------------------------------------------------ M05
/// Reading never stores, through either kind of view.
pub fn claim_m05_reads() {
    let n = len1(EXACT);
    let b = region(n);
    let (x, i, j): (f32, isize, usize) = (any(), any(), any());
    assume(x >= -1.0e6 && x <= 1.0e6 && i >= -FAR && i <= FAR);
    let mut v = from_slice(&*b);
    match any::<u8>() {
        0 => {
            v.get(j);
            v.get_wrapped(i);
        }
        1 => {
            v.get_slice_of_four_wrapped(i);
        }
        2 => {
            v.lerp(x);
            v.lerp_wrapped(x);
        }
        3 => {
            v.lagrange_wrapped(x, 3);
        }
        4 => {
            v.lagrange_four_points_wrapped(x);
        }
        5 => {
            if let Ok(w) = v.get_sub_slice(j, any()) {
                w.get(any());
            }
        }
        6 => unsafe {
            assume(j < n);
            v.get_unchecked(j);
            v.get_wrapped_unchecked(i);
        },
        _ => {
            v.len();
            v.as_slice();
            let c = v;
            c.clone();
            unsafe { v.change_slice_unchecked(b.as_ptr(), n) };
        }
    }
    claim(writes(b) == 0, "nothing stored");
}
pub fn claim_m05_reads_mut() {
    let n = len1(EXACT);
    let b = region(n);
    let (x, i, j): (f32, isize, usize) = (any(), any(), any());
    assume(x >= -1.0e6 && x <= 1.0e6 && i >= -FAR && i <= FAR);
    let mut v = from_slice_mut(&mut *b);
    match any::<u8>() {
        0 => {
            v.get(j);
            v.get_wrapped(i);
        }
        1 => {
            v.get_slice_of_four_wrapped(i);
        }
        2 => {
            v.lerp(x);
            v.lerp_wrapped(x);
        }
        3 => {
            v.lagrange_wrapped(x, 3);
        }
        4 => {
            v.lagrange_four_points_wrapped(x);
        }
        5 => {
            if let Ok(w) = v.get_sub_slice(j, any()) {
                w.get(any());
            }
        }
        _ => {
            v.len();
            v.as_slice();
            v.as_slice_mut();
        }
    }
    claim(writes(b) == 0, "nothing stored");
}
/// Oscillators only read their table.
pub fn claim_m05_wavetable() {
    let n = len1(EXACT);
    let b = region(n);
    let mut o = WavetableOscillator::new(from_slice(&*b), SoftPhaseAccumulator::new(any(), any()));
    while again() {
        match any::<u8>() {
            0 => o.set_freq_unchecked(any()),
            1 => o.set_phase_shift_unchecked(any()),
            _ => {
                o.next();
            }
        }
    }
    claim(writes(b) == 0, "nothing stored");
}

// ------------------------------------------------------------------ M09
/// Each sample is fetched and stored by volatile accesses.
pub fn claim_m09_reads() {
    volatile_only();
    claim_m05_reads();
}
pub fn claim_m09_mut() {
    volatile_only();
    claim_m05_reads_mut();
    let n = len1(MAXLEN);
    let b = region(n);
    let mut v = from_slice_mut(&mut *b);
    v.assign(any(), any());
    let i: usize = any();
    assume(i < n);
    unsafe { v.assign_unchecked(i, any()) };
}
pub fn claim_m09_delay_line() {
    volatile_only();
    let mut d = DelayLine::new(from_slice_mut(&mut region(len1(EXACT / 2))[..]));
    while again() {
        match any::<u8>() {
            0 => d.change_buffer(from_slice_mut(&mut region(len1(EXACT / 2))[..])),
            1 => d.advance(),
            _ => d.write_and_advance(any()),
        }
    }
    let (x, i): (f32, isize) = (any(), any());
    assume(x >= -1.0e6 && x <= 1.0e6 && i >= -FAR && i <= FAR);
    match any::<u8>() {
        0 => d.read(),
        1 => d.read_wrapped_at(i),
        2 => d.read_lerp_wrapped_at(x),
        _ => d.read_lagrange_wrapped_at(x),
    };
}
pub fn claim_m09_filters() {
    volatile_only();
    let mut c = Comb::new(from_slice_mut(&mut region(len1(MAXLEN))[..]));
    let mut a = AllPass::new(from_slice_mut(&mut region(len1(MAXLEN))[..]));
    while again() {
        c.tick(any());
        a.tick(any());
    }
}
pub fn claim_m09_wavetable() {
    volatile_only();
    claim_m05_wavetable();
}
