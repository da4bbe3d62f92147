//! Float and fixed point helpers.
use crate::intr::*;
use embedded_audio_tools::convert::*;
use embedded_audio_tools::errors::*;
use embedded_audio_tools::fixed_point::math::*;
use embedded_audio_tools::float::*;

// ------------------------------------------------------------------ F01
pub fn claim_f01_words() {
    let x: f32 = any();
    let w: u32 = any();
    claim(x.to_raw_word() == x.to_bits(), "the IEEE word of the value");
    claim_eq(f32::from_raw_word(x.to_raw_word()), x, "value to word and back");
    claim(f32::from_raw_word(w).to_raw_word() == w, "word to value and back");
}

// ------------------------------------------------------------------ F02
pub fn claim_f02_split() {
    let w: u32 = any();
    let c = w.to_f32_components();
    claim(c.sign == (w >> 31 == 1), "sign is bit 31");
    claim(c.exponent as u32 == (w >> 23) & 0xff, "exponent is bits 23 to 30");
    claim(c.mantissa == w & 0x7f_ffff, "mantissa is bits 0 to 22");
    claim(u32::from_f32_components(c) == w, "split and join");
}
pub fn claim_f02_join() {
    let (sign, exponent, mantissa): (bool, u8, u32) = (any(), any(), any());
    assume(mantissa < 1 << 23);
    let w = u32::from_f32_components(F32Components { sign, exponent, mantissa });
    claim(w == (sign as u32) << 31 | (exponent as u32) << 23 | mantissa, "fields at their positions");
    let c = w.to_f32_components();
    claim(c.sign == sign, "sign survives");
    claim(c.exponent == exponent, "exponent survives");
    claim(c.mantissa == mantissa, "mantissa survives");
}
pub fn claim_f02_float() {
    let x: f32 = any();
    let c = x.to_f32_components();
    claim(c.sign == (x.to_bits() >> 31 == 1), "sign of the value");
    claim(c.mantissa == x.to_bits() & 0x7f_ffff, "mantissa of the value");
    claim(c.exponent as u32 == (x.to_bits() >> 23) & 0xff, "exponent of the value");
    claim_eq(f32::from_f32_components(c), x, "split and join");
}

// ------------------------------------------------------------------ F03
fn keeps(x: f32, d: u32) -> f32 {
    // top 31 - d bits of the magnitude
    let s = (x.abs() * 2147483648.0) as u32;
    let t = (s & !((1_u32 << d) - 1)) as f32 / 2147483648.0;
    if x < 0.0 {
        -t
    } else {
        t
    }
}
pub fn claim_f03_accepts() {
    let (x, d): (f32, u8) = (any(), any());
    assume(x == x);
    match bit_reduce(x, d) {
        Ok(_) => claim(d <= 30 && x >= -1.0 && x <= 1.0, "accepted only in range"),
        Err(BitReductionError::OverBitReduction) => claim(d > 30, "depth error"),
        Err(BitReductionError::InputExceedsRange) => claim(d <= 30 && !(x >= -1.0 && x <= 1.0), "range error"),
    }
}
pub fn claim_f03_value() {
    let (x, d): (f32, u8) = (any(), any());
    assume(d <= 30 && x >= -1.0 && x <= 1.0);
    if let Ok(y) = bit_reduce(x, d) {
        if d == 0 {
            claim_eq(y, x, "depth 0 changes nothing");
        } else {
            claim_eq(y, keeps(x, d as u32), "the lowest bits of the magnitude are cleared");
        }
    }
}
pub fn claim_f03_symmetric() {
    let (x, d): (f32, u8) = (any(), any());
    assume(d <= 30 && x > 0.0 && x <= 1.0);
    claim_eq(bit_reduce_unchecked(-x, d), -bit_reduce_unchecked(x, d), "odd");
}
/// The error stays below one step.
pub fn claim_f03_error() {
    let x: f32 = any();
    assume(x >= 0.0 && x <= 1.0);
    let mut d: u8 = 1;
    let mut step = 1.0 / 1073741824.0;
    while d <= 30 {
        let y = bit_reduce_unchecked(x, d);
        claim_in(x - y, 0.0, step, 1.0e-7, "rounded down by less than a step");
        step = step * 2.0;
        d += 1;
    }
}

// ------------------------------------------------------------------ F04
pub fn claim_f04_value() {
    let (x, d): (f32, u8) = (any(), any());
    assume(x == x);
    match bit_reduce_exp(x, d) {
        Ok(y) => {
            claim(d <= 23, "accepted only in range");
            let d = d as u32;
            claim(y.to_bits() >> 23 == x.to_bits() >> 23, "sign and exponent stay");
            claim(y.to_bits() == x.to_bits() & !((1_u32 << d) - 1), "the lowest bits of the mantissa are cleared");
        }
        Err(e) => {
            claim(d > 23, "rejected only out of range");
            claim(matches!(e, BitReductionError::OverBitReduction), "depth error");
        }
    }
}

// ------------------------------------------------------------------ F05
pub fn claim_f05_lerp() {
    let (a, b, t): (f32, f32, f32) = (any(), any(), any());
    match lerp(a, b, t) {
        Ok(y) => {
            claim(a == a && b == b, "no NaN accepted");
            claim(a.abs() <= f32::MAX && b.abs() <= f32::MAX, "no infinity accepted");
            claim(t >= 0.0 && t <= 1.0, "weight in range");
            claim_eq(y, a + (b - a) * t, "linear");
        }
        Err(InterpolationError::InputNaN) => claim(a != a || b != b, "NaN error"),
        Err(InterpolationError::InputInfinite) => {
            claim(a.abs() > f32::MAX || b.abs() > f32::MAX, "infinity error");
            claim(a == a && b == b, "NaN is reported first");
        }
        Err(InterpolationError::InterpolationRange) => claim(!(t >= 0.0 && t <= 1.0), "range error"),
    }
}
pub fn claim_f05_ends() {
    let (a, b): (f32, f32) = (any(), any());
    assume(a.abs() <= 1.7e38 && b.abs() <= 1.7e38);
    claim_eq(lerp_unchecked(a, b, 0.0), a, "weight 0 is the left end");
    claim_eq(lerp_unchecked(a, b, 1.0), b, "weight 1 is the right end");
    claim_eq(lerp_unchecked(a, a, any()), a, "between equal ends");
}
pub fn claim_f05_between() {
    let (a, b, t): (f32, f32, f32) = (any(), any(), any());
    assume(a >= -3.0 && a <= 5.0 && b >= -3.0 && b <= 5.0 && t >= 0.0 && t <= 1.0);
    claim_in(lerp_unchecked(a, b, t), -3.0, 5.0, 1.0e-5, "stays between the ends");
}

// ------------------------------------------------------------------ F06
pub fn claim_f06_inverse() {
    let (x, sr): (f32, f32) = (any(), any());
    assume(sr >= 1.0e-3 && sr <= 1.0e9);
    claim_eq(x.samples_to_seconds(sr).seconds_to_samples(sr), x, "samples to seconds and back");
    claim_eq(x.seconds_to_samples(sr).samples_to_seconds(sr), x, "seconds to samples and back");
    claim_eq(x.samples_to_millis(sr).millis_to_samples(sr), x, "samples to milliseconds and back");
    claim_eq(x.millis_to_samples(sr).samples_to_millis(sr), x, "milliseconds to samples and back");
    claim_eq(x.samples_to_millis(sr), 1000.0 * x.samples_to_seconds(sr), "a second has 1000 milliseconds");
    claim_eq(x.seconds_to_samples(sr), (1000.0 * x).millis_to_samples(sr), "a second has 1000 milliseconds");
    claim_eq(1.0.seconds_to_samples(sr), sr, "a second has sr samples");
}

// ------------------------------------------------------------------ F07
fn exp(x: f32) -> f32 {
    micromath::F32Ext::exp(x)
}
pub fn claim_f07_hyperbolic() {
    let x: f32 = any();
    assume(x >= -80.0 && x <= 80.0);
    let s = AdditionalF32Ext::sinh(&x);
    let c = AdditionalF32Ext::cosh(&x);
    claim_eq(s + c, exp(x), "sinh + cosh = exp");
    claim_eq(c - s, exp(-x), "cosh - sinh = 1/exp");
    claim_eq(AdditionalF32Ext::sinh(&-x), -s, "sinh is odd");
    claim_eq(AdditionalF32Ext::cosh(&-x), c, "cosh is even");
}
pub fn claim_f07_tanh() {
    let x: f32 = any();
    assume(x >= 1.0e-6 && x <= 1.0e6);
    let t = AdditionalF32Ext::tanh(&x);
    claim_eq(AdditionalF32Ext::tanh(&-x), -t, "odd");
    claim_pos(t, "positive for positive arguments");
    claim_pos(x - t, "below the argument");
    // with the second order series 1 + x + x^2/2 for the exponential
    let (e, d) = (1.0 + x + x * x / 2.0, 1.0 - x + x * x / 2.0);
    claim_eq(t * (e + d), e - d, "sinh over cosh");
    claim_eq(AdditionalF32Ext::tanh(&0.0), 0.0, "zero at zero");
}
pub fn claim_f07_sinc() {
    let x: f32 = any();
    assume(x >= -1.0e6 && x <= 1.0e6);
    claim_eq(0.0.sinc(), 1.0, "limit at zero");
    claim_eq((-0.0).sinc(), 1.0, "limit at zero");
    if x != 0.0 {
        claim_eq(x.sinc() * x, x.fixed_point_sin(), "sin(x)/x");
    }
}
pub fn claim_f07_cos() {
    let x: f32 = any();
    assume(x >= -1.0e6 && x <= 1.0e6);
    claim_eq(x.fixed_point_cos(), (core::f32::consts::FRAC_PI_2 - x).fixed_point_sin(), "cosine is the shifted sine");
}

// ------------------------------------------------------------------ F08
/// The sine integral is Simpson's rule over 1000 intervals of sin(x)/x.
pub fn claim_f08_si() {
    opaque("fixed_point_sin");
    let x: f32 = any();
    assume(x >= 1.0e-6 && x <= 1.0e6);
    let h = x / 1000.0;
    let mut s = 1.0 + x.sinc();
    let mut i = 1;
    while i < 1000 {
        s += if i % 2 == 1 { 4.0 } else { 2.0 } * (i as f32 * h).sinc();
        i += 1;
    }
    claim_eq(x.si(), h / 3.0 * s, "Simpson weights 1 4 2 4 ... 4 1");
}
pub fn claim_f08_zero() {
    claim_eq(0.0.si(), 0.0, "zero at zero");
}
pub fn claim_f08_negative() {
    opaque("fixed_point_sin");
    let x: f32 = any();
    assume(x <= -1.0e-6 && x >= -1.0e6);
    let h = x / 1000.0;
    let mut s = 1.0 + x.sinc();
    let mut i = 1;
    while i < 1000 {
        s += if i % 2 == 1 { 4.0 } else { 2.0 } * (i as f32 * h).sinc();
        i += 1;
    }
    claim_eq(x.si(), h / 3.0 * s, "Simpson weights 1 4 2 4 ... 4 1");
}

// ------------------------------------------------------------------ F09
pub fn claim_f09_no_overflow() {
    sin_i16(any(), any());
}
pub fn claim_f09_degree() {
    let (p, d): (i16, u8) = (any(), any());
    assume(d > 4);
    claim(sin_i16(p, d) == sin_i16(p, 4), "degrees above 4 mean 4");
}
pub fn claim_f09_unchecked() {
    let (p, d): (i16, u8) = (any(), any());
    assume(d <= 4);
    claim(sin_i16(p, d) == unsafe { sin_i16_unchecked(p, d) }, "the checked variant computes the same");
}

// ------------------------------------------------------------------ F10
fn nodes<const W: usize>() {
    let mut a = [0.0_f32; W];
    let mut i = 0;
    while i < W {
        a[i] = any();
        i += 1;
    }
    let mut i = 0;
    while i < W {
        claim_eq(lagrange(&a, i as f32), a[i], "passes through the samples");
        i += 1;
    }
}
fn line<const W: usize>() {
    let (c, d, x): (f32, f32, f32) = (any(), any(), any());
    assume(x >= -1.0e6 && x <= (W - 1) as f32);
    let mut a = [0.0_f32; W];
    let mut i = 0;
    while i < W {
        a[i] = c + d * i as f32;
        i += 1;
    }
    claim_eq(lagrange(&a, x), c + d * x, "reproduces straight lines");
}
pub fn claim_f10_nodes() {
    nodes::<1>();
    nodes::<2>();
    nodes::<3>();
    nodes::<4>();
    nodes::<5>();
    nodes::<8>();
}
pub fn claim_f10_line() {
    line::<2>();
    line::<3>();
    line::<4>();
    line::<5>();
    line::<6>();
}
/// Long windows at single positions.
fn long<const W: usize>(x: f32) {
    let (c, d): (f32, f32) = (any(), any());
    let mut a = [0.0_f32; W];
    let mut i = 0;
    while i < W {
        a[i] = c + d * i as f32;
        i += 1;
    }
    claim_eq(lagrange(&a, x), c + d * x, "reproduces straight lines");
}
fn long_node<const W: usize>(k: usize) {
    let mut a = [0.0_f32; W];
    let mut i = 0;
    while i < W {
        a[i] = any();
        i += 1;
    }
    claim_eq(lagrange(&a, k as f32), a[k], "passes through the samples");
}
pub fn claim_f10_long_line() {
    long::<25>(11.5);
    long::<12>(6.25);
}
pub fn claim_f10_long_line_end() {
    long::<9>(7.25);
}
pub fn claim_f10_long_nodes() {
    long_node::<25>(12);
    long_node::<25>(21);
    long_node::<20>(19);
}
/// A parabola is reproduced by three or more samples.
pub fn claim_f10_parabola() {
    let (c, d, e, x): (f32, f32, f32, f32) = (any(), any(), any(), any());
    assume(x >= -1.0e6 && x <= 2.0);
    let p = [c, c + d + e, c + 2.0 * d + 4.0 * e, c + 3.0 * d + 9.0 * e];
    claim_eq(lagrange(&p[..3], x), c + d * x + e * x * x, "reproduces parabolas");
    claim_eq(lagrange(&p, x), c + d * x + e * x * x, "reproduces parabolas");
}
pub fn claim_f10_four() {
    let a: [f32; 4] = [any(), any(), any(), any()];
    let x: f32 = any();
    assume(x >= -1.0e6 && x <= 3.0);
    claim_eq(unsafe { lagrange_only_4_elements(&a, x) }, lagrange(&a, x), "the variant for four samples computes the same");
}

// ------------------------------------------------------------------ F07 (2)
pub fn claim_f07_fast_tan() {
    let x: f32 = any();
    assume(x >= -10.0 && x <= 10.0);
    let q = x * x;
    let series = x
        * (1.0
            + q * (1.0 / 3.0
                + q * (2.0 / 15.0
                    + q * (17.0 / 315.0
                        + q * (62.0 / 2835.0
                            + q * (1382.0 / 155925.0
                                + q * (21844.0 / 6081075.0 + q * (929569.0 / 638512875.0))))))));
    claim_eq(x.fast_tan(), series, "the Taylor series of the tangent up to x^15");
}

// ------------------------------------------------------------------ F09 (2)
fn sine(x: f32) -> f32 {
    let q = x * x;
    x * (1.0 - q / 6.0 * (1.0 - q / 20.0 * (1.0 - q / 42.0 * (1.0 - q / 72.0 * (1.0 - q / 110.0)))))
}
/// Quarter wave table in steps of 1/N, error `tol` of full scale.
fn accurate(degree: u8, tol: f32) {
    const N: i32 = 512;
    let k = pick(-N, N);
    let p: i16 = any();
    let (a, b) = (k * 32768 / N, (k + 1) * 32768 / N - 1);
    assume(p as i32 >= a && p as i32 <= b);
    let (l, h) = (sine(core::f32::consts::FRAC_PI_2 * k as f32 / N as f32), sine(core::f32::consts::FRAC_PI_2 * (k + 1) as f32 / N as f32));
    claim_in(sin_i16(p, degree) as f32 / 32767.0, l - tol, h + tol, 0.0, "close to the sine");
}
pub fn claim_f09_accuracy4() {
    accurate(4, 0.004);
}
pub fn claim_f09_accuracy3() {
    accurate(3, 0.004);
}
pub fn claim_f09_accuracy2() {
    accurate(2, 0.01);
}
pub fn claim_f09_accuracy1() {
    accurate(1, 0.085);
}
pub fn claim_f09_accuracy0() {
    accurate(0, 0.17);
}
/// The floating point wrapper over three half waves.
pub fn claim_f07_sine_accuracy() {
    const N: i32 = 128;
    let h = core::f32::consts::FRAC_PI_2 / N as f32;
    let k = pick(-3 * N + 1, 5 * N - 1);
    let x: f32 = any();
    assume(x >= k as f32 * h && x <= (k + 1) as f32 * h);
    let (u, v) = (periodic(k, N), periodic(k + 1, N));
    let (lo, hi) = if u < v { (u, v) } else { (v, u) };
    claim_in(x.fixed_point_sin(), lo - 0.01, hi + 0.01, 0.0, "close to the sine");
}
fn periodic(k: i32, n: i32) -> f32 {
    let h = core::f32::consts::FRAC_PI_2 / n as f32;
    // -n..n rises, n..3n falls, both by symmetry
    let mut k = k;
    while k >= 3 * n {
        k -= 4 * n;
    }
    while k < -n {
        k += 4 * n;
    }
    if k > n {
        sine((2 * n - k) as f32 * h)
    } else {
        sine(k as f32 * h)
    }
}

/// Positions behind the last sample are refused.
pub fn claim_f10_refused() {
    allow_panics();
    let a: [f32; 5] = [any(), any(), any(), any(), any()];
    let n: usize = any();
    assume(n >= 1 && n <= 5);
    let x: f32 = any();
    assume(x > (n - 1) as f32);
    let _ = lagrange(&a[..n], x);
    claim(false, "refused");
}

// ------------------------------------------------------------------ F11
pub fn claim_f11_rect_range() {
    let x: f32 = any();
    let y = x.lookup_bl_rect();
    claim_in(y, -1.2, 1.2, 0.0, "bounded");
    if x <= 0.0 || x >= 1.0 {
        claim_eq(y, 0.0, "zero outside one period");
    }
}
pub fn claim_f11_rect_sign() {
    let x: f32 = any();
    assume(x > 0.0 && x < 1.0);
    let y = x.lookup_bl_rect();
    if x <= 0.5 {
        claim_in(y, 0.0, 1.2, 0.0, "positive in the first half");
    } else {
        claim_in(y, -1.2, 0.0, 0.0, "negative in the second half");
    }
}
pub fn claim_f11_rect_halves() {
    let x: f32 = any();
    assume(x > 0.001 && x < 0.249);
    let y = x.lookup_bl_rect();
    claim_eq((x + 0.5).lookup_bl_rect(), -y, "the second half is the negated first");
    claim_eq((0.5 - x).lookup_bl_rect(), y, "mirrored at a quarter");
    claim_eq((1.0 - x).lookup_bl_rect(), -y, "mirrored at three quarters");
}
/// Away from its edges the waveform is a plateau without gaps.
pub fn claim_f11_rect_plateau() {
    let x: f32 = any();
    assume(x >= 0.02 && x <= 0.48);
    claim_in(x.lookup_bl_rect(), 0.75, 0.9, 1.0e-4, "high in the first half");
}
pub fn claim_f11_rect_plateau_low() {
    let x: f32 = any();
    assume(x >= 0.52 && x <= 0.98);
    claim_in(x.lookup_bl_rect(), -0.9, -0.75, 1.0e-4, "low in the second half");
}
/// Entry k of the table stands at k/(4*5074) of a period.
pub fn claim_f11_rect_entries() {
    const LAST: f32 = 5074.0;
    let at = |k: f32| (k / (4.0 * LAST)).lookup_bl_rect();
    claim_in(at(1.0), 0.01666, 0.01667, 0.0, "second entry");
    claim_in(at(4.0), 0.06660, 0.06662, 0.0, "fifth entry");
    claim_in(at(10.0), 0.16574, 0.16577, 0.0, "eleventh entry");
    claim_in(0.25.lookup_bl_rect(), 0.83559, 0.83560, 0.0, "last entry at a quarter period");
    claim_in(0.75.lookup_bl_rect(), -0.83560, -0.83559, 0.0, "last entry at three quarters");
}
pub fn claim_f11_lookup_sin() {
    let x: f32 = any();
    assume(x >= -1.0e6 && x <= 1.0e6);
    claim_in(x.lookup_sin(), -1.0, 1.0, 1.0e-4, "bounded");
}

/// The table sine follows the sine, if coarsely.
pub fn claim_f11_lookup_sin_accuracy() {
    const N: i32 = 32;
    let h = core::f32::consts::FRAC_PI_2 / N as f32;
    let k = pick(-3 * N + 1, 5 * N - 1);
    let x: f32 = any();
    assume(x >= k as f32 * h && x <= (k + 1) as f32 * h);
    let (u, v) = (periodic(k, N), periodic(k + 1, N));
    let (lo, hi) = if u < v { (u, v) } else { (v, u) };
    claim_in(x.lookup_sin(), lo - 0.12, hi + 0.12, 1.0e-3, "near the sine");
}
