//! Biquad filter and its Butterworth designs.
use crate::intr::*;
use core::f32::consts::PI;
use embedded_audio_tools::filter::{Biquad, BiquadCoeffs, Butterworth};
use embedded_audio_tools::float::AdditionalF32Ext;

type Coeffs = BiquadCoeffs<Butterworth>;

fn any_coeffs(c: &mut Coeffs) {
    c.b0 = any();
    c.b1 = any();
    c.b2 = any();
    c.a1 = any();
    c.a2 = any();
}
/// A filter with any past.
fn used() -> Biquad<Butterworth> {
    let mut f: Biquad<Butterworth> = Biquad::new(Coeffs::new());
    while again() {
        if any() {
            any_coeffs(&mut f.coeffs);
        } else {
            f.process(any());
        }
    }
    f
}

// ------------------------------------------------------------------ B01
pub fn claim_b01_difference_equation() {
    let mut f = used();
    any_coeffs(&mut f.coeffs);
    let (x0, x1, x2): (f32, f32, f32) = (any(), any(), any());
    let y0 = f.process(x0);
    let y1 = f.process(x1);
    let y2 = f.process(x2);
    let c = &f.coeffs;
    claim_eq(
        y2,
        c.b0 * x2 + c.b1 * x1 + c.b2 * x0 - c.a1 * y1 - c.a2 * y0,
        "second order difference equation",
    );
}
/// The state starts at zero.
pub fn claim_b01_start() {
    let mut f: Biquad<Butterworth> = Biquad::new(Coeffs::new());
    any_coeffs(&mut f.coeffs);
    let (x0, x1): (f32, f32) = (any(), any());
    let y0 = f.process(x0);
    let y1 = f.process(x1);
    let c = &f.coeffs;
    claim_eq(y0, c.b0 * x0, "nothing stored before the first sample");
    claim_eq(y1, c.b0 * x1 + c.b1 * x0 - c.a1 * y0, "one sample stored before the second");
}
pub fn claim_b01_keeps_coefficients() {
    let mut f = used();
    let (b0, b1, b2, a1, a2) = (f.coeffs.b0, f.coeffs.b1, f.coeffs.b2, f.coeffs.a1, f.coeffs.a2);
    f.process(any());
    let c = &f.coeffs;
    claim_eq(c.b0, b0, "b0 kept");
    claim_eq(c.b1, b1, "b1 kept");
    claim_eq(c.b2, b2, "b2 kept");
    claim_eq(c.a1, a1, "a1 kept");
    claim_eq(c.a2, a2, "a2 kept");
}
/// A fresh coefficient set is silent.
pub fn claim_b01_fresh() {
    let mut f: Biquad<Butterworth> = Biquad::new(Coeffs::new());
    for _ in 0..4 {
        claim_eq(f.process(any()), 0.0, "silent until designed");
    }
    let c = f.coeffs;
    for x in [c.b0, c.b1, c.b2, c.a1, c.a2] {
        claim_eq(x, 0.0, "no coefficients until designed");
    }
}

// ------------------------------------------------------------------ B02
/// Coefficients of whatever was designed before.
fn past() -> Coeffs {
    let mut c = Coeffs::new();
    any_coeffs(&mut c);
    c
}
fn freq() -> (f32, f32, f32) {
    let (fc, q, sr): (f32, f32, f32) = (any(), any(), any());
    assume(sr >= 1.0 && sr <= 1.0e8);
    assume(fc >= 1.0e-6 && fc <= 5.0e7 && fc < sr / 2.0);
    assume(q >= 1.0e-6 && q <= 1.0e6);
    (fc, q, sr)
}
fn gain() -> f32 {
    let g: f32 = any();
    assume(g >= 1.0e-6 && g <= 1.0e6);
    g
}
fn tan(fc: f32, sr: f32) -> f32 {
    (PI * fc / sr).fast_tan()
}
fn dc_num(c: &Coeffs) -> f32 {
    c.b0 + c.b1 + c.b2
}
fn dc_den(c: &Coeffs) -> f32 {
    1.0 + c.a1 + c.a2
}
fn ny_num(c: &Coeffs) -> f32 {
    c.b0 - c.b1 + c.b2
}
fn ny_den(c: &Coeffs) -> f32 {
    1.0 - c.a1 + c.a2
}
/// Poles at the cutoff with the requested quality.
fn poles(c: &Coeffs, k: f32, q: f32) {
    claim_eq(dc_den(c), k * k * ny_den(c), "pole frequency");
    claim_eq((1.0 - c.a2) * 2.0 * q, k * ny_den(c), "pole quality");
}
pub fn claim_b02_lowpass() {
    let (fc, q, sr) = freq();
    let mut c = past();
    c.lowpass(fc, q, sr);
    poles(&c, tan(fc, sr), q);
    claim_eq(dc_num(&c), dc_den(&c), "passes DC with unity gain");
    claim_eq(c.b1, 2.0 * c.b0, "double zero at Nyquist");
    claim_eq(c.b2, c.b0, "double zero at Nyquist");
}
pub fn claim_b02_highpass() {
    let (fc, q, sr) = freq();
    let mut c = past();
    c.highpass(fc, q, sr);
    poles(&c, tan(fc, sr), q);
    claim_eq(ny_num(&c), ny_den(&c), "passes Nyquist with unity gain");
    claim_eq(c.b1, -2.0 * c.b0, "double zero at DC");
    claim_eq(c.b2, c.b0, "double zero at DC");
}
pub fn claim_b02_allpass() {
    let (fc, q, sr) = freq();
    let mut c = past();
    c.allpass(fc, q, sr);
    poles(&c, tan(fc, sr), q);
    claim_eq(c.b0, c.a2, "numerator mirrors the denominator");
    claim_eq(c.b1, c.a1, "numerator mirrors the denominator");
    claim_eq(c.b2, 1.0, "numerator mirrors the denominator");
}
pub fn claim_b02_notch() {
    let (fc, q, sr) = freq();
    let mut c = past();
    c.notch(fc, q, sr);
    let k = tan(fc, sr);
    poles(&c, k, q);
    claim_eq(dc_num(&c), dc_den(&c), "passes DC with unity gain");
    claim_eq(ny_num(&c), ny_den(&c), "passes Nyquist with unity gain");
    claim_eq(c.b2, c.b0, "zeros on the unit circle");
    claim_eq(2.0 * c.b0 * (1.0 - k * k), -c.b1 * (1.0 + k * k), "zeros at the notch frequency");
}
/// Numerator and denominator are real multiples of each other at the centre.
fn bell_shape(c: &Coeffs, k: f32) {
    claim_eq(dc_num(c), dc_den(c), "leaves DC alone");
    claim_eq(ny_num(c), ny_den(c), "leaves Nyquist alone");
    claim_eq(dc_den(c), k * k * ny_den(c), "pole frequency");
    claim_eq((c.b0 + c.b2) * (1.0 - k * k), -c.b1 * (1.0 + k * k), "zero frequency");
}
fn bell_boosted(c: &Coeffs, k: f32, q: f32, g: f32) {
    bell_shape(c, k);
    claim_eq((1.0 - c.a2) * 2.0 * q, k * ny_den(c), "pole quality");
    claim_eq(c.b0 - c.b2, g * (1.0 - c.a2), "centre gain");
}
fn bell_cut(c: &Coeffs, k: f32, q: f32, g: f32) {
    bell_shape(c, k);
    claim_eq((c.b0 - c.b2) * 2.0 * q, k * ny_num(c), "zero quality");
    claim_eq((c.b0 - c.b2) * g, 1.0 - c.a2, "centre attenuation");
}
pub fn claim_b02_bell_boost() {
    let (fc, q, sr) = freq();
    let g = gain();
    let mut c = past();
    c.bell_boost_only(fc, q, g, sr);
    bell_boosted(&c, tan(fc, sr), q, g);
}
pub fn claim_b02_bell_cut() {
    let (fc, q, sr) = freq();
    let g = gain();
    let mut c = past();
    c.bell_cut_only(fc, q, -g, sr);
    bell_cut(&c, tan(fc, sr), q, g);
}
/// The sign of the gain selects boost or cut.
pub fn claim_b02_bell_positive() {
    let (fc, q, sr) = freq();
    let g = gain();
    let mut c = past();
    c.bell(fc, q, g, sr);
    bell_boosted(&c, tan(fc, sr), q, g);
}
pub fn claim_b02_bell_negative() {
    let (fc, q, sr) = freq();
    let g = gain();
    let mut c = past();
    c.bell(fc, q, -g, sr);
    bell_cut(&c, tan(fc, sr), q, g);
}
fn sqrt(x: f32) -> f32 {
    micromath::F32Ext::sqrt(x)
}
fn shelf_boosted(c: &Coeffs, k: f32, q: f32, g: f32) {
    poles(c, k, q);
    claim_eq(dc_num(c), g * dc_den(c), "gain at DC");
    claim_eq(ny_num(c), ny_den(c), "leaves Nyquist alone");
    claim_eq((c.b0 - c.b2) * 2.0, sqrt(g * 2.0 * (k * k)) * ny_num(c), "zero quality");
}
fn shelf_cut(c: &Coeffs, k: f32, q: f32, g: f32) {
    claim_eq(dc_num(c) * g, dc_den(c), "attenuation at DC");
    claim_eq(ny_num(c), ny_den(c), "leaves Nyquist alone");
    claim_eq(dc_num(c), k * k * ny_num(c), "zero frequency");
    claim_eq((c.b0 - c.b2) * 2.0 * q, k * ny_num(c), "zero quality");
    claim_eq((1.0 - c.a2) * 2.0, sqrt(g * 2.0 * (k * k)) * ny_den(c), "pole quality");
}
pub fn claim_b02_shelf_boost() {
    let (fc, q, sr) = freq();
    let g = gain();
    let mut c = past();
    c.low_shelf_boost_only(fc, q, g, sr);
    shelf_boosted(&c, tan(fc, sr), q, g);
}
pub fn claim_b02_shelf_cut() {
    let (fc, q, sr) = freq();
    let g = gain();
    let mut c = past();
    c.low_shelf_cut_only(fc, q, -g, sr);
    shelf_cut(&c, tan(fc, sr), q, g);
}
pub fn claim_b02_shelf_positive() {
    let (fc, q, sr) = freq();
    let g = gain();
    let mut c = past();
    c.low_shelf(fc, q, g, sr);
    shelf_boosted(&c, tan(fc, sr), q, g);
}
pub fn claim_b02_shelf_negative() {
    let (fc, q, sr) = freq();
    let g = gain();
    let mut c = past();
    c.low_shelf(fc, q, -g, sr);
    shelf_cut(&c, tan(fc, sr), q, g);
}

/// Without any gain the bell is a notch.
pub fn claim_b02_bell_zero() {
    let (fc, q, sr) = freq();
    let (mut c, mut d) = (past(), past());
    c.bell(fc, q, 0.0, sr);
    d.notch(fc, q, sr);
    claim_eq(c.b0, d.b0, "gain zero is a notch");
    claim_eq(c.b1, d.b1, "gain zero is a notch");
    claim_eq(c.b2, d.b2, "gain zero is a notch");
    claim_eq(c.a1, d.a1, "gain zero is a notch");
    claim_eq(c.a2, d.a2, "gain zero is a notch");
}
// ------------------------------------------------------------------ B03
/// Both poles strictly inside the unit circle (Jury's conditions).
fn stable(c: &Coeffs) {
    claim_pos(1.0 - c.a2, "pole radius below one");
    claim_pos(1.0 + c.a1 + c.a2, "no pole at or beyond 1");
    claim_pos(1.0 - c.a1 + c.a2, "no pole at or beyond -1");
}
pub fn claim_b03_lowpass() {
    let (fc, q, sr) = freq();
    let mut c = past();
    c.lowpass(fc, q, sr);
    stable(&c);
}
pub fn claim_b03_highpass() {
    let (fc, q, sr) = freq();
    let mut c = past();
    c.highpass(fc, q, sr);
    stable(&c);
}
pub fn claim_b03_allpass() {
    let (fc, q, sr) = freq();
    let mut c = past();
    c.allpass(fc, q, sr);
    stable(&c);
}
pub fn claim_b03_notch() {
    let (fc, q, sr) = freq();
    let mut c = past();
    c.notch(fc, q, sr);
    stable(&c);
}
pub fn claim_b03_bell_boost() {
    let (fc, q, sr) = freq();
    let mut c = past();
    c.bell(fc, q, gain(), sr);
    stable(&c);
}
pub fn claim_b03_bell_cut() {
    let (fc, q, sr) = freq();
    let mut c = past();
    c.bell(fc, q, -gain(), sr);
    stable(&c);
}
pub fn claim_b03_shelf_boost() {
    let (fc, q, sr) = freq();
    let mut c = past();
    c.low_shelf(fc, q, gain(), sr);
    stable(&c);
}
pub fn claim_b03_shelf_cut() {
    let (fc, q, sr) = freq();
    let mut c = past();
    c.low_shelf(fc, q, -gain(), sr);
    stable(&c);
}

// ------------------------------------------------------------------ B04
fn design(c: &mut Coeffs, which: u8, fc: f32, q: f32, g: f32, sr: f32) {
    match which {
        0 => c.lowpass(fc, q, sr),
        1 => c.highpass(fc, q, sr),
        2 => c.allpass(fc, q, sr),
        3 => c.notch(fc, q, sr),
        4 => c.bell(fc, q, g, sr),
        5 => c.bell_boost_only(fc, q, g, sr),
        6 => c.bell_cut_only(fc, q, g, sr),
        7 => c.low_shelf(fc, q, g, sr),
        8 => c.low_shelf_boost_only(fc, q, g, sr),
        _ => c.low_shelf_cut_only(fc, q, g, sr),
    }
}
/// The same request gives the same coefficients whatever was set before.
pub fn claim_b04_memoryless() {
    let which: u8 = any();
    let (fc, q, g, sr): (f32, f32, f32, f32) = (any(), any(), any(), any());
    let mut c = past();
    let mut d = past();
    any_coeffs(&mut d);
    design(&mut c, which, fc, q, g, sr);
    design(&mut d, which, fc, q, g, sr);
    claim_eq(c.b0, d.b0, "b0 depends on the request only");
    claim_eq(c.b1, d.b1, "b1 depends on the request only");
    claim_eq(c.b2, d.b2, "b2 depends on the request only");
    claim_eq(c.a1, d.a1, "a1 depends on the request only");
    claim_eq(c.a2, d.a2, "a2 depends on the request only");
}
/// A redesign while running leaves the signal memory alone.
pub fn claim_b04_keeps_memory() {
    let mut f = used();
    any_coeffs(&mut f.coeffs);
    let (x0, x1): (f32, f32) = (any(), any());
    let y0 = f.process(x0);
    let y1 = f.process(x1);
    let (b1, b2, a1, a2) = (f.coeffs.b1, f.coeffs.b2, f.coeffs.a1, f.coeffs.a2);
    design(&mut f.coeffs, any(), any(), any(), any(), any());
    // coefficients of zero bring out the memory one sample after the other
    f.coeffs.b0 = 0.0;
    f.coeffs.b1 = 0.0;
    f.coeffs.b2 = 0.0;
    f.coeffs.a1 = 0.0;
    f.coeffs.a2 = 0.0;
    let y2 = f.process(0.0);
    let y3 = f.process(0.0);
    claim_eq(
        y2,
        b1 * x1 - a1 * y1 + b2 * x0 - a2 * y0,
        "memory of the samples before the redesign",
    );
    claim_eq(y3, b2 * x1 - a2 * y1, "memory of the last sample before the redesign");
}

// ------------------------------------------------------------------ B05
pub fn claim_b05_odd() {
    let x: f32 = any();
    assume(x >= -10.0 && x <= 10.0);
    claim_eq((-x).fast_tan(), -x.fast_tan(), "odd");
    claim_eq(0.0.fast_tan(), 0.0, "zero at zero");
}
pub fn claim_b05_positive() {
    let x: f32 = any();
    assume(x >= 1.0e-6 && x <= 2.0);
    claim_pos(x.fast_tan(), "positive for positive angles");
    claim_pos(x.fast_tan() - x, "above the angle");
}
/// Increasing: the difference of two values has the sign of the difference.
pub fn claim_b05_monotone() {
    let x: f32 = any();
    let d: f32 = any();
    assume(x >= 0.0 && x <= 2.0 && d >= 1.0e-6 && d <= 2.0);
    claim_pos((x + d).fast_tan() - x.fast_tan(), "increasing");
}
pub fn claim_b05_series() {
    let x: f32 = any();
    assume(x >= -2.0 && x <= 2.0);
    let s = x * x;
    let want = x
        * (1.0
            + s * (1.0 / 3.0
                + s * (2.0 / 15.0
                    + s * (17.0 / 315.0
                        + s * (62.0 / 2835.0 + s * (1382.0 / 155925.0 + s * (21844.0 / 6081075.0 + s * (929569.0 / 638512875.0))))))));
    claim_eq(x.fast_tan(), want, "Taylor series of the tangent up to x^15");
}
