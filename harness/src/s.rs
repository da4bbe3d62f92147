//! Stereo, decibels, clipping.
use crate::intr::*;
use core::num::FpCategory;
use embedded_audio_tools::convert::Decibels;
use embedded_audio_tools::dynamics::*;
use embedded_audio_tools::errors::PanningError;
use embedded_audio_tools::stereo::*;

fn amount() -> f32 {
    let a: f32 = any();
    assume(a >= -1.0 && a <= 1.0);
    a
}
fn sample() -> f32 {
    let x: f32 = any();
    assume(x >= -1.0e30 && x <= 1.0e30);
    x
}

// ------------------------------------------------------------------ S01
fn verdict<T>(a: f32, r: Result<T, PanningError>) {
    match r {
        Ok(_) => claim(a >= -1.0 && a <= 1.0, "accepted only in range"),
        Err(PanningError::TooLeft) => claim(a < -1.0, "left error"),
        Err(PanningError::TooRight) => claim(a > 1.0, "right error"),
    }
}
pub fn claim_s01_mono() {
    let a: f32 = any();
    assume(a == a);
    verdict(a, mono_pan(a, any()));
}
pub fn claim_s01_stereo() {
    let a: f32 = any();
    assume(a == a);
    verdict(a, stereo_pan(a, (any(), any())));
}
pub fn claim_s01_same() {
    let (a, l, r) = (amount(), sample(), sample());
    if let Ok(m) = mono_pan(a, l) {
        let u = mono_pan_unchecked(a, l);
        claim_eq(m.0, u.0, "the checked variant computes the same");
        claim_eq(m.1, u.1, "the checked variant computes the same");
    }
    if let Ok(m) = stereo_pan(a, (l, r)) {
        let u = stereo_pan_unchecked(a, (l, r));
        claim_eq(m.0, u.0, "the checked variant computes the same");
        claim_eq(m.1, u.1, "the checked variant computes the same");
    }
}

// ------------------------------------------------------------------ S02
pub fn claim_s02_mono() {
    let (a, x) = (amount(), sample());
    let (l, r) = mono_pan_unchecked(a, x);
    claim_eq(l + r, x, "the channels add up to the input");
    claim_eq(r - l, a * x, "the amount moves the signal to the right");
    let (ml, mr) = mono_pan_unchecked(-a, x);
    claim_eq(ml, r, "mirrored amount swaps the channels");
    claim_eq(mr, l, "mirrored amount swaps the channels");
}
pub fn claim_s02_mono_range() {
    let a = amount();
    let (l, r) = mono_pan_unchecked(a, 1.0);
    claim_in(l, 0.0, 1.0, 0.0, "gain between 0 and 1");
    claim_in(r, 0.0, 1.0, 0.0, "gain between 0 and 1");
}
fn sqrt(x: f32) -> f32 {
    micromath::F32Ext::sqrt(x)
}
/// Each channel is scaled by the root of its linear gain, so the powers
/// add up.
pub fn claim_s02_stereo() {
    let (a, x, y) = (amount(), sample(), sample());
    let (l, r) = stereo_pan_unchecked(a, (x, y));
    claim_eq(l, x * sqrt((1.0 - a) / 2.0), "left gain");
    claim_eq(r, y * sqrt((1.0 + a) / 2.0), "right gain");
    let (ml, mr) = stereo_pan_unchecked(-a, (y, x));
    claim_eq(ml, r, "mirrored amount swaps the channels");
    claim_eq(mr, l, "mirrored amount swaps the channels");
}
/// Neither channel leaks into the other.
pub fn claim_s02_stereo_separate() {
    let (a, x, y, z) = (amount(), sample(), sample(), sample());
    claim_eq(stereo_pan_unchecked(a, (x, y)).0, stereo_pan_unchecked(a, (x, z)).0, "left depends on left");
    claim_eq(stereo_pan_unchecked(a, (y, x)).1, stereo_pan_unchecked(a, (z, x)).1, "right depends on right");
}
pub fn claim_s02_stereo_range() {
    let a: f32 = any();
    assume(a > -1.0 && a < 1.0);
    let (l, r) = stereo_pan_unchecked(a, (1.0, 1.0));
    claim_in(l, 0.0, 1.0, 0.1, "gain between 0 and 1");
    claim_in(r, 0.0, 1.0, 0.1, "gain between 0 and 1");
}

// ------------------------------------------------------------------ S03
pub fn claim_s03_crossfade() {
    let (a, x, y) = (amount(), sample(), sample());
    let z = crossfade_correlated_unchecked(a, (x, y));
    claim_eq(2.0 * z, (1.0 - a) * x + (1.0 + a) * y, "linear weights summing to one");
    claim_eq(crossfade_correlated_unchecked(a, (x, x)), x, "equal signals pass");
}
pub fn claim_s03_ends() {
    let (x, y) = (sample(), sample());
    claim_eq(crossfade_correlated_unchecked(-1.0, (x, y)), x, "fully left is the first signal");
    claim_eq(crossfade_correlated_unchecked(1.0, (x, y)), y, "fully right is the second signal");
}
pub fn claim_s03_range() {
    let a = amount();
    let (x, y): (f32, f32) = (any(), any());
    assume(x >= -1.0 && x <= 1.0 && y >= -1.0 && y <= 1.0);
    claim_in(crossfade_correlated_unchecked(a, (x, y)), -1.0, 1.0, 1.0e-6, "stays between the signals");
}

// ------------------------------------------------------------------ G01
pub fn claim_g01_unchecked() {
    let x: f32 = any();
    let y = x.to_decibels_unchecked();
    if x == 0.0 {
        claim(y == f32::NEG_INFINITY, "silence is minus infinity");
    } else if x < 0.0 || x != x {
        claim(y != y, "negative ratios and NaN have no level");
    } else if x > f32::MAX {
        claim(y == f32::INFINITY, "infinite ratio");
    } else {
        claim(y == y, "positive ratios have a level");
        claim(y.abs() <= f32::MAX, "positive ratios have a finite level");
    }
}
pub fn claim_g01_result() {
    let x: f32 = any();
    match x.to_decibels() {
        Ok(y) => {
            claim(x >= 0.0, "only for ratios");
            claim(y == y, "never NaN");
            if x == 0.0 {
                claim(y == f32::NEG_INFINITY, "silence is minus infinity");
            } else {
                claim_eq(y, x.to_decibels_unchecked(), "same level");
            }
        }
        Err(e) => {
            claim(!(x >= 0.0), "rejected only without a level");
            claim(matches!(e, FpCategory::Nan), "reported as NaN");
        }
    }
}
pub fn claim_g01_checked() {
    let x: f32 = any();
    match x.to_decibels_checked() {
        Ok(y) => {
            claim(x > 0.0, "only for positive ratios");
            claim(y == y, "never NaN");
            claim(y > f32::NEG_INFINITY, "never minus infinity");
            claim_eq(y, x.to_decibels_unchecked(), "same level");
        }
        Err(FpCategory::Infinite) => claim(x == 0.0, "silence is infinitely low"),
        Err(e) => {
            claim(!(x >= 0.0), "rejected only without a level");
            claim(matches!(e, FpCategory::Nan), "reported as NaN");
        }
    }
}
pub fn claim_g01_scale() {
    let x: f32 = any();
    assume(x >= 1.0e-37 && x <= f32::MAX);
    claim_eq(x.to_decibels_unchecked(), 20.0 * micromath::F32Ext::log10(x), "20 log10");
    let d: f32 = any();
    assume(d >= -1.0e6 && d <= 760.0);
    claim_eq(d.to_volt_ratio(), micromath::F32Ext::powf(10.0, d / 20.0), "10 to the d/20");
}
pub fn claim_g01_volt_ratio() {
    let d: f32 = any();
    assume(d >= -1.0e6 && d <= 760.0);
    claim(d.to_volt_ratio() >= 0.0, "a ratio is not negative");
    claim(f32::NEG_INFINITY.to_volt_ratio() == 0.0, "minus infinity is silence");
    claim(0.0.to_volt_ratio() == 1.0, "0 dB is unity");
    claim(1.0.to_decibels_unchecked() == 0.0, "unity is 0 dB");
}

// ------------------------------------------------------------------ L01
fn finite() -> f32 {
    let x: f32 = any();
    assume(x == x);
    x
}
pub fn claim_l01_digital() {
    let x = finite();
    let y = digital_clip(x);
    claim_in(y, -1.0, 1.0, 0.0, "bounded by one");
    if x >= -1.0 && x <= 1.0 {
        claim_eq(y, x, "leaves the range alone");
    } else {
        claim_eq(y, if x > 0.0 { 1.0 } else { -1.0 }, "limits to the nearer bound");
    }
}
/// The soft clippers inside the range (unfinished, a known finding) ...
pub fn claim_l01_tanh() {
    let x = any();
    assume(x >= -1.0 && x <= 1.0);
    claim_in(tanh_clip(x), -1.0, 1.0, 0.0, "bounded by one");
}
pub fn claim_l01_poly() {
    let x = any();
    assume(x >= -1.0 && x <= 1.0);
    claim_in(poly_clip(x, any()), -1.0, 1.0, 0.0, "bounded by one");
}
pub fn claim_l01_sigmoid() {
    let x = any();
    assume(x >= -1.0 && x <= 1.0);
    claim_in(sigmoid_clip(x, any()), -1.0, 1.0, 0.0, "bounded by one");
}
/// ... and outside of it, where every call must return the nearer bound.
pub fn claim_l01_outside() {
    let x: f32 = any();
    assume(x > 1.0 || x < -1.0);
    let y = if x > 0.0 { 1.0 } else { -1.0 };
    claim_eq(tanh_clip(x), y, "hyperbolic: limits to the nearer bound");
    claim_eq(poly_clip(x, any()), y, "polynomial: limits to the nearer bound");
    claim_eq(sigmoid_clip(x, any()), y, "sigmoid: limits to the nearer bound");
    claim_eq(digital_clip(x), y, "hard: limits to the nearer bound");
}
