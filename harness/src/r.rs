//! Guarantees that cut across the modules: no panics, checked and unchecked
//! siblings, independent instances, copies.
use crate::intr::*;
use embedded_audio_tools::convert::Decibels;
use embedded_audio_tools::dynamics::*;
use embedded_audio_tools::envelopes::{AudioRateADSR, EnvelopeState};
use embedded_audio_tools::filter::butterworth::ButterworthType;
use embedded_audio_tools::filter::*;
use embedded_audio_tools::fixed_point::math::*;
use embedded_audio_tools::float::*;
use embedded_audio_tools::memory_access::*;
use embedded_audio_tools::oscillator::Waveform;
use embedded_audio_tools::stereo::*;
use embedded_audio_tools::*;

const MAXLEN: usize = (isize::MAX / 4) as usize;
const EXACT: usize = 1 << 24;
const FAR: isize = 1 << 61;

fn buffer(max: usize) -> MemorySlice<Mutable> {
    let n: usize = any();
    assume(n >= 1 && n <= max);
    from_slice_mut(&mut region(n)[..])
}
fn table(max: usize) -> MemorySlice<NonMutable> {
    let n: usize = any();
    assume(n >= 1 && n <= max);
    from_slice(&region(n)[..])
}
/// Positions of the general Lagrange read.
fn near() -> f32 {
    let x: f32 = any();
    assume(x >= -1.0e6 && x <= 1.0e6);
    x
}
fn offset() -> isize {
    let i: isize = any();
    assume(i >= -FAR && i <= FAR);
    i
}

// ------------------------------------------------------------------ R01
// No call below may panic: any history, any float arguments, NaN included,
// on buffers of at least one sample.
pub fn claim_r01_delay_line() {
    let mut d = DelayLine::new(buffer(MAXLEN));
    while again() {
        match any::<u8>() {
            0 => d.change_buffer(buffer(MAXLEN)),
            1 => d.advance(),
            2 => {
                d.get_ptr_slice_mut();
            }
            _ => d.write_and_advance(any()),
        }
    }
    match any::<u8>() {
        0 => {
            d.read();
        }
        _ => {
            d.read_wrapped_at(offset());
        }
    }
}
pub fn claim_r01_delay_line_fractional() {
    let mut d = DelayLine::new(buffer(EXACT / 2));
    while again() {
        match any::<u8>() {
            0 => d.change_buffer(buffer(EXACT / 2)),
            1 => d.advance(),
            _ => d.write_and_advance(any()),
        }
    }
    match any::<u8>() {
        0 => {
            d.read_lerp_wrapped_at(any());
        }
        _ => {
            d.read_lagrange_wrapped_at(near());
        }
    }
}
/// A line without a buffer is silent, not fatal.
pub fn claim_r01_delay_line_empty() {
    let mut d = DelayLine::new(null_mut());
    while again() {
        match any::<u8>() {
            0 => d.change_buffer(null_mut()),
            1 => d.advance(),
            2 => {
                d.read();
            }
            _ => d.write_and_advance(any()),
        }
    }
}
pub fn claim_r01_comb() {
    let mut c = Comb::new(buffer(MAXLEN));
    while again() {
        match any::<u8>() {
            0 => c.change_buffer(buffer(MAXLEN)),
            1 => c.set_dampening(any()),
            2 => c.set_feedback(any()),
            _ => {
                c.tick(any());
            }
        }
    }
}
pub fn claim_r01_allpass() {
    let mut c = AllPass::new(buffer(MAXLEN));
    while again() {
        match any::<u8>() {
            0 => c.change_buffer(buffer(MAXLEN)),
            _ => {
                c.tick(any());
            }
        }
    }
}
pub fn claim_r01_biquad() {
    let mut f = Biquad::new(BiquadCoeffs::<Butterworth>::new());
    while again() {
        match any::<u8>() {
            0 => f.coeffs.lowpass(any(), any(), any()),
            1 => f.coeffs.highpass(any(), any(), any()),
            2 => f.coeffs.allpass(any(), any(), any()),
            3 => f.coeffs.notch(any(), any(), any()),
            4 => f.coeffs.bell(any(), any(), any(), any()),
            5 => f.coeffs.low_shelf(any(), any(), any(), any()),
            _ => {
                f.process(any());
            }
        }
    }
}
pub fn claim_r01_envelope() {
    let p = || {
        let x: f32 = any();
        assume(x == x);
        x
    };
    let mut e = AudioRateADSR::new(p(), p(), p(), p(), p(), 48000.0);
    while again() {
        match any::<u8>() {
            0 => e.trigger_on(),
            1 => e.trigger_off(),
            2 => e.reset(),
            3 => e.set_attack(p()),
            4 => e.set_decay(p()),
            5 => e.set_sustain(p()),
            6 => e.set_release(p()),
            7 => e.set_slope(p()),
            _ => {
                e.tick();
            }
        }
    }
}
pub fn claim_r01_oscillator() {
    let mut o = FunctionalOscillator::new(SoftPhaseAccumulator::new(any(), any()));
    while again() {
        match any::<u8>() {
            0 => o.set_freq_unchecked(any()),
            1 => o.set_phase_shift_unchecked(any()),
            2 => o.set_sr_unchecked(any()),
            3 => o.set_wave(Waveform::Rectangle),
            4 => o.set_wave(Waveform::Sawtooth),
            5 => o.set_wave(Waveform::Triangle),
            6 => o.set_wave(Waveform::Sine),
            _ => {
                o.next();
            }
        }
    }
}
pub fn claim_r01_wavetable() {
    let mut o = WavetableOscillator::new(table(EXACT), SoftPhaseAccumulator::new(any(), any()));
    while again() {
        match any::<u8>() {
            0 => o.set_freq_unchecked(any()),
            1 => o.set_phase_shift_unchecked(any()),
            2 => o.set_sr_unchecked(any()),
            _ => {
                o.next();
            }
        }
    }
}
pub fn claim_r01_accumulator() {
    let mut a = SoftPhaseAccumulator::new(any(), any());
    while again() {
        match any::<u8>() {
            0 => a.set_freq_unchecked(any()),
            1 => {
                a.set_freq(any());
            }
            2 => a.set_sr_unchecked(any()),
            3 => a.set_phase_shift(any()),
            4 => {
                a.next_value();
            }
            _ => {
                a.next_value_normalized();
            }
        }
    }
}
pub fn claim_r01_view() {
    let mut v = buffer(MAXLEN);
    match any::<u8>() {
        0 => {
            v.get(any());
        }
        1 => {
            v.assign(any(), any());
        }
        2 => {
            v.get_wrapped(any());
        }
        3 => {
            v.get_slice_of_four_wrapped(offset());
        }
        4 => {
            v.get_sub_slice(any(), any());
        }
        _ => {
            v.len();
            v.as_slice();
            v.as_slice_mut();
        }
    }
}
pub fn claim_r01_view_any_window() {
    unroll(0);
    table(EXACT).lagrange_wrapped(near(), any());
}
pub fn claim_r01_view_fractional() {
    let v = table(EXACT);
    match any::<u8>() {
        0 => {
            v.lerp(any());
        }
        1 => {
            v.lerp_wrapped(any());
        }
        2 => {
            v.lagrange_four_points_wrapped(any());
        }
        _ => {
            v.lagrange_wrapped(near(), 3);
        }
    }
}
/// Checked reads of an empty view are errors, not panics.
pub fn claim_r01_view_empty() {
    let mut v = null_mut();
    claim(v.get(any()).is_err(), "nothing to read");
    claim(v.assign(any(), any()).is_err(), "nothing to store");
    claim(v.lerp(any()).is_err(), "nothing to interpolate");
    claim(v.get_sub_slice(any(), any()).is_err(), "no part");
}
pub fn claim_r01_scalar() {
    let (x, y, z): (f32, f32, f32) = (any(), any(), any());
    match any::<u8>() {
        0 => {
            digital_clip(x);
        }
        1 => {
            stereo_pan(x, (y, z));
        }
        2 => {
            mono_pan(x, y);
        }
        3 => {
            crossfade_correlated_unchecked(x, (y, z));
        }
        4 => {
            bit_reduce(x, any());
        }
        5 => {
            bit_reduce_exp(x, any());
        }
        6 => {
            lerp(x, y, z);
        }
        7 => {
            x.fixed_point_sin();
            x.fixed_point_cos();
        }
        8 => {
            x.lookup_bl_rect();
        }
        9 => {
            x.fast_tan();
            x.sinc();
        }
        10 => {
            x.to_raw_word();
            f32::from_raw_word(any());
            x.to_f32_components();
        }
        11 => {
            sin_i16(any(), any());
        }
        12 => {
            x.samples_to_seconds(y);
            x.seconds_to_samples(y);
            x.samples_to_millis(y);
            x.millis_to_samples(y);
        }
        _ => {
            lerp_unchecked(x, y, z);
        }
    }
}
pub fn claim_r01_decibels() {
    let x: f32 = any();
    x.to_decibels();
    x.to_decibels_checked();
    x.to_decibels_unchecked();
}

// ------------------------------------------------------------------ R04
// What a checked function accepts it computes like its unchecked sibling.
pub fn claim_r04_get() {
    let v = table(MAXLEN);
    let i: usize = any();
    if let Ok(x) = v.get(i) {
        claim_eq(x, unsafe { v.get_unchecked(i) }, "same element");
    }
    let j: isize = any();
    assume(j >= 0 && (j as usize) < v.len());
    claim_eq(v.get_wrapped(j), unsafe { v.get_unchecked(j as usize) }, "no wrap inside");
    claim_eq(v.get_wrapped(j), unsafe { v.get_wrapped_unchecked(j) }, "same element");
}
pub fn claim_r04_assign() {
    let mut v = buffer(MAXLEN);
    let (i, j): (usize, usize) = (any(), any());
    let x: f32 = any();
    assume(i < v.len() && j < v.len());
    if v.assign(i, x).is_ok() {
        let a = unsafe { v.get_unchecked(j) };
        unsafe { v.assign_unchecked(i, x) };
        let b = unsafe { v.get_unchecked(j) };
        claim_eq(a, b, "same content");
    }
}
pub fn claim_r04_lerp() {
    let v = table(EXACT);
    let x: f32 = any();
    if let Ok(y) = v.lerp(x) {
        assume(x < (v.len() - 1) as f32);
        claim_eq(y, unsafe { v.lerp_unchecked(x) }, "same value");
        claim_eq(y, v.lerp_wrapped(x), "no wrap inside");
    }
}
pub fn claim_r04_four_points() {
    let n: usize = any();
    assume(n >= 4 && n <= 1 << 20);
    let v = from_slice(&region_in(n, -1.0, 1.0)[..]);
    let x: f32 = any();
    assume(x >= -1.0e6 && x <= 1.0e6);
    claim_eq(v.lagrange_four_points_wrapped(x), v.lagrange_wrapped(x, 4), "the variant for four points computes the same");
}
pub fn claim_r04_lerp_scalar() {
    let (a, b, t): (f32, f32, f32) = (any(), any(), any());
    if let Ok(y) = lerp(a, b, t) {
        claim_eq(y, lerp_unchecked(a, b, t), "same value");
    }
}
pub fn claim_r04_bits() {
    let (x, d): (f32, u8) = (any(), any());
    assume(x == x);
    if let Ok(y) = bit_reduce(x, d) {
        claim_eq(y, bit_reduce_unchecked(x, d), "same value");
    }
    if let Ok(y) = bit_reduce_exp(x, d) {
        claim_eq(y, bit_reduce_exp_unchecked(x, d), "same value");
    }
}
pub fn claim_r04_pan() {
    let (a, x, y): (f32, f32, f32) = (any(), any(), any());
    if let Ok((l, r)) = mono_pan(a, x) {
        let u = mono_pan_unchecked(a, x);
        claim_eq(l, u.0, "same left");
        claim_eq(r, u.1, "same right");
    }
    if let Ok((l, r)) = stereo_pan(a, (x, y)) {
        let u = stereo_pan_unchecked(a, (x, y));
        claim_eq(l, u.0, "same left");
        claim_eq(r, u.1, "same right");
    }
}
pub fn claim_r04_decibels() {
    let x: f32 = any();
    if let Ok(y) = x.to_decibels_checked() {
        claim_eq(y, x.to_decibels_unchecked(), "same level");
    }
    assume(x > 0.0 && x <= f32::MAX);
    if let Ok(y) = x.to_decibels() {
        claim_eq(y, x.to_decibels_unchecked(), "same level");
    }
}
pub fn claim_r04_set_freq() {
    let (f, g, sr): (f32, f32, f32) = (any(), any(), any());
    let mut a = SoftPhaseAccumulator::new(f, sr);
    let mut b = SoftPhaseAccumulator::new(f, sr);
    if a.set_freq(g).is_ok() {
        b.set_freq_unchecked(g);
        claim(a.next_value() == b.next_value(), "same phase");
        claim(a.next_value() == b.next_value(), "same phase");
    }
}

// ------------------------------------------------------------------ R05
// Two instances side by side behave like each on its own.
pub fn claim_r05_comb() {
    let n: usize = any();
    assume(n >= 1 && n <= MAXLEN);
    let r = region(n);
    let other = region(n);
    let mut c = Comb::new(from_slice_mut(&mut r[..]));
    let mut d = Comb::new(from_slice_mut(&mut other[..]));
    let (x, y): (f32, f32) = (any(), any());
    let old = peek(r, 0);
    let j: usize = any();
    assume(j < n);
    let before = peek(r, j);
    d.set_feedback(any());
    d.set_dampening(any());
    while again() {
        d.tick(any());
    }
    claim(writes(r) == 0, "the other instance does not store here");
    claim_eq(peek(r, j), before, "the other instance does not store here");
    claim_eq(c.tick(x), old, "own delayed sample");
    claim_eq(peek(r, 0), x + 0.5 * (0.5 * old), "own feedback and damping");
    c.tick(y);
}
pub fn claim_r05_delay() {
    let n: usize = any();
    assume(n >= 2 && n <= MAXLEN);
    let r = region(n);
    let mut c = DelayLine::new(from_slice_mut(&mut r[..]));
    let mut d = DelayLine::new(from_slice_mut(&mut region(n)[..]));
    while again() {
        d.write_and_advance(any());
    }
    claim(writes(r) == 0, "the other instance does not store here");
    claim_eq(c.read(), peek(r, 0), "own position");
    c.advance();
    claim_eq(c.read(), peek(r, 1), "own position");
}
pub fn claim_r05_allpass() {
    let n: usize = any();
    assume(n >= 2 && n <= MAXLEN);
    let r = region(n);
    let mut c = AllPass::new(from_slice_mut(&mut r[..]));
    let mut d = AllPass::new(from_slice_mut(&mut region(n)[..]));
    let (p, q) = (peek(r, 0), peek(r, 1));
    while again() {
        d.tick(any());
    }
    claim(writes(r) == 0, "the other instance does not store here");
    let x: f32 = any();
    claim_eq(c.tick(x), p - x, "own position");
    while again() {
        d.tick(any());
    }
    claim_eq(c.tick(x), q - x, "own position");
}
pub fn claim_r05_oscillator() {
    let (f, sr): (f32, f32) = (any(), any());
    let mut a = FunctionalOscillator::new(SoftPhaseAccumulator::new(f, sr));
    let mut b = FunctionalOscillator::new(SoftPhaseAccumulator::new(f, sr));
    let mut c = FunctionalOscillator::new(SoftPhaseAccumulator::new(any(), any()));
    a.set_wave(Waveform::Sawtooth);
    b.set_wave(Waveform::Sawtooth);
    c.set_wave(Waveform::Rectangle);
    let x = a.next();
    while again() {
        c.set_freq_unchecked(any());
        c.next();
    }
    let y = a.next();
    claim_eq(b.next(), x, "same first sample");
    claim_eq(b.next(), y, "same second sample");
}
pub fn claim_r05_biquad() {
    let (b0, b1, b2, a1, a2): (f32, f32, f32, f32, f32) = (any(), any(), any(), any(), any());
    let make = || {
        let mut f = Biquad::new(BiquadCoeffs::<Butterworth>::new());
        f.coeffs.b0 = b0;
        f.coeffs.b1 = b1;
        f.coeffs.b2 = b2;
        f.coeffs.a1 = a1;
        f.coeffs.a2 = a2;
        f
    };
    let (mut f, mut g, mut h) = (make(), make(), make());
    let (x, y, z): (f32, f32, f32) = (any(), any(), any());
    claim_eq(f.process(x), g.process(x), "first sample");
    h.process(any());
    claim_eq(f.process(y), g.process(y), "second sample");
    while again() {
        h.process(any());
    }
    claim_eq(f.process(z), g.process(z), "third sample");
}
pub fn claim_r05_envelope() {
    let make = || AudioRateADSR::new(0.5, 0.25, 0.5, 1.0, 1.0, 8000.0);
    let (mut e, mut g, mut h) = (make(), make(), make());
    e.trigger_on();
    g.trigger_on();
    claim_eq(e.tick(), g.tick(), "first sample");
    h.trigger_on();
    h.tick();
    h.trigger_off();
    h.set_attack(any());
    claim_eq(e.tick(), g.tick(), "second sample");
    h.reset();
    claim_eq(e.tick(), g.tick(), "third sample");
    claim(matches!(e.get_state(), EnvelopeState::Attack), "still attacking");
}

// ------------------------------------------------------------------ R06
// Copies keep position and settings, and share the buffer.
pub fn claim_r06_delay() {
    let mut d = DelayLine::new(buffer(MAXLEN));
    while again() {
        d.write_and_advance(any());
    }
    let mut e = d.clone();
    claim(e.len() == d.len(), "same length");
    claim_eq(e.read(), d.read(), "same position");
    let mut f = d.clone();
    let x: f32 = any();
    d.advance();
    f.advance();
    claim_eq(f.read(), d.read(), "same next position");
    claim(same_ptr(e.get_ptr_slice_mut() as *const f32, d.get_ptr_slice_mut() as *const f32), "same buffer");
    e.write_and_advance(x);
    claim_eq(e.read(), d.read(), "own position, same buffer");
}
pub fn claim_r06_comb() {
    let n: usize = any();
    assume(n >= 1 && n <= MAXLEN);
    let r = region(n);
    let mut c = Comb::new(from_slice_mut(&mut r[..]));
    while again() {
        match any::<u8>() {
            0 => c.set_dampening(any()),
            1 => c.set_feedback(any()),
            _ => {
                c.tick(any());
            }
        }
    }
    let mut d = c.clone();
    let x: f32 = any();
    let i = last_read(r);
    let p = c.tick(x);
    let j = last_write(r);
    let stored = peek(r, j);
    // put the sample back and let the copy do the same step
    r[j] = p;
    claim_eq(d.tick(x), p, "same output");
    claim(last_write(r) == j, "same position");
    claim_eq(peek(r, j), stored, "same feedback, damping and filter memory");
    let _ = i;
}
pub fn claim_r06_allpass() {
    let mut c = AllPass::new(buffer(MAXLEN));
    while again() {
        c.tick(any());
    }
    let mut d = c.clone();
    let x: f32 = any();
    let y = c.tick(x);
    // the stored sample is read by the copy
    let w = d.tick(0.0);
    claim_eq(w, x + 0.5 * (y + x), "same position, same buffer");
}

// ------------------------------------------------------------------ R09
fn both(b: &[f32]) -> (f32, f32) {
    (peek(b, 0), peek(b, 1))
}
/// A delay line that was asked goes on like one that was not.
pub fn claim_r09_delay() {
    let b = region(2);
    let mut d = DelayLine::new(from_slice_mut(&mut b[..]));
    while again() {
        match any::<u8>() {
            0 => d.advance(),
            _ => d.write_and_advance(any()),
        }
    }
    let mut e = d.clone();
    let old = both(b);
    let w = writes(b);
    e.get_ptr_slice_mut();
    e.len();
    claim(writes(b) == w, "asking stores nothing");
    claim_same(e.read(), d.read(), "same position");
    let x: f32 = any();
    d.write_and_advance(x);
    let new = both(b);
    (b[0], b[1]) = old;
    e.write_and_advance(x);
    claim_same(peek(b, 0), new.0, "same samples");
    claim_same(peek(b, 1), new.1, "same samples");
    claim_same(e.read(), d.read(), "same next position");
}
/// A comb filter that was asked goes on like one that was not.
pub fn claim_r09_comb() {
    let b = region(2);
    let mut c = Comb::new(from_slice_mut(&mut b[..]));
    while again() {
        match any::<u8>() {
            0 => c.set_dampening(any()),
            1 => c.set_feedback(any()),
            _ => {
                c.tick(any());
            }
        }
    }
    let mut d = c.clone();
    let old = both(b);
    let w = writes(b);
    d.get_ptr_slice_mut();
    claim(writes(b) == w, "asking stores nothing");
    let (x, z): (f32, f32) = (any(), any());
    let (y, v) = (c.tick(x), c.tick(z));
    let new = both(b);
    (b[0], b[1]) = old;
    claim_eq(d.tick(x), y, "same output");
    claim_eq(d.tick(z), v, "same next output");
    claim_eq(peek(b, 0), new.0, "same samples");
    claim_eq(peek(b, 1), new.1, "same samples");
}
/// An all-pass filter that was asked goes on like one that was not.
pub fn claim_r09_allpass() {
    let b = region(2);
    let mut c = AllPass::new(from_slice_mut(&mut b[..]));
    while again() {
        c.tick(any());
    }
    let mut d = c.clone();
    let old = both(b);
    let w = writes(b);
    d.get_ptr_slice_mut();
    claim(writes(b) == w, "asking stores nothing");
    let (x, z): (f32, f32) = (any(), any());
    let (y, v) = (c.tick(x), c.tick(z));
    let new = both(b);
    (b[0], b[1]) = old;
    claim_eq(d.tick(x), y, "same output");
    claim_eq(d.tick(z), v, "same next output");
    claim_eq(peek(b, 0), new.0, "same samples");
    claim_eq(peek(b, 1), new.1, "same samples");
}
/// A view that was asked still designates its buffer.
pub fn claim_r09_view() {
    let n: usize = any();
    assume(n >= 1 && n <= MAXLEN);
    let b = region(n);
    let mut v = from_slice_mut(&mut b[..]);
    match any::<u8>() {
        0 => {
            v.as_slice_mut();
        }
        1 => {
            v.as_slice();
        }
        2 => {
            v.len();
        }
        _ => {
            let _ = v.get_sub_slice(any(), any());
        }
    }
    claim(reads(b) == 0 && writes(b) == 0, "asking touches no sample");
    let s = v.as_slice_mut();
    claim(s.len() == n && same_ptr(s as *const f32, b.as_ptr()), "same buffer");
}
fn envelope() -> AudioRateADSR {
    let sr: f32 = any();
    assume(sr >= 1.0e-3 && sr <= 1.0e8);
    AudioRateADSR::new(number(), number(), number(), number(), number(), sr)
}
fn number() -> f32 {
    let x: f32 = any();
    assume(x == x);
    x
}
/// An envelope that was asked for its state goes on like one that was not.
pub fn claim_r09_envelope() {
    let mut e = envelope();
    while again() {
        match any::<u8>() {
            0 => e.trigger_on(),
            1 => e.trigger_off(),
            2 => e.reset(),
            3 => e.set_attack(number()),
            4 => e.set_decay(number()),
            5 => e.set_sustain(number()),
            6 => e.set_release(number()),
            7 => e.set_slope(number()),
            _ => {
                e.tick();
            }
        }
    }
    let mut f = unsafe { core::ptr::read(&e) };
    let s = e.get_state();
    match any::<u8>() {
        0 => {
            e.trigger_off();
            f.trigger_off();
        }
        1 => {
            e.trigger_on();
            f.trigger_on();
        }
        _ => {}
    }
    claim_eq(e.tick(), f.tick(), "same output");
    claim(e.get_state() as u32 == f.get_state() as u32, "same state");
    let _ = s;
}
