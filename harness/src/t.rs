//! Every per-sample call does a bounded amount of work: whatever came before
//! and whatever the arguments, no loop of the library runs more than WORK
//! times.
use crate::intr::*;
use embedded_audio_tools::convert::Decibels;
use embedded_audio_tools::dynamics::*;
use embedded_audio_tools::envelopes::AudioRateADSR;
use embedded_audio_tools::filter::*;
use embedded_audio_tools::fixed_point::math::*;
use embedded_audio_tools::float::*;
use embedded_audio_tools::memory_access::*;
use embedded_audio_tools::oscillator::Waveform;
use embedded_audio_tools::stereo::*;
use embedded_audio_tools::*;

/// More than the largest window of the Lagrange interpolation.
const WORK: usize = 128;
const MAXLEN: usize = (isize::MAX / 4) as usize;
const EXACT: usize = 1 << 24;
const FAR: isize = 1 << 61;

fn buffer(max: usize) -> MemorySlice<Mutable> {
    let n: usize = any();
    assume(n >= 1 && n <= max);
    from_slice_mut(&mut region(n)[..])
}
fn table(max: usize) -> MemorySlice<NonMutable> {
    let n: usize = any();
    assume(n >= 1 && n <= max);
    from_slice(&region(n)[..])
}
fn near() -> f32 {
    let x: f32 = any();
    assume(x >= -1.0e6 && x <= 1.0e6);
    x
}
fn offset() -> isize {
    let i: isize = any();
    assume(i >= -FAR && i <= FAR);
    i
}
fn param() -> f32 {
    let x: f32 = any();
    assume(x == x);
    x
}

/// A delay line after any history.
fn line(max: usize) -> DelayLine {
    let mut d = DelayLine::new(buffer(max));
    while again() {
        match any::<u8>() {
            0 => d.change_buffer(buffer(max)),
            1 => d.advance(),
            _ => d.write_and_advance(any()),
        }
    }
    d
}
pub fn claim_r08_delay_line() {
    allow_panics();
    let mut d = line(MAXLEN);
    let b = buffer(MAXLEN);
    bounded(WORK);
    match any::<u8>() {
        0 => {
            d.read();
        }
        1 => d.write_and_advance(any()),
        2 => d.advance(),
        3 => {
            d.read_wrapped_at(offset());
        }
        4 => d.change_buffer(b),
        _ => {
            d.get_ptr_slice_mut();
        }
    }
    claim(true, "returned");
}
pub fn claim_r08_delay_line_fractional() {
    allow_panics();
    let d = line(EXACT / 2);
    bounded(WORK);
    match any::<u8>() {
        0 => {
            d.read_lerp_wrapped_at(any());
        }
        _ => {
            d.read_lagrange_wrapped_at(near());
        }
    }
    claim(true, "returned");
}
pub fn claim_r08_comb() {
    allow_panics();
    let mut c = Comb::new(buffer(MAXLEN));
    while again() {
        match any::<u8>() {
            0 => c.change_buffer(buffer(MAXLEN)),
            1 => c.set_dampening(any()),
            2 => c.set_feedback(any()),
            _ => {
                c.tick(any());
            }
        }
    }
    let b = buffer(MAXLEN);
    bounded(WORK);
    match any::<u8>() {
        0 => c.change_buffer(b),
        1 => c.set_dampening(any()),
        2 => c.set_feedback(any()),
        _ => {
            c.tick(any());
        }
    }
    claim(true, "returned");
}
pub fn claim_r08_allpass() {
    allow_panics();
    let mut c = AllPass::new(buffer(MAXLEN));
    while again() {
        match any::<u8>() {
            0 => c.change_buffer(buffer(MAXLEN)),
            _ => {
                c.tick(any());
            }
        }
    }
    let b = buffer(MAXLEN);
    bounded(WORK);
    match any::<u8>() {
        0 => c.change_buffer(b),
        _ => {
            c.tick(any());
        }
    }
    claim(true, "returned");
}
pub fn claim_r08_biquad() {
    allow_panics();
    let mut f = Biquad::new(BiquadCoeffs::<Butterworth>::new());
    let op = |f: &mut Biquad<Butterworth>| match any::<u8>() {
        0 => f.coeffs.lowpass(any(), any(), any()),
        1 => f.coeffs.highpass(any(), any(), any()),
        2 => f.coeffs.allpass(any(), any(), any()),
        3 => f.coeffs.notch(any(), any(), any()),
        4 => f.coeffs.bell(any(), any(), any(), any()),
        5 => f.coeffs.low_shelf(any(), any(), any(), any()),
        _ => {
            f.process(any());
        }
    };
    while again() {
        op(&mut f);
    }
    bounded(WORK);
    op(&mut f);
    claim(true, "returned");
}
pub fn claim_r08_envelope() {
    allow_panics();
    let mut e = AudioRateADSR::new(param(), param(), param(), param(), param(), 48000.0);
    let op = |e: &mut AudioRateADSR| match any::<u8>() {
        0 => e.trigger_on(),
        1 => e.trigger_off(),
        2 => e.reset(),
        3 => e.set_attack(param()),
        4 => e.set_decay(param()),
        5 => e.set_sustain(param()),
        6 => e.set_release(param()),
        7 => e.set_slope(param()),
        _ => {
            e.tick();
        }
    };
    while again() {
        op(&mut e);
    }
    bounded(WORK);
    op(&mut e);
    claim(true, "returned");
}
pub fn claim_r08_oscillator() {
    allow_panics();
    let mut o = FunctionalOscillator::new(SoftPhaseAccumulator::new(any(), any()));
    let op = |o: &mut FunctionalOscillator<SoftPhaseAccumulator>| match any::<u8>() {
        0 => o.set_freq_unchecked(any()),
        1 => o.set_phase_shift_unchecked(any()),
        2 => o.set_sr_unchecked(any()),
        3 => o.set_wave(Waveform::Rectangle),
        4 => o.set_wave(Waveform::Sawtooth),
        5 => o.set_wave(Waveform::Triangle),
        6 => o.set_wave(Waveform::Sine),
        _ => {
            o.next();
        }
    };
    while again() {
        op(&mut o);
    }
    bounded(WORK);
    op(&mut o);
    claim(true, "returned");
}
pub fn claim_r08_wavetable() {
    allow_panics();
    let mut o = WavetableOscillator::new(table(EXACT), SoftPhaseAccumulator::new(any(), any()));
    let op = |o: &mut WavetableOscillator<SoftPhaseAccumulator>| match any::<u8>() {
        0 => o.set_freq_unchecked(any()),
        1 => o.set_phase_shift_unchecked(any()),
        2 => o.set_sr_unchecked(any()),
        _ => {
            o.next();
        }
    };
    while again() {
        op(&mut o);
    }
    bounded(WORK);
    op(&mut o);
    claim(true, "returned");
}
pub fn claim_r08_accumulator() {
    allow_panics();
    let mut a = SoftPhaseAccumulator::new(any(), any());
    let op = |a: &mut SoftPhaseAccumulator| match any::<u8>() {
        0 => a.set_freq_unchecked(any()),
        1 => {
            a.set_freq(any());
        }
        2 => a.set_sr_unchecked(any()),
        3 => a.set_phase_shift(any()),
        4 => {
            a.next_value();
        }
        _ => {
            a.next_value_normalized();
        }
    };
    while again() {
        op(&mut a);
    }
    bounded(WORK);
    op(&mut a);
    claim(true, "returned");
}
pub fn claim_r08_view() {
    allow_panics();
    let mut v = buffer(MAXLEN);
    bounded(WORK);
    match any::<u8>() {
        0 => {
            v.get(any());
        }
        1 => {
            v.assign(any(), any());
        }
        2 => {
            v.get_wrapped(any());
        }
        3 => {
            v.get_slice_of_four_wrapped(offset());
        }
        4 => {
            v.get_sub_slice(any(), any());
        }
        _ => {
            v.len();
            v.as_slice();
            v.as_slice_mut();
        }
    }
    claim(true, "returned");
}
pub fn claim_r08_view_fractional() {
    allow_panics();
    let v = table(EXACT);
    bounded(WORK);
    match any::<u8>() {
        0 => {
            v.lerp(any());
        }
        1 => {
            v.lerp_wrapped(any());
        }
        2 => {
            v.lagrange_four_points_wrapped(any());
        }
        3 => {
            v.lagrange_wrapped(near(), 3);
        }
        _ => {
            v.lagrange_wrapped(near(), 5);
        }
    }
    claim(true, "returned");
}
/// The number of terms follows the window, not the length of the table.
pub fn claim_r08_view_widest() {
    allow_panics();
    let mut r = region(1000);
    let v = from_slice(&r[..]);
    bounded(WORK);
    v.lagrange_wrapped(500.5, 100);
    claim(true, "returned");
}
pub fn claim_r08_scalar() {
    allow_panics();
    let (x, y, z): (f32, f32, f32) = (any(), any(), any());
    bounded(WORK);
    match any::<u8>() {
        0 => {
            digital_clip(x);
        }
        1 => {
            stereo_pan(x, (y, z));
        }
        2 => {
            mono_pan(x, y);
        }
        3 => {
            crossfade_correlated_unchecked(x, (y, z));
        }
        4 => {
            bit_reduce(x, any());
        }
        5 => {
            bit_reduce_exp(x, any());
        }
        6 => {
            lerp(x, y, z);
        }
        7 => {
            x.fixed_point_sin();
            x.fixed_point_cos();
        }
        8 => {
            x.lookup_bl_rect();
        }
        9 => {
            x.fast_tan();
            x.sinc();
        }
        10 => {
            x.to_raw_word();
            f32::from_raw_word(any());
            x.to_f32_components();
        }
        11 => {
            sin_i16(any(), any());
        }
        12 => {
            x.samples_to_seconds(y);
            x.seconds_to_samples(y);
            x.samples_to_millis(y);
            x.millis_to_samples(y);
        }
        _ => {
            lerp_unchecked(x, y, z);
        }
    }
    claim(true, "returned");
}
pub fn claim_r08_decibels() {
    allow_panics();
    let x: f32 = any();
    bounded(WORK);
    x.to_decibels();
    x.to_decibels_checked();
    x.to_decibels_unchecked();
    claim(true, "returned");
}
