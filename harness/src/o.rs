//! Oscillators.
use crate::intr::*;
use embedded_audio_tools::errors::FrequencyError;
use embedded_audio_tools::float::AdditionalF32Ext;
use embedded_audio_tools::memory_access::*;
use embedded_audio_tools::oscillator::*;
use embedded_audio_tools::*;

type Pa = SoftPhaseAccumulator;

fn rate() -> f32 {
    let sr: f32 = any();
    assume(sr >= 1.0e-3 && sr <= 1.0e8);
    sr
}
fn wave() -> Waveform {
    let w: u8 = any();
    match w {
        0 => Waveform::Sine,
        1 => Waveform::Rectangle,
        2 => Waveform::Sawtooth,
        _ => Waveform::Triangle,
    }
}
fn step(freq: f32, sr: f32) -> u32 {
    (freq * (4294967296.0 / sr)) as u32
}
fn any_call(a: &mut Pa) {
    let op: u8 = any();
    match op {
        0 => a.set_freq_unchecked(any()),
        1 => {
            a.set_freq(any());
        }
        2 => a.set_sr_unchecked(any()),
        3 => a.set_phase_shift(any()),
        4 => {
            a.next_value();
        }
        _ => {
            a.next_value_normalized();
        }
    }
}
fn used() -> Pa {
    let mut a = Pa::new(any(), any());
    while again() {
        any_call(&mut a);
    }
    a
}

// ------------------------------------------------------------------ O01
pub fn claim_o01_first() {
    let (freq, sr): (f32, f32) = (any(), any());
    let mut a = Pa::new(freq, sr);
    let s = step(freq, sr);
    claim(a.next_value() == s, "first phase is one step");
    claim(a.next_value() == s.wrapping_add(s), "second phase is two steps");
    claim(a.next_value() == s.wrapping_mul(3), "third phase is three steps");
}
pub fn claim_o01_constant_step() {
    let mut a = used();
    let (freq, sr): (f32, f32) = (any(), any());
    a.set_freq_unchecked(freq);
    a.set_sr_unchecked(sr);
    let p = a.next_value();
    let q = a.next_value();
    claim(q == p.wrapping_add(step(freq, sr)), "every call moves by frequency times 2^32 over the rate");
}
pub fn claim_o01_step_kept() {
    let mut a = used();
    let p = a.next_value();
    let q = a.next_value();
    let r = a.next_value();
    claim(r.wrapping_sub(q) == q.wrapping_sub(p), "the same step every call");
}
pub fn claim_o01_shift() {
    let mut a = used();
    let (s, t): (u32, u32) = (any(), any());
    let (freq, sr): (f32, f32) = (any(), any());
    a.set_freq_unchecked(freq);
    a.set_sr_unchecked(sr);
    a.set_phase_shift(s);
    let p = a.next_value();
    a.set_phase_shift(t);
    let q = a.next_value();
    claim(
        q == p.wrapping_add(step(freq, sr)).wrapping_sub(s).wrapping_add(t),
        "the shift is added to the running phase",
    );
}
/// Whatever is called between, a new shift replaces the one before.
pub fn claim_o01_shift_replaced() {
    let mut a = used();
    let (s, t): (u32, u32) = (any(), any());
    let (mut freq, mut sr): (f32, f32) = (any(), any());
    a.set_freq_unchecked(freq);
    a.set_sr_unchecked(sr);
    a.set_phase_shift(s);
    let p = a.next_value();
    let mut moved = 0_u32;
    match any::<u8>() {
        0 => {
            sr = any();
            a.set_sr_unchecked(sr);
        }
        1 => {
            freq = any();
            a.set_freq_unchecked(freq);
        }
        2 => {
            let f: f32 = any();
            if a.set_freq(f).is_ok() {
                freq = f;
            }
        }
        3 => a.set_phase_shift(any()),
        4 => {
            a.next_value_normalized();
            moved = step(freq, sr);
        }
        _ => {}
    }
    a.set_phase_shift(t);
    let q = a.next_value();
    claim(
        q == p.wrapping_add(moved).wrapping_add(step(freq, sr)).wrapping_sub(s).wrapping_add(t),
        "the shift replaces the one before",
    );
}
/// New settings show in the next step, the phase itself does not jump.
pub fn claim_o01_continuous() {
    let mut a = used();
    let (freq, sr): (f32, f32) = (any(), any());
    a.set_freq_unchecked(freq);
    a.set_sr_unchecked(sr);
    let p = a.next_value();
    let (freq2, sr2): (f32, f32) = (any(), any());
    if any() {
        a.set_freq_unchecked(freq2);
        let q = a.next_value();
        claim(q == p.wrapping_add(step(freq2, sr)), "a new frequency moves on from the phase");
    } else {
        a.set_sr_unchecked(sr2);
        let q = a.next_value();
        claim(q == p.wrapping_add(step(freq, sr2)), "a new rate moves on from the phase");
    }
}
/// The normalised call takes the same step.
pub fn claim_o01_normalized_step() {
    let mut a = used();
    let (freq, sr): (f32, f32) = (any(), any());
    a.set_freq_unchecked(freq);
    a.set_sr_unchecked(sr);
    let p = a.next_value();
    a.next_value_normalized();
    let q = a.next_value();
    let s = step(freq, sr);
    claim(q == p.wrapping_add(s).wrapping_add(s), "two steps");
}
pub fn claim_o01_frequency() {
    let (freq, sr): (f32, f32) = (any(), any());
    assume(sr >= 8000.0 && sr <= 400000.0 && freq >= 0.0 && freq <= 4000.0);
    let mut a = Pa::new(freq, sr);
    let s = a.next_value();
    claim_in(s as f32 - freq * 4294967296.0 / sr, -1.0, 0.0, 300.0, "one period per 1/frequency");
}

// ------------------------------------------------------------------ O02
/// Normalised phase: below one, never negative, the phase over 2^32.
pub fn claim_o02_range() {
    let mut a = used();
    let p = a.next_value_normalized();
    claim(p >= 0.0, "not negative");
    claim(p < 1.0, "below one");
}
pub fn claim_o02_value() {
    let (freq, sr, s): (f32, f32, u32) = (any(), any(), any());
    let mut a = Pa::new(freq, sr);
    let mut b = Pa::new(freq, sr);
    a.set_phase_shift(s);
    b.set_phase_shift(s);
    a.next_value();
    b.next_value_normalized();
    let p = a.next_value();
    let q = b.next_value_normalized();
    claim_in(p as f32 / 4294967296.0 - q, 0.0, 6.0e-8, 1.0e-7, "the phase over 2^32");
}

// ------------------------------------------------------------------ O03
pub fn claim_o03_set_freq() {
    let mut a = used();
    let (f, sr): (f32, f32) = (any(), any());
    assume(sr >= 1.0 && sr <= 1.0e8);
    a.set_sr_unchecked(sr);
    // of 2^32 per sample
    let moved = f * (4294967296.0 / sr);
    match a.set_freq(f) {
        Ok(()) => {
            claim(f > 0.0, "only positive frequencies");
            claim(moved <= 2.1476e9, "only up to half a period per sample");
        }
        Err(FrequencyError::Zero) => claim(f == 0.0, "zero"),
        Err(FrequencyError::Negative) => claim(f < 0.0, "negative"),
        Err(FrequencyError::BiggerThanNyquist) => claim(!(moved <= 2.1473e9), "above half the rate"),
    }
}
/// Rates that are powers of two make the limit exact.
pub fn claim_o03_limit() {
    let mut a = used();
    let k = pick(10, 19);
    let sr = (1 << k) as f32;
    a.set_sr_unchecked(sr);
    let half = sr / 2.0;
    claim(a.set_freq(half).is_ok(), "half the rate itself is playable");
    claim(a.set_freq(half * 0.9999).is_ok(), "just below half the rate");
    claim(a.set_freq(half * 1.0001).is_err(), "just above half the rate");
    claim(a.set_freq(1.0e-30).is_ok(), "very low frequencies");
}
pub fn claim_o03_effect() {
    let mut a = used();
    let (f, g, sr): (f32, f32, f32) = (any(), any(), any());
    a.set_sr_unchecked(sr);
    a.set_freq_unchecked(f);
    let p = a.next_value();
    let r = a.set_freq(g);
    let q = a.next_value();
    match r {
        Ok(()) => claim(q == p.wrapping_add(step(g, sr)), "accepted frequencies are used"),
        Err(_) => claim(q == p.wrapping_add(step(f, sr)), "rejected frequencies change nothing"),
    }
}

// ------------------------------------------------------------------ O04
/// Every waveform stays in range whatever has been called before.
pub fn claim_o04_bounded() {
    let mut o = FunctionalOscillator::new(used());
    let w: u8 = any();
    o.set_wave(match w {
        0 => Waveform::Rectangle,
        1 => Waveform::Sawtooth,
        _ => Waveform::Triangle,
    });
    claim_in(o.next(), -1.0, 1.0, 1.0e-6, "between -1 and 1");
}
/// The sine over 256 parts of the period: close to the ideal, thus in range.
pub fn claim_o04_sine() {
    let mut s = spy();
    let k = pick(0, 256);
    assume(s.phase >= k as f32 / 256.0 && s.phase <= (k + 1) as f32 / 256.0);
    let y = FunctionalOscillator::new(&mut s).next();
    let j = k % 64;
    let (a, b) = if k / 64 % 2 == 0 { (j, j + 1) } else { (63 - j, 64 - j) };
    let (lo, hi) = (sine(a), sine(b));
    let y = if k < 128 { y } else { -y };
    claim_in(y, lo - 0.02, 1.0001, 0.0, "not below the sine");
    claim_in(y, -1.0001, hi + 0.02, 0.0, "not above the sine");
}
fn sine(k: i32) -> f32 {
    let x = core::f32::consts::FRAC_PI_2 * k as f32 / 64.0;
    let q = x * x;
    x * (1.0 - q / 6.0 * (1.0 - q / 20.0 * (1.0 - q / 42.0 * (1.0 - q / 72.0 * (1.0 - q / 110.0)))))
}
// ------------------------------------------------------------------ O05
/// A phase source under control of the specification.
struct Spy {
    phase: f32,
    calls: u32,
    freq: f32,
    sr: f32,
    shift: u32,
    set: u32,
}
impl PhaseAccumulator for Spy {
    type Object = Spy;
    fn new(freq: f32, sr: f32) -> Spy {
        Spy { phase: 0.0, calls: 0, freq, sr, shift: 0, set: 0 }
    }
    fn set_sr_unchecked(&mut self, sr: f32) {
        self.sr = sr;
        self.set = self.set.wrapping_add(1);
    }
    fn set_freq_unchecked(&mut self, freq: f32) {
        self.freq = freq;
        self.set = self.set.wrapping_add(1);
    }
    fn set_phase_shift(&mut self, shift: u32) {
        self.shift = shift;
        self.set = self.set.wrapping_add(1);
    }
    fn next_value(&mut self) -> u32 {
        self.calls = self.calls.wrapping_add(1);
        (self.phase * 4294967296.0) as u32
    }
    fn next_value_normalized(&mut self) -> f32 {
        self.calls = self.calls.wrapping_add(1);
        self.phase
    }
}
impl PhaseAccumulator for &mut Spy {
    type Object = Spy;
    fn new(freq: f32, sr: f32) -> Spy {
        Spy { phase: 0.0, calls: 0, freq, sr, shift: 0, set: 0 }
    }
    fn set_sr_unchecked(&mut self, sr: f32) {
        (**self).set_sr_unchecked(sr)
    }
    fn set_freq_unchecked(&mut self, freq: f32) {
        (**self).set_freq_unchecked(freq)
    }
    fn set_phase_shift(&mut self, shift: u32) {
        (**self).set_phase_shift(shift)
    }
    fn next_value(&mut self) -> u32 {
        (**self).next_value()
    }
    fn next_value_normalized(&mut self) -> f32 {
        (**self).next_value_normalized()
    }
}
fn spy() -> Spy {
    let phase: f32 = any();
    assume(phase >= 0.0 && phase < 1.0);
    Spy { phase, calls: 0, freq: any(), sr: any(), shift: any(), set: 0 }
}
fn shape(w: Waveform) -> (f32, f32) {
    let mut s = spy();
    let p = s.phase;
    let y = {
        let mut o = FunctionalOscillator::new(&mut s);
        o.set_wave(w);
        o.next()
    };
    claim(s.calls == 1, "one phase step per sample");
    claim(s.set == 0, "no parameter is touched");
    (p, y)
}
pub fn claim_o05_saw() {
    let (p, y) = shape(Waveform::Sawtooth);
    claim_eq(y, 2.0 * p - 1.0, "rises from -1 to 1");
}
pub fn claim_o05_rect() {
    let (p, y) = shape(Waveform::Rectangle);
    claim_eq(y, if p < 0.5 { -1.0 } else { 1.0 }, "-1 in the first half, 1 in the second");
}
pub fn claim_o05_tri() {
    let (p, y) = shape(Waveform::Triangle);
    if p < 0.5 {
        claim_eq(y, 4.0 * p - 1.0, "rises from -1 to 1 in the first half");
    } else {
        claim_eq(y, 3.0 - 4.0 * p, "falls from 1 to -1 in the second half");
    }
}
pub fn claim_o05_sine() {
    opaque("fixed_point_sin");
    let (p, y) = shape(Waveform::Sine);
    claim_eq(y, (core::f32::consts::TAU * p).fixed_point_sin(), "sine of 2 pi times the phase");
}
pub fn claim_o05_default() {
    opaque("fixed_point_sin");
    let mut s = spy();
    let p = s.phase;
    let y = FunctionalOscillator::new(&mut s).next();
    claim_eq(y, (core::f32::consts::TAU * p).fixed_point_sin(), "starts as a sine");
}
/// A phase source that goes anywhere and remembers the last phase it gave.
struct Wild {
    phase: f32,
}
impl PhaseAccumulator for &mut Wild {
    type Object = ();
    fn new(_: f32, _: f32) {}
    fn set_sr_unchecked(&mut self, _: f32) {}
    fn set_freq_unchecked(&mut self, _: f32) {}
    fn set_phase_shift(&mut self, _: u32) {}
    fn next_value(&mut self) -> u32 {
        (self.next_value_normalized() * 4294967296.0) as u32
    }
    fn next_value_normalized(&mut self) -> f32 {
        let phase: f32 = any();
        assume(phase >= 0.0 && phase < 1.0);
        self.phase = phase;
        phase
    }
}
/// One sample after any history.
fn later(w: Waveform) -> (f32, f32) {
    let mut s = Wild { phase: 0.0 };
    let y = {
        let mut o = FunctionalOscillator::new(&mut s);
        while again() {
            match any::<u8>() {
                0 => {
                    o.next();
                }
                1 => o.set_wave(wave()),
                2 => o.set_freq_unchecked(any()),
                3 => o.set_sr_unchecked(any()),
                _ => o.set_phase_shift_unchecked(any()),
            }
        }
        o.set_wave(w);
        if any() {
            o.set_freq_unchecked(any());
            o.set_sr_unchecked(any());
            o.set_phase_shift_unchecked(any());
        }
        o.next()
    };
    (s.phase, y)
}
pub fn claim_o05_saw_later() {
    let (p, y) = later(Waveform::Sawtooth);
    claim_eq(y, 2.0 * p - 1.0, "sawtooth");
}
pub fn claim_o05_rect_later() {
    let (p, y) = later(Waveform::Rectangle);
    claim_eq(y, if p < 0.5 { -1.0 } else { 1.0 }, "rectangle");
}
pub fn claim_o05_tri_later() {
    let (p, y) = later(Waveform::Triangle);
    claim_eq(y, if p < 0.5 { 4.0 * p - 1.0 } else { 3.0 - 4.0 * p }, "triangle");
}
pub fn claim_o05_sine_later() {
    opaque("fixed_point_sin");
    let (p, y) = later(Waveform::Sine);
    claim_eq(y, (core::f32::consts::TAU * p).fixed_point_sin(), "sine");
}
/// The waveform can change at any sample without moving the phase.
pub fn claim_o05_steps() {
    let mut s = spy();
    {
        let mut o = FunctionalOscillator::new(&mut s);
        let mut i = 0;
        while i < 4 {
            o.set_wave(wave());
            o.next();
            i += 1;
        }
    }
    claim(s.calls == 4, "one phase step per sample");
}

// ------------------------------------------------------------------ O06
/// The wavetable is read at phase times length, interpolated and wrapped.
pub fn claim_o06_value() {
    let n: usize = any();
    assume(n >= 1 && n <= 1 << 20);
    let b = region(n);
    let mut s = spy();
    let p = s.phase;
    let view = from_slice(&*b);
    let y = WavetableOscillator::new(view, &mut s).next();
    claim(s.calls == 1, "one phase step per sample");
    let x = p * n as f32;
    let i = x as usize;
    assume(i < n);
    let f = x - i as f32;
    let l = peek(b, i);
    let r = peek(b, if i + 1 == n { 0 } else { i + 1 });
    claim_eq(y, l + (r - l) * f, "interpolated table value");
    claim(writes(b) == 0, "the table is not written");
}
/// The same after any history, and with the table rewritten in between.
pub fn claim_o06_later() {
    let n: usize = any();
    assume(n >= 1 && n <= 1 << 20);
    let b = region(n);
    let mut s = Wild { phase: 0.0 };
    let y = {
        let mut o = WavetableOscillator::new(from_slice(&*b), &mut s);
        while again() {
            match any::<u8>() {
                0 => {
                    o.next();
                }
                1 => o.set_freq_unchecked(any()),
                2 => o.set_sr_unchecked(any()),
                3 => o.set_phase_shift_unchecked(any()),
                _ => {
                    let j: usize = any();
                    assume(j < n);
                    b[j] = any();
                }
            }
        }
        o.next()
    };
    let x = s.phase * n as f32;
    let i = x as usize;
    assume(i < n);
    let f = x - i as f32;
    let l = peek(b, i);
    let r = peek(b, if i + 1 == n { 0 } else { i + 1 });
    claim_eq(y, l + (r - l) * f, "interpolated table value");
}
pub fn claim_o06_range() {
    let n: usize = any();
    assume(n >= 1 && n <= 1 << 20);
    let b = region_in(n, -0.75, 0.5);
    let view = from_slice(&*b);
    let mut o = WavetableOscillator::new(view, Pa::new(any(), any()));
    while again() {
        let op: u8 = any();
        match op {
            0 => o.set_freq_unchecked(any()),
            1 => o.set_phase_shift_unchecked(any()),
            2 => o.set_sr_unchecked(any()),
            _ => {
                claim_in(o.next(), -0.75, 0.5, 1.0e-6, "between the table's bounds");
            }
        }
    }
    claim(writes(b) == 0, "the table is not written");
}

// ------------------------------------------------------------------ O07
pub fn claim_o07_functional() {
    let mut s = spy();
    let (f, sr, x): (f32, f32, f32) = (any(), any(), any());
    assume(x >= 0.0 && x < 1.0);
    {
        let mut o = FunctionalOscillator::new(&mut s);
        o.set_freq_unchecked(f);
        o.set_sr_unchecked(sr);
        o.set_phase_shift_unchecked(x);
    }
    claim_eq(s.freq, f, "frequency reaches the phase source");
    claim_eq(s.sr, sr, "rate reaches the phase source");
    claim_in(s.shift as f32 / 4294967296.0 - x, -3.0e-10, 0.0, 1.0e-6, "shift in periods");
    claim(s.set == 3 && s.calls == 0, "nothing else");
}
/// The same after any history.
pub fn claim_o07_functional_later() {
    let mut s = spy();
    let (f, sr, x): (f32, f32, f32) = (any(), any(), any());
    assume(x >= 0.0 && x < 1.0);
    {
        let mut o = FunctionalOscillator::new(&mut s);
        while again() {
            match any::<u8>() {
                0 => {
                    o.next();
                }
                1 => o.set_freq_unchecked(any()),
                2 => o.set_sr_unchecked(any()),
                3 => o.set_phase_shift_unchecked(any()),
                _ => o.set_wave(wave()),
            }
        }
        o.set_freq_unchecked(f);
        o.set_sr_unchecked(sr);
        o.set_phase_shift_unchecked(x);
        o.set_wave(wave());
        o.next();
    }
    claim_eq(s.freq, f, "frequency reaches the phase source");
    claim_eq(s.sr, sr, "rate reaches the phase source");
    claim_in(s.shift as f32 / 4294967296.0 - x, -3.0e-10, 0.0, 1.0e-6, "shift in periods");
}
pub fn claim_o07_wavetable_later() {
    let n: usize = any();
    assume(n >= 1 && n <= 1 << 20);
    let b = region(n);
    let mut s = spy();
    let (f, sr, x): (f32, f32, f32) = (any(), any(), any());
    assume(x >= 0.0 && x < 1.0);
    {
        let mut o = WavetableOscillator::new(from_slice(&*b), &mut s);
        while again() {
            match any::<u8>() {
                0 => {
                    o.next();
                }
                1 => o.set_freq_unchecked(any()),
                2 => o.set_sr_unchecked(any()),
                _ => o.set_phase_shift_unchecked(any()),
            }
        }
        o.set_freq_unchecked(f);
        o.set_sr_unchecked(sr);
        o.set_phase_shift_unchecked(x);
        o.next();
    }
    claim_eq(s.freq, f, "frequency reaches the phase source");
    claim_eq(s.sr, sr, "rate reaches the phase source");
    claim_in(s.shift as f32 / 4294967296.0 - x, -3.0e-10, 0.0, 1.0e-6, "shift in periods");
}
pub fn claim_o07_wavetable() {
    let n: usize = any();
    assume(n >= 1 && n <= 1 << 20);
    let b = region(n);
    let mut s = spy();
    let (f, sr, x): (f32, f32, f32) = (any(), any(), any());
    assume(x >= 0.0 && x < 1.0);
    {
        let mut o = WavetableOscillator::new(from_slice(&*b), &mut s);
        o.set_freq_unchecked(f);
        o.set_sr_unchecked(sr);
        o.set_phase_shift_unchecked(x);
    }
    claim_eq(s.freq, f, "frequency reaches the phase source");
    claim_eq(s.sr, sr, "rate reaches the phase source");
    claim_in(s.shift as f32 / 4294967296.0 - x, -3.0e-10, 0.0, 1.0e-6, "shift in periods");
    claim(s.set == 3 && s.calls == 0, "nothing else");
}
/// Setters and sounding commute with the phase source used directly.
pub fn claim_o07_same_phase() {
    let (f, g, sr): (f32, f32, f32) = (any(), any(), any());
    let s: f32 = any();
    assume(s >= 0.0 && s < 1.0);
    let mut o = FunctionalOscillator::new(Pa::new(f, sr));
    let mut a = Pa::new(f, sr);
    o.set_wave(Waveform::Sawtooth);
    o.next();
    a.next_value();
    o.set_freq_unchecked(g);
    a.set_freq_unchecked(g);
    o.next();
    a.next_value();
    claim_eq(o.next(), 2.0 * a.next_value_normalized() - 1.0, "same phase");
}
