//! Envelope generator.
use crate::intr::*;
use embedded_audio_tools::envelopes::{AudioRateADSR, EnvelopeState};

fn rate() -> f32 {
    let sr: f32 = any();
    assume(sr >= 1.0e-3 && sr <= 1.0e8);
    sr
}
/// Any parameter but NaN.
fn param() -> f32 {
    let x: f32 = any();
    assume(x == x);
    x
}
fn fresh() -> AudioRateADSR {
    AudioRateADSR::new(param(), param(), param(), param(), param(), rate())
}
/// Any call of the interface.
fn any_call(e: &mut AudioRateADSR) {
    let op: u8 = any();
    match op {
        0 => e.trigger_on(),
        1 => e.trigger_off(),
        2 => e.reset(),
        3 => e.set_attack(param()),
        4 => e.set_decay(param()),
        5 => e.set_sustain(param()),
        6 => e.set_release(param()),
        7 => e.set_slope(param()),
        8 => e.set_sr(rate()),
        9 => {
            e.get_state();
        }
        _ => {
            e.tick();
        }
    }
}
/// An envelope after any history of calls.
fn used() -> AudioRateADSR {
    let mut e = fresh();
    while again() {
        any_call(&mut e);
    }
    e
}
fn idle(s: EnvelopeState) -> bool {
    matches!(s, EnvelopeState::Idle)
}
fn attack(s: EnvelopeState) -> bool {
    matches!(s, EnvelopeState::Attack)
}
fn decay(s: EnvelopeState) -> bool {
    matches!(s, EnvelopeState::Decay)
}
fn sustain(s: EnvelopeState) -> bool {
    matches!(s, EnvelopeState::Sustain)
}
fn release(s: EnvelopeState) -> bool {
    matches!(s, EnvelopeState::Release)
}
fn same(a: EnvelopeState, b: EnvelopeState) -> bool {
    a as u32 == b as u32
}

// ------------------------------------------------------------------ E01
pub fn claim_e01_range() {
    let mut e = used();
    claim_in(e.tick(), 0.0, 1.0, 1.0e-6, "between 0 and 1");
}

// ------------------------------------------------------------------ E02
pub fn claim_e02_start() {
    let mut e = fresh();
    claim(idle(e.get_state()), "starts idle");
    claim_eq(e.tick(), 0.0, "idle is silent");
    claim(idle(e.get_state()), "stays idle");
}
pub fn claim_e02_tick() {
    let mut e = used();
    let a = e.get_state();
    e.tick();
    let b = e.get_state();
    match a {
        EnvelopeState::Idle => claim(idle(b), "idle until triggered"),
        EnvelopeState::Attack => claim(attack(b) || decay(b), "decay follows the attack"),
        EnvelopeState::Decay => claim(decay(b) || sustain(b), "sustain follows the decay"),
        EnvelopeState::Sustain => claim(sustain(b), "sustained until released"),
        EnvelopeState::Release => claim(release(b) || idle(b), "idle follows the release"),
    }
}
pub fn claim_e02_on() {
    let mut e = used();
    e.trigger_on();
    claim(attack(e.get_state()), "trigger starts the attack");
}
pub fn claim_e02_off() {
    let mut e = used();
    let a = e.get_state();
    e.trigger_off();
    let b = e.get_state();
    if idle(a) {
        claim(idle(b), "nothing to release");
    } else {
        claim(release(b), "released");
    }
}
pub fn claim_e02_reset() {
    let mut e = used();
    e.reset();
    claim(idle(e.get_state()), "reset");
    claim_eq(e.tick(), 0.0, "silent after reset");
}
pub fn claim_e02_setters() {
    let mut e = used();
    let a = e.get_state();
    e.set_attack(param());
    e.set_decay(param());
    e.set_sustain(param());
    e.set_release(param());
    e.set_slope(param());
    e.set_sr(rate());
    claim(same(a, e.get_state()), "parameters do not move the state");
}

// ------------------------------------------------------------------ E03
pub fn claim_e03_tick() {
    let mut e = used();
    let s = any();
    assume(s >= 0.0 && s <= 1.0);
    e.set_sustain(s);
    let a = e.get_state();
    let y = e.tick();
    let b = e.get_state();
    match a {
        EnvelopeState::Idle => claim_eq(y, 0.0, "idle is silent"),
        EnvelopeState::Attack => {
            if decay(b) {
                claim_eq(y, 1.0, "the attack ends at one");
            }
        }
        EnvelopeState::Decay => {
            if sustain(b) {
                claim_eq(y, s, "the decay ends at the sustain level");
            } else {
                claim(y >= s, "the decay stays above the sustain level");
            }
        }
        EnvelopeState::Sustain => claim_eq(y, s, "the sustain level"),
        EnvelopeState::Release => {
            if idle(b) {
                claim_eq(y, 0.0, "the release ends at silence");
            }
        }
    }
}
/// The release starts from the level at which the key was let go.
pub fn claim_e03_release() {
    let mut e = used();
    let y = e.tick();
    let a = e.get_state();
    assume(!idle(a) && !release(a));
    e.trigger_off();
    let z = e.tick();
    claim_in(z - y, -2.0, 0.0, 1.0e-6, "falls from the current level");
    let z = e.tick();
    claim_in(z - y, -2.0, 0.0, 1.0e-6, "falls from the current level");
}
/// Whatever happens between the last sample and letting go, the release
/// starts from the level that was last heard.
pub fn claim_e03_release_level() {
    let mut e = used();
    let y = e.tick();
    match any::<u8>() {
        0 => e.set_attack(param()),
        1 => e.set_decay(param()),
        2 => e.set_sustain(param()),
        3 => e.set_release(param()),
        4 => e.set_slope(param()),
        5 => e.set_sr(rate()),
        _ => {}
    }
    if any() || release(e.get_state()) {
        e.trigger_on();
    }
    e.trigger_off();
    claim_in(e.tick() - y, -2.0, 0.0, 1.0e-6, "never above the last output");
}
pub fn claim_e03_release_after_reset() {
    let mut e = used();
    e.reset();
    e.trigger_on();
    e.trigger_off();
    claim_eq(e.tick(), 0.0, "nothing was heard since the reset");
    claim_eq(e.tick(), 0.0, "nothing was heard since the reset");
}
pub fn claim_e03_sustain_clamped() {
    let mut e = used();
    assume(sustain(e.get_state()));
    let s = param();
    e.set_sustain(s);
    let y = e.tick();
    claim(y >= 0.0 && y <= 1.0, "between 0 and 1");
    if s >= 0.0 && s <= 1.0 {
        claim_eq(y, s, "as set");
    } else {
        claim_eq(y, if s > 0.0 { 1.0 } else { 0.0 }, "the nearer bound");
    }
}

// ------------------------------------------------------------------ E04
fn pow(x: f32, y: f32) -> f32 {
    micromath::F32Ext::powf(x, y)
}
struct P {
    e: AudioRateADSR,
    sr: f32,
    slope: f32,
}
/// Rate at which no stage of 1e-9 seconds takes a sample.
fn quick() -> f32 {
    let sr: f32 = any();
    assume(sr >= 1.0 && sr <= 1.0e7);
    sr
}
fn curve() -> f32 {
    let slope: f32 = any();
    assume(slope >= 0.05 && slope <= 20.0);
    slope
}
fn shaped(a: f32, d: f32, s: f32, r: f32) -> P {
    let (sr, slope) = (quick(), curve());
    P { e: AudioRateADSR::new(a, d, s, r, slope, sr), sr, slope }
}
fn long() -> f32 {
    let t: f32 = any();
    assume(t >= 1.0e-4 && t <= 1.99);
    t
}
fn level() -> f32 {
    let s: f32 = any();
    assume(s >= 0.0 && s <= 1.0);
    s
}
/// Attack after n samples: (n / (time * rate)) ^ (1 / slope)
pub fn claim_e04_attack() {
    let t = long();
    let mut p = shaped(t, long(), level(), long());
    p.e.trigger_on();
    let mut n = 1.0;
    while n <= 8.0 {
        let y = p.e.tick();
        if attack(p.e.get_state()) && n < t * p.sr {
            claim_eq(y, pow(n / (t * p.sr), 1.0 / p.slope), "attack curve");
        }
        n += 1.0;
    }
}
/// Decay after n samples: 1 - (1 - sustain) * (n / (time * rate)) ^ slope
pub fn claim_e04_decay() {
    let (t, s) = (long(), level());
    let mut p = shaped(1.0e-9, t, s, long());
    p.e.trigger_on();
    claim_eq(p.e.tick(), 1.0, "no attack time");
    claim(decay(p.e.get_state()), "no attack time");
    let mut n = 1.0;
    while n <= 8.0 {
        let y = p.e.tick();
        if decay(p.e.get_state()) && n < t * p.sr {
            claim_eq(y, 1.0 - (1.0 - s) * pow(n / (t * p.sr), p.slope), "decay curve");
        }
        n += 1.0;
    }
}
/// Release after n samples: start * (1 - (n / (time * rate)) ^ slope)
pub fn claim_e04_release() {
    let (t, s) = (long(), level());
    let mut p = shaped(1.0e-9, 1.0e-9, s, t);
    p.e.trigger_on();
    p.e.tick();
    claim_eq(p.e.tick(), s, "no decay time");
    claim(sustain(p.e.get_state()), "no decay time");
    p.e.trigger_off();
    let mut n = 1.0;
    while n <= 8.0 {
        let y = p.e.tick();
        if release(p.e.get_state()) && n < t * p.sr {
            claim_eq(y, s * (1.0 - pow(n / (t * p.sr), p.slope)), "release curve");
        }
        n += 1.0;
    }
}
/// Letting go again does not prolong a release.
pub fn claim_e04_release_twice() {
    let (t, s) = (long(), level());
    let mut p = shaped(1.0e-9, 1.0e-9, s, t);
    p.e.trigger_on();
    p.e.tick();
    p.e.tick();
    claim(sustain(p.e.get_state()), "no decay time");
    p.e.trigger_off();
    let mut n = 1.0;
    while n <= 8.0 {
        if any() {
            p.e.trigger_off();
        }
        let y = p.e.tick();
        if release(p.e.get_state()) && n < t * p.sr {
            claim_eq(y, s * (1.0 - pow(n / (t * p.sr), p.slope)), "release curve");
        }
        n += 1.0;
    }
}
/// A new note starts its attack from the beginning.
pub fn claim_e04_restart() {
    let t = long();
    let mut p = shaped(t, long(), level(), long());
    while again() {
        let op: u8 = any();
        match op {
            0 => p.e.trigger_on(),
            1 => p.e.trigger_off(),
            2 => p.e.reset(),
            _ => {
                p.e.tick();
            }
        }
    }
    let a = p.e.get_state();
    assume(idle(a) || attack(a));
    p.e.trigger_on();
    let y = p.e.tick();
    if attack(p.e.get_state()) && 1.0 < t * p.sr {
        claim_eq(y, pow(1.0 / (t * p.sr), 1.0 / p.slope), "attack curve");
    }
}

/// An envelope after any history, then given these parameters.
fn later(attack: f32, decay: f32, sustain: f32, release: f32) -> P {
    let mut p = P { e: used(), sr: quick(), slope: curve() };
    p.e.set_sr(p.sr);
    p.e.set_slope(p.slope);
    p.e.set_attack(attack);
    p.e.set_decay(decay);
    p.e.set_sustain(sustain);
    p.e.set_release(release);
    p
}
/// Whatever came before, a release starts from the level last heard.
pub fn claim_e04_release_later() {
    let t = long();
    let mut p = later(long(), long(), level(), t);
    let y = p.e.tick();
    let a = p.e.get_state();
    assume(attack(a) || decay(a) || sustain(a));
    match any::<u8>() {
        0 => p.e.set_attack(param()),
        1 => p.e.set_decay(param()),
        2 => p.e.set_sustain(param()),
        3 => p.e.trigger_on(),
        _ => {}
    }
    p.e.trigger_off();
    let z = p.e.tick();
    if release(p.e.get_state()) && 1.0 < t * p.sr {
        claim_eq(z, y * (1.0 - pow(1.0 / (t * p.sr), p.slope)), "release curve from the level last heard");
        let z = p.e.tick();
        if release(p.e.get_state()) && 2.0 < t * p.sr {
            claim_eq(z, y * (1.0 - pow(2.0 / (t * p.sr), p.slope)), "release curve from the level last heard");
        }
    }
}
/// Held notes end their attack in a decay from its beginning.
pub fn claim_e04_decay_later() {
    let (t, s) = (long(), level());
    let mut p = later(long(), t, s, long());
    assume(attack(p.e.get_state()));
    p.e.tick();
    assume(decay(p.e.get_state()));
    let z = p.e.tick();
    if decay(p.e.get_state()) && 1.0 < t * p.sr {
        claim_eq(z, 1.0 - (1.0 - s) * pow(1.0 / (t * p.sr), p.slope), "decay curve from its beginning");
    }
}

// ------------------------------------------------------------------ E05
/// Times of n samples end after n samples.
pub fn claim_e05_duration() {
    let k = pick(0, 6);
    let n = if k == 5 {
        8.0
    } else {
        1.0 + k as f32
    };
    duration(n, 20.0, 0.0);
}
pub fn claim_e05_longer() {
    unroll(32);
    duration(if pick(0, 2) == 0 { 12.0 } else { 20.0 }, 2.0, 0.0);
}
/// A time is a rounded number: times the rate it comes out just beside the
/// whole number it stands for.
pub fn claim_e05_rounded() {
    let d: f32 = any();
    assume(d >= -1.0e-6 && d <= 1.0e-6);
    duration(2.0 + pick(0, 3) as f32, 2.0, d);
}
fn duration(n: f32, most: f32, off: f32) {
    let (s, slope): (f32, f32) = (level(), any());
    assume(slope >= 1.0 / most && slope <= most);
    assume(s <= 0.999 && s >= 0.001);
    let sr = match pick(0, 6) {
        0 => 1000.0,
        1 => 8000.0,
        2 => 44100.0,
        3 => 48000.0,
        4 => 96000.0,
        _ => 1.0e6,
    };
    let time = (n + off) / sr;
    let mut e = AudioRateADSR::new(time, time, s, time, slope, sr);
    e.trigger_on();
    let mut i = 1.0;
    while i <= n {
        claim(attack(e.get_state()), "the attack is not over early");
        e.tick();
        i += 1.0;
    }
    if attack(e.get_state()) {
        e.tick();
    }
    claim(decay(e.get_state()), "the attack is over in time");
    i = 1.0;
    while i <= n {
        e.tick();
        i += 1.0;
    }
    if decay(e.get_state()) {
        e.tick();
    }
    claim(sustain(e.get_state()), "the decay is over in time");
    e.trigger_off();
    i = 1.0;
    while i <= n {
        e.tick();
        i += 1.0;
    }
    if release(e.get_state()) {
        e.tick();
    }
    claim(idle(e.get_state()), "the release is over in time");
}

// ------------------------------------------------------------------ E06
/// The setters store what the constructor stores.
pub fn claim_e06_setters() {
    let (a, d, s, r, l, sr) = (param(), param(), param(), param(), param(), rate());
    let mut p = AudioRateADSR::new(a, d, s, r, l, sr);
    let mut q = AudioRateADSR::new(param(), param(), param(), param(), param(), rate());
    q.set_sr(sr);
    q.set_attack(a);
    q.set_decay(d);
    q.set_sustain(s);
    q.set_release(r);
    q.set_slope(l);
    p.trigger_on();
    q.trigger_on();
    let mut i = 0;
    while i < 3 {
        claim_eq(p.tick(), q.tick(), "same output");
        claim(same(p.get_state(), q.get_state()), "same state");
        i += 1;
    }
    p.trigger_off();
    q.trigger_off();
    claim_eq(p.tick(), q.tick(), "same output");
    claim(same(p.get_state(), q.get_state()), "same state");
}

// ------------------------------------------------------------------ E07
/// Attack in its third sample, with a parameter set after the second.
pub fn claim_e07_attack() {
    let (t, u) = (long(), long());
    let mut p = shaped(t, long(), level(), long());
    p.e.trigger_on();
    p.e.tick();
    p.e.tick();
    let (mut x, mut slope) = (3.0 / (t * p.sr), p.slope);
    match any::<u8>() {
        0 => {
            p.e.set_attack(u);
            x = 2.0 / (t * p.sr) + 1.0 / (u * p.sr);
        }
        1 => {
            slope = curve();
            p.e.set_slope(slope);
        }
        2 => p.e.set_decay(param()),
        3 => p.e.set_sustain(param()),
        4 => p.e.set_release(param()),
        5 => {
            let sr = quick();
            p.e.set_sr(sr);
            p.e.set_attack(u);
            x = 2.0 / (t * p.sr) + 1.0 / (u * sr);
        }
        _ => {
            p.e.set_sr(p.sr);
            p.e.set_attack(t);
            p.e.set_slope(slope);
        }
    }
    let y = p.e.tick();
    if x < 1.0 && attack(p.e.get_state()) {
        claim_eq(y, pow(x, 1.0 / slope), "attack curve goes on");
    }
}
pub fn claim_e07_decay() {
    let (t, u, mut s) = (long(), long(), level());
    let mut p = shaped(1.0e-9, t, s, long());
    p.e.trigger_on();
    p.e.tick();
    p.e.tick();
    p.e.tick();
    let (mut x, mut slope) = (3.0 / (t * p.sr), p.slope);
    match any::<u8>() {
        0 => {
            p.e.set_decay(u);
            x = 2.0 / (t * p.sr) + 1.0 / (u * p.sr);
        }
        1 => {
            slope = curve();
            p.e.set_slope(slope);
        }
        2 => p.e.set_attack(param()),
        3 => {
            s = level();
            p.e.set_sustain(s);
        }
        4 => p.e.set_release(param()),
        5 => {
            let sr = quick();
            p.e.set_sr(sr);
            p.e.set_decay(u);
            x = 2.0 / (t * p.sr) + 1.0 / (u * sr);
        }
        _ => {
            p.e.set_sr(p.sr);
            p.e.set_decay(t);
            p.e.set_sustain(s);
            p.e.set_slope(slope);
        }
    }
    let y = p.e.tick();
    if x < 1.0 && decay(p.e.get_state()) {
        claim_eq(y, 1.0 - (1.0 - s) * pow(x, slope), "decay curve goes on");
    }
}
pub fn claim_e07_release() {
    let (t, u, s) = (long(), long(), level());
    let mut p = shaped(1.0e-9, 1.0e-9, s, t);
    p.e.trigger_on();
    p.e.tick();
    p.e.tick();
    p.e.trigger_off();
    p.e.tick();
    p.e.tick();
    let (mut x, mut slope) = (3.0 / (t * p.sr), p.slope);
    match any::<u8>() {
        0 => {
            p.e.set_release(u);
            x = 2.0 / (t * p.sr) + 1.0 / (u * p.sr);
        }
        1 => {
            slope = curve();
            p.e.set_slope(slope);
        }
        2 => p.e.set_attack(param()),
        3 => p.e.set_decay(param()),
        4 => p.e.set_sustain(param()),
        5 => {
            let sr = quick();
            p.e.set_sr(sr);
            p.e.set_release(u);
            x = 2.0 / (t * p.sr) + 1.0 / (u * sr);
        }
        _ => {
            p.e.set_sr(p.sr);
            p.e.set_release(t);
            p.e.set_sustain(s);
            p.e.set_slope(slope);
        }
    }
    let y = p.e.tick();
    if x < 1.0 && release(p.e.get_state()) {
        claim_eq(y, s * (1.0 - pow(x, slope)), "release curve goes on");
    }
}
