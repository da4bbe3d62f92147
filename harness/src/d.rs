//! Delay line, comb and allpass.
use crate::intr::*;
use crate::m::{floor, len1, EXACT, FAR, MAXLEN};
use embedded_audio_tools::memory_access::*;
use embedded_audio_tools::*;

pub fn sample() -> f32 {
    let x: f32 = any();
    assume(x >= -1.0e6 && x <= 1.0e6);
    x
}
/// Any sequence of operations; the buffer may also be exchanged.
fn history(d: &mut DelayLine) {
    while again() {
        match any::<u8>() {
            0 => d.write_and_advance(any()),
            1 => d.advance(),
            2 => {
                d.read();
            }
            3 => d.change_buffer(from_slice_mut(&mut region(len1(MAXLEN))[..])),
            4 => d.change_buffer(null_mut()),
            5 => {
                d.get_ptr_slice_mut();
            }
            _ => {}
        }
    }
}
/// A delay line in any reachable state, now working on `b`.
fn used(b: &mut [f32]) -> DelayLine {
    let mut d;
    if any() {
        d = DelayLine::new(from_slice_mut(&mut b[..]));
        while again() {
            match any::<u8>() {
                0 => d.write_and_advance(any()),
                1 => d.advance(),
                2 => {
                    d.get_ptr_slice_mut();
                }
                _ => {
                    d.read();
                }
            }
        }
    } else {
        d = DelayLine::new(from_slice_mut(&mut region(len1(MAXLEN))[..]));
        history(&mut d);
        d.change_buffer(from_slice_mut(&mut b[..]));
    }
    d
}

// ------------------------------------------------------------------ D01
/// One step from any reachable state: the position that is read is the one
/// that is written next, it then moves on by one modulo the length, and no
/// other sample is touched. By induction every sample comes out again after
/// exactly `len` steps.
pub fn claim_d01_step() {
    let n = len1(MAXLEN);
    let b = region(n);
    let mut d = used(b);
    let x: f32 = any();
    let j: usize = any();
    assume(j < n);
    claim(d.len() == n, "length of the buffer");
    let y = d.read();
    if any() {
        d.get_ptr_slice_mut();
    }
    let p = last_read(b);
    claim_same(y, peek(b, p), "reads the sample at the position");
    let before = peek(b, j);
    let w = writes(b);
    d.write_and_advance(x);
    claim(writes(b) - w == 1, "one store per step");
    claim(last_write(b) == p, "the position read is written next");
    claim_same(peek(b, p), x, "the sample is stored");
    if j != p {
        claim_same(peek(b, j), before, "other samples are kept");
    }
    d.read();
    claim(last_read(b) == (p + 1) % n, "the position moves on by one");
}
/// `advance` moves without storing.
pub fn claim_d01_advance() {
    let n = len1(MAXLEN);
    let b = region(n);
    let mut d = used(b);
    d.read();
    let p = last_read(b);
    let w = writes(b);
    if any() {
        d.get_ptr_slice_mut();
    }
    d.advance();
    claim(writes(b) == w, "no store");
    d.read();
    claim(last_read(b) == (p + 1) % n, "the position moves on by one");
}
/// Input/output of short lines against the definition.
fn io<const N: usize>() {
    let b = region(N);
    let init = [peek(b, 0), peek(b, if N > 1 { 1 } else { 0 }), peek(b, if N > 2 { 2 } else { 0 }), peek(b, if N > 3 { 3 } else { 0 })];
    let mut d = DelayLine::new(from_slice_mut(&mut b[..]));
    let x: [f32; 9] = [any(), any(), any(), any(), any(), any(), any(), any(), any()];
    let mut t = 0;
    while t < 9 {
        let y = d.read();
        if t < N {
            claim_same(y, init[t], "initial content first");
        } else {
            claim_same(y, x[t - N], "sample of N steps ago");
        }
        d.write_and_advance(x[t]);
        t += 1;
    }
}
pub fn claim_d01_io1() {
    io::<1>()
}
pub fn claim_d01_io2() {
    io::<2>()
}
pub fn claim_d01_io3() {
    io::<3>()
}
pub fn claim_d01_io4() {
    io::<4>()
}
/// A null line stays silent and stores nothing.
pub fn claim_d01_null() {
    let mut d = DelayLine::new(null_mut());
    history(&mut d);
    d.change_buffer(null_mut());
    d.write_and_advance(any());
    d.advance();
    claim(d.len() == 0, "empty");
    claim_same(d.read(), 0.0, "an empty line is silent");
}
/// The exposed slice is the attached one.
pub fn claim_d01_slice() {
    let n = len1(MAXLEN);
    let b = region(n);
    let mut d = used(b);
    let s = d.get_ptr_slice_mut();
    claim(s.len() == n, "whole buffer");
    claim(same_ptr(s as *const f32, b.as_ptr()), "starts at its first sample");
}

// ------------------------------------------------------------------ D02
pub fn claim_d02_wrapped() {
    let n = len1(MAXLEN);
    let b = region(n);
    let mut d = used(b);
    d.read();
    let p = last_read(b) as isize;
    let k: isize = any();
    assume(k >= -FAR && k <= FAR);
    let y = d.read_wrapped_at(k);
    claim_same(y, peek(b, (p + k).rem_euclid(n as isize) as usize), "sample at position + offset modulo the length");
}
pub fn claim_d02_writes_nothing() {
    let n = len1(EXACT);
    let b = region(n);
    let mut d = used(b);
    d.read();
    let p = last_read(b);
    let w = writes(b);
    let f = sample();
    match any::<u8>() {
        0 => d.read_wrapped_at(f as isize),
        1 => d.read_lerp_wrapped_at(f),
        _ => d.read(),
    };
    claim(writes(b) == w, "reading stores nothing");
    d.read();
    claim(last_read(b) == p, "reading does not move the position");
}
pub fn claim_d02_lerp() {
    let n = len1(EXACT);
    let b = region_in(n, -1.0e6, 1.0e6);
    let mut d = DelayLine::new(from_slice_mut(&mut b[..]));
    while again() {
        match any::<u8>() {
            0 => d.write_and_advance(sample()),
            _ => d.advance(),
        }
    }
    d.read();
    let p = last_read(b);
    let f: f32 = any();
    assume(f >= -1.0e6 && f <= 1.0e6);
    let y = d.read_lerp_wrapped_at(f);
    let x = p as f32 + f;
    let i = floor(x);
    let u = peek(b, i.rem_euclid(n as isize) as usize);
    let v = peek(b, (i + 1).rem_euclid(n as isize) as usize);
    claim_eq(y, u + (v - u) * (x - i as f32), "linear interpolation around position + offset");
}
/// The Lagrange read is the view's read of window five at position + offset.
pub fn claim_d02_lagrange() {
    let n = len1(EXACT / 2);
    let b = region_in(n, -1.0e6, 1.0e6);
    let mut d = DelayLine::new(from_slice_mut(&mut b[..]));
    while again() {
        match any::<u8>() {
            0 => d.write_and_advance(sample()),
            _ => d.advance(),
        }
    }
    d.read();
    let p = last_read(b);
    let f: f32 = any();
    assume(f >= -1.0e6 && f <= 1.0e6);
    let y = d.read_lagrange_wrapped_at(f);
    let x = p as f32 + f;
    let lo = floor(x) - 2;
    claim_eq(y, crate::m::poly::<5>(b, n, lo, x - lo as f32), "polynomial through the five samples around position + offset");
}
/// Whole offsets need no interpolation.
pub fn claim_d02_lagrange_whole() {
    lagrange_whole::<7>();
}
pub fn claim_d02_lagrange_whole_short() {
    lagrange_whole::<3>();
}
fn lagrange_whole<const N: usize>() {
    let b = region_in(N, -1.0e6, 1.0e6);
    let mut d = DelayLine::new(from_slice_mut(&mut b[..]));
    let mut s = 0;
    while s < N + 1 {
        let mut k: isize = -4;
        while k <= 4 {
            let y = d.read_lagrange_wrapped_at(k as f32);
            let p = (s as isize + k).rem_euclid(N as isize) as usize;
            claim_eq(y, peek(b, p), "whole offsets return the sample itself");
            k += 1;
        }
        d.advance();
        s += 1;
    }
}

// ------------------------------------------------------------------ D03
fn used_comb(b: &mut [f32]) -> Comb {
    let mut c;
    if any() {
        c = Comb::new(from_slice_mut(&mut b[..]));
    } else {
        c = Comb::new(from_slice_mut(&mut region(len1(MAXLEN))[..]));
        while again() {
            match any::<u8>() {
                0 => c.change_buffer(from_slice_mut(&mut region(len1(MAXLEN))[..])),
                _ => {
                    c.tick(any());
                }
            }
        }
        c.change_buffer(from_slice_mut(&mut b[..]));
    }
    while again() {
        match any::<u8>() {
            0 => c.set_dampening(any()),
            1 => c.set_feedback(any()),
            2 => {
                c.get_ptr_slice_mut();
            }
            _ => {
                c.tick(any());
            }
        }
    }
    c
}
/// Two steps from any reachable state.
pub fn claim_d03_step() {
    let n = len1(MAXLEN);
    let b = region(n);
    let mut c = used_comb(b);
    let (damp, fb): (f32, f32) = (any(), any());
    c.set_dampening(damp);
    c.set_feedback(fb);
    let (x0, x1): (f32, f32) = (any(), any());
    let w = writes(b);
    c.tick(x0);
    claim(writes(b) - w == 1, "one store per sample");
    let p = last_write(b);
    let v0 = peek(b, p);
    let q = (p + 1) % n;
    let old = peek(b, q);
    let j: usize = any();
    assume(j < n && j != q);
    let other = peek(b, j);
    if any() {
        c.get_ptr_slice_mut();
    }
    let y1 = c.tick(x1);
    claim(last_write(b) == q, "positions follow each other modulo the length");
    claim(writes(b) - w == 2, "one store per sample");
    claim_eq(y1, old, "the output is the sample of len steps ago");
    let v1 = peek(b, q);
    claim_eq(v1 - x1, fb * (1.0 - damp) * y1 + damp * (v0 - x0), "damped feedback recurrence");
    claim_eq(peek(b, j), other, "other samples are kept");
}
/// Input/output of short combs against the recurrence, including the defaults.
fn comb_io<const N: usize>(defaults: bool) {
    let b = region(N);
    let mut mem = [0.0_f32; 4];
    let mut i = 0;
    while i < N {
        mem[i] = peek(b, i);
        i += 1;
    }
    let mut c = Comb::new(from_slice_mut(&mut b[..]));
    let (damp, fb): (f32, f32) = if defaults { (0.5, 0.5) } else { (any(), any()) };
    if !defaults {
        c.set_dampening(damp);
        c.set_feedback(fb);
    }
    let mut lp = 0.0;
    let mut t = 0;
    while t < 6 {
        let x: f32 = any();
        let y = c.tick(x);
        let r = mem[t % N];
        lp = r * (1.0 - damp) + lp * damp;
        mem[t % N] = x + fb * lp;
        claim_eq(y, r, "output of the recurrence");
        t += 1;
    }
}
pub fn claim_d03_io1() {
    comb_io::<1>(false)
}
pub fn claim_d03_io2() {
    comb_io::<2>(false)
}
pub fn claim_d03_io3() {
    comb_io::<3>(false)
}
pub fn claim_d03_io_default() {
    comb_io::<2>(true)
}
pub fn claim_d03_slice() {
    let n = len1(MAXLEN);
    let b = region(n);
    let mut d = used_comb(b);
    let s = d.get_ptr_slice_mut();
    claim(s.len() == n && same_ptr(s as *const f32, b.as_ptr()), "exposes the attached buffer");
}

// ------------------------------------------------------------------ D04
fn used_allpass(b: &mut [f32]) -> AllPass {
    let mut c;
    if any() {
        c = AllPass::new(from_slice_mut(&mut b[..]));
    } else {
        c = AllPass::new(from_slice_mut(&mut region(len1(MAXLEN))[..]));
        while again() {
            match any::<u8>() {
                0 => c.change_buffer(from_slice_mut(&mut region(len1(MAXLEN))[..])),
                _ => {
                    c.tick(any());
                }
            }
        }
        c.change_buffer(from_slice_mut(&mut b[..]));
    }
    while again() {
        match any::<u8>() {
            0 => {
                c.get_ptr_slice_mut();
            }
            _ => {
                c.tick(any());
            }
        }
    }
    c
}
pub fn claim_d04_step() {
    let n = len1(MAXLEN);
    let b = region(n);
    let mut c = used_allpass(b);
    let (x0, x1): (f32, f32) = (any(), any());
    let w = writes(b);
    c.tick(x0);
    let p = last_write(b);
    let q = (p + 1) % n;
    let old = peek(b, q);
    let j: usize = any();
    assume(j < n && j != q);
    let other = peek(b, j);
    if any() {
        c.get_ptr_slice_mut();
    }
    let y = c.tick(x1);
    claim(last_write(b) == q, "positions follow each other modulo the length");
    claim(writes(b) - w == 2, "one store per sample");
    claim_eq(y, old - x1, "output is the delayed sample minus the input");
    claim_eq(peek(b, q), x1 + 0.5 * old, "input plus half of the delayed sample is stored");
    claim_eq(peek(b, j), other, "other samples are kept");
}
fn allpass_io<const N: usize>() {
    let b = region(N);
    let mut mem = [0.0_f32; 4];
    let mut i = 0;
    while i < N {
        mem[i] = peek(b, i);
        i += 1;
    }
    let mut c = AllPass::new(from_slice_mut(&mut b[..]));
    let mut t = 0;
    while t < 6 {
        let x: f32 = any();
        let y = c.tick(x);
        let r = mem[t % N];
        mem[t % N] = x + 0.5 * r;
        claim_eq(y, r - x, "output of the recurrence");
        t += 1;
    }
}
pub fn claim_d04_io1() {
    allpass_io::<1>()
}
pub fn claim_d04_io2() {
    allpass_io::<2>()
}
pub fn claim_d04_io3() {
    allpass_io::<3>()
}
pub fn claim_d04_slice() {
    let n = len1(MAXLEN);
    let b = region(n);
    let mut d = used_allpass(b);
    let s = d.get_ptr_slice_mut();
    claim(s.len() == n && same_ptr(s as *const f32, b.as_ptr()), "exposes the attached buffer");
}

// ------------------------------------------------------------------ D05
/// Where a position goes when the buffer is exchanged.
fn moved(p: usize, m: usize) -> usize {
    if p < m {
        p
    } else {
        0
    }
}
pub fn claim_d05_delay_line() {
    let n = len1(MAXLEN);
    let a = region(n);
    let mut d = used(a);
    d.read();
    let p = last_read(a);
    if any() {
        d.get_ptr_slice_mut();
    }
    let m = len1(MAXLEN);
    let b = region(m);
    let w = writes(a);
    d.change_buffer(from_slice_mut(&mut b[..]));
    claim(writes(b) == 0, "the new content is kept");
    let r = reads(a);
    d.read();
    let q = last_read(b);
    claim(q == moved(p, m), "the position is kept where it can be");
    d.write_and_advance(any());
    claim(last_write(b) == q, "stored into the new buffer");
    claim(writes(a) == w && reads(a) == r, "the old buffer is left alone");
}
pub fn claim_d05_comb() {
    let n = len1(MAXLEN);
    let a = region(n);
    let mut c = used_comb(a);
    let (damp, fb): (f32, f32) = (any(), any());
    c.set_dampening(damp);
    c.set_feedback(fb);
    let (x0, x1): (f32, f32) = (any(), any());
    c.tick(x0);
    let p = last_write(a);
    let v0 = peek(a, p);
    let m = len1(MAXLEN);
    let b = region(m);
    let w = writes(a);
    let r = reads(a);
    if any() {
        c.get_ptr_slice_mut();
    }
    c.change_buffer(from_slice_mut(&mut b[..]));
    claim(writes(b) == 0, "the new content is kept");
    let y1 = c.tick(x1);
    let q = last_write(b);
    claim(q == moved((p + 1) % n, m), "the position is kept where it can be");
    claim(last_read(b) == q, "output comes from the new buffer");
    claim_eq(peek(b, q) - x1, fb * (1.0 - damp) * y1 + damp * (v0 - x0), "settings and filter memory are kept");
    claim(writes(a) == w && reads(a) == r, "the old buffer is left alone");
}
pub fn claim_d05_allpass() {
    let n = len1(MAXLEN);
    let a = region(n);
    let mut c = used_allpass(a);
    c.tick(any());
    let p = last_write(a);
    let m = len1(MAXLEN);
    let b = region(m);
    let w = writes(a);
    let r = reads(a);
    if any() {
        c.get_ptr_slice_mut();
    }
    c.change_buffer(from_slice_mut(&mut b[..]));
    claim(writes(b) == 0, "the new content is kept");
    let x: f32 = any();
    let y = c.tick(x);
    let q = last_write(b);
    claim(q == moved((p + 1) % n, m), "the position is kept where it can be");
    claim(last_read(b) == q, "output comes from the new buffer");
    claim_eq(peek(b, q), x + 0.5 * (y + x), "the delayed sample is stored back");
    claim(writes(a) == w && reads(a) == r, "the old buffer is left alone");
}

// ------------------------------------------------------------------ D06
fn unit() -> f32 {
    let x: f32 = any();
    assume(x >= -1.0 && x <= 1.0);
    x
}
/// Any state with content and filter memory within 100 stays within it: the
/// first sample loads the filter memory with any level, the others start
/// from there.
fn comb_bounded<const N: usize>(negative: bool) {
    let n = if N == 0 { len1(MAXLEN) } else { N };
    let b = region_in(n, -100.0, 100.0);
    let mut c = Comb::new(from_slice_mut(&mut b[..]));
    c.set_dampening(0.0);
    for i in 0..3 {
        let f: f32 = any();
        assume(f >= 0.0 && f <= 0.99);
        c.set_feedback(if negative { -f } else { f });
        let y = c.tick(unit());
        claim_in(y, -100.0, 100.0, 1.0e-2, "output within input / (1 - feedback)");
        let v = peek(b, last_write(b));
        claim_in(v, -100.0, 100.0, 1.0e-2, "content within input / (1 - feedback)");
        let d: f32 = any();
        assume(d >= 0.0 && d <= 1.0);
        c.set_dampening(d);
    }
}
pub fn claim_d06_comb() {
    comb_bounded::<0>(false)
}
pub fn claim_d06_comb_negative() {
    comb_bounded::<0>(true)
}
pub fn claim_d06_comb1() {
    comb_bounded::<1>(any())
}
pub fn claim_d06_comb2() {
    comb_bounded::<2>(any())
}
/// The delayed signal of the all-pass stays within twice the input.
pub fn claim_d06_allpass() {
    let n = len1(MAXLEN);
    let b = region_in(n, -2.0, 2.0);
    let mut a = AllPass::new(from_slice_mut(&mut b[..]));
    while again() {
        let y = a.tick(unit());
        claim_in(y, -3.0, 3.0, 1.0e-4, "output within three times the input");
        claim_in(peek(b, last_write(b)), -2.0, 2.0, 1.0e-4, "content within twice the input");
    }
}
