//! X01..X05: guarantees across all parts of the library.
use eatmc::preempt::{self, Schedules, ALONE};
use eatmc::*;
use embedded_audio_tools::convert::{Decibels, FromF32Components, FromRawBytes, ToF32Components, ToRawBytes};
use embedded_audio_tools::dynamics::{digital_clip, poly_clip, sigmoid_clip, tanh_clip};
use embedded_audio_tools::envelopes::AudioRateADSR;
use embedded_audio_tools::filter::{Biquad, BiquadCoeffs, Butterworth};
use embedded_audio_tools::fixed_point::math::{sin_i16, sin_i16_unchecked};
use embedded_audio_tools::float::{lagrange, bit_reduce, bit_reduce_exp, bit_reduce_exp_unchecked, bit_reduce_unchecked, lerp, lerp_unchecked, AdditionalF32Ext as Ext, DSPUtility};
use embedded_audio_tools::memory_access::*;
use embedded_audio_tools::oscillator::Waveform;
use embedded_audio_tools::stereo::*;
use embedded_audio_tools::{AllPass, Comb, DelayLine, FunctionalOscillator, PhaseAccumulator, SoftPhaseAccumulator as Acc, WavetableOscillator};
use std::hint::black_box;

const N32: u64 = 1 << 32;
fn f(n: u64) -> f32 {
    f32::from_bits(n as u32)
}
/// Equal up to float rounding (or both NaN).
fn alike(a: f32, b: f32) -> bool {
    same(a, b) || a == b || (a.is_nan() && b.is_nan()) || ((a - b).abs() as f64) <= 1e-6 * (a.abs().max(b.abs()) as f64)
}

// ---------------------------------------------------------------- X01
const AMP: [(f32, f32); 4] = [(1.0, 1.0), (-0.5, 0.25), (1e-20, -3.0), (0.3, 1e20)];
/// one float, everything that takes one float (and a small choice)
fn x01_float(n: u64) -> Res {
    let x = f(n / 32);
    let d = (n % 32) as u8;
    let mut class = 0;
    if let Ok(v) = bit_reduce(x, d) {
        let u = bit_reduce_unchecked(x, d);
        ensure!(alike(u, v), "bit_reduce({x:e}, {d}) = {v:e}, unchecked {u:e}");
        class = 1;
    }
    if let Ok(v) = bit_reduce_exp(x, d) {
        let u = bit_reduce_exp_unchecked(x, d);
        ensure!(same(u, v) || (u.is_nan() && v.is_nan()), "bit_reduce_exp({x:e}, {d}) = {v:e}, unchecked {u:e}");
        class = class.max(2);
    }
    let s = AMP[(n % 4) as usize];
    if let Ok(v) = stereo_pan(x, s) {
        let u = stereo_pan_unchecked(x, s);
        ensure!(alike(u.0, v.0) && alike(u.1, v.1), "stereo_pan({x:e}, {s:?}) = {v:?}, unchecked {u:?}");
        class = class.max(3);
    }
    if let Ok(v) = mono_pan(x, s.0) {
        let u = mono_pan_unchecked(x, s.0);
        ensure!(alike(u.0, v.0) && alike(u.1, v.1), "mono_pan({x:e}, {}) = {v:?}, unchecked {u:?}", s.0);
    }
    if d < 2 {
        let u = x.to_decibels_unchecked();
        if let Ok(v) = x.to_decibels() {
            ensure!(alike(u, v), "to_decibels({x:e}) = {v}, unchecked {u}");
            class = class.max(4);
        }
        if let Ok(v) = x.to_decibels_checked() {
            ensure!(alike(u, v), "to_decibels_checked({x:e}) = {v}, unchecked {u}");
        }
        // frequencies
        let sr = [48000.0f32, 44100.0][d as usize];
        let (mut a, mut b) = (Acc::new(100.0, sr), Acc::new(100.0, sr));
        a.next_value();
        b.next_value();
        if a.set_freq(x).is_ok() {
            b.set_freq_unchecked(x);
            for _ in 0..3 {
                let (p, q) = (a.next_value(), b.next_value());
                ensure!(p == q, "set_freq({x:e}): phase {p}, with the unchecked setter {q}");
            }
            class = class.max(5);
        }
    }
    Ok(class)
}
fn x01_show(n: u64) -> String {
    format!("{} choice {}", show_f32(n / 32), n % 32)
}
const LV: [f32; 16] = [0.0, -0.0, 1.0, -1.0, 0.5, 0.1, -3.7, 1e-40, 1e10, -1e20, 3e38, -3e38, 1e-20, 440.0, f32::MIN_POSITIVE, 0.333];
fn x01_lerp(n: u64) -> Res {
    let mut m = Mix(n);
    let (a, b) = (*m.of(&LV), *m.of(&LV));
    let t = f(m.0);
    match lerp(a, b, t) {
        Ok(v) => {
            let u = lerp_unchecked(a, b, t);
            ensure!(same(u, v) || ((u as f64) - (v as f64)).abs() <= 3e-7 * (a.abs().max(b.abs()) as f64), "lerp({a:e}, {b:e}, {t:e}) = {v:e}, unchecked {u:e}");
            Ok(1)
        }
        Err(_) => Ok(0),
    }
}
fn x01_lerp_show(n: u64) -> String {
    let mut m = Mix(n);
    format!("a={:e} b={:e} t: {}", m.of(&LV), m.of(&LV), show_f32(m.0))
}
fn x01_sin(n: u64) -> Res {
    let (p, d) = ((n >> 8) as u16 as i16, n as u8);
    let v = sin_i16(p, d);
    let u = unsafe { sin_i16_unchecked(p, d.min(4)) };
    ensure!(u == v, "sin_i16({p}, {d}) = {v}, unchecked {u} (degree {})", d.min(4));
    Ok(1 + (d > 4) as u8)
}
const SL: u64 = 12;
/// slices of 1..12 elements; every index, every position in steps of 1/16
fn x01_slice(n: u64) -> Res {
    let mut m = Mix(n);
    let len = m.pick(SL) as usize + 1;
    let mut a = Arena::new(&[len, len]);
    for b in 0..2 {
        a.fill(b, val);
    }
    let (mut s, mut t) = (from_slice_mut(a.slice_mut(0)), from_slice_mut(a.slice_mut(1)));
    let k = m.pick(400);
    if k < 40 {
        let i = k as usize;
        if let Ok(v) = s.get(i) {
            let u = unsafe { s.get_unchecked(i) };
            ensure!(same(u, v), "get({i}) of {len} = {v}, unchecked {u}");
            s.assign(i, 77.5).ok();
            unsafe { t.assign_unchecked(i, 77.5) };
            for j in 0..len {
                ensure!(same(a.get(0, j), a.get(1, j)), "element {j} after assign({i}): {}, unchecked {}", a.get(0, j), a.get(1, j));
            }
            ensure!(a.intact(), "assign({i}) of {len}: memory outside changed");
            return Ok(1);
        }
    } else if k < 140 {
        let i = k as isize - 90;
        let (v, u) = (s.get_wrapped(i), unsafe { s.get_wrapped_unchecked(i) });
        ensure!(same(u, v), "get_wrapped({i}) of {len} = {v}, unchecked {u}");
        return Ok(2);
    } else {
        let p = (k - 140) as f32 / 16.0;
        if p < (len - 1) as f32 {
            let u = unsafe { s.lerp_unchecked(p) };
            match s.lerp(p) {
                Ok(v) => ensure!((u - v).abs() <= 1e-5 * (1.0 + v.abs()), "lerp({p}) of {len} = {v}, unchecked {u}"),
                Err(e) => ensure!(false, "lerp({p}) of {len}: {e:?}"),
            }
            return Ok(3);
        }
    }
    Ok(0)
}
const BIG: usize = 200_003;
/// a big slice; 64 indices per case, four positions each
fn x01_big(n: u64) -> Res {
    static T: std::sync::OnceLock<Vec<f32>> = std::sync::OnceLock::new();
    let t = T.get_or_init(|| (0..BIG).map(|i| ((i as u64).wrapping_mul(0x9e3779b97f4a7c15) >> 40) as f32 - 1e7).collect());
    let s = from_slice(&t[..]);
    for i in n as usize * 64..(n as usize * 64 + 64).min(BIG) {
        let (v, u) = (s.get(i), unsafe { s.get_unchecked(i) });
        ensure!(matches!(v, Ok(v) if same(u, v)), "get({i}) of {BIG} = {v:?}, unchecked {u}");
        for k in -2..3isize {
            let i = i as isize + k * BIG as isize;
            let (v, u) = (s.get_wrapped(i), unsafe { s.get_wrapped_unchecked(i) });
            ensure!(same(u, v), "get_wrapped({i}) of {BIG} = {v}, unchecked {u}");
        }
        for k in 0..4 {
            let p = i as f32 + k as f32 / 4.0;
            if p < (BIG - 1) as f32 {
                let (v, u) = (s.lerp(p), unsafe { s.lerp_unchecked(p) });
                ensure!(matches!(v, Ok(v) if (u - v).abs() <= 10.0), "lerp({p}) of {BIG} = {v:?}, unchecked {u}");
            }
        }
    }
    if n % 100 == 0 {
        let (mut a, mut b) = (t.clone(), t.clone());
        let (mut sa, mut sb) = (from_slice_mut(&mut a[..]), from_slice_mut(&mut b[..]));
        for i in n as usize * 64..(n as usize * 64 + 6400).min(BIG) {
            let v = sa.assign(i, i as f32 + 0.5);
            ensure!(v.is_ok(), "assign({i}) of {BIG}: {v:?}");
            unsafe { sb.assign_unchecked(i, i as f32 + 0.5) };
        }
        for i in 0..BIG {
            ensure!(same(a[i], b[i]), "element {i} of {BIG} after checked writes {}, after unchecked ones {}", a[i], b[i]);
        }
    }
    Ok(1)
}
fn x01_slice_show(n: u64) -> String {
    let mut m = Mix(n);
    format!("length {} access {}", m.pick(SL) + 1, m.pick(400))
}

// ---------------------------------------------------------------- X02
fn x02(n: u64) -> Res {
    let (x, c) = (f(n / 4), n % 4);
    let y = [0.0f32, 1.0, -1e30, f32::NAN][c as usize];
    black_box((x.sinh(), Ext::cosh(&x), Ext::tanh(&x), x.fast_tan(), x.sinc()));
    black_box((x.lookup_sin(), x.lookup_bl_rect(), x.fixed_point_sin(), x.fixed_point_cos()));
    black_box((x.to_decibels_unchecked(), x.to_decibels().is_ok(), x.to_decibels_checked().is_ok(), x.to_volt_ratio()));
    for d in [0u8, 1, 8, 23, 24, 30, 31, 32, 255] {
        black_box((bit_reduce(x, d).is_ok(), bit_reduce_exp(x, d).is_ok()));
    }
    black_box((lerp(x, y, 0.5).is_ok(), lerp(y, x, 0.25).is_ok(), lerp(1.0, y, x).is_ok()));
    black_box((x.samples_to_seconds(y), x.samples_to_millis(y), x.seconds_to_samples(y), x.millis_to_samples(y)));
    black_box(f32::from_f32_components(x.to_f32_components()));
    black_box(f32::from_raw_word(x.to_raw_word()));
    black_box((stereo_pan(x, (y, x)).is_ok(), mono_pan(x, y).is_ok(), mono_pan(y, x).is_ok(), crossfade_correlated_unchecked(x, (y, x))));
    black_box(digital_clip(x));
    let t = [1.0f32, 2.0, 3.0, 4.0, 5.0];
    let s = from_slice(&t[..(c as usize) + 1]);
    black_box((s.lerp(x).is_ok(), s.lerp_wrapped(x), s.lagrange_four_points_wrapped(x), s.lagrange_wrapped(x, 2), s.lagrange_wrapped(x, 5)));
    let mut cells = [1.0f32, 2.0, 3.0];
    let mut d = DelayLine::new(from_slice_mut(&mut cells[..]));
    d.advance();
    black_box((d.read_lerp_wrapped_at(x), d.read_lagrange_wrapped_at(x)));
    let mut a = Acc::new(x, y);
    black_box((a.set_freq(x).is_ok(), a.next_value(), a.next_value_normalized()));
    a.set_sr_unchecked(x);
    a.set_freq_unchecked(y);
    black_box((a.next_value(), a.next_value_normalized()));
    Ok(1 + x.is_finite() as u8)
}
fn x02_si(n: u64) -> Res {
    black_box(f(n).si());
    Ok(1)
}
fn x02_show(n: u64) -> String {
    format!("{} companion choice {}", show_f32(n / 4), n % 4)
}

// ---------------------------------------------------------------- X03
const NT: u64 = 12;
const LEVELS: [f32; 3] = [1.0, 8.470329e-22, 1.0995116e12]; // 1, 2^-70, 2^40
const TYPES: [&str; NT as usize] = ["Biquad", "AudioRateADSR", "SoftPhaseAccumulator", "FunctionalOscillator", "WavetableOscillator", "DelayLine", "Comb", "AllPass", "BiquadCoeffs", "plain functions", "slice", "more plain functions"];
struct Bufs([f32; 8], [f32; 8]);
enum Obj {
    Bq(Biquad<Butterworth>),
    En(AudioRateADSR),
    Ac(Acc),
    Fo(FunctionalOscillator<Acc>),
    Wt(WavetableOscillator<Acc>),
    Dl(DelayLine),
    Co(Comb),
    Ap(AllPass),
    Cf(BiquadCoeffs<Butterworth>),
    Fn,
    Sl(MemorySlice<NonMutable>),
    Gn,
}
/// `who` makes the two instances differ in settings, so that mixing them up shows.
fn make(t: u64, who: usize, level: f32, b: &mut Bufs) -> Obj {
    b.0 = std::array::from_fn(|i| level * (i % 3) as f32 * [0.5, -0.75][who]);
    b.1 = std::array::from_fn(|i| (i as f32 + 1.0) * [1.0, -3.0][who]);
    let acc = || Acc::new([3000.0, 7000.0][who], 48000.0);
    match t {
        0 => {
            let mut q = Biquad::new(BiquadCoeffs::<Butterworth>::new());
            q.coeffs.lowpass([1000.0, 3000.0][who], 0.7, 48000.0);
            Obj::Bq(q)
        }
        1 => Obj::En(AudioRateADSR::new([3.0, 5.0][who] / 48.0, 2.0 / 48.0, [0.5, 0.25][who], 4.0 / 48.0, [1.0, 2.0][who], 48.0)),
        2 => Obj::Ac(acc()),
        3 => Obj::Fo(FunctionalOscillator::new(acc())),
        4 => Obj::Wt(WavetableOscillator::new(from_slice(&b.1[..5 + who]), acc())),
        5 => Obj::Dl(DelayLine::new(from_slice_mut(&mut b.0[..2 + who]))),
        6 => Obj::Co(Comb::new(from_slice_mut(&mut b.0[..1 + who]))),
        7 => Obj::Ap(AllPass::new(from_slice_mut(&mut b.0[..2 - who]))),
        8 => Obj::Cf(BiquadCoeffs::<Butterworth>::new()),
        9 => Obj::Fn,
        10 => Obj::Sl(from_slice(&b.1[..5 + who])),
        _ => Obj::Gn,
    }
}
const NO: u64 = 4;
fn coeffs(c: &BiquadCoeffs<Butterworth>) -> u64 {
    [c.b0, c.b1, c.b2, c.a1, c.a2].iter().fold(0u64, |h, x| (h ^ x.to_bits() as u64).wrapping_mul(0x9e3779b97f4a7c15).rotate_left(17))
}
/// `l`: level of the signal
fn act(o: &mut Obj, who: usize, k: u64, l: f32) -> u64 {
    let w = who as f32;
    match (o, k) {
        (Obj::Bq(q), 0) => q.process(l * (1.0 - 0.25 * w)).to_bits() as u64,
        (Obj::Bq(q), 1) => q.process(0.0).to_bits() as u64,
        (Obj::Bq(q), 2) => {
            q.coeffs.highpass(2000.0 + 500.0 * w, 0.7, 48000.0);
            coeffs(&q.coeffs)
        }
        (Obj::Bq(q), _) => {
            q.coeffs.bell(5000.0, 0.7 + w, 2.0, 48000.0);
            coeffs(&q.coeffs)
        }
        (Obj::En(e), 0) => (e.tick().to_bits() as u64) << 3 | e.get_state() as u64,
        (Obj::En(e), 1) => {
            e.trigger_on();
            (e.tick().to_bits() as u64) << 3 | e.get_state() as u64
        }
        (Obj::En(e), 2) => {
            e.trigger_off();
            (e.tick().to_bits() as u64) << 3 | e.get_state() as u64
        }
        (Obj::En(e), _) => {
            e.set_attack((1.0 + w) / 48.0);
            e.set_slope(0.5 + w);
            (e.tick().to_bits() as u64) << 3 | e.get_state() as u64
        }
        (Obj::Ac(a), 0) => a.next_value() as u64,
        (Obj::Ac(a), 1) => a.next_value_normalized().to_bits() as u64,
        (Obj::Ac(a), 2) => {
            let r = a.set_freq(1234.0 + 100.0 * w).is_ok() as u64;
            (a.next_value() as u64) << 1 | r
        }
        (Obj::Ac(a), _) => {
            a.set_phase_shift(77 + who as u32);
            a.set_sr_unchecked(44100.0 + w);
            a.next_value() as u64
        }
        (Obj::Fo(x), 0) => x.next().to_bits() as u64,
        (Obj::Fo(x), 1) => {
            x.set_wave(if who == 0 { Waveform::Triangle } else { Waveform::Rectangle });
            x.next().to_bits() as u64
        }
        (Obj::Fo(x), 2) => {
            x.set_wave(if who == 0 { Waveform::Sawtooth } else { Waveform::Sine });
            x.set_freq_unchecked(500.0 + 250.0 * w);
            x.next().to_bits() as u64
        }
        (Obj::Fo(x), _) => {
            x.set_phase_shift_unchecked(0.25 + 0.25 * w);
            x.next().to_bits() as u64
        }
        (Obj::Wt(x), 0) => x.next().to_bits() as u64,
        (Obj::Wt(x), 1) => {
            x.set_freq_unchecked(900.0 + 10.0 * w);
            x.next().to_bits() as u64
        }
        (Obj::Wt(x), 2) => {
            x.set_phase_shift_unchecked(0.5 - 0.3 * w);
            x.next().to_bits() as u64
        }
        (Obj::Wt(x), _) => {
            x.set_sr_unchecked(96000.0 / (1.0 + w));
            x.next().to_bits() as u64
        }
        (Obj::Dl(d), 0) => {
            d.write_and_advance(l * (0.5 + w));
            d.read().to_bits() as u64
        }
        (Obj::Dl(d), 1) => {
            d.advance();
            d.read().to_bits() as u64
        }
        (Obj::Dl(d), 2) => d.read_lerp_wrapped_at(0.5 - w).to_bits() as u64,
        (Obj::Dl(d), _) => (d.read_wrapped_at(-1).to_bits() as u64) << 32 | d.read_lagrange_wrapped_at(0.25).to_bits() as u64,
        (Obj::Co(c), 0) => c.tick(l * (1.0 - 2.0 * w)).to_bits() as u64,
        (Obj::Co(c), 1) => c.tick(0.0).to_bits() as u64,
        (Obj::Co(c), 2) => {
            c.set_feedback(0.75 - w);
            c.tick(l * 0.25).to_bits() as u64
        }
        (Obj::Co(c), _) => {
            c.set_dampening(0.125 + 0.5 * w);
            c.tick(l * -0.25).to_bits() as u64
        }
        (Obj::Ap(a), 0) => a.tick(l * (1.0 + w)).to_bits() as u64,
        (Obj::Ap(a), 1) => a.tick(0.0).to_bits() as u64,
        (Obj::Ap(a), _) => a.tick(l * (-0.5 - k as f32)).to_bits() as u64,
        (Obj::Cf(c), 0) => {
            c.lowpass(1000.0, 0.7 + w, 48000.0);
            coeffs(c)
        }
        (Obj::Cf(c), 1) => {
            c.notch(1000.0 + w, 0.7, 48000.0);
            coeffs(c)
        }
        (Obj::Cf(c), 2) => {
            c.low_shelf(1000.0, 0.7, 2.0 - 4.0 * w, 48000.0);
            coeffs(c)
        }
        (Obj::Cf(c), _) => {
            c.allpass(1000.0, 0.7, 48000.0 + w);
            coeffs(c)
        }
        (Obj::Fn, 0) => ((0.5 + w).fixed_point_sin().to_bits() as u64) << 32 | (0.3 + 0.1 * w).lookup_bl_rect().to_bits() as u64,
        (Obj::Fn, 1) => ((2.0 + w).lookup_sin().to_bits() as u64) << 32 | (0.3 + w).fast_tan().to_bits() as u64,
        (Obj::Fn, 2) => ((3.0 + w).to_volt_ratio().to_bits() as u64) << 32 | (3.0 + w).to_decibels_unchecked().to_bits() as u64,
        (Obj::Sl(s), 0) => (s.get(1).unwrap_or(-1.0).to_bits() as u64) << 32 | s.get_wrapped(-1 - who as isize).to_bits() as u64,
        (Obj::Sl(s), 1) => (s.lerp(1.25).unwrap_or(-1.0).to_bits() as u64) << 32 | s.lerp_wrapped(-0.75 + w).to_bits() as u64,
        (Obj::Sl(s), 2) => s.lagrange_wrapped(1.25 + w, 4).to_bits() as u64,
        (Obj::Sl(s), _) => (s.get_slice_of_four_wrapped(3)[2].to_bits() as u64) << 32 | s.lagrange_four_points_wrapped(0.25 + w).to_bits() as u64,
        (Obj::Gn, 0) => (Ext::sinh(&(0.5 + w)).to_bits() as u64) << 32 | Ext::tanh(&(0.25 + w)).to_bits() as u64,
        (Obj::Gn, 1) => ((1.5 + w).sinc().to_bits() as u64) << 32 | sin_i16(12000 + 3000 * who as i16, 3) as u16 as u64,
        (Obj::Gn, 2) => {
            let t = black_box([1.0 + w, -2.0, 0.5, 4.0]);
            (lagrange(&t, 1.25).to_bits() as u64) << 32 | lerp(1.0 - w, 3.0, 0.25).unwrap_or(-1.0).to_bits() as u64
        }
        (Obj::Gn, _) => {
            let x = black_box(-1.5 + 2.0 * w);
            let c = x.to_f32_components();
            let p = mono_pan(0.25 - w, x).unwrap_or((9.0, 9.0));
            let a = f32::from_f32_components(c) + x.samples_to_seconds(48000.0) + bit_reduce_exp(x, 5).unwrap_or(9.0) + p.0;
            (a.to_bits() as u64) << 32 | (digital_clip(x) + bit_reduce(0.25 * x, 27).unwrap_or(9.0) + crossfade_correlated_unchecked(0.5, (x, 1.0)) + x.millis_to_samples(44100.0)).to_bits() as u64
        }
        (Obj::Fn, _) => {
            let p = stereo_pan_unchecked(0.5 - w, (1.0, 1.0));
            (p.0.to_bits() as u64) << 32 | (bit_reduce_unchecked(0.7, 20 + who as u8) + Ext::cosh(&w)).to_bits() as u64
        }
    }
}
fn pow(b: u64, e: u32) -> u64 {
    b.pow(e)
}
/// interleavings of `k` calls of each side, as bit masks
fn mixes(k: u32) -> &'static [u32] {
    static L: [std::sync::OnceLock<Vec<u32>>; 6] = [const { std::sync::OnceLock::new() }; 6];
    L[k as usize].get_or_init(|| (0..1u32 << (2 * k)).filter(|m| m.count_ones() == k).collect())
}
fn x03_total(k: u32) -> u64 {
    LEVELS.len() as u64 * NT * NT * pow(NO, 2 * k) * mixes(k).len() as u64
}
fn x03<const K: usize>(n: u64) -> Res {
    let mut m = Mix(n);
    let mask = mixes(K as u32)[m.pick(mixes(K as u32).len() as u64) as usize];
    let types = [m.pick(NT), m.pick(NT)];
    let hist: [[u64; K]; 2] = std::array::from_fn(|_| std::array::from_fn(|_| m.pick(NO)));
    let level = *m.of(&LEVELS);
    let mut alone = [[0u64; K]; 2];
    for who in 0..2 {
        let mut b = Bufs([0.0; 8], [0.0; 8]);
        let mut o = make(types[who], who, level, &mut b);
        for k in 0..K {
            alone[who][k] = act(&mut o, who, hist[who][k], level);
        }
    }
    let (mut b0, mut b1) = (Bufs([0.0; 8], [0.0; 8]), Bufs([0.0; 8], [0.0; 8]));
    let mut o = [make(types[0], 0, level, &mut b0), make(types[1], 1, level, &mut b1)];
    let mut at = [0usize; 2];
    for s in 0..2 * K {
        let who = (mask >> s & 1) as usize;
        let k = at[who];
        at[who] += 1;
        let g = act(&mut o[who], who, hist[who][k], level);
        ensure!(g == alone[who][k], "{} next to another {}: call {k} gave {g:#x}, on its own {:#x}", TYPES[types[who] as usize], TYPES[types[1 - who] as usize], alone[who][k]);
    }
    Ok(1 + (types[0] == types[1]) as u8)
}
fn x03_show<const K: usize>(n: u64) -> String {
    let mut m = Mix(n);
    let mask = mixes(K as u32)[m.pick(mixes(K as u32).len() as u64) as usize];
    let types = [m.pick(NT), m.pick(NT)];
    let h: [[u64; K]; 2] = std::array::from_fn(|_| std::array::from_fn(|_| m.pick(NO)));
    let mut at = [0; 2];
    let mut s = String::new();
    for k in 0..2 * K {
        let w = (mask >> k & 1) as usize;
        s += &format!(" {}{}", ["a", "b"][w], h[w][at[w]]);
        at[w] += 1;
    }
    format!("a: {}, b: {}; signal level {}; calls{s}", TYPES[types[0] as usize], TYPES[types[1] as usize], m.of(&LEVELS))
}

// ---------------------------------------------------------------- X04
/// One call in a context: kind of object, a call before it, the call itself; afterwards one more call.
type Ask = (u64, u64, u64);
type Got = (u64, u64, u64);
fn asks() -> Vec<Ask> {
    (0..NT * NO * NO).map(|n| (n / 16, n / 4 % 4, n % 4)).collect()
}
fn ask_len(a: Ask) -> u32 {
    let mut b = Bufs([0.0; 8], [0.0; 8]);
    let mut o = make(a.0, 0, 1.0, &mut b);
    act(&mut o, 0, a.1, 1.0);
    let mut r = 0;
    match preempt::interleave(&mut [&mut || r = act(&mut o, 0, a.2, 1.0)], &[(0, ALONE)]) {
        Ok(n) => n[0].max(1),
        Err(_) => 1,
    }
}
fn ask_alone(a: Ask, who: usize) -> Got {
    let mut b = Bufs([0.0; 8], [0.0; 8]);
    let mut o = make(a.0, who, 1.0, &mut b);
    (act(&mut o, who, a.1, 1.0), act(&mut o, who, a.2, 1.0), act(&mut o, who, (a.2 + 1) % NO, 1.0))
}
struct Space4 {
    pairs: Vec<(Ask, Ask)>,
    sch: Schedules,
}
/// 0: objects of the same kind, the second call runs as a whole somewhere within the first;
/// 1: both are interrupted once; 2: as 0, of different kinds
fn space4(which: usize) -> &'static Space4 {
    static S: [std::sync::OnceLock<Space4>; 3] = [const { std::sync::OnceLock::new() }; 3];
    S[which].get_or_init(|| {
        let len: std::collections::HashMap<Ask, u32> = asks().into_iter().map(|a| (a, ask_len(a))).collect();
        let mut pairs = vec![];
        for a in asks() {
            for b in asks() {
                // one context for the interrupting call
                if b.1 == 1 && (which == 2) == (a.0 != b.0) {
                    pairs.push((a, b));
                }
            }
        }
        let dims = pairs.iter().map(|(a, b)| if which != 1 { vec![len[a]] } else { vec![len[a], len[b]] }).collect();
        Space4 { sch: Schedules::new(dims), pairs }
    })
}
fn x04(which: usize, n: u64) -> Res {
    let sp = space4(which);
    let (k, p) = sp.sch.at(n);
    let (a, b) = sp.pairs[k];
    let (mut ba, mut bb) = (Bufs([0.0; 8], [0.0; 8]), Bufs([0.0; 8], [0.0; 8]));
    let want = (ask_alone(a, 0), ask_alone(b, 1));
    let (mut oa, mut ob) = (make(a.0, 0, 1.0, &mut ba), make(b.0, 1, 1.0, &mut bb));
    let mut got = ((act(&mut oa, 0, a.1, 1.0), 0, 0), (act(&mut ob, 1, b.1, 1.0), 0, 0));
    let r = preempt::interleave(
        &mut [&mut || got.0 .1 = act(&mut oa, 0, a.2, 1.0), &mut || got.1 .1 = act(&mut ob, 1, b.2, 1.0)],
        &[(0, p[0]), (1, if which != 1 { ALONE } else { p[1] })],
    );
    ensure!(r.is_ok(), "{}", last_panic());
    got.0 .2 = act(&mut oa, 0, (a.2 + 1) % NO, 1.0);
    got.1 .2 = act(&mut ob, 1, (b.2 + 1) % NO, 1.0);
    ensure!(got == want, "results (call before, call, call after) of both: {got:x?}, undisturbed {want:x?}");
    Ok(1 + (a.0 == b.0) as u8)
}
fn x04_show(which: usize, n: u64) -> String {
    let sp = space4(which);
    let (k, p) = sp.sch.at(n);
    let (a, b) = sp.pairs[k];
    let name = |a: Ask| format!("{} call {} (after call {})", TYPES[a.0 as usize], a.2, a.1);
    format!("{} interrupted after {} instructions by {}{}", name(a), p[0], name(b), if which != 1 { String::new() } else { format!(", itself interrupted after {}", p[1]) })
}

// ---------------------------------------------------------------- X05
/// Far above what any call needs today; far below what a loop over samples, cells or turns of phase takes.
const LIMIT: u32 = 60_000;
/// Measures calls: the clock cycles they take, or (exactly) their machine instructions.
struct Meter {
    count: bool,
    most: u32,
    over: Option<(&'static str, u32)>,
}
impl Meter {
    fn run(&mut self, name: &'static str, f: impl FnMut()) {
        self.run_within(LIMIT, name, f)
    }
    fn run_within(&mut self, limit: u32, name: &'static str, mut f: impl FnMut()) {
        let n = if self.count {
            match preempt::interleave(&mut [&mut f], &[(0, limit)]) {
                Ok(n) => n[0],
                // a panic is not this property's business
                Err(_) => return,
            }
        } else {
            let t0 = unsafe { std::arch::x86_64::_rdtsc() };
            if std::panic::catch_unwind(std::panic::AssertUnwindSafe(&mut f)).is_err() {
                return;
            }
            // no processor does more than twelve instructions in a cycle of this clock
            (unsafe { std::arch::x86_64::_rdtsc() } - t0).saturating_mul(12).min(limit as u64) as u32
        };
        self.most = self.most.max(n);
        if n >= limit {
            self.over.get_or_insert((name, limit));
        }
    }
}
/// The case is measured by the clock; if that leaves the possibility of too many instructions, they are counted.
fn metered(case: impl Fn(&mut Meter)) -> Res {
    let mut m = Meter { count: false, most: 0, over: None };
    case(&mut m);
    if m.over.is_some() {
        m = Meter { count: true, most: 0, over: None };
        case(&mut m);
        if let Some((name, limit)) = m.over {
            return Err(failure(format!("{name} takes {limit} machine instructions or more")));
        }
        return Ok(2);
    }
    Ok((m.most > 0) as u8)
}
const L_TIME: usize = 1 << 20;
/// Two large memories per thread, one of silence, one of signal: a search ends late in one of them.
fn cells5(mut g: impl FnMut(&mut [f32])) {
    thread_local!(static A: std::cell::RefCell<[Vec<f32>; 2]> = std::cell::RefCell::new([vec![0.25; L_TIME], vec![0.0; L_TIME]]));
    A.with(|a| {
        for c in a.borrow_mut().iter_mut() {
            g(c);
            clean5(c);
        }
    })
}
/// Undoes what few calls at the start of a memory wrote.
fn clean5(c: &mut [f32]) {
    let last = c[L_TIME - 1];
    c[..64].fill(last);
}
const GROUPS: u64 = 9;
const GROUP: [&str; GROUPS as usize] = ["functions", "more functions", "slice", "delay line", "comb and all-pass", "biquad", "envelope", "oscillators", "functions of two floats"];
const WITH: [f32; 5] = [0.5, 48000.0, -1e30, 1e-30, f32::NAN];
/// Every call with `x` in one argument.
fn x05_args(n: u64) -> Res {
    let mut k = Mix(n);
    let g = k.pick(GROUPS);
    let y = black_box(*k.of(&WITH));
    let x = black_box(f(k.0));
    metered(|m| x05_group(m, g, x, y))
}
fn x05_group(m: &mut Meter, g: u64, x: f32, y: f32) {
    let first = y == 0.5;
    match g {
        0 if first => {
            m.run("sinh", || drop(black_box(Ext::sinh(&x))));
            m.run("cosh", || drop(black_box(Ext::cosh(&x))));
            m.run("tanh", || drop(black_box(Ext::tanh(&x))));
            m.run("fast_tan", || drop(black_box(x.fast_tan())));
            m.run("sinc", || drop(black_box(x.sinc())));
            m.run("lookup_sin", || drop(black_box(x.lookup_sin())));
            m.run("lookup_bl_rect", || drop(black_box(x.lookup_bl_rect())));
            m.run("fixed_point_sin", || drop(black_box(x.fixed_point_sin())));
            m.run("fixed_point_cos", || drop(black_box(x.fixed_point_cos())));
            // sums a thousand points
            if x.to_bits() & 0x7ff_ffff == 0 {
                m.run_within(3_000_000, "si", || drop(black_box(x.si())));
            }
            m.run("sin_i16", || drop(black_box(sin_i16(x.to_bits() as i16, 4))));
        }
        1 if first => {
            m.run("to_decibels_unchecked", || drop(black_box(x.to_decibels_unchecked())));
            m.run("to_decibels", || drop(black_box(x.to_decibels().is_ok())));
            m.run("to_decibels_checked", || drop(black_box(x.to_decibels_checked().is_ok())));
            m.run("to_volt_ratio", || drop(black_box(x.to_volt_ratio())));
            m.run("digital_clip", || drop(black_box(digital_clip(x))));
            m.run("tanh_clip", || drop(black_box(tanh_clip(x))));
            m.run("poly_clip", || drop(black_box(poly_clip(x, 0.5))));
            m.run("sigmoid_clip", || drop(black_box(sigmoid_clip(x, 0.5))));
            m.run("float components", || drop(black_box(f32::from_f32_components(x.to_f32_components()))));
            for d in [0u8, 1, 8, 23, 24, 31, 255] {
                m.run("bit_reduce", || drop(black_box(bit_reduce(x, d).is_ok())));
                m.run("bit_reduce_exp", || drop(black_box(bit_reduce_exp(x, d).is_ok())));
            }
        }
        2 if first => cells5(|c| {
            let s = from_slice(c);
            m.run("lerp of a slice", || drop(black_box(s.lerp(x).is_ok())));
            m.run("lerp_wrapped", || drop(black_box(s.lerp_wrapped(x))));
            m.run("lagrange_wrapped", || drop(black_box(s.lagrange_wrapped(x, 6))));
            m.run("lagrange_four_points_wrapped", || drop(black_box(s.lagrange_four_points_wrapped(x))));
            let short = from_slice(&c[..3]);
            m.run("lerp_wrapped", || drop(black_box(short.lerp_wrapped(x))));
            m.run("lagrange_wrapped", || drop(black_box(short.lagrange_wrapped(x, 6))));
            m.run("lagrange_four_points_wrapped", || drop(black_box(short.lagrange_four_points_wrapped(x))));
            let t = [0.5f32; 8];
            m.run("lagrange", || drop(black_box(lagrange(&t, x))));
        }),
        3 if first => cells5(|c| {
            for l in [1, 3, L_TIME] {
                let mut d = DelayLine::new(from_slice_mut(&mut c[..l]));
                m.run("write_and_advance", || d.write_and_advance(x));
                m.run("read_lerp_wrapped_at", || drop(black_box(d.read_lerp_wrapped_at(x))));
                m.run("read_lagrange_wrapped_at", || drop(black_box(d.read_lagrange_wrapped_at(x))));
                m.run("advance", || d.advance());
                clean5(c);
            }
        }),
        4 => cells5(|c| {
            for l in [1, L_TIME] {
                let mut e = Comb::new(from_slice_mut(&mut c[..l]));
                m.run("set_feedback", || e.set_feedback(x));
                m.run("set_dampening", || e.set_dampening(y));
                for i in [x, y, 0.0] {
                    m.run("tick of a comb", || drop(black_box(e.tick(i))));
                }
                m.run("set_dampening", || e.set_dampening(x));
                m.run("tick of a comb", || drop(black_box(e.tick(1.0))));
                clean5(c);
                let mut e = AllPass::new(from_slice_mut(&mut c[..l]));
                for i in [x, y, 0.0] {
                    m.run("tick of an all-pass", || drop(black_box(e.tick(i))));
                }
                clean5(c);
            }
        }),
        5 => {
            let mut q = Biquad::new(BiquadCoeffs::<Butterworth>::new());
            let (a, b, s) = (1000.0, 0.7, 48000.0);
            for (fc, qq, gain, sr) in [(x, b, y, s), (a, x, y, s), (a, y, x, s), (a, b, y, x)] {
                let c = &mut q.coeffs;
                m.run("lowpass", || c.lowpass(fc, qq, sr));
                m.run("highpass", || c.highpass(fc, qq, sr));
                m.run("allpass", || c.allpass(fc, qq, sr));
                m.run("notch", || c.notch(fc, qq, sr));
                m.run("bell", || c.bell(fc, qq, gain, sr));
                m.run("low_shelf", || c.low_shelf(fc, qq, gain, sr));
                m.run("process", || drop(black_box(q.process(1.0))));
                m.run("process", || drop(black_box(q.process(x))));
            }
        }
        6 => {
            for p in 0..6 {
                let mut v = [0.003, 0.003, 0.5, 0.003, 1.0, 48000.0f32];
                v[p] = x;
                v[(p + 1) % 6] = if first { v[(p + 1) % 6] } else { y };
                let mut e = AudioRateADSR::new(0.001, 0.001, 0.5, 0.001, 1.0, 48000.0);
                m.run("AudioRateADSR::new", || e = AudioRateADSR::new(v[0], v[1], v[2], v[3], v[4], v[5]));
                m.run("trigger_on", || e.trigger_on());
                for _ in 0..3 {
                    m.run("tick of an envelope", || drop(black_box(e.tick())));
                }
                m.run("set_sr", || e.set_sr(v[5]));
                m.run("set_attack", || e.set_attack(v[0]));
                m.run("set_decay", || e.set_decay(v[1]));
                m.run("set_sustain", || e.set_sustain(v[2]));
                m.run("set_release", || e.set_release(v[3]));
                m.run("set_slope", || e.set_slope(v[4]));
                m.run("trigger_off", || e.trigger_off());
                m.run("tick of an envelope", || drop(black_box(e.tick())));
                m.run("reset", || e.reset());
            }
        }
        7 => {
            let t = [0.0f32, 1.0, 0.0, -1.0];
            let mut a = Acc::new(440.0, 48000.0);
            m.run("SoftPhaseAccumulator::new", || a = Acc::new(x, y));
            m.run("next_value", || drop(black_box(a.next_value())));
            m.run("set_freq", || drop(black_box(a.set_freq(x).is_ok())));
            m.run("set_sr_unchecked", || a.set_sr_unchecked(x));
            m.run("set_freq_unchecked", || a.set_freq_unchecked(y));
            m.run("next_value_normalized", || drop(black_box(a.next_value_normalized())));
            let mut o = FunctionalOscillator::new(Acc::new(x, 48000.0));
            let mut w = WavetableOscillator::new(from_slice(&t), Acc::new(x, 48000.0));
            for wave in 0..4 {
                o.set_wave([Waveform::Sine, Waveform::Triangle, Waveform::Sawtooth, Waveform::Rectangle].into_iter().nth(wave).unwrap());
                m.run("next of an oscillator", || drop(black_box(o.next())));
            }
            m.run("next of a wavetable oscillator", || drop(black_box(w.next())));
            m.run("set_phase_shift_unchecked", || o.set_phase_shift_unchecked(x));
            m.run("set_phase_shift_unchecked", || w.set_phase_shift_unchecked(x));
            m.run("set_freq_unchecked", || o.set_freq_unchecked(y));
            m.run("set_freq_unchecked", || w.set_freq_unchecked(y));
            m.run("set_sr_unchecked", || o.set_sr_unchecked(x));
            m.run("set_sr_unchecked", || w.set_sr_unchecked(x));
            m.run("next of an oscillator", || drop(black_box(o.next())));
            m.run("next of a wavetable oscillator", || drop(black_box(w.next())));
        }
        8 => {
            m.run("lerp", || drop(black_box((lerp(x, y, 0.5).is_ok(), lerp(y, x, 0.25).is_ok(), lerp(0.0, y, x).is_ok()))));
            m.run("lerp_unchecked", || drop(black_box((lerp_unchecked(x, y, 0.5), lerp_unchecked(y, 1.0, x)))));
            m.run("samples_to_seconds", || drop(black_box((x.samples_to_seconds(y), y.samples_to_seconds(x)))));
            m.run("samples_to_millis", || drop(black_box((x.samples_to_millis(y), y.samples_to_millis(x)))));
            m.run("seconds_to_samples", || drop(black_box((x.seconds_to_samples(y), y.seconds_to_samples(x)))));
            m.run("millis_to_samples", || drop(black_box((x.millis_to_samples(y), y.millis_to_samples(x)))));
            m.run("stereo_pan", || drop(black_box((stereo_pan(x, (y, 1.0)).is_ok(), stereo_pan(y, (x, 1.0)).is_ok()))));
            m.run("poly_clip", || drop(black_box((poly_clip(x, y), poly_clip(y, x)))));
            m.run("sigmoid_clip", || drop(black_box((sigmoid_clip(x, y), sigmoid_clip(y, x)))));
            m.run("mono_pan", || drop(black_box((mono_pan(x, y).is_ok(), mono_pan(y, x).is_ok()))));
            m.run("crossfade_correlated_unchecked", || drop(black_box((crossfade_correlated_unchecked(x, (y, 1.0)), crossfade_correlated_unchecked(y, (x, 1.0))))));
        }
        _ => {}
    }
}
fn x05_args_show(n: u64) -> String {
    let mut k = Mix(n);
    let g = k.pick(GROUPS);
    let y = *k.of(&WITH);
    format!("{}, argument {}, companion {y}", GROUP[g as usize], show_f32(k.0))
}
/// floats for X05: every exponent and sign, 64 significands
fn x05_float(n: u64) -> u64 {
    let (e, k) = (n / 64 % 512, n % 64);
    e << 23 | if k < 32 { k << 18 } else { (k + 1) % 32 << 18 | 0x3ffff }
}
fn x05_map(n: u64) -> u64 {
    let d = GROUPS * 5;
    n % d + d * x05_float(n / d)
}
/// Every integer argument: positions, indices, lengths, phases.
fn x05_ints(n: u64) -> Res {
    let l = [1, 2, 7, 4096, L_TIME][(n % 5) as usize];
    let s = n / 5;
    let v = black_box((1i128 << (s / 2 / 5 % 64)) as i64).wrapping_add((s / 2 % 5) as i64 - 2).wrapping_mul(1 - 2 * (s as i64 % 2)) as isize;
    metered(|m| cells5(|c| {
        let mut s = from_slice_mut(&mut c[..l]);
        let u = v as usize;
        m.run("get", || drop(black_box(s.get(u).is_ok())));
        m.run("assign", || drop(black_box(s.assign(u, 0.25).is_ok())));
        m.run("get_wrapped", || drop(black_box(s.get_wrapped(v))));
        m.run("get_sub_slice", || drop(black_box((s.get_sub_slice(u, 1).is_ok(), s.get_sub_slice(1, u).is_ok(), s.get_sub_slice(u, u).is_ok()))));
        m.run("get_slice_of_four_wrapped", || drop(black_box(s.get_slice_of_four_wrapped(v))));
        let mut d = DelayLine::new(s);
        d.advance();
        m.run("read_wrapped_at", || drop(black_box(d.read_wrapped_at(v))));
        let mut a = Acc::new(440.0, 48000.0);
        m.run("set_phase_shift", || a.set_phase_shift(v as u32));
        m.run("next_value_normalized", || drop(black_box(a.next_value_normalized())));
        m.run("from_raw_word", || drop(black_box(f32::from_raw_word(v as u32))));
        let d = v as u8;
        m.run("sin_i16", || drop(black_box(sin_i16(v as i16, d))));
        m.run("bit_reduce", || drop(black_box((bit_reduce(0.3, d).is_ok(), bit_reduce_exp(0.3, d).is_ok()))));
        // buffers of all lengths in and out
        let whole = from_slice_mut(c);
        let mut e = (Comb::new(whole), AllPass::new(whole), DelayLine::new(whole));
        let part = whole.get_sub_slice(0, l).ok().unwrap();
        m.run("change_buffer of a comb", || e.0.change_buffer(part));
        m.run("change_buffer of an all-pass", || e.1.change_buffer(part));
        m.run("change_buffer of a delay line", || e.2.change_buffer(part));
        m.run("change_buffer of a comb", || e.0.change_buffer(whole));
        m.run("change_buffer of an all-pass", || e.1.change_buffer(whole));
        m.run("change_buffer of a delay line", || e.2.change_buffer(whole));
        m.run("get_ptr_slice_mut", || drop(black_box((e.0.get_ptr_slice_mut(), e.1.get_ptr_slice_mut(), e.2.get_ptr_slice_mut()))));
        m.run("Comb::new", || drop(black_box(Comb::new(part))));
        m.run("AllPass::new", || drop(black_box(AllPass::new(part))));
        m.run("DelayLine::new", || drop(black_box(DelayLine::new(part))));
    }))
}
fn x05_ints_show(n: u64) -> String {
    let s = n / 5;
    let v = ((1i128 << (s / 2 / 5 % 64)) as i64).wrapping_add((s / 2 % 5) as i64 - 2).wrapping_mul(1 - 2 * (s as i64 % 2));
    format!("integer argument {v}, {} elements", [1, 2, 7, 4096, L_TIME][(n % 5) as usize])
}
/// Every sequence of three calls of an object, repeated 1, 300 or 70000 times, then every call measured.
fn x05_history(n: u64) -> Res {
    let mut k = Mix(n);
    let t = k.pick(NT);
    let word = [k.pick(NO), k.pick(NO), k.pick(NO)];
    let times = [1, 300, 70_000][k.pick(3) as usize];
    let level = *k.of(&LEVELS);
    metered(|m| {
    let mut b = Bufs([0.0; 8], [0.0; 8]);
    let mut o = make(t, 0, level, &mut b);
    for r in 0..times {
        for c in word {
            act(&mut o, 0, c, level);
        }
        if r & 0xfff == 0xfff {
            pulse();
        }
    }
    for c in 0..NO {
        m.run(["call 0", "call 1", "call 2", "call 3"][c as usize], || drop(black_box(act(&mut o, 0, c, level))));
    }
    })
}
fn x05_history_show(n: u64) -> String {
    let mut k = Mix(n);
    let t = k.pick(NT);
    let word = [k.pick(NO), k.pick(NO), k.pick(NO)];
    format!("{}, calls {word:?} repeated {} times, level {}", TYPES[t as usize], [1, 300, 70_000][k.pick(3) as usize], k.of(&LEVELS))
}

fn props() -> Vec<Prop> {
    let pick = |t: Tier, p: Profile, a: u64, b: u64, c: u64| match (t, p) {
        (Tier::Thorough, _) => a,
        (_, Profile::Release) => b,
        _ => c,
    };
    vec![
        Prop {
            id: "X01",
            level: "exploration",
            rule: "every float (quick: a fixed stride, plus corner floats) x 32 depths/companions for bit reduction, panning, decibels and the frequency setter; every float as position x 256 end points for lerp; all 2^16 phases x 256 degrees; slices of 1..12 elements, every index and position in sixteenths, and one of 200003; class 0 = the checked form refuses",
            assumptions: vec![],
            scenarios: vec![
                corners("corners", &RC, 32, x01_float, x01_show),
                sweep("floats", "functions of one float", &RC, move |t, p| Plan::stride(32 * N32, pick(t, p, 7, 31, 211)), x01_float, x01_show),
                sweep("lerp", "linear interpolation", &RC, move |t, p| Plan::stride(256 * N32, pick(t, p, 31, 211, 2003)), x01_lerp, x01_lerp_show),
                sweep("sine", "fixed-point sine", &RC, |_, _| Plan::all(1 << 24), x01_sin, |n| format!("phase {} degree {}", (n >> 8) as u16 as i16, n as u8)),
                sweep("slices", "slice access", &RCA, |_, _| Plan::all(SL * 400), x01_slice, x01_slice_show),
                sweep("big-slice", "access to a slice of 200003 elements", &RC, |_, _| Plan::all(BIG as u64 / 64 + 1), x01_big, |n| format!("indices from {}", n * 64)),
            ],
        },
        Prop {
            id: "X02",
            level: "exploration",
            rule: "every float (quick: a fixed stride, plus corner floats) x 4 companions through every function that takes floats, with overflow checks and assertions on; class 1 = infinite or NaN",
            assumptions: vec!["the sine integral, a thousand times slower, is only explored at a stride"],
            scenarios: vec![
                corners("corners", &[Profile::Release, Profile::Checked], 4, x02, x02_show),
                sweep("floats", "every function", &[Profile::Release, Profile::Checked], move |t, p| Plan::stride(4 * N32, pick(t, p, 3, 61, 61)), x02, x02_show),
                sweep("si", "sine integral", &[Profile::Release, Profile::Checked], move |t, p| Plan::stride(N32, pick(t, p, 499, 20011, 20011)), x02_si, show_f32),
            ],
        },
        Prop {
            id: "X03",
            level: "exploration",
            rule: "every pair of twelve kinds of objects and groups of functions x every history of 3 (thorough: 4) calls of each from 4 x every interleaving of the two histories x signal levels 1, 2^-70 and 2^40, all outputs compared bit for bit with the same histories run on their own; class 2 = both of the same kind",
            assumptions: vec![],
            scenarios: vec![
                sweep("interleavings", "3 calls each", &RC, move |t, p| Plan::stride(x03_total(3), pick(t, p, 1, 1, 1)), x03::<3>, x03_show::<3>),
                sweep("longer-interleavings", "4 calls each", &[Profile::Release], move |t, _| if t == Tier::Thorough { Plan::all(x03_total(4)) } else { Plan::stride(x03_total(4), 7) }, x03::<4>, x03_show::<4>),
            ],
        },
        Prop {
            id: "X04",
            level: "exploration",
            rule: "stateless exploration of the compiled code, one machine instruction at a time (CPU trap flag): each of 192 calls (12 kinds of objects or groups of functions x 4 earlier calls x 4 calls) interrupted at every instruction by each of 48 calls, results and later results compared bit for bit with undisturbed ones; calls on the same kind of object also with both interrupted once, at every pair of instructions; every evaluation is one schedule; class 2 = both of the same kind",
            assumptions: vec!["code compiled for this machine (x86-64, release and checked builds)"],
            scenarios: vec![
                sweep("interrupts-same", "one call within another on an object of the same kind", &RC, move |t, p| Plan::stride(space4(0).sch.total(), pick(t, p, 1, 1, 11)), |n| x04(0, n), |n| x04_show(0, n)),
                sweep("interrupts-other", "one call within another on an object of a different kind", &RC, move |t, p| Plan::stride(space4(2).sch.total(), pick(t, p, 1, 31, 101)), |n| x04(2, n), |n| x04_show(2, n)),
                sweep("both-interrupted", "two calls on objects of the same kind, two context switches", &RC, move |t, p| Plan::stride(space4(1).sch.total(), pick(t, p, 31, 2003, 10007)), |n| x04(1, n), |n| x04_show(1, n)),
            ],
        },
        Prop {
            id: "X05",
            level: "exploration",
            rule: "every call is timed by the cycle counter and, unless that excludes more than 60000 instructions, run one machine instruction at a time (CPU trap flag) and its instructions counted: every call that takes floats with floats of every sign and exponent (64 significands) in each argument x 5 companions; every call that takes an integer with all 2^k +- 2 of both signs x 5 slice lengths up to 2^20; every buffer replacement; every call of 12 kinds of objects after every sequence of three calls repeated 1, 300 and 70000 times at 3 levels; class 2 = instructions counted",
            assumptions: vec!["code compiled for this machine (x86-64, release and checked builds)", "the bound is 60000 instructions (si, which sums a thousand points: 3000000); lagrange with at most 8 points"],
            scenarios: vec![
                sweep("arguments", "every call, floats of every exponent", &RC, move |t, p| Plan::stride(GROUPS * 5 * 32768, pick(t, p, 1, 1, 7)), |n| x05_args(x05_map(n)), |n| x05_args_show(x05_map(n))),
                sweep("integers", "every call, integers around powers of two", &RC, |_, _| Plan::all(64 * 5 * 2 * 5), x05_ints, x05_ints_show),
                sweep("histories", "every call after long histories", &RC, move |t, p| Plan::stride(NT * 64 * 9, pick(t, p, 1, 1, 7)), x05_history, x05_history_show),
            ],
        },
    ]
}
fn main() {
    main_with(props())
}
