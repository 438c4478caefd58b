//! O01..O06: phase accumulator and oscillators.
use eatmc::*;
use embedded_audio_tools::errors::FrequencyError;
use embedded_audio_tools::memory_access::from_slice;
use embedded_audio_tools::oscillator::{FunctionalOscillator, PhaseAccumulator, SoftPhaseAccumulator as Acc, Waveform, WavetableOscillator};
use std::f64::consts::PI;

const TWO32: f64 = 4294967296.0;
const SR: [f32; 12] = [48000.0, 44100.0, 8000.0, 1.0, 192000.0, 1e6, 96000.0, 22050.0, 11025.0, 12345.67, 65536.0, 3.0];
type Fo = FunctionalOscillator<Acc>;
type Wo = WavetableOscillator<Acc>;

fn acc(f: f32, sr: f32) -> Acc {
    <Acc as PhaseAccumulator>::new(f, sr)
}
fn diff(a: f32, b: f32) -> f64 {
    a as f64 - b as f64
}
/// Normalised phase (f32) against the 32-bit phase.
fn is_norm(p: f32, phase: u32) -> bool {
    p >= 0.0 && p < 1.0 && (p as f64 - phase as f64 / TWO32).abs() <= 1.0 / 16777216.0
}

// ---------------------------------------------------------------- O01
fn step_ok(step: u32, f: f32, sr: f32) -> bool {
    let want = f as f64 / sr as f64 * TWO32;
    (step as f64 - want).abs() <= 1.0 + want / 2e6
}
fn o01_freq(n: u64) -> Res {
    let sr = SR[(n % 12) as usize];
    let f = f32::from_bits((n / 12) as u32);
    if !(f > 0.0 && f < sr) {
        return Ok(0);
    }
    o01_at(f, sr)
}
fn o01_at(f: f32, sr: f32) -> Res {
    let mut a = acc(f, sr);
    let mut b = acc(f, sr);
    let v = [a.next_value(), a.next_value(), a.next_value(), a.next_value()];
    let step = v[1].wrapping_sub(v[0]);
    ensure!(step_ok(step, f, sr), "f {f} sr {sr}: step {step}, want {}", f as f64 / sr as f64 * TWO32);
    for k in 2..4 {
        ensure!(v[k].wrapping_sub(v[k - 1]) == step, "f {f} sr {sr}: step {} after step {step}", v[k].wrapping_sub(v[k - 1]));
    }
    for k in 0..4 {
        let p = b.next_value_normalized();
        ensure!(is_norm(p, v[k]), "f {f} sr {sr}: normalised read-out {k} is {p}, integer read-out {} ({})", v[k], v[k] as f64 / TWO32);
    }
    ensure!(b.next_value() == v[3].wrapping_add(step), "the normalised read-out advanced the phase differently");
    Ok(if step == 0 { 2 } else { 1 })
}
/// Every sample rate.
const RATIO: [f32; 6] = [0.01, 0.3, 0.4999, 0.77, 1.0 / 3.0, 1e-6];
fn o01_rate(n: u64) -> Res {
    let sr = f32::from_bits((n / 6) as u32);
    if !(sr >= 1e-3 && sr <= 1e9) {
        return Ok(0);
    }
    o01_at(RATIO[(n % 6) as usize] * sr, sr)
}
fn o01_rate_show(n: u64) -> String {
    format!("f/sr {}, sr: {}", RATIO[(n % 6) as usize], show_f32(n / 6))
}
const LF: [f32; 16] = [440.0, 1000.0, 0.1, 0.001, 20.0, 1e-4, 261.6256, 3999.9, 0.5, 0.9999, 12345.6, 7.0, 65.406, 1.0 / 3.0, 2.5, 47999.0];
fn o01_long(n: u64, len: u64) -> Res {
    let (f, sr) = (LF[(n % 16) as usize], SR[(n / 16 % 12) as usize]);
    let mode = n / 192; // 0 integer, 1 alternating, 2 normalised with an integer read at the end of every block
    if f >= sr {
        return Ok(0);
    }
    let mut a = acc(f, sr);
    let first = a.next_value();
    let second = a.next_value();
    let step = second.wrapping_sub(first);
    ensure!(step_ok(step, f, sr), "f {f} sr {sr}: step {step}");
    let mut want = second;
    for k in 0..len {
        want = want.wrapping_add(step);
        let integer = match mode {
            0 => true,
            1 => k % 2 == 0,
            _ => k % 1000 == 999,
        };
        if integer {
            let v = a.next_value();
            ensure!(v == want, "f {f} sr {sr}: phase {v} after {} steps of {step}, want {want}", k + 2);
        } else {
            let p = a.next_value_normalized();
            ensure!(is_norm(p, want), "f {f} sr {sr}: normalised phase {p} after {} steps of {step}, want {}", k + 2, want as f64 / TWO32);
        }
    }
    Ok(1 + mode as u8)
}
fn o01_endure(n: u64, len: u64) -> Res {
    let (f, sr) = ([440.0f32, 1e-4, 0.001, 7.0, 1.0 / 3.0, 23999.0][(n % 6) as usize], 48000.0);
    let mut a = acc(f, sr);
    let first = a.next_value();
    let second = a.next_value();
    let step = second.wrapping_sub(first);
    ensure!(step_ok(step, f, sr), "f {f} sr {sr}: step {step}");
    let mut want = second;
    for k in 0..len {
        want = want.wrapping_add(step);
        if n < 6 {
            let v = a.next_value();
            ensure!(v == want, "f {f} sr {sr}: phase {v} after {} steps of {step}, want {want}", k + 2);
        } else {
            let p = a.next_value_normalized();
            ensure!(is_norm(p, want), "f {f} sr {sr}: normalised phase {p} after {} steps of {step}, want {}", k + 2, want as f64 / TWO32);
        }
        if k & 0xffff == 0 {
            pulse();
        }
    }
    Ok(1)
}
fn o01_long_q(n: u64) -> Res {
    o01_long(n, 300_000)
}
fn o01_long_t(n: u64) -> Res {
    o01_long(n, 20_000_000)
}
fn o01_long_show(n: u64) -> String {
    format!("f {} sr {} read-out mode {}", LF[(n % 16) as usize], SR[(n / 16 % 12) as usize], n / 192)
}
fn o01_show(n: u64) -> String {
    format!("sr {} f: {}", SR[(n % 12) as usize], show_f32(n / 12))
}

// ---------------------------------------------------------------- O02
/// Every value of one change, in the middle of a run: shift, frequency, checked frequency, sample rate; accumulator or
/// oscillators.
const CHANGES: u64 = 4 * 4 * 2;
fn o02_change(n: u64) -> Option<(u64, Op, bool)> {
    let mut m = Mix(n);
    let (which, cfg, osc) = (m.pick(4), m.pick(4), m.pick(2) == 1);
    let x = f32::from_bits(m.0 as u32);
    let (f, sr, _) = ph_cfg(cfg);
    let op = match which {
        // the oscillators take the shift as a float, which is O04's and O06's business
        0 if !osc => Shift(m.0 as u32),
        1 if x >= 0.0 && x < sr => Freq(x),
        2 if !osc && x.abs() < sr => Checked(x),
        3 if x > f && x <= 1e9 => Sr(x),
        _ => return None,
    };
    Some((cfg, op, osc))
}
fn o02_any(n: u64) -> Res {
    let Some((cfg, op, osc)) = o02_change(n) else { return Ok(0) };
    let run = |m: &mut dyn FnMut(u64) -> Result<Option<u8>, Box<Fail>>, norm: u64| -> Result<(), Box<Fail>> {
        for op in [0, 0, 2, 0, norm, 0, 3, 0, norm, 2, 0, 0] {
            m(op)?;
        }
        Ok(())
    };
    if osc {
        let mut m = PhOsc::new(cfg);
        m.ops = vec![Next, Next, op, Wave(2)];
        run(&mut |op| m.step(op), 0)?;
    } else {
        let mut m = PhAcc::new(cfg);
        m.ops = vec![Next, Norm, op, Shift(if matches!(op, Shift(_)) { 0 } else { 1 << 29 })];
        run(&mut |op| m.step(op), 1)?;
    }
    Ok(1 + osc as u8)
}
fn o02_any_show(n: u64) -> String {
    match o02_change(n) {
        Some((cfg, op, osc)) => format!("{} setting {cfg}, {op:?}", if osc { "oscillators" } else { "accumulator" }),
        None => "outside the ranges".into(),
    }
}
#[derive(Clone, Copy, Debug)]
enum Op {
    Next,
    Norm,
    Freq(f32),
    Checked(f32),
    Sr(f32),
    Shift(u32),
    Wave(u8),
}
use Op::*;

#[derive(Clone, Copy)]
struct PhModel {
    phase: u32,
    shift: u32,
    freq: f32,
    sr: f32,
    wave: u8,
}
impl PhModel {
    fn step(&self) -> u32 {
        let mut a = acc(self.freq, self.sr);
        let x = a.next_value();
        a.next_value().wrapping_sub(x)
    }
    fn next(&mut self) -> u32 {
        self.phase = self.phase.wrapping_add(self.step());
        self.phase.wrapping_add(self.shift)
    }
}
fn ph_cfg(cfg: u64) -> (f32, f32, Vec<Op>) {
    match cfg % 4 {
        0 => (1000.0, 8000.0, vec![Freq(3000.0), Freq(0.0), Freq(123.4), Checked(500.0), Checked(5000.0), Sr(48000.0), Sr(16000.0), Shift(1 << 30), Shift(0), Shift(0xffff_ff00)]),
        1 => (440.0, 44100.0, vec![Freq(0.01), Freq(20000.0), Checked(-1.0), Checked(0.0), Checked(440.0), Sr(22050.0), Sr(96000.0), Shift(1), Shift(u32::MAX), Shift(0)]),
        2 => (0.3, 1.0, vec![Freq(0.99), Freq(0.5), Checked(0.5), Checked(0.25), Sr(3.0), Sr(1.0), Shift(0x8000_0000), Shift(0x1234_5678), Shift(0)]),
        _ => (11999.9, 12000.0, vec![Freq(11999.0), Freq(1e-3), Checked(6000.0), Checked(6001.0), Sr(24000.0), Sr(1e6), Shift(0x4000_0001), Shift(0xc000_0000), Shift(0)]),
    }
}
struct PhAcc {
    a: Acc,
    m: PhModel,
    ops: Vec<Op>,
    cfg: u64,
}
impl Machine for PhAcc {
    fn new(cfg: u64) -> Self {
        let (f, sr, mut ops) = ph_cfg(cfg);
        ops.insert(0, Next);
        ops.insert(1, Norm);
        PhAcc { a: acc(f, sr), m: PhModel { phase: 0, shift: 0, freq: f, sr, wave: 0 }, ops, cfg }
    }
    fn nops(&self) -> u64 {
        self.ops.len() as u64
    }
    fn step(&mut self, op: u64) -> Result<Option<u8>, Box<Fail>> {
        let class = match self.ops[op as usize] {
            Next => {
                let v = self.a.next_value();
                let w = self.m.next();
                ensure!(v == w, "phase {v}, want {w} (step {}, shift {})", self.m.step(), self.m.shift);
                1
            }
            Norm => {
                let v = self.a.next_value_normalized();
                let w = self.m.next();
                ensure!(is_norm(v, w), "normalised phase {v}, want {} (step {}, shift {})", w as f64 / TWO32, self.m.step(), self.m.shift);
                2
            }
            Freq(f) => {
                self.a.set_freq_unchecked(f);
                self.m.freq = f;
                3
            }
            Checked(f) => {
                let ok = f > 0.0 && f <= self.m.sr / 2.0;
                ensure!(self.a.set_freq(f).is_ok() == ok, "checked frequency {f} at {} Hz: accepted {}", self.m.sr, !ok);
                if ok {
                    self.m.freq = f;
                }
                4
            }
            Sr(s) => {
                self.a.set_sr_unchecked(s);
                self.m.sr = s;
                5
            }
            Shift(s) => {
                self.a.set_phase_shift(s);
                self.m.shift = s;
                6
            }
            Wave(_) => return Ok(None),
        };
        Ok(Some(class))
    }
    fn save(&self, o: &mut Vec<u8>) {
        put(o, &self.a);
        o.extend(self.m.phase.to_le_bytes());
        o.extend(self.m.shift.to_le_bytes());
        o.extend(self.m.freq.to_bits().to_le_bytes());
        o.extend(self.m.sr.to_bits().to_le_bytes());
    }
    fn load(&mut self, s: &[u8]) {
        let mut r = Reader(s);
        r.get(&mut self.a);
        self.m.phase = r.u32();
        self.m.shift = r.u32();
        self.m.freq = f32::from_bits(r.u32());
        self.m.sr = f32::from_bits(r.u32());
    }
    fn opname(&self, op: u64) -> String {
        format!("{:?}", self.ops[op as usize])
    }
    fn cfgname(&self) -> String {
        let (f, sr, _) = ph_cfg(self.cfg);
        format!("accumulator f {f} sr {sr}")
    }
}

fn wave(k: u8) -> Waveform {
    match k {
        0 => Waveform::Sine,
        1 => Waveform::Rectangle,
        2 => Waveform::Sawtooth,
        _ => Waveform::Triangle,
    }
}
const WAVE: [&str; 4] = ["sine", "rectangle", "sawtooth", "triangle"];
fn ideal(k: u8, p: f64) -> f64 {
    match k {
        0 => (2.0 * PI * p).sin(),
        1 => if p < 0.5 { -1.0 } else { 1.0 },
        2 => 2.0 * p - 1.0,
        _ => 1.0 - 2.0 * (2.0 * p - 1.0).abs(),
    }
}
const TABLE: [f32; 5] = [0.25, -0.5, 1.0, 0.0, 0.75];
fn periodic_input(t: &[f32], pos: f64) -> f64 {
    let i = pos.floor();
    let (a, b) = (t[(i as usize) % t.len()] as f64, t[(i as usize + 1) % t.len()] as f64);
    a + (b - a) * (pos - i)
}
/// Oscillators: the phase is observed through the output.
struct PhOsc {
    f: Fo,
    w: Wo,
    m: PhModel,
    ops: Vec<Op>,
    cfg: u64,
}
impl Machine for PhOsc {
    fn new(cfg: u64) -> Self {
        let (f, sr, ops) = ph_cfg(cfg);
        let mut ops: Vec<Op> = ops.into_iter().filter(|o| !matches!(o, Checked(_))).filter(|o| !matches!(o, Shift(s) if s & 0xff != 0)).collect();
        ops.insert(0, Next);
        ops.extend([Wave(0), Wave(1), Wave(2), Wave(3)]);
        PhOsc {
            f: Fo::new(acc(f, sr)),
            w: Wo::new(from_slice(&TABLE), acc(f, sr)),
            m: PhModel { phase: 0, shift: 0, freq: f, sr, wave: 0 },
            ops,
            cfg,
        }
    }
    fn nops(&self) -> u64 {
        self.ops.len() as u64
    }
    fn step(&mut self, op: u64) -> Result<Option<u8>, Box<Fail>> {
        let class = match self.ops[op as usize] {
            Next => {
                let (o, t) = (self.f.next(), self.w.next());
                let w = self.m.next();
                let p = w as f64 / TWO32;
                let k = self.m.wave;
                // the oscillator works on a 24-bit phase
                let close = (p * 2.0).fract() < 2e-7 || (p * 2.0).fract() > 1.0 - 2e-7;
                let tol = if k == 0 { 2.1e-4 } else { 1e-6 };
                ensure!(near(o, ideal(k, p), tol) || (k == 1 && close && o.abs() == 1.0), "{}: output {o} at phase {p}, want {}", WAVE[k as usize], ideal(k, p));
                ensure!(near(t, periodic_input(&TABLE, p * 5.0), 3e-6), "wavetable output {t} at phase {p}, want {}", periodic_input(&TABLE, p * 5.0));
                1 + k
            }
            Freq(f) => {
                self.f.set_freq_unchecked(f);
                self.w.set_freq_unchecked(f);
                self.m.freq = f;
                5
            }
            Sr(s) => {
                self.f.set_sr_unchecked(s);
                self.w.set_sr_unchecked(s);
                self.m.sr = s;
                6
            }
            Shift(s) => {
                let x = (s as f64 / TWO32) as f32;
                self.f.set_phase_shift_unchecked(x);
                self.w.set_phase_shift_unchecked(x);
                self.m.shift = s;
                7
            }
            Wave(k) => {
                self.f.set_wave(wave(k));
                self.m.wave = k;
                8
            }
            _ => return Ok(None),
        };
        Ok(Some(class))
    }
    fn save(&self, o: &mut Vec<u8>) {
        put(o, &self.f);
        put(o, &self.w);
        o.extend(self.m.phase.to_le_bytes());
        o.extend(self.m.shift.to_le_bytes());
        o.extend(self.m.freq.to_bits().to_le_bytes());
        o.extend(self.m.sr.to_bits().to_le_bytes());
        o.push(self.m.wave);
    }
    fn load(&mut self, s: &[u8]) {
        let mut r = Reader(s);
        r.get(&mut self.f);
        r.get(&mut self.w);
        self.m.phase = r.u32();
        self.m.shift = r.u32();
        self.m.freq = f32::from_bits(r.u32());
        self.m.sr = f32::from_bits(r.u32());
        r.get(&mut self.m.wave);
    }
    fn opname(&self, op: u64) -> String {
        match self.ops[op as usize] {
            Wave(k) => format!("Wave({})", WAVE[k as usize]),
            o => format!("{o:?}"),
        }
    }
    fn cfgname(&self) -> String {
        let (f, sr, _) = ph_cfg(self.cfg);
        format!("functional and wavetable oscillator f {f} sr {sr}")
    }
}

// ---------------------------------------------------------------- O03
fn o03_shift(n: u64) -> Res {
    let p = n as u32;
    let mut a = acc(0.0, 48000.0);
    a.set_phase_shift(p);
    let v = a.next_value();
    let x = a.next_value_normalized();
    ensure!(v == p, "phase {v} with a shift of {p} and frequency 0");
    ensure!(is_norm(x, p), "normalised phase {x:e} at phase {p} ({:e})", p as f64 / TWO32);
    Ok(1)
}
fn o03_run(n: u64) -> Res {
    // running counter: one step of (almost) any size, plus a shift
    let f = (n & 0xff_ffff) as f32;
    let shift = [0u32, 0x80, 0xffff_ffff, 0x8000_0001][(n >> 24) as usize];
    let mut a = acc(f, 16777216.0);
    a.set_phase_shift(shift);
    let mut b = snap(&a);
    for _ in 0..3 {
        let (v, x) = (a.next_value(), b.next_value_normalized());
        ensure!(is_norm(x, v), "normalised phase {x:e} at phase {v} ({:e})", v as f64 / TWO32);
    }
    Ok(1)
}

// ---------------------------------------------------------------- O04
/// A user-supplied accumulator that yields what it is told.
#[derive(Clone, Copy)]
struct Stub(f32);
impl PhaseAccumulator for Stub {
    type Object = Stub;
    fn new(freq: f32, _: f32) -> Stub {
        Stub(freq)
    }
    fn set_sr_unchecked(&mut self, _: f32) {}
    fn set_freq_unchecked(&mut self, f: f32) {
        self.0 = f
    }
    fn set_phase_shift(&mut self, _: u32) {}
    fn next_value(&mut self) -> u32 {
        (self.0 as f64 * TWO32) as u32
    }
    fn next_value_normalized(&mut self) -> f32 {
        self.0
    }
}
fn shape(k: u8, p: f32, o: f32) -> Result<(), Box<Fail>> {
    let w = ideal(k, p as f64);
    let (tol, lim) = match k {
        0 => (2e-4, 1.0001),
        1 => (0.0, 1.0),
        _ => (2.4e-7, 1.0),
    };
    ensure!(near(o, w, tol), "{} at phase {p:e} is {o}, want {w}", WAVE[k as usize]);
    ensure!(o.abs() <= lim, "{} at phase {p:e} is {o}, out of range", WAVE[k as usize]);
    Ok(())
}
fn o04_stub(n: u64) -> Res {
    let p = f32::from_bits((n / 4) as u32);
    let k = (n % 4) as u8;
    let mut o = FunctionalOscillator::new(Stub(p));
    o.set_wave(wave(k));
    shape(k, p, o.next())?;
    Ok(1 + k)
}
fn o04_grid(n: u64) -> Res {
    o04_stub(((n / 4) as f32 / 16777216.0).to_bits() as u64 * 4 + n % 4)
}
fn o04_soft(n: u64) -> Res {
    let k = (n % 4) as u8;
    let f = [0.0f32, 1000.0, 13.37, 23999.0][(n / 4 % 4) as usize];
    let mut a = acc(f, 48000.0);
    a.set_phase_shift((n / 16) as u32);
    let mut o = FunctionalOscillator::new(snap(&a));
    o.set_wave(wave(k));
    for _ in 0..2 {
        shape(k, a.next_value_normalized(), o.next())?;
    }
    Ok(1 + k)
}
/// The oscillator against an accumulator of its own, for a very long time.
fn o04_endure(n: u64, steps: u64) -> Res {
    let k = (n % 4) as u8;
    let mut a = acc([1000.1f32, 0.013][(n / 4) as usize], 48000.0);
    let mut o = FunctionalOscillator::new(snap(&a));
    o.set_wave(wave(k));
    for s in 0..steps {
        let p = a.next_value_normalized();
        let y = o.next();
        // the exact shape every 16th time, the cheap half of it otherwise
        if s & 15 == 0 {
            shape(k, p, y)?;
        }
        ensure!((-1.0001..=1.0001).contains(&y), "{} after {s} samples: {y}", WAVE[k as usize]);
        if s & 0xffff == 0 {
            pulse();
        }
    }
    ensure!(same(o.next(), { let mut b = FunctionalOscillator::new(Stub(a.next_value_normalized())); b.set_wave(wave(k)); b.next() }), "{} drifted from its accumulator", WAVE[k as usize]);
    Ok(1 + k)
}
/// The default waveform is the sine.
fn o04_default(n: u64) -> Res {
    let p = n as f32 / 65536.0;
    shape(0, p, FunctionalOscillator::new(Stub(p)).next())?;
    Ok(1)
}

// ---------------------------------------------------------------- O05
fn o05(n: u64) -> Res {
    let sr = SR[(n % 12) as usize];
    let f = f32::from_bits((n / 12) as u32);
    if f.is_nan() {
        return Ok(0);
    }
    let f0 = sr * 0.1234;
    let mut a = acc(f0, sr);
    a.set_phase_shift(77);
    a.next_value();
    let mut before = snap(&a);
    let r = a.set_freq(f);
    let rel = f as f64 / (sr as f64 / 2.0);
    let (class, ok) = match &r {
        Ok(()) => {
            ensure!(f > 0.0, "frequency {f} accepted");
            ensure!(rel <= 1.0 + 1e-6, "frequency {f} accepted at sample rate {sr}");
            (1, true)
        }
        Err(FrequencyError::Zero) => {
            ensure!(f == 0.0, "frequency {f} refused as zero");
            (2, false)
        }
        Err(FrequencyError::Negative) => {
            ensure!(f < 0.0, "frequency {f} refused as negative");
            (3, false)
        }
        Err(FrequencyError::BiggerThanNyquist) => {
            ensure!(rel > 1.0 && f > 0.0, "frequency {f} refused as above half of {sr}");
            ensure!(rel >= 1.0 - 1e-6, "frequency {f} refused at {sr}");
            (4, false)
        }
    };
    if ok {
        let mut fresh = acc(f, sr);
        let x = fresh.next_value();
        let step = fresh.next_value().wrapping_sub(x);
        ensure!(step_ok(step, f, sr), "step {step} at frequency {f}, sample rate {sr}");
        let start = before.next_value().wrapping_sub({
            let mut q = acc(f0, sr);
            let x = q.next_value();
            q.next_value().wrapping_sub(x)
        });
        for k in 1..4u32 {
            let v = a.next_value();
            let w = start.wrapping_add(step.wrapping_mul(k));
            ensure!(v == w, "after setting {f} (sample rate {sr}): phase {v}, want {w}");
        }
    } else {
        for _ in 0..3 {
            let (v, w) = (a.next_value(), before.next_value());
            ensure!(v == w, "a refused frequency ({f}) changed the phase sequence: {v}, want {w}");
        }
    }
    Ok(class)
}

// ---------------------------------------------------------------- O07
/// What an accumulator (a timer, say) of the user's has been told and asked for.
#[derive(Clone, Copy, Default, PartialEq, Debug)]
struct Told {
    freq: u32,
    sr: u32,
    shift: u32,
    drawn: u32,
    integers: u32,
}
thread_local!(static TOLD: std::cell::Cell<[Told; 2]> = const { std::cell::Cell::new([Told { freq: 0, sr: 0, shift: 0, drawn: 0, integers: 0 }; 2]) });
const DRAWS: [f32; 8] = [0.0, 0.99999994, 0.5, 0.25, 0.12345, 0.875, 1e-30, 0.75];
struct Timer(u8);
impl Timer {
    fn told<R>(&mut self, f: impl FnOnce(&mut Told) -> R) -> R {
        let mut t = TOLD.get();
        let r = f(&mut t[self.0 as usize]);
        TOLD.set(t);
        r
    }
}
impl PhaseAccumulator for Timer {
    type Object = Timer;
    fn new(freq: f32, _: f32) -> Timer {
        Timer(freq as u8)
    }
    fn set_sr_unchecked(&mut self, sr: f32) {
        self.told(|t| t.sr = sr.to_bits())
    }
    fn set_freq_unchecked(&mut self, f: f32) {
        self.told(|t| t.freq = f.to_bits())
    }
    fn set_phase_shift(&mut self, s: u32) {
        self.told(|t| t.shift = s)
    }
    fn next_value(&mut self) -> u32 {
        self.told(|t| t.integers += 1);
        0
    }
    fn next_value_normalized(&mut self) -> f32 {
        self.told(|t| {
            t.drawn += 1;
            DRAWS[(t.drawn - 1) as usize % 8]
        })
    }
}
struct Driven {
    f: FunctionalOscillator<Timer>,
    w: WavetableOscillator<Timer>,
    wave: u8,
    m: [Told; 2],
    table: &'static [f32],
}
/// Also one-sample, silent and constant tables.
const D_TABLES: [&[f32]; 9] = [&TABLE, &[0.5], &[0.0], &[1.0, -1.0], &[0.25, 0.25, 0.25], &[0.0, 0.0, 0.0, 0.0], &[0.1, 0.9, -0.4, 0.3, 0.2, -0.8, 0.6, 0.7], &[-0.0, 1.0, 0.5], &[0.5; 64]];
const D_OPS: u64 = 15;
const D_SHIFT: [f32; 5] = [0.0, 1e-4, 0.25, 0.7, 0.99999994];
fn shift_of(s: f32) -> f64 {
    s as f64 * TWO32
}
impl Driven {
    fn told(&self) -> Result<(), Box<Fail>> {
        for (k, (t, m)) in TOLD.get().iter().zip(&self.m).enumerate() {
            let who = ["functional", "wavetable"][k];
            ensure!(t.integers == 0, "the {who} oscillator drew an integer phase as well");
            ensure!(t.drawn == m.drawn, "the {who} oscillator drew {} phases for {} samples", t.drawn, m.drawn);
            ensure!(t.freq == m.freq, "the {who} oscillator's accumulator runs at frequency {}, want {}", f32::from_bits(t.freq), f32::from_bits(m.freq));
            ensure!(t.sr == m.sr, "the {who} oscillator's accumulator runs at sample rate {}, want {}", f32::from_bits(t.sr), f32::from_bits(m.sr));
            let want = shift_of(f32::from_bits(m.shift));
            ensure!((t.shift as f64 - want).abs() <= 300.0, "the {who} oscillator's accumulator is shifted by {}, want {want}", t.shift);
        }
        Ok(())
    }
}
impl Machine for Driven {
    fn new(cfg: u64) -> Self {
        TOLD.set(Default::default());
        let table = D_TABLES[cfg as usize];
        Driven { f: FunctionalOscillator::new(Timer(0)), w: WavetableOscillator::new(from_slice(table), Timer(1)), wave: 0, m: Default::default(), table }
    }
    fn nops(&self) -> u64 {
        D_OPS
    }
    fn step(&mut self, op: u64) -> Result<Option<u8>, Box<Fail>> {
        let c = match op {
            0 => {
                let p = DRAWS[self.m[0].drawn as usize % 8];
                let o = self.f.next();
                self.m[0].drawn += 1;
                self.told()?;
                shape(self.wave, p, o)?;
                1 + self.wave
            }
            1 => {
                let p = DRAWS[self.m[1].drawn as usize % 8] as f64;
                let o = self.w.next();
                self.m[1].drawn += 1;
                self.told()?;
                let want = periodic_input(self.table, p * self.table.len() as f64);
                ensure!(near(o, want, 3e-5), "wavetable output {o} at phase {p}, want {want}");
                5
            }
            2..=5 => {
                self.wave = (op - 2) as u8;
                self.f.set_wave(wave(self.wave));
                6
            }
            6 | 7 => {
                let f = [440.0f32, -0.0][(op - 6) as usize];
                self.f.set_freq_unchecked(f);
                self.w.set_freq_unchecked(-f);
                (self.m[0].freq, self.m[1].freq) = (f.to_bits(), (-f).to_bits());
                7
            }
            8 | 9 => {
                let s = [48000.0f32, 44100.0][(op - 8) as usize];
                self.f.set_sr_unchecked(s);
                self.w.set_sr_unchecked(s + 1.0);
                (self.m[0].sr, self.m[1].sr) = (s.to_bits(), (s + 1.0).to_bits());
                8
            }
            _ => {
                let s = D_SHIFT[(op - 10) as usize];
                self.f.set_phase_shift_unchecked(s);
                self.w.set_phase_shift_unchecked(s);
                (self.m[0].shift, self.m[1].shift) = (s.to_bits(), s.to_bits());
                9
            }
        };
        Ok(Some(c))
    }
    fn save(&self, o: &mut Vec<u8>) {
        put(o, &self.f);
        put(o, &self.w);
        o.push(self.wave);
        // the phases drawn repeat after eight
        for t in TOLD.get().iter().zip(&self.m).flat_map(|(t, m)| [t, m]) {
            for x in [t.freq, t.sr, t.shift, t.drawn % 8, t.integers] {
                o.extend(x.to_le_bytes());
            }
        }
    }
    fn load(&mut self, s: &[u8]) {
        let mut r = Reader(s);
        r.get(&mut self.f);
        r.get(&mut self.w);
        r.get(&mut self.wave);
        let mut t = [Told::default(); 2];
        for k in 0..2 {
            for x in [&mut t[k], &mut self.m[k]] {
                *x = Told { freq: r.u32(), sr: r.u32(), shift: r.u32(), drawn: r.u32(), integers: r.u32() };
            }
        }
        TOLD.set(t);
    }
    fn opname(&self, op: u64) -> String {
        match op {
            0 => "next".into(),
            1 => "next (table)".into(),
            2..=5 => format!("set_wave({})", WAVE[(op - 2) as usize]),
            6 | 7 => format!("set_freq {}", op - 6),
            8 | 9 => format!("set_sr {}", op - 8),
            _ => format!("set_phase_shift({})", D_SHIFT[(op - 10) as usize]),
        }
    }
    fn cfgname(&self) -> String {
        format!("oscillators on a recording accumulator, table of {} samples {:?}..", self.table.len(), &self.table[..self.table.len().min(4)])
    }
}
/// Every float reaches the accumulator through the setters.
fn o07_any(n: u64) -> Res {
    TOLD.set(Default::default());
    let x = f32::from_bits(n as u32);
    let mut d = Driven::new(0);
    d.f.set_freq_unchecked(x);
    d.w.set_freq_unchecked(x);
    d.m.iter_mut().for_each(|m| m.freq = x.to_bits());
    d.step(n % 2)?;
    d.f.set_sr_unchecked(x);
    d.w.set_sr_unchecked(x);
    d.m.iter_mut().for_each(|m| m.sr = x.to_bits());
    d.step(n % 2)?;
    if (0.0..1.0).contains(&x) {
        d.f.set_phase_shift_unchecked(x);
        d.w.set_phase_shift_unchecked(x);
        d.m.iter_mut().for_each(|m| m.shift = x.to_bits());
        d.step(n % 2)?;
        return Ok(2);
    }
    Ok(1)
}

// ---------------------------------------------------------------- O06
const TL: [usize; 20] = [1, 2, 3, 4, 5, 7, 8, 16, 31, 64, 100, 255, 256, 1000, 2048, 4096, 65535, 65536, 70001, 1 << 20];
fn tval(n: usize, i: usize) -> f32 {
    // irregular for small tables, smoother for large ones
    if n <= 64 {
        val(i)
    } else {
        val(i / 16) + (i % 16) as f32 / 16.0
    }
}
struct Tables(Vec<Arena>);
thread_local! {
    static T: Tables = Tables(TL.iter().map(|&n| { let mut a = Arena::new(&[n]); a.fill(0, |i| tval(n, i)); a }).collect());
}
fn check_table(ti: usize, p: f32, o: f32) -> Res {
    T.with(|t| {
        let s = t.0[ti].slice_mut(0);
        let n = s.len();
        let pos = p as f64 * n as f64;
        let i = pos.floor() as usize;
        // position rounding, also just across a cell border
        let spread = (0..3).map(|d| diff(s[(i + n + n - 1 + d) % n], s[(i + n + n + d) % n]).abs()).fold(0.0, f64::max);
        let tol = spread * pos.max(1.0) * 3e-7 + 1e-5;
        let w = periodic_input(s, pos);
        ensure!(near(o, w, tol), "table of {n} at phase {p:e} (position {pos}): {o}, want {w}");
        Ok(1 + (i + 1 >= n) as u8)
    })
}
fn o06_stub(n: u64) -> Res {
    let ti = (n % 20) as usize;
    let k = n / 20;
    let p = if k <= 1 << 24 {
        k as f32 / 16777216.0
    } else {
        f32::from_bits((k - (1 << 24)) as u32 * 64) // tiny phases, up to 1/64
    };
    if p > 1.0 {
        return Ok(0);
    }
    let o = T.with(|t| WavetableOscillator::new(from_slice(t.0[ti].slice_mut(0)), Stub(p)).next());
    check_table(ti, p, o)
}
fn o06_soft(n: u64) -> Res {
    let ti = (n % 20) as usize;
    let mut a = acc([0.0, 1234.5][(n / 20 % 2) as usize], 48000.0);
    a.set_phase_shift((n / 40) as u32);
    T.with(|t| {
        let mut o = WavetableOscillator::new(from_slice(t.0[ti].slice_mut(0)), snap(&a));
        for _ in 0..2 {
            check_table(ti, a.next_value_normalized(), o.next())?;
        }
        Ok(1)
    })
}

fn o06_endure(n: u64, steps: u64) -> Res {
    let ti = (n % 20) as usize;
    let mut a = acc([1000.1f32, 0.013][(n / 20) as usize], 48000.0);
    T.with(|t| {
        let mut o = WavetableOscillator::new(from_slice(t.0[ti].slice_mut(0)), snap(&a));
        for s in 0..steps {
            check_table(ti, a.next_value_normalized(), o.next())?;
            if s & 0xffff == 0 {
                pulse();
            }
        }
        Ok(1)
    })
}
fn bd(cfgs: u64, depth: u64, max: u64) -> Bound {
    Bound { cfgs, depth: depth as usize, max_states: max as usize }
}
fn props() -> Vec<Prop> {
    let pick = |t: Tier, p: Profile, a: u64, b: u64, c: u64| match (t, p) {
        (Tier::Thorough, _) => a,
        (_, Profile::Release) => b,
        _ => c,
    };
    const N32: u64 = 1 << 32;
    let top = 1.0f32.to_bits() as u64;
    vec![
        Prop {
            id: "O01",
            level: "exploration",
            rule: "sweep: every positive float as frequency at 12 sample rates, four samples in both read-outs; long runs: 16 frequencies x 12 sample rates x 3 read-out patterns, every sample of 300 thousand (thorough: 40 million) compared; class 0 = frequency not in (0, sample rate), 2 = step rounds to zero; 6 frequency ratios at every sample rate from 1e-3 to 1e9 Hz (corner floats and a stride)",
            assumptions: vec!["step tolerance 1 + 1/2,000,000"],
            scenarios: with(vec![
                sweep("frequencies", "step for every frequency", &RC, move |t, p| Plan::stride(12 * (0x4a00_0000u64), pick(t, p, 1, 7, 61)), o01_freq, o01_show),
                corners("corners", &RC, 12, o01_freq, o01_show),
                corners("corner-rates", &RC, 6, o01_rate, o01_rate_show),
                sweep("rates", "every sample rate", &RC, move |t, p| Plan::stride(6 * 0x8000_0000, pick(t, p, 1, 23, 211)), o01_rate, o01_rate_show),
                sweep("long-runs", "every sample of long runs", &[Profile::Release], move |t, _| if t == Tier::Quick { Plan::all(16 * 12 * 3) } else { Plan(vec![]) }, o01_long_q, o01_long_show),
                sweep("longer-runs", "every sample of very long runs", &[Profile::Release], move |t, _| if t == Tier::Thorough { Plan::all(16 * 12 * 3) } else { Plan(vec![]) }, o01_long_t, o01_long_show),
                sweep("runs-checked", "every sample of long runs", &[Profile::Checked], |_, _| Plan::all(16 * 12 * 3), o01_long_q, o01_long_show),
            ], endurance(12, o01_endure, |n| format!("frequency choice {}", n))),
        },
        Prop {
            id: "O02",
            level: "model_checking",
            rule: "search: every history of samples (both read-outs) and frequency, sample rate and shift changes up to the depth, 4 alphabets, phase compared exactly with a model that steps like a fresh accumulator; the same through functional and wavetable oscillators, with waveform changes; class = operation; a change in the middle of a run with every value (corner floats and a stride) of shift, frequency, checked frequency, sample rate",
            assumptions: vec![],
            scenarios: vec![
                search::<PhAcc>("accumulator", "all call histories of the accumulator", &RC, move |t, p| bd(4, pick(t, p, 17, 13, 9), pick(t, p, 12_000_000, 4_000_000, 500_000))),
                search::<PhOsc>("oscillators", "all call histories of the oscillators", &RC, move |t, p| bd(4, pick(t, p, 17, 13, 9), pick(t, p, 12_000_000, 4_000_000, 300_000))),
                periodic::<PhAcc>("periodic-accumulator", &RC, 4, 4),
                periodic::<PhOsc>("periodic-oscillators", &RC, 4, 4),
                corners("corner-changes", &RC, CHANGES, o02_any, o02_any_show),
                sweep("changes", "every value of a change in the middle of a run", &RC, move |t, p| Plan::stride(CHANGES << 32, pick(t, p, 31, 1009, 10007)), o02_any, o02_any_show),
            ],
        },
        Prop {
            id: "O03",
            level: "exploration",
            rule: "complete enumeration of all 2^32 phases, set through the shift; and 4 x 2^24 running steps",
            assumptions: vec![],
            scenarios: vec![
                corners("corners", &RC, 1, o03_shift, |n| format!("phase {n}")),
                sweep("phases", "all phases", &RC, move |t, p| Plan::stride(N32, pick(t, p, 1, 1, 7)), o03_shift, |n| format!("phase {n}")),
                sweep("running", "all steps of a 2^24 Hz accumulator", &RC, move |t, p| Plan::stride(4 << 24, pick(t, p, 1, 1, 13)), o03_run, |n| format!("step {}*256, shift choice {}", n & 0xff_ffff, n >> 24)),
            ],
        },
        Prop {
            id: "O04",
            level: "exploration",
            rule: "complete enumeration of all 2^24 phases k/2^24 and of all floats in [0,1) from a user-supplied accumulator, for each waveform; phases of the built-in accumulator by shift and frequency; class = waveform",
            assumptions: vec![],
            scenarios: with(vec![
                sweep("grid", "all phases k/2^24", &RC, move |t, p| Plan::stride(4 << 24, pick(t, p, 1, 1, 13)), o04_grid, |n| format!("{} at {}/2^24", WAVE[(n % 4) as usize], n / 4)),
                sweep("floats", "all floats in [0,1)", &RC, move |t, p| Plan::stride(4 * top, pick(t, p, 1, 1, 17)), o04_stub, |n| format!("{} {}", WAVE[(n % 4) as usize], show_f32(n / 4))),
                corners("corners", &RC, 4, |n| if n / 4 < 0x3f80_0000 { o04_stub(n) } else { Ok(0) }, |n| format!("{} {}", WAVE[(n % 4) as usize], show_f32(n / 4))),
                corners("corner-shifts", &RC, 16, o04_soft, |n| format!("{} frequency choice {} shift {}", WAVE[(n % 4) as usize], n / 4 % 4, n / 16)),
                sweep("built-in", "built-in accumulator", &RC, move |t, p| Plan::stride(16 * N32, pick(t, p, 7, 61, 601)), o04_soft, |n| format!("{} frequency choice {} shift {}", WAVE[(n % 4) as usize], n / 4 % 4, n / 16)),
                sweep("default", "a new oscillator plays a sine", &RC, |_, _| Plan::all(65536), o04_default, |n| format!("phase {n}/65536")),
            ], endurance(8, o04_endure, |n| format!("{}, frequency choice {}", WAVE[(n % 4) as usize], n / 4))),
        },
        Prop {
            id: "O05",
            level: "exploration",
            rule: "every float (quick: a fixed stride, plus all floats around half the sample rate) as frequency at 12 sample rates; classes 1 accepted, 2 zero, 3 negative, 4 above half the sample rate, 0 = NaN",
            assumptions: vec!["within one part in a million of half the sample rate either verdict above it is accepted; NaN excluded"],
            scenarios: vec![
                sweep("frequencies", "every float", &RC, move |t, p| Plan::stride(12 * N32, pick(t, p, 1, 11, 101)).and(0, 120, 1).and(12 * 0x8000_0000, 12 * 0x8000_0000 + 120, 1), o05, o01_show),
                corners("corners", &RC, 12, o05, o01_show),
                sweep("nyquist", "floats around half the sample rate", &RC, |_, _| Plan::all(12 * 4096), |n| {
                    let sr = SR[(n % 12) as usize];
                    o05(n % 12 + 12 * ((sr / 2.0).to_bits() as u64 - 2048 + n / 12))
                }, |n| format!("sr {} choice {}", SR[(n % 12) as usize], n / 12)),
            ],
        },
        Prop {
            id: "O07",
            level: "model_checking",
            rule: "explicit-state search over a functional and a wavetable oscillator (9 tables) on recording user-supplied accumulators: every history of samples, waveform, frequency, sample rate and shift changes; at every sample what the accumulators were told and asked for is compared with the model, and the sample with the shape at the phase drawn; states are merged after eight draws (the phases repeat); classes: 1..4 samples by waveform, 5 table, 6 waveform, 7 frequency, 8 sample rate, 9 shift; every float through every setter",
            assumptions: vec![],
            scenarios: vec![
                search::<Driven>("histories", "all call histories on recording accumulators", &RC, |_, _| bd(9, 40, 1_000_000)),
                periodic::<Driven>("periodic", &RC, 9, 3),
                corners("corner-values", &RC, 1, o07_any, show_f32),
                sweep("values", "every float through the setters", &RC, move |t, p| Plan::stride(N32, pick(t, p, 1, 31, 307)), o07_any, show_f32),
            ],
        },
        Prop {
            id: "O06",
            level: "exploration",
            rule: "all phases k/2^24 for k = 0..2^24 inclusive and tiny floats, for 20 table lengths between 1 and 2^20, from a user-supplied accumulator; phases of the built-in accumulator by shift; tables lie between NaN guard zones; class 2 = last cell (interpolating with the first)",
            assumptions: vec!["position rounding of 3e-7 relative"],
            scenarios: with(vec![
                sweep("phases", "user-supplied accumulator", &RCA, move |t, p| Plan::stride(20 * ((1u64 << 24) + (1 << 24)), pick(t, p, 1, 3, 31)).and(20 * ((1 << 24) - 70000), 16 * ((1 << 24) + 1), 1).and(0, 160_000, 1), o06_stub, |n| format!("table length {} phase choice {}", TL[(n % 20) as usize], n / 20)),
                corners("corner-shifts", &RC, 40, o06_soft, |n| format!("table length {} frequency choice {} shift {}", TL[(n % 20) as usize], n / 20 % 2, n / 40)),
                sweep("built-in", "built-in accumulator", &RC, move |t, p| Plan::stride(40 * N32, pick(t, p, 7, 301, 3001)), o06_soft, |n| format!("table length {} frequency choice {} shift {}", TL[(n % 20) as usize], n / 20 % 2, n / 40)),
            ], endurance(40, o06_endure, |n| format!("table length {}, frequency choice {}", TL[(n % 20) as usize], n / 20))),
        },
    ]
}
fn main() {
    main_with(props())
}
