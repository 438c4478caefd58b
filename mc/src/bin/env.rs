//! E01..E06: the ADSR envelope.
use eatmc::*;
use embedded_audio_tools::envelopes::{AudioRateADSR, EnvelopeState};
use EnvelopeState::*;

#[derive(Clone, Copy, Debug)]
enum Op {
    Tick,
    Ticks(u32),
    On,
    Off,
    Reset,
    A(f32),
    D(f32),
    R(f32),
    S(f32),
    Slope(f32),
    Sr(f32),
    Query,
}
use Op::*;

/// attack, decay, sustain, release, slope, sample rate
type Par = [f32; 6];

#[derive(Clone, Copy)]
struct Model {
    st: EnvelopeState,
    sus: f32,
    slope: f32,
    sr: f32,
    // configured segment lengths in samples (attack, decay, release)
    n: [f64; 3],
    // output history: last output, previous output in this segment (NaN: none), cap since gate off (NaN: none)
    last: f32,
    prev: f32,
    cap: f32,
    // fraction of the running segment, as an interval (NaN: unknown), and its start level
    u: f64,
    start: f64,
}
fn samples(time: f32, sr: f32) -> f64 {
    (time as f64 * sr as f64).clamp(0.0, 2.0 * sr as f64).max(1e-9)
}
fn clamp_slope(s: f32) -> f32 {
    s.clamp(1.0 / 20.0, 20.0)
}
impl Model {
    fn new(p: &Par) -> Model {
        Model {
            st: Idle,
            sus: p[2].clamp(0.0, 1.0),
            slope: clamp_slope(p[4]),
            sr: p[5],
            n: [samples(p[0], p[5]), samples(p[1], p[5]), samples(p[3], p[5])],
            last: 0.0,
            prev: f32::NAN,
            cap: f32::NAN,
            u: f64::NAN,
            start: 0.0,
        }
    }
}
fn env(p: &Par) -> AudioRateADSR {
    AudioRateADSR::new(p[0], p[1], p[2], p[3], p[4], p[5])
}

/// How far the approximated power u^e may be below the true one, by exponent (it may exceed it by ABOVE only).
fn shape_tol(e: f64) -> f64 {
    if e <= 0.50001 {
        0.06
    } else if e <= 1.00001 {
        0.1
    } else if e <= 2.00001 {
        0.17
    } else {
        0.25
    }
}
/// Exponent of a segment: 1/slope in the attack, slope in decay and release.
fn exponent(st: EnvelopeState, s: f64) -> f64 {
    if st == Attack { 1.0 / s } else { s }
}

const ABOVE: f64 = 0.003;
/// The power u^e, with its tolerance, turned into the range of outputs from `start` to `end`; `u1 >= u` allows for
/// positions between the two.
fn shape_range(st: EnvelopeState, s: f64, u: f64, u1: f64, start: f64, end: f64) -> (f64, f64) {
    let e = exponent(st, s);
    let (lo, hi) = (u.powf(e) - shape_tol(e), (u1.powf(e) + ABOVE).min(1.0));
    let f = |p: f64| start + (end - start) * p;
    let (a, b) = (f(lo), f(hi));
    (a.min(b) - 1e-5, a.max(b) + 1e-5)
}

// modes
const BOUNDS: u8 = 1;
const STATES: u8 = 2;
const LIVE: u8 = 3;
/// as LIVE, but looking ahead only from every 128th call on (and the one after it): for very long runs
const LIVE_LONG: u8 = 103;
const MONO: u8 = 4;
const SHAPE: u8 = 5;

struct M<const MODE: u8> {
    e: AudioRateADSR,
    m: Model,
    par: Par,
    ops: Vec<Op>,
    calls: u32,
}
fn configs(mode: u8) -> Vec<(Par, Vec<Op>)> {
    let mode = mode % 100;
    let inf = f32::INFINITY;
    let gate = [Tick, On, Off, Reset];
    let mut v = vec![];
    let mut add = |p: Par, extra: &[Op]| {
        let mut o = gate.to_vec();
        o.extend(extra);
        v.push((p, o));
    };
    if mode == BOUNDS {
        for sr in [8.0f32, 1.0, 48000.0, 1e7] {
            for slope in [1.0f32, 0.05, 20.0, -3.0, 1e9, 0.3] {
                add([2.0 / sr, 0.0, 0.5, 3.0 / sr, slope, sr], &[Ticks(60), A(0.0), A(1.5 / sr), A(inf), D(0.0), D(7.0), R(0.0), R(1e-30), S(-1.0), S(2.0), S(0.3), Slope(0.0), Slope(inf), Slope(1.7)]);
                add([0.0, 2.5 / sr, -0.2, inf, slope, sr], &[Ticks(11), A(3.0 / sr), D(2.0 / sr), R(2.0 / sr), S(1.0), S(inf), S(-inf), Slope(-inf), Slope(20.0), Slope(1e-38), Sr(1.0), Sr(192000.0)]);
                add([1e30, 1e-38, 1.0, 1.0 / sr, slope, sr], &[Ticks(7), A(1.0 / sr), D(1e38), R(3.3 / sr), S(0.0), S(1e-30), Slope(0.7), Slope(5.0), Sr(sr * 2.0)]);
            }
        }
    } else if mode == STATES {
        for (i, slope) in [1.0f32, 0.5, 3.0, 20.0, 0.05, 0.2].into_iter().enumerate() {
            add([3.0 / 8.0, 2.0 / 8.0, [0.5, 0.0, 1.0][i % 3], 3.0 / 8.0, slope, 8.0], &[Query, A(0.0), A(5.0 / 8.0), D(0.0), D(4.0 / 8.0), R(0.0), R(5.0 / 8.0), S(0.25), S(1.0), S(0.0), Slope(2.0), Sr(16.0)]);
            add([0.0, 0.0, [0.7, 1.0, 0.1][i % 3], 0.0, slope, 8.0], &[Query, A(2.0 / 8.0), D(2.0 / 8.0), R(2.0 / 8.0), S(0.9), S(-5.0), S(5.0), Slope(0.3)]);
            add([2.0, 2.0, 0.3, 2.0, slope, 4.0], &[Ticks(3), Ticks(5)]);
        }
    } else if mode == LIVE {
        for slope in [1.0f32, 0.05, 0.5, 3.0, 20.0, 7.7] {
            for sus in [0.5f32, 0.0, 1.0, 0.93] {
                add([3.0 / 8.0, 2.0 / 8.0, sus, 3.0 / 8.0, slope, 8.0], &[A(0.0), A(1.0), D(9.0 / 8.0), R(1.0), R(0.0), S(0.25), Slope(2.0), Sr(16.0)]);
                add([9.0, 0.7, sus, 1.3, slope, 5.0], &[Ticks(4), A(0.3), D(9.0), R(9.0), S(0.8), Slope(0.1), Sr(2.0)]);
            }
        }
    } else if mode == MONO {
        for slope in [1.0f32, 0.5, 3.0, 20.0, 0.05, 0.2, 1.3, 6.0] {
            for sus in [0.5f32, 0.9, 0.0, 1.0] {
                add([5.0 / 8.0, 4.0 / 8.0, sus, 5.0 / 8.0, slope, 8.0], &[A(0.25), D(0.25), R(0.25), S(0.25), S(0.8), Slope(2.0)]);
                add([2.0, 1.7, sus, 1.9, slope, 4.0], &[Ticks(3), S(1.0), S(0.1), Slope(0.4)]);
            }
        }
    } else {
        for slope in [1.0f32, 0.5, 2.0, 4.0, 0.25, 20.0, 0.05] {
            for sus in [0.5f32, 0.0, 0.9] {
                add([1.0, 1.0, sus, 1.0, slope, 8.0], &[A(0.5), D(0.5), R(0.5), S(0.25), Slope(3.0), Slope(0.4), Slope(1000.0)]);
                add([1.25, 0.75, sus, 1.5, slope, 8.0], &[Ticks(2), Slope(0.0), Slope(1.0)]);
            }
        }
    }
    v
}

impl<const MODE: u8> M<MODE> {
    fn tick(&mut self) -> Result<u8, Box<Fail>> {
        let before = self.m.st;
        let out = self.e.tick();
        let after = self.e.get_state();
        let m = &mut self.m;
        if MODE == BOUNDS {
            ensure!(out >= 0.0 && out <= 1.0, "tick in {before:?} = {out}");
        }
        if MODE == STATES {
            let ok = match (before, after) {
                (Idle, Idle) => out == 0.0,
                (Attack, Attack) | (Decay, Decay) | (Release, Release) => true,
                (Attack, Decay) => out == 1.0,
                (Decay, Sustain) => out == m.sus,
                (Sustain, Sustain) => out == m.sus,
                (Release, Idle) => out == 0.0,
                _ => false,
            };
            ensure!(ok, "tick moved {before:?} to {after:?} with output {out} (sustain level {})", m.sus);
        }
        if MODE == MONO {
            match before {
                Attack => ensure!(!(out < m.prev), "attack fell from {} to {out}", m.prev),
                Decay => ensure!(!(out > m.prev), "decay rose from {} to {out}", m.prev),
                Release => ensure!(!(out > m.prev), "release rose from {} to {out}", m.prev),
                _ => {}
            }
            ensure!(!(out > m.cap), "output {out} in {before:?} exceeds the last output before gate off, {}", m.cap);
            m.prev = if after == before { out } else if after == Decay { 1.0 } else { f32::NAN };
            m.last = out;
        }
        if MODE == SHAPE {
            let (k, end) = match before {
                Attack => (0, 1.0),
                Decay => (1, m.sus as f64),
                Release => (2, 0.0),
                _ => (3, 0.0),
            };
            if k < 3 && !m.u.is_nan() {
                m.u = (m.u + 1.0 / m.n[k]).min(1.0);
                let s = m.slope as f64;
                let (lo, hi) = shape_range(before, s, m.u, m.u, if k == 0 { 0.0 } else { m.start }, end);
                ensure!(out as f64 >= lo && out as f64 <= hi, "{before:?}, slope {s}, fraction {}: output {out}, shape between {lo} and {hi}", m.u);
            }
            match (before, after) {
                (Attack, Decay) => (m.u, m.start) = (0.0, 1.0),
                (a, b) if a != b => m.u = f64::NAN,
                _ => {}
            }
            m.last = out;
        }
        m.st = after;
        Ok(1 + before as u8)
    }
    /// A call that is to be ignored leaves no trace in anything that can happen afterwards (along three continuations).
    fn same_future(&self, without: AudioRateADSR, what: &str) -> Result<(), Box<Fail>> {
        for (name, plan) in [("ticks, on, ticks, off, ticks", [0, 1, 2]), ("on, ticks, off, ticks", [1, 2, 0]), ("reset, on, ticks, off, ticks", [3, 1, 2])] {
            let (mut a, mut b) = (snap(&without), snap(&self.e));
            for p in plan {
                for e in [&mut a, &mut b] {
                    match p {
                        1 => e.trigger_on(),
                        2 => e.trigger_off(),
                        3 => e.reset(),
                        _ => {}
                    }
                }
                for k in 0..6 {
                    let (x, y) = (a.tick(), b.tick());
                    ensure!(same(x, y) && a.get_state() == b.get_state(), "{what} in {:?} was not ignored: along \"{name}\" {k} ticks later {x} and {:?} without it, {y} and {:?} with it",
                        self.m.st, a.get_state(), b.get_state());
                }
            }
        }
        Ok(())
    }
    fn probe(&self) -> Result<(), Box<Fail>> {
        let mut e = snap(&self.e);
        let m = &self.m;
        let lim = |k: usize| (m.n[k].max(1.0) * 1.02 + 2.0) as usize;
        e.trigger_on();
        let max = lim(0) + lim(1);
        let mut k = 0;
        while e.get_state() != Sustain {
            e.tick();
            k += 1;
            ensure!(k <= max, "gate held from {:?}: still {:?} after {k} ticks (attack {} decay {} samples)", m.st, e.get_state(), m.n[0], m.n[1]);
        }
        for _ in 0..4 {
            e.tick();
            ensure!(e.get_state() == Sustain, "left sustain with the gate held");
        }
        for e in [e, { let mut f = snap(&self.e); f.trigger_on(); f.tick(); f }, snap(&self.e)] {
            let mut e = e;
            let from = e.get_state();
            e.trigger_off();
            let mut k = 0;
            while e.get_state() != Idle {
                e.tick();
                k += 1;
                ensure!(k <= lim(2), "gate off in {from:?}: still {:?} after {k} ticks (release {} samples)", e.get_state(), m.n[2]);
            }
            for _ in 0..3 {
                ensure!(e.tick() == 0.0 && e.get_state() == Idle, "left idle");
            }
        }
        Ok(())
    }
}
impl<const MODE: u8> Machine for M<MODE> {
    fn new(cfg: u64) -> Self {
        let (par, ops) = configs(MODE).swap_remove(cfg as usize);
        M { e: env(&par), m: Model::new(&par), par, ops, calls: 0 }
    }
    fn nops(&self) -> u64 {
        self.ops.len() as u64
    }
    fn step(&mut self, op: u64) -> Result<Option<u8>, Box<Fail>> {
        let op = self.ops[op as usize];
        let before = self.m.st;
        let mut want = before;
        let mut class = 10;
        match op {
            Tick => class = self.tick()?,
            Ticks(n) => {
                for _ in 0..n {
                    class = self.tick()?;
                }
            }
            On => {
                self.e.trigger_on();
                want = Attack;
                // a retrigger may start anywhere
                (self.m.u, self.m.start) = (if before == Idle { 0.0 } else { f64::NAN }, 0.0);
                (self.m.prev, self.m.cap) = (f32::NAN, f32::NAN);
                class = 6;
            }
            Off => {
                let without = snap(&self.e);
                self.e.trigger_off();
                if MODE == STATES && matches!(before, Idle | Release) {
                    self.same_future(without, "gate off")?;
                }
                if matches!(before, Attack | Decay | Sustain) {
                    want = Release;
                    (self.m.u, self.m.start) = (0.0, self.m.last as f64);
                    (self.m.prev, self.m.cap) = (f32::NAN, self.m.last);
                }
                class = 7;
            }
            Reset => {
                self.e.reset();
                want = Idle;
                self.m.u = f64::NAN;
                self.m.last = 0.0;
                (self.m.prev, self.m.cap) = (f32::NAN, f32::NAN);
                class = 8;
            }
            A(x) => {
                self.e.set_attack(x);
                self.m.n[0] = samples(x, self.m.sr);
            }
            D(x) => {
                self.e.set_decay(x);
                self.m.n[1] = samples(x, self.m.sr);
            }
            R(x) => {
                self.e.set_release(x);
                self.m.n[2] = samples(x, self.m.sr);
            }
            S(x) => {
                self.e.set_sustain(x);
                self.m.sus = x.clamp(0.0, 1.0);
            }
            Slope(x) => {
                self.e.set_slope(x);
                self.m.slope = clamp_slope(x);
            }
            Sr(x) => {
                self.e.set_sr(x);
                self.m.sr = x;
            }
            Query => {
                let without = snap(&self.e);
                self.e.get_state();
                if MODE == STATES {
                    self.same_future(without, "a state query")?;
                }
                class = 9;
            }
        }
        if class == 10 {
            self.m.prev = f32::NAN;
        }
        if !matches!(op, Tick | Ticks(_)) {
            let after = self.e.get_state();
            if MODE == STATES {
                ensure!(after == want, "{op:?} in {before:?} led to {after:?}, want {want:?}");
                ensure!(self.e.get_state() == after, "a state query changed the state");
            }
            self.m.st = after;
        }
        self.calls = self.calls.wrapping_add(1);
        if MODE == LIVE || MODE == LIVE_LONG && self.calls & 127 < 2 {
            self.probe()?;
        }
        Ok(Some(class))
    }
    fn save(&self, o: &mut Vec<u8>) {
        put(o, &self.e);
        let m = &self.m;
        o.push(m.st as u8);
        match MODE {
            BOUNDS => put(o, &m.sr),
            STATES => put(o, &(m.sus, m.sr)),
            LIVE | LIVE_LONG => {
                put(o, &m.n);
                put(o, &m.sr);
            }
            MONO => {
                put(o, &m.last);
                put(o, &m.prev);
                put(o, &m.cap);
            }
            _ => {
                put(o, &m.u);
                put(o, &m.start);
                put(o, &m.n);
                put(o, &m.sus);
                put(o, &m.last);
                put(o, &m.slope);
            }
        }
    }
    fn load(&mut self, s: &[u8]) {
        // look ahead from the next calls
        self.calls = 127;
        let mut r = Reader(s);
        r.get(&mut self.e);
        let m = &mut self.m;
        let mut st = 0u8;
        r.get(&mut st);
        m.st = [Idle, Attack, Decay, Release, Sustain].into_iter().find(|s| *s as u8 == st).unwrap();
        match MODE {
            BOUNDS => r.get(&mut m.sr),
            STATES => {
                let mut p = (0f32, 0f32);
                r.get(&mut p);
                (m.sus, m.sr) = p;
            }
            LIVE | LIVE_LONG => {
                r.get(&mut m.n);
                r.get(&mut m.sr);
            }
            MONO => {
                r.get(&mut m.last);
                r.get(&mut m.prev);
                r.get(&mut m.cap);
            }
            _ => {
                r.get(&mut m.u);
                r.get(&mut m.start);
                r.get(&mut m.n);
                r.get(&mut m.sus);
                r.get(&mut m.last);
                r.get(&mut m.slope);
            }
        }
    }
    fn opname(&self, op: u64) -> String {
        format!("{:?}", self.ops[op as usize])
    }
    fn cfgname(&self) -> String {
        format!("[attack,decay,sustain,release,slope,sr]={:?}", self.par)
    }
}

// ---------------------------------------------------------------- E01 sweep: every float as a parameter
fn drive(e: &mut AudioRateADSR, what: &str) -> Result<(), Box<Fail>> {
    let t = |e: &mut AudioRateADSR, n: usize| -> Result<(), Box<Fail>> {
        for k in 0..n {
            let o = e.tick();
            ensure!(o >= 0.0 && o <= 1.0, "{what}: output {o} at tick {k} in {:?}", e.get_state());
        }
        Ok(())
    };
    e.trigger_on();
    t(e, 3)?;
    e.trigger_off();
    t(e, 2)?;
    e.trigger_on();
    t(e, 4)?;
    e.trigger_off();
    t(e, 4)
}
fn e01_float(n: u64) -> Res {
    let x = f32::from_bits((n / 8) as u32);
    if x.is_nan() {
        return Ok(0);
    }
    let p: Par = match n % 8 {
        0 if x >= 0.0 => [x, 0.1, 0.5, 0.1, 1.5, 10.0],
        1 if x >= 0.0 => [0.1, x, 0.5, 0.1, 0.7, 10.0],
        2 if x >= 0.0 => [0.1, 0.1, 0.5, x, 3.0, 10.0],
        3 => [0.1, 0.1, x, 0.2, 1.0, 10.0],
        4 => [0.3, 0.2, 0.4, 0.2, x, 10.0],
        5 if x >= 1.0 && x.is_finite() => [2.0 / x, 0.001, 0.4, 1.0 / x, 2.0, x],
        6 => {
            // through the setters, while running
            let mut e = env(&[0.2, 0.2, 0.5, 0.2, 1.0, 10.0]);
            e.trigger_on();
            e.tick();
            e.set_slope(x);
            e.set_sustain(x);
            if x >= 0.0 {
                e.set_attack(x);
                e.set_decay(x);
                e.set_release(x);
            }
            drive(&mut e, "after setters")?;
            return Ok(2);
        }
        7 if x >= 0.0 => [x, x, x, x, x, 48000.0],
        _ => return Ok(0),
    };
    let mut e = env(&p);
    drive(&mut e, "constructor")?;
    Ok(1)
}
/// Every combination of extreme parameters, by constructor or by setter, through all states.
const X_T: [f32; 7] = [0.0, 1e-38, 0.4, 2.5, 7.0, 1e30, f32::INFINITY];
const X_S: [f32; 10] = [-f32::INFINITY, -1.0, -1e-30, 0.0, 0.3, 1.0, 1.0000001, 1.5, 1e30, f32::INFINITY];
const X_SL: [f32; 10] = [-f32::INFINITY, -2.0, 0.0, 0.05, 0.3, 1.0, 2.0, 20.0, 1e30, f32::INFINITY];
const X_SR: [f32; 5] = [1.0, 8.0, 48000.0, 1e7, f32::MAX];
const NX: u64 = 7 * 7 * 7 * 10 * 10 * 5 * 3;
fn e01_product(n: u64) -> Res {
    let mut x = Mix(n);
    let (at, de, re) = (*x.of(&X_T), *x.of(&X_T), *x.of(&X_T));
    let (su, sl, sr) = (*x.of(&X_S), *x.of(&X_SL), *x.of(&X_SR));
    let how = x.pick(3);
    let (at, de, re) = (at / sr, de / sr, re / sr);
    let mut e = if how == 0 { env(&[at, de, su, re, sl, sr]) } else { env(&[1.0 / sr, 1.0 / sr, 0.5, 1.0 / sr, 1.0, if how == 1 { sr } else { 10.0 }]) };
    let set = |e: &mut AudioRateADSR| {
        e.set_sr(sr);
        e.set_slope(sl);
        e.set_sustain(su);
        e.set_attack(at);
        e.set_decay(de);
        e.set_release(re);
    };
    if how == 1 {
        set(&mut e);
    }
    e.trigger_on();
    for k in 0..24 {
        if how == 2 && k == 2 {
            set(&mut e);
        }
        match k {
            14 | 20 => e.trigger_off(),
            18 => e.trigger_on(),
            _ => {}
        }
        let o = e.tick();
        ensure!(o >= 0.0 && o <= 1.0, "output {o} at tick {k} in {:?}", e.get_state());
    }
    Ok(1)
}
fn e01_product_show(n: u64) -> String {
    let mut x = Mix(n);
    let (at, de, re) = (*x.of(&X_T), *x.of(&X_T), *x.of(&X_T));
    let (su, sl, sr) = (*x.of(&X_S), *x.of(&X_SL), *x.of(&X_SR));
    format!("attack {at}/sr decay {de}/sr release {re}/sr sustain {su} slope {sl} sr {sr} how {}", x.pick(3))
}
fn e01_show(n: u64) -> String {
    format!("parameter {} = {}", ["attack", "decay", "release", "sustain", "slope", "sr", "all setters", "all"][(n % 8) as usize], show_f32(n / 8))
}

// ---------------------------------------------------------------- E03 timing grid
const E_SR: [f32; 8] = [48000.0, 8000.0, 44100.0, 100.0, 1000.0, 96000.0, 192000.0, 10.0];
const E_N: [f64; 26] = [1.0, 2.0, 3.0, 4.0, 5.0, 7.0, 10.0, 20.0, 16.5, 33.3, 48.0, 64.0, 100.0, 199.0, 256.0, 441.0, 480.0, 1000.0, 2400.0, 4800.0, 9999.0, 16000.0, 44100.0, 88200.0, 96000.0, 384000.0];
const E_SL: [f32; 9] = [1.0, 0.5, 0.2, 0.25, 2.0, 3.0, 5.0, 0.7, 1.4];
const E_SU: [f32; 8] = [0.5, 0.0, 0.3, 0.8, 0.9, 0.1, 0.15, 0.2];
/// How the times are set: constructor, setters, setters after a change of the sample rate (from half, double, other),
/// before such a change.
const E_HOW: u64 = 6;
fn count(e: &mut AudioRateADSR, st: EnvelopeState, lim: usize) -> usize {
    let mut k = 0;
    while e.get_state() == st && k < lim {
        e.tick();
        k += 1;
    }
    k
}
fn e03_time(n: u64) -> Res {
    let mut x = Mix(n);
    let sl = *x.of(&E_SL);
    let su = *x.of(&E_SU);
    let sr = *x.of(&E_SR);
    let ns = *x.of(&E_N);
    let how = x.pick(E_HOW);
    if ns > 2.0 * sr as f64 {
        return Ok(0);
    }
    let t = (ns / sr as f64) as f32;
    let check = |what: &str, k: usize| -> Result<(), Box<Fail>> {
        ensure!((k as f64 - ns).abs() <= f64::max(1.0, 0.02 * ns), "{what} of {t} s at {sr} Hz ({ns} samples) took {k} ticks (slope {sl}, sustain {su})");
        Ok(())
    };
    let lim = (ns * 3.0) as usize + 50;
    for seg in 0..3 {
        let sr0 = [sr, sr, sr / 2.0, sr * 2.0, 31250.0, sr][how as usize];
        let other = 3.0 / sr0;
        let mut p = [other, other, su, other, sl, sr0];
        if how == 0 {
            p[[0, 1, 3][seg]] = t;
        }
        let mut e = env(&p);
        if how > 1 && how < 5 {
            e.set_sr(sr);
        }
        if how > 0 {
            [AudioRateADSR::set_attack, AudioRateADSR::set_decay, AudioRateADSR::set_release][seg](&mut e, t);
        }
        if how == 5 {
            e.set_sr(3.0 * sr);
        }
        e.trigger_on();
        let a = count(&mut e, Attack, lim);
        if seg == 0 {
            check("attack", a)?;
            continue;
        }
        let d = count(&mut e, Decay, lim);
        if seg == 1 {
            check("decay", d)?;
            continue;
        }
        ensure!(e.get_state() == Sustain, "not in sustain but {:?}", e.get_state());
        if su < 0.1 {
            // release from the attack peak instead
            e.reset();
            e.trigger_on();
            count(&mut e, Attack, lim);
        }
        e.trigger_off();
        let r = count(&mut e, Release, lim);
        check("release", r)?;
        ensure!(e.get_state() == Idle, "not idle but {:?}", e.get_state());
        // release from a level within the attack
        e.set_attack(20.0 / if how == 5 { 3.0 * sr } else { sr });
        e.trigger_on();
        let mut level = 0.0;
        while level < 0.1 {
            level = e.tick();
        }
        if e.get_state() == Attack {
            e.trigger_off();
            check("release from the attack", count(&mut e, Release, lim))?;
        }
    }
    Ok(1 + (ns > 1.0) as u8)
}
fn e03_show(n: u64) -> String {
    let mut x = Mix(n);
    format!("slope {} sustain {} sr {} samples {} set by choice {}", x.of(&E_SL), x.of(&E_SU), x.of(&E_SR), x.of(&E_N), x.pick(E_HOW))
}
/// Longer times act as two seconds, zero (or less than a sample) as one sample.
fn e03_clamp(n: u64) -> Res {
    let mut x = Mix(n);
    let sr = [10.0f32, 100.0, 48000.0, 8000.0][x.pick(4) as usize];
    let long = [2.1f32, 3.0, 10.0, 1e6, 1e30, f32::INFINITY, f32::MAX, 2.0001][x.pick(8) as usize];
    let sl = E_SL[x.pick(9) as usize];
    let setter = x.pick(2) == 1;
    let mk = |t: f32| {
        if setter {
            let mut e = env(&[0.1, 0.1, 0.5, 0.1, sl, sr]);
            e.set_attack(t);
            e.set_decay(t);
            e.set_release(t);
            e
        } else {
            env(&[t, t, 0.5, t, sl, sr])
        }
    };
    let (mut a, mut b) = (mk(long), mk(2.0));
    let per = 2 * sr as usize + 2;
    a.trigger_on();
    b.trigger_on();
    let mut rel = false;
    for k in 0..3 * per + 30 {
        if k == 2 * per + 10 {
            rel = true;
            a.trigger_off();
            b.trigger_off();
        }
        let (p, q) = (a.tick(), b.tick());
        ensure!(near(p, q as f64, 1e-3), "{long} s: {p} at tick {k}, but {q} with 2 s (released: {rel})");
    }
    ensure!(a.get_state() == Idle && b.get_state() == Idle, "{long} s: {:?} in the end", a.get_state());
    for t in [0.0f32, 0.3 / sr, 1e-38, 0.999 / sr] {
        let mut e = mk(t);
        e.trigger_on();
        ensure!(count(&mut e, Attack, 9) == 1 && count(&mut e, Decay, 9) == 1, "time {t} at {sr} Hz took more than a sample");
        e.trigger_off();
        ensure!(count(&mut e, Release, 9) == 1 && e.get_state() == Idle, "time {t} at {sr} Hz: release took more than a sample");
    }
    Ok(1)
}
/// Monotone segments and shapes on full-length segments: (slope, samples, sustain) grid.
fn slopes() -> Vec<f32> {
    let mut v = vec![1.0f32, 0.05, 20.0, 0.5, 2.0, 0.25, 4.0, 0.2, 5.0];
    for k in -24..=24 {
        v.push(20f64.powf(k as f64 / 24.0) as f32);
    }
    v
}
fn seg_case(n: u64, shape: bool) -> Res {
    let sl = slopes();
    let mut x = Mix(n);
    let slope = *x.of(&sl);
    let su = [0.5f32, 0.0, 0.9, 0.2, 1.0, 0.99][x.pick(6) as usize];
    let ns = [7usize, 2, 3, 5, 16, 50, 128, 333, 1000, 4800][x.pick(10) as usize];
    let early = x.pick(4) as usize; // gate off after early/4 of the attack; 0: after sustain
    let sr = 48000.0;
    let t = ns as f32 / sr;
    let mut e = env(&[t, t, su, t, slope, sr]);
    e.trigger_on();
    let mut prev = 0.0f32;
    let s = slope.clamp(0.05, 20.0) as f64;
    let mut k = 0;
    let mut start = 1.0f32;
    let mut st = Attack;
    let mut gate_at = if early == 0 { usize::MAX } else { ns * early / 4 };
    let mut total = 0;
    loop {
        if total == gate_at || (st == Sustain && st != Release) {
            e.trigger_off();
            gate_at = usize::MAX;
            st = Release;
            ensure!(e.get_state() == Release, "{:?} after gate off", e.get_state());
            start = prev;
            k = 0;
        }
        let o = e.tick();
        total += 1;
        k += 1;
        let u = (k as f64 / ns as f64).min(1.0);
        if shape {
            // two percent of slack in the position on long segments
            let u1 = if ns < 300 { u } else { (u * 1.02).min(1.0) };
            let u0 = if ns < 300 { u } else { (k as f64 - 1.0) / ns as f64 };
            let (a, b) = match st {
                Attack => (0.0, 1.0),
                Decay => (1.0, su as f64),
                _ => (start as f64, 0.0),
            };
            let (lo, hi) = shape_range(st, s, u0.min(1.0), u1, a, b);
            ensure!(o as f64 >= lo && o as f64 <= hi, "{st:?} slope {s} sustain {su}: output {o} at {u}, shape between {lo} and {hi}");
        } else {
            let ok = if st == Attack { o >= prev } else { o <= prev };
            ensure!(ok, "{st:?} slope {s} sustain {su} went from {prev} to {o} at tick {k} of {ns}");
            ensure!(st != Release || o <= start, "release output {o} above its start {start}");
        }
        prev = o;
        let now = e.get_state();
        if now != st {
            k = 0;
            if now == Idle {
                return Ok(1);
            }
            st = now;
        }
        ensure!(total < 10 * ns + 100, "segments do not end");
    }
}
fn mono_case(n: u64) -> Res {
    seg_case(n, false)
}
fn shape_case(n: u64) -> Res {
    seg_case(n, true)
}
fn seg_show(n: u64) -> String {
    let sl = slopes();
    let mut x = Mix(n);
    format!("slope {} sustain choice {} length choice {} early {}", x.of(&sl), x.pick(6), x.pick(10), x.pick(4))
}
/// Slopes beyond the limits act like the limits.
fn e05_clamp(n: u64) -> Res {
    let x = f32::from_bits(n as u32);
    if x.is_nan() || (x > 0.05 && x < 20.0) {
        return Ok(0);
    }
    let lim = if x <= 0.05 { 1.0 / 20.0 } else { 20.0 };
    let p = |s: f32| [0.5, 0.4, 0.3, 0.4, s, 8.0];
    let mut reference = env(&p(lim));
    let mut a = env(&p(x));
    let mut b = env(&p(1.0));
    b.set_slope(x);
    for e in [&mut reference, &mut a, &mut b] {
        e.trigger_on();
    }
    for k in 0..16 {
        if k == 10 {
            for e in [&mut reference, &mut a, &mut b] {
                e.trigger_off();
            }
        }
        let w = reference.tick();
        let (p, q) = (a.tick(), b.tick());
        ensure!(same(p, w) && same(q, w), "slope {x}: outputs {p} (constructor) and {q} (setter) at tick {k}, but {w} with slope {lim}");
    }
    Ok(1)
}

// ---------------------------------------------------------------- any float as one parameter, a whole note
const ANY: u64 = 24;
/// Parameters with one of them from all floats, and whether they are set by setters.
fn any_par(n: u64) -> Option<(Par, bool)> {
    let mut m = Mix(n);
    let which = m.pick(6) as usize;
    let mut p: Par = *m.of(&[[0.5, 0.375, 0.5, 0.625, 1.0, 8.0], [0.3, 0.25, 0.3, 0.11, 2.5, 30.0]]);
    let setters = m.pick(2) == 1;
    let x = f32::from_bits(m.0 as u32);
    if x.is_nan() || matches!(which, 0 | 1 | 3) && !(x >= 0.0) {
        return None;
    }
    if which == 5 {
        if !(x >= 1.0 && x <= 192_000.0) {
            return None;
        }
        p = [3.0 / x, 4.5 / x, p[2], 6.0 / x, p[4], x];
    }
    p[which] = x;
    Some((p, setters))
}
fn any_show(n: u64) -> String {
    match any_par(n) {
        Some((p, s)) => format!("[attack,decay,sustain,release,slope,sr]={p:?} by {}", if s { "setters" } else { "constructor" }),
        None => "outside the ranges".into(),
    }
}
fn any_env(p: &Par, setters: bool) -> AudioRateADSR {
    if !setters {
        return env(p);
    }
    let mut e = env(&[0.1, 0.2, 0.7, 0.3, 0.9, 100.0]);
    e.set_sr(p[5]);
    e.set_slope(p[4]);
    e.set_release(p[3]);
    e.set_sustain(p[2]);
    e.set_decay(p[1]);
    e.set_attack(p[0]);
    e
}
/// Gate on until sustain, two samples more, gate off until idle; judged as histories are.
fn any_note<const MODE: u8>(n: u64) -> Res {
    let Some((p, setters)) = any_par(n) else { return Ok(0) };
    let mut m = M::<MODE> { e: any_env(&p, setters), m: Model::new(&p), par: p, ops: vec![], calls: 0 };
    m.ops = vec![On, Off, Tick];
    m.step(0)?;
    let most = (m.m.n.iter().map(|n| n.max(1.0)).sum::<f64>() * 1.02) as usize + 12;
    let mut held = 0;
    for _ in 0..most {
        if m.m.st == Sustain {
            held += 1;
            if held == 3 {
                m.step(1)?;
            }
        }
        m.step(2)?;
        if m.m.st == Idle {
            m.step(2)?;
            break;
        }
    }
    ensure!(m.m.st == Idle, "still {:?} after {most} ticks", m.m.st);
    Ok(1 + setters as u8)
}
fn any_lengths(n: u64) -> Res {
    let Some((p, setters)) = any_par(n) else { return Ok(0) };
    let mut e = any_env(&p, setters);
    let want = Model::new(&p).n;
    let sus = p[2].clamp(0.0, 1.0);
    let exact = |k: usize, n: f64| (k as f64 - n).abs() <= f64::max(1.001, 0.02 * n);
    let lim = |k: usize| (want[k].max(1.0) * 1.02 + 3.0) as usize;
    let slopes = p[4] >= 0.2 && p[4] <= 5.0;
    e.trigger_on();
    let a = count(&mut e, Attack, lim(0));
    ensure!(exact(a, want[0].max(1.0)), "the attack of {} samples took {a} ticks or more", want[0]);
    let d = count(&mut e, Decay, lim(1));
    ensure!(d < lim(1), "the decay of {} samples took {d} ticks or more", want[1]);
    ensure!(!slopes || sus > 0.9 || exact(d, want[1].max(1.0)), "the decay of {} samples took {d} ticks", want[1]);
    ensure!(count(&mut e, Sustain, 4) == 4, "left sustain with the gate held");
    e.trigger_off();
    let r = count(&mut e, Release, lim(2));
    ensure!(r < lim(2) && e.get_state() == Idle, "the release of {} samples took {r} ticks or more", want[2]);
    ensure!(!slopes || sus < 0.1 || exact(r, want[2].max(1.0)), "the release of {} samples took {r} ticks", want[2]);
    Ok(1 + setters as u8)
}
/// A note cut short in any segment, reset, and again: as a newly built envelope plays it.
fn any_twin(n: u64) -> Res {
    let Some((p, setters)) = any_par(n) else { return Ok(0) };
    let mut e = any_env(&p, setters);
    for cut in [0, 2, 5, 10] {
        e.trigger_on();
        for k in 0..cut {
            e.tick();
            if k == 8 {
                e.trigger_off();
            }
        }
        e.reset();
        let mut new = env(&p);
        for k in 0..16 {
            if k == 0 || k == 13 {
                e.trigger_on();
                new.trigger_on();
            } else if k == 10 {
                e.trigger_off();
                new.trigger_off();
            }
            let (a, b) = (e.tick(), new.tick());
            ensure!(same(a, b) && e.get_state() == new.get_state(), "reset after {cut} ticks, {k} ticks on: {a} and {:?}, newly built {b} and {:?}", e.get_state(), new.get_state());
        }
        e.reset();
    }
    Ok(1 + setters as u8)
}
fn anys(corner: &'static str, name: &'static str, t: u64, r: u64, c: u64, case: fn(u64) -> Res) -> [Scenario; 2] {
    [
        corners(corner, &RC, ANY, case, any_show),
        sweep(name, "every float as one parameter, a whole note", &RC, move |tier, p| Plan::stride(ANY << 32, match (tier, p) { (Tier::Thorough, _) => t, (_, Profile::Release) => r, _ => c }), case, any_show),
    ]
}
fn ncfg(mode: u8) -> u64 {
    configs(mode).len() as u64
}
/// Holding sustain, and staying idle, for a very long time; then a note like any other.
fn e02_endure(n: u64, steps: u64) -> Res {
    let su = [0.5f32, 1.0, 0.0, 0.3][(n % 4) as usize];
    let idle_first = n / 4 == 1;
    let mut e = env(&[3.0 / 48.0, 2.0 / 48.0, su, 4.0 / 48.0, 1.0, 48.0]);
    if !idle_first {
        e.trigger_on();
        for _ in 0..50 {
            e.tick();
        }
        ensure!(e.get_state() == Sustain, "no sustain after 50 ticks: {:?}", e.get_state());
    }
    let (st, v) = if idle_first { (Idle, 0.0) } else { (Sustain, su) };
    for s in 0..steps {
        let g = e.tick();
        ensure!(g == v, "after {s} ticks in {st:?}: {g}, want {v}");
        if s & 0xfff == 0 {
            ensure!(e.get_state() == st, "after {s} ticks in {st:?}: {:?}", e.get_state());
            pulse();
        }
    }
    if idle_first {
        e.trigger_on();
        let a = count(&mut e, Attack, 50);
        ensure!((a as i64 - 3).abs() <= 1, "attack of 3 samples took {a} ticks");
    } else {
        e.trigger_off();
        ensure!(e.get_state() == Release, "gate off after {steps} ticks of sustain: {:?}", e.get_state());
        let r = count(&mut e, Release, 50);
        ensure!(r <= 6, "release of 4 samples took {r} ticks");
    }
    ensure!(!matches!(e.get_state(), Attack | Release), "{:?}", e.get_state());
    Ok(1 + idle_first as u8)
}
/// Notes in a row: each is the same as the first one, bit for bit.
fn e06_endure(n: u64, steps: u64) -> Res {
    let p = [[3.0 / 48.0, 2.0 / 48.0, 0.5, 4.0 / 48.0, 1.0, 48.0], [0.01, 0.02, 0.7, 0.03, 2.5, 1000.0], [0.0, 0.0, 0.3, 0.0, 1.0, 48000.0], [0.001, 0.5, 0.2, 0.7, 0.4, 1000.0]][(n % 4) as usize];
    // gate on for `held` ticks (which may end any segment early), then off until idle
    let held = [1usize, 4, 17, 60][(n / 4) as usize];
    let mut e = env(&p);
    let note = |e: &mut AudioRateADSR, out: &mut Vec<f32>| {
        out.clear();
        e.trigger_on();
        for _ in 0..held {
            out.push(e.tick());
        }
        e.trigger_off();
        for _ in 0..5000 {
            if e.get_state() == Idle {
                break;
            }
            out.push(e.tick());
        }
        out.push(e.tick());
    };
    let (mut first, mut this) = (vec![], vec![]);
    note(&mut e, &mut first);
    let mut s = first.len() as u64;
    let mut k = 1u64;
    while s < steps {
        note(&mut e, &mut this);
        if this != first {
            let at = this.iter().zip(&first).position(|(a, b)| a != b).unwrap_or(this.len().min(first.len()));
            ensure!(false, "note {k} is not like the first one: sample {at} of {}: {:?}, then {:?}", first.len(), this.get(at), first.get(at));
        }
        s += this.len() as u64;
        k += 1;
        if k & 0xff == 0 {
            pulse();
        }
    }
    Ok(1)
}
fn bd(cfgs: u64, depth: u64, max: u64) -> Bound {
    Bound { cfgs, depth: depth as usize, max_states: max as usize }
}
// ---------------------------------------------------------------- E06
/// Next to the envelope under test runs a twin that was newly built when the envelope was last idle.
struct Twin {
    e: AudioRateADSR,
    twin: AudioRateADSR,
    /// attack, decay, release with the sample rate in force when set; sustain, slope; sample rate
    p: ([(f32, f32); 3], f32, f32, f32),
    cfg: u64,
    ops: Vec<Op>,
}
fn rebuilt(p: &([(f32, f32); 3], f32, f32, f32)) -> AudioRateADSR {
    let mut e = AudioRateADSR::new(p.0[0].0, p.0[1].0, p.1, p.0[2].0, p.2, p.0[0].1);
    e.set_sr(p.0[1].1);
    e.set_decay(p.0[1].0);
    e.set_sr(p.0[2].1);
    e.set_release(p.0[2].0);
    e.set_sr(p.3);
    e
}
const TWINS: u64 = 24;
impl Machine for Twin {
    fn new(cfg: u64) -> Self {
        let slope = [1.0f32, 0.5, 3.0, 20.0, 0.05, 1.7][cfg as usize % 6];
        let (par, extra): (Par, Vec<Op>) = match cfg / 6 {
            0 => ([2.0 / 8.0, 2.0 / 8.0, 0.5, 2.0 / 8.0, slope, 8.0], vec![A(0.5), D(0.125), R(0.5), S(0.25)]),
            1 => ([1.0 / 8.0, 3.0 / 8.0, 0.8, 3.0 / 8.0, slope, 8.0], vec![Slope(2.0), Sr(4.0), A(0.25), R(1.0)]),
            2 => ([0.0, 0.0, 0.0, 0.0, slope, 8.0], vec![S(1.0), S(-1.0), R(0.25), Ticks(3)]),
            _ => ([1.0, 1.5, 0.3, 1.0, slope, 5.0], vec![Ticks(2), Ticks(7), S(0.6), D(0.4)]),
        };
        let mut ops = vec![Tick, On, Off, Reset, Query];
        ops.extend(extra);
        let sr = par[5];
        let p = ([(par[0], sr), (par[1], sr), (par[3], sr)], par[2], par[4], sr);
        Twin { e: env(&par), twin: rebuilt(&p), p, cfg, ops }
    }
    fn nops(&self) -> u64 {
        self.ops.len() as u64
    }
    fn step(&mut self, op: u64) -> Result<Option<u8>, Box<Fail>> {
        let op = self.ops[op as usize];
        let p = &mut self.p;
        let mut class = 2;
        let before = self.e.get_state();
        match op {
            A(x) => p.0[0] = (x, p.3),
            D(x) => p.0[1] = (x, p.3),
            R(x) => p.0[2] = (x, p.3),
            S(x) => p.1 = x,
            Slope(x) => p.2 = x,
            Sr(x) => p.3 = x,
            _ => class = 1,
        }
        for k in 0..if let Ticks(n) = op { n } else { 1 } {
            let [a, b] = [&mut self.e, &mut self.twin].map(|e| {
                let mut out = 0.0;
                match op {
                    Tick | Ticks(_) => out = e.tick(),
                    On => e.trigger_on(),
                    Off => e.trigger_off(),
                    Reset => e.reset(),
                    A(x) => e.set_attack(x),
                    D(x) => e.set_decay(x),
                    R(x) => e.set_release(x),
                    S(x) => e.set_sustain(x),
                    Slope(x) => e.set_slope(x),
                    Sr(x) => e.set_sr(x),
                    Query => {}
                }
                (out, e.get_state())
            });
            ensure!(same(a.0, b.0) && a.1 == b.1, "{op:?} in {before:?} (call {k}): {} and {:?}; an envelope newly built when this one was last idle: {} and {:?}", a.0, a.1, b.0, b.1);
        }
        if self.e.get_state() == Idle {
            self.twin = rebuilt(&self.p);
            class += 2;
        }
        Ok(Some(class))
    }
    fn save(&self, o: &mut Vec<u8>) {
        put(o, &self.e);
        put(o, &self.twin);
        put(o, &self.p);
    }
    fn load(&mut self, s: &[u8]) {
        let mut r = Reader(s);
        r.get(&mut self.e);
        r.get(&mut self.twin);
        r.get(&mut self.p);
    }
    fn opname(&self, op: u64) -> String {
        format!("{:?}", self.ops[op as usize])
    }
    fn cfgname(&self) -> String {
        format!("envelope setting {}", self.cfg)
    }
}

fn props() -> Vec<Prop> {
    let pick = |t: Tier, p: Profile, a: u64, b: u64, c: u64| match (t, p) {
        (Tier::Thorough, _) => a,
        (_, Profile::Release) => b,
        _ => c,
    };
    const N32: u64 = 1 << 32;
    let nseg = slopes().len() as u64 * 6 * 10 * 4;
    vec![
        Prop {
            id: "E01",
            level: "model_checking",
            rule: "search: every history of tick, bursts of ticks, gate on/off, reset and parameter changes (extreme values) up to the depth for 72 constructor settings (sample rates 1..1e7, slopes -3..1e9, times 0..infinity); sweep: floats in every parameter position (quick: every 997th of all 2^32, thorough: every 53rd of value x position), driven through two gates; every combination of 7x7x7 times, 10 sustains, 10 slopes and 5 sample rates, by constructor and setters; class 0 = value outside the property's domain",
            assumptions: vec!["parameters that are not NaN, times not negative, sample rate finite and at least 1"],
            scenarios: vec![
                search::<M<BOUNDS>>("histories", "all call histories", &RC, move |t, p| bd(ncfg(BOUNDS), pick(t, p, 9, 7, 6), pick(t, p, 3_000_000, 600_000, 100_000))),
                periodic::<M<BOUNDS>>("periodic", &RC, ncfg(BOUNDS), 4),
                sweep("extremes", "every combination of extreme parameters", &RC, move |t, p| Plan::stride(NX, pick(t, p, 1, 1, 7)), e01_product, e01_product_show),
                corners("corner-parameters", &RC, 8, e01_float, e01_show),
                sweep("parameters", "every float as parameter", &RC, move |t, p| Plan::stride(8 * N32, pick(t, p, 5, 53, 499)), e01_float, e01_show),
            ],
        },
        Prop {
            id: "E02",
            level: "model_checking",
            rule: "search: every history of gate, reset, tick, query and parameter calls up to the depth for 18 settings; after each call the reported state (and output on transitions) is compared with the state machine; classes 1..5 tick in idle/attack/decay/release/sustain, 6 on, 7 off, 8 reset, 9 query, 10 setter; whole notes with one parameter at a time from corner floats (12 significant bits, constants, decimals, rates) and a stride of all floats, by constructor and by setters",
            assumptions: vec![],
            scenarios: with(vec![search::<M<STATES>>("histories", "all call histories", &RC, move |t, p| bd(ncfg(STATES), pick(t, p, 12, 10, 8), pick(t, p, 8_000_000, 2_000_000, 200_000))), periodic::<M<STATES>>("periodic", &RC, ncfg(STATES), 4)], endurance(8, e02_endure, |n| format!("sustain choice {}, {}", n % 4, ["sustain", "idle"][(n / 4) as usize]))).into_iter().chain(anys("corner-notes", "notes", 101, 2003, 20011, any_note::<STATES>)).collect(),
        },
        Prop {
            id: "E03",
            level: "model_checking",
            rule: "search: every call history up to the depth for 48 settings; from every reached state (copied) gate on must lead to sustain and gate off to idle within the configured number of samples, and stay there; sweeps: segment lengths in ticks on a grid of 9 slopes x 8 sustains x 8 sample rates x 26 lengths, by constructor, by setter, after and before changes of the sample rate; clamping of long and short times; whole notes with one parameter at a time from corner floats (12 significant bits, constants, decimals, rates) and a stride of all floats, by constructor and by setters",
            assumptions: vec!["times are set at the sample rate in force"],
            scenarios: vec![
                search::<M<LIVE>>("liveness", "every reachable state leads to sustain / idle in time", &RC, move |t, p| bd(ncfg(LIVE), pick(t, p, 10, 8, 6), pick(t, p, 1_000_000, 60_000, 20_000))),
                periodic::<M<LIVE_LONG>>("periodic", &RC, ncfg(LIVE), 4),
                sweep("lengths", "ticks per segment", &RC, move |t, p| Plan::stride(9 * 8 * 8 * 26 * E_HOW, pick(t, p, 1, 1, 7)), e03_time, e03_show),
                sweep("clamping", "longer than two seconds and shorter than a sample", &RC, |_, _| Plan::all(4 * 8 * 9 * 2), e03_clamp, |n| format!("choices {n}: sr {}, long {}, slope {}, setter {}", n % 4, n / 4 % 8, n / 32 % 9, n / 288)),
            ].into_iter().chain(anys("corner-lengths", "any-length", 101, 2003, 20011, any_lengths)).collect(),
        },
        Prop {
            id: "E04",
            level: "model_checking",
            rule: "search: every call history up to the depth for 64 settings with the running extremum per segment and the cap since gate off as model state; sweep: full segments for 58 slopes x 6 sustains x 10 lengths x 4 release points; whole notes with one parameter at a time from corner floats (12 significant bits, constants, decimals, rates) and a stride of all floats, by constructor and by setters",
            assumptions: vec![],
            scenarios: vec![
                search::<M<MONO>>("histories", "all call histories", &RC, move |t, p| bd(ncfg(MONO), pick(t, p, 13, 11, 8), pick(t, p, 4_000_000, 1_000_000, 100_000))),
                periodic::<M<MONO>>("periodic", &RC, ncfg(MONO), 4),
                sweep("segments", "every output of full segments", &RC, move |t, p| Plan::stride(nseg, pick(t, p, 1, 1, 7)), mono_case, seg_show),
            ].into_iter().chain(anys("corner-notes", "notes", 101, 2003, 20011, any_note::<MONO>)).collect(),
        },
        Prop {
            id: "E05",
            level: "model_checking",
            rule: "search: every call history up to the depth for 42 settings with the exact segment fraction as model state (unknown after a retrigger), including slope and time changes within segments; sweeps: full segments for 58 slopes; every float (quick: every 97th) as out-of-range slope compared bit for bit with the limit; whole notes with one parameter at a time from corner floats (12 significant bits, constants, decimals, rates) and a stride of all floats, by constructor and by setters",
            assumptions: vec!["tolerance of the approximated power by exponent e: at most 0.003 above; at most 0.06 (e <= 0.5), 0.1 (e <= 1), 0.17 (e <= 2), 0.25 (e > 2) below"],
            scenarios: vec![
                search::<M<SHAPE>>("histories", "all call histories", &RC, move |t, p| bd(ncfg(SHAPE), pick(t, p, 13, 11, 8), pick(t, p, 4_000_000, 1_000_000, 100_000))),
                periodic::<M<SHAPE>>("periodic", &RC, ncfg(SHAPE), 4),
                sweep("segments", "every output of full segments", &RC, move |t, p| Plan::stride(nseg, pick(t, p, 1, 1, 7)), shape_case, seg_show),
                corners("corner-slopes", &RC, 1, e05_clamp, show_f32),
                sweep("slope-limits", "slopes beyond 1/20..20", &RC, move |t, p| Plan::stride(N32, pick(t, p, 1, 31, 307)), e05_clamp, show_f32),
            ].into_iter().chain(anys("corner-notes", "notes", 101, 2003, 20011, any_note::<SHAPE>)).collect(),
        },
        Prop {
            id: "E06",
            level: "model_checking",
            rule: "search: every call history up to the depth (complete where it closes) for 24 settings, in lockstep with a twin that is newly built from the parameters in force whenever the envelope is idle; outputs bit for bit and states; classes 1 gate/tick, 2 parameter, 3 and 4 the same ending idle; notes cut short by a reset against a newly built envelope, one parameter at a time from corner floats (12 significant bits, constants, decimals, rates) and a stride of all floats",
            assumptions: vec![],
            scenarios: with(vec![search::<Twin>("twins", "all call histories", &RC, move |t, p| bd(TWINS, pick(t, p, 18, 14, 11), pick(t, p, 4_000_000, 500_000, 150_000))), periodic::<Twin>("periodic", &RC, TWINS, 4)], endurance(16, e06_endure, |n| format!("parameter choice {}, gate choice {}", n % 4, n / 4))).into_iter().chain(anys("corner-twins", "any-twin", 101, 2003, 20011, any_twin)).collect(),
        },
    ]
}
fn main() {
    main_with(props())
}
