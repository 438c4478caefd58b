//! B01..B04: biquad filters and their designs.
use eatmc::*;
use embedded_audio_tools::filter::{Biquad, BiquadCoeffs, Butterworth};
use std::f64::consts::PI;

type Co = BiquadCoeffs<Butterworth>;
type C5 = [f64; 5];

fn bd(cfgs: u64, depth: usize, max: usize) -> Bound {
    Bound { cfgs, depth, max_states: max }
}
fn read(c: &Co) -> [f32; 5] {
    [c.b0, c.b1, c.b2, c.a1, c.a2]
}
fn f64s(c: &Co) -> C5 {
    read(c).map(|x| x as f64)
}
fn set(c: &mut Co, v: &[f32; 5]) {
    c.b0 = v[0];
    c.b1 = v[1];
    c.b2 = v[2];
    c.a1 = v[3];
    c.a2 = v[4];
}

// ---------------------------------------------------------------- B01
const SETS: [[[f32; 5]; 3]; 4] = [
    [[1.0, 0.0, 0.0, 0.0, 0.0], [0.5, 0.25, 0.125, -0.5, 0.25], [0.0, 1.0, 0.0, 0.75, -0.125]],
    [[0.3, 0.6, 0.3, -0.9, 0.4], [0.0, 0.0, 1.0, 0.0, 0.0], [1.0, -2.0, 1.0, 0.2, 0.7]],
    [[0.9, -1.7, 0.85, -1.8, 0.9], [0.25, 0.5, 0.25, 0.0, 0.5], [0.0, 0.0, 0.0, 0.0, 0.0]],
    [[-1.0, 0.5, -0.25, 1.5, 0.9], [0.1, 0.2, 0.3, 0.4, 0.5], [2.0, 0.0, -2.0, -0.4, -0.3]],
];
const XIN: [f32; 3] = [1.0, 0.0, -0.75];
/// SYNC: for very long runs, the model goes on from the (checked) outputs, so that roundings do not add up.
struct Bq<const SYNC: bool> {
    q: Biquad<Butterworth>,
    c: C5,
    // contributions of earlier samples to the next two outputs
    z: [f64; 2],
    cfg: usize,
    scale: f32,
}
/// Signal levels: the difference equation holds for every level, from -360 dB to +240 dB.
const SCALES: [f32; 3] = [1.0, 8.673617379884035e-19, 1099511627776.0];
impl<const SYNC: bool> Machine for Bq<SYNC> {
    fn new(cfg: u64) -> Self {
        let scale = SCALES[cfg as usize / 4];
        let cfg = cfg as usize % 4;
        let mut q = Biquad::new(BiquadCoeffs::<Butterworth>::new());
        set(&mut q.coeffs, &SETS[cfg][1]);
        let c = f64s(&q.coeffs);
        Bq { q, c, z: [0.0; 2], cfg, scale }
    }
    fn nops(&self) -> u64 {
        6
    }
    fn step(&mut self, op: u64) -> Result<Option<u8>, Box<Fail>> {
        if op < 3 {
            let x = (XIN[op as usize] * self.scale) as f64;
            let y = self.c[0] * x + self.z[0];
            if SYNC && y.abs() > 1e30 {
                return Ok(None);
            }
            let g = self.q.process(x as f32);
            let f = if SYNC { g as f64 } else { y };
            self.z = [self.c[1] * x - self.c[3] * f + self.z[1], self.c[2] * x - self.c[4] * f];
            ensure!(near(g, y, 4e-6 * (self.scale as f64 + y.abs() + self.z[0].abs() + self.z[1].abs())), "process({x}) = {g}, want {y}");
            Ok(Some(1))
        } else {
            let s = &SETS[self.cfg][op as usize - 3];
            set(&mut self.q.coeffs, s);
            self.c = s.map(|x| x as f64);
            Ok(Some(2))
        }
    }
    fn save(&self, o: &mut Vec<u8>) {
        put(o, &self.q);
        put(o, &self.c);
        put(o, &self.z);
    }
    fn load(&mut self, s: &[u8]) {
        let mut r = Reader(s);
        r.get(&mut self.q);
        r.get(&mut self.c);
        r.get(&mut self.z);
    }
    fn opname(&self, op: u64) -> String {
        if op < 3 {
            format!("process({})", XIN[op as usize])
        } else {
            format!("coefficients {:?}", SETS[self.cfg][op as usize - 3])
        }
    }
    fn cfgname(&self) -> String {
        format!("biquad, signal scale {}", self.scale)
    }
}
/// Fixed coefficients from a grid, every ternary input of 7 samples, against the difference equation.
const GRID: [f32; 5] = [0.0, 1.0, -0.5, 0.75, -1.5];
fn b01_grid(n: u64) -> Res {
    let mut x = Mix(n);
    let c: [f32; 5] = std::array::from_fn(|_| *x.of(&GRID));
    let mut q = Biquad::new(BiquadCoeffs::<Butterworth>::new());
    let pat = x.pick(243);
    let level = *x.of(&SCALES);
    set(&mut q.coeffs, &c);
    let c = c.map(|x| x as f64);
    let (mut xs, mut ys) = (vec![], vec![]);
    let mut m = Mix(pat);
    let mut scale = level as f64;
    for k in 0..8usize {
        let v = if k < 5 { XIN[m.pick(3) as usize] * level } else { 0.0 };
        xs.push(v as f64);
        let at = |s: &Vec<f64>, d: usize| if k >= d { s[k - d] } else { 0.0 };
        let y = c[0] * v as f64 + c[1] * at(&xs, 1) + c[2] * at(&xs, 2) - c[3] * at(&ys, 1) - c[4] * at(&ys, 2);
        scale = f64::max(scale, y.abs());
        let g = q.process(v);
        ensure!(near(g, y, 1e-5 * scale), "coefficients {c:?}: y[{k}] = {g}, want {y}");
        ys.push(y);
    }
    Ok((pat > 0) as u8)
}
fn b01_grid_show(n: u64) -> String {
    let mut x = Mix(n);
    let c: [f32; 5] = std::array::from_fn(|_| *x.of(&GRID));
    format!("coefficients {c:?}, input pattern {}, level {}", x.pick(243), x.of(&SCALES))
}
/// Designed filters on long signals.
fn b01_long(n: u64) -> Res {
    let mut x = Mix(n);
    let kind = x.pick(NK);
    let ratio = [0.02f32, 0.05, 0.1, 0.24, 0.4][x.pick(5) as usize];
    let qq = [0.3f32, 0.7071, 2.0, 10.0][x.pick(4) as usize];
    let gain = [4.0f32, 0.25, 1.0][x.pick(3) as usize];
    let sig = x.pick(4);
    let mut q = Biquad::new(BiquadCoeffs::<Butterworth>::new());
    design(&mut q.coeffs, kind, 48000.0 * ratio, qq, gain, 48000.0);
    let c = f64s(&q.coeffs);
    let (mut x1, mut x2, mut y1, mut y2) = (0.0, 0.0, 0.0, 0.0);
    let mut scale = 1.0f64;
    for k in 0..3000usize {
        let v = match sig {
            0 => (k == 0) as u8 as f32,
            1 => 1.0,
            2 => val(k * 5 + 1) / 40.0,
            _ => 1.0 - 2.0 * ((k / 11) % 2) as f32,
        };
        let y = c[0] * v as f64 + c[1] * x1 + c[2] * x2 - c[3] * y1 - c[4] * y2;
        scale = scale.max(y.abs());
        let g = q.process(v);
        ensure!(near(g, y, 5e-4 * scale), "{} at sample {k}: {g}, want {y}", KIND[kind as usize]);
        (x2, x1, y2, y1) = (x1, v as f64, y1, y);
    }
    Ok(1)
}
fn b01_long_show(n: u64) -> String {
    let mut x = Mix(n);
    let kind = x.pick(NK);
    format!("{}, ratio {}, q {}, gain {}, signal {}", KIND[kind as usize], x.pick(5), x.pick(4), x.pick(3), x.pick(4))
}

/// Long silences behind a burst: every output must follow from the last two by the difference equation.
fn b01_ring(n: u64) -> Res {
    let mut x = Mix(n);
    let kind = x.pick(NK);
    let fc = *x.of(&RING_FC);
    let qq = *x.of(&RING_Q);
    let (level, burst) = *x.of(&[(1.0f32, 1), (1e-15, 1), (1000.0, 500)]);
    let mut q = Biquad::new(BiquadCoeffs::<Butterworth>::new());
    design(&mut q.coeffs, kind, fc, qq, 4.0, 48000.0);
    let c = f64s(&q.coeffs);
    let (mut xs, mut ys) = ([0f64; 2], [0f64; 2]);
    let mut sizes = [0f64; 3];
    for k in 0..150_000usize {
        let v = if k < burst { level * val(k + 1) / 64.0 } else { 0.0 };
        let want = c[0] * v as f64 + c[1] * xs[0] + c[2] * xs[1] - c[3] * ys[0] - c[4] * ys[1];
        let g = q.process(v);
        // each rounding is at most one part in 2^24 of the terms of this and the last two samples
        let m = v.abs() as f64;
        sizes = [(c[0].abs() + c[1].abs() + c[2].abs()) * m + (1.0 + c[3].abs() + c[4].abs()) * (g.abs() as f64), sizes[0], sizes[1]];
        let tol = 5e-7 * (sizes[0] + sizes[1] + sizes[2]) + 1e-43;
        ensure!(near(g, want, tol), "{} at sample {k}: {g:e}, the difference equation gives {want:e}", KIND[kind as usize]);
        (xs, ys) = ([v as f64, xs[0]], [g as f64, ys[0]]);
        if k & 0xffff == 0 {
            pulse();
        }
    }
    Ok(1)
}
const RING_FC: [f32; 6] = [0.5, 5.0, 30.0, 1000.0, 12000.0, 20000.0];
const RING_Q: [f32; 4] = [0.1, 0.7071, 20.0, 400.0];
fn b01_ring_show(n: u64) -> String {
    let mut x = Mix(n);
    let kind = x.pick(NK);
    format!("{}, fc {}, q {}, signal {}", KIND[kind as usize], x.of(&RING_FC), x.of(&RING_Q), x.pick(3))
}
/// Every finite input.
fn b01_value(n: u64) -> Res {
    let x = f32::from_bits((n / 2) as u32);
    if !(x.abs() <= 1e37) {
        return Ok(0);
    }
    let mut q = Biquad::new(BiquadCoeffs::<Butterworth>::new());
    let s = [[0.5f32, 0.25, -1.0, -0.5, 0.25], [1.0, -2.0, 1.0, 0.2, 0.7]][(n % 2) as usize];
    set(&mut q.coeffs, &s);
    let g = [x, 0.0, 0.0, 0.0].map(|x| q.process(x));
    let c = s.map(|x| x as f64);
    let v = x as f64;
    let y0 = c[0] * v;
    let y1 = c[1] * v - c[3] * y0;
    let y2 = c[2] * v - c[3] * y1 - c[4] * y0;
    let y3 = -c[3] * y2 - c[4] * y1;
    for (k, y) in [y0, y1, y2, y3].into_iter().enumerate() {
        ensure!(near(g[k], y, 4e-6 * v.abs() + 6e-45), "coefficients {s:?}, input {x:e}: output {k} is {:e}, want {y:e}", g[k]);
    }
    Ok(1 + (n % 2) as u8)
}
/// Every value (up to 4 in magnitude) of each coefficient.
fn b01_coeff(n: u64) -> Res {
    let x = f32::from_bits((n / 5) as u32);
    if !(x.abs() <= 4.0) {
        return Ok(0);
    }
    let mut q = Biquad::new(BiquadCoeffs::<Butterworth>::new());
    let mut s = [0.5f32, 0.25, -1.0, -0.5, 0.25];
    s[(n % 5) as usize] = x;
    set(&mut q.coeffs, &s);
    let inp = [1.0f32, -0.5, 0.0, 0.0];
    let g = inp.map(|x| q.process(x));
    let c = s.map(|x| x as f64);
    let mut z = [0f64; 2];
    let mut size = 0f64;
    for k in 0..4 {
        let v = inp[k] as f64;
        let y = c[0] * v + z[0];
        z = [c[1] * v - c[3] * y + z[1], c[2] * v - c[4] * y];
        size = size.max(y.abs()).max(z[0].abs()).max(z[1].abs());
        ensure!(near(g[k], y, 2e-6 * (size + 0.5)), "coefficients {s:?}: output {k} is {}, want {y}", g[k]);
    }
    // tiny gains must not vanish
    ensure!(n % 5 != 0 || g[0] == x, "coefficients {s:?}: first output {:e}", g[0]);
    Ok(1 + (n % 5) as u8)
}
fn b01_endure(n: u64, steps: u64) -> Res {
    let kind = n % NK;
    let mut q = Biquad::new(BiquadCoeffs::<Butterworth>::new());
    design(&mut q.coeffs, kind, 48000.0 * [0.02, 0.2][(n / NK) as usize], 0.7071, 4.0, 48000.0);
    let c = f64s(&q.coeffs);
    let (mut x1, mut x2, mut y1, mut y2) = (0.0, 0.0, 0.0, 0.0);
    for k in 0..steps {
        let v = if k >> 12 & 3 == 3 { 0.25 } else { val((k & 0xfff) as usize) / 64.0 };
        let y = c[0] * v as f64 + c[1] * x1 + c[2] * x2 - c[3] * y1 - c[4] * y2;
        let g = q.process(v);
        ensure!(near(g, y, 2e-3), "{} at sample {k}: {g}, want {y}", KIND[kind as usize]);
        (x2, x1, y2, y1) = (x1, v as f64, y1, y);
        if k & 0xffff == 0 {
            pulse();
        }
    }
    Ok(1)
}

// ---------------------------------------------------------------- designs
const NK: u64 = 12;
const KIND: [&str; 12] = [
    "lowpass", "highpass", "allpass", "notch", "bell+", "bell-", "low_shelf+", "low_shelf-", "bell_boost_only", "bell_cut_only", "low_shelf_boost_only", "low_shelf_cut_only",
];
/// gain is a positive magnitude
fn design(c: &mut Co, kind: u64, fc: f32, q: f32, gain: f32, sr: f32) {
    match kind {
        0 => c.lowpass(fc, q, sr),
        1 => c.highpass(fc, q, sr),
        2 => c.allpass(fc, q, sr),
        3 => c.notch(fc, q, sr),
        4 => c.bell(fc, q, gain, sr),
        5 => c.bell(fc, q, -gain, sr),
        6 => c.low_shelf(fc, q, gain, sr),
        7 => c.low_shelf(fc, q, -gain, sr),
        8 => c.bell_boost_only(fc, q, gain, sr),
        9 => c.bell_cut_only(fc, q, -gain, sr),
        10 => c.low_shelf_boost_only(fc, q, gain, sr),
        _ => c.low_shelf_cut_only(fc, q, -gain, sr),
    }
}
const SR: [f32; 9] = [48000.0, 44100.0, 8000.0, 96000.0, 192000.0, 11025.0, 1.0, 1e6, 31250.0];
const NR: u64 = 2400;
/// frequency / sample rate: 1/4096 .. just below 1/2, log spaced, plus the last bit of the way up
fn ratio(k: u64) -> f64 {
    if k < NR - 40 {
        (1.0 / 4096.0) * (2047.0f64).powf(k as f64 / (NR - 41) as f64)
    } else {
        0.5 * (1.0 - 10f64.powf(-1.0 - (k - (NR - 40)) as f64 * 0.12))
    }
}
const NQ: u64 = 80;
fn qof(k: u64) -> f32 {
    (0.1 * 200f64.powf(k as f64 / (NQ - 1) as f64)) as f32
}
const GAINS: [f32; 13] = [1.0, 0.0625, 0.1, 0.25, 0.5, 0.9, 1.1, 2.0, 3.0, 4.0, 8.0, 11.0, 16.0];
fn par(n: u64) -> (u64, f32, f32, f32, f32, f64) {
    let mut x = Mix(n);
    let kind = x.pick(NK);
    let gain = *x.of(&GAINS);
    let q = qof(x.pick(NQ));
    let sr = *x.of(&SR);
    let r = ratio(x.pick(NR));
    let mut fc = (r * sr as f64) as f32;
    while fc >= 0.5 * sr {
        fc = down(fc);
    }
    (kind, fc, q.clamp(0.1, 20.0), gain, sr, fc as f64 / sr as f64)
}
const NPAR: u64 = NK * 13 * NQ * 9 * NR;
fn par_show(n: u64) -> String {
    let (k, fc, q, g, sr, r) = par(n);
    format!("{} fc={fc} q={q} gain={g} sr={sr} (fc/sr={r})", KIND[k as usize])
}
type Par = (u64, f32, f32, f32, f32, f64);
/// One parameter (frequency, q, gain, sample rate) from all floats of its range, the others from a base setting.
const BASE: [(f64, f32, f32, f32); 4] = [(0.02, 0.7071, 4.0, 48000.0), (0.2, 5.0, 0.25, 44100.0), (0.11, 0.3, 1.0, 10000.0), (1.0 / 250.0, 2.0, 9.0, 96000.0)];
const ONE: u64 = NK * 4 * 4;
fn one(n: u64) -> Option<Par> {
    let mut m = Mix(n);
    let kind = m.pick(NK);
    let (mut r, mut q, mut gain, mut sr) = *m.of(&BASE);
    let mut fc = (r * sr as f64) as f32;
    let which = m.pick(4);
    let x = f32::from_bits(m.0 as u32);
    match which {
        0 => fc = x,
        1 => q = x,
        2 => gain = x,
        _ => {
            sr = x;
            fc = fc.min(0.3 * x);
        }
    }
    // gain does not matter to the first four
    if !(q >= 0.1 && q <= 20.0 && gain >= 0.0625 && gain <= 16.0 && sr >= 1.0 && sr <= 1e6) || kind < 4 && which == 2 {
        return None;
    }
    r = fc as f64 / sr as f64;
    if !(r >= 1.0 / 4096.0 && r < 0.5) {
        return None;
    }
    Some((kind, fc, q, gain, sr, r))
}
fn one_show(n: u64) -> String {
    match one(n) {
        Some((k, fc, q, g, sr, r)) => format!("{} fc={fc:e} q={q:e} gain={g:e} sr={sr:e} (fc/sr={r})", KIND[k as usize]),
        None => "outside the ranges".into(),
    }
}
fn ones(corner: &'static str, name: &'static str, t: u64, r: u64, c: u64, case: fn(u64) -> Res) -> [Scenario; 2] {
    let lo = 0x3d80_0000u64; // 1/16
    let count = 0x4974_2401 - lo; // 1e6
    [
        corners(corner, &RC, ONE, case, one_show),
        sweep(
            name,
            "every value of each parameter, the others from 4 settings",
            &RC,
            move |tier, p| Plan(vec![(lo * ONE, (lo + count) * ONE, match (tier, p) { (Tier::Thorough, _) => t, (_, Profile::Release) => r, _ => c })]),
            case,
            one_show,
        ),
    ]
}
/// designs without gain need not be repeated for each gain
fn dup(n: u64) -> bool {
    n % NK < 4 && n / NK % 13 != 0
}

// ---------------------------------------------------------------- B02
fn b02_case(n: u64) -> Res {
    if dup(n) {
        return Ok(0);
    }
    b02(par(n))
}
fn b02_one(n: u64) -> Res {
    one(n).map_or(Ok(0), b02)
}
fn b02((kind, fc, q, g, sr, _): Par) -> Res {
    let mut c = Co::new();
    design(&mut c, kind, fc, q, g, sr);
    ensure!(read(&c).iter().all(|x| x.is_finite()), "coefficients {:?}", read(&c));
    let [_, _, _, a1, a2] = f64s(&c);
    ensure!(a2.abs() < 1.0 && a1.abs() < 1.0 + a2, "pole on or outside the unit circle: a1={a1} a2={a2}");
    Ok(1 + (a1 * a1 - 4.0 * a2 >= 0.0) as u8)
}
fn b02_impulse(n: u64) -> Res {
    // a coarser grid
    let mut x = Mix(n);
    let kind = x.pick(NK);
    let g = [4.0f32, 0.0625, 16.0][x.pick(3) as usize];
    let q = [0.1f32, 0.7071, 5.0, 20.0][x.pick(4) as usize];
    let r = [1.0 / 4000.0, 1.0 / 512.0, 0.01, 0.1, 0.25, 0.4, 0.49, 0.4999][x.pick(8) as usize];
    let sr = 48000.0f32;
    let mut b = Biquad::new(Co::new());
    design(&mut b.coeffs, kind, (r * sr as f64) as f32, q, g, sr);
    let [_, _, _, a1, a2] = f64s(&b.coeffs);
    let disc = a1 * a1 - 4.0 * a2;
    let rad = if disc < 0.0 { a2.sqrt() } else { (a1.abs() + disc.sqrt()) / 2.0 };
    ensure!(rad < 1.0, "pole radius {rad}");
    let wait = (14.0 / (1.0 - rad)) as usize + 20;
    let mut peak = 0f32;
    for k in 0..wait + 100 {
        let y = b.process((k == 0) as u8 as f32);
        ensure!(y.is_finite() && y.abs() <= 1000.0, "impulse response {y} at {k}");
        peak = peak.max(y.abs());
        ensure!(k < wait || y.abs() <= 0.01 * peak, "impulse response {y} after {k} samples (peak {peak})");
    }
    Ok(1)
}
fn b02_imp_show(n: u64) -> String {
    let mut x = Mix(n);
    format!("{} gain {} q {} ratio {} (choices)", KIND[x.pick(NK) as usize], x.pick(3), x.pick(4), x.pick(8))
}

// ---------------------------------------------------------------- B03
/// magnitudes of numerator and denominator
fn parts(c: &C5, w: f64) -> (f64, f64) {
    let (c1, s1, c2, s2) = (w.cos(), w.sin(), (2.0 * w).cos(), (2.0 * w).sin());
    ((c[0] + c[1] * c1 + c[2] * c2).hypot(c[1] * s1 + c[2] * s2), (1.0 + c[3] * c1 + c[4] * c2).hypot(c[3] * s1 + c[4] * s2))
}
fn resp(c: &C5, w: f64) -> (f64, f64) {
    // numerically careful: e^{-jw}
    let (c1, s1, c2, s2) = (w.cos(), w.sin(), (2.0 * w).cos(), (2.0 * w).sin());
    let n = (c[0] + c[1] * c1 + c[2] * c2, -(c[1] * s1 + c[2] * s2));
    let d = (1.0 + c[3] * c1 + c[4] * c2, -(c[3] * s1 + c[4] * s2));
    let m = d.0 * d.0 + d.1 * d.1;
    ((n.0 * d.0 + n.1 * d.1) / m, (n.1 * d.0 - n.0 * d.1) / m)
}
fn mag(c: &C5, w: f64) -> f64 {
    let (a, b) = resp(c, w);
    (a * a + b * b).sqrt()
}
fn b03_case(n: u64) -> Res {
    if dup(n) {
        return Ok(0);
    }
    b03(par(n))
}
fn b03_one(n: u64) -> Res {
    one(n).map_or(Ok(0), b03)
}
fn b03((kind, fc, q, g, sr, r): Par) -> Res {
    if r < 1.0 / 256.0 || r > 0.25 {
        return Ok(0);
    }
    let mut c = Co::new();
    design(&mut c, kind, fc, q, g, sr);
    let c = f64s(&c);
    let (g, q) = (g as f64, q as f64);
    let (dc, ny, at) = (mag(&c, 0.0), mag(&c, PI), mag(&c, 2.0 * PI * r));
    let is = |x: f64, want: f64| (x - want).abs() <= 0.01 * want.max(if want == 0.0 { 1.0 } else { 0.0 });
    let ok = match kind {
        0 => is(dc, 1.0) && is(ny, 0.0) && is(at, q),
        1 => is(dc, 0.0) && is(ny, 1.0) && is(at, q),
        2 => (0..=20).all(|k| is(mag(&c, PI * k as f64 / 20.0), 1.0)) && is(at, 1.0),
        3 => is(dc, 1.0) && is(ny, 1.0) && at <= 0.01 * (1.0 + q / 4.0),
        4 | 8 => is(dc, 1.0) && is(ny, 1.0) && is(at, g),
        5 | 9 => is(dc, 1.0) && is(ny, 1.0) && is(at, 1.0 / g),
        6 | 10 => is(dc, g) && is(ny, 1.0),
        _ => is(dc, 1.0 / g) && is(ny, 1.0),
    };
    ensure!(ok, "{}: response {dc} at DC, {ny} at half the sample rate, {at} at fc (q {q}, gain {g})", KIND[kind as usize]);
    Ok(1)
}

// ---------------------------------------------------------------- B04
fn b04_pair(n: u64) -> Res {
    b04(par(n))
}
fn b04_one(n: u64) -> Res {
    one(n).map_or(Ok(0), b04)
}
fn b04((kind, fc, q, g, sr, r): Par) -> Res {
    if !(kind == 4 || kind == 6 || kind == 8 || kind == 10) || r < 1.0 / 256.0 {
        return Ok(0);
    }
    let (mut up, mut dn) = (Co::new(), Co::new());
    design(&mut up, kind, fc, q, g, sr);
    design(&mut dn, kind + 1, fc, q, g, sr);
    let (up, dn) = (f64s(&up), f64s(&dn));
    // the coefficients are rounded to 32 bits: an error of a few units in the last place of each, where numerator
    // or denominator almost vanishes, is that much larger relative to them
    let size = |c: &[f64; 5]| [c[0].abs() + c[1].abs() + c[2].abs(), 1.0 + c[3].abs() + c[4].abs()];
    for w in (0..=16).map(|k| PI * k as f64 / 16.0).chain([0.5, 0.9, 0.99, 1.0, 1.01, 1.1, 2.0].map(|k| 2.0 * PI * r * k)) {
        let (a, b) = (resp(&up, w), resp(&dn, w));
        let p = (a.0 * b.0 - a.1 * b.1, a.0 * b.1 + a.1 * b.0);
        let slack: f64 = [&up, &dn].iter().map(|c| { let (n, d) = parts(c, w); size(c)[0] / n + size(c)[1] / d }).sum();
        let tol = 1e-6 + 8.0 * slack * 2f64.powi(-24);
        ensure!((p.0 - 1.0).hypot(p.1) < tol, "{}: boost times cut = {p:?} at {w} rad/sample", KIND[kind as usize]);
    }
    Ok(1)
}
/// boost, then cut, on a signal
fn b04_cascade(n: u64) -> Res {
    let mut x = Mix(n);
    let kind = [4u64, 6][x.pick(2) as usize];
    let g = GAINS[x.pick(13) as usize];
    let q = [0.1f32, 0.5, 0.7071, 2.0, 20.0][x.pick(5) as usize];
    let r = [0.005, 0.01, 0.03, 0.1, 0.25, 0.4][x.pick(6) as usize];
    let cut_first = x.pick(2) == 1;
    let sr = SR[x.pick(9) as usize];
    let (mut a, mut b) = (Biquad::new(Co::new()), Biquad::new(Co::new()));
    let fc = (r * sr as f64) as f32;
    design(&mut a.coeffs, kind + cut_first as u64, fc, q, g, sr);
    design(&mut b.coeffs, kind + !cut_first as u64, fc, q, g, sr);
    for k in 0..1500usize {
        let v = if k < 700 { val(k * 3 + 1) / 40.0 } else { 1.0 - 2.0 * ((k / 17) % 2) as f32 };
        let m = a.process(v);
        let y = b.process(m);
        ensure!(near(y, v as f64, 0.02), "{} sample {k}: {v} came back as {y}", KIND[kind as usize]);
    }
    Ok(1 + (g == 1.0) as u8)
}
fn b04_cas_show(n: u64) -> String {
    let mut x = Mix(n);
    format!("kind {}, gain {}, q {}, ratio {}, cut first {}, sr {} (choices)", x.pick(2), x.pick(13), x.pick(5), x.pick(6), x.pick(2), x.pick(9))
}
/// Design call histories on one object.
struct Redesign {
    q: Biquad<Butterworth>,
    cfg: u64,
}
fn rpar(cfg: u64, op: u64) -> (u64, f32, f32, f32, f32) {
    let k = op / 12 + 3 * cfg;
    (op % 12, [1000.0f32, 60.0, 11025.0, 2500.0, 333.3, 7999.0][k as usize % 6], [0.7071f32, 12.0, 0.2][k as usize % 3], [4.0f32, 0.5, 1.0, 16.0][k as usize % 4], [48000.0f32, 44100.0][k as usize % 2])
}
impl Machine for Redesign {
    fn new(cfg: u64) -> Self {
        Redesign { q: Biquad::new(Co::new()), cfg }
    }
    fn nops(&self) -> u64 {
        37
    }
    fn step(&mut self, op: u64) -> Result<Option<u8>, Box<Fail>> {
        if op == 36 {
            // processing must not disturb the coefficients either
            let before = read(&self.q.coeffs);
            self.q.process(0.0);
            ensure!(read(&self.q.coeffs).iter().zip(&before).all(|(a, b)| same(*a, *b)), "processing changed coefficients");
            return Ok(Some(2));
        }
        let (k, fc, q, g, sr) = rpar(self.cfg, op);
        design(&mut self.q.coeffs, k, fc, q, g, sr);
        let mut f = Co::new();
        design(&mut f, k, fc, q, g, sr);
        ensure!(read(&f).iter().zip(&read(&self.q.coeffs)).all(|(a, b)| a == b), "{}: {:?} after other designs, {:?} on a fresh object", KIND[k as usize], read(&self.q.coeffs), read(&f));
        Ok(Some(1))
    }
    fn save(&self, o: &mut Vec<u8>) {
        put(o, &self.q);
    }
    fn load(&mut self, s: &[u8]) {
        Reader(s).get(&mut self.q);
    }
    fn opname(&self, op: u64) -> String {
        if op == 36 {
            return "process".into();
        }
        let (k, fc, q, g, sr) = rpar(self.cfg, op);
        format!("{}(fc {fc}, q {q}, gain {g}, sr {sr})", KIND[k as usize])
    }
    fn cfgname(&self) -> String {
        format!("parameter set {}", self.cfg)
    }
}

fn props() -> Vec<Prop> {
    let pick = |t: Tier, p: Profile, a: u64, b: u64, c: u64| match (t, p) {
        (Tier::Thorough, _) => a,
        (_, Profile::Release) => b,
        _ => c,
    };
    vec![
        Prop {
            id: "B01",
            level: "model_checking",
            rule: "search: every history of processed samples (3 values) and coefficient changes (3 sets) up to the depth, 4 coefficient alphabets x signal levels 1, 2^-60 and 2^40, against the transposed form in double precision; sweeps: 3125 fixed coefficient sets x every ternary input of 5 samples x 3 levels against the difference equation; designed filters on long signals and long silences (outputs against the difference equation applied to the outputs before); one-float sweeps: every input up to 1e37, every value of each coefficient up to 4",
            assumptions: vec!["float rounding: 4e-6 relative to the values involved per step of the search"],
            scenarios: with(vec![
                search::<Bq<false>>("histories", "all histories of samples and coefficient changes", &RC, move |t, p| bd(12, pick(t, p, 12, 10, 8) as usize, pick(t, p, 12_000_000, 4_000_000, 300_000) as usize)),
                periodic::<Bq<true>>("periodic", &RC, 12, 4),
                sweep("fixed-coefficients", "grid of coefficients, all ternary inputs", &RC, move |t, p| Plan::stride(3125 * 243 * 3, pick(t, p, 1, 1, 7)), b01_grid, b01_grid_show),
                sweep("designed", "designed filters on signals of 3000 samples", &RC, move |t, p| Plan::stride(NK * 240, pick(t, p, 1, 1, 7)), b01_long, b01_long_show),
                sweep("ringing", "designed filters, a burst and 150000 samples of silence", &RC, move |t, p| Plan::stride(NK * 24 * 3, pick(t, p, 1, 1, 7)), b01_ring, b01_ring_show),
                sweep("values", "every finite input", &RC, move |t, p| Plan::stride(2 << 32, pick(t, p, 1, 3, 31)), b01_value, |n| format!("coefficients {} input {}", n % 2, show_f32(n / 2))),
                sweep("coefficients", "every value of each coefficient up to 4", &RC, move |t, p| Plan::stride(5 << 32, pick(t, p, 1, 3, 31)), b01_coeff, |n| format!("coefficient {} = {}", n % 5, show_f32(n / 5))),
            ], endurance(2 * NK, b01_endure, |n| format!("{}, choice {}", KIND[(n % NK) as usize], n / NK))),
        },
        Prop {
            id: "B02",
            level: "exploration",
            rule: "complete enumeration of the design grid: 12 designs x 9 sample rates x 2400 frequencies x 80 q x 13 gains; pole test in double precision on the 32-bit coefficients; plus impulse responses on a coarse grid; class 0 = duplicate (design without gain), 1 = complex poles, 2 = real poles; one parameter at a time from corner floats (12 significant bits, constants, decimals, rates) and a stride of all floats, the others from 4 settings",
            assumptions: vec!["parameters between grid points"],
            scenarios: vec![
                sweep("poles", "finite coefficients, poles inside the unit circle", &RC, move |t, p| Plan::stride(NPAR, pick(t, p, 1, 1, 13)), b02_case, par_show),
                sweep("impulse", "impulse response stays bounded and dies out", &RC, move |_, _| Plan::all(NK * 96), b02_impulse, b02_imp_show),
            ].into_iter().chain(ones("corner-poles", "one-poles", 1, 7, 101, b02_one)).collect(),
        },
        Prop {
            id: "B03",
            level: "exploration",
            rule: "complete enumeration of the design grid with frequency between 1/256 and 1/4 of the sample rate; magnitude at DC, half the sample rate and fc in double precision from the 32-bit coefficients; class 0 = outside that range or duplicate; one parameter at a time from corner floats (12 significant bits, constants, decimals, rates) and a stride of all floats, the others from 4 settings",
            assumptions: vec!["parameters between grid points"],
            scenarios: vec![sweep("responses", "nominal response of every design", &RC, move |t, p| Plan::stride(NPAR, pick(t, p, 1, 1, 13)), b03_case, par_show)].into_iter().chain(ones("corner-responses", "one-responses", 1, 17, 211, b03_one)).collect(),
        },
        Prop {
            id: "B04",
            level: "model_checking",
            rule: "search: every sequence of design calls (36 calls, 3 parameter groups) and processing on one object to the fixpoint, compared bit for bit with a fresh object; sweeps: boost times cut over a frequency grid for every bell/shelf of the design grid; boost-cut cascades on a signal; one parameter at a time from corner floats (12 significant bits, constants, decimals, rates) and a stride of all floats, the others from 4 settings",
            assumptions: vec!["fc at least 1/256 of the sample rate (below, 32-bit coefficients limit the match); tolerance 0.003 plus the effect of coefficient rounding at sharp, low resonances"],
            scenarios: vec![
                search::<Redesign>("redesign", "all design call sequences", &RC, |_, _| bd(3, 100, 1 << 20)),
                periodic::<Redesign>("periodic", &RC, 3, 2),
                sweep("reciprocal", "complex response of boost times cut is 1", &RC, move |t, p| Plan::stride(NPAR, pick(t, p, 1, 1, 61)), b04_pair, par_show),
                sweep("cascade", "signal restored", &RC, move |t, p| Plan::stride(2 * 13 * 5 * 6 * 2 * 9, pick(t, p, 1, 1, 7)), b04_cascade, b04_cas_show),
            ].into_iter().chain(ones("corner-reciprocal", "one-reciprocal", 5, 61, 811, b04_one)).collect(),
        },
    ]
}
fn main() {
    main_with(props())
}
