//! F01..F15: float and fixed-point mathematics.
use eatmc::*;
use embedded_audio_tools::convert::{Decibels, FromF32Components, FromRawBytes, ToF32Components, ToRawBytes};
use embedded_audio_tools::errors::BitReductionError;
use embedded_audio_tools::fixed_point::math::{sin_i16, sin_i16_unchecked};
use embedded_audio_tools::float::{bit_reduce, bit_reduce_exp, lagrange, lagrange_only_4_elements, lerp, AdditionalF32Ext as Ext, DSPUtility, InterpolationError};
use std::sync::OnceLock;

const N32: u64 = 1 << 32;
fn f(n: u64) -> f32 {
    f32::from_bits(n as u32)
}

// ---------------------------------------------------------------- F01
fn f01(n: u64) -> Res {
    let b = n as u32;
    let x = f32::from_bits(b);
    ensure!(x.to_raw_word() == b, "raw word 0x{:08x}", x.to_raw_word());
    ensure!(f32::from_raw_word(b).to_bits() == b, "from raw word: 0x{:08x}", f32::from_raw_word(b).to_bits());
    let (s, e, m) = (b >> 31 != 0, (b >> 23) as u8, b & 0x7f_ffff);
    let c = x.to_f32_components();
    ensure!(c.sign == s && c.exponent == e && c.mantissa == m, "components of the float: {c:?}");
    let back = f32::from_f32_components(c);
    ensure!(back.to_bits() == b, "recomposed float 0x{:08x}", back.to_bits());
    let c = b.to_f32_components();
    ensure!(c.sign == s && c.exponent == e && c.mantissa == m, "components of the word: {c:?}");
    ensure!(u32::from_f32_components(c) == b, "recomposed word");
    Ok(match e {
        0 => 1 + (m != 0) as u8,
        255 => 3 + (m != 0) as u8,
        _ => 5,
    })
}

// ---------------------------------------------------------------- F02
fn f02(n: u64) -> Res {
    let x = f(n);
    if x.is_nan() {
        return Ok(0);
    }
    if !(x >= -1.0 && x <= 1.0) {
        for d in [0u8, 1, 13, 30, 31, 255] {
            match bit_reduce(x, d) {
                Err(BitReductionError::InputExceedsRange) => {}
                Err(BitReductionError::OverBitReduction) if d > 30 => {}
                Err(_) => ensure!(false, "{x} at depth {d} refused for its depth"),
                Ok(y) => ensure!(false, "{x} at depth {d} accepted as {y}"),
            }
        }
        return Ok(2);
    }
    for d in [31u8, 32, 33, 64, 128, 255] {
        ensure!(matches!(bit_reduce(x, d), Err(BitReductionError::OverBitReduction)), "{x}: depth {d} not refused as such");
    }
    let a = x.abs() as f64;
    for d in 0..=30u8 {
        let Ok(y) = bit_reduce(x, d) else { return Err(failure(format!("{x} at depth {d} refused"))) };
        if d == 0 {
            ensure!(y == x, "depth 0 turned {x:e} into {y:e}");
            continue;
        }
        let g = 2f64.powi(d as i32 - 31);
        let b = y.abs() as f64;
        ensure!(y == 0.0 || (y < 0.0) == (x < 0.0), "{x:e} at depth {d} changed sign: {y:e}");
        ensure!(b <= a && a - b < g, "{x:e} at depth {d} became {y:e}, grid {g:e}");
        let k = b / g;
        ensure!(k == k.trunc(), "{x:e} at depth {d}: {y:e} is not a multiple of {g:e}");
        ensure!(matches!(bit_reduce(y, d), Ok(z) if z == y), "{x:e} at depth {d}: not idempotent at {y:e}");
    }
    Ok(1)
}

// ---------------------------------------------------------------- F03
fn f03(n: u64) -> Res {
    let b = n as u32;
    let x = f32::from_bits(b);
    for d in 0..=23u8 {
        let Ok(y) = bit_reduce_exp(x, d) else { return Err(failure(format!("depth {d} refused"))) };
        let w = b & !((1u32 << d) - 1);
        ensure!(y.to_bits() == w, "depth {d}: 0x{:08x}, want 0x{w:08x}", y.to_bits());
    }
    Ok(1)
}
fn f03_refuse(n: u64) -> Res {
    let d = (n % 232 + 24) as u8;
    let x = f((n / 232).wrapping_mul(0x9e37_79b1) & 0xffff_ffff);
    ensure!(matches!(bit_reduce_exp(x, d), Err(BitReductionError::OverBitReduction)), "depth {d} of {x} not refused");
    Ok(1)
}

// ---------------------------------------------------------------- F04
fn grid() -> &'static [f32] {
    static G: OnceLock<Vec<f32>> = OnceLock::new();
    G.get_or_init(|| {
        let mut v = special_floats();
        v.extend([f32::NAN, -f32::NAN, f32::INFINITY, f32::NEG_INFINITY, f32::from_bits(0x7f80_0001)]);
        v
    })
}
fn lerp_case(a: f32, b: f32, t: f32) -> Res {
    let r = lerp(a, b, t);
    let nan = a.is_nan() || b.is_nan() || t.is_nan();
    let inf = a.is_infinite() || b.is_infinite();
    let range = t < 0.0 || t > 1.0;
    match r {
        Ok(y) => {
            ensure!(!nan && !inf && !range, "lerp({a}, {b}, {t}) accepted as {y}");
            if t == 0.0 {
                ensure!(y == a, "lerp({a}, {b}, {t}) = {y}");
            }
            if t == 1.0 {
                ensure!(y == b, "lerp({a}, {b}, {t}) = {y}");
            }
            let w = a as f64 * (1.0 - t as f64) + b as f64 * t as f64;
            let tol = (a.abs() as f64).max(b.abs() as f64) * 2.5e-7 + 1e-44;
            ensure!(near(y, w, tol), "lerp({a}, {b}, {t}) = {y}, want {w}");
            let (lo, hi) = (a.min(b) as f64, a.max(b) as f64);
            ensure!(y as f64 >= lo - tol && y as f64 <= hi + tol, "lerp({a}, {b}, {t}) = {y}, not between them");
            Ok(1 + (t > 0.0 && t < 1.0) as u8)
        }
        Err(InterpolationError::InputNaN) => {
            ensure!(nan, "lerp({a}, {b}, {t}) refused as NaN");
            Ok(3)
        }
        Err(InterpolationError::InputInfinite) => {
            ensure!(inf && !nan, "lerp({a}, {b}, {t}) refused as infinite");
            Ok(4)
        }
        Err(InterpolationError::InterpolationRange) => {
            ensure!(range && !nan && !inf, "lerp({a}, {b}, {t}) refused for its range");
            Ok(5)
        }
    }
}
fn f04_grid(n: u64) -> Res {
    let g = grid();
    let mut x = Mix(n);
    lerp_case(*x.of(g), *x.of(g), *x.of(g))
}
fn f04_show(n: u64) -> String {
    let g = grid();
    let mut x = Mix(n);
    format!("a={:e} b={:e} t={:e}", x.of(g), x.of(g), x.of(g))
}
const AB: [(f32, f32); 6] = [(1.0, -3.0), (0.1, 0.1), (0.0, 1.0), (-1e30, 1e30), (5.0, f32::MAX), (-0.3, -0.7)];
fn f04_t(n: u64) -> Res {
    let (a, b) = AB[(n % 6) as usize];
    lerp_case(a, b, f(n / 6))
}
fn f04_ab(n: u64) -> Res {
    let x = f(n / 8);
    let t = [0.0f32, 0.25, 0.3, 1.0][(n % 4) as usize];
    if n / 4 % 2 == 0 {
        lerp_case(x, 0.7, t)
    } else {
        lerp_case(-1.3, x, t)
    }
}

// ---------------------------------------------------------------- F05
fn points(n: usize, set: u64) -> [f32; 16] {
    let mut p = [canary(); 16];
    for (i, v) in p[..n].iter_mut().enumerate() {
        *v = match set {
            s if s < 16 => (i as u64 == s) as u8 as f32, // one basis polynomial at a time
            16 => val(i),
            17 => val(i * 7 + 3) / 8.0,
            18 => 1.0,
            19 => i as f32,
            20 => (i * i) as f32,
            21 => 1e30 * (1.0 - 2.0 * (i % 2) as f32),
            22 => 1e-30 * (i as f32 - 2.0),
            _ => [1e20f32, 0.0, -1e-20, 5.0][i % 4],
        };
    }
    p
}
const F05_X: u64 = 512;
fn f05(n: u64) -> Res {
    let mut m = Mix(n);
    let k = m.pick(F05_X + 1);
    let set = m.pick(24);
    let np = m.pick(16) as usize + 1;
    if set < 16 && set as usize >= np {
        return Ok(0);
    }
    let p = points(np, set);
    let x = (k as f64 * (np - 1) as f64 / F05_X as f64) as f32;
    let y = lagrange(&p[..np], x);
    let (mut w, mut e) = (0.0f64, 0.0f64);
    for i in 0..np {
        let mut t = p[i] as f64;
        for j in 0..np {
            if i != j {
                t *= (x as f64 - j as f64) / (i as f64 - j as f64);
            }
        }
        w += t;
        e += t.abs();
    }
    let tol = e * (4 * np + 4) as f64 * 6e-8 + 1e-36;
    ensure!(near(y, w, tol), "lagrange of {np} points (set {set}) at {x}: {y}, want {w} +- {tol}");
    let mut class = 1;
    if x.fract() == 0.0 {
        let v = p[x as usize] as f64;
        ensure!(near(y, v, v.abs() * 4.0 * np as f64 * 6e-8 + 1e-36), "lagrange of {np} points at the point {x}: {y}, want {v}");
        class = 2;
    }
    if np == 4 {
        let z = unsafe { lagrange_only_4_elements(&p[..4], x) };
        ensure!(near(z, w, tol), "four-point lagrange (set {set}) at {x}: {z}, want {w}");
        class += 2;
    }
    Ok(class)
}
fn f05_show(n: u64) -> String {
    let mut m = Mix(n);
    format!("x choice {}/512, point set {}, points {}", m.pick(F05_X + 1), m.pick(24), m.pick(16) + 1)
}
/// More points: 17 to 100, up to 24 basis polynomials and four data sets each, at every point and in between.
fn f05_many(n: u64) -> Res {
    let mut m = Mix(n);
    let set = m.pick(28) as usize;
    let np = m.pick(84) as usize + 17;
    // basis polynomials spread over the points, the ends included
    let peak = set * (np - 1) / 23;
    let p: Vec<f32> = (0..np)
        .map(|i| match set {
            0..=23 => (i == peak) as u8 as f32,
            24 => val(i) / 8.0,
            25 => 1.0,
            26 => i as f32,
            _ => 1.0 - 2.0 * (i % 2) as f32,
        })
        .collect();
    let mut w = vec![1f64; np];
    for i in 0..np {
        for j in 0..np {
            if i != j {
                w[i] /= i as f64 - j as f64;
            }
        }
    }
    for k in 0..=4 * (np - 1) {
        let x = k as f32 / 4.0;
        let y = lagrange(&p, x);
        executions(1);
        if np >= 64 {
            ensure_key!(y.is_finite(), "lagrange-overflow-many-points", "lagrange of {np} points (set {set}) at {x}: {y}");
        }
        if k % 4 == 0 {
            let v = p[k / 4] as f64;
            ensure!(near(y, v, v.abs() * 4.0 * np as f64 * 6e-8 + 1e-36), "lagrange of {np} points (set {set}) at the point {x}: {y}, want {v}");
            continue;
        }
        let all: f64 = (0..np).map(|j| x as f64 - j as f64).product();
        let (mut want, mut e) = (0.0f64, 0.0f64);
        for i in 0..np {
            let t = p[i] as f64 * w[i] * all / (x as f64 - i as f64);
            want += t;
            e += t.abs();
        }
        // with this many points partial products are subnormal, and less exact, somewhere
        let tol = if np < 64 { e * (4 * np + 4) as f64 * 6e-8 + 1e-36 } else { e * 1e-3 + 1e-12 };
        ensure!(near(y, want, tol), "lagrange of {np} points (set {set}) at {x}: {y}, want {want}");
    }
    Ok(5)
}
/// Every abscissa for a few points.
fn f05_any(n: u64) -> Res {
    let np = [2usize, 3, 4, 7][(n % 4) as usize];
    let x = f(n / 4);
    if !(x >= 0.0 && x <= (np - 1) as f32) {
        return Ok(0);
    }
    let p = points(np, 17);
    let y = lagrange(&p[..np], x);
    let mut sum = [0f64; 2];
    for i in 0..np {
        let mut t = p[i] as f64;
        for j in 0..np {
            if i != j {
                t *= (x as f64 - j as f64) / (i as f64 - j as f64);
            }
        }
        sum = [sum[0] + t, sum[1] + t.abs()];
    }
    let tol = sum[1] * (4 * np + 4) as f64 * 6e-8 + 1e-36;
    ensure!(near(y, sum[0], tol), "lagrange of {np} points at {x:e}: {y}, want {} +- {tol}", sum[0]);
    if np == 4 {
        let z = unsafe { lagrange_only_4_elements(&p[..4], x) };
        ensure!(near(z, sum[0], tol), "four-point lagrange at {x:e}: {z}, want {}", sum[0]);
    }
    Ok(1)
}
fn f05_four(n: u64) -> Res {
    // every 2^-16 between the points
    let x = (n % ((3 << 16) + 1)) as f32 / 65536.0;
    let set = n / ((3 << 16) + 1);
    if set >= 4 && set < 16 {
        return Ok(0);
    }
    let p = points(4, set);
    let (y, z) = (lagrange(&p[..4], x), unsafe { lagrange_only_4_elements(&p[..4], x) });
    let e: f64 = p[..4].iter().map(|v| v.abs() as f64).fold(0.0, f64::max) * 4.0;
    ensure!(near(z, y as f64, e * 4e-6 + 1e-36), "four-point {z}, general {y} at {x} (set {set})");
    Ok(1)
}

// ---------------------------------------------------------------- F06, F07
fn f06(n: u64) -> Res {
    use std::num::FpCategory::{Infinite, Nan};
    let x = f(n);
    let (u, a, b) = (x.to_decibels_unchecked(), x.to_decibels(), x.to_decibels_checked());
    if x.is_nan() || x < 0.0 {
        ensure!(a == Err(Nan), "to_decibels({x}) = {a:?}");
        ensure!(b == Err(Nan), "to_decibels_checked({x}) = {b:?}");
        ensure!(u.is_nan(), "to_decibels_unchecked({x}) = {u}");
        return Ok(1);
    }
    if x == 0.0 {
        ensure!(u == f32::NEG_INFINITY, "to_decibels_unchecked({x}) = {u}");
        ensure!(a == Ok(f32::NEG_INFINITY), "to_decibels({x}) = {a:?}");
        ensure!(b == Err(Infinite), "to_decibels_checked({x}) = {b:?}");
        return Ok(2);
    }
    for (r, name) in [(a, "to_decibels"), (b, "to_decibels_checked")] {
        match r {
            Ok(v) => {
                ensure!(!v.is_nan(), "{name}({x}) is NaN");
                ensure!(x.is_infinite() || v.is_finite(), "{name}({x}) = {v}");
                ensure!(v == u, "{name}({x}) = {v}, but {u} unchecked");
            }
            Err(e) => ensure!(x.is_infinite() && name == "to_decibels_checked" && e == Infinite, "{name}({x}) refused: {e:?}"),
        }
    }
    if x.is_infinite() {
        ensure!(u == f32::INFINITY, "to_decibels_unchecked({x}) = {u}");
        return Ok(3);
    }
    Ok(4)
}
fn f07_level(n: u64) -> Res {
    let x = f(n);
    if !x.is_normal() || x < 0.0 {
        return Ok(0);
    }
    let d = x.to_decibels_unchecked();
    let w = 20.0 * (x as f64).log10();
    let tol = if x < 1.0 { 1.1 } else { 0.01 };
    ensure!(near(d, w, tol), "{x:e} is {d} dB, want {w} +- {tol}");
    let y = up(x);
    if y.is_finite() {
        ensure!(y.to_decibels_unchecked() >= d - d.abs() * 1e-6 - 1e-5, "{y:e} is {} dB, less than {d} dB of {x:e}", y.to_decibels_unchecked());
    }
    Ok(1 + (x >= 1.0) as u8)
}
fn f07_ratio(n: u64) -> Res {
    let d = f(n);
    if d.is_nan() {
        return Ok(0);
    }
    let v = d.to_volt_ratio();
    if d == 0.0 {
        ensure!(v == 1.0, "{d} dB is {v}");
    }
    if d > 770.0 {
        ensure!(v >= 3e38, "{d} dB is {v:e}");
        return Ok(3);
    }
    if d < -750.0 {
        ensure!(v >= 0.0 && v <= 1e-37, "{d} dB is {v:e}");
        return Ok(2);
    }
    let w = 10f64.powf(d as f64 / 20.0);
    ensure!(near(v, w, w * 3e-3), "{d} dB is {v:e}, want {w:e}");
    let e = up(d);
    if e <= 770.0 {
        ensure!(e.to_volt_ratio() >= v * (1.0 - 1e-4), "{e} dB is {:e}, less than {v:e} of {d} dB", e.to_volt_ratio());
    }
    Ok(1)
}
fn f07_inverse(n: u64) -> Res {
    // level -> ratio -> level, and ratio -> level -> ratio
    let d = -740.0 + n as f32 * (1500.0 / 4194304.0);
    let b = d.to_volt_ratio().to_decibels_unchecked();
    ensure!(near(b, d as f64, 1.15), "{d} dB -> {:e} -> {b} dB", d.to_volt_ratio());
    let x = 10f64.powf(d as f64 / 20.0) as f32;
    let r = x.to_decibels_unchecked().to_volt_ratio();
    let k = (r / x) as f64;
    ensure!(k > 0.872 && k < 1.147, "{x:e} -> {} dB -> {r:e}", x.to_decibels_unchecked());
    if x >= 1.0 {
        ensure!((k - 1.0).abs() < 0.005, "{x:e} -> {} dB -> {r:e}", x.to_decibels_unchecked());
    }
    Ok(1)
}

// ---------------------------------------------------------------- F08
fn f08(n: u64) -> Res {
    let ph = n as u16 as i16;
    let d = (n >> 16) as u8;
    let y = sin_i16(ph, d);
    let z = ph as f64 / 32768.0 * std::f64::consts::FRAC_PI_2;
    let k = d.min(4) as i32;
    let (mut t, mut w) = (z, z);
    for i in 1..=k {
        t *= -z * z / ((2 * i) as f64 * (2 * i + 1) as f64);
        w += t;
    }
    let w = (w * 32768.0).clamp(-32768.0, 32767.0);
    ensure!((y as f64 - w).abs() <= 8.0, "sin_i16({ph}, {d}) = {y}, {}-term polynomial {w}", k + 1);
    if k == 4 {
        let s = (z.sin() * 32768.0).clamp(-32768.0, 32767.0);
        ensure!((y as f64 - s).abs() <= 6.0, "sin_i16({ph}, {d}) = {y}, sine {s}");
    }
    if ph != i16::MIN {
        let m = sin_i16(-ph, d);
        ensure!((y as i32 + m as i32).abs() <= 3, "sin_i16({ph}, {d}) = {y}, sin_i16({}, {d}) = {m}", -ph);
    }
    if d <= 4 {
        let u = unsafe { sin_i16_unchecked(ph, d) };
        ensure!(u == y, "sin_i16_unchecked({ph}, {d}) = {u}, sin_i16 {y}");
    } else {
        ensure!(y == sin_i16(ph, 4), "degree {d}: {y}, degree 4: {}", sin_i16(ph, 4));
    }
    Ok(1 + k as u8)
}

// ---------------------------------------------------------------- F09, F10
fn f09(n: u64) -> Res {
    let x = f(n);
    let (s, c) = (x.fixed_point_sin(), x.fixed_point_cos());
    if !x.is_finite() {
        return Ok(1);
    }
    ensure!(s.abs() <= 1.0001 && c.abs() <= 1.0001, "fast sine {s}, cosine {c} at {x:e}");
    if x.abs() <= 1000.0 {
        let (ws, wc) = (x as f64).sin_cos();
        ensure!(near(s, ws, 2e-4), "fast sine of {x:e}: {s}, want {ws}");
        ensure!(near(c, wc, 2e-4), "fast cosine of {x:e}: {c}, want {wc}");
        return Ok(2);
    }
    Ok(3)
}
fn f10(n: u64) -> Res {
    let x = f(n);
    let s = x.lookup_sin();
    if !x.is_finite() {
        return Ok(1);
    }
    ensure!(s.abs() <= 1.0001, "table sine of {x:e}: {s}");
    if x.abs() <= 1000.0 {
        let w = (x as f64).sin();
        ensure!(near(s, w, 0.13), "table sine of {x:e}: {s}, want {w}");
        let y = x + 1e-4;
        let t = y.lookup_sin();
        ensure!((t - s).abs() <= 0.002, "table sine jumps from {s} at {x:e} to {t} at {y:e}");
        return Ok(2);
    }
    Ok(3)
}

// ---------------------------------------------------------------- F11
fn f11(n: u64) -> Res {
    let x = f(n);
    let y = x.lookup_bl_rect();
    if x.is_nan() {
        return Ok(1);
    }
    if x <= 0.0 || x >= 1.0 {
        ensure!(y == 0.0, "outside: {y} at {x:e}");
        return Ok(2);
    }
    ensure!(y.abs() < 1.0, "{y} at {x:e}");
    let e = 340.0 * 1.2e-7 + 1e-6; // symmetric points round to different neighbours
    if x < 0.5 {
        ensure!(y >= 0.0, "{y} at {x:e}, first half");
        ensure!(y > 0.0 || x < 1e-6, "{y} at {x:e}, first half");
        let z = (0.5 - x).lookup_bl_rect();
        ensure!((y - z).abs() <= e, "{y} at {x:e} but {z} at {:e}", 0.5 - x);
    } else if x > 0.5 {
        ensure!(y <= 0.0, "{y} at {x:e}, second half");
        ensure!(y < 0.0 || x < 0.500001 || x > 0.999999, "{y} at {x:e}, second half");
    } else {
        ensure!(y.abs() <= e, "{y} in the middle");
    }
    let z = (1.0 - x).lookup_bl_rect();
    ensure!((y + z).abs() <= e, "{y} at {x:e} but {z} at {:e}", 1.0 - x);
    let u = up(x);
    let v = u.lookup_bl_rect();
    ensure!((v - y).abs() as f64 <= 340.0 * (u as f64 - x as f64) + 2e-5, "jumps from {y} at {x:e} to {v} at {u:e}");
    let u = x + 1e-4;
    let v = u.lookup_bl_rect();
    ensure!((v - y).abs() as f64 <= 340.0 * (u as f64 - x as f64).abs() + 2e-5, "jumps from {y} at {x:e} to {v} at {u:e}");
    Ok(3 + (x > 0.5) as u8)
}

// ---------------------------------------------------------------- F12
fn f12_sinc(n: u64) -> Res {
    let x = f(n);
    if !(x.abs() <= 1000.0) {
        return Ok(0);
    }
    let y = x.sinc();
    if x == 0.0 {
        ensure!(y == 1.0, "sinc(0) = {y}");
        return Ok(1);
    }
    let w = (x as f64).sin() / x as f64;
    let w = if x.abs() < 1e-6 { 1.0 } else { w };
    ensure!(near(y, w, 0.0012), "sinc({x:e}) = {y}, want {w}");
    let z = (-x).sinc();
    ensure!((y - z).abs() <= 0.0012, "sinc({x:e}) = {y}, sinc({:e}) = {z}", -x);
    Ok(2)
}
const SI_N: usize = 1 << 16;
fn si_table() -> &'static [f64] {
    static T: OnceLock<Vec<f64>> = OnceLock::new();
    T.get_or_init(|| {
        let g = |t: f64| if t == 0.0 { 1.0 } else { t.sin() / t };
        let h = 20.0 / SI_N as f64;
        let mut v = vec![0.0];
        let mut s = 0.0;
        for k in 0..SI_N {
            let a = k as f64 * h;
            s += h / 6.0 * (g(a) + 4.0 * g(a + h / 2.0) + g(a + h));
            v.push(s);
        }
        v
    })
}
fn si_ref(x: f64) -> f64 {
    let t = si_table();
    let p = x.abs() / 20.0 * SI_N as f64;
    let i = (p as usize).min(SI_N - 1);
    let v = t[i] + (t[i + 1] - t[i]) * (p - i as f64);
    if x < 0.0 { -v } else { v }
}
fn si_case(x: f32) -> Res {
    let y = x.si();
    let w = si_ref(x as f64);
    ensure!(near(y, w, 0.01), "si({x:e}) = {y}, want {w}");
    let z = (-x).si();
    ensure!((y + z).abs() <= 0.0025, "si({x:e}) = {y}, si({:e}) = {z}", -x);
    Ok(1)
}
fn f12_si_grid(n: u64) -> Res {
    si_case(n as f32 * (20.0 / 65536.0))
}
fn f12_si_float(n: u64) -> Res {
    let x = f(n);
    if !(x.abs() <= 20.0) {
        return Ok(0);
    }
    si_case(x)
}

// ---------------------------------------------------------------- F13, F14
fn f13(n: u64) -> Res {
    let x = f(n);
    if x.is_nan() {
        return Ok(0);
    }
    if x.abs() > 88.0 {
        // beyond the biggest float: infinity
        let big = |v: f32, w: f64| {
            let max = f32::MAX as f64;
            (w * 1.01 > max && (v >= f32::MAX * 0.98)) || (w * 0.99 <= max && near(v, w, w * 0.01))
        };
        let (c, s, w) = (Ext::cosh(&x), Ext::sinh(&x), (x.abs() as f64).cosh());
        ensure!(big(c, w), "cosh({x:e}) = {c}, want {w}");
        ensure!(big(if x > 0.0 { s } else { -s }, w), "sinh({x:e}) = {s}, want magnitude {w}");
        return Ok(2);
    }
    let c = Ext::cosh(&x);
    let w = (x as f64).cosh();
    ensure!(near(c, w, w * 1e-3), "cosh({x:e}) = {c}, want {w}");
    ensure!(c >= 1.0, "cosh({x:e}) = {c}");
    let m = Ext::cosh(&-x);
    ensure!(near(c, m as f64, c as f64 * 1e-6), "cosh({x:e}) = {c}, cosh({:e}) = {m}", -x);
    let s = Ext::sinh(&x);
    let w = (x as f64).sinh();
    let tol = w.abs() * 2e-3 + 1e-4;
    ensure!(near(s, w, tol), "sinh({x:e}) = {s}, want {w}");
    let m = Ext::sinh(&-x);
    ensure!(near(s, -m as f64, s.abs() as f64 * 1e-6 + 1e-7), "sinh({x:e}) = {s}, sinh({:e}) = {m}", -x);
    Ok(1)
}
fn f13_tan(n: u64) -> Res {
    let x = f(n);
    if !(x >= 0.0 && x <= std::f32::consts::FRAC_PI_2) {
        return Ok(0);
    }
    let t = x.fast_tan();
    let m = (-x).fast_tan();
    ensure!(near(t, -m as f64, t as f64 * 1e-6), "tan({x:e}) = {t}, tan({:e}) = {m}", -x);
    ensure!(t > 0.0 || x == 0.0, "tan({x:e}) = {t}");
    if x <= 1.0 {
        let w = (x as f64).tan();
        let tol = if x <= 0.5 { 1e-6 } else { 7e-4 };
        ensure!(near(t, w, w * tol + 1e-44), "tan({x:e}) = {t}, want {w}");
    }
    let u = up(x);
    if u <= 1.5 {
        let v = u.fast_tan();
        ensure!(v >= t * (1.0 - 1e-6), "tan({u:e}) = {v} < tan({x:e}) = {t}");
    }
    let u = x * 1.00001;
    if u <= std::f32::consts::FRAC_PI_2 {
        let v = u.fast_tan();
        ensure!(v >= t, "tan({u:e}) = {v} < tan({x:e}) = {t}");
    }
    Ok(1 + (x > 1.0) as u8)
}
fn f14(n: u64) -> Res {
    let x = f(n);
    if !x.is_finite() {
        return Ok(0);
    }
    let y = Ext::tanh(&x);
    if x.abs() >= 1.8446e19 {
        ensure_key!(!y.is_nan(), "tanh-nan-huge", "tanh({x:e}) = {y}");
    }
    ensure!(!y.is_nan(), "tanh({x:e}) = {y}");
    ensure!(y.abs() <= 1.0, "tanh({x:e}) = {y}");
    ensure!(y == 0.0 || (y > 0.0) == (x > 0.0), "tanh({x:e}) = {y}");
    let m = Ext::tanh(&-x);
    ensure!(near(y, -m as f64, 3e-7), "tanh({x:e}) = {y}, tanh({:e}) = {m}", -x);
    if x.abs() <= 1.0 {
        let w = (x as f64).tanh();
        ensure!(near(y, w, 0.1) && (y - w as f32).abs() <= 0.1 * x.abs() + 3e-7, "tanh({x:e}) = {y}, want {w}");
    }
    // monotone, with one rounding error of slack
    let u = x + (x.abs() * 1e-6).max(1e-9);
    let v = Ext::tanh(&u);
    if u.is_finite() && !v.is_nan() {
        let fine = v >= y - 2.4e-7;
        // see KNOWN_FINDINGS.txt: 2x/(2+x^2)
        let rational = |x: f32, y: f32| near(y, 2.0 * x as f64 / (2.0 + (x as f64).powi(2)), 1e-6);
        if x.abs() > 1.4142 && rational(x, y) && rational(u, v) {
            ensure_key!(fine, "tanh-falls-beyond-sqrt2", "tanh falls from {y} at {x:e} to {v} at {u:e}");
        }
        ensure!(fine, "tanh falls from {y} at {x:e} to {v} at {u:e}");
    }
    Ok(1 + (x.abs() > 1.0) as u8)
}

// ---------------------------------------------------------------- F15
const RATES: [f32; 10] = [48000.0, 44100.0, 8000.0, 1.0, 192000.0, 3.0, 22050.0, 0.1, 1e6, 12345.67];
fn f15(n: u64) -> Res {
    f15_at(f(n / 10), RATES[(n % 10) as usize])
}
const AMOUNTS: [f32; 8] = [1.0, 48.0, -3.3, 1e-3, 1e20, 1e-20, 44100.0, 0.3];
/// Every sample rate.
fn f15_rate(n: u64) -> Res {
    let sr = f(n / 8);
    if !(sr >= 0.1 && sr <= 1e6) {
        return Ok(0);
    }
    f15_at(AMOUNTS[(n % 8) as usize], sr)
}
fn f15_at(x: f32, sr: f32) -> Res {
    // the products must stay normal numbers
    if !(x.abs() > 1e-28 && x.abs() < 1e28) {
        if x == 0.0 {
            ensure!(x.samples_to_seconds(sr) == 0.0 && x.samples_to_millis(sr) == 0.0 && x.seconds_to_samples(sr) == 0.0 && x.millis_to_samples(sr) == 0.0, "zero");
        }
        return Ok(0);
    }
    let (d, s) = (x as f64, sr as f64);
    let e = d.abs() * 3e-7;
    let v = x.samples_to_seconds(sr);
    ensure!(near(v, d / s, e / s), "{x} samples at {sr} Hz: {v} s");
    ensure!(near(v.seconds_to_samples(sr), d, e), "{x} samples -> {v} s -> {} samples", v.seconds_to_samples(sr));
    let v = x.samples_to_millis(sr);
    ensure!(near(v, d / s * 1000.0, e / s * 1000.0), "{x} samples at {sr} Hz: {v} ms");
    ensure!(near(v.millis_to_samples(sr), d, 2.0 * e), "{x} samples -> {v} ms -> {} samples", v.millis_to_samples(sr));
    let v = x.seconds_to_samples(sr);
    ensure!(near(v, d * s, e * s), "{x} s at {sr} Hz: {v} samples");
    ensure!(near(v.samples_to_seconds(sr), d, e), "{x} s -> {v} samples -> {} s", v.samples_to_seconds(sr));
    let v = x.millis_to_samples(sr);
    ensure!(near(v, d * s / 1000.0, e * s / 1000.0), "{x} ms at {sr} Hz: {v} samples");
    ensure!(near(v.samples_to_millis(sr), d, 2.0 * e), "{x} ms -> {v} samples -> {} ms", v.samples_to_millis(sr));
    Ok(1)
}

fn props() -> Vec<Prop> {
    fn st(total: u64, th: u64, q: u64, c: u64) -> impl Fn(Tier, Profile) -> Plan + Sync + Send + 'static {
        move |t, p| {
            Plan::stride(total, match (t, p) {
                (Tier::Thorough, Profile::Release) => th,
                (Tier::Thorough, _) => th.max(q / 4 * 2 + 1),
                (_, Profile::Release) => q,
                _ => c,
            })
        }
    }
    let g = grid().len() as u64;
    let one = 1.0f32.to_bits() as u64 + 1;
    const NEG: u64 = 0x8000_0000;
    vec![
        Prop {
            id: "F01",
            level: "exploration",
            rule: "complete enumeration of all 2^32 bit patterns; classes 1 zero, 2 subnormal, 3 infinite, 4 NaN, 5 normal",
            assumptions: vec![],
            scenarios: vec![sweep("all", "every bit pattern", &RC, st(N32, 1, 1, 7), f01, show_f32)],
        },
        Prop {
            id: "F02",
            level: "exploration",
            rule: "every float in [-1,1] x depths 0..30, refusal of larger depths; every float outside; class 2 = outside",
            assumptions: vec!["NaN input is not covered by the property"],
            scenarios: vec![
                corners("corners", &RC, 1, f02, show_f32),
                sweep("positive", "floats in [0,1]", &RC, st(one, 1, 5, 61), f02, show_f32),
                sweep("negative", "floats in [-1,0]", &RC, st(one, 1, 5, 61), |n| f02(n + NEG), |n| show_f32(n + NEG)),
                sweep("any", "every float", &RC, st(N32, 1, 13, 101), f02, show_f32),
                sweep("above-one", "the floats right above 1 and below -1", &RC, move |_, _| Plan(vec![(one, one + 70000, 1), (one + NEG, one + NEG + 70000, 1)]), f02, show_f32),
            ],
        },
        Prop {
            id: "F03",
            level: "exploration",
            rule: "every bit pattern x depths 0..23; every depth 24..255 refused",
            assumptions: vec![],
            scenarios: vec![
                corners("corners", &RC, 1, f03, show_f32),
                sweep("all", "every bit pattern, every depth", &RC, st(N32, 1, 1, 17), f03, show_f32),
                sweep("refused", "too large depths", &RC, |_, _| Plan::all(232 * 4096), f03_refuse, |n| format!("depth {} value choice {}", n % 232 + 24, n / 232)),
            ],
        },
        Prop {
            id: "F04",
            level: "exploration",
            rule: "all triples over a grid of special floats (zeros, subnormals, powers of two and neighbours, extremes, NaN, infinities); every float as position and as endpoint; classes 1 accepted at an end, 2 inside, 3 NaN, 4 infinite, 5 range",
            assumptions: vec!["rounding tolerance 2.5e-7 of the larger endpoint"],
            scenarios: vec![
                sweep("grid", "triples of special floats", &RC, st(g * g * g, 1, 1, 7), f04_grid, f04_show),
                corners("corner-positions", &RC, 6, f04_t, |n| format!("endpoints {:?} t: {}", AB[(n % 6) as usize], show_f32(n / 6))),
                corners("corner-endpoints", &RC, 8, f04_ab, |n| format!("choice {} value: {}", n % 8, show_f32(n / 8))),
                sweep("positions", "every float as position", &RC, st(6 * N32, 1, 7, 101), f04_t, |n| format!("endpoints {:?} t: {}", AB[(n % 6) as usize], show_f32(n / 6))),
                sweep("endpoints", "every float as endpoint", &RC, st(8 * N32, 1, 7, 101), f04_ab, |n| format!("choice {} value: {}", n % 8, show_f32(n / 8))),
            ],
        },
        Prop {
            id: "F05",
            level: "exploration",
            rule: "1..16 points x 24 point sets (every basis polynomial, constants, powers, irregular, extreme) x 513 abscissae over the whole span; 17..100 points x 28 point sets at all points and quarters; every float abscissa for 2, 3, 4 and 7 points; four-point form at every 2^-16; class 2, 4 = at a point, 3, 4 = four points",
            assumptions: vec!["rounding: (4n+4) half-ulps of the sum of the absolute terms"],
            scenarios: vec![
                sweep("general", "all point counts", &RC, |_, _| Plan::all((F05_X + 1) * 24 * 16), f05, f05_show),
                sweep("many", "17 to 100 points, at every point and three places between", &RC, st(28 * 84, 1, 1, 5), f05_many, |n| format!("{} points, set {}", n / 28 + 17, n % 28)),
                corners("corner-abscissae", &RC, 4, f05_any, |n| format!("points choice {} x: {}", n % 4, show_f32(n / 4))),
                sweep("abscissae", "every abscissa for 2, 3, 4 and 7 points", &RC, st(4 * 0x40c0_0001, 1, 13, 211), f05_any, |n| format!("points choice {} x: {}", n % 4, show_f32(n / 4))),
                sweep("four", "four-point form against the general one", &RC, |_, _| Plan::all(((3 << 16) + 1) * 24), f05_four, |n| format!("x {}/65536 set {}", n % ((3 << 16) + 1), n / ((3 << 16) + 1))),
            ],
        },
        Prop {
            id: "F06",
            level: "exploration",
            rule: "complete enumeration of all 2^32 floats; classes 1 NaN or negative, 2 zero, 3 infinite, 4 ordinary",
            assumptions: vec![],
            scenarios: vec![
                sweep("all", "every float", &RC, st(N32, 1, 1, 7), f06, show_f32),
                corners("corners", &RC, 1, f06, show_f32),
                sweep("edges", "zeros, infinities, NaN and neighbours", &RC, |_, _| Plan(vec![(0, 100, 1), (NEG, NEG + 100, 1), (0x7f80_0000 - 100, 0x7f80_0100, 1), (0xff80_0000 - 100, 0xff80_0100, 1), (0x7fc0_0000, 0x7fc0_0100, 1), (0xffff_ff00, N32, 1)]), f06, show_f32),
            ],
        },
        Prop {
            id: "F07",
            level: "exploration",
            rule: "complete enumeration of all positive floats as ratio and all floats as level, each with its successor; round trips over 4 million levels; ratio classes 1 below, 2 above unity; level classes 1 inside, 2 below -750 dB, 3 above 770 dB",
            assumptions: vec!["the platform's double-precision log10 and powf"],
            scenarios: vec![
                sweep("levels", "every ratio", &RC, st(0x7f80_0000, 1, 1, 7), f07_level, show_f32),
                sweep("ratios", "every level", &RC, st(N32, 1, 1, 17), f07_ratio, show_f32),
                corners("corner-levels", &RC, 1, f07_level, show_f32),
                corners("corner-ratios", &RC, 1, f07_ratio, show_f32),
                sweep("round-trip", "there and back", &RC, st(1 << 22, 1, 1, 7), f07_inverse, |n| format!("level choice {n}")),
            ],
        },
        Prop {
            id: "F08",
            level: "exploration",
            rule: "complete enumeration: all 65536 phases x all 256 degrees; class = terms used",
            assumptions: vec![],
            scenarios: vec![sweep("all", "every phase and degree", &RC, |_, _| Plan::all(1 << 24), f08, |n| format!("phase {} degree {}", n as u16 as i16, n >> 16))],
        },
        Prop {
            id: "F09",
            level: "exploration",
            rule: "complete enumeration of all 2^32 floats; classes 1 not finite, 2 up to 1000, 3 beyond",
            assumptions: vec!["the platform's double-precision sine and cosine"],
            scenarios: vec![
                corners("corners", &RC, 1, f09, show_f32),
                sweep("all", "every float", &RC, st(N32, 1, 1, 17), f09, show_f32),
            ],
        },
        Prop {
            id: "F10",
            level: "exploration",
            rule: "complete enumeration of all 2^32 floats; classes 1 not finite, 2 up to 1000 (with the neighbour 0.0001 away), 3 beyond",
            assumptions: vec!["the platform's double-precision sine"],
            scenarios: vec![
                corners("corners", &RC, 1, f10, show_f32),
                sweep("all", "every float", &RC, st(N32, 1, 1, 17), f10, show_f32),
            ],
        },
        Prop {
            id: "F11",
            level: "exploration",
            rule: "complete enumeration of all 2^32 floats, with neighbours; memory safety also under the address sanitizer; classes 1 NaN, 2 outside, 3 first half, 4 second half",
            assumptions: vec![],
            scenarios: vec![
                sweep("all", "every float", &RCA, st(N32, 1, 1, 17), f11, show_f32),
                corners("corners", &RC, 1, f11, show_f32),
                sweep("quarters", "floats around 0, 1/4, 1/2, 3/4 and 1", &RCA, |_, _| Plan([0.25f32, 0.5, 0.75, 1.0].iter().map(|x| (x.to_bits() as u64 - 30000, x.to_bits() as u64 + 30000, 1)).chain([(0, 30000, 1)]).collect()), f11, show_f32),
            ],
        },
        Prop {
            id: "F12",
            level: "exploration",
            rule: "sinc: complete enumeration of all floats up to 1000; sine integral: 65537 equidistant arguments up to 20 and floats at a stride, against an integral computed in double precision",
            assumptions: vec!["the platform's double-precision sine"],
            scenarios: vec![
                sweep("sinc", "every float", &RC, st(N32, 1, 1, 17), f12_sinc, show_f32),
                corners("corners", &RC, 1, f12_sinc, show_f32),
                corners("si-corners", &[Profile::Release], 1, f12_si_float, show_f32),
                sweep("si-grid", "sine integral, equidistant", &RC, st(65537, 1, 1, 7), f12_si_grid, |n| format!("x = {n}*20/65536")),
                sweep("si-floats", "sine integral, floats", &RC, st(N32, 499, 20011, 200003), f12_si_float, show_f32),
            ],
        },
        Prop {
            id: "F13",
            level: "exploration",
            rule: "complete enumeration of all floats (hyperbolic) and those up to pi/2 (tangent); hyperbolic class 2 = above 88, tangent class 2 = above 1",
            assumptions: vec!["the platform's double-precision cosh, sinh and tan"],
            scenarios: vec![
                corners("corners", &RC, 1, f13, show_f32),
                corners("tangent-corners", &RC, 1, f13_tan, show_f32),
                sweep("hyperbolic", "sinh and cosh", &RC, st(N32, 1, 3, 31), f13, show_f32),
                sweep("overflow", "sinh and cosh of 64..256", &RC, st(2 << 24, 1, 1, 11), |n| f13((n & 0xff_ffff) + 0x4280_0000 + (n >> 24) * NEG), |n| show_f32((n & 0xff_ffff) + 0x4280_0000 + (n >> 24) * NEG)),
                sweep("tangent", "fast tangent", &RC, st(0x4000_0000, 1, 1, 17), f13_tan, show_f32),
            ],
        },
        Prop {
            id: "F14",
            level: "exploration",
            rule: "complete enumeration of all floats, with neighbours; class 2 = beyond 1",
            assumptions: vec!["the platform's double-precision tanh"],
            scenarios: vec![
                sweep("positive", "floats from 0 to the square root of 2", &RC, st(1.4142f32.to_bits() as u64, 1, 1, 7), f14, show_f32),
                sweep("negative", "floats from 0 to minus the square root of 2", &RC, st(1.4142f32.to_bits() as u64, 1, 1, 7), |n| f14(n + NEG), |n| show_f32(n + NEG)),
                corners("corners", &RC, 1, f14, show_f32),
                sweep("beyond", "all floats, sparse", &RC, st(N32, 1, 61, 601), f14, show_f32),
            ],
        },
        Prop {
            id: "F15",
            level: "exploration",
            rule: "every float between 1e-28 and 1e28 x 10 sample rates, every sample rate between 0.1 and 1e6 x 8 amounts; class 0 = outside",
            assumptions: vec!["rounding tolerance 3e-7 relative"],
            scenarios: vec![
                corners("corners", &RC, 10, f15, |n| format!("sr {} x: {}", RATES[(n % 10) as usize], show_f32(n / 10))),
                corners("corner-rates", &RC, 8, f15_rate, |n| format!("amount {} sr: {}", AMOUNTS[(n % 8) as usize], show_f32(n / 8))),
                sweep("rates", "every sample rate from 0.1 to 1e6", &RC, st(8 * 0x4974_2401, 1, 31, 211), f15_rate, |n| format!("amount {} sr: {}", AMOUNTS[(n % 8) as usize], show_f32(n / 8))),
                sweep("all", "every float", &RC, st(10 * N32, 1, 31, 211), f15, |n| format!("sr {} x: {}", RATES[(n % 10) as usize], show_f32(n / 10))),
            ],
        },
    ]
}
fn main() {
    main_with(props())
}
