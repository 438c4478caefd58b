//! S01, S02: panning; C01: clipping.
use eatmc::*;
use embedded_audio_tools::dynamics::{digital_clip, poly_clip, sigmoid_clip, tanh_clip};
use embedded_audio_tools::stereo::*;

const N32: u64 = 1 << 32;
const NEG: u64 = 0x8000_0000;
fn f(n: u64) -> f32 {
    f32::from_bits(n as u32)
}
const SAMPLES: [f32; 8] = [1.0, -1.0, 0.5, -0.37, 1e-20, 123.456, 0.0, -1e30];

/// Checked amount handling: Some(true) accepted as it should be, Some(false) refused as it should be.
fn verdict<T: std::fmt::Debug>(a: f32, r: &Result<T, PanningError>, name: &str) -> Result<bool, Box<Fail>> {
    match r {
        Ok(v) => {
            ensure!((-1.0..=1.0).contains(&a), "{name}: amount {a} accepted: {v:?}");
            Ok(true)
        }
        Err(PanningError::TooLeft) => {
            ensure!(a < -1.0, "{name}: amount {a} refused as too far left");
            Ok(false)
        }
        Err(PanningError::TooRight) => {
            ensure!(a > 1.0, "{name}: amount {a} refused as too far right");
            Ok(false)
        }
    }
}
fn s01(n: u64) -> Res {
    let a = f(n);
    if a.is_nan() {
        return Ok(0);
    }
    let s = SAMPLES[(n % 8) as usize];
    let m = mono_pan(a, s);
    let st = stereo_pan(a, (s, 2.0));
    let ok = verdict(a, &m, "mono_pan")?;
    ensure!(verdict(a, &st, "stereo_pan")? == ok, "the checked pans disagree at {a}");
    if !ok {
        return Ok(2);
    }
    let (l, r) = m.unwrap();
    let (wl, wr) = (s as f64 * (1.0 - a as f64) / 2.0, s as f64 * (1.0 + a as f64) / 2.0);
    let tol = s.abs() as f64 * 1.3e-7;
    ensure!(near(l, wl, tol) && near(r, wr, tol), "mono_pan({a}, {s}) = ({l}, {r}), want ({wl}, {wr})");
    ensure!(near(l + r, s as f64, 2.0 * tol), "mono_pan({a}, {s}): sides sum to {}", l + r);
    ensure!(mono_pan_unchecked(a, s) == (l, r), "mono_pan_unchecked({a}, {s}) differs");
    ensure!(stereo_pan_unchecked(a, (s, 2.0)) == st.unwrap(), "stereo_pan_unchecked({a}, ..) differs");
    let (p, q) = (s, SAMPLES[(n / 8 % 8) as usize]);
    let x = crossfade_correlated_unchecked(a, (p, q));
    let w = p as f64 * (1.0 - a as f64) / 2.0 + q as f64 * (1.0 + a as f64) / 2.0;
    ensure!(near(x, w, (p.abs() as f64 + q.abs() as f64) * 2e-7), "crossfade({a}, ({p}, {q})) = {x}, want {w}");
    Ok(1)
}
fn s01_ends(n: u64) -> Res {
    let (p, q) = (SAMPLES[(n % 8) as usize], SAMPLES[(n / 8) as usize]);
    ensure!(mono_pan(-1.0, p) == Ok((p, 0.0)) && mono_pan(1.0, p) == Ok((0.0, p)), "mono_pan of {p} at the ends");
    ensure!(crossfade_correlated_unchecked(-1.0, (p, q)) == p && crossfade_correlated_unchecked(1.0, (p, q)) == q, "crossfade of {p} and {q} at the ends");
    Ok(1)
}
fn gains(a: f32) -> (f32, f32) {
    stereo_pan(a, (1.0, 1.0)).unwrap_or((f32::NAN, f32::NAN))
}
fn s02(n: u64) -> Res {
    let a = f(n);
    if !(-1.0..=1.0).contains(&a) {
        return Ok(0);
    }
    let (l, r) = gains(a);
    let pw = (l as f64).powi(2) + (r as f64).powi(2);
    ensure!((0.9999..=1.13).contains(&pw), "gains ({l}, {r}) at {a}: power {pw}");
    for (g, share) in [(l, (1.0 - a as f64) / 2.0), (r, (1.0 + a as f64) / 2.0)] {
        let w = share.sqrt();
        ensure!(g as f64 >= w - 1e-4 && g as f64 <= w * 1.062 + 1e-4, "gain {g} at {a}, square root of the share {w}");
    }
    let m = gains(-a);
    ensure!(near(m.0, r as f64, 1e-6) && near(m.1, l as f64, 1e-6), "gains ({l}, {r}) at {a}, {m:?} at {}", -a);
    for b in [up(a), a + 1e-4, a + 0.01] {
        if b <= 1.0 {
            let (p, q) = gains(b);
            ensure!(p <= l + 1e-6 && q >= r - 1e-6, "gains ({l}, {r}) at {a}, ({p}, {q}) at {b}");
        }
    }
    let (x, y) = (SAMPLES[(n % 8) as usize], SAMPLES[(n / 8 % 8) as usize]);
    let o = stereo_pan(a, (x, y)).unwrap_or((f32::NAN, f32::NAN));
    ensure!(near(o.0, x as f64 * l as f64, x.abs() as f64 * 2e-7 + 1e-44) && near(o.1, y as f64 * r as f64, y.abs() as f64 * 2e-7 + 1e-44), "stereo_pan({a}, ({x}, {y})) = {o:?} with gains ({l}, {r})");
    Ok(1)
}

// ---------------------------------------------------------------- C01
fn clip_ok(name: &str, x: f32, y: f32) -> Result<(), Box<Fail>> {
    if x.is_nan() {
        return Ok(());
    }
    ensure!(y >= -1.0 && y <= 1.0, "{name}({x:e}) = {y}");
    ensure!(y == 0.0 || (y > 0.0) == (x > 0.0), "{name}({x:e}) = {y}");
    if x.abs() > 1.0 {
        ensure!(y == x.signum(), "{name}({x:e}) = {y}");
    }
    Ok(())
}
fn c01_hard(n: u64) -> Res {
    let x = f(n);
    let y = digital_clip(x);
    clip_ok("digital_clip", x, y)?;
    if x.abs() <= 1.0 {
        ensure!(y == x, "digital_clip({x:e}) = {y:e}");
        return Ok(1);
    }
    Ok(2)
}
const SOFT: [&str; 3] = ["tanh_clip", "poly_clip", "sigmoid_clip"];
fn soft(k: usize, x: f32, par: f32) -> f32 {
    match k {
        0 => tanh_clip(x),
        1 => poly_clip(x, par),
        _ => sigmoid_clip(x, par),
    }
}
fn c01_soft(n: u64) -> Res {
    let mut m = Mix(n);
    let k = m.pick(3) as usize;
    let par = [1.0f32, 3.0, 2.0, 5.0, 0.5][m.pick(5) as usize];
    let x = f(m.0);
    let inside = !(x.abs() > 1.0);
    let y = if inside {
        match std::panic::catch_unwind(|| soft(k, std::hint::black_box(x), par)) {
            Ok(y) => y,
            Err(_) => {
                let p = last_panic();
                // see KNOWN_FINDINGS.txt
                let key = if p.contains("not yet implemented") { format!("{}-not-implemented", SOFT[k]) } else { String::new() };
                return Err(Box::new(Fail { key, msg: format!("{}({x:e}) panics: {p}", SOFT[k]) }));
            }
        }
    } else {
        soft(k, x, par)
    };
    clip_ok(SOFT[k], x, y)?;
    Ok(1 + inside as u8)
}
fn c01_show(n: u64) -> String {
    let mut m = Mix(n);
    let k = m.pick(3) as usize;
    let p = m.pick(5);
    format!("{} parameter choice {p} {}", SOFT[k], show_f32(m.0))
}

fn props() -> Vec<Prop> {
    fn st(total: u64, th: u64, q: u64, c: u64) -> impl Fn(Tier, Profile) -> Plan + Sync + Send + 'static {
        move |t, p| {
            Plan::stride(total, match (t, p) {
                (Tier::Thorough, _) => th,
                (_, Profile::Release) => q,
                _ => c,
            })
        }
    }
    let one = 1.0f32.to_bits() as u64;
    vec![
        Prop {
            id: "S01",
            level: "exploration",
            rule: "every float as amount, sample values cycling over 8 x 8; both ends with all pairs; class 2 = refused, 0 = NaN",
            assumptions: vec!["NaN amounts are not covered by the property"],
            scenarios: vec![
                sweep("amounts", "every float", &RC, st(N32, 1, 1, 7), s01, show_f32),
                corners("corners", &RC, 1, s01, show_f32),
                sweep("around-ends", "floats around -1 and 1", &RC, move |_, _| Plan(vec![(one - 70000, one + 70000, 1), (one + NEG - 70000, one + NEG + 70000, 1)]), s01, show_f32),
                sweep("ends", "exact ends", &RC, |_, _| Plan::all(64), s01_ends, |n| format!("sample choices {n}")),
            ],
        },
        Prop {
            id: "S02",
            level: "exploration",
            rule: "every float in [-1,1] as amount, with three larger neighbours and the mirrored amount",
            assumptions: vec![],
            scenarios: vec![
                corners("corners", &RC, 1, s02, show_f32),
                sweep("positive", "amounts in [0,1]", &RC, st(one + 1, 1, 1, 7), s02, show_f32),
                sweep("negative", "amounts in [-1,0]", &RC, st(one + 1, 1, 1, 7), |n| s02(n + NEG), |n| show_f32(n + NEG)),
            ],
        },
        Prop {
            id: "C01",
            level: "exploration",
            rule: "hard clipper: complete enumeration of all 2^32 floats; the other clippers: floats beyond 1 at a stride and all floats around 1, floats within [-1,1] on a sparse grid (they panic there, see KNOWN_FINDINGS.txt)",
            assumptions: vec![],
            scenarios: vec![
                sweep("hard", "every float", &RC, st(N32, 1, 1, 3), c01_hard, show_f32),
                corners("corners", &RC, 1, c01_hard, show_f32),
                corners("corners-beyond", &RC, 15, |n| if f(n / 15).abs() > 1.0 { c01_soft(n) } else { Ok(0) }, c01_show),
                sweep("beyond", "the other clippers beyond 1", &RC, move |t, p| {
                    let s = match (t, p) {
                        (Tier::Thorough, _) => 61,
                        (_, Profile::Release) => 1009,
                        _ => 10007,
                    };
                    Plan(vec![(15 * (one + 1), 15 * 0x7f80_0001, s), (15 * (NEG + one + 1), 15 * (NEG + 0x7f80_0001), s), (15 * (one + 1), 15 * (one + 5000), 1), (15 * (NEG + one + 1), 15 * (NEG + one + 5000), 1)])
                }, c01_soft, c01_show),
                sweep("within", "the other clippers within [-1,1]", &RC, move |t, _| {
                    let s = if t == Tier::Thorough { 100_003 } else { 2_000_003 };
                    Plan(vec![(0, 15 * (one + 1), s), (15 * NEG, 15 * (NEG + one + 1), s), (15 * (one - 20), 15 * (one + 1), 1), (15 * (NEG + one - 20), 15 * (NEG + one + 1), 1), (0, 150, 1)])
                }, c01_soft, c01_show),
            ],
        },
    ]
}
fn main() {
    main_with(props())
}
