//! Arena with guard zones, plain-old-data snapshots, float helpers, index alphabets.

pub const CANARY: u32 = 0x7fc0_dead;
pub const GUARD: usize = 64;

#[inline(always)]
pub fn canary() -> f32 {
    f32::from_bits(CANARY)
}

/// Several float buffers in one allocation, separated by guard zones of NaN canaries.
/// A stray read yields NaN (also with weight zero), a stray write is seen by `intact`.
pub struct Arena {
    mem: Box<[f32]>,
    bufs: Vec<(usize, usize)>,
}
impl Arena {
    pub fn new(lens: &[usize]) -> Arena {
        let total: usize = lens.iter().map(|l| l + GUARD).sum::<usize>() + GUARD;
        let mem = vec![canary(); total].into_boxed_slice();
        let mut bufs = vec![];
        let mut at = GUARD;
        for l in lens {
            bufs.push((at, *l));
            at += l + GUARD;
        }
        let mut a = Arena { mem, bufs };
        for b in 0..lens.len() {
            for i in 0..lens[b] {
                a.set(b, i, 0.0);
            }
        }
        a
    }
    // All access goes through a raw pointer taken from the allocation: the code under test holds
    // raw pointers into it, too.
    fn p(&self) -> *mut f32 {
        self.mem.as_ptr() as *mut f32
    }
    pub fn ptr(&self, b: usize) -> *mut f32 {
        unsafe { self.p().add(self.bufs[b].0) }
    }
    pub fn len(&self, b: usize) -> usize {
        self.bufs[b].1
    }
    pub fn slice_mut<'a>(&self, b: usize) -> &'a mut [f32] {
        unsafe { std::slice::from_raw_parts_mut(self.ptr(b), self.len(b)) }
    }
    #[inline(always)]
    pub fn get(&self, b: usize, i: usize) -> f32 {
        debug_assert!(i < self.len(b));
        unsafe { self.ptr(b).add(i).read_volatile() }
    }
    pub fn set(&mut self, b: usize, i: usize, v: f32) {
        assert!(i < self.len(b));
        unsafe { self.ptr(b).add(i).write_volatile(v) }
    }
    pub fn fill(&mut self, b: usize, f: impl Fn(usize) -> f32) {
        for i in 0..self.len(b) {
            self.set(b, i, f(i));
        }
    }
    /// All guard zones still hold the canary.
    pub fn intact(&self) -> bool {
        let mut at = 0;
        let ok = |a: usize, b: usize| (a..b).all(|i| unsafe { self.p().add(i).read_volatile() }.to_bits() == CANARY);
        for (o, l) in &self.bufs {
            if !ok(at, *o) {
                return false;
            }
            at = o + l;
        }
        ok(at, self.mem.len())
    }
    pub fn save(&self, out: &mut Vec<u8>) {
        for (b, (_, l)) in self.bufs.iter().enumerate() {
            for i in 0..*l {
                out.extend_from_slice(&self.get(b, i).to_bits().to_le_bytes());
            }
        }
    }
    pub fn load(&mut self, r: &mut Reader) {
        for b in 0..self.bufs.len() {
            for i in 0..self.len(b) {
                let v = f32::from_bits(r.u32());
                self.set(b, i, v);
            }
        }
    }
}

/// Bitwise snapshot of a value that owns nothing.
pub fn put<T>(out: &mut Vec<u8>, v: &T) {
    const { assert!(!std::mem::needs_drop::<T>()) };
    let n = std::mem::size_of::<T>();
    let p = v as *const T as *const u8;
    let at = out.len();
    out.resize(at + n, 0);
    unsafe { std::ptr::copy_nonoverlapping(std::hint::black_box(p), out.as_mut_ptr().add(at), n) };
}

pub struct Reader<'a>(pub &'a [u8]);
impl Reader<'_> {
    pub fn get<T>(&mut self, into: &mut T) {
        const { assert!(!std::mem::needs_drop::<T>()) };
        let n = std::mem::size_of::<T>();
        assert!(self.0.len() >= n);
        unsafe { std::ptr::copy_nonoverlapping(self.0.as_ptr(), into as *mut T as *mut u8, n) };
        self.0 = &self.0[n..];
    }
    pub fn u32(&mut self) -> u32 {
        let mut v = 0u32;
        self.get(&mut v);
        v
    }
}

/// Bitwise copy of a value that owns nothing (real objects under test are not Clone).
pub fn snap<T>(v: &T) -> T {
    const { assert!(!std::mem::needs_drop::<T>()) };
    unsafe { std::ptr::read(v) }
}

/// Irregular, position-identifying sample values (no accidental linearity, all distinct).
pub fn val(i: usize) -> f32 {
    let h = (i as u64).wrapping_mul(2654435761) >> 7 & 0x3ff;
    (h as f32) / 16.0 - 30.0 + (i as f32) * 0.0078125
}

#[inline(always)]
pub fn near(a: f32, b: f64, tol: f64) -> bool {
    // false for NaN
    ((a as f64) - b).abs() <= tol || (a as f64) == b
}
pub fn same(a: f32, b: f32) -> bool {
    a.to_bits() == b.to_bits()
}

/// Next float in bit order (towards +inf) of a finite value.
pub fn up(x: f32) -> f32 {
    if x == 0.0 {
        return f32::from_bits(1);
    }
    let b = x.to_bits();
    f32::from_bits(if x > 0.0 { b + 1 } else { b - 1 })
}
pub fn down(x: f32) -> f32 {
    -up(-x)
}

pub fn show_f32(x: u64) -> String {
    let f = f32::from_bits(x as u32);
    format!("x={f:e} (bits 0x{:08x})", x as u32)
}

/// Floats worth combining in grids: zeros, powers of two and neighbours, dyadics, decimals, extremes.
pub fn special_floats() -> Vec<f32> {
    let mut v = vec![0.0f32, -0.0, f32::MIN_POSITIVE, f32::from_bits(1), f32::from_bits(0x007fffff), f32::MAX, f32::EPSILON, 1.0 / 3.0, 0.1, 0.7071, 3.1415927, 2.7182817, 1e-3, 1e-10, 1e10, 1e30, 100.0, 1000.0, 44100.0, 48000.0, 123.456];
    for e in [-126i32, -64, -32, -31, -24, -23, -16, -10, -8, -7, -4, -3, -2, -1, 0, 1, 2, 3, 4, 8, 10, 16, 23, 24, 25, 31, 32, 33, 63, 64, 100, 127] {
        let p = 2f32.powi(e);
        v.extend([p, up(p), down(p), p * 1.5]);
    }
    let n: Vec<f32> = v.iter().map(|x| -x).collect();
    v.extend(n);
    v.retain(|x| x.is_finite());
    v.sort_by(|a, b| a.total_cmp(b));
    v.dedup_by_key(|x| x.to_bits());
    v
}

/// Mixed-radix decoding of a case number.
pub struct Mix(pub u64);
impl Mix {
    pub fn pick(&mut self, n: u64) -> u64 {
        let r = self.0 % n;
        self.0 /= n;
        r
    }
    pub fn of<'a, T>(&mut self, a: &'a [T]) -> &'a T {
        let n = a.len() as u64;
        &a[self.pick(n) as usize]
    }
}

fn constants() -> Vec<f32> {
    use std::f64::consts::*;
    let mut v: Vec<f64> = vec![];
    for k in 1..=1024 {
        let k = k as f64;
        v.extend([k.sqrt(), k.sqrt().recip(), k.recip(), k.cbrt(), k.ln(), k.log2(), k.log10()]);
    }
    for c in [PI, E, SQRT_2, 3f64.sqrt(), LN_2, LN_10, (1.0 + 5f64.sqrt()) / 2.0] {
        for k in 1..=32 {
            for d in [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 24, 32, 64, 90, 100, 128, 180, 360] {
                v.extend([c * k as f64 / d as f64, k as f64 / d as f64 / c]);
            }
        }
    }
    for k in -240..=240 {
        let k = k as f64;
        v.extend([(k / 12.0).exp2(), 440.0 * (k / 12.0).exp2(), 10f64.powf(k / 10.0), 10f64.powf(k / 20.0), 10f64.powf(k / 40.0), 10f64.powf(k / 80.0)]);
    }
    for r in [8000, 11025, 12000, 16000, 22050, 24000, 32000, 44100, 48000, 64000, 88200, 96000, 128000, 176400, 192000, 352800, 384000] {
        for k in 1..=64 {
            let (r, k) = (r as f64, k as f64);
            v.extend([r * k, r / k, k / r, r * k / 64.0, r / (2.0 * PI) * k, r / (k * PI)]);
        }
    }
    v.iter().map(|x| *x as f32).collect()
}

/// Bit patterns of floats where code likes to branch: all floats with at most 12 significant bits and
/// their neighbours in bit order, the decimals k, k/10, k/100, k/1000 for |k| < 10000, square roots and
/// reciprocals of small numbers, simple multiples of the usual constants, semitones, decibels, the usual
/// rates and their fractions; all with their neighbours and both signs.
pub fn corner_list() -> &'static [u32] {
    static L: std::sync::OnceLock<Vec<u32>> = std::sync::OnceLock::new();
    L.get_or_init(|| {
        let mut v = vec![];
        for k in 0..1u32 << 20 {
            let b = k << 12;
            v.extend([b, b.wrapping_add(1), b.wrapping_sub(1)]);
        }
        for k in -9999..10000i32 {
            for d in [1.0f32, 10.0, 100.0, 1000.0] {
                v.push((k as f32 / d).to_bits());
            }
        }
        for x in constants() {
            for y in [x, -x] {
                v.extend([y, up(y), down(y)].map(f32::to_bits));
            }
        }
        v.sort();
        v.dedup();
        v
    })
}
