//! M01..M07: memory slices.
use eatmc::preempt::{self, Schedules, Seg, ALONE};
use eatmc::*;
use embedded_audio_tools::errors::MemSliceError;
use embedded_audio_tools::memory_access::*;
use embedded_audio_tools::DelayLine;
use std::cell::RefCell;
use std::collections::HashMap;
use std::sync::OnceLock;

type Mut = MemorySlice<Mutable>;
type Non = MemorySlice<NonMutable>;

/// Long-lived arenas per length, filled with `val`; cases must restore what they change.
fn with_arena<R>(len: usize, f: impl FnOnce(&mut Arena) -> R) -> R {
    thread_local!(static C: RefCell<HashMap<usize, Arena>> = RefCell::new(HashMap::new()));
    C.with(|c| {
        let mut c = c.borrow_mut();
        let a = c.entry(len).or_insert_with(|| {
            let mut a = Arena::new(&[len]);
            a.fill(0, val);
            a
        });
        f(a)
    })
}
fn pristine(a: &Arena) -> bool {
    a.intact() && (0..a.len(0)).all(|i| same(a.get(0, i), val(i)))
}

// ---------------------------------------------------------------- M01
const EXTREME: [usize; 22] = [
    1 << 15, (1 << 16) - 1, 1 << 16, (1 << 16) + 1, (1 << 24) - 1, 1 << 24, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, (1 << 32) - 1, 1 << 32,
    (1 << 32) + 1, 1 << 61, (1 << 62) - 1, 1 << 62, (1 << 62) + 1, 1 << 63, (1 << 63) - 1, (1 << 63) + 1, usize::MAX - 1, usize::MAX, usize::MAX - 2,
];
const LENS: [usize; 33] = [
    0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 17, 24, 31, 32, 33, 64, 100, 255, 256, 257, 1000, 4096, 65535, 65536, 65537, 70000, (1 << 18) + 1, (1 << 20) + 3,
];
fn m01_cases() -> &'static Vec<(usize, usize)> {
    static C: OnceLock<Vec<(usize, usize)>> = OnceLock::new();
    C.get_or_init(|| {
        let mut v = vec![];
        for l in (0..=200).chain(LENS.into_iter().filter(|l| *l > 200)) {
            let mut idx: Vec<usize> = vec![];
            if l <= 300 {
                idx.extend(0..=2 * l + 4);
            } else {
                idx.extend((0..2 * l).step_by(l / 97 + 1));
                idx.extend([0, 1, 2, l / 2, l - 2, l - 1, l, l + 1, l + 2, 2 * l - 1, 2 * l, 2 * l + 1]);
                idx.extend((8..24).flat_map(|k| [(1usize << k) - 1, 1 << k]));
            }
            for e in EXTREME {
                idx.push(e);
                // same position after a truncation of the index to fewer bits
                idx.push(e.wrapping_add(l / 2));
                idx.push(e.wrapping_add(l));
                idx.push(e.wrapping_sub(l));
            }
            idx.sort();
            idx.dedup();
            v.extend(idx.into_iter().map(|i| (l, i)));
        }
        v
    })
}
const VALUES: [u32; 8] = [0x3f800001, 0x80000000, 0x7f800000, 0xff800000, 0x7fc00001, 0x00000001, 0xc2f6e979, 0x7f7fffff];

fn m01_case(n: u64) -> Res {
    let (l, i) = m01_cases()[n as usize];
    with_arena(l, |a| {
        let mut m: Mut = from_slice_mut(a.slice_mut(0));
        let r: Non = from_slice(a.slice_mut(0));
        ensure!(m.len() == l && r.len() == l, "len() is {} and {}, not {l}", m.len(), r.len());
        for (kind, got) in [("mutable", m.get(i)), ("read-only", r.get(i))] {
            if i < l {
                ensure!(matches!(got, Ok(v) if same(v, val(i))), "{kind} get({i}) = {got:?}, want Ok({})", val(i));
            } else {
                ensure!(got == Err(MemSliceError::IndexOutOfBound), "{kind} get({i}) = {got:?} on {l} elements");
            }
        }
        ensure!(pristine(a), "a read changed memory");
        // huge slices: fewer values, since the whole memory is compared after every write
        let vals = if l > 5000 { &VALUES[..2] } else { &VALUES[..] };
        for &b in vals {
            let v = f32::from_bits(b);
            let got = m.assign(i, v);
            if i < l {
                ensure!(got == Ok(()), "assign({i}) = {got:?}");
                ensure!(same(a.get(0, i), v), "assign({i}, {v}) stored {}", a.get(0, i));
                ensure!(matches!(m.get(i), Ok(x) if same(x, v)) && matches!(r.get(i), Ok(x) if same(x, v)), "read back differs");
                a.set(0, i, val(i));
            } else {
                ensure!(got == Err(MemSliceError::IndexOutOfBound), "assign({i}) = {got:?} on {l} elements");
            }
            ensure!(pristine(a), "assign({i}) changed something else");
        }
        if l > 0 {
            unsafe {
                let j = i.min(l - 1);
                ensure!(same(m.get_unchecked(j), val(j)) && same(r.get_unchecked(j), val(j)), "unchecked read at {j}");
            }
        }
        Ok(if i < l { 1 } else { 2 })
    })
}
fn m01_show(n: u64) -> String {
    let (l, i) = m01_cases()[n as usize];
    format!("{l} elements, index {i}")
}

/// All write/read histories on short slices, to the fixpoint.
struct WriteHist {
    a: Arena,
    len: usize,
    h: Mut,
    r: Non,
    model: Vec<f32>,
}
const WVALS: [f32; 4] = [0.0, -0.0, f32::INFINITY, f32::from_bits(0x7fc0_1234)];
impl Machine for WriteHist {
    fn new(cfg: u64) -> Self {
        let len = cfg as usize;
        let mut a = Arena::new(&[len]);
        a.fill(0, val);
        let h = from_slice_mut(a.slice_mut(0));
        let r = from_slice(a.slice_mut(0));
        WriteHist { a, len, h, r, model: (0..len).map(val).collect() }
    }
    fn nops(&self) -> u64 {
        (self.len as u64 + 3) * WVALS.len() as u64
    }
    fn step(&mut self, op: u64) -> Result<Option<u8>, Box<Fail>> {
        let mut x = Mix(op);
        let v = *x.of(&WVALS);
        let i = x.pick(self.len as u64 + 3) as usize;
        let i = if i == self.len + 2 { usize::MAX } else { i };
        let got = self.h.assign(i, v);
        ensure!(got.is_ok() == (i < self.len), "assign({i}) = {got:?}");
        if i < self.len {
            self.model[i] = v;
        }
        for k in 0..self.len + 2 {
            let w = self.model.get(k).copied();
            ensure!(self.h.get(k).ok().map(f32::to_bits) == w.map(f32::to_bits) && self.r.get(k).ok().map(f32::to_bits) == w.map(f32::to_bits), "after assign({i},{v}): get({k}) = {:?}, want {w:?}", self.h.get(k));
        }
        ensure!(self.a.intact(), "memory around the slice changed");
        Ok(Some(1 + (i >= self.len) as u8))
    }
    fn save(&self, o: &mut Vec<u8>) {
        self.a.save(o);
        put(o, &self.h);
        put(o, &self.r);
        for v in &self.model {
            put(o, v);
        }
    }
    fn load(&mut self, b: &[u8]) {
        let mut r = Reader(b);
        self.a.load(&mut r);
        r.get(&mut self.h);
        r.get(&mut self.r);
        for v in &mut self.model {
            r.get(v);
        }
    }
    fn opname(&self, op: u64) -> String {
        let mut x = Mix(op);
        let v = *x.of(&WVALS);
        let i = x.pick(self.len as u64 + 3);
        format!("assign({}, {v})", if i == self.len as u64 + 2 { "MAX".into() } else { i.to_string() })
    }
    fn cfgname(&self) -> String {
        format!("{} elements", self.len)
    }
}

// ---------------------------------------------------------------- M02
fn check_sub<K: SubView>(a: &mut Arena, root_off: usize, parent: &K, plen: usize, off: usize, sub: usize) -> Result<Option<K>, Box<Fail>> {
    let got = parent.sub(off, sub);
    let want = off < plen && sub <= plen - off;
    match got {
        Err(e) => {
            ensure!(!want, "sub-slice({off},{sub}) of {plen} elements refused with {e:?}");
            if off >= plen {
                ensure!(e == MemSliceError::IndexOutOfBound || sub > plen, "offset {off} of {plen} refused with {e:?}");
            } else {
                ensure!(e == MemSliceError::LengthOutOfBound, "length {sub} at {off} of {plen} refused with {e:?}");
            }
            Ok(None)
        }
        Ok(mut s) => {
            ensure!(want, "sub-slice({off},{sub}) of {plen} elements granted (length {})", s.n());
            ensure!(s.n() == sub, "length {} instead of {sub}", s.n());
            // live view, both directions, and nothing beyond its end
            let base = root_off + off;
            for k in 0..sub {
                let g = s.at(k);
                ensure!(matches!(g, Ok(v) if same(v, a.get(0, base + k))), "child({k}) = {g:?}, not parent({})", off + k);
                let old = a.get(0, base + k);
                a.set(0, base + k, 1234.5);
                ensure!(s.at(k) == Ok(1234.5), "child does not see a write at {k}");
                a.set(0, base + k, old);
                if s.put_at(k, -77.25) {
                    ensure!(a.get(0, base + k) == -77.25 && parent.at(off + k) == Ok(-77.25), "parent does not see child write at {k}");
                    a.set(0, base + k, old);
                }
            }
            for k in [sub, sub + 1, usize::MAX] {
                ensure!(s.at(k) == Err(MemSliceError::IndexOutOfBound), "child of {sub} elements: get({k}) = {:?}", s.at(k));
            }
            ensure!(pristine(a), "memory changed");
            Ok(Some(s))
        }
    }
}
trait SubView: Copy {
    fn make(a: &Arena) -> Self;
    fn sub(&self, o: usize, l: usize) -> Result<Self, MemSliceError>;
    fn n(&self) -> usize;
    fn at(&self, k: usize) -> Result<f32, MemSliceError>;
    fn put_at(&mut self, k: usize, v: f32) -> bool;
}
impl SubView for Mut {
    fn make(a: &Arena) -> Self {
        from_slice_mut(a.slice_mut(0))
    }
    fn sub(&self, o: usize, l: usize) -> Result<Self, MemSliceError> {
        self.get_sub_slice(o, l)
    }
    fn n(&self) -> usize {
        self.len()
    }
    fn at(&self, k: usize) -> Result<f32, MemSliceError> {
        self.get(k)
    }
    fn put_at(&mut self, k: usize, v: f32) -> bool {
        self.assign(k, v).is_ok()
    }
}
impl SubView for Non {
    fn make(a: &Arena) -> Self {
        from_slice(a.slice_mut(0))
    }
    fn sub(&self, o: usize, l: usize) -> Result<Self, MemSliceError> {
        self.get_sub_slice(o, l)
    }
    fn n(&self) -> usize {
        self.len()
    }
    fn at(&self, k: usize) -> Result<f32, MemSliceError> {
        self.get(k)
    }
    fn put_at(&mut self, _: usize, _: f32) -> bool {
        false
    }
}
/// Chains of nested sub-slices.
struct Nest<K> {
    a: Arena,
    len: usize,
    cur: K,
    off: usize,
    cur_len: usize,
    deep: bool,
}
fn sub_args(l: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=l + 3).collect();
    for e in EXTREME {
        v.extend([e, e.wrapping_sub(l), e.wrapping_sub(l).wrapping_add(1), e.wrapping_sub(1), e.wrapping_add(1)]);
    }
    for k in 0..=l {
        v.push(0usize.wrapping_sub(k));
    }
    v.sort();
    v.dedup();
    v
}
impl<K: SubView> Machine for Nest<K> {
    fn new(cfg: u64) -> Self {
        let mut a = Arena::new(&[cfg as usize]);
        a.fill(0, val);
        let cur = K::make(&a);
        Nest { len: cfg as usize, cur_len: cfg as usize, off: 0, cur, a, deep: false }
    }
    fn nops(&self) -> u64 {
        let n = sub_args(self.len).len() as u64;
        n * n
    }
    fn step(&mut self, op: u64) -> Result<Option<u8>, Box<Fail>> {
        let args = sub_args(self.len);
        let mut x = Mix(op);
        let (sub, off) = (*x.of(&args), *x.of(&args));
        match check_sub(&mut self.a, self.off, &self.cur, self.cur_len, off, sub)? {
            Some(s) => {
                self.cur = s;
                self.off += off;
                self.cur_len = sub;
                self.deep = true;
                Ok(Some(1))
            }
            None => Ok(Some(2)),
        }
    }
    fn save(&self, o: &mut Vec<u8>) {
        put(o, &self.cur.n());
        put(o, &self.off);
        put(o, &self.cur_len);
        put(o, &(self.deep as u64));
        let c = self.cur;
        let at = o.len();
        o.resize(at + std::mem::size_of::<K>(), 0);
        unsafe { std::ptr::copy_nonoverlapping(&c as *const K as *const u8, o.as_mut_ptr().add(at), std::mem::size_of::<K>()) };
    }
    fn load(&mut self, b: &[u8]) {
        let mut r = Reader(b);
        let mut n = 0usize;
        let mut d = 0u64;
        r.get(&mut n);
        r.get(&mut self.off);
        r.get(&mut self.cur_len);
        r.get(&mut d);
        self.deep = d != 0;
        unsafe { std::ptr::copy_nonoverlapping(r.0.as_ptr(), &mut self.cur as *mut K as *mut u8, std::mem::size_of::<K>()) };
    }
    fn opname(&self, op: u64) -> String {
        let args = sub_args(self.len);
        let mut x = Mix(op);
        let (sub, off) = (*x.of(&args), *x.of(&args));
        format!("get_sub_slice({off}, {sub})")
    }
    fn cfgname(&self) -> String {
        format!("{} elements", self.len)
    }
}
const BIGL: [usize; 10] = [24, 31, 64, 100, 256, 1000, 4096, 65537, (1 << 18) + 1, (1 << 20) + 3];
fn m02_big() -> &'static Vec<(usize, usize, usize)> {
    static C: OnceLock<Vec<(usize, usize, usize)>> = OnceLock::new();
    C.get_or_init(|| {
        let mut v = vec![];
        for l in BIGL {
            let mut o: Vec<usize> = vec![0, 1, 2, l / 3, l / 2, l - 2, l - 1, l, l + 1, 2 * l];
            o.extend(EXTREME.iter().flat_map(|e| [*e, e.wrapping_sub(l), e.wrapping_sub(l / 2)]));
            for off in &o {
                let rest = l.wrapping_sub(*off);
                let mut s = o.clone();
                s.extend([rest, rest.wrapping_sub(1), rest.wrapping_add(1), rest.wrapping_add(2), 0usize.wrapping_sub(*off)]);
                v.extend(s.into_iter().map(|s| (l, *off, s)));
            }
        }
        v
    })
}
fn m02_big_case(n: u64) -> Res {
    let (l, o, s) = m02_big()[n as usize];
    with_arena(l, |a| {
        let m = Mut::make(a);
        // large slices: skip the elementwise part unless granted
        let c = check_sub(a, 0, &m, l, o, s)?.is_some();
        let r = Non::make(a);
        check_sub(a, 0, &r, l, o, s)?;
        Ok(1 + !c as u8)
    })
}

// ---------------------------------------------------------------- M03
fn m03_cases() -> &'static Vec<(usize, isize)> {
    static C: OnceLock<Vec<(usize, isize)>> = OnceLock::new();
    C.get_or_init(|| {
        let mut v = vec![];
        for l in (1..=400).chain(LENS.into_iter().filter(|l| *l > 400)) {
            let li = l as isize;
            let mut idx: Vec<isize> = vec![];
            if l <= 400 {
                idx.extend(-4 * li - 9..=4 * li + 9);
            } else {
                idx.extend((-2 * li..2 * li).step_by(l / 53 + 1));
                for k in -3..=3 {
                    idx.extend((-5..=5).map(|d| k * li + d));
                }
            }
            for e in [1isize << 15, 1 << 16, 1 << 23, 1 << 24, 1 << 31, 1 << 32, 1 << 48, 1 << 53, 1 << 62, isize::MAX, isize::MIN, isize::MIN + 1] {
                for d in (-6..=6).chain([li, -li, li / 2, -li / 2]) {
                    idx.push(e.saturating_add(d));
                    idx.push(e.saturating_neg().saturating_add(d));
                }
                // multiples of the length near the extreme
                let m = e / li * li;
                idx.extend((-3..=3).map(|d| m.saturating_add(d)));
            }
            idx.sort();
            idx.dedup();
            v.extend(idx.into_iter().map(|i| (l, i)));
        }
        v
    })
}
fn ext(l: usize, i: i128) -> f32 {
    val(i.rem_euclid(l as i128) as usize)
}
fn m03_case(n: u64) -> Res {
    let (l, i) = m03_cases()[n as usize];
    with_arena(l, |a| {
        let m: Mut = from_slice_mut(a.slice_mut(0));
        let r: Non = from_slice(a.slice_mut(0));
        let want = ext(l, i as i128);
        for (k, g) in [("get_wrapped", m.get_wrapped(i)), ("get_wrapped (read-only)", r.get_wrapped(i))] {
            ensure!(same(g, want), "{k}({i}) = {g}, want {want}");
        }
        let (g, h) = unsafe { (m.get_wrapped_unchecked(i), r.get_wrapped_unchecked(i)) };
        ensure!(same(g, want) && same(h, want), "get_wrapped_unchecked({i}) = {g} / {h}, want {want}");
        let want: Vec<f32> = (0..4).map(|d| ext(l, i as i128 + d)).collect();
        for g in [m.get_slice_of_four_wrapped(i), r.get_slice_of_four_wrapped(i)] {
            ensure!(g.iter().zip(&want).all(|(a, b)| same(*a, *b)), "window of four at {i} = {g:?}, want {want:?}");
        }
        Ok(if i >= 0 && (i as i128) + 3 < l as i128 { 1 } else if i < 0 { 2 } else { 3 })
    })
}

// ---------------------------------------------------------------- M04
/// Positions up to here are exact; every float from 2^23 on is an integer.
const BEYOND: f32 = 2147483648.0;
const L4: [usize; 9] = [3, 1, 2, 7, 0, 24, 1000, 70000, (1 << 20) + 3];
const N32: u64 = 1 << 32;
fn m04_data(l: usize) -> &'static (Arena, Mut, Non) {
    static C: OnceLock<Vec<(usize, (Arena, Mut, Non))>> = OnceLock::new();
    let c = C.get_or_init(|| {
        L4.iter()
            .chain(&[65537])
            .map(|&l| {
                let mut a = Arena::new(&[l]);
                a.fill(0, val);
                let (m, r) = (from_slice_mut(a.slice_mut(0)), from_slice(a.slice_mut(0)));
                (l, (a, m, r))
            })
            .collect()
    });
    &c.iter().find(|x| x.0 == l).unwrap().1
}
fn check_lerp(l: usize, p: f32) -> Res {
    let (_, m, r) = m04_data(l);
    let g = m.lerp(p);
    let g2 = r.lerp(p);
    ensure!(match (&g, &g2) { (Ok(a), Ok(b)) => same(*a, *b), (Err(a), Err(b)) => a == b, _ => false }, "the two kinds differ: {g:?} {g2:?}");
    if l > 0 && p >= 0.0 && p <= (l - 1) as f32 {
        let i = p as usize;
        let t = p as f64 - i as f64;
        if t == 0.0 {
            ensure!(matches!(g, Ok(v) if v == val(i)), "lerp({p}) = {g:?} on {l} elements, want element {i} = {}", val(i));
            return Ok(1);
        }
        let (x, y) = (val(i) as f64, val(i + 1) as f64);
        let want = x * (1.0 - t) + y * t;
        ensure!(matches!(g, Ok(v) if near(v, want, 1e-6 * (x.abs() + y.abs()) + 1e-30)), "lerp({p}) = {g:?} on {l} elements, want {want}");
        unsafe {
            let u = m.lerp_unchecked(p);
            ensure!(near(u, want, 1e-6 * (x.abs() + y.abs()) + 1e-30), "lerp_unchecked({p}) = {u}, want {want}");
        }
        Ok(2)
    } else {
        ensure!(g == Err(MemSliceError::IndexOutOfBound), "lerp({p}) = {g:?} on {l} elements");
        Ok(3)
    }
}
fn check_wrapped(l: usize, p: f32) -> Res {
    if l == 0 {
        return Ok(0);
    }
    let (_, m, r) = m04_data(l);
    let g = m.lerp_wrapped(p);
    if p.is_nan() {
        ensure!(g.is_nan(), "lerp_wrapped({p}) = {g}");
        return Ok(7);
    }
    // from 2^31 on some stored sample, or a value between two of them
    if p.abs() >= BEYOND {
        static R: OnceLock<Vec<(usize, f32, f32)>> = OnceLock::new();
        let c = R.get_or_init(|| L4.iter().chain(&L4G).map(|&l| (l, (0..l).map(val).fold(f32::INFINITY, f32::min), (0..l).map(val).fold(f32::NEG_INFINITY, f32::max))).collect());
        let (_, lo, hi) = c.iter().find(|x| x.0 == l).unwrap();
        let e = 1e-6 * hi.max(-lo);
        ensure!(lo - e <= g && g <= hi + e, "lerp_wrapped({p}) = {g} on {l} elements in {lo}..{hi}");
        ensure!(same(g, r.lerp_wrapped(p)), "the two kinds differ at {p}");
        return Ok(7);
    }
    let f = (p as f64).floor();
    let t = p as f64 - f;
    let (x, y) = (ext(l, f as i128) as f64, ext(l, f as i128 + 1) as f64);
    let want = x * (1.0 - t) + y * t;
    ensure!(near(g, want, 1e-6 * (x.abs() + y.abs()) + 1e-30), "lerp_wrapped({p}) = {g} on {l} elements, want {want}");
    ensure!(same(g, r.lerp_wrapped(p)), "the two kinds differ at {p}");
    Ok(if p < 0.0 { 5 } else if f as i128 >= l as i128 { 6 } else { 4 })
}
fn m04_case(n: u64) -> Res {
    let l = L4[(n >> 32) as usize];
    let p = f32::from_bits(n as u32);
    let c = check_lerp(l, p)?;
    let d = check_wrapped(l, p)?;
    Ok(if d > 0 { d } else { c })
}
fn m04_show(n: u64) -> String {
    format!("{} elements, {}", L4[(n >> 32) as usize], show_f32(n & 0xffffffff))
}
/// Every quarter position (and its float neighbours) over several periods of short and long slices.
const L4G: [usize; 5] = [1, 3, 24, 1000, 65537];
fn m04_grid_p(k: u64) -> f32 {
    let p = (k / 3) as f64 / 4.0 - 20000.0;
    let p = p as f32;
    [p, up(p), down(p)][(k % 3) as usize]
}
fn m04_grid(n: u64) -> Res {
    let mut x = Mix(n);
    let l = *x.of(&L4G);
    let p = m04_grid_p(x.0);
    let c = check_lerp(l, p)?;
    check_wrapped(l, p)?;
    // far positions
    check_wrapped(l, p * 800.0)?;
    Ok(c)
}

// ---------------------------------------------------------------- M05
const L5: [usize; 12] = [4, 1, 2, 3, 5, 7, 8, 12, 24, 33, 101, 150];
fn w5() -> Vec<usize> {
    let mut w: Vec<usize> = (2..=104).collect();
    w.extend([128, 150, 255, 256, 1000, 65536, 1 << 32, usize::MAX - 1, usize::MAX]);
    w
}
fn p5(l: usize) -> Vec<f32> {
    let mut v = vec![];
    let m = (2 * l as i64 + 4).min(40);
    for k in -m..=m {
        for f in [0.0, 0.125, 0.25, 0.5, 0.75, 0.3, 0.9375] {
            v.push(k as f32 + f);
        }
    }
    for k in [l as i64 - 2, l as i64 - 1, l as i64, -100, 100, 1000, -1000, 4095] {
        for f in [0.0, 0.25, 0.5, 0.875] {
            v.push(k as f32 + f);
        }
    }
    v
}
/// Data for M05: alternating and irregular, moderate magnitude.
fn d5(i: usize) -> f32 {
    val(i) * 0.125
}
fn lag_ref(l: usize, first: i128, n: usize, x: f64) -> (f64, f64) {
    let (mut y, mut s) = (0.0, 0.0);
    for i in 0..n {
        let mut t = d5((first + i as i128).rem_euclid(l as i128) as usize) as f64;
        for j in 0..n {
            if i != j {
                t *= (x - j as f64) / (i as f64 - j as f64);
            }
        }
        y += t;
        s += t.abs();
    }
    (y, s)
}
fn m05_cases() -> &'static Vec<(usize, usize, f32)> {
    static C: OnceLock<Vec<(usize, usize, f32)>> = OnceLock::new();
    C.get_or_init(|| {
        let mut v = vec![];
        for l in L5 {
            for w in w5() {
                for p in p5(l) {
                    v.push((l, w, p));
                }
            }
        }
        v
    })
}
fn m05_arena(l: usize) -> &'static (Arena, Mut, Non) {
    static C: OnceLock<Vec<(usize, (Arena, Mut, Non))>> = OnceLock::new();
    let c = C.get_or_init(|| {
        L5.iter()
            .map(|&l| {
                let mut a = Arena::new(&[l]);
                a.fill(0, d5);
                let (m, r) = (from_slice_mut(a.slice_mut(0)), from_slice(a.slice_mut(0)));
                (l, (a, m, r))
            })
            .collect()
    });
    &c.iter().find(|x| x.0 == l).unwrap().1
}
fn m05_case(n: u64) -> Res {
    let (l, w, p) = m05_cases()[n as usize];
    let (_, m, r) = m05_arena(l);
    let f = (p as f64).floor();
    let t = p as f64 - f;
    let half = (w.min(100) / 2) as i128;
    let points = 2 * half as usize;
    let g = m.lagrange_wrapped(p, w);
    ensure!(same(g, r.lagrange_wrapped(p, w)), "the two kinds differ");
    let (want, sum) = lag_ref(l, f as i128 - half + 1, points, t + (half - 1) as f64);
    // rounding of 4 operations per factor, plus rounding of the local position (ulp of up to 50)
    let tol = sum * points as f64 * 4.0 * 1.2e-7 + 4e-6 * 20.0;
    ensure!(near(g, want, tol), "lagrange_wrapped({p}, {w}) = {g} on {l} elements, want {want} +- {tol:e}");
    if t == 0.0 {
        let e = d5((f as i128).rem_euclid(l as i128) as usize);
        ensure!(near(g, e as f64, (e.abs() as f64) * points as f64 * 2.4e-7), "lagrange_wrapped({p}, {w}) = {g}, want the sample {e}");
    }
    if w == 4 {
        let g = m.lagrange_four_points_wrapped(p);
        ensure!(same(g, r.lagrange_four_points_wrapped(p)), "the two kinds differ");
        let (want, sum) = lag_ref(l, f as i128, 4, t);
        ensure!(near(g, want, sum * 2e-6), "lagrange_four_points_wrapped({p}) = {g} on {l} elements, want {want}");
    }
    Ok(if t == 0.0 { 1 } else if f >= 0.0 && (f as usize + 50) < l { 2 } else { 3 })
}
/// Every position for the windows of four, even and odd.
const L5P: [usize; 4] = [5, 1, 24, 150];
fn m05_any(n: u64) -> Res {
    let p = f32::from_bits((n / 8) as u32);
    let l = L5P[(n % 4) as usize];
    let (_, m, _) = m05_arena(l);
    if !(p.abs() < BEYOND) {
        let g = if n / 4 % 2 == 0 { m.lagrange_four_points_wrapped(p) } else { m.lagrange_wrapped(p, [2usize, 4, 5, 7][(l % 4) as usize]) };
        let top = m05_top(l);
        ensure!(if p.is_nan() { g.is_nan() } else { g.abs() <= top * 1.00001 }, "{} read at {p} = {g} on {l} elements of at most {top}", ["four point", "window"][(n / 4 % 2) as usize]);
        return Ok(4);
    }
    let f = (p as f64).floor();
    let t = p as f64 - f;
    if n / 4 % 2 == 0 {
        let (want, sum) = lag_ref(l, f as i128, 4, t);
        let g = m.lagrange_four_points_wrapped(p);
        ensure!(near(g, want, sum * 2e-6), "lagrange_four_points_wrapped({p}) = {g} on {l} elements, want {want}");
    } else {
        let w = [2usize, 4, 5, 7][(l % 4) as usize];
        let half = (w / 2) as i128;
        let (want, sum) = lag_ref(l, f as i128 - half + 1, 2 * half as usize, t + (half - 1) as f64);
        let g = m.lagrange_wrapped(p, w);
        ensure!(near(g, want, sum * 4e-6 + 4e-6), "lagrange_wrapped({p}, {w}) = {g} on {l} elements, want {want}");
    }
    Ok(if t == 0.0 { 1 } else if p >= 0.0 && (f as usize) < l { 2 } else { 3 })
}
fn m05_top(l: usize) -> f32 {
    static C: OnceLock<Vec<(usize, f32)>> = OnceLock::new();
    let c = C.get_or_init(|| L5P.iter().map(|&l| (l, (0..l).map(|i| d5(i).abs()).fold(0.0, f32::max))).collect());
    c.iter().find(|x| x.0 == l).unwrap().1
}
fn m05_any_show(n: u64) -> String {
    format!("{} elements, {}, position {}", L5P[(n % 4) as usize], ["four points", "window"][(n / 4 % 2) as usize], show_f32(n / 8))
}
fn m05_show(n: u64) -> String {
    let (l, w, p) = m05_cases()[n as usize];
    format!("{l} elements, window {w}, position {p}")
}
/// Four-point variant on a dense position grid (dyadic steps and neighbours).
fn m05_four(n: u64) -> Res {
    let mut x = Mix(n);
    let l = *x.of(&L5);
    let p = x.0 as f64 / 64.0 - 512.0;
    let p = p as f32;
    for p in [p, up(p), down(p)] {
        let (_, m, _) = m05_arena(l);
        let f = (p as f64).floor();
        let t = p as f64 - f;
        let (want, sum) = lag_ref(l, f as i128, 4, t);
        let g = m.lagrange_four_points_wrapped(p);
        ensure!(near(g, want, sum * 2e-6), "lagrange_four_points_wrapped({p}) = {g} on {l} elements, want {want}");
        let (want, sum) = lag_ref(l, f as i128 - 1, 4, t + 1.0);
        for w in [4usize, 5] {
            let g = m.lagrange_wrapped(p, w);
            ensure!(near(g, want, sum * 4e-6 + 4e-6), "lagrange_wrapped({p},{w}) = {g} on {l} elements, want {want}");
        }
    }
    Ok(1)
}

// ---------------------------------------------------------------- M06
/// Four handles over two buffers, all interleavings of accesses, copies, rebindings.
/// kinds: h0,h1,h3 mutable, h2 read-only.
struct Handles {
    a: Arena,
    h: [Mut; 3],
    r: Non,
    // model: buffer, offset, length (buffer 2 = null)
    bind: [(u8, u8, u8); 4],
    mem: [Vec<f32>; 2],
    wide: bool,
}
impl Handles {
    fn targets(&self) -> Vec<(u8, u8, u8)> {
        let (la, lb) = (self.a.len(0) as u8, self.a.len(1) as u8);
        let mut v = vec![(0, 0, la), (1, 0, lb), (2, 0, 0), (1, 0, 0)];
        if self.wide {
            v.push((0, 1, la - 1));
        }
        v
    }
    fn ptr(&self, t: (u8, u8, u8)) -> *mut f32 {
        if t.0 == 2 {
            std::ptr::null_mut()
        } else {
            unsafe { self.a.ptr(t.0 as usize).add(t.1 as usize) }
        }
    }
    fn decode(&self, op: u64) -> (u64, Vec<u64>) {
        // op groups
        let t = self.targets().len() as u64;
        let groups: [(u64, Vec<u64>); 7] = [
            (0, vec![3, 3, 2]),  // assign(handle, index, value)
            (1, vec![3, 3]),     // assign_unchecked(handle, index) of value 3 when in range
            (2, vec![4, t]),     // rebind(handle, target)
            (3, vec![3, t]),     // mutable handle through change_slice_unchecked
            (4, vec![3, 3]),     // copy handle to handle
            (5, vec![4, 2]),     // handle := sub-slice(offset, rest) of itself
            (6, vec![2, 3]),     // owner writes the buffer directly
        ];
        let mut o = op;
        for (g, dims) in groups {
            let n: u64 = dims.iter().product();
            if o < n {
                let mut m = Mix(o);
                return (g, dims.iter().map(|d| m.pick(*d)).collect());
            }
            o -= n;
        }
        (99, vec![])
    }
}
impl Machine for Handles {
    fn new(cfg: u64) -> Self {
        let (la, lb, wide) = [(2, 1, false), (2, 2, true), (3, 1, true)][cfg as usize];
        let mut a = Arena::new(&[la, lb]);
        a.fill(0, |_| 9.0);
        a.fill(1, |_| 8.0);
        let h = from_slice_mut(a.slice_mut(0));
        let r = from_slice(a.slice_mut(0));
        Handles {
            h: [h, h, null_mut()],
            r,
            bind: [(0, 0, la as u8), (0, 0, la as u8), (2, 0, 0), (0, 0, la as u8)],
            mem: [vec![9.0; la], vec![8.0; lb]],
            a,
            wide,
        }
    }
    fn nops(&self) -> u64 {
        (0..).find(|o| self.decode(*o).0 == 99).unwrap()
    }
    // bind/h order: mutable 0,1,2 then the read-only one is bind[3]
    fn step(&mut self, op: u64) -> Result<Option<u8>, Box<Fail>> {
        let (g, x) = self.decode(op);
        let cls;
        match g {
            0 | 1 => {
                let (h, i) = (x[0] as usize, x[1] as usize);
                let b = self.bind[h];
                // values that compare equal or never equal: only their bits tell them apart
                let v = if g == 0 { [0.0, -0.0][x[2] as usize] } else { f32::from_bits(0x7fc0_1234) };
                let ok = i < b.2 as usize;
                if g == 0 {
                    let got = self.h[h].assign(i, v);
                    ensure!(got.is_ok() == ok, "assign({i}) on {} elements = {got:?}", b.2);
                } else {
                    if !ok {
                        return Ok(None);
                    }
                    unsafe { self.h[h].assign_unchecked(i, v) };
                }
                if ok {
                    self.mem[b.0 as usize][b.1 as usize + i] = v;
                }
                cls = 1;
            }
            2 => {
                let (h, t) = (x[0] as usize, self.targets()[x[1] as usize]);
                let p = self.ptr(t);
                unsafe {
                    if h < 3 {
                        self.h[h].change_mut_slice_unchecked(p, t.2 as usize);
                    } else {
                        self.r.change_slice_unchecked(p, t.2 as usize);
                    }
                }
                self.bind[h] = t;
                cls = 2;
            }
            3 => {
                let (h, t) = (x[0] as usize, self.targets()[x[1] as usize]);
                let p = self.ptr(t);
                if t.0 == 2 {
                    self.h[h] = null_mut();
                } else {
                    unsafe { self.h[h].change_slice_unchecked(p, t.2 as usize) };
                }
                self.bind[h] = t;
                cls = 2;
            }
            4 => {
                if x[0] == x[1] {
                    return Ok(None);
                }
                self.h[x[0] as usize] = self.h[x[1] as usize];
                self.bind[x[0] as usize] = self.bind[x[1] as usize];
                cls = 3;
            }
            5 => {
                let (h, o) = (x[0] as usize, x[1] as usize);
                let b = self.bind[h];
                if b.0 == 2 {
                    self.r = if h == 3 { null() } else { self.r };
                    return Ok(None);
                }
                let n = (b.2 as usize).saturating_sub(o);
                let ok = o < b.2 as usize;
                if h < 3 {
                    match self.h[h].get_sub_slice(o, n) {
                        Ok(s) => self.h[h] = s,
                        Err(e) => {
                            ensure!(!ok, "sub-slice refused with {e:?}");
                            return Ok(None);
                        }
                    }
                } else {
                    match self.r.get_sub_slice(o, n) {
                        Ok(s) => self.r = s,
                        Err(e) => {
                            ensure!(!ok, "sub-slice refused with {e:?}");
                            return Ok(None);
                        }
                    }
                }
                ensure!(ok, "sub-slice granted outside");
                self.bind[h] = (b.0, b.1 + o as u8, n as u8);
                cls = 4;
            }
            _ => {
                let (b, i) = (x[0] as usize, x[1] as usize);
                if i >= self.a.len(b) {
                    return Ok(None);
                }
                self.a.set(b, i, 2.0);
                self.mem[b][i] = 2.0;
                cls = 5;
            }
        }
        // every handle agrees with the model
        for k in 0..4 {
            let b = self.bind[k];
            let (len, sl) = if k < 3 { (self.h[k].len(), self.h[k].as_slice()) } else { (self.r.len(), self.r.as_slice()) };
            ensure!(len == b.2 as usize, "handle {k}: length {len}, want {}", b.2);
            ensure!(sl.len() == len && sl as *const f32 == self.ptr(b) as *const f32, "handle {k}: wrong slice");
            if k < 3 {
                let mut h = self.h[k];
                let s2 = h.as_slice_mut();
                ensure!(s2.len() == len && s2 as *const f32 == sl as *const f32, "handle {k}: as_slice_mut differs");
            }
            for i in 0..len + 2 {
                let got = if k < 3 { self.h[k].get(i) } else { self.r.get(i) };
                let want = if i < len { Some(self.mem[b.0 as usize][b.1 as usize + i]) } else { None };
                ensure!(got.as_ref().ok().map(|v| v.to_bits()) == want.map(f32::to_bits), "handle {k}: get({i}) = {got:?}, want {want:?}");
                if i < len {
                    let u = unsafe { if k < 3 { self.h[k].get_unchecked(i) } else { self.r.get_unchecked(i) } };
                    ensure!(Some(u.to_bits()) == want.map(f32::to_bits), "handle {k}: get_unchecked({i}) = {u}, want {want:?}");
                    let w = if k < 3 { self.h[k].get_wrapped(i as isize - len as isize) } else { self.r.get_wrapped(i as isize - len as isize) };
                    ensure!(Some(w.to_bits()) == want.map(f32::to_bits), "handle {k}: get_wrapped = {w}, want {want:?}");
                } else {
                    ensure!(got == Err(MemSliceError::IndexOutOfBound), "handle {k}: {got:?}");
                }
            }
        }
        for b in 0..2 {
            for i in 0..self.mem[b].len() {
                ensure!(same(self.a.get(b, i), self.mem[b][i]), "buffer {b}[{i}] = {}, want {}", self.a.get(b, i), self.mem[b][i]);
            }
        }
        ensure!(self.a.intact(), "memory around the buffers changed");
        Ok(Some(cls))
    }
    fn save(&self, o: &mut Vec<u8>) {
        self.a.save(o);
        put(o, &self.h);
        put(o, &self.r);
        put(o, &self.bind);
        for m in &self.mem {
            for v in m {
                put(o, v);
            }
        }
    }
    fn load(&mut self, b: &[u8]) {
        let mut r = Reader(b);
        self.a.load(&mut r);
        r.get(&mut self.h);
        r.get(&mut self.r);
        r.get(&mut self.bind);
        for m in &mut self.mem {
            for v in m {
                r.get(v);
            }
        }
    }
    fn opname(&self, op: u64) -> String {
        let (g, x) = self.decode(op);
        let n = ["assign[handle,index,value-1]", "assign_unchecked[handle,index]", "rebind[handle,target]", "rebind via change_slice[handle,target]", "copy[to,from]", "narrow[handle,offset]", "owner write[buffer,index]"];
        format!("{}{:?}", n[g as usize], x)
    }
    fn cfgname(&self) -> String {
        format!("buffers of {} and {}", self.a.len(0), self.a.len(1))
    }
}

/// Long buffers: lengths, raw views and both ends of handles made in every way.
const L6: [usize; 14] = [1, 2, 3, 255, 256, 257, 32768, 65535, 65536, 65537, 70000, 1 << 20, (1 << 20) + 3, (1 << 24) + 1];
fn m06_memory() -> &'static Arena {
    static A: OnceLock<Arena> = OnceLock::new();
    A.get_or_init(|| Arena::new(&[(1 << 24) + 1]))
}
fn m06_long(n: u64) -> Res {
    let a = m06_memory();
    let mut x = Mix(n);
    let (l, start, how) = (*x.of(&L6), [0usize, 1, 12345][x.pick(3) as usize], x.pick(8));
    if start + l > a.len(0) {
        return Ok(0);
    }
    let p = unsafe { a.ptr(0).add(start) };
    let mem = unsafe { std::slice::from_raw_parts_mut(p, l) };
    let mut m = from_slice_mut(mem);
    let mut r = from_slice(mem);
    unsafe {
        match how {
            0 => {}
            1 => {
                m = null_mut();
                m.change_mut_slice_unchecked(p, l);
                r = null();
                r.change_slice_unchecked(p, l);
            }
            2 => {
                m = null_mut();
                m.change_slice_unchecked(p, l);
            }
            3 => {
                m = from_slice_mut(&mut mem[..1]);
                m.change_mut_slice_unchecked(p, l);
                r = from_slice(&mem[..1]);
                r.change_slice_unchecked(p, l);
            }
            4 => {
                m = from_slice_mut(a.slice_mut(0)).get_sub_slice(start, l).unwrap();
                r = from_slice(a.slice_mut(0)).get_sub_slice(start, l).unwrap();
            }
            5 => {
                // from the longest one down
                m = from_slice_mut(a.slice_mut(0));
                m.change_mut_slice_unchecked(p, l);
                r = from_slice(a.slice_mut(0));
                r.change_slice_unchecked(p, l);
            }
            6 => {
                // same place, another length before
                m.change_mut_slice_unchecked(p, 1);
                m.change_mut_slice_unchecked(p, l);
                r.change_slice_unchecked(p, 1);
                r.change_slice_unchecked(p, l);
            }
            _ => {
                // another place, same length before
                m.change_mut_slice_unchecked(a.ptr(0), l);
                m.change_mut_slice_unchecked(p, l);
                r.change_slice_unchecked(a.ptr(0), l);
                r.change_slice_unchecked(p, l);
            }
        }
    }
    let c = m;
    for (k, mut m) in [m, c].into_iter().enumerate() {
        for (what, s) in [("as_slice", m.as_slice()), ("as_slice_mut", m.as_slice_mut() as *const [f32]), ("as_slice of the read-only handle", r.as_slice())] {
            ensure!(s as *const f32 == p as *const f32 && s.len() == l, "{what} has {} elements, want {l} (at {:?}, want {p:?})", s.len(), s as *const f32);
        }
        ensure!(m.len() == l && r.len() == l, "lengths {} and {}, want {l}", m.len(), r.len());
        // ends and values that alias after truncation
        for i in [0, 1, l / 2, l - 1, l - l.min(2), l & 0xff, l & 0xffff, 65535, 65536, 255, 256] {
            let v = f32::from_bits(0x7fa0_0001 + k as u32 * 64 + (i & 31) as u32);
            if i < l {
                ensure!(m.assign(i, v) == Ok(()), "assign({i}) refused on {l} elements");
                let q = unsafe { p.add(i).read_volatile() };
                ensure!(same(q, v), "assign({i}) did not reach element {i}");
                for g in [m.get(i), r.get(i), c.get(i)] {
                    ensure!(g.as_ref().is_ok_and(|g| same(*g, v)), "get({i}) = {g:?} after a write of {v}");
                }
                unsafe { p.add(i).write_volatile(0.0) };
            } else {
                ensure!(m.assign(i, v).is_err() && m.get(i).is_err() && r.get(i).is_err(), "access to {i} granted on {l} elements");
            }
        }
    }
    Ok(1 + (l > 65535) as u8)
}
fn m06_long_show(n: u64) -> String {
    let mut x = Mix(n);
    format!("{} elements, offset choice {}, made by choice {}", x.of(&L6), x.pick(3), x.pick(8))
}

// ---------------------------------------------------------------- M07
/// Calls on a shared slice of `CELLS` elements: writers (value = its pattern number), then readers.
const CELLS: usize = 5;
const WRITERS: u8 = 3;
const CALLS: u8 = 14;
const CALLNAME: [&str; CALLS as usize] = [
    "assign", "assign_unchecked", "DelayLine::write_and_advance", "get", "get_unchecked", "get_wrapped", "get_wrapped one round before", "get_slice_of_four_wrapped", "lerp",
    "lerp_wrapped", "lagrange_four_points_wrapped", "DelayLine::read", "DelayLine::read_wrapped_at", "get of a read-only sub-slice",
];
#[derive(Clone, Copy, Debug)]
struct Call {
    kind: u8,
    at: u8,
}
type Prog = Vec<Call>;
/// No two of these floats can be mixed bytewise into a third.
fn pattern(k: usize) -> f32 {
    f32::from_bits(0x3939_3939 + k as u32 * 0x0101_0101)
}
#[derive(Clone, Copy, Default)]
struct Event {
    from: u32,
    to: u32,
    /// elements read, with values
    got: [(u8, f32); 4],
    n: usize,
    /// value written
    put: Option<f32>,
    refused: bool,
}
struct Handles7 {
    s: Mut,
    n: Non,
    d: DelayLine,
}
fn handles7(m: *mut f32, at: u8) -> Handles7 {
    let m = || unsafe { std::slice::from_raw_parts_mut(m, CELLS) };
    let mut d = DelayLine::new(from_slice_mut(m()));
    for _ in 0..at {
        d.advance();
    }
    let whole = from_slice(m());
    Handles7 { s: from_slice_mut(m()), n: whole.get_sub_slice(at as usize, CELLS - at as usize).unwrap(), d }
}
#[inline(never)]
fn call7(h: &mut Handles7, c: Call, v: f32, e: &mut Event) {
    let (i, l) = (c.at as usize, CELLS);
    let p = c.at as f32;
    preempt::accesses();
    e.from = preempt::stamp();
    let r = match c.kind {
        0 => {
            e.put = Some(v);
            Err(h.s.assign(i, v).is_err())
        }
        1 => {
            e.put = Some(v);
            unsafe { h.s.assign_unchecked(i, v) };
            Err(false)
        }
        2 => {
            e.put = Some(v);
            h.d.write_and_advance(v);
            Err(false)
        }
        3 => h.s.get(i).map_err(|_| true),
        4 => Ok(unsafe { h.s.get_unchecked(i) }),
        5 => Ok(h.s.get_wrapped(i as isize)),
        6 => Ok(h.s.get_wrapped(i as isize - l as isize)),
        7 => {
            let w = h.s.get_slice_of_four_wrapped(i as isize);
            for k in 0..4 {
                e.got[k] = (((i + k) % l) as u8, w[k]);
            }
            e.n = 4;
            Err(false)
        }
        8 => h.s.lerp(p).map_err(|_| true),
        9 => Ok(h.s.lerp_wrapped(p)),
        10 => Ok(h.s.lagrange_four_points_wrapped(p)),
        11 => Ok(h.d.read()),
        12 => Ok(h.d.read_wrapped_at(0)),
        _ => h.n.get(0).map_err(|_| true),
    };
    (e.from, e.to) = preempt::accesses().unwrap_or((e.from, preempt::stamp()));
    match r {
        Ok(x) => {
            e.got[0] = (c.at, x);
            e.n = 1;
        }
        Err(bad) => e.refused = bad,
    }
}
/// What happened: instructions per thread, events, memory at the end.
type Run7 = ([u32; preempt::THREADS], Vec<Vec<Event>>, [f32; CELLS]);
fn run7(progs: &[Prog], how: &mut dyn FnMut(&mut [&mut dyn FnMut()]) -> Result<[u32; preempt::THREADS], usize>) -> Result<Run7, Box<Fail>> {
    const AT: usize = 256;
    let page = preempt::page();
    page.fill(canary());
    let m: [f32; CELLS] = std::array::from_fn(pattern);
    page[AT..AT + CELLS].copy_from_slice(&m);
    let m = page[AT..].as_mut_ptr();
    let mut hs: Vec<Vec<Handles7>> = progs.iter().map(|p| p.iter().map(|c| handles7(m, c.at)).collect()).collect();
    let mut ev: Vec<Vec<Event>> = progs.iter().map(|p| vec![Event::default(); p.len()]).collect();
    let mut next = CELLS;
    let mut fs: Vec<Box<dyn FnMut()>> = vec![];
    for ((p, h), e) in progs.iter().zip(&mut hs).zip(&mut ev) {
        let first = next;
        next += p.len();
        fs.push(Box::new(move || {
            for k in 0..p.len() {
                call7(&mut h[k], p[k], pattern(first + k), &mut e[k]);
            }
        }));
    }
    let mut ops: Vec<&mut dyn FnMut()> = fs.iter_mut().map(|f| &mut **f as &mut dyn FnMut()).collect();
    let r = how(&mut ops);
    drop(ops);
    drop(fs);
    match r {
        Err(w) => Err(failure(format!("thread {w}: {}", last_panic()))),
        Ok(n) => {
            let outside = (0..page.len()).find(|i| !(AT..AT + CELLS).contains(i) && !same(page[*i], canary()));
            ensure!(outside.is_none(), "memory outside the slice changed, {} elements from its start", outside.unwrap_or(0) as isize - AT as isize);
            Ok((n, ev, std::array::from_fn(|i| page[AT + i])))
        }
    }
}
fn stepped(progs: &[Prog], segs: &[Seg]) -> Result<Run7, Box<Fail>> {
    run7(progs, &mut |ops| preempt::interleave(ops, segs))
}
struct Sit {
    progs: Vec<Prog>,
    /// who runs in each segment; a position per segment that can be cut, the rest run to their end
    order: Vec<usize>,
    cuts: usize,
}
/// Everything a situation set needs: the situations and their schedules (counted on the compiled code).
struct Space {
    sits: Vec<Sit>,
    sch: Schedules,
}
fn space(sits: Vec<Sit>) -> Space {
    let mut memo: HashMap<Vec<(u8, u8)>, u32> = HashMap::new();
    let mut len = |p: &Prog| {
        *memo.entry(p.iter().map(|c| (c.kind, c.at)).collect()).or_insert_with(|| match stepped(std::slice::from_ref(p), &[(0, ALONE)]) {
            Ok((n, ..)) => n[0].max(1),
            Err(_) => 1,
        })
    };
    let dims = sits.iter().map(|s| s.order[..s.cuts].iter().map(|&w| len(&s.progs[w])).collect()).collect();
    Space { sch: Schedules::new(dims), sits }
}
fn calls(at: &[u8], kinds: std::ops::Range<u8>) -> Vec<Call> {
    at.iter().flat_map(|&at| kinds.clone().map(move |kind| Call { kind, at })).collect()
}
/// 0: two threads, one call each; 1: two calls each; 2: three threads; 3: one call each, three switches
fn space7(which: usize) -> &'static Space {
    static S: [OnceLock<Space>; 4] = [const { OnceLock::new() }; 4];
    S[which].get_or_init(|| {
        let mut v = vec![];
        match which {
            0 | 3 => {
                for a in calls(&[1, 4], 0..CALLS) {
                    for b in calls(&[0, 1, 2, 4], 0..CALLS) {
                        if a.kind < WRITERS || b.kind < WRITERS {
                            let progs = vec![vec![a], vec![b]];
                            v.push(if which == 0 { Sit { progs, order: vec![0, 1], cuts: 2 } } else { Sit { progs, order: vec![0, 1, 0, 1], cuts: 3 } });
                        }
                    }
                }
            }
            1 => {
                for w1 in calls(&[1], 0..WRITERS) {
                    for w2 in calls(&[1, 2], 0..WRITERS) {
                        for k in WRITERS..CALLS {
                            for (x, y) in [(1, 2), (2, 1), (1, 1)] {
                                let (w, r) = (vec![w1, w2], vec![Call { kind: k, at: x }, Call { kind: k, at: y }]);
                                v.push(Sit { progs: vec![w.clone(), r.clone()], order: vec![0, 1], cuts: 2 });
                                v.push(Sit { progs: vec![r, w], order: vec![0, 1], cuts: 2 });
                            }
                        }
                    }
                }
            }
            _ => {
                for w1 in calls(&[1], 0..WRITERS) {
                    for w2 in calls(&[1, 2], 0..WRITERS) {
                        for r in calls(&[1], WRITERS..CALLS) {
                            for progs in [vec![vec![w1], vec![w2], vec![r]], vec![vec![r], vec![w1], vec![w2]], vec![vec![w1], vec![r], vec![w2]]] {
                                v.push(Sit { progs, order: vec![0, 1, 2], cuts: 2 });
                            }
                        }
                    }
                }
            }
        }
        space(v)
    })
}
fn m07_segs(s: &Sit, p: &[u32]) -> Vec<Seg> {
    s.order.iter().enumerate().filter(|(k, _)| s.cuts != 2 || s.order.len() > 2 || *k < 2).map(|(k, &w)| (w, if k < s.cuts { p[k] } else { ALONE })).collect()
}
fn m07(which: usize, n: u64) -> Res {
    let sp = space7(which);
    let (k, p) = sp.sch.at(n);
    let s = &sp.sits[k];
    judge7(&s.progs, stepped(&s.progs, &m07_segs(s, &p))?)
}
fn judge7(progs: &[Prog], (_, ev, end): Run7) -> Res {
    // writes: (element, value, from, to)
    let mut writes = vec![];
    let mut read = 0;
    for (pr, es) in progs.iter().zip(&ev) {
        for (c, e) in pr.iter().zip(es) {
            ensure!(!e.refused, "{} at {} was refused", CALLNAME[c.kind as usize], c.at);
            if let Some(v) = e.put {
                writes.push((c.at, v, e.from, e.to));
            }
            read += e.n;
        }
    }
    // values a read of element i between `from` and `to` may return
    let may = |i: u8, x: f32, from: u32, to: u32, exact: bool| {
        let is = |v: f32| if exact { same(x, v) } else { near(x, v as f64, 2e-6 * v.abs() as f64) };
        let w = || writes.iter().filter(|w| w.0 == i);
        (is(pattern(i as usize)) && w().all(|w| w.3 > from)) || w().any(|x| is(x.1) && x.2 < to && !w().any(|o| o.2 > x.3 && o.3 < from))
    };
    for (pr, es) in progs.iter().zip(&ev) {
        for (c, e) in pr.iter().zip(es) {
            for &(i, x) in &e.got[..e.n] {
                let exact = !(8..=10).contains(&c.kind);
                ensure!(may(i, x, e.from, e.to, exact), "{} read {:#010x} from element {i}, stored at the start {:#010x}, by the threads {:x?}", CALLNAME[c.kind as usize], x.to_bits(), pattern(i as usize).to_bits(), writes.iter().filter(|w| w.0 == i).map(|w| w.1.to_bits()).collect::<Vec<_>>());
            }
        }
    }
    for i in 0..CELLS {
        ensure!(may(i as u8, end[i], u32::MAX - 1, u32::MAX, true), "after all writes element {i} holds {:#010x}, stored at the start {:#010x}, by the threads {:x?}", end[i].to_bits(), pattern(i).to_bits(), writes.iter().filter(|w| w.0 == i as u8).map(|w| w.1.to_bits()).collect::<Vec<_>>());
    }
    Ok(if read > 0 { 1 } else { 2 })
}
/// Programs for the enumeration of all interleavings of memory accesses.
fn m07_progs(which: usize, n: u64) -> Vec<Prog> {
    let mut m = Mix(n);
    let mut any = |kinds: std::ops::Range<u8>, at: &[u8]| Call { kind: kinds.start + m.pick((kinds.end - kinds.start) as u64) as u8, at: *m.of(at) };
    match which {
        0 => vec![vec![any(0..WRITERS, &[1, 2]), any(0..CALLS, &[1, 2])], vec![any(0..CALLS, &[1, 2]), any(0..CALLS, &[1, 2])]],
        3 => vec![vec![any(0..WRITERS, &[1, 4])], vec![any(0..CALLS, &[0, 1, 2, 4])]],
        4 => vec![vec![any(0..WRITERS, &[1])], vec![any(0..WRITERS, &[1, 2])], vec![any(0..CALLS, &[0, 1, 2])]],
        1 => vec![vec![any(0..WRITERS, &[1]), any(0..WRITERS, &[2, 1])], vec![any(0..WRITERS, &[1, 2, 4])], vec![any(WRITERS..CALLS, &[1, 2, 4]), any(WRITERS..CALLS, &[1, 2])]],
        _ => vec![vec![any(0..WRITERS, &[1]), any(0..WRITERS, &[2]), any(0..WRITERS, &[1])], vec![any(WRITERS..CALLS, &[1, 2]), any(WRITERS..CALLS, &[1, 2]), any(WRITERS..CALLS, &[1, 2])]],
    }
}
const M07_TOTAL: [u64; 5] = [3 * 2 * (14 * 2) * (14 * 2) * (14 * 2), 3 * 3 * 2 * 3 * 3 * 11 * 3 * 11 * 2, 27 * 22 * 22 * 22, 6 * 14 * 4, 3 * 6 * 14 * 3];
fn m07_all(which: usize, n: u64) -> Res {
    let progs = m07_progs(which, n);
    let mut choices = vec![];
    let mut count = 0;
    let mut class = 0;
    loop {
        let r = run7(&progs, &mut |ops| preempt::interleave_accesses(ops, &mut choices).map(|_| [0; 3]));
        match r.and_then(|r| judge7(&progs, r)) {
            Ok(c) => class = class.max(c),
            Err(mut f) => {
                f.msg += &format!("; order of accesses: {:?}", choices.iter().map(|c| c.0).collect::<Vec<_>>());
                return Err(f);
            }
        }
        count += 1;
        if count % 64 == 0 {
            pulse();
        }
        if !preempt::backtrack(&mut choices) {
            executions(count);
            return Ok(class);
        }
    }
}
fn progs7_show(progs: &[Prog]) -> String {
    let name = |c: &Call| format!("{} at {}", CALLNAME[c.kind as usize], c.at);
    progs.iter().enumerate().map(|(i, p)| format!("thread {i}: {}", p.iter().map(name).collect::<Vec<_>>().join("; "))).collect::<Vec<_>>().join(", ")
}
fn m07_show(which: usize, n: u64) -> String {
    let sp = space7(which);
    let (k, p) = sp.sch.at(n);
    let s = &sp.sits[k];
    format!("{}; schedule (thread, instructions) {:?}, then the rest in order", progs7_show(&s.progs), m07_segs(s, &p))
}

fn b(cfgs: u64, depth: usize, max: usize) -> Bound {
    Bound { cfgs, depth, max_states: max }
}

fn props() -> Vec<Prop> {
    let pick = |t: Tier, p: Profile, a: u64, b: u64, c: u64| match (t, p) {
        (Tier::Thorough, _) => a,
        (_, Profile::Release) => b,
        _ => c,
    };
    vec![
        Prop {
            id: "M01",
            level: "model_checking",
            rule: "search: every history of checked writes (3 values, every index up to length+1 and the largest index) on slices of 0..5 elements, to the fixpoint of the real slice + memory state; sweep: (length, index) pairs, all lengths up to 200 and 11 up to 2^20+3, all indices up to twice the length for short ones, boundaries, powers of two and values that alias after truncation; class 1 = accepted, 2 = refused",
            assumptions: vec!["a write that changes memory further than 64 elements away from the slice and crashes nothing is not seen"],
            scenarios: vec![
                search::<WriteHist>("write-histories", "all write histories on slices of 0..5 elements", &RC, |t, _| b(if t == Tier::Thorough { 7 } else { 6 }, 64, 1 << 22)),
                periodic::<WriteHist>("periodic", &RC, 6, 3),
                sweep("index-grid", "every (length, index) pair of the grid: read, write 8 bit patterns, compare all memory", &RCA, |_, _| Plan::all(m01_cases().len() as u64), m01_case, m01_show),
            ],
        },
        Prop {
            id: "M02",
            level: "model_checking",
            rule: "search: every chain of get_sub_slice calls (all offset/length pairs up to length+3 plus ~110 values around 2^k, -length.. that overflow), both handle kinds, to the fixpoint; granted views are compared element by element in both directions; class 1 = granted, 2 = refused",
            assumptions: vec![],
            scenarios: vec![
                search::<Nest<Mut>>("nested-mutable", "all chains of sub-slices of a mutable slice", &RC, |t, p| b(if t == Tier::Thorough { 13 } else if p == Profile::Release { 8 } else { 5 }, 20, 1 << 20)),
                search::<Nest<Non>>("nested-readonly", "all chains of sub-slices of a read-only slice", &RC, |t, p| b(if t == Tier::Thorough { 13 } else if p == Profile::Release { 8 } else { 5 }, 20, 1 << 20)),
                sweep("large", "boundary offset/length pairs on slices of 24..2^20+3 elements", &RCA, |t, _| Plan::stride(m02_big().len() as u64, if t == Tier::Thorough { 1 } else { 1 }), m02_big_case, |n| format!("{:?} (length, offset, sub-length)", m02_big()[n as usize])),
            ],
        },
        Prop {
            id: "M03",
            level: "exploration",
            rule: "complete enumeration of (length, position) pairs: all lengths up to 400 and 8 up to 2^20+3, all positions within 4 lengths of zero for short slices, multiples of the length and integer extremes for all; class 1 = inside, 2 = negative, 3 = beyond the end",
            assumptions: vec![],
            scenarios: vec![sweep("positions", "wrapped reads and windows of four, checked and unchecked, both kinds", &RCA, |_, _| Plan::all(m03_cases().len() as u64), m03_case, |n| format!("{:?} (length, position)", m03_cases()[n as usize]))],
        },
        Prop {
            id: "M04",
            level: "exploration",
            rule: "complete enumeration of all 2^32 float positions (quick: complete for 3 elements), plus every quarter position and its float neighbours within +-20000 on 5 lengths; non-trivial: accepted reads (1,2), refusals (3), wrapped reads inside/before/after (4,5,6)",
            assumptions: vec!["element values are finite, below 1000 in magnitude"],
            scenarios: vec![
                sweep("all-positions", "checked and wrapped interpolated read at every 32-bit position", &RC,
                    |t, p| match (t, p) {
                        (Tier::Thorough, Profile::Release) => Plan::all(9 * N32),
                        (Tier::Thorough, _) => Plan::all(N32).and(N32, 9 * N32, 17),
                        (_, Profile::Release) => Plan::all(N32).and(N32, 9 * N32, 31),
                        _ => Plan::stride(9 * N32, 211),
                    }, m04_case, m04_show),
                sweep("grid", "quarter positions and neighbours", &RCA, |t, p| Plan::stride(5 * 3 * 160000, if t == Tier::Thorough || p == Profile::Release { 1 } else { 7 }), m04_grid, |n| { let mut x = Mix(n); let l = *x.of(&L4G); format!("{l} elements, position {:e}", m04_grid_p(x.0)) }),
            ],
        },
        Prop {
            id: "M05",
            level: "exploration",
            rule: "complete enumeration of (length, window, position): 12 lengths up to 150, windows 2..104 and larger, integer and fractional positions over several periods; every float position (quick: at a stride, plus corner floats) for small windows; class 1 = integer positions, 2/3 = fractional (inside / wrapping)",
            assumptions: vec!["tolerance: 4 roundings per factor relative to the sum of absolute basis terms, plus one rounding of the local position"],
            scenarios: vec![
                sweep("windows", "every window size at integer and fractional positions against the polynomial in double precision", &RC, |t, p| Plan::stride(m05_cases().len() as u64, if t == Tier::Thorough { 1 } else if p == Profile::Release { 3 } else { 23 }), m05_case, m05_show),
                corners("corner-positions", &RC, 8, m05_any, m05_any_show),
                sweep("positions", "windows of 2 to 6 points and four-point variant at every float position", &RC, move |t, p| Plan::stride(8 * N32, pick(t, p, 31, 499, 4001)), m05_any, m05_any_show),
                sweep("four-points", "four-point variants at every 1/64 position and neighbours in +-512", &RCA, |t, p| Plan::stride(12 * 65536, if t == Tier::Thorough || p == Profile::Release { 1 } else { 13 }), m05_four, |n| { let mut x = Mix(n); let l = *x.of(&L5); format!("{l} elements, position {}", x.0 as f64 / 64.0 - 512.0) }),
            ],
        },
        Prop {
            id: "M06",
            level: "model_checking",
            rule: "explicit-state search over 3 mutable and 1 read-only handle on two buffers: every interleaving of writes (checked, unchecked, by the owner), rebindings, copies and narrowings, to the fixpoint; after each step every handle is compared with the model at every index; classes: 1 write, 2 rebind, 3 copy, 4 narrow, 5 owner write; sweep: 14 lengths up to 2^24+1 x 3 places x 8 ways to make or rebind a handle, lengths, raw views and elements at the ends",
            assumptions: vec!["interleaving granularity is one operation; instruction-level concurrency is property M07"],
            scenarios: vec![
                search::<Handles>("interleavings", "4 handles over two buffers", &RC, |t, p| b(if t == Tier::Thorough { 3 } else if p == Profile::Release { 2 } else { 1 }, 200, if t == Tier::Thorough { 12_000_000 } else { 3_000_000 })),
                // one case at a time: all share the memory
                sweep("long", "handles to buffers of up to 2^24+1 elements, made and rebound in every way", &RC, |_, _| Plan::all(1), |_| { for n in 0..14 * 3 * 8 { executions(1); m06_long(n)?; } Ok(2) }, |_| m06_long_show(0)),
            ],
        },
        Prop {
            id: "M07",
            level: "exploration",
            rule: "stateless exploration of the compiled code. Accesses: the shared page is kept inaccessible, each instruction touching it is scheduled, and all interleavings of these instructions are run: two or three threads with 1 to 3 of 3 writing and 11 reading calls each on up to 4 of 5 elements (the longer programs strided). Instructions: with the trap flag every machine instruction is a possible switch, two or three switches at all positions (strided). Every value read and every element at the end must be the initial one or one written, and not older than a completed write; every evaluation is one schedule; class 1 = something was read",
            assumptions: vec!["code compiled for this machine (x86-64, release and checked builds), memory accesses in program order"],
            scenarios: vec![
                sweep("accesses-one", "two threads, one call each, all interleavings of memory accesses", &RC, |_, _| Plan::all(M07_TOTAL[3]), |n| m07_all(3, n), |n| progs7_show(&m07_progs(3, n))),
                sweep("accesses-one-three", "three threads, one call each, all interleavings of memory accesses", &RC, |_, _| Plan::all(M07_TOTAL[4]), |n| m07_all(4, n), |n| progs7_show(&m07_progs(4, n))),
                sweep("accesses-two", "two threads, two calls each, all interleavings of memory accesses", &RC, move |t, p| Plan::stride(M07_TOTAL[0], pick(t, p, 1, 61, 211)), |n| m07_all(0, n), |n| progs7_show(&m07_progs(0, n))),
                sweep("accesses-three", "two writers and a reader, all interleavings of memory accesses", &RC, move |t, p| Plan::stride(M07_TOTAL[1], pick(t, p, 3, 211, 499)), |n| m07_all(1, n), |n| progs7_show(&m07_progs(1, n))),
                sweep("accesses-longer", "three writes and three reads, all interleavings of memory accesses", &RC, move |t, p| Plan::stride(M07_TOTAL[2], pick(t, p, 7, 499, 997)), |n| m07_all(2, n), |n| progs7_show(&m07_progs(2, n))),
                sweep("instructions-one", "one call each, every two context switches", &RC, move |t, p| Plan::stride(space7(0).sch.total(), pick(t, p, 5, 211, 997)), |n| m07(0, n), |n| m07_show(0, n)),
                sweep("instructions-two", "two calls each, every two context switches", &RC, move |t, p| Plan::stride(space7(1).sch.total(), pick(t, p, 61, 3001, 7001)), |n| m07(1, n), |n| m07_show(1, n)),
                sweep("instructions-three", "two writers and a reader, two context switches", &RC, move |t, p| Plan::stride(space7(2).sch.total(), pick(t, p, 7, 499, 1999)), |n| m07(2, n), |n| m07_show(2, n)),
                sweep("instructions-switches", "one call each, three context switches", &RC, move |t, p| Plan::stride(space7(3).sch.total(), pick(t, p, 499, 100003, 400009)), |n| m07(3, n), |n| m07_show(3, n)),
            ],
        },
    ]
}
fn main() {
    main_with(props())
}
