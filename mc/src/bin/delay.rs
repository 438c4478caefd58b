//! D01..D07: delay line, comb, all-pass.
use eatmc::*;
use embedded_audio_tools::memory_access::*;
use embedded_audio_tools::{AllPass, Comb, DelayLine};

type Mut = MemorySlice<Mutable>;

fn handle(a: &Arena, b: usize) -> Mut {
    from_slice_mut(a.slice_mut(b))
}
fn b(cfgs: u64, depth: usize, max: usize) -> Bound {
    Bound { cfgs, depth, max_states: max }
}

// ---------------------------------------------------------------- D01
/// Samples that a store must keep as they are.
const PUSH: [f32; 3] = [0.0, -0.0, f32::from_bits(0x7fc0_1234)];
struct Ring {
    a: Arena,
    l: usize,
    d: DelayLine,
    cells: Vec<f32>,
    cur: usize,
}
fn offsets(l: usize) -> Vec<isize> {
    let li = l as isize;
    let mut v: Vec<isize> = (-3 * li - 2..=3 * li + 2).collect();
    for e in [1isize << 15, 1 << 16, 1 << 24, 1 << 31, 1 << 32, 1 << 40] {
        v.extend([e, -e, e - 1, 1 - e]);
    }
    v
}
fn check_ring(d: &mut DelayLine, a: &Arena, buf: usize, cells: &[f32], cur: usize, offs: &[isize]) -> Res {
    let l = cells.len();
    ensure!(d.len() == l, "len() = {}", d.len());
    let g = d.read();
    ensure!(same(g, cells[cur]), "read() = {g}, cell {cur} holds {}", cells[cur]);
    for &k in offs {
        let w = cells[(cur as i128 + k as i128).rem_euclid(l as i128) as usize];
        let g = d.read_wrapped_at(k);
        ensure!(same(g, w), "read_wrapped_at({k}) = {g}, want {w} (cursor {cur} of {l})");
    }
    let p = d.get_ptr_slice_mut();
    ensure!(p.len() == l && p as *mut f32 == a.ptr(buf), "get_ptr_slice_mut differs");
    for (i, c) in cells.iter().enumerate() {
        ensure!(same(a.get(buf, i), *c), "buffer[{i}] = {}, want {c} (cursor {cur} of {l})", a.get(buf, i));
    }
    ensure!(a.intact(), "memory outside the buffer changed");
    Ok(1)
}
impl Machine for Ring {
    fn new(cfg: u64) -> Self {
        let l = cfg as usize + 1;
        let mut a = Arena::new(&[l]);
        a.fill(0, |i| 10.0 + i as f32);
        let d = DelayLine::new(handle(&a, 0));
        Ring { cells: (0..l).map(|i| 10.0 + i as f32).collect(), a, l, d, cur: 0 }
    }
    fn nops(&self) -> u64 {
        4
    }
    fn step(&mut self, op: u64) -> Result<Option<u8>, Box<Fail>> {
        match op {
            0 => self.d.advance(),
            3 => {
                // a copy reads the same and is independent of the original
                let mut c = self.d;
                c.advance();
                c.read();
            }
            v => {
                let v = PUSH[v as usize];
                self.d.write_and_advance(v);
                self.cells[self.cur] = v;
            }
        }
        if op != 3 {
            self.cur = (self.cur + 1) % self.l;
        }
        check_ring(&mut self.d, &self.a, 0, &self.cells, self.cur, &offsets(self.l))?;
        Ok(Some(1 + (op == 0) as u8))
    }
    fn save(&self, o: &mut Vec<u8>) {
        self.a.save(o);
        put(o, &self.d);
        put(o, &self.cur);
        for c in &self.cells {
            put(o, c);
        }
    }
    fn load(&mut self, s: &[u8]) {
        let mut r = Reader(s);
        self.a.load(&mut r);
        r.get(&mut self.d);
        r.get(&mut self.cur);
        for c in &mut self.cells {
            r.get(c);
        }
    }
    fn opname(&self, op: u64) -> String {
        ["advance", "push -0.0", "push NaN", "copy"][op as usize].into()
    }
    fn cfgname(&self) -> String {
        format!("{} cells", self.l)
    }
}
const LONG: [usize; 22] = [1, 2, 3, 4, 5, 7, 8, 9, 24, 48, 100, 255, 256, 257, 1000, 4800, 32767, 32768, 65535, 65536, 65537, 70000];
/// A periodic pattern of pushes (1) and advances (0) for more than two rounds.
fn d01_long(n: u64) -> Res {
    let mut x = Mix(n);
    let l = *x.of(&LONG);
    let pat = x.0; // 8 bits
    let mut a = Arena::new(&[l]);
    a.fill(0, val);
    let mut cells: Vec<f32> = (0..l).map(val).collect();
    let mut d = DelayLine::new(handle(&a, 0));
    let mut cur = 0;
    let steps = 2 * l + 19;
    for s in 0..steps {
        let g = d.read();
        ensure!(same(g, cells[cur]), "step {s}: read() = {g}, want {} (cursor {cur} of {l})", cells[cur]);
        if pat >> (s % 8) & 1 == 1 {
            let v = [500.0 + s as f32, f32::INFINITY, -(s as f32), 1e-40, 1e30][s % 5];
            d.write_and_advance(v);
            cells[cur] = v;
        } else {
            d.advance();
        }
        cur = (cur + 1) % l;
        for k in [-1isize, 0, 1, l as isize - 1, -(l as isize)] {
            let w = cells[(cur as i128 + k as i128).rem_euclid(l as i128) as usize];
            let g = d.read_wrapped_at(k);
            ensure!(same(g, w), "step {s}: read_wrapped_at({k}) = {g}, want {w} (cursor {cur} of {l})");
        }
        if s % (l / 3 + 1) == 0 {
            check_ring(&mut d, &a, 0, &cells, cur, &[])?;
        }
    }
    check_ring(&mut d, &a, 0, &cells, cur, &[-7, 5, 1 << 33])
}
fn d01_long_show(n: u64) -> String {
    let mut x = Mix(n);
    let l = *x.of(&LONG);
    format!("{l} cells, repeated 8-step pattern {:08b} (1 push, 0 advance)", x.0)
}

const L_END: [usize; 5] = [1, 3, 257, 48000, 65537];
/// Pushes (case 0: only pushes; 1: every third call an advance) for a very long time.
fn d01_endure(n: u64, steps: u64) -> Res {
    let mut x = Mix(n);
    let l = *x.of(&L_END);
    d01_run(l, x.pick(2) == 1, steps)
}
/// Two and a half rounds on large buffers.
const L_HUGE: [usize; 10] = [100_003, 1 << 17, (1 << 17) + 1, (1 << 18) + 1, (1 << 19) + 1, 1 << 20, (1 << 20) + 3, (1 << 22) + 1, 1 << 24, (1 << 24) + 1];
fn rounds(l: usize) -> u64 {
    2 * l as u64 + l as u64 / 2
}
fn d01_huge(n: u64) -> Res {
    let l = L_HUGE[(n % 10) as usize];
    d01_run(l, n / 10 == 1, rounds(l))
}
fn d01_huge_show(n: u64) -> String {
    format!("{} cells, {}", L_HUGE[(n % 10) as usize], ["pushes", "pushes and advances"][(n / 10) as usize])
}
fn d01_run(l: usize, mixed: bool, steps: u64) -> Res {
    let mut a = Arena::new(&[l]);
    a.fill(0, val);
    let mut cells: Vec<f32> = (0..l).map(val).collect();
    let mut d = DelayLine::new(handle(&a, 0));
    let mut cur = 0;
    for s in 0..steps {
        let g = d.read();
        ensure!(same(g, cells[cur]), "step {s}: read() = {g}, want {} (cursor {cur} of {l})", cells[cur]);
        if mixed && s % 3 == 2 {
            d.advance();
        } else {
            let v = (s.wrapping_mul(2654435761) >> 8 & 0xff_ffff) as f32;
            d.write_and_advance(v);
            cells[cur] = v;
        }
        cur += 1;
        if cur == l {
            cur = 0;
        }
        if s & 0xffff == 0xfff0 {
            pulse();
            for k in [-1isize, 1, l as isize / 2] {
                let w = cells[(cur as i128 + k as i128).rem_euclid(l as i128) as usize];
                let g = d.read_wrapped_at(k);
                ensure!(same(g, w), "step {s}: read_wrapped_at({k}) = {g}, want {w} (cursor {cur} of {l})");
            }
        }
    }
    check_ring(&mut d, &a, 0, &cells, cur, &[-7, 5])
}
fn d01_endure_show(n: u64) -> String {
    format!("{} cells, {}", L_END[(n % 5) as usize], ["pushes", "pushes and advances"][(n / 5) as usize])
}

// ---------------------------------------------------------------- D02
/// The device under test behind one interface; the model is a ring whose cursor is only known as a set
/// of candidates after a buffer replacement (any position in the new buffer is a legal one).
#[derive(Clone, Copy)]
enum Dev {
    Line(DelayLine),
    Comb(Comb),
    Pass(AllPass),
}
struct Swap {
    a: Arena,
    // (memory, first cell, cells)
    views: Vec<(usize, usize, usize)>,
    mems: usize,
    dev: Dev,
    kind: usize,
    bound: usize,
    cand: u64,
    s: f64, // comb low-pass state
}
const SWAP_LENS: [[usize; 3]; 6] = [[1, 2, 3], [3, 1, 2], [4, 2, 1], [2, 5, 3], [5, 4, 1], [3, 7, 2]];
/// Parts (first cell, cells) of one memory that start at the same cell or overlap.
const SWAP_PARTS: [[(usize, usize); 3]; 4] = [[(0, 4), (0, 2), (2, 2)], [(0, 1), (0, 3), (1, 2)], [(1, 3), (0, 4), (1, 1)], [(2, 2), (0, 3), (2, 1)]];
impl Swap {
    fn l(&self) -> usize {
        self.views[self.bound].2
    }
    /// the cells of a view in a copy of the memory
    fn part(&self, v: usize, mem: &[Vec<f32>]) -> Vec<f32> {
        let (b, o, n) = self.views[v];
        mem[b][o..o + n].to_vec()
    }
    fn view(&self, v: usize) -> Mut {
        let (b, o, n) = self.views[v];
        let h = handle(&self.a, b);
        if (o, n) == (0, self.a.len(b)) {
            h
        } else {
            h.get_sub_slice(o, n).unwrap()
        }
    }
    /// Keep the candidates that explain: cell c held `read`, and afterwards holds `wrote`, all others as before.
    fn explain(&mut self, before: &[Vec<f32>], ok: impl Fn(usize) -> bool, wrote: Option<&dyn Fn(usize) -> (f64, f64)>) -> Result<(), Box<Fail>> {
        let l = self.l();
        let (was, is) = (self.part(self.bound, before), self.part(self.bound, &self.contents()));
        let mut keep = 0u64;
        for c in 0..l {
            if self.cand >> c & 1 == 0 || !ok(c) {
                continue;
            }
            let mut good = true;
            for i in 0..l {
                let now = is[i];
                match wrote {
                    Some(w) if i == c => {
                        let (v, tol) = w(c);
                        good &= near(now, v, tol);
                    }
                    _ => good &= same(now, was[i]),
                }
            }
            if good {
                keep |= 1 << ((c + 1) % l);
            }
        }
        let (b, o, n) = self.views[self.bound];
        for (k, mem) in before.iter().enumerate() {
            ensure!((0..mem.len()).all(|i| k == b && i >= o && i < o + n || same(self.a.get(k, i), mem[i])), "memory {k} changed outside the bound buffer");
        }
        ensure!(self.a.intact(), "memory outside the buffers changed");
        ensure!(keep != 0, "no cursor position in the bound buffer {} ({l} cells) explains what happened; before {was:?}, after {is:?}", self.bound);
        self.cand = keep;
        Ok(())
    }
    fn contents(&self) -> Vec<Vec<f32>> {
        (0..self.mems).map(|b| (0..self.a.len(b)).map(|i| self.a.get(b, i)).collect()).collect()
    }
}
impl Machine for Swap {
    fn new(cfg: u64) -> Self {
        let mut x = Mix(cfg);
        let kind = x.pick(3) as usize;
        let pick = x.pick(10) as usize;
        let views: Vec<_> = if pick < 6 { (0..3).map(|k| (k, 0, SWAP_LENS[pick][k])).collect() } else { SWAP_PARTS[pick - 6].map(|(o, n)| (0, o, n)).to_vec() };
        let mems = if pick < 6 { 3 } else { 1 };
        let mut a = Arena::new(&(0..mems).map(|b| views.iter().filter(|v| v.0 == b).map(|v| v.1 + v.2).max().unwrap()).collect::<Vec<_>>());
        for k in 0..mems {
            a.fill(k, |i| 0.25 * (1 + i + 3 * k) as f32);
        }
        let (b, o, n) = views[0];
        let h = from_slice_mut(&mut a.slice_mut(b)[o..o + n]);
        let dev = match kind {
            0 => Dev::Line(DelayLine::new(h)),
            1 => Dev::Comb(Comb::new(h)),
            _ => Dev::Pass(AllPass::new(h)),
        };
        Swap { a, views, mems, dev, kind, bound: 0, cand: 1, s: 0.0 }
    }
    fn nops(&self) -> u64 {
        7
    }
    fn step(&mut self, op: u64) -> Result<Option<u8>, Box<Fail>> {
        let before = self.contents();
        let l = self.l();
        match op {
            0..=2 => {
                let nb = op as usize;
                let h = self.view(nb);
                match &mut self.dev {
                    Dev::Line(d) => d.change_buffer(h),
                    Dev::Comb(d) => d.change_buffer(h),
                    Dev::Pass(d) => d.change_buffer(h),
                }
                let (b, o, nl) = self.views[nb];
                // rebinding to the same buffer or another one: any cell may come first
                self.bound = nb;
                self.cand = (1 << nl) - 1;
                let p = match &mut self.dev {
                    Dev::Line(d) => d.get_ptr_slice_mut(),
                    Dev::Comb(d) => d.get_ptr_slice_mut(),
                    Dev::Pass(d) => d.get_ptr_slice_mut(),
                };
                ensure!(p.len() == nl && p as *mut f32 == unsafe { self.a.ptr(b).add(o) }, "not bound to the new buffer");
                ensure!(before.iter().enumerate().all(|(k, v)| v.iter().enumerate().all(|(i, x)| same(self.a.get(k, i), *x))), "replacement changed samples");
                ensure!(self.a.intact(), "memory outside the buffers changed");
                Ok(Some(1))
            }
            3 | 4 => {
                let x = (op - 3) as f32;
                match &mut self.dev {
                    Dev::Line(d) => {
                        let r = d.read();
                        d.write_and_advance(x);
                        let bb = self.part(self.bound, &before);
                        self.explain(&before, |c| same(bb[c], r), Some(&|_| (x as f64, 0.0)))?;
                    }
                    Dev::Comb(d) => {
                        let o = d.tick(x);
                        let s = o as f64 * 0.5 + self.s * 0.5;
                        self.s = s;
                        let bb = self.part(self.bound, &before);
                        self.explain(&before, |c| same(bb[c], o), Some(&|_| (x as f64 + s * 0.5, 1e-5)))?;
                    }
                    Dev::Pass(d) => {
                        let o = d.tick(x);
                        let bb = self.part(self.bound, &before);
                        let b2 = bb.clone();
                        self.explain(&before, |c| near(o, b2[c] as f64 - x as f64, 1e-5), Some(&|c| (x as f64 + bb[c] as f64 * 0.5, 1e-5)))?;
                    }
                }
                Ok(Some(2))
            }
            5 => {
                let Dev::Line(d) = &mut self.dev else { return Ok(None) };
                let r = d.read();
                d.advance();
                let bb = self.part(self.bound, &before);
                self.explain(&before, |c| same(bb[c], r), None)?;
                Ok(Some(3))
            }
            _ => {
                // reads of every kind, at the current cursor
                let Dev::Line(d) = &self.dev else { return Ok(None) };
                let d = *d;
                let bb = &self.part(self.bound, &before);
                let mut keep = 0;
                let m = bb.iter().fold(0.0f32, |a, b| a.max(b.abs()));
                for c in 0..l {
                    if self.cand >> c & 1 == 0 {
                        continue;
                    }
                    let mut good = true;
                    for k in -(2 * l as isize)..=2 * l as isize {
                        let at = |k: isize| bb[(c as isize + k).rem_euclid(l as isize) as usize] as f64;
                        good &= same(d.read_wrapped_at(k), at(k) as f32);
                        good &= near(d.read_lerp_wrapped_at(k as f32 + 0.25), at(k) * 0.75 + at(k + 1) * 0.25, 1e-5 * m as f64);
                        good &= near(d.read_lagrange_wrapped_at(k as f32), at(k), 1e-5 * m as f64);
                    }
                    good &= same(d.read(), bb[c]);
                    if good {
                        keep |= 1 << c;
                    }
                }
                ensure!(keep != 0, "no cursor position in the bound buffer explains the reads ({bb:?})");
                self.cand = keep;
                ensure!(self.contents().iter().flatten().zip(before.iter().flatten()).all(|(a, b)| same(*a, *b)) && self.a.intact(), "a read changed memory");
                Ok(Some(4))
            }
        }
    }
    fn save(&self, o: &mut Vec<u8>) {
        self.a.save(o);
        match &self.dev {
            Dev::Line(d) => put(o, d),
            Dev::Comb(d) => put(o, d),
            Dev::Pass(d) => put(o, d),
        }
        put(o, &self.bound);
        put(o, &self.cand);
        put(o, &self.s);
    }
    fn load(&mut self, s: &[u8]) {
        let mut r = Reader(s);
        self.a.load(&mut r);
        match &mut self.dev {
            Dev::Line(d) => r.get(d),
            Dev::Comb(d) => r.get(d),
            Dev::Pass(d) => r.get(d),
        }
        r.get(&mut self.bound);
        r.get(&mut self.cand);
        r.get(&mut self.s);
    }
    fn opname(&self, op: u64) -> String {
        match op {
            0..=2 => format!("change_buffer({:?})", self.views[op as usize]),
            3 | 4 => format!("{} {}", if self.kind == 0 { "push" } else { "tick" }, op - 3),
            5 => "advance".into(),
            _ => "read all".into(),
        }
    }
    fn cfgname(&self) -> String {
        format!("{} on buffers {:?} (memory, first cell, cells)", ["delay line", "comb", "all-pass"][self.kind], self.views)
    }
}
/// Larger buffers: run `n0` steps on one, replace, run on, replace back, run on.
const BIG: [usize; 12] = [1, 2, 3, 8, 64, 100, 255, 256, 1000, 4801, 65537, 140_001];
fn d02_big(n: u64) -> Res {
    let mut x = Mix(n);
    let kind = x.pick(3);
    let (l0, l1) = (*x.of(&BIG), *x.of(&BIG));
    // where the cursor stands when the buffer is replaced
    let at = match x.pick(6) {
        0 => 0,
        1 => 1,
        2 => l0 / 2,
        3 => l0 - 1,
        4 => l1.min(2 * l0),
        _ => (l1 + 1).min(2 * l0),
    };
    let mut a = Arena::new(&[l0, l1]);
    let h: Vec<Mut> = (0..2).map(|k| handle(&a, k)).collect();
    let (mut line, mut comb, mut pass) = (DelayLine::new(h[0]), Comb::new(h[0]), AllPass::new(h[0]));
    for (buf, steps) in [(0usize, at), (1, 2 * l1 + 3), (0, 2 * l0 + 3), (1, l1 / 2), (1, l1 + 1)] {
        line.change_buffer(h[buf]);
        comb.change_buffer(h[buf]);
        pass.change_buffer(h[buf]);
        let l = a.len(buf);
        let other = 1 - buf;
        for i in 0..l {
            a.set(buf, i, 0.0);
        }
        let sum: f64 = (0..a.len(other)).map(|i| a.get(other, i) as f64).sum();
        let mut written = 0;
        let mut hist: Vec<f32> = vec![];
        for s in 0..steps {
            let v = 1.0 + (s % 31) as f32;
            let (out, want) = match kind {
                0 => {
                    let r = line.read();
                    line.write_and_advance(v);
                    hist.push(v);
                    (r, if s >= l { hist[s - l] as f64 } else { 0.0 })
                }
                1 => {
                    let r = comb.tick(v);
                    // first round: nothing comes back, whatever the filter state adds is not yet visible
                    (r, if s >= l { r as f64 } else { 0.0 })
                }
                _ => {
                    let r = pass.tick(v);
                    let d = if s >= l { hist[s - l] as f64 } else { 0.0 };
                    hist.push((v as f64 + 0.5 * d) as f32);
                    (r, d - v as f64)
                }
            };
            ensure!(near(out, want, 1e-3), "buffer {buf} of {l} cells, step {s}: output {out}, want {want}");
            if s < l {
                written += 1;
                if s == l - 1 || s == steps - 1 || l < 300 {
                    let nz = (0..l).filter(|i| a.get(buf, *i) != 0.0).count();
                    ensure!(nz == written, "after {} steps on {l} cells {nz} cells are written", s + 1);
                }
            }
        }
        let sum2: f64 = (0..a.len(other)).map(|i| a.get(other, i) as f64).sum();
        ensure!(sum == sum2, "the other buffer changed");
        ensure!(a.intact(), "memory outside the buffers changed");
    }
    Ok(1)
}
fn d02_big_show(n: u64) -> String {
    let mut x = Mix(n);
    let k = x.pick(3);
    let (l0, l1) = (*x.of(&BIG), *x.of(&BIG));
    format!("{} from {l0} to {l1} cells, cursor choice {}", ["delay line", "comb", "all-pass"][k as usize], x.pick(6))
}

// ---------------------------------------------------------------- D03
const L3: [usize; 12] = [1, 2, 3, 4, 5, 6, 8, 13, 24, 100, 1000, 20000];
const FRAC: [f32; 9] = [0.0, 0.125, 0.25, 0.375, 0.5, 0.625, 0.75, 0.875, 0.03125];
fn d03_curs(l: usize) -> Vec<usize> {
    if l <= 24 {
        (0..=l + 2).collect()
    } else {
        vec![0, 1, 2, l / 2, l - 3, l - 2, l - 1, l, l + 1]
    }
}
fn d03_offs(l: usize) -> Vec<f32> {
    let l = l as i64;
    let mut v = vec![];
    let ks: Vec<i64> = if l <= 24 { (-3 * l - 3..=3 * l + 3).collect() } else { vec![-2 * l, -l - 1, -l, -l + 1, -l / 2, -3, -2, -1, 0, 1, 2, 3, l / 2, l - 2, l - 1, l, l + 1, 2 * l] };
    for k in ks {
        for f in FRAC {
            v.push(k as f32 + f);
        }
    }
    v
}
fn d03_cases() -> &'static Vec<(usize, usize, usize)> {
    static C: std::sync::OnceLock<Vec<(usize, usize, usize)>> = std::sync::OnceLock::new();
    C.get_or_init(|| {
        let mut v = vec![];
        for l in L3 {
            for c in d03_curs(l) {
                for pat in 0..3 {
                    v.push((l, c, pat));
                }
            }
        }
        v
    })
}
fn d03_case(n: u64) -> Res {
    let (l, steps, pat) = d03_cases()[n as usize];
    let mut a = Arena::new(&[l]);
    a.fill(0, val);
    let mut cells: Vec<f32> = (0..l).map(val).collect();
    let mut d = DelayLine::new(handle(&a, 0));
    let mut c = 0;
    for s in 0..steps {
        if pat == 0 || (pat == 1 && s % 3 == 1) {
            let v = -val(3 * s + 11);
            d.write_and_advance(v);
            cells[c] = v;
        } else {
            d.advance();
        }
        c = (c + 1) % l;
    }
    for f in d03_offs(l) {
        let base = (f as f64).floor();
        let t = f as f64 - base;
        let at = |k: i64| cells[(c as i64 + base as i64 + k).rem_euclid(l as i64) as usize] as f64;
        let m = (-1..=2).map(|k| at(k).abs()).fold(0.0, f64::max);
        let g = d.read_lerp_wrapped_at(f);
        let w = at(0) * (1.0 - t) + at(1) * t;
        ensure!(near(g, w, 2e-6 * m), "cursor {c}: read_lerp_wrapped_at({f}) = {g}, want {w}");
        let x = t + 1.0;
        let p = |k: i64| at(k - 1);
        let wl = p(0) * (x - 1.0) * (x - 2.0) * (x - 3.0) / -6.0 + p(1) * x * (x - 2.0) * (x - 3.0) / 2.0 + p(2) * x * (x - 1.0) * (x - 3.0) / -2.0 + p(3) * x * (x - 1.0) * (x - 2.0) / 6.0;
        let g2 = d.read_lagrange_wrapped_at(f);
        ensure!(near(g2, wl, 1e-5 * m), "cursor {c}: read_lagrange_wrapped_at({f}) = {g2}, want {wl}");
        if t == 0.0 {
            let r = d.read_wrapped_at(f as isize);
            ensure!(r == g && near(g2, r as f64, 2e-6 * r.abs() as f64), "cursor {c}, offset {f}: plain {r}, linear {g}, lagrange {g2}");
        }
        let r = d.read();
        ensure!(same(r, cells[c]), "a read moved the cursor: {r}, want {}", cells[c]);
    }
    ensure!(a.intact() && (0..l).all(|i| same(a.get(0, i), cells[i])), "a read changed memory");
    Ok(1)
}

/// Every float as offset. The position cursor+offset may be rounded to a float: a read that far off is fine.
const L3A: [(usize, usize); 8] = [(1, 0), (3, 2), (8, 5), (48, 47), (1000, 500), (48000, 12345), (70000, 66000), ((1 << 20) + 3, 1 << 20)];
fn d03_any(n: u64) -> Res {
    struct One(DelayLine, Vec<f32>, usize, #[allow(dead_code)] Arena);
    thread_local! {
        static C: Vec<One> = L3A.iter().map(|&(l, c)| {
            let mut a = Arena::new(&[l]);
            let cells: Vec<f32> = (0..l).map(|i| if i % 2 == 0 { 1.0 } else { -1.0 } * (0.5 + (i * 37 % 101) as f32 / 202.0)).collect();
            a.fill(0, |i| cells[i]);
            let mut d = DelayLine::new(handle(&a, 0));
            (0..c).for_each(|_| d.advance());
            One(d, cells, c, a)
        }).collect();
    }
    let f = f32::from_bits((n / 8) as u32);
    C.with(|c| {
        let One(d, cells, c, _) = &c[(n % 8) as usize];
        let l = cells.len() as i64;
        if !(f.abs() < 4194304.0) {
            // the position is rounded to a float by up to a cell and more: some value among those stored
            let (a, b) = (d.read_lerp_wrapped_at(f), d.read_lagrange_wrapped_at(f));
            if f.is_nan() {
                ensure!(a.is_nan() && b.is_nan(), "offset NaN: {a} {b}");
                return Ok(4);
            }
            ensure!(a.abs() <= 1.00001, "{l} cells, cursor {c}: read_lerp_wrapped_at({f:e}) = {a} from cells of at most 1");
            ensure!(b.abs() <= if f.abs() < 33554432.0 { 2.0 } else { 1.00001 }, "{l} cells, cursor {c}: read_lagrange_wrapped_at({f:e}) = {b} from cells of at most 1");
            if f.abs() >= 33554432.0 {
                ensure!(a.abs() >= 0.49999 && b.abs() >= 0.49999, "{l} cells, cursor {c}: offset {f:e}: {a} and {b} are no cell");
            }
            return Ok(3);
        }
        let x = *c as f64 + f as f64;
        let base = x.floor();
        let t = x - base;
        let at = |k: i64| cells[(base as i64 + k).rem_euclid(l) as usize] as f64;
        let slip = 2.0 * (x.abs() + f.abs() as f64) * 2f64.powi(-24);
        let w = at(0) * (1.0 - t) + at(1) * t;
        let g = d.read_lerp_wrapped_at(f);
        ensure!(near(g, w, 2e-6 + 2.0 * slip), "{l} cells, cursor {c}: read_lerp_wrapped_at({f:e}) = {g}, want {w}");
        let x = t + 1.0;
        let p = |k: i64| at(k - 1);
        let w = p(0) * (x - 1.0) * (x - 2.0) * (x - 3.0) / -6.0 + p(1) * x * (x - 2.0) * (x - 3.0) / 2.0 + p(2) * x * (x - 1.0) * (x - 3.0) / -2.0 + p(3) * x * (x - 1.0) * (x - 2.0) / 6.0;
        let g = d.read_lagrange_wrapped_at(f);
        ensure!(near(g, w, 1e-5 + 6.0 * slip), "{l} cells, cursor {c}: read_lagrange_wrapped_at({f:e}) = {g}, want {w}");
        if f as f64 == (f as f64).floor() {
            let r = d.read_wrapped_at(f as isize);
            let w = cells[(*c as i64 + f as i64).rem_euclid(l) as usize];
            ensure!(same(r, w), "{l} cells, cursor {c}: read_wrapped_at({f:e}) = {r}, want {w}");
        }
        Ok(if f >= 0.0 { 1 } else { 2 })
    })
}
fn d03_any_show(n: u64) -> String {
    let (l, c) = L3A[(n % 8) as usize];
    format!("{l} cells, cursor {c}, offset {}", show_f32(n / 8))
}

// ---------------------------------------------------------------- D04
#[derive(Clone)]
struct CombModel {
    ring: Vec<f64>,
    c: usize,
    s: f64,
    f: f64,
    d: f64,
}
impl CombModel {
    fn new(ring: Vec<f64>) -> Self {
        CombModel { ring, c: 0, s: 0.0, f: 0.5, d: 0.5 }
    }
    fn tick(&mut self, x: f64) -> f64 {
        let o = self.ring[self.c];
        self.s = o * (1.0 - self.d) + self.s * self.d;
        self.ring[self.c] = x + self.s * self.f;
        self.c = (self.c + 1) % self.ring.len();
        o
    }
}
/// SYNC: for very long runs, the model takes over the (checked) contents of the buffer, so that roundings do not add up.
struct CombM<const SYNC: bool> {
    a: Arena,
    comb: Comb,
    m: CombModel,
    alpha: usize,
    scale: f32,
}
/// Signal levels: the recurrences hold for every level, down to -360 dB and up to +240 dB.
const SCALES: [f32; 3] = [1.0, 8.673617379884035e-19, 1099511627776.0];
const C_IN: [f32; 2] = [1.0, -0.75];
const C_D: [[f32; 3]; 3] = [[0.25, 0.875, 0.5], [0.0, 1.0, 0.5], [0.1, 0.9, 0.3]];
const C_F: [[f32; 3]; 3] = [[0.75, -0.5, 0.5], [0.0, -1.0, 1.0], [0.99, -0.3, 0.1]];
fn comb_cells(a: &Arena, buf: usize, m: &CombModel, scale: f32) -> Res {
    for (i, w) in m.ring.iter().enumerate() {
        ensure!(near(a.get(buf, i), *w, 2e-6 * (scale as f64 + w.abs())), "cell {i} holds {}, want {w}", a.get(buf, i));
    }
    ensure!(a.intact(), "memory outside the buffer changed");
    Ok(1)
}
impl<const SYNC: bool> Machine for CombM<SYNC> {
    fn new(cfg: u64) -> Self {
        let mut x = Mix(cfg);
        let alpha = x.pick(5) as usize;
        let l = x.pick(4) as usize + 1;
        let filled = x.pick(2) == 1;
        let mut a = Arena::new(&[l]);
        let (alpha, scale) = [(0, 0), (1, 0), (2, 0), (0, 1), (1, 2)][alpha];
        let scale = SCALES[scale];
        if filled {
            a.fill(0, |i| (0.5 + 0.25 * i as f32) * scale);
        }
        let ring = (0..l).map(|i| a.get(0, i) as f64).collect();
        let comb = Comb::new(handle(&a, 0));
        CombM { a, comb, m: CombModel::new(ring), alpha, scale }
    }
    fn nops(&self) -> u64 {
        8
    }
    fn step(&mut self, op: u64) -> Result<Option<u8>, Box<Fail>> {
        match op {
            0 | 1 => {
                let x = C_IN[op as usize] * self.scale;
                let w = self.m.tick(x as f64);
                let g = self.comb.tick(x);
                ensure!(near(g, w, 2e-6 * (self.scale as f64 + w.abs())), "tick({x}) = {g}, want {w}");
                comb_cells(&self.a, 0, &self.m, self.scale)?;
                if SYNC {
                    for i in 0..self.m.ring.len() {
                        self.m.ring[i] = self.a.get(0, i) as f64;
                    }
                }
                Ok(Some(1))
            }
            2..=4 => {
                let d = C_D[self.alpha][op as usize - 2];
                self.comb.set_dampening(d);
                self.m.d = d as f64;
                comb_cells(&self.a, 0, &self.m, self.scale)?;
                Ok(Some(2))
            }
            _ => {
                let f = C_F[self.alpha][op as usize - 5];
                self.comb.set_feedback(f);
                self.m.f = f as f64;
                comb_cells(&self.a, 0, &self.m, self.scale)?;
                Ok(Some(3))
            }
        }
    }
    fn save(&self, o: &mut Vec<u8>) {
        self.a.save(o);
        put(o, &self.comb);
        for v in &self.m.ring {
            put(o, v);
        }
        put(o, &self.m.c);
        put(o, &self.m.s);
        put(o, &self.m.f);
        put(o, &self.m.d);
    }
    fn load(&mut self, s: &[u8]) {
        let mut r = Reader(s);
        self.a.load(&mut r);
        r.get(&mut self.comb);
        for v in &mut self.m.ring {
            r.get(v);
        }
        r.get(&mut self.m.c);
        r.get(&mut self.m.s);
        r.get(&mut self.m.f);
        r.get(&mut self.m.d);
    }
    fn opname(&self, op: u64) -> String {
        match op {
            0 | 1 => format!("tick({})", C_IN[op as usize]),
            2..=4 => format!("set_dampening({})", C_D[self.alpha][op as usize - 2]),
            _ => format!("set_feedback({})", C_F[self.alpha][op as usize - 5]),
        }
    }
    fn cfgname(&self) -> String {
        format!("comb of {} cells, settings {}, signal scale {}", self.m.ring.len(), self.alpha, self.scale)
    }
}
/// An input signal: kind 0 impulse, 1 irregular, 2 constant, 3 alternating, 4 bursts.
fn signal(kind: u64, n: usize) -> f32 {
    match kind {
        0 => (n == 0) as u8 as f32,
        1 => val(n * 7 + 3) / 40.0,
        2 => 1.0,
        3 => 1.0 - 2.0 * (n % 2) as f32,
        _ => ((n / 13) % 2) as f32 * (1.0 - 2.0 * ((n / 3) % 2) as f32),
    }
}
const L_RUN: [usize; 14] = [1, 2, 3, 4, 5, 8, 16, 33, 100, 256, 1116, 4800, 65536, 70001];
const SET: [(f32, f32); 8] = [(0.5, 0.5), (0.84, 0.2), (0.98, 0.0), (-0.9, 0.7), (0.3, 1.0), (0.0, 0.3), (-0.5, 0.1), (0.95, 0.95)];
/// Long runs with a setting change in the middle (settings pair) — schedule 0: defaults untouched.
fn d04_long(n: u64) -> Res {
    let mut x = Mix(n);
    let l = *x.of(&L_RUN);
    let kind = x.pick(5);
    let (s0, s1) = (x.pick(9) as usize, x.pick(9) as usize);
    let a = Arena::new(&[l]);
    let mut comb = Comb::new(handle(&a, 0));
    let mut m = CombModel::new(vec![0.0; l]);
    let steps = if l > 2000 { 3 * l + 10 } else { (4 * l + 10).max(400) };
    for s in 0..steps {
        for (at, k) in [(3, s0), (steps / 2, s1)] {
            if s == at && k < 8 {
                let (f, d) = SET[k];
                if k % 2 == 0 {
                    comb.set_feedback(f);
                    comb.set_dampening(d);
                } else {
                    comb.set_dampening(d);
                    comb.set_feedback(f);
                }
                m.f = f as f64;
                m.d = d as f64;
            }
        }
        let v = signal(kind, s);
        let w = m.tick(v as f64);
        let g = comb.tick(v);
        ensure!(near(g, w, 1e-4 * (1.0 + w.abs())), "tick {s} = {g}, want {w}");
    }
    ensure!(a.intact(), "memory outside the buffer changed");
    Ok(1)
}
fn d04_endure(n: u64, steps: u64) -> Res {
    let mut x = Mix(n);
    let l = *x.of(&L_END);
    d04_run(l, SET[x.pick(2) as usize], steps)
}
fn d04_huge(n: u64) -> Res {
    let l = L_HUGE[n as usize];
    d04_run(l, SET[1], rounds(l))
}
fn d04_run(l: usize, (f, d): (f32, f32), steps: u64) -> Res {
    let a = Arena::new(&[l]);
    let mut comb = Comb::new(handle(&a, 0));
    let mut m = CombModel::new(vec![0.0; l]);
    comb.set_feedback(f);
    comb.set_dampening(d);
    m.f = f as f64;
    m.d = d as f64;
    for s in 0..steps {
        // a repeated chord with pauses
        let v = if s >> 12 & 3 == 3 { 0.0 } else { val((s & 0xfff) as usize) / 64.0 };
        let w = m.tick(v as f64);
        let g = comb.tick(v);
        ensure!(near(g, w, 1e-4 * (1.0 + w.abs())), "tick {s} = {g}, want {w}");
        if s & 0xffff == 0 {
            pulse();
        }
    }
    ensure!(a.intact(), "memory outside the buffer changed");
    Ok(1)
}
fn d04_endure_show(n: u64) -> String {
    format!("{} cells, (feedback, dampening) {:?}", L_END[(n % 5) as usize], SET[(n / 5) as usize])
}
fn run_show(n: u64) -> String {
    let mut x = Mix(n);
    let l = *x.of(&L_RUN);
    format!("{l} cells, signal {}, settings {} then {} (8: untouched)", x.pick(5), x.pick(9), x.pick(9))
}

// ---------------------------------------------------------------- D05
struct Pass {
    a: Arena,
    ap: AllPass,
    ring: Vec<f64>,
    c: usize,
    scale: f32,
}
const P_IN: [f32; 4] = [0.0, 1.0, -0.5, 0.3];
impl Machine for Pass {
    fn new(cfg: u64) -> Self {
        let scale = SCALES[cfg as usize / 10];
        let cfg = cfg % 10;
        let l = cfg as usize / 2 + 1;
        let mut a = Arena::new(&[l]);
        if cfg % 2 == 1 {
            a.fill(0, |i| (0.5 + 0.25 * i as f32) * scale);
        }
        let ring = (0..l).map(|i| a.get(0, i) as f64).collect();
        let ap = AllPass::new(handle(&a, 0));
        Pass { a, ap, ring, c: 0, scale }
    }
    fn nops(&self) -> u64 {
        4
    }
    fn step(&mut self, op: u64) -> Result<Option<u8>, Box<Fail>> {
        let x = P_IN[op as usize] * self.scale;
        let unit = self.scale as f64;
        let d = self.ring[self.c];
        let g = self.ap.tick(x);
        self.ring[self.c] = x as f64 + 0.5 * d;
        let l = self.ring.len();
        self.c = (self.c + 1) % l;
        ensure!(near(g, d - x as f64, 2e-6 * (unit + d.abs())), "tick({x}) = {g}, want {}", d - x as f64);
        for i in 0..l {
            ensure!(near(self.a.get(0, i), self.ring[i], 2e-6 * (unit + self.ring[i].abs())), "cell {i} holds {}, want {}", self.a.get(0, i), self.ring[i]);
        }
        ensure!(self.a.intact(), "memory outside the buffer changed");
        Ok(Some(1))
    }
    fn save(&self, o: &mut Vec<u8>) {
        self.a.save(o);
        put(o, &self.ap);
        for v in &self.ring {
            put(o, v);
        }
        put(o, &self.c);
    }
    fn load(&mut self, s: &[u8]) {
        let mut r = Reader(s);
        self.a.load(&mut r);
        r.get(&mut self.ap);
        for v in &mut self.ring {
            r.get(v);
        }
        r.get(&mut self.c);
    }
    fn opname(&self, op: u64) -> String {
        format!("tick({})", P_IN[op as usize])
    }
    fn cfgname(&self) -> String {
        format!("all-pass of {} cells, signal scale {}", self.ring.len(), self.scale)
    }
}
fn d05_long(n: u64) -> Res {
    let mut x = Mix(n);
    let l = *x.of(&L_RUN);
    let kind = x.pick(5);
    let scale = [1.0f32, 1e-15, 1e6][x.pick(3) as usize];
    let a = Arena::new(&[l]);
    let mut ap = AllPass::new(handle(&a, 0));
    let mut ring = vec![0f64; l];
    let steps = (3 * l + 7).max(300);
    for s in 0..steps {
        let v = signal(kind, s) * scale;
        let d = ring[s % l];
        ring[s % l] = v as f64 + 0.5 * d;
        let g = ap.tick(v);
        ensure!(near(g, d - v as f64, 1e-5 * scale as f64 * 3.0), "tick {s} = {g}, want {}", d - v as f64);
    }
    ensure!(a.intact(), "memory outside the buffer changed");
    Ok(1)
}
fn d05_endure(n: u64, steps: u64) -> Res {
    d05_run(L_END[n as usize], steps)
}
fn d05_huge(n: u64) -> Res {
    let l = L_HUGE[n as usize];
    d05_run(l, rounds(l))
}
fn d05_run(l: usize, steps: u64) -> Res {
    let a = Arena::new(&[l]);
    let mut ap = AllPass::new(handle(&a, 0));
    let mut ring = vec![0f64; l];
    let mut c = 0;
    for s in 0..steps {
        let v = if s >> 12 & 3 == 3 { 0.0 } else { val((s & 0xfff) as usize) / 64.0 };
        let d = ring[c];
        ring[c] = v as f64 + 0.5 * d;
        c += 1;
        if c == l {
            c = 0;
        }
        let g = ap.tick(v);
        ensure!(near(g, d - v as f64, 1e-5), "tick {s} = {g}, want {}", d - v as f64);
        if s & 0xffff == 0 {
            pulse();
        }
    }
    ensure!(a.intact(), "memory outside the buffer changed");
    Ok(1)
}
/// Superposition: all pairs of ternary input sequences of length 5.
fn d05_linear(n: u64) -> Res {
    let mut x = Mix(n);
    let l = x.pick(4) as usize + 1;
    let (p, q) = (x.pick(243), x.pick(243));
    let a = Arena::new(&[l, l, l]);
    let mut ap: Vec<AllPass> = (0..3).map(|k| AllPass::new(handle(&a, k))).collect();
    let (mut mp, mut mq) = (Mix(p), Mix(q));
    for s in 0..9 {
        let u = [0.0, 1.0, -0.7][mp.pick(3) as usize];
        let v = [0.0, 0.6, -1.0][mq.pick(3) as usize];
        let (y0, y1, y2) = (ap[0].tick(u), ap[1].tick(v), ap[2].tick(u + v));
        ensure!(near(y2, y0 as f64 + y1 as f64, 4e-6), "tick {s}: response to the sum {y2}, sum of responses {}", y0 + y1);
    }
    Ok(1 + (p > 0 && q > 0) as u8)
}

// ---------------------------------------------------------------- D06
const F6: [f32; 8] = [0.5, 0.9, -0.9, 0.95, -0.95, 0.25, -0.5, 0.0];
const D6: [f32; 6] = [0.5, 0.0, 0.2, 0.9, 0.95, 1.0];
/// Every periodic input of period 6 over {-1, 0, 1}, every setting; then silence.
fn d06_periodic(n: u64) -> Res {
    let mut x = Mix(n);
    let f = *x.of(&F6);
    let d = *x.of(&D6);
    let l = [1usize, 2, 3, 4, 5, 7][x.pick(6) as usize];
    let pat = x.pick(729);
    let a = Arena::new(&[l]);
    let mut comb = Comb::new(handle(&a, 0));
    comb.set_feedback(f);
    comb.set_dampening(d);
    let bound = (1.0 / (1.0 - f.abs())) * 1.0001;
    let p: Vec<f32> = {
        let mut m = Mix(pat);
        (0..6).map(|_| [0.0, 1.0, -1.0][m.pick(3) as usize]).collect()
    };
    let mut peak = 0f32;
    for s in 0..700 {
        let g = comb.tick(p[s % 6]);
        ensure!(g.abs() <= bound, "comb f={f} d={d} {l} cells: output {g} at tick {s}, bound {bound}");
        peak = peak.max(g.abs());
    }
    if d < 1.0 {
        decay(&mut |x| comb.tick(x), bound, "comb", 24 * (l + (d / (1.0 - d)) as usize + 2) * ((1.0 / (1.0 - f.abs())) as usize + 1))?;
    }
    ensure!(a.intact(), "memory outside the buffer changed");
    Ok((peak > 0.0) as u8)
}
/// After `wait` silent ticks the outputs have fallen below 1/1000 of the bound, and stay there.
fn decay(tick: &mut dyn FnMut(f32) -> f32, bound: f32, what: &str, wait: usize) -> Result<(), Box<Fail>> {
    for s in 0..wait + 60 {
        let g = tick(0.0);
        ensure!(g.abs() <= bound, "{what}: output {g} in silence, bound {bound}");
        ensure!(s < wait || g.abs() < 1e-3 * bound, "{what}: output {g} after {s} silent ticks");
    }
    Ok(())
}
/// Adversarial input (+-1 chosen to push the output up), settings changing within |f| <= F.
fn d06_adversarial(n: u64) -> Res {
    let mut x = Mix(n);
    let fmax = *x.of(&[0.5f32, 0.9, 0.99, 0.25]);
    let l = [1usize, 2, 3, 5, 16, 100][x.pick(6) as usize];
    let sched = x.pick(1024);
    let a = Arena::new(&[l]);
    let mut comb = Comb::new(handle(&a, 0));
    let bound = 1.0 / (1.0 - fmax as f64) * 1.0001;
    if fmax < 0.5 {
        comb.set_feedback(fmax);
    }
    let mut last = 1.0f32;
    for s in 0..400 + 10 * l {
        if s % 7 == 3 {
            // two schedule bits choose the next settings
            match sched >> (2 * (s / 7 % 5)) & 3 {
                0 => comb.set_feedback(fmax),
                1 => comb.set_feedback(-fmax),
                2 => comb.set_dampening(1.0),
                _ => comb.set_dampening(0.0),
            }
        }
        let v = if last >= 0.0 { 1.0 } else { -1.0 };
        let g = comb.tick(v);
        ensure!((g.abs() as f64) <= bound, "comb |f|<={fmax}, {l} cells, schedule {sched:010b}: output {g} at tick {s}, bound {bound}");
        last = g;
    }
    Ok(1)
}
/// All-pass: every +-1/0 sequence of 10 samples, then its periodic repetition, then silence.
fn d06_pass(n: u64) -> Res {
    let mut x = Mix(n);
    let l = [1usize, 2, 3, 5, 100][x.pick(5) as usize];
    let pat = x.pick(59049);
    let a = Arena::new(&[l]);
    let mut ap = AllPass::new(handle(&a, 0));
    let p: Vec<f32> = {
        let mut m = Mix(pat);
        (0..10).map(|_| [0.0, 1.0, -1.0][m.pick(3) as usize]).collect()
    };
    for s in 0..60 + 2 * l {
        let g = ap.tick(p[s % 10]);
        ensure!(g.abs() <= 3.0001, "all-pass of {l} cells: output {g} at tick {s}");
    }
    decay(&mut |x| ap.tick(x), 3.0001, "all-pass", 14 * l)?;
    Ok((pat > 0) as u8)
}

/// Every feedback, dampening and input value, the others from a few settings: full-scale and constant input, silence.
const OTHER: [(f32, f32); 4] = [(0.9, 0.3), (-0.99, 0.0), (0.5, 1.0), (-0.3, 0.9)];
fn d06_any(n: u64) -> Res {
    let mut m = Mix(n);
    let which = m.pick(4);
    let (mut f, mut d) = *m.of(&OTHER);
    let v = f32::from_bits(m.0 as u32);
    let mut x = 1.0f32;
    match which {
        0 if v.abs() < 1.0 => f = v,
        1 if v >= 0.0 && v <= 1.0 => d = v,
        2 | 3 if v.abs() <= 1.0 => x = v,
        _ => return Ok(0),
    }
    thread_local! {
        static MEM: Arena = Arena::new(&[2]);
    }
    MEM.with(|a| {
        for i in 0..2 {
            unsafe { a.ptr(0).add(i).write_volatile(0.0) }
        }
        if which == 3 {
            let mut ap = AllPass::new(handle(a, 0));
            let (mut last, mut y) = (1.0f32, x);
            for s in 0..80 {
                y = if s >= 40 { 0.0 } else if s < 10 { x } else if last >= 0.0 { y.abs() } else { -y.abs() };
                last = ap.tick(y);
                ensure!(last.abs() <= 3.0001, "all-pass, inputs {x:e}: output {last} at tick {s}");
                ensure!(s < 70 || last.abs() <= 1e-2 + 1e-2 * x.abs(), "all-pass, inputs {x:e}: output {last} after {} silent ticks", s - 39);
            }
            return Ok(2);
        }
        let mut comb = Comb::new(handle(a, 0));
        comb.set_feedback(f);
        comb.set_dampening(d);
        let bound = 1.0001 / (1.0 - f.abs() as f64);
        let mut last = 1.0f32;
        let long = f.abs() <= 0.5 && d <= 0.5;
        for s in 0..if long { 200 } else { 70 } {
            let y = if s >= 48 { 0.0 } else if s < 8 { x } else if last >= 0.0 { x.abs() } else { -x.abs() };
            last = comb.tick(y);
            ensure!(last.abs() as f64 <= bound, "comb feedback {f:e} dampening {d:e} inputs {x:e}: output {last} at tick {s}, bound {bound}");
        }
        ensure!(!long || last.abs() <= 1e-3, "comb feedback {f:e} dampening {d:e} inputs {x:e}: output {last} after 150 silent ticks");
        Ok(1)
    })
}
fn d06_any_show(n: u64) -> String {
    let mut m = Mix(n);
    let (w, o) = (m.pick(4), m.of(&OTHER));
    format!("{} = {}, others from {o:?}", ["feedback", "dampening", "input of the comb", "input of the all-pass"][w as usize], show_f32(m.0))
}

// ---------------------------------------------------------------- D07
/// One buffer carved into three by sub-slices, with a delay line, a comb and an all-pass on them, and a second tap
/// (a copy of the delay line) that runs on its own.
const CARVE: [[usize; 3]; 8] = [[2, 1, 3], [1, 1, 1], [1, 2, 2], [3, 3, 1], [2, 2, 2], [4, 1, 2], [5, 3, 4], [2, 5, 3]];
struct Shared {
    a: Arena,
    cfg: usize,
    base: [usize; 3],
    len: [usize; 3],
    d: DelayLine,
    tap: DelayLine,
    c: Comb,
    ap: AllPass,
    /// cursors of delay line, comb, all-pass, tap
    cur: [usize; 4],
}
const SHARED_OPS: [&str; 13] = ["push(1)", "push(-0.75)", "advance", "comb.tick(1)", "comb.tick(-0.25)", "allpass.tick(1)", "allpass.tick(0.5)", "tap = delay line", "tap.advance", "tap.push(0.3)", "comb settings", "rebind all-pass to its own cells", "all effects replaced by clones"];
impl Shared {
    fn check(&mut self) -> Result<(), Box<Fail>> {
        let taps: [(&mut DelayLine, usize, &str); 2] = [(&mut self.d, 0, "delay line"), (&mut self.tap, 3, "tap")];
        for (d, i, name) in taps {
            let (l, base, cur) = (self.len[0], self.base[0], self.cur[i]);
            ensure!(d.len() == l, "{name}: len() = {}", d.len());
            let (g, w) = (d.read(), self.a.get(0, base + cur));
            ensure!(same(g, w), "{name}: read() = {g}, its cell {cur} holds {w}");
            for k in -2 * l as isize..=2 * l as isize {
                let w = self.a.get(0, base + (cur as isize + k).rem_euclid(l as isize) as usize);
                let g = d.read_wrapped_at(k);
                ensure!(same(g, w), "{name}: read_wrapped_at({k}) = {g}, want {w} (cursor {cur} of {l})");
            }
        }
        for (p, i, name) in [(self.c.get_ptr_slice_mut(), 1, "comb"), (self.ap.get_ptr_slice_mut(), 2, "all-pass"), (self.tap.get_ptr_slice_mut(), 0, "tap")] {
            ensure!(p.len() == self.len[i] && p as *mut f32 == unsafe { self.a.ptr(0).add(self.base[i]) }, "{name}: bound to other memory");
        }
        Ok(())
    }
}
impl Machine for Shared {
    fn new(cfg: u64) -> Self {
        let len = CARVE[cfg as usize % 8];
        // the last cell of the parent belongs to nobody
        let mut a = Arena::new(&[len.iter().sum::<usize>() + 2]);
        a.fill(0, |i| 5.0 + i as f32);
        let parent = handle(&a, 0);
        let base = [1, 1 + len[0], 1 + len[0] + len[1]];
        let outer = parent.get_sub_slice(1, len.iter().sum()).ok().unwrap();
        let part = |k: usize| -> Mut {
            if cfg < 8 { parent.get_sub_slice(base[k], len[k]) } else { outer.get_sub_slice(base[k] - 1, len[k]) }.ok().unwrap()
        };
        let d = DelayLine::new(part(0));
        Shared { c: Comb::new(part(1)), ap: AllPass::new(part(2)), tap: d, d, a, cfg: cfg as usize, base, len, cur: [0; 4] }
    }
    fn nops(&self) -> u64 {
        13
    }
    fn step(&mut self, op: u64) -> Result<Option<u8>, Box<Fail>> {
        let n = self.a.len(0);
        let before: Vec<f32> = (0..n).map(|i| self.a.get(0, i)).collect();
        // which cell may change, and to what (if known)
        let mut cell = None;
        let mut value = None;
        let next = |cur: &mut usize, l: usize| *cur = (*cur + 1) % l;
        match op {
            0 | 1 | 9 => {
                let (d, i) = if op == 9 { (&mut self.tap, 3) } else { (&mut self.d, 0) };
                let v = [1.0, -0.75, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.3][op as usize];
                d.write_and_advance(v);
                (cell, value) = (Some(self.base[0] + self.cur[i]), Some(v));
                next(&mut self.cur[i], self.len[0]);
            }
            2 | 8 => {
                let (d, i) = if op == 8 { (&mut self.tap, 3) } else { (&mut self.d, 0) };
                d.advance();
                next(&mut self.cur[i], self.len[0]);
            }
            3 | 4 => {
                let at = self.base[1] + self.cur[1];
                let g = self.c.tick(if op == 3 { 1.0 } else { -0.25 });
                ensure!(same(g, before[at]), "comb output {g}, its cell {} held {}", self.cur[1], before[at]);
                cell = Some(at);
                next(&mut self.cur[1], self.len[1]);
            }
            5 | 6 => {
                let at = self.base[2] + self.cur[2];
                let x = if op == 5 { 1.0f32 } else { 0.5 };
                let g = self.ap.tick(x);
                ensure!(near(g, before[at] as f64 - x as f64, 1e-6 * (1.0 + before[at].abs() as f64)), "all-pass output {g}, its cell {} held {}, input {x}", self.cur[2], before[at]);
                cell = Some(at);
                next(&mut self.cur[2], self.len[2]);
            }
            7 => {
                self.tap = self.d;
                self.cur[3] = self.cur[0];
            }
            10 => {
                self.c.set_feedback(0.25);
                self.c.set_dampening(0.125);
            }
            12 => {
                // clones must go on like the originals (which, by copy, are run ahead here)
                let (c, ap, d) = (Clone::clone(&self.c), Clone::clone(&self.ap), Clone::clone(&self.d));
                let ahead = [(self.c, self.ap, self.d), (Clone::clone(&c), Clone::clone(&ap), Clone::clone(&d))].map(|(mut c, mut ap, mut d)| {
                    let mut out = vec![];
                    for k in 0..6 {
                        out.extend([c.tick(val(k)), ap.tick(val(k)), d.read()].map(f32::to_bits));
                        d.write_and_advance(val(k));
                    }
                    out.extend((0..n).map(|i| self.a.get(0, i).to_bits()));
                    for (i, v) in before.iter().enumerate() {
                        self.a.set(0, i, *v);
                    }
                    out
                });
                ensure!(ahead[0] == ahead[1], "clones go on differently: {:?} and {:?}", ahead[0], ahead[1]);
                (self.c, self.ap, self.d) = (c, ap, d);
            }
            _ => {
                let own = handle(&self.a, 0).get_sub_slice(self.base[2], self.len[2]).ok().unwrap();
                self.ap.change_buffer(own);
            }
        }
        for i in 0..n {
            let g = self.a.get(0, i);
            if cell != Some(i) {
                ensure!(same(g, before[i]), "element {i} changed from {} to {g}", before[i]);
            } else if let Some(v) = value {
                ensure!(same(g, v), "element {i} became {g}, pushed {v}");
            }
        }
        ensure!(self.a.intact(), "memory outside the buffer changed");
        if op == 11 {
            // where the cursor goes on after a replacement of the same length is not this property's business
            self.cur[2] = usize::MAX;
            let mut probe = self.ap;
            let keep: Vec<f32> = (0..n).map(|i| self.a.get(0, i)).collect();
            for (k, i) in (0..self.len[2]).enumerate() {
                self.a.set(0, self.base[2] + i, 100.0 + k as f32);
            }
            let g = probe.tick(0.0);
            let at = g - 100.0;
            for (i, v) in keep.iter().enumerate() {
                self.a.set(0, i, *v);
            }
            ensure!(at >= 0.0 && at < self.len[2] as f32 && at.fract() == 0.0, "all-pass reads outside its cells after a rebind");
            self.cur[2] = at as usize;
        }
        self.check()?;
        Ok(Some(1 + op as u8))
    }
    fn save(&self, o: &mut Vec<u8>) {
        self.a.save(o);
        put(o, &self.d);
        put(o, &self.tap);
        put(o, &self.c);
        put(o, &self.ap);
        put(o, &self.cur);
    }
    fn load(&mut self, s: &[u8]) {
        let mut r = Reader(s);
        self.a.load(&mut r);
        r.get(&mut self.d);
        r.get(&mut self.tap);
        r.get(&mut self.c);
        r.get(&mut self.ap);
        r.get(&mut self.cur);
    }
    fn opname(&self, op: u64) -> String {
        SHARED_OPS[op as usize].into()
    }
    fn cfgname(&self) -> String {
        format!("{:?} cells of one buffer{}", self.len, if self.cfg < 8 { "" } else { ", nested sub-slices" })
    }
}

// ---------------------------------------------------------------- one float at a time
const N32: u64 = 1 << 32;
fn f(n: u64) -> f32 {
    f32::from_bits(n as u32)
}
/// Every bit pattern is stored and read back unchanged.
fn d01_value(n: u64) -> Res {
    let x = f(n);
    let mut m = [1.0f32, 2.0, 3.0];
    let p = &raw mut m;
    let mut d = DelayLine::new(from_slice_mut(&mut m[..]));
    d.write_and_advance(7.5);
    d.write_and_advance(x);
    let (a, b, c) = (d.read(), d.read_wrapped_at(-1), d.read_wrapped_at(2));
    let m = unsafe { p.read_volatile() };
    ensure!(a == 3.0 && same(b, x) && same(c, x) && same(m[1], x) && m[0] == 7.5 && m[2] == 3.0, "pushed {x:e}: reads {a:e} {b:e} {c:e}, cells {m:?}");
    Ok(1 + x.is_nan() as u8)
}
/// Every finite input through a comb and back.
fn d04_value(n: u64) -> Res {
    let x = f(n / 2);
    if !(x.abs() <= 1e38) {
        return Ok(0);
    }
    let (fb, d) = [(0.75f32, 0.25f32), (-0.5, 0.0)][(n % 2) as usize];
    let mut m = [0.0f32, 0.5];
    let mut c = Comb::new(from_slice_mut(&mut m[..]));
    c.set_feedback(fb);
    c.set_dampening(d);
    let o = [x, 0.25, 0.0, 0.0, 0.0].map(|x| c.tick(x));
    let (mut fs, mut cell, fb, d) = (0f64, [0f64, 0.5], fb as f64, d as f64);
    for (k, v) in [x as f64, 0.25, 0.0, 0.0, 0.0].into_iter().enumerate() {
        let w = cell[k % 2];
        ensure!(near(o[k], w, 2e-6 * w.abs().max(if k >= 2 { x.abs() as f64 + 0.5 } else { 0.0 }) + 1e-44), "comb fed {x:e}, 0.25, 0, 0, 0: output {k} is {:e}, want {w:e}", o[k]);
        fs = w * (1.0 - d) + fs * d;
        cell[k % 2] = v + fs * fb;
    }
    ensure!(same(o[2], x) || o[2] == x || o[2] == x + (0.0 * fb as f32), "comb fed {x:e} returns {:e} a round later", o[2]);
    Ok(1 + (n % 2) as u8)
}
/// Every feedback and every dampening in range.
fn d04_setting(n: u64) -> Res {
    let x = f(n / 2);
    let fb_turn = n % 2 == 0;
    let ok = if fb_turn { x.abs() <= 1.0 } else { (0.0..=1.0).contains(&x) };
    if !ok {
        return Ok(0);
    }
    let (fb, d) = if fb_turn { (x, 0.25f32) } else { (-0.75, x) };
    let mut m = [0.5f32];
    let mut c = Comb::new(from_slice_mut(&mut m[..]));
    c.set_feedback(fb);
    c.set_dampening(d);
    let o = [1.0f32, 0.0, -1.0, 0.0].map(|x| c.tick(x));
    let (mut fs, mut cell, fb, d) = (0f64, 0.5f64, fb as f64, d as f64);
    for (k, v) in [1.0, 0.0, -1.0, 0.0].into_iter().enumerate() {
        ensure!(near(o[k], cell, 1e-6), "comb with feedback {fb:e} and dampening {d:e}: output {k} is {:e}, want {cell:e}", o[k]);
        fs = cell * (1.0 - d) + fs * d;
        let fed = v + fs * fb;
        cell = fed;
    }
    Ok(1 + (n % 2) as u8)
}
/// Every finite input through an all-pass.
fn d05_value(n: u64) -> Res {
    let x = f(n);
    if !(x.abs() <= 1e38) {
        return Ok(0);
    }
    let mut m = [0.0f32, 0.5];
    let mut c = AllPass::new(from_slice_mut(&mut m[..]));
    let inp = [x, 0.25, 0.0, x, 0.0, 0.0];
    let o = inp.map(|x| c.tick(x));
    let mut cell = [0f64, 0.5];
    for k in 0..6 {
        let (v, w) = (inp[k] as f64, cell[k % 2]);
        ensure!(near(o[k], w - v, 1e-6 * (w.abs() + v.abs()) + 1e-44), "all-pass fed {inp:?}: output {k} is {:e}, want {:e}", o[k], w - v);
        cell[k % 2] = v + 0.5 * w;
    }
    Ok(1)
}

fn props() -> Vec<Prop> {
    // complete in the release build, complete everywhere in the thorough tier
    let one = |t: Tier, p: Profile| if t == Tier::Thorough || p == Profile::Release { 1 } else { 31 };
    let q = |t: Tier, a: u64, b: u64| if t == Tier::Thorough { a } else { b };
    vec![
        Prop {
            id: "D01",
            level: "model_checking",
            rule: "search: every history of push (-0.0 and a NaN, which must be kept bit for bit) and advance on 1..6 cells to the fixpoint of (object, buffer); after each step every read, including offsets up to 3 lengths and +-2^40, is compared with a ring; sweep: all repeated 8-step push/advance patterns for more than two rounds on 22 lengths up to 70000, two and a half rounds on 10 lengths up to 2^24+1; one-float sweep: all 2^32 bit patterns stored and read back",
            assumptions: vec!["offsets up to 2^40 in magnitude"],
            scenarios: with(vec![
                search::<Ring>("histories", "all push/advance histories", &RC, move |t, _| b(q(t, 8, 6), 400, 1 << 22)),
                periodic::<Ring>("periodic", &RC, 6, 4),
                sweep("long-runs", "repeated patterns for more than two rounds", &RCA, |t, p| { let n = 22 * 256; if t == Tier::Thorough { Plan::all(n) } else if p == Profile::Release { Plan::all(n) } else { Plan::stride(n, 7) } }, d01_long, d01_long_show),
                sweep("values", "every bit pattern pushed and read", &RC, move |t, p| Plan::stride(N32, one(t, p)), d01_value, show_f32),
                sweep("huge", "two and a half rounds on buffers of up to 2^24+1 cells", &RC, |_, _| Plan::all(20), d01_huge, d01_huge_show),
            ], endurance(10, d01_endure, d01_endure_show)),
        },
        Prop {
            id: "D02",
            level: "model_checking",
            rule: "search: every history of buffer replacements (3 buffers, 6 length combinations; 4 combinations of overlapping parts of one memory), pushes/ticks, advances and reads up to the depth, for delay line, comb and all-pass; after a replacement the cursor is modelled as the set of cells that explain what was observed, and the set must never be empty; guard zones and unbound buffers must not change; class 1 replace, 2 push/tick, 3 advance, 4 reads",
            assumptions: vec!["non-empty buffers", "a write more than 64 cells outside every buffer that crashes nothing is not seen (address sanitizer builds excepted)"],
            scenarios: vec![
                search::<Swap>("replacements", "all histories with buffer replacements", &RC, move |t, p| b(30, q(t, 13, if p == Profile::Release { 11 } else { 9 }) as usize, q(t, 8_000_000, 4_000_000) as usize)),
                periodic::<Swap>("periodic", &RC, 30, 4),
                sweep("large", "replacement at every cursor extreme between 12 lengths up to 140001", &RCA, |t, p| Plan::stride(3 * 144 * 6, if t == Tier::Thorough || p == Profile::Release { 1 } else { 7 }), d02_big, d02_big_show),
            ],
        },
        Prop {
            id: "D03",
            level: "exploration",
            rule: "complete enumeration of (length, cursor position reached by a push/advance history, fractional offset): 12 lengths, every cursor for short ones, every multiple of 1/8 within 3 lengths; references in double precision; each evaluation is one history with all its offsets; every float offset below 2^22 (corner floats and a stride) on 8 lengths up to 2^20+3",
            assumptions: vec!["positions cursor+offset that floats represent exactly"],
            scenarios: vec![
                sweep("offsets", "interpolated reads around the cursor", &RCA, |_, _| Plan::all(d03_cases().len() as u64), d03_case, |n| { let (l, s, p) = d03_cases()[n as usize]; format!("{l} cells, {s} steps of pattern {p}") }),
                corners("corner-offsets", &RC, 8, d03_any, d03_any_show),
                sweep("any-offset", "every float offset (from 2^22 on: values of cells)", &RC, move |t, p| Plan::stride(8 * N32, if t == Tier::Thorough { 5 } else if p == Profile::Release { 31 } else { 307 }), d03_any, d03_any_show),
            ],
        },
        Prop {
            id: "D04",
            level: "model_checking",
            rule: "search: every history of ticks (2 inputs) and settings (3 dampenings, 3 feedbacks) up to the depth on 1..4 cells, empty or filled, 5 alphabets (3 sets of settings; signal levels 1, 2^-60, 2^40), against the recurrence in double precision including buffer contents; sweep: long signals with setting changes on 14 lengths up to 70001, two and a half rounds on 10 lengths up to 2^24+1; one-float sweeps: every finite input, every feedback in [-1,1], every dampening in [0,1]",
            assumptions: vec!["dampening in [0,1], feedback in [-1,1]"],
            scenarios: with(vec![
                search::<CombM<false>>("histories", "all tick/setter histories", &RC, move |t, p| b(40, q(t, 11, if p == Profile::Release { 9 } else { 7 }) as usize, q(t, 12_000_000, 6_000_000) as usize)),
                periodic::<CombM<true>>("periodic", &RC, 40, 4),
                sweep("long-runs", "signals over many rounds with two setting changes", &RC, |t, p| { let n = 14 * 5 * 81; if t == Tier::Thorough { Plan::all(n) } else if p == Profile::Release { Plan::all(n) } else { Plan::stride(n, 7) } }, d04_long, run_show),
                sweep("values", "every finite input", &RC, move |t, p| Plan::stride(2 * N32, one(t, p)), d04_value, |n| format!("settings {} input {}", n % 2, show_f32(n / 2))),
                sweep("settings", "every feedback in [-1,1], every dampening in [0,1]", &RC, move |t, p| Plan::stride(2 * N32, one(t, p)), d04_setting, |n| format!("{} {}", ["feedback", "dampening"][(n % 2) as usize], show_f32(n / 2))),
                sweep("huge", "two and a half rounds on buffers of up to 2^24+1 cells", &RC, |_, _| Plan::all(10), d04_huge, |n| format!("{} cells", L_HUGE[n as usize])),
            ], endurance(10, d04_endure, d04_endure_show)),
        },
        Prop {
            id: "D05",
            level: "model_checking",
            rule: "search: every input history over 4 values up to the depth on 1..5 cells, empty or filled, signal levels 1, 2^-60 and 2^40, against the recurrence in double precision including buffer contents; sweeps: superposition for all pairs of ternary sequences, long signals on 14 lengths up to 70001, two and a half rounds on 10 lengths up to 2^24+1; one-float sweep: every finite input",
            assumptions: vec![],
            scenarios: with(vec![
                search::<Pass>("histories", "all input histories", &RC, move |t, p| b(30, q(t, 11, if p == Profile::Release { 9 } else { 7 }) as usize, q(t, 12_000_000, 4_000_000) as usize)),
                periodic::<Pass>("periodic", &RC, 30, 4),
                sweep("superposition", "all pairs of ternary input sequences", &[Profile::Release], |_, _| Plan::all(4 * 243 * 243), d05_linear, |n| format!("case {n}: cells {}, sequences {} and {}", n % 4 + 1, n / 4 % 243, n / 972)),
                sweep("long-runs", "signals over many rounds", &RC, |_, _| Plan::all(14 * 15), d05_long, |n| { let mut x = Mix(n); let l = *x.of(&L_RUN); format!("{l} cells, signal {}, scale {}", x.pick(5), x.pick(3)) }),
                sweep("values", "every finite input", &RC, move |t, p| Plan::stride(N32, one(t, p)), d05_value, show_f32),
                sweep("huge", "two and a half rounds on buffers of up to 2^24+1 cells", &RC, |_, _| Plan::all(10), d05_huge, |n| format!("{} cells", L_HUGE[n as usize])),
            ], endurance(5, d05_endure, |n| format!("{} cells", L_END[n as usize]))),
        },
        Prop {
            id: "D06",
            level: "exploration",
            rule: "complete enumeration of inputs with full-scale samples: every periodic input of period 6 over {-1,0,1} for 8 feedbacks x 6 dampenings x 6 lengths followed by silence; adversarial input with every 10-bit schedule of setting changes; every 10-sample input for the all-pass; non-trivial = some output is not zero; feedback, dampening and inputs one at a time from corner floats (12 significant bits, constants, decimals, rates) and a stride of all floats",
            assumptions: vec!["decay is checked down to 1/1000 of the bound for |feedback| <= 0.95 and dampening <= 0.95"],
            scenarios: vec![
                sweep("comb-periodic", "periodic full-scale inputs, then silence", &[Profile::Release], |t, _| { let n = 8 * 6 * 6 * 729; let _ = t; Plan::all(n) }, d06_periodic, |n| { let mut x = Mix(n); let (f, d) = (*x.of(&F6), *x.of(&D6)); format!("feedback {f}, dampening {d}, length choice {}, pattern {}", x.pick(6), x.pick(729)) }),
                sweep("comb-adversarial", "worst-case signs with setting changes", &RC, |_, _| Plan::all(4 * 6 * 1024), d06_adversarial, |n| { let mut x = Mix(n); format!("fmax choice {}, length choice {}, schedule {:010b}", x.pick(4), x.pick(6), x.pick(1024)) }),
                sweep("all-pass", "every 10-sample full-scale input", &[Profile::Release], |_, _| Plan::all(5 * 59049), d06_pass, |n| { let mut x = Mix(n); format!("length choice {}, pattern {}", x.pick(5), x.pick(59049)) }),
                corners("corners", &RC, 16, d06_any, d06_any_show),
                sweep("any-value", "every feedback, dampening and input value", &RC, move |t, p| Plan::stride(16 * N32, if t == Tier::Thorough { 31 } else if p == Profile::Release { 307 } else { 3001 }), d06_any, d06_any_show),
            ],
        },
        Prop {
            id: "D07",
            level: "model_checking",
            rule: "search: every history of pushes, ticks, advances, settings, copies, clones and same-memory rebinds up to the depth for a delay line, a comb, an all-pass and a second tap over 8 ways (direct and nested sub-slices) to carve up one buffer; after each call exactly the effect's own cell may differ, and all reads of both taps are compared; class = call",
            assumptions: vec![],
            scenarios: vec![search::<Shared>("carved", "all call histories", &RC, move |t, p| b(16, q(t, 10, if p == Profile::Release { 8 } else { 7 }) as usize, q(t, 6_000_000, 1_000_000) as usize)), periodic::<Shared>("periodic", &RC, 16, 3)],
        },
    ]
}
fn main() {
    main_with(props())
}
