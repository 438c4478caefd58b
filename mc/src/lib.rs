//! Exhaustive-exploration engine: explicit-state search and complete domain sweeps over real code,
//! with crash/hang containment (the exploration runs in a child process), replay and evidence.

pub mod preempt;
pub mod util;
pub use util::*;

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ------------------------------------------------------------------------------------------------
// results of one case
// ------------------------------------------------------------------------------------------------

/// A property violation. `key` identifies what failed (for the known-findings file).
#[derive(Debug, Clone)]
pub struct Fail {
    pub key: String,
    pub msg: String,
}
/// Ok(class): the case held; class 0 = trivial (vacuous) case, 1.. = kinds of non-trivial outcome.
pub type Res = Result<u8, Box<Fail>>;

pub fn failure(msg: String) -> Box<Fail> {
    Box::new(Fail { key: String::new(), msg })
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($arg:tt)*) => { if !($c) { return Err($crate::failure(format!($($arg)*))); } };
}
#[macro_export]
macro_rules! ensure_key {
    ($c:expr, $key:expr, $($arg:tt)*) => { if !($c) {
        return Err(Box::new($crate::Fail { key: $key.to_string(), msg: format!($($arg)*) })); } };
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Profile {
    Release,
    Checked,
    Asan,
}
impl Profile {
    pub fn name(self) -> &'static str {
        match self {
            Profile::Release => "release",
            Profile::Checked => "checked",
            Profile::Asan => "asan",
        }
    }
    fn parse(s: &str) -> Profile {
        match s {
            "release" => Profile::Release,
            "checked" => Profile::Checked,
            "asan" => Profile::Asan,
            _ => die(&format!("unknown profile {s}")),
        }
    }
}

pub fn die(msg: &str) -> ! {
    eprintln!("MACHINERY ERROR: {msg}");
    std::process::exit(3)
}

// ------------------------------------------------------------------------------------------------
// scenarios and properties
// ------------------------------------------------------------------------------------------------

pub type RunFn = Box<dyn Fn(&Ctx, usize) + Sync + Send>;
pub type ReplayFn = Box<dyn Fn(&[u64]) -> Res + Sync + Send>;
pub type ShowFn = Box<dyn Fn(&[u64]) -> String + Sync + Send>;

pub struct Scenario {
    pub name: &'static str,
    pub what: &'static str,
    pub profiles: Vec<Profile>,
    pub run: RunFn,
    pub replay: ReplayFn,
    pub show: ShowFn,
}

pub struct Prop {
    pub id: &'static str,
    /// "model_checking" or "exploration"
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: Vec<&'static str>,
    pub scenarios: Vec<Scenario>,
}

/// A set of case numbers: half-open ranges with a stride.
#[derive(Clone)]
pub struct Plan(pub Vec<(u64, u64, u64)>);
impl Plan {
    pub fn all(n: u64) -> Plan {
        Plan(vec![(0, n, 1)])
    }
    pub fn stride(n: u64, s: u64) -> Plan {
        Plan(vec![(0, n, s)])
    }
    pub fn and(mut self, a: u64, b: u64, s: u64) -> Plan {
        self.0.push((a, b, s));
        self
    }
}

pub const RC: [Profile; 2] = [Profile::Release, Profile::Checked];
pub const RCA: [Profile; 3] = [Profile::Release, Profile::Checked, Profile::Asan];

/// Enumerate every case number of `plan` and run `case` on it.
pub fn sweep(
    name: &'static str,
    what: &'static str,
    profiles: &[Profile],
    plan: impl Fn(Tier, Profile) -> Plan + Sync + Send + 'static,
    case: impl Fn(u64) -> Res + Sync + Send + Copy + std::panic::RefUnwindSafe + 'static,
    show: impl Fn(u64) -> String + Sync + Send + 'static,
) -> Scenario {
    Scenario {
        name,
        what,
        profiles: profiles.to_vec(),
        run: Box::new(move |ctx, scn| {
            let p = plan(ctx.tier, ctx.profile);
            run_sweep(ctx, scn, &p, &case)
        }),
        replay: Box::new(move |w| match catch_unwind(AssertUnwindSafe(|| case(w[0]))) {
            Ok(r) => r,
            Err(_) => Err(panic_fail()),
        }),
        show: Box::new(move |w| show(w[0])),
    }
}

/// Every corner float (see `corner_list`), combined with every value of the `m` low choices, as a case
/// number `bits * m + choice`. Complements strided sweeps over all floats.
pub fn corners(name: &'static str, profiles: &[Profile], m: u64, case: fn(u64) -> Res, show: fn(u64) -> String) -> Scenario {
    let at = move |n: u64| corner_list()[(n / m) as usize] as u64 * m + n % m;
    sweep(
        name,
        "every float with at most 12 significant bits and its two neighbours; decimals with up to 4 digits; constants, roots, semitones, decibels, rates",
        profiles,
        move |t, p| Plan::stride(corner_list().len() as u64 * m, if t == Tier::Quick && p != Profile::Release { 11 } else { 1 }),
        move |n| case(at(n)),
        move |n| show(at(n)),
    )
}

/// A system under search: real object(s) + memory + reference model.
pub trait Machine: Sized {
    fn new(cfg: u64) -> Self;
    fn nops(&self) -> u64;
    /// Perform operation `op` on the real object(s) and the model, and compare. None: not enabled here.
    fn step(&mut self, op: u64) -> Result<Option<u8>, Box<Fail>>;
    fn save(&self, out: &mut Vec<u8>);
    fn load(&mut self, inp: &[u8]);
    fn opname(&self, op: u64) -> String;
    fn cfgname(&self) -> String;
}

#[derive(Clone, Copy)]
pub struct Bound {
    pub cfgs: u64,
    pub depth: usize,
    pub max_states: usize,
}

/// Explicit-state breadth-first search over every configuration.
pub fn search<M: Machine + 'static>(
    name: &'static str,
    what: &'static str,
    profiles: &[Profile],
    bound: impl Fn(Tier, Profile) -> Bound + Sync + Send + 'static,
) -> Scenario {
    Scenario {
        name,
        what,
        profiles: profiles.to_vec(),
        run: Box::new(move |ctx, scn| {
            let b = bound(ctx.tier, ctx.profile);
            run_search::<M>(ctx, scn, b)
        }),
        replay: Box::new(|w| replay_machine::<M>(w).1),
        show: Box::new(|w| {
            let m = M::new(w[0]);
            let ops: Vec<String> = w[1..].iter().map(|&o| m.opname(o)).collect();
            format!("{}: {}", m.cfgname(), ops.join(" ; "))
        }),
    }
}

/// Re-execute a recorded path on fresh objects. Returns how many steps were executed.
fn replay_machine<M: Machine>(w: &[u64]) -> (usize, Res) {
    let mut m = M::new(w[0]);
    let mut class = 0;
    for (i, &op) in w[1..].iter().enumerate() {
        match catch_unwind(AssertUnwindSafe(|| m.step(op))) {
            Ok(Ok(Some(c))) => class = c,
            Ok(Ok(None)) => {}
            Ok(Err(f)) => return (i, Err(f)),
            Err(_) => return (i, Err(panic_fail())),
        }
    }
    (w.len() - 1, Ok(class))
}

// ------------------------------------------------------------------------------------------------
// context: statistics, failures, breadcrumbs
// ------------------------------------------------------------------------------------------------

#[derive(Default)]
struct ScnStats {
    evals: u64,
    nontrivial: u64,
    states: u64,
    transitions: u64,
    traces: u64,
    depth: u64,
    closed_cfgs: u64,
    cfgs: u64,
    capped: u64,
    classes: BTreeMap<u8, u64>,
    samples: Vec<Vec<u64>>,
    known: BTreeMap<String, u64>,
    plan: String,
    strided: bool,
}

struct Failure {
    words: Vec<u64>,
    fail: Fail,
}

pub struct Ctx {
    pub tier: Tier,
    pub profile: Profile,
    threads: usize,
    deadline: Instant,
    map: SharedMap,
    known: HashSet<String>,
    stats: Mutex<ScnStats>,
    failure: Mutex<Option<Failure>>,
    stop: AtomicBool,
}

const SLOT_WORDS: usize = 128;
const MAX_SLOTS: usize = 64;

/// A file mapped by parent and child: one breadcrumb slot per worker thread.
/// slot: [active, scenario, crashed(signal), beat, nwords, words...]
struct SharedMap {
    base: *mut u64,
}
unsafe impl Sync for SharedMap {}
unsafe impl Send for SharedMap {}

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn signal(sig: i32, handler: usize) -> usize;
}

impl SharedMap {
    fn open(path: &str) -> SharedMap {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(true)
            .truncate(false)
            .open(path)
            .unwrap_or_else(|e| die(&format!("map {path}: {e}")));
        let len = SLOT_WORDS * MAX_SLOTS * 8;
        f.set_len(len as u64).unwrap_or_else(|e| die(&format!("map {path}: {e}")));
        let p = unsafe { mmap(std::ptr::null_mut(), len, 3, 1, f.as_raw_fd(), 0) };
        if p as isize == -1 {
            die("mmap failed");
        }
        SharedMap { base: p as *mut u64 }
    }
    fn slot(&self, i: usize) -> *mut u64 {
        unsafe { self.base.add(i * SLOT_WORDS) }
    }
}

thread_local! {
    static SLOT: Cell<*mut u64> = const { Cell::new(std::ptr::null_mut()) };
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

fn panic_fail() -> Box<Fail> {
    failure(format!("panic: {}", PANIC.with(|p| p.borrow().clone())))
}
thread_local!(static MORE: Cell<u64> = const { Cell::new(0) });
/// A case that consisted of `n` executions, not one.
pub fn executions(n: u64) {
    MORE.with(|m| m.set(m.get() + n - 1));
    pulse();
}
/// Sign of life from within a case that takes long.
pub fn pulse() {
    let s = SLOT.with(|s| s.get());
    if !s.is_null() {
        unsafe { s.add(3).write_volatile(s.add(3).read_volatile().wrapping_add(1)) }
    }
}
pub fn with(mut a: Vec<Scenario>, b: Vec<Scenario>) -> Vec<Scenario> {
    a.extend(b);
    a
}
/// Length of an endurance run: beyond 2^24 (where 32-bit floats stop counting), thorough: beyond 2^32.
pub const ENDURE: u64 = (1 << 24) + (1 << 17) + 3;
pub const ENDURE_LONG: u64 = (1 << 32) + (1 << 17) + 3;
/// `cases` very long runs, `run(case, steps)`.
pub fn endurance(cases: u64, run: fn(u64, u64) -> Res, show: fn(u64) -> String) -> Vec<Scenario> {
    vec![
        sweep("endurance", "runs of 2^24 steps and more", &RC, move |t, _| if t == Tier::Quick { Plan::all(cases) } else { Plan(vec![]) }, move |n| run(n, ENDURE), show),
        sweep("endurance-checked", "runs of 2^24 steps and more", &[Profile::Checked], move |t, _| if t == Tier::Thorough { Plan::all(cases) } else { Plan(vec![]) }, move |n| run(n, ENDURE), show),
        sweep("endurance-long", "runs of 2^32 steps and more", &[Profile::Release], move |t, _| if t == Tier::Thorough { Plan::all(cases) } else { Plan(vec![]) }, move |n| run(n, ENDURE_LONG), show),
    ]
}
/// Periodic histories: every sequence of up to four calls of the alphabet, repeated for a long time, from every
/// configuration. What a search of bounded depth cannot reach: call counters that run full.
/// Calls by sequence length.
fn periods(t: Tier) -> [u64; 4] {
    match t {
        Tier::Quick => [(1 << 18) + 512, (1 << 17) + 512, 900, 1050],
        Tier::Thorough => [(1 << 24) + 512, (1 << 20) + 512, 12_000, 1050],
    }
}
static TIER_QUICK: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// The tier this process explores in (a replay: thorough).
pub fn tier_now() -> Tier {
    if TIER_QUICK.load(std::sync::atomic::Ordering::Relaxed) { Tier::Quick } else { Tier::Thorough }
}
fn word_of<M: Machine>(n: u64, cfgs: u64, nops: u64) -> Option<(u64, Vec<u64>)> {
    let cfg = n % cfgs;
    let mut w = n / cfgs;
    let mut len = 1;
    while w >= nops.pow(len) {
        w -= nops.pow(len);
        len += 1;
    }
    let m = M::new(cfg);
    let word: Vec<u64> = (0..len).map(|k| w / nops.pow(k) % nops).collect();
    // shorter words repeated are runs of the shorter word
    let repeats = word.len() > 1 && (word.iter().all(|o| *o == word[0]) || word.len() == 4 && word[..2] == word[2..]);
    if repeats || word.iter().any(|o| *o >= m.nops()) {
        return None;
    }
    Some((cfg, word))
}
/// After this many repetitions (and at the end) every continuation of up to two calls is tried.
const FORKS: [u64; 10] = [127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 65537];
fn run_word<M: Machine>(n: u64, cfgs: u64, nops: u64, t: Tier) -> Res {
    let Some((cfg, word)) = word_of::<M>(n, cfgs, nops) else { return Ok(0) };
    let mut m = M::new(cfg);
    let rounds = periods(t)[word.len() - 1] / word.len() as u64;
    let mut calls = 0;
    for r in 1..=rounds {
        let mut idle = true;
        for &op in &word {
            idle &= m.step(op).map_err(|mut f| {
                f.msg = format!("in repetition {r}: {}", f.msg);
                f
            })?.is_none();
        }
        // nothing in the word is enabled
        if idle {
            break;
        }
        calls += word.len() as u64;
        if r & 0x3ff == 0 {
            pulse();
        }
        if FORKS.contains(&r) || r == rounds {
            calls += forks(&mut m, r)?;
        }
    }
    executions(calls + 1);
    Ok(word.len() as u8)
}
fn forks<M: Machine>(m: &mut M, r: u64) -> Result<u64, Box<Fail>> {
    let mut here = vec![];
    m.save(&mut here);
    let mut calls = 0;
    for o in 0..m.nops() {
        for p in 0..m.nops() {
            for (k, op) in [o, p].into_iter().enumerate() {
                calls += 1;
                m.step(op).map_err(|mut f| {
                    let then = if k == 1 { format!("{} ; {}", m.opname(o), m.opname(p)) } else { m.opname(o) };
                    f.msg = format!("after {r} repetitions, then {then}: {}", f.msg);
                    f
                })?;
            }
            m.load(&here);
        }
    }
    Ok(calls)
}
pub fn periodic<M: Machine + 'static>(name: &'static str, profiles: &[Profile], cfgs: u64, quick_len: u32) -> Scenario {
    let p = profiles.to_vec();
    let nops = (0..cfgs).map(|c| M::new(c).nops()).max().unwrap();
    sweep(
        name,
        "every sequence of up to 4 calls, repeated for a long time; after 127, 128, 255..257, 2^15-1, 2^15, 2^16-1..2^16+1 repetitions and at the end every pair of calls",
        &p,
        move |t, p| {
            let len = match (t, p) {
                (Tier::Quick, Profile::Release) => quick_len,
                (Tier::Quick, _) => 2,
                _ => (2..=4).rev().find(|l| cfgs * nops.pow(*l) <= 6_000_000).unwrap_or(2),
            };
            Plan::all(cfgs * (1..=len).map(|k| nops.pow(k)).sum::<u64>())
        },
        move |n| run_word::<M>(n, cfgs, nops, tier_now()),
        move |n| match word_of::<M>(n, cfgs, nops) {
            Some((cfg, word)) => {
                let m = M::new(cfg);
                let ops: Vec<String> = word.iter().map(|&o| m.opname(o)).collect();
                format!("{}, again and again: {}", m.cfgname(), ops.join(" ; "))
            }
            None => "no case".into(),
        },
    )
}
/// For cases that catch panics themselves: the message of the last panic on this thread.
pub fn last_panic() -> String {
    PANIC.with(|p| p.borrow().clone())
}

pub(crate) extern "C" fn on_crash(sig: i32) {
    let s = SLOT.with(|s| s.get());
    if !s.is_null() {
        unsafe { s.add(2).write_volatile(sig as u64) };
    }
    unsafe { signal(sig, 0) };
}

struct Crumb(*mut u64);
impl Crumb {
    fn enter(ctx: &Ctx, thread: usize, scn: usize) -> Crumb {
        let s = ctx.map.slot(thread);
        unsafe {
            s.add(1).write_volatile(scn as u64);
            s.add(4).write_volatile(0);
            s.write_volatile(1);
        }
        SLOT.with(|c| c.set(s));
        Crumb(s)
    }
    #[inline(always)]
    fn one(&self, w: u64) {
        unsafe {
            self.0.add(4).write_volatile(1);
            self.0.add(5).write_volatile(w);
        }
    }
    #[inline(always)]
    fn beat(&self) {
        unsafe { self.0.add(3).write_volatile(self.0.add(3).read_volatile().wrapping_add(1)) }
    }
    fn set(&self, ws: &[u64]) {
        let n = ws.len().min(SLOT_WORDS - 8);
        unsafe {
            for (i, w) in ws[..n].iter().enumerate() {
                self.0.add(5 + i).write_volatile(*w);
            }
            self.0.add(4).write_volatile(n as u64);
        }
    }
    fn last(&self, i: usize, w: u64) {
        if i < SLOT_WORDS - 8 {
            unsafe {
                self.0.add(5 + i).write_volatile(w);
                self.0.add(4).write_volatile(i as u64 + 1);
            }
        }
    }
}
impl Drop for Crumb {
    fn drop(&mut self) {
        unsafe { self.0.write_volatile(0) };
        SLOT.with(|c| c.set(std::ptr::null_mut()));
    }
}

impl Ctx {
    /// Record a failing case. Returns true if exploration may go on (a listed finding).
    fn fail(&self, words: &[u64], f: Box<Fail>, known: &mut BTreeMap<String, u64>) -> bool {
        if !f.key.is_empty() && self.known.contains(&f.key) {
            *known.entry(f.key.clone()).or_insert(0) += 1;
            return true;
        }
        let mut g = self.failure.lock().unwrap();
        let better = match &*g {
            None => true,
            Some(o) => (words.len(), words) < (o.words.len(), &o.words[..]),
        };
        if better {
            *g = Some(Failure { words: words.to_vec(), fail: *f });
        }
        self.stop.store(true, SeqCst);
        false
    }
}

// ------------------------------------------------------------------------------------------------
// sweeps
// ------------------------------------------------------------------------------------------------

fn run_sweep(ctx: &Ctx, scn: usize, plan: &Plan, case: &(dyn Fn(u64) -> Res + Sync)) {
    // total number of cases, split in chunks
    let sizes: Vec<u64> = plan.0.iter().map(|(a, b, s)| if b > a { (b - a).div_ceil(*s) } else { 0 }).collect();
    let total: u64 = sizes.iter().sum();
    if total == 0 {
        return;
    }
    let chunk: u64 = (total / (ctx.threads as u64 * 64)).clamp(1, 1 << 18);
    let next = AtomicU64::new(0);
    let capped = AtomicU64::new(0);
    let at = |k: u64| -> u64 {
        let mut k = k;
        for (i, n) in sizes.iter().enumerate() {
            if k < *n {
                return plan.0[i].0 + k * plan.0[i].2;
            }
            k -= n;
        }
        unreachable!()
    };
    std::thread::scope(|sc| {
        for t in 0..ctx.threads {
            let (next, capped, at) = (&next, &capped, &at);
            sc.spawn(move || {
                let crumb = Crumb::enter(ctx, t, scn);
                let mut evals = 0u64;
                let mut classes = [0u64; 256];
                let mut known = BTreeMap::new();
                'work: loop {
                    if ctx.stop.load(Relaxed) {
                        break;
                    }
                    let k0 = next.fetch_add(chunk, Relaxed);
                    if k0 >= total {
                        break;
                    }
                    if Instant::now() > ctx.deadline {
                        capped.fetch_add(1, Relaxed);
                        break;
                    }
                    let k1 = (k0 + chunk).min(total);
                    let k = Cell::new(k0);
                    while k.get() < k1 {
                        let r = catch_unwind(AssertUnwindSafe(|| {
                            while k.get() < k1 {
                                let x = at(k.get());
                                crumb.one(x);
                                let c = case(x)?;
                                classes[c as usize] += 1;
                                evals += 1;
                                k.set(k.get() + 1);
                                if k.get() & 0x3ff == 0 {
                                    crumb.beat();
                                }
                            }
                            Ok(0u8)
                        }));
                        crumb.beat();
                        let f = match r {
                            Ok(Ok(_)) => continue,
                            Ok(Err(f)) => f,
                            Err(_) => panic_fail(),
                        };
                        evals += 1;
                        let x = at(k.get());
                        if !ctx.fail(&[x], f, &mut known) {
                            break 'work;
                        }
                        k.set(k.get() + 1);
                    }
                }
                let mut s = ctx.stats.lock().unwrap();
                let more = MORE.with(|m| m.replace(0));
                s.evals += evals + more;
                s.nontrivial += more;
                for (c, n) in classes.iter().enumerate() {
                    if *n > 0 {
                        *s.classes.entry(c as u8).or_insert(0) += n;
                        if c > 0 {
                            s.nontrivial += n;
                        }
                    }
                }
                for (k, n) in known {
                    *s.known.entry(k).or_insert(0) += n;
                }
            });
        }
    });
    let mut s = ctx.stats.lock().unwrap();
    s.plan = plan.0.iter().map(|(a, b, k)| if *k == 1 { format!("cases {a}..{b}") } else { format!("every {k}th of cases {a}..{b}") }).collect::<Vec<_>>().join(", ");
    s.strided = plan.0.iter().any(|p| p.2 > 1);
    s.capped += capped.load(Relaxed);
    for q in [total / 3, total * 2 / 3] {
        s.samples.push(vec![at(q)]);
    }
}

// ------------------------------------------------------------------------------------------------
// explicit-state search
// ------------------------------------------------------------------------------------------------

fn hash128(b: &[u8]) -> u128 {
    let (mut x, mut y) = (0x9e3779b97f4a7c15u64 ^ b.len() as u64, 0xc2b2ae3d27d4eb4fu64);
    let mut it = b.chunks_exact(8);
    let mut mix = |v: u64| {
        x = (x ^ v).wrapping_mul(0xff51afd7ed558ccd);
        x ^= x >> 32;
        y = (y.rotate_left(27) ^ v.wrapping_mul(0x9fb21c651e98df25)).wrapping_mul(0xc4ceb9fe1a85ec53);
        y ^= y >> 29;
    };
    for c in &mut it {
        mix(u64::from_le_bytes(c.try_into().unwrap()));
    }
    let mut tail = [0u8; 8];
    let r = it.remainder();
    tail[..r.len()].copy_from_slice(r);
    mix(u64::from_le_bytes(tail));
    x ^= x >> 33;
    ((x.wrapping_mul(0xff51afd7ed558ccd) as u128) << 64) | y as u128
}

#[derive(Default, Clone, Copy)]
struct IdHash(u64);
impl std::hash::Hasher for IdHash {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {}
    fn write_u128(&mut self, i: u128) {
        self.0 = i as u64 ^ (i >> 64) as u64
    }
}
#[derive(Default, Clone, Copy)]
struct IdBuild;
impl std::hash::BuildHasher for IdBuild {
    type Hasher = IdHash;
    fn build_hasher(&self) -> IdHash {
        IdHash(0)
    }
}

fn run_search<M: Machine>(ctx: &Ctx, scn: usize, b: Bound) {
    let next = AtomicUsize::new(0);
    std::thread::scope(|sc| {
        for t in 0..ctx.threads {
            let next = &next;
            sc.spawn(move || {
                let crumb = Crumb::enter(ctx, t, scn);
                loop {
                    let cfg = next.fetch_add(1, Relaxed) as u64;
                    if cfg >= b.cfgs || ctx.stop.load(Relaxed) {
                        break;
                    }
                    search_cfg::<M>(ctx, &crumb, cfg, b);
                }
            });
        }
    });
}

fn search_cfg<M: Machine>(ctx: &Ctx, crumb: &Crumb, cfg: u64, b: Bound) {
    let mut seen: HashSet<u128, IdBuild> = HashSet::with_hasher(IdBuild);
    let mut parent: Vec<(u32, u16)> = vec![(0, 0)];
    let path = |parent: &Vec<(u32, u16)>, mut id: u32| -> Vec<u64> {
        let mut p = vec![];
        while id != 0 {
            let (up, op) = parent[id as usize];
            p.push(op as u64);
            id = up;
        }
        p.push(cfg);
        p.reverse();
        p
    };
    crumb.set(&[cfg]);
    let mut m = match catch_unwind(AssertUnwindSafe(|| M::new(cfg))) {
        Ok(m) => m,
        Err(_) => {
            ctx.fail(&[cfg], panic_fail(), &mut BTreeMap::new());
            return;
        }
    };
    let nops = m.nops();
    let mut buf = Vec::new();
    m.save(&mut buf);
    seen.insert(hash128(&buf));
    let mut frontier: Vec<(u32, Box<[u8]>)> = vec![(0, buf.clone().into_boxed_slice())];
    let mut transitions = 0u64;
    let mut classes = [0u64; 256];
    let mut known = BTreeMap::new();
    let mut depth = 0;
    let mut capped = false;
    let mut leaves: Vec<u32> = vec![];
    'levels: while depth < b.depth && !frontier.is_empty() {
        let mut nextf: Vec<(u32, Box<[u8]>)> = vec![];
        for (id, blob) in &frontier {
            if ctx.stop.load(Relaxed) {
                break 'levels;
            }
            if Instant::now() > ctx.deadline || parent.len() >= b.max_states {
                capped = true;
                break 'levels;
            }
            let mut p = path(&parent, *id);
            crumb.set(&p);
            crumb.beat();
            let plen = p.len();
            let mut children = 0;
            for op in 0..nops {
                m.load(blob);
                crumb.last(plen, op);
                let r = match catch_unwind(AssertUnwindSafe(|| m.step(op))) {
                    Ok(r) => r,
                    Err(_) => Err(panic_fail()),
                };
                match r {
                    Ok(None) => continue,
                    Ok(Some(c)) => {
                        transitions += 1;
                        classes[c as usize] += 1;
                    }
                    Err(f) => {
                        transitions += 1;
                        p.push(op);
                        let go = ctx.fail(&p, f, &mut known);
                        p.pop();
                        if go {
                            continue;
                        }
                        break 'levels;
                    }
                }
                buf.clear();
                m.save(&mut buf);
                if seen.insert(hash128(&buf)) {
                    let nid = parent.len() as u32;
                    parent.push((*id, op as u16));
                    nextf.push((nid, buf.clone().into_boxed_slice()));
                    children += 1;
                }
            }
            if children == 0 {
                leaves.push(*id);
            }
        }
        depth += 1;
        frontier = nextf;
    }
    let closed = frontier.is_empty() && !capped;
    leaves.extend(frontier.iter().map(|f| f.0));
    drop(frontier);
    // Validate snapshot/restore: re-execute root-to-leaf paths on fresh objects under the same oracle.
    let step = (leaves.len() / 400).max(1);
    let mut traces = 0;
    for id in leaves.iter().step_by(step) {
        if ctx.stop.load(Relaxed) {
            break;
        }
        let p = path(&parent, *id);
        crumb.set(&p);
        crumb.beat();
        let (n, r) = replay_machine::<M>(&p);
        if let Err(f) = r {
            let w = &p[..(n + 2).min(p.len())];
            if !ctx.fail(w, f, &mut known) {
                break;
            }
        }
        traces += 1;
    }
    let mut s = ctx.stats.lock().unwrap();
    s.states += parent.len() as u64;
    s.transitions += transitions;
    s.traces += traces;
    s.depth = s.depth.max(depth as u64);
    s.cfgs += 1;
    s.closed_cfgs += closed as u64;
    s.capped += capped as u64;
    if s.samples.len() < 4 {
        if let Some(id) = leaves.get(leaves.len() / 2) {
            s.samples.push(path(&parent, *id));
        }
    }
    for (c, n) in classes.iter().enumerate() {
        if *n > 0 {
            *s.classes.entry(c as u8).or_insert(0) += n;
        }
    }
    for (k, n) in known {
        *s.known.entry(k).or_insert(0) += n;
    }
}

// ------------------------------------------------------------------------------------------------
// child: run the scenarios of one property in one profile, report through a file
// ------------------------------------------------------------------------------------------------

fn load_known(prop: &str) -> HashSet<String> {
    let path = std::env::var("MC_KNOWN").unwrap_or_default();
    let text = std::fs::read_to_string(&path).unwrap_or_default();
    let pre = format!("known: property={prop} key=");
    text.lines()
        .filter_map(|l| l.strip_prefix(&pre))
        .map(|r| r.split_whitespace().next().unwrap_or("").to_string())
        .collect()
}

fn child(props: &[Prop], a: &[String]) -> ! {
    let (id, tier, profile, map, out) = (&a[0], &a[1], &a[2], &a[3], &a[4]);
    let tier = if tier == "thorough" { Tier::Thorough } else { Tier::Quick };
    TIER_QUICK.store(tier == Tier::Quick, std::sync::atomic::Ordering::Relaxed);
    let profile = Profile::parse(profile);
    let prop = props.iter().find(|p| p.id == id.as_str()).unwrap_or_else(|| die("no such property"));
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string());
        let m = m.or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("{m} at {l}"));
        if std::env::var("MC_VERBOSE").is_ok() {
            eprintln!("panic: {m} at {l}");
        }
    }));
    for s in [4, 6, 7, 8, 11] {
        unsafe { signal(s, on_crash as *const () as usize) };
    }
    let threads = std::env::var("MC_THREADS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4))
        .clamp(1, MAX_SLOTS - 1);
    let cap = match tier {
        Tier::Quick => 200,
        Tier::Thorough => 3000,
    };
    let cap: u64 = std::env::var("MC_CAP").ok().and_then(|s| s.parse().ok()).unwrap_or(cap);
    let mut out = std::fs::File::create(out).unwrap_or_else(|e| die(&format!("{out}: {e}")));
    let shared = SharedMap::open(map);
    let mut ctx = Ctx {
        tier,
        profile,
        threads,
        deadline: Instant::now() + Duration::from_secs(cap),
        map: shared,
        known: load_known(id),
        stats: Mutex::default(),
        failure: Mutex::default(),
        stop: AtomicBool::new(false),
    };
    let only = std::env::var("MC_ONLY").ok();
    for (i, s) in prop.scenarios.iter().enumerate() {
        if !s.profiles.contains(&profile) || only.as_ref().is_some_and(|o| o != s.name) {
            continue;
        }
        let t0 = Instant::now();
        (s.run)(&ctx, i);
        let st = std::mem::take(&mut *ctx.stats.get_mut().unwrap());
        let cl: Vec<String> = st.classes.iter().map(|(c, n)| format!("{c}:{n}")).collect();
        writeln!(
            out,
            "STAT\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{:.2}\t{}\t{}\t{}",
            i, st.evals, st.nontrivial, st.states, st.transitions, st.traces, st.depth, st.cfgs, st.closed_cfgs,
            st.capped, t0.elapsed().as_secs_f64(), cl.join(","), st.plan, st.strided as u8
        )
        .unwrap();
        for w in &st.samples {
            let t = catch_unwind(AssertUnwindSafe(|| (s.show)(w))).unwrap_or_default();
            writeln!(out, "SAMPLE\t{}\t{}", i, clean(&t)).unwrap();
        }
        for (k, n) in &st.known {
            writeln!(out, "KNOWN\t{k}\t{n}").unwrap();
        }
        if let Some(f) = ctx.failure.get_mut().unwrap().take() {
            let t = catch_unwind(AssertUnwindSafe(|| (s.show)(&f.words))).unwrap_or_default();
            let w: Vec<String> = f.words.iter().map(|w| w.to_string()).collect();
            writeln!(out, "FAIL\t{}\t{}\t{}\t{}\t{}", i, w.join(","), f.fail.key, clean(&f.fail.msg), clean(&t)).unwrap();
            break;
        }
    }
    writeln!(out, "DONE").unwrap();
    std::process::exit(0)
}

fn clean(s: &str) -> String {
    s.replace(['\n', '\t'], " ")
}

// ------------------------------------------------------------------------------------------------
// parent
// ------------------------------------------------------------------------------------------------

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Verdict {
    profile: Profile,
    scn: usize,
    words: Vec<u64>,
    msg: String,
    shown: String,
}

pub fn main_with(props: Vec<Prop>) -> ! {
    let args: Vec<String> = std::env::args().skip(1).collect();
    match args.first().map(|s| s.as_str()) {
        Some("--child") => child(&props, &args[1..]),
        Some("--list") => {
            for p in &props {
                for s in &p.scenarios {
                    println!("{} {} [{}] {}", p.id, s.name, s.profiles.iter().map(|p| p.name()).collect::<Vec<_>>().join(","), s.what);
                }
            }
            std::process::exit(0)
        }
        Some("--needs") => {
            // profiles a property uses
            let p = props.iter().find(|p| p.id == args[1]).unwrap_or_else(|| die("no such property"));
            let mut v: Vec<&str> = p.scenarios.iter().flat_map(|s| s.profiles.iter().map(|p| p.name())).collect();
            v.sort();
            v.dedup();
            println!("{}", v.join(" "));
            std::process::exit(0)
        }
        Some("--replay-here") => {
            // ID scenario words  (in-process, this profile)
            let p = props.iter().find(|p| p.id == args[1]).unwrap_or_else(|| die("no such property"));
            let s = p.scenarios.iter().find(|s| s.name == args[2]).unwrap_or_else(|| die("no such scenario"));
            let w: Vec<u64> = args[3].split(',').map(|x| x.parse().unwrap()).collect();
            println!("case: {}", (s.show)(&w));
            match (s.replay)(&w) {
                Ok(c) => {
                    println!("holds (class {c})");
                    std::process::exit(0)
                }
                Err(f) => {
                    println!("FAILS {}: {}", f.key, f.msg);
                    std::process::exit(1)
                }
            }
        }
        Some(id) => parent(&props, id),
        None => die("usage: <bin> PROPERTY | --list | --replay-here ID SCENARIO WORDS"),
    }
}

fn parent(props: &[Prop], id: &str) -> ! {
    let t0 = Instant::now();
    let prop = props.iter().find(|p| p.id == id).unwrap_or_else(|| die("no such property"));
    let tier = std::env::var("VERIF_TIER").unwrap_or("quick".into());
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let verif = std::env::var("MC_VERIF").unwrap_or("/verif".into());
    let tmp = std::env::temp_dir().join(format!("eatmc-{}-{}", id, std::process::id()));
    std::fs::create_dir_all(&tmp).unwrap_or_else(|e| die(&format!("{tmp:?}: {e}")));

    let mut used: Vec<Profile> = vec![];
    for s in &prop.scenarios {
        for p in &s.profiles {
            if !used.contains(p) {
                used.push(*p);
            }
        }
    }
    let mut verdict: Option<Verdict> = None;
    let mut stats: Vec<(Profile, Vec<String>)> = vec![];
    let mut samples: Vec<String> = vec![];
    let mut knowns: BTreeMap<String, u64> = BTreeMap::new();

    for prof in [Profile::Release, Profile::Checked, Profile::Asan] {
        if !used.contains(&prof) {
            continue;
        }
        let exe = match prof {
            Profile::Release => std::env::current_exe().unwrap(),
            p => match std::env::var(format!("MC_BIN_{}", p.name())) {
                Ok(b) => b.into(),
                Err(_) => die(&format!("no {} build given", p.name())),
            },
        };
        let map = tmp.join(format!("map-{}", prof.name()));
        let out = tmp.join(format!("out-{}", prof.name()));
        let shared = SharedMap::open(map.to_str().unwrap());
        let mut ch = std::process::Command::new(&exe)
            .args(["--child", id, &tier, prof.name(), map.to_str().unwrap(), out.to_str().unwrap()])
            .env("ASAN_OPTIONS", "abort_on_error=1:detect_leaks=0:allocator_may_return_null=1")
            .stderr(if std::env::var("MC_VERBOSE").is_ok() { std::process::Stdio::inherit() } else { std::process::Stdio::null() })
            .spawn()
            .unwrap_or_else(|e| die(&format!("spawn {exe:?}: {e}")));
        // wait, watching the heartbeats
        let mut last = vec![(0u64, Instant::now()); MAX_SLOTS];
        let hang_limit = Duration::from_secs(100);
        let mut hung: Option<usize> = None;
        let status = loop {
            if let Some(s) = ch.try_wait().unwrap_or_else(|e| die(&format!("wait: {e}"))) {
                break s;
            }
            std::thread::sleep(Duration::from_millis(20));
            for i in 0..MAX_SLOTS {
                let s = shared.slot(i);
                let (active, beat) = unsafe { (s.read_volatile(), s.add(3).read_volatile()) };
                let w = unsafe { s.add(5).read_volatile() };
                let sig = beat.wrapping_mul(31).wrapping_add(w) ^ (active << 63);
                if active == 0 || sig != last[i].0 {
                    last[i] = (sig, Instant::now());
                } else if last[i].1.elapsed() > hang_limit && hung.is_none() {
                    hung = Some(i);
                }
            }
            if hung.is_some() {
                let _ = ch.kill();
            }
        };
        let text = std::fs::read_to_string(&out).unwrap_or_default();
        let mut done = false;
        let mut st = vec![];
        for l in text.lines() {
            let f: Vec<&str> = l.split('\t').collect();
            match f[0] {
                "STAT" => st.push(l.to_string()),
                "SAMPLE" => {
                    let s = format!("{}: {}", prop.scenarios[f[1].parse::<usize>().unwrap()].name, f[2]);
                    if prof == Profile::Release || samples.is_empty() {
                        samples.push(s);
                    }
                }
                "KNOWN" => *knowns.entry(f[1].to_string()).or_insert(0) += f[2].parse::<u64>().unwrap(),
                "FAIL" => {
                    verdict = Some(Verdict {
                        profile: prof,
                        scn: f[1].parse().unwrap(),
                        words: f[2].split(',').map(|w| w.parse().unwrap()).collect(),
                        msg: if f[3].is_empty() { f[4].to_string() } else { format!("[{}] {}", f[3], f[4]) },
                        shown: f[5].to_string(),
                    })
                }
                "DONE" => done = true,
                _ => {}
            }
        }
        stats.push((prof, st));
        if !done && verdict.is_none() {
            // crashed, hung, or machinery error?
            let mut slot = hung;
            for i in 0..MAX_SLOTS {
                if unsafe { shared.slot(i).add(2).read_volatile() } != 0 {
                    slot = Some(i);
                }
            }
            use std::os::unix::process::ExitStatusExt;
            match (slot, status.signal()) {
                (Some(i), _) => {
                    let s = shared.slot(i);
                    let n = unsafe { s.add(4).read_volatile() } as usize;
                    let words: Vec<u64> = (0..n).map(|k| unsafe { s.add(5 + k).read_volatile() }).collect();
                    let scn = unsafe { s.add(1).read_volatile() } as usize;
                    let sig = unsafe { s.add(2).read_volatile() };
                    verdict = Some(Verdict {
                        profile: prof,
                        scn,
                        shown: format!("words {words:?}"),
                        words,
                        msg: if hung.is_some() { "does not terminate".into() } else { format!("crashed with signal {sig}") },
                    });
                }
                (None, sig) => {
                    let _ = std::fs::remove_dir_all(&tmp);
                    die(&format!("{} child ended without a verdict: {status:?} signal {sig:?}", prof.name()))
                }
            }
        }
        if verdict.is_some() {
            break;
        }
    }
    let _ = std::fs::remove_dir_all(&tmp);

    // ---- evidence
    let mut tot = [0u64; 10];
    let mut nontriv_primary = 0u64;
    let mut per: Vec<String> = vec![];
    let mut all_full = true;
    let mut complete = true;
    for (prof, st) in &stats {
        for l in st {
            let f: Vec<&str> = l.split('\t').collect();
            let n: Vec<u64> = f[2..11].iter().map(|x| x.parse().unwrap()).collect();
            for (i, v) in n.iter().enumerate() {
                tot[i] += v;
            }
            let s = &prop.scenarios[f[1].parse::<usize>().unwrap()];
            if *prof == s.profiles[0] {
                nontriv_primary += n[1];
            }
            if n[8] > 0 {
                all_full = false;
            }
            if *prof == s.profiles[0] && f[14] == "1" {
                complete = false;
            }
            let mut o = format!("{{\"scenario\":{},\"what\":{},\"build\":{}", jstr(s.name), jstr(s.what), jstr(prof.name()));
            if n[0] > 0 {
                o += &format!(",\"evaluations\":{},\"nontrivial\":{},\"enumerated\":{}", n[0], n[1], jstr(f[13]));
            }
            if n[6] > 0 {
                o += &format!(
                    ",\"states\":{},\"transitions\":{},\"traces_reexecuted\":{},\"depth\":{},\"configurations\":{},\"configurations_closed\":{}",
                    n[2], n[3], n[4], n[5], n[6], n[7]
                );
            }
            o += &format!(",\"outcomes\":{},\"capped\":{},\"wall_s\":{}}}", jstr(f[12]), n[8] > 0, f[11]);
            per.push(o);
        }
    }
    let mut cov = String::new();
    if prop.level == "model_checking" {
        cov += &format!("\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},", tot[2], tot[3], tot[4]);
        if tot[0] > 0 {
            cov += &format!("\"evaluations\":{},\"distinct_nontrivial\":{},", tot[0], nontriv_primary);
        }
    } else {
        cov += &format!("\"evaluations\":{},\"distinct_nontrivial\":{},", tot[0], nontriv_primary);
    }
    cov += &format!("\"rule\":{},", jstr(prop.rule));
    samples.truncate(12);
    cov += &format!("\"samples\":[{}],", samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","));
    cov += &format!("\"exhaustive\":{},", all_full && complete && verdict.is_none());
    cov += &format!("\"scenarios\":[{}]", per.join(","));
    let ev = format!(
        "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":{},\"coverage\":{{{}}},\"assumptions\":[{}],\"wall_s\":{:.2},\"violations\":{},\"known_findings_hit\":{{{}}}}}\n",
        jstr(id), jstr(&tier), seed, jstr(prop.level), cov,
        prop.assumptions.iter().map(|a| jstr(a)).collect::<Vec<_>>().join(","),
        t0.elapsed().as_secs_f64(), verdict.is_some() as u8,
        knowns.iter().map(|(k, n)| format!("{}:{}", jstr(k), n)).collect::<Vec<_>>().join(",")
    );
    let _ = std::fs::create_dir_all(format!("{verif}/evidence"));
    std::fs::write(format!("{verif}/evidence/{id}.json"), ev).unwrap_or_else(|e| die(&format!("evidence: {e}")));

    for (k, n) in &knowns {
        println!("KNOWN-FINDING: property={id} {k} ({n} cases)");
    }
    match verdict {
        None => {
            println!(
                "OK property={id} tier={tier} states={} transitions={} traces={} evaluations={} wall={:.1}s{}",
                tot[2], tot[3], tot[4], tot[0], t0.elapsed().as_secs_f64(), if all_full { "" } else { " CAPPED" }
            );
            std::process::exit(0)
        }
        Some(v) => {
            let dir = format!("{verif}/replays");
            let _ = std::fs::create_dir_all(&dir);
            let s = &prop.scenarios[v.scn];
            let w: Vec<String> = v.words.iter().map(|w| w.to_string()).collect();
            let path = format!("{dir}/{id}-{}-{}.txt", v.profile.name(), s.name);
            let body = format!(
                "property={id}\nprofile={}\nscenario={}\nwords={}\ncase={}\nmessage={}\n# re-run: bash /verif/check.sh --replay {path}\n",
                v.profile.name(), s.name, w.join(","), v.shown, v.msg
            );
            std::fs::write(&path, body).unwrap_or_else(|e| die(&format!("{path}: {e}")));
            println!("violated in {} ({} build): {}", s.name, v.profile.name(), v.msg);
            println!("  case: {}", v.shown);
            println!("VIOLATION property={id} replay={path}");
            std::process::exit(1)
        }
    }
}
