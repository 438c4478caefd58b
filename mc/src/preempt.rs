//! Schedules at machine-instruction granularity. Each operation runs on a stack of its own, in one OS
//! thread; with the CPU's trap flag set the kernel delivers SIGTRAP after every instruction, and the
//! handler passes control on when the current segment of the schedule is used up. What runs is the
//! compiled code itself, unmodified; the schedule decides every context switch.
//! Second mode: the operations share one page of memory, kept inaccessible, so that every instruction
//! that touches it faults first. The instruction is then scheduled, executed alone with the page open,
//! and the page closed again; all interleavings of these instructions can be enumerated.
//! (x86-64 Linux; sequentially consistent, one instruction at a time.)

use std::arch::{asm, global_asm};
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU32, Ordering::Relaxed};
use std::sync::Once;

pub const THREADS: usize = 3;
/// (who, how many instructions); operations not finished at the end of the schedule run to completion
/// one after another, lowest number first.
pub type Seg = (usize, u32);
pub const ALONE: u32 = u32::MAX;

global_asm!(
    ".globl eatmc_switch",
    "eatmc_switch:",
    "push rbp",
    "push rbx",
    "push r12",
    "push r13",
    "push r14",
    "push r15",
    "mov [rdi], rsp",
    "mov rsp, rsi",
    "pop r15",
    "pop r14",
    "pop r13",
    "pop r12",
    "pop rbx",
    "pop rbp",
    "ret",
    ".globl eatmc_start",
    "eatmc_start:",
    "mov rdi, r12",
    "call r13",
    "ud2",
);
extern "C" {
    fn eatmc_switch(save: *mut usize, to: usize);
    fn eatmc_start();
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(addr: *mut u8, len: usize, prot: i32) -> i32;
    fn sigaction(sig: i32, act: *const SigAction, old: *mut SigAction) -> i32;
}
#[repr(C)]
struct SigAction {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}

const STACK: usize = 256 << 10;
const EFL: usize = 40 + 17 * 8;
const TF: u64 = 0x100;
const PAGE: usize = 4096;

struct Rig {
    stacks: [Vec<u128>; THREADS],
    sp: [usize; THREADS],
    main_sp: usize,
    ops: [Option<*mut dyn FnMut()>; THREADS],
    done: [bool; THREADS],
    panicked: [bool; THREADS],
    taken: [u32; THREADS],
    segs: Vec<Seg>,
    pos: usize,
    cur: usize,
    left: u32,
    clock: AtomicU32,
    /// second mode
    paged: bool,
    page: *mut u8,
    choices: Vec<(u8, u8)>,
    depth: usize,
    begun: usize,
    granted: [(u32, u32); THREADS],
}
thread_local! {
    static RIG: Cell<*mut Rig> = const { Cell::new(std::ptr::null_mut()) };
}

impl Rig {
    /// What runs next: sets `left` (0 = no more switching).
    fn next(&mut self) -> Option<usize> {
        if self.paged {
            // first everyone runs up to its first access
            if self.begun < THREADS && self.ops[self.begun].is_some() {
                self.begun += 1;
                return Some(self.begun - 1);
            }
            let live: [bool; THREADS] = std::array::from_fn(|w| self.ops[w].is_some() && !self.done[w]);
            let n = live.iter().filter(|x| **x).count();
            if n == 0 {
                return None;
            }
            if self.depth == self.choices.len() {
                self.choices.push((0, n as u8));
            }
            let c = self.choices[self.depth].0 as usize;
            self.depth += 1;
            return (0..THREADS).filter(|&w| live[w]).nth(c.min(n - 1));
        }
        while let Some(&(who, steps)) = self.segs.get(self.pos) {
            if steps > 0 && self.ops[who].is_some() && !self.done[who] {
                self.left = steps;
                return Some(who);
            }
            self.pos += 1;
        }
        self.left = 0;
        (0..THREADS).find(|&w| self.ops[w].is_some() && !self.done[w])
    }
}
unsafe fn pass_on(r: *mut Rig, me: usize) {
    let n = (*r).next();
    let (save, to) = match n {
        Some(w) if w == me => return,
        Some(w) => {
            (*r).cur = w;
            (&raw mut (*r).sp[me], (*r).sp[w])
        }
        None => (&raw mut (*r).sp[me], (*r).main_sp),
    };
    eatmc_switch(save, to);
}
extern "C" fn on_trap(_sig: i32, _info: usize, uc: *mut u8) {
    unsafe {
        let r = RIG.with(|r| r.get());
        let flags = uc.add(EFL) as *mut u64;
        if (*r).paged {
            mprotect((*r).page, PAGE, 0);
            *flags &= !TF;
            return;
        }
        if (*r).left == 0 {
            *flags &= !TF;
            return;
        }
        let me = (*r).cur;
        (*r).taken[me] += 1;
        (*r).left -= 1;
        if (*r).left == 0 {
            (*r).pos += 1;
            pass_on(r, me);
            if (*r).left == 0 {
                *flags &= !TF;
            }
        }
    }
}
extern "C" fn on_fault(sig: i32, info: *const usize, uc: *mut u8) {
    unsafe {
        let r = RIG.with(|r| r.get());
        if r.is_null() || !(*r).paged || info.add(2).read().wrapping_sub((*r).page as usize) >= PAGE {
            crate::on_crash(sig);
            return;
        }
        let me = (*r).cur;
        pass_on(r, me);
        let now = stamp();
        let g = &mut (*r).granted[me];
        g.1 = now;
        if g.0 == 0 {
            g.0 = g.1;
        }
        mprotect((*r).page, PAGE, 3);
        *(uc.add(EFL) as *mut u64) |= TF;
    }
}
#[inline(always)]
fn trap_on() {
    unsafe { asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") }
}
#[inline(always)]
fn trap_off() {
    unsafe { asm!("pushfq", "and qword ptr [rsp], -257", "popfq") }
}
extern "C" fn body(r: *mut Rig) -> ! {
    unsafe {
        let me = (*r).cur;
        let op = (*r).ops[me].unwrap();
        let ok = catch_unwind(AssertUnwindSafe(|| {
            if !(*r).paged && (*r).left > 0 {
                trap_on();
            }
            (*op)();
            trap_off();
        }))
        .is_ok();
        trap_off();
        (*r).done[me] = true;
        (*r).panicked[me] = !ok;
        if !(*r).paged && (*r).pos < (*r).segs.len() {
            (*r).pos += 1;
        }
        pass_on(r, me);
        unreachable!()
    }
}
fn install() {
    static ONCE: Once = Once::new();
    ONCE.call_once(|| unsafe {
        const SIGTRAP: i32 = 5;
        const SA_SIGINFO: i32 = 4;
        const SA_NODEFER: i32 = 0x40000000;
        let a = SigAction { handler: on_trap as *const () as usize, mask: [0; 16], flags: SA_SIGINFO | SA_NODEFER, restorer: 0 };
        if sigaction(SIGTRAP, &a, std::ptr::null_mut()) != 0 {
            crate::die("sigaction failed");
        }
        let a = SigAction { handler: on_fault as *const () as usize, mask: [0; 16], flags: SA_SIGINFO | SA_NODEFER, restorer: 0 };
        for s in [11, 7] {
            if sigaction(s, &a, std::ptr::null_mut()) != 0 {
                crate::die("sigaction failed");
            }
        }
    });
}

/// Order of events, for use inside operations: 1, 2, 3, .. in the order of execution.
#[inline(always)]
pub fn stamp() -> u32 {
    unsafe {
        // nothing may be moved across, not even volatile accesses
        asm!("");
        let r = RIG.with(|r| r.get());
        // one instruction: the schedule may switch anywhere
        let c = (*r).clock.fetch_add(1, Relaxed) + 1;
        asm!("");
        c
    }
}

unsafe fn rig() -> *mut Rig {
    if RIG.with(|r| r.get()).is_null() {
        let page = mmap(std::ptr::null_mut(), PAGE, 3, 0x22, -1, 0);
        if page as isize == -1 {
            crate::die("mmap failed");
        }
        let r = Rig {
            stacks: std::array::from_fn(|_| vec![0u128; STACK / 16]),
            sp: [0; THREADS],
            main_sp: 0,
            ops: [None; THREADS],
            done: [false; THREADS],
            panicked: [false; THREADS],
            taken: [0; THREADS],
            segs: vec![],
            pos: 0,
            cur: 0,
            left: 0,
            clock: AtomicU32::new(0),
            paged: false,
            page,
            choices: vec![],
            depth: 0,
            begun: 0,
            granted: [(0, 0); THREADS],
        };
        RIG.with(|c| c.set(Box::into_raw(Box::new(r))));
    }
    RIG.with(|r| r.get())
}
unsafe fn go(r: *mut Rig, ops: &mut [&mut dyn FnMut()]) -> Result<(), usize> {
    assert!(cfg!(all(target_arch = "x86_64", target_os = "linux")) && ops.len() <= THREADS);
    install();
    for w in 0..THREADS {
        (*r).ops[w] = None;
        (*r).done[w] = false;
        (*r).panicked[w] = false;
        (*r).taken[w] = 0;
        (*r).granted[w] = (0, 0);
        if let Some(op) = ops.get_mut(w) {
            let op: *mut dyn FnMut() = std::mem::transmute::<*mut (dyn FnMut() + '_), *mut (dyn FnMut() + 'static)>(&mut **op as *mut _);
            (*r).ops[w] = Some(op);
            // as eatmc_switch leaves it: r15 r14 r13 r12 rbx rbp, return address; then aligned
            let top = (*r).stacks[w].as_mut_ptr().add(STACK / 16 - 4) as *mut usize;
            let sp = top.sub(7);
            sp.write(0);
            sp.add(1).write(0);
            sp.add(2).write(body as *const () as usize);
            sp.add(3).write(r as usize);
            sp.add(4).write(0);
            sp.add(5).write(0);
            sp.add(6).write(eatmc_start as *const () as usize);
            (*r).sp[w] = sp as usize;
        }
    }
    (*r).clock = AtomicU32::new(0);
    if (*r).paged {
        mprotect((*r).page, PAGE, 0);
    }
    if let Some(w) = (*r).next() {
        (*r).cur = w;
        eatmc_switch(&raw mut (*r).main_sp, (*r).sp[w]);
    }
    if (*r).paged {
        mprotect((*r).page, PAGE, 3);
        (*r).paged = false;
    }
    match (0..THREADS).find(|&w| (*r).panicked[w]) {
        Some(w) => Err(w),
        None => Ok(()),
    }
}

/// Runs the operations under the schedule; Err(k) if operation k panicked, otherwise the number of
/// instructions executed under control.
pub fn interleave(ops: &mut [&mut dyn FnMut()], segs: &[Seg]) -> Result<[u32; THREADS], usize> {
    unsafe {
        let r = rig();
        (*r).paged = false;
        (*r).segs.clear();
        (*r).segs.extend_from_slice(segs);
        (*r).pos = 0;
        go(r, ops)?;
        Ok((*r).taken)
    }
}

/// The shared page of the second mode (this OS thread's).
pub fn page() -> &'static mut [f32; PAGE / 4] {
    unsafe { &mut *((*rig()).page as *mut [f32; PAGE / 4]) }
}
/// Stamps of the first and last access to the shared page since the last call (by the running operation).
pub fn accesses() -> Option<(u32, u32)> {
    unsafe {
        asm!("");
        let r = RIG.with(|r| r.get());
        let g = std::mem::take(&mut (*r).granted[(*r).cur]);
        if g.0 > 0 {
            Some(g)
        } else {
            None
        }
    }
}
/// Runs the operations, switching only before instructions that touch the shared page: at the k-th such
/// point the `choices[k].0`-th unfinished operation goes on. Choices beyond the list are 0; on return
/// the list holds all choices made with the number of alternatives each had.
pub fn interleave_accesses(ops: &mut [&mut dyn FnMut()], choices: &mut Vec<(u8, u8)>) -> Result<(), usize> {
    unsafe {
        let r = rig();
        (*r).paged = true;
        (*r).left = 0;
        (*r).depth = 0;
        (*r).begun = 0;
        std::mem::swap(&mut (*r).choices, choices);
        let res = go(r, ops);
        std::mem::swap(&mut (*r).choices, choices);
        choices.truncate((*r).depth);
        res
    }
}
/// The next list of choices in depth-first order; false when all have been tried.
pub fn backtrack(choices: &mut Vec<(u8, u8)>) -> bool {
    while let Some(c) = choices.last_mut() {
        if c.0 + 1 < c.1 {
            c.0 += 1;
            return true;
        }
        choices.pop();
    }
    false
}

/// All schedules of a list of situations: case numbers -> (situation, position of each switch).
/// Situation `s` has `dims[s]` possible positions for each switch; a schedule picks one per switch.
pub struct Schedules {
    start: Vec<u64>,
    dims: Vec<Vec<u32>>,
}
impl Schedules {
    pub fn new(dims: Vec<Vec<u32>>) -> Schedules {
        let mut start = vec![0u64];
        for d in &dims {
            start.push(start.last().unwrap() + d.iter().map(|&x| x as u64).product::<u64>());
        }
        Schedules { start, dims }
    }
    pub fn total(&self) -> u64 {
        *self.start.last().unwrap()
    }
    /// situation and, per switch, a position from 1
    pub fn at(&self, n: u64) -> (usize, [u32; 4]) {
        let s = self.start.partition_point(|&x| x <= n) - 1;
        let mut k = n - self.start[s];
        let mut p = [0u32; 4];
        for (i, &d) in self.dims[s].iter().enumerate() {
            p[i] = (k % d as u64) as u32 + 1;
            k /= d as u64;
        }
        (s, p)
    }
}
