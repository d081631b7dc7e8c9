//! The scheduler: real threads, exactly one of which runs at any time; which one is decided here.
use std::cell::Cell;
use std::collections::HashMap;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

use crate::raw;
use crate::rng::{mix, Rng};
use crate::vfs::Vfs;

pub const MAXT: usize = 8;
pub const MAXSW: usize = 60_000;
pub const MAXF: usize = 4_000;

thread_local! {
    /// Index of the simulated task this thread is, or -1.
    pub static TASK: Cell<i32> = const { Cell::new(-1) };
    /// Whether code under test is running: only then do scheduling points and faults fire.
    pub static TARGET: Cell<bool> = const { Cell::new(false) };
}

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum Kind { Func = 0, Atomic = 1, Sys = 2, Op = 3, Yield = 4 }

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum St { Unused, Ready, Blocked { addr: usize, deadline: u64 }, Done }

pub struct Task {
    pub st: St,
    pub step: u32,
    pub call: u32,
    pub timed_out: bool,
    word: AtomicU32,
}

/// Layout shared with the parent process, so that it survives a crash of the run.
#[repr(C)]
pub struct Shm {
    pub nsw: u32,
    pub nf: u32,
    pub steps: u64,
    pub clock: u64,
    pub fatal: u32,
    pub cur_task: u32,
    pub cur_op: [u32; MAXT],
    pub sw: [[u32; 3]; MAXSW],
    pub faults: [[u32; 4]; MAXF],
}

pub const FATAL_DEADLOCK: u32 = 1;
pub const FATAL_STEPS: u32 = 2;
pub const FATAL_INTERNAL: u32 = 3;

#[derive(Clone, Debug, Default)]
pub struct Probs { pub p: [u32; 5], pub spurious: u32, pub clock_jump: u32 }

pub enum Mode {
    Explore(Rng),
    Replay(HashMap<(u32, u32), u32>),
}

pub struct Sim {
    pub tasks: [Task; MAXT],
    pub n: usize,
    pub cur: usize,
    pub steps: u64,
    pub clock: u64,
    pub cap: u64,
    pub probs: Probs,
    pub mode: Mode,
    pub hash: u64,
    pub coarse: u64,
    pub shm: *mut Shm,
    pub vfs: Vfs,
    pub frng: Rng,
    pub vrng: Rng,
    pub fault_rates: [u32; crate::vfs::NFAULT],
    pub fault_max: u32,
    pub fault_replay: Option<HashMap<(u32, u32), (u32, u32)>>,
    pub fault_counts: [u32; crate::vfs::NFAULT],
    pub switches: u64,
    pub preemptions: u64,
    pub env_hist: Vec<(u64, EnvSnap)>,
    pub track_env: bool,
    /// Tasks that no fault strikes for now.
    pub nofault: [bool; MAXT],
    main: AtomicU32,
}

pub type EnvSnap = std::rc::Rc<Vec<(Vec<u8>, Vec<u8>)>>;

static mut SIM: *mut Sim = std::ptr::null_mut();

pub fn active() -> bool { unsafe { !SIM.is_null() } }
#[allow(static_mut_refs)]
pub fn sim() -> &'static mut Sim { unsafe { &mut *SIM } }

impl Sim {
    pub fn install(seed: u64, n: usize, shm: *mut Shm) -> &'static mut Sim {
        const T: Task = Task { st: St::Unused, step: 0, call: 0, timed_out: false, word: AtomicU32::new(0) };
        let mut tasks = [T; MAXT];
        for t in tasks.iter_mut().take(n) { t.st = St::Ready }
        let mut r = Rng::new(seed);
        let s = Box::new(Sim {
            tasks, n, cur: 0, steps: 0, clock: 1_700_000_000_000_000_000, cap: 300_000_000,
            probs: Probs::default(), mode: Mode::Explore(r.fork(1)), hash: 0, coarse: 0, shm,
            vfs: Vfs::new(), frng: r.fork(2), vrng: r.fork(3),
            fault_rates: [0; crate::vfs::NFAULT], fault_max: 0, fault_replay: None,
            fault_counts: [0; crate::vfs::NFAULT], switches: 0, preemptions: 0,
            env_hist: vec![], track_env: false, nofault: [false; MAXT], main: AtomicU32::new(0),
        });
        unsafe { SIM = Box::into_raw(s); }
        sim()
    }

    fn fatal(&mut self, code: u32) -> ! {
        unsafe { (*self.shm).fatal = code; (*self.shm).steps = self.steps; }
        raw::exit_group(70 + code as i32)
    }

    pub fn others(&self) -> usize {
        (0..self.n).filter(|&i| i != self.cur && self.tasks[i].st == St::Ready).count()
    }

    fn nth_other(&self, mut k: usize) -> usize {
        for i in 0..self.n {
            if i != self.cur && self.tasks[i].st == St::Ready { if k == 0 { return i } k -= 1 }
        }
        self.cur
    }

    fn expire(&mut self) {
        let now = self.clock;
        for t in self.tasks.iter_mut().take(self.n) {
            if let St::Blocked { deadline, .. } = t.st {
                if deadline <= now { t.st = St::Ready; t.timed_out = true }
            }
        }
    }

    fn log_switch(&mut self, step: u32, to: usize) {
        unsafe {
            let m = &mut *self.shm;
            if (m.nsw as usize) < MAXSW { m.sw[m.nsw as usize] = [self.cur as u32, step, to as u32]; }
            m.nsw += 1;
        }
        self.hash = mix(self.hash ^ ((self.cur as u64) << 40 | (step as u64) << 8 | to as u64));
        self.coarse = mix(self.coarse ^ (to as u64 + 17));
        self.switches += 1;
    }

    fn switch_to(&mut self, to: usize) {
        if to == self.cur { return }
        let me = self.cur;
        self.cur = to;
        unsafe { (*self.shm).cur_task = to as u32; }
        let w = &self.tasks[to].word;
        w.store(1, SeqCst);
        raw::futex_wake(w.as_ptr(), 1);
        if self.tasks[me].st != St::Done { self.wait_turn(me) }
    }

    fn wait_turn(&mut self, me: usize) {
        let w = &self.tasks[me].word;
        while w.load(SeqCst) == 0 { raw::futex_wait(w.as_ptr(), 0); }
        w.store(0, SeqCst);
    }

    /// Picks a task when the current one cannot go on.
    fn forced(&mut self) {
        let me = self.cur;
        self.tasks[me].step += 1;
        let step = self.tasks[me].step;
        loop {
            self.expire();
            let n = self.others();
            let me_ready = self.tasks[me].st == St::Ready;
            if n == 0 && me_ready { return }
            if n == 0 {
                let next = (0..self.n).filter_map(|i| match self.tasks[i].st {
                    St::Blocked { deadline, .. } if deadline != u64::MAX => Some(deadline), _ => None }).min();
                match next {
                    Some(d) => { self.clock = self.clock.max(d); continue }
                    None => {
                        if (0..self.n).all(|i| self.tasks[i].st == St::Done) {
                            self.main.store(1, SeqCst);
                            raw::futex_wake(self.main.as_ptr(), 1);
                            return;
                        }
                        self.fatal(FATAL_DEADLOCK)
                    }
                }
            }
            let to = match &mut self.mode {
                Mode::Explore(r) => { let k = r.below(n); self.nth_other(k) }
                Mode::Replay(m) => match m.get(&(me as u32, step)) {
                    Some(&t) if (t as usize) < self.n && self.tasks[t as usize].st == St::Ready => t as usize,
                    _ => self.nth_other(0),
                }
            };
            if to == me { return }
            self.log_switch(step, to);
            self.switch_to(to);
            return;
        }
    }

    pub fn point(&mut self, kind: Kind) {
        let me = self.cur;
        self.steps += 1;
        self.clock += 1000;
        let t = &mut self.tasks[me];
        t.step += 1;
        let step = t.step;
        if self.steps > self.cap { self.fatal(FATAL_STEPS) }
        if kind != Kind::Func { self.coarse = mix(self.coarse ^ ((me as u64) << 4 | kind as u64)) }
        self.hash = mix(self.hash ^ ((me as u64) << 4 | kind as u64));
        if self.n > 1 {
            self.expire();
            let n = self.others();
            let to = match &mut self.mode {
                Mode::Explore(r) => {
                    let p = if kind == Kind::Yield { 65536 } else { self.probs.p[kind as usize] };
                    if self.probs.clock_jump > 0 && r.p16(self.probs.clock_jump) {
                        self.clock += r.next() % 3_000_000_000;
                        self.fault_counts[crate::vfs::F_CLOCK] += 1;
                    }
                    if n > 0 && r.p16(p) { let k = r.below(n); self.nth_other(k) } else { me }
                }
                Mode::Replay(m) => match m.get(&(me as u32, step)) {
                    Some(&t) if (t as usize) < self.n && self.tasks[t as usize].st == St::Ready => t as usize,
                    // an unscripted yield must still give way, or spinning never ends
                    _ if kind == Kind::Yield && n > 0 => self.nth_other(0),
                    _ => me,
                }
            };
            if to != me {
                self.preemptions += 1;
                self.log_switch(step, to);
                self.switch_to(to);
            }
        }
    }

    /// Blocks the current task on `addr` until woken or the deadline. True if it timed out.
    pub fn block(&mut self, addr: usize, deadline: u64) -> bool {
        let me = self.cur;
        self.tasks[me].timed_out = false;
        self.tasks[me].st = St::Blocked { addr, deadline };
        self.forced();
        self.tasks[me].timed_out
    }

    pub fn wake(&mut self, addr: usize, mut n: usize) -> usize {
        let mut woken = 0;
        // which waiter is woken first is the scheduler's choice too
        while n > 0 {
            let c: Vec<usize> = (0..self.n).filter(|&i| matches!(self.tasks[i].st, St::Blocked { addr: a, .. } if a == addr)).collect();
            if c.is_empty() { break }
            let i = c[self.vrng.below(c.len())];
            self.tasks[i].st = St::Ready;
            n -= 1; woken += 1;
        }
        woken
    }

    pub fn note(&mut self, h: u64) { self.hash = mix(self.hash ^ h) }
}

/// Body of a simulated task's thread.
pub fn run_task(i: usize, f: impl FnOnce()) {
    TASK.with(|t| t.set(i as i32));
    let s = sim();
    s.wait_turn(i);
    f();
    TARGET.with(|t| t.set(false));
    let s = sim();
    s.tasks[i].st = St::Done;
    TASK.with(|t| t.set(-1));
    s.forced();
}

/// Called by the controlling thread once all task threads exist: starts the first and waits for all.
pub fn run_all() {
    let s = sim();
    let first = match &mut s.mode { Mode::Explore(r) => r.below(s.n), Mode::Replay(m) => m.get(&(99, 0)).map(|x| *x as usize).unwrap_or(0).min(s.n - 1) };
    unsafe {
        let m = &mut *s.shm;
        m.sw[0] = [99, 0, first as u32];
        m.nsw = 1;
    }
    s.cur = first;
    let w = &s.tasks[first].word;
    w.store(1, SeqCst);
    raw::futex_wake(w.as_ptr(), 1);
    while s.main.load(SeqCst) == 0 { raw::futex_wait(s.main.as_ptr(), 0); }
    unsafe { (*s.shm).steps = s.steps; (*s.shm).clock = s.clock; }
}

#[inline]
pub fn in_target() -> bool { TARGET.with(|t| t.get()) && TASK.with(|t| t.get()) >= 0 }

#[inline]
pub fn point(kind: Kind) { if in_target() { sim().point(kind) } }

/// Runs `f` as code under test: scheduling points and faults are live inside.
pub fn target<R>(f: impl FnOnce() -> R) -> R {
    struct Restore(bool);
    impl Drop for Restore { fn drop(&mut self) { TARGET.with(|t| t.set(self.0)) } }
    let _r = Restore(TARGET.with(|t| t.replace(true)));
    f()
}

/// Runs `f` with scheduling points and faults off.
pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
    struct Restore(bool);
    impl Drop for Restore { fn drop(&mut self) { TARGET.with(|t| t.set(self.0)) } }
    let _r = Restore(TARGET.with(|t| t.replace(false)));
    f()
}
