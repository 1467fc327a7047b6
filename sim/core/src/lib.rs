//! Deterministic simulator of one process: every thread of the process is a task, exactly one task runs
//! at a time, and which one is decided here. The seam is the boundary to the OS: this crate defines the
//! libc entry points through which std, rayon-core, parking_lot and rand block, yield, start threads,
//! read clocks and obtain entropy; when a simulation is active they are answered by the simulator.
//!
//! This crate itself is compiled without SanitizerCoverage; the crate under test (and the harness crate,
//! into which its generic code is instantiated) is compiled with it and calls the guard hook below on
//! every basic-block edge.
#![allow(static_mut_refs)]
#![allow(clippy::missing_safety_doc)]

use std::cell::Cell;
use std::sync::atomic::{AtomicU32, Ordering};

// ---------------------------------------------------------------------------------------------
// PRNG

#[derive(Clone, Copy, Default)]
pub struct Prng(pub u64);

impl Prng {
    pub fn new(seed: u64) -> Self {
        Prng(seed)
    }
    /// A stream derived from a seed and a label.
    pub fn stream(seed: u64, label: u64) -> Self {
        let mut p = Prng(seed ^ label.wrapping_mul(0x9E37_79B9_7F4A_7C15));
        p.next();
        p.next();
        p
    }
    #[inline]
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.0)
    }
    #[inline]
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            return 0;
        }
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    #[inline]
    pub fn f64(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    #[inline]
    pub fn chance(&mut self, p: f64) -> bool {
        self.f64() < p
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
}

#[inline]
pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

#[inline]
pub fn hash2(a: u64, b: u64) -> u64 {
    mix(a.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ b.wrapping_add(0x632B_E59B_D9B4_E019))
}

// ---------------------------------------------------------------------------------------------
// Raw system calls (the libc wrappers are overridden below)

#[inline(always)]
unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _);
    r
}

unsafe fn ret(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        *libc::__errno_location() = -r as i32;
        -1
    } else {
        r
    }
}

unsafe fn gate_wait(g: &AtomicU32) {
    while g.swap(0, Ordering::AcqRel) == 0 {
        raw(libc::SYS_futex, g as *const _ as i64, 128, 0, 0, 0, 0);
    }
}

unsafe fn gate_open(g: &AtomicU32) {
    g.store(1, Ordering::Release);
    raw(libc::SYS_futex, g as *const _ as i64, 129, 1, 0, 0, 0);
}

// ---------------------------------------------------------------------------------------------
// Shared result area between a simulated process (forked child) and the shard that forked it

pub const MAX_TRACE: usize = 60_000;
pub const MAX_MSG: usize = 1 << 16;
pub const MAX_COV: usize = 1 << 17;
pub const N_COUNTERS: usize = 96;

#[repr(C)]
pub struct Shared {
    pub status: u32, // 0 running/crashed, 1 finished, 2 deadlock, 3 step limit, 4 stopped on violation, 5 harness error
    pub tasks: u32,
    pub step: u64,
    pub edges: u64,
    pub switches: u64,
    pub preempts: u64,
    pub forced: u64,
    pub blocks: u64,
    pub wakes: u64,
    pub spurious: u64,
    pub yields: u64,
    pub stalls: u64,
    pub entropy_reads: u64,
    pub clock_reads: u64,
    pub now_ns: u64,
    pub sched_hash: u64,
    pub log_hash: u64,
    pub violated: u64, // bit per property
    pub trace_len: u32,
    pub msg_len: u32,
    pub counters: [u64; N_COUNTERS],
    pub trace: [(u64, u32); MAX_TRACE],
    pub msg: [u8; MAX_MSG],
    pub cov_total: u64, // distinct edges ever seen by this shard
    pub cov: [u8; MAX_COV],
}

impl Shared {
    pub fn map() -> &'static mut Shared {
        unsafe {
            let p = libc::mmap(
                std::ptr::null_mut(),
                std::mem::size_of::<Shared>(),
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_ANONYMOUS,
                -1,
                0,
            );
            assert!(p != libc::MAP_FAILED);
            &mut *(p as *mut Shared)
        }
    }
    /// Clears the per-run part.
    pub fn reset(&mut self) {
        unsafe {
            let start = self as *mut Shared as *mut u8;
            let len = std::ptr::addr_of!(self.trace) as usize - start as usize;
            std::ptr::write_bytes(start, 0, len);
        }
        self.msg_len = 0;
    }
    pub fn message(&self) -> String {
        String::from_utf8_lossy(&self.msg[..self.msg_len as usize]).into_owned()
    }
    pub fn add_message(&mut self, s: &str) {
        for &b in s.as_bytes() {
            if (self.msg_len as usize) < MAX_MSG {
                self.msg[self.msg_len as usize] = b;
                self.msg_len += 1;
            }
        }
    }
    pub fn trace_vec(&self) -> Vec<(u64, u32)> {
        self.trace[..self.trace_len as usize].to_vec()
    }
}

// ---------------------------------------------------------------------------------------------
// Simulator state (touched only by the task that holds the token)

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Runnable,
    Futex(usize),
    Join(usize),
    Sleep,
    Exited,
}

struct Task {
    gate: AtomicU32,
    st: St,
    deadline: u64, // simulated ns; u64::MAX = none
    timed_out: bool,
    spinning: bool,
    nopre: u32,
    wait_seq: u64,
    prio: u64,
    thread: u64, // pthread_t
}

/// How the schedule of a run is decided.
#[derive(Clone, Debug, Default)]
pub struct Sched {
    pub seed: u64,
    /// 0 run-to-block, 1 random preemption, 2 priorities with change points, 3 fixed-gap round robin,
    /// 4 random preemption with a starved task
    pub mode: u32,
    /// mean number of steps between preemptions
    pub gap: u64,
    /// basic-block edges of the code under test count as steps (preemption inside library code)
    pub fine: bool,
    /// futex wake order: 0 oldest first, 1 newest first, 2 pseudo-random
    pub wake: u32,
    /// probability (per mille) that a futex wait returns spuriously
    pub spurious: u32,
    pub max_steps: u64,
    pub max_edges: u64,
    /// replay: explicit decisions; everything else follows the default policy
    pub replay: Option<Vec<(u64, u32)>>,
    pub entropy: u64,
}

struct Sim {
    tasks: Vec<Box<Task>>,
    cur: usize,
    rng: Prng,
    wake_rng: Prng,
    ent: Prng,
    sched: Sched,
    next_ev: u64,
    replay_pos: usize,
    now: u64,
    seq: u64,
    victim: usize,
    victim_until: u64,
}

static mut ACTIVE: bool = false;
static mut FINE: bool = false;
static mut EDGES: u64 = 0;
static mut STEP: u64 = 0;
static mut NEXT_EV: u64 = u64::MAX;
static mut SIM: Option<Sim> = None;
static mut SH: *mut Shared = std::ptr::null_mut();
static mut N_GUARDS: u32 = 0;
static mut EXIT_KEY: u32 = 0;

thread_local! {
    static TID: Cell<usize> = const { Cell::new(usize::MAX) };
}

type StartFn = extern "C" fn(*mut libc::c_void) -> *mut libc::c_void;
type PthreadCreate = unsafe extern "C" fn(
    *mut libc::pthread_t,
    *const libc::pthread_attr_t,
    StartFn,
    *mut libc::c_void,
) -> i32;
type PthreadJoin = unsafe extern "C" fn(libc::pthread_t, *mut *mut libc::c_void) -> i32;
static mut REAL_CREATE: Option<PthreadCreate> = None;
static mut REAL_JOIN: Option<PthreadJoin> = None;

#[inline]
fn on_task() -> bool {
    unsafe { ACTIVE && TID.with(|t| t.get()) != usize::MAX }
}

#[inline]
fn sim() -> &'static mut Sim {
    unsafe { SIM.as_mut().unwrap() }
}

pub fn shared() -> &'static mut Shared {
    unsafe { &mut *SH }
}

/// Once per OS process, before any simulation (no other thread may exist).
pub fn init(sh: &'static mut Shared) {
    unsafe {
        SH = sh;
        if REAL_CREATE.is_none() {
            REAL_CREATE = Some(std::mem::transmute::<*mut libc::c_void, PthreadCreate>(
                libc::dlsym(libc::RTLD_NEXT, c"pthread_create".as_ptr()),
            ));
            REAL_JOIN = Some(std::mem::transmute::<*mut libc::c_void, PthreadJoin>(
                libc::dlsym(libc::RTLD_NEXT, c"pthread_join".as_ptr()),
            ));
            let mut key = 0;
            assert!(libc::pthread_key_create(&mut key, Some(exit_dtor)) == 0);
            EXIT_KEY = key;
        }
    }
}

/// Starts simulating this process; the calling thread becomes task 0.
pub fn begin(sched: Sched) {
    unsafe {
        let s = Sim {
            tasks: vec![],
            cur: 0,
            rng: Prng::stream(sched.seed, 1),
            wake_rng: Prng::stream(sched.seed, 2),
            ent: Prng::stream(sched.entropy, 3),
            next_ev: u64::MAX,
            replay_pos: 0,
            now: 1_000_000_000,
            seq: 0,
            victim: usize::MAX,
            victim_until: 0,
            sched,
        };
        SIM = Some(s);
        let s = sim();
        FINE = s.sched.fine;
        EDGES = 0;
        STEP = 0;
        new_task(s);
        TID.with(|t| t.set(0));
        plan_next(s);
        ACTIVE = true;
    }
}

fn new_task(s: &mut Sim) -> usize {
    let prio = s.rng.next();
    s.tasks.push(Box::new(Task {
        gate: AtomicU32::new(0),
        st: St::Runnable,
        deadline: u64::MAX,
        timed_out: false,
        spinning: false,
        nopre: 0,
        wait_seq: 0,
        prio,
        thread: 0,
    }));
    s.tasks.len() - 1
}

fn flush_stats() {
    unsafe {
        let sh = shared();
        sh.step = STEP;
        sh.edges = EDGES;
        if let Some(s) = SIM.as_ref() {
            sh.tasks = s.tasks.len() as u32;
            sh.now_ns = s.now;
        }
    }
}

/// Ends the simulated process (from any task) with the given status.
pub fn finish(status: u32) -> ! {
    unsafe {
        flush_stats();
        shared().status = status;
        ACTIVE = false;
        raw(libc::SYS_exit_group, 0, 0, 0, 0, 0, 0);
        loop {}
    }
}

fn note(h: u64) {
    let sh = shared();
    sh.sched_hash = hash2(sh.sched_hash, h);
}

fn gap(s: &mut Sim) -> u64 {
    let g = s.sched.gap.max(1);
    match s.sched.mode {
        0 => u64::MAX / 4,
        3 => g,
        _ => {
            // geometric with mean g
            let u = s.rng.f64().max(1e-12);
            1 + (-(u.ln()) * g as f64) as u64
        }
    }
}

/// Sets the next step at which a preemption is considered.
fn plan_next(s: &mut Sim) {
    s.next_ev = if let Some(r) = &s.sched.replay {
        while s.replay_pos < r.len() && r[s.replay_pos].0 <= unsafe { STEP } {
            s.replay_pos += 1;
        }
        if s.replay_pos < r.len() {
            r[s.replay_pos].0
        } else {
            u64::MAX
        }
    } else {
        let g = gap(s);
        unsafe { STEP }.saturating_add(g)
    };
    unsafe { NEXT_EV = s.next_ev.min(s.sched.max_steps) }
}

fn record(step: u64, target: usize) {
    let sh = shared();
    let n = sh.trace_len as usize;
    if n < MAX_TRACE {
        sh.trace[n] = (step, target as u32);
        sh.trace_len += 1;
    }
}

fn switch_to(s: &mut Sim, target: usize) {
    let me = s.cur;
    if me == target {
        return;
    }
    s.cur = target;
    shared().switches += 1;
    note(((target as u64) << 32) ^ shared().log_hash);
    unsafe {
        let mine: *const AtomicU32 = &s.tasks[me].gate;
        gate_open(&s.tasks[target].gate);
        gate_wait(&*mine);
    }
}

/// Yields since the last user callback.
static mut FRUITLESS: u64 = 0;

fn limit_check(s: &Sim) {
    unsafe {
        if STEP >= s.sched.max_steps {
            shared().add_message("step limit reached: the run does not complete in bounded work\n");
            finish(3);
        }
    }
}

/// A point at which the running task may be preempted. `callback`: a user callback (real progress).
#[inline]
pub fn yield_point(callback: bool) {
    unsafe {
        if !on_task() {
            return;
        }
        if callback {
            let s = sim();
            let c = s.cur;
            s.tasks[c].spinning = false;
            FRUITLESS = 0;
            if s.tasks[c].nopre > 0 {
                return;
            }
        }
        STEP += 1;
        if STEP < NEXT_EV {
            return;
        }
        preempt();
    }
}

fn starved(s: &Sim, i: usize) -> bool {
    s.sched.mode == 4 && i == s.victim && unsafe { STEP } < s.victim_until
}

#[cold]
fn preempt() {
    let s = sim();
    limit_check(s);
    let me = s.cur;
    let step = unsafe { STEP };
    let target = if let Some(r) = &s.sched.replay {
        if s.replay_pos < r.len() && r[s.replay_pos].0 == step {
            let t = r[s.replay_pos].1 as usize;
            if t < s.tasks.len() && s.tasks[t].st == St::Runnable {
                Some(t)
            } else {
                None
            }
        } else {
            None
        }
    } else {
        if s.sched.mode == 4 && step >= s.victim_until {
            let n = s.tasks.len() as u64;
            s.victim = s.rng.below(n) as usize;
            s.victim_until = step + (s.sched.gap * (5 + s.rng.below(60))).min(20_000);
            shared().stalls += 1;
        }
        if s.sched.mode == 2 {
            // change point: the running task gets the lowest priority so far
            let low = s.tasks.iter().map(|t| t.prio).min().unwrap_or(1);
            s.tasks[me].prio = low.saturating_sub(1 + s.rng.below(3));
        }
        let c = candidates(s, me, false);
        pick(s, me, &c)
    };
    if let Some(t) = target {
        if t != me {
            shared().preempts += 1;
            record(step, t);
            plan_next(s);
            switch_to(s, t);
            return;
        }
    }
    plan_next(s);
}

/// Tasks that could run instead of `me`.
fn candidates(s: &Sim, me: usize, prefer_busy: bool) -> Vec<usize> {
    let run: Vec<usize> = (0..s.tasks.len())
        .filter(|&i| i != me && s.tasks[i].st == St::Runnable)
        .collect();
    if prefer_busy && run.iter().any(|&i| !s.tasks[i].spinning) {
        return run.into_iter().filter(|&i| !s.tasks[i].spinning).collect();
    }
    run
}

fn pick(s: &mut Sim, me: usize, c: &[usize]) -> Option<usize> {
    if c.is_empty() {
        return None;
    }
    let mut c: Vec<usize> = c.to_vec();
    if c.iter().any(|&i| !starved(s, i)) {
        let keep: Vec<usize> = c.iter().copied().filter(|&i| !starved(s, i)).collect();
        c = keep;
    }
    Some(match s.sched.mode {
        2 => *c.iter().max_by_key(|&&i| s.tasks[i].prio).unwrap(),
        3 => *c.iter().find(|&&i| i > me).unwrap_or(&c[0]),
        _ => c[s.rng.below(c.len() as u64) as usize],
    })
}

/// The running task cannot (or does not want to) continue: somebody else must run.
fn forced(yielding: bool) {
    let s = sim();
    unsafe { STEP += 1 };
    limit_check(s);
    shared().forced += 1;
    let me = s.cur;
    let step = unsafe { STEP };
    let mut c;
    loop {
        c = candidates(s, me, true);
        if !c.is_empty() {
            break;
        }
        if yielding || s.tasks[me].st == St::Runnable {
            plan_next(s);
            return; // nobody else: go on
        }
        // nobody runnable: let simulated time pass
        match s
            .tasks
            .iter()
            .enumerate()
            .filter(|(_, t)| t.deadline != u64::MAX)
            .min_by_key(|(_, t)| t.deadline)
            .map(|(i, _)| i)
        {
            Some(i) => {
                s.now = s.now.max(s.tasks[i].deadline);
                s.tasks[i].deadline = u64::MAX;
                s.tasks[i].timed_out = true;
                s.tasks[i].st = St::Runnable;
                if i == me {
                    plan_next(s);
                    return;
                }
            }
            None => {
                let states: Vec<String> = s
                    .tasks
                    .iter()
                    .enumerate()
                    .map(|(i, t)| {
                        let what = match t.st {
                            St::Runnable => "runnable",
                            St::Futex(_) => "blocked on a lock or condition",
                            St::Join(_) => "joining a thread",
                            St::Sleep => "sleeping",
                            St::Exited => "exited",
                        };
                        format!("task {i}: {what}")
                    })
                    .collect();
                shared().add_message(&format!("deadlock: no task can run ({})\n", states.join(", ")));
                finish(2);
            }
        }
    }
    // default policy: next busy task in cyclic order
    let default = *c.iter().find(|&&i| i > me).unwrap_or(&c[0]);
    let target = if let Some(r) = &s.sched.replay {
        let mut t = default;
        let mut p = s.replay_pos;
        while p < r.len() && r[p].0 < step {
            p += 1;
        }
        if p < r.len() && r[p].0 == step {
            let x = r[p].1 as usize;
            if x < s.tasks.len() && s.tasks[x].st == St::Runnable {
                t = x;
            }
        }
        t
    } else {
        pick(s, me, &c).unwrap()
    };
    if target != default {
        record(step, target);
    }
    plan_next(s);
    switch_to(s, target);
}

/// Harness code runs without preemption (and without counting edges) while this guard lives.
pub struct NoPreempt(());

pub fn no_preempt() -> NoPreempt {
    if on_task() {
        let s = sim();
        let c = s.cur;
        s.tasks[c].nopre += 1;
    }
    NoPreempt(())
}

impl Drop for NoPreempt {
    fn drop(&mut self) {
        if on_task() {
            let s = sim();
            let c = s.cur;
            s.tasks[c].nopre -= 1;
        }
    }
}

/// Whether callbacks are not to be simulated right now: harness mode, or no simulation at all.
#[inline]
pub fn quiet() -> bool {
    if !on_task() {
        return true;
    }
    let s = sim();
    s.tasks[s.cur].nopre > 0
}

/// Index of the running task.
pub fn current_task() -> usize {
    sim().cur
}

/// Folds something into the event-log hash of the run.
#[inline]
pub fn log(h: u64) {
    let sh = shared();
    sh.log_hash = hash2(sh.log_hash, h);
}

pub fn step() -> u64 {
    unsafe { STEP }
}

/// Changes the entropy stream (hash seeds of threads started later, `from_entropy` generators ...).
pub fn reseed_entropy(seed: u64) {
    sim().ent = Prng::stream(seed, 3);
}

/// Simulated time jump.
pub fn jump_clock(ns: u64) {
    let s = sim();
    s.now = s.now.wrapping_add(ns);
}

/// A new schedule stream (used by differential runs inside one simulated process).
pub fn reseed_schedule(seed: u64) {
    let s = sim();
    s.rng = Prng::stream(seed, 1);
    plan_next(s);
}

pub fn guards() -> u32 {
    unsafe { N_GUARDS }
}

// ---------------------------------------------------------------------------------------------
// SanitizerCoverage hooks

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    while p < stop {
        if *p == 0 {
            N_GUARDS += 1;
            *p = N_GUARDS;
        }
        p = p.add(1);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    if !ACTIVE || TID.with(|t| t.get()) == usize::MAX {
        return;
    }
    let s = SIM.as_mut().unwrap();
    let c = s.cur;
    if s.tasks[c].nopre > 0 {
        return;
    }
    EDGES += 1;
    let i = *g as usize;
    if i < MAX_COV {
        let sh = &mut *SH;
        if sh.cov[i] == 0 {
            sh.cov[i] = 1;
            sh.cov_total += 1;
        }
    }
    if EDGES > s.sched.max_edges {
        shared().add_message("edge limit reached: endless loop in library code\n");
        finish(3);
    }
    if FINE {
        STEP += 1;
        if STEP >= NEXT_EV {
            preempt();
        }
    }
}

// ---------------------------------------------------------------------------------------------
// OS entry points

unsafe fn futex(uaddr: usize, op: i32, val: u32, timeout: *const libc::timespec, abs: bool) -> i64 {
    let s = sim();
    match op {
        libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
            if (*(uaddr as *const AtomicU32)).load(Ordering::SeqCst) != val {
                return -(libc::EAGAIN as i64);
            }
            if s.sched.spurious > 0 && s.wake_rng.below(1000) < s.sched.spurious as u64 {
                shared().spurious += 1;
                yield_point(false);
                return if s.wake_rng.below(2) == 0 {
                    0
                } else {
                    -(libc::EINTR as i64)
                };
            }
            let me = s.cur;
            s.seq += 1;
            let q = s.seq;
            let now = s.now;
            let t = &mut s.tasks[me];
            t.st = St::Futex(uaddr);
            t.wait_seq = q;
            t.timed_out = false;
            t.spinning = false;
            t.deadline = if timeout.is_null() {
                u64::MAX
            } else {
                let ns = (*timeout).tv_sec as u64 * 1_000_000_000 + (*timeout).tv_nsec as u64;
                if abs {
                    ns
                } else {
                    now.saturating_add(ns)
                }
            };
            shared().blocks += 1;
            forced(false);
            let s = sim();
            let t = &mut s.tasks[me];
            t.deadline = u64::MAX;
            if t.timed_out {
                t.timed_out = false;
                -(libc::ETIMEDOUT as i64)
            } else {
                0
            }
        }
        libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
            let mut w: Vec<usize> = (0..s.tasks.len())
                .filter(|&i| s.tasks[i].st == St::Futex(uaddr))
                .collect();
            w.sort_by_key(|&i| s.tasks[i].wait_seq);
            let mut n = 0;
            while n < val as i64 && !w.is_empty() {
                let k = match s.sched.wake {
                    0 => 0,
                    1 => w.len() - 1,
                    _ => s.wake_rng.below(w.len() as u64) as usize,
                };
                let i = w.remove(k);
                s.tasks[i].st = St::Runnable;
                s.tasks[i].deadline = u64::MAX;
                n += 1;
            }
            shared().wakes += n as u64;
            yield_point(false);
            n
        }
        _ => -(libc::ENOSYS as i64),
    }
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if on_task() {
        if n == libc::SYS_futex {
            let op = (b as i32) & 0x7f;
            return ret(futex(
                a as usize,
                op,
                c as u32,
                if op == libc::FUTEX_WAIT || op == libc::FUTEX_WAIT_BITSET {
                    d as *const libc::timespec
                } else {
                    std::ptr::null()
                },
                op == libc::FUTEX_WAIT_BITSET,
            ));
        }
        if n == libc::SYS_getrandom {
            return getrandom(a as *mut u8, b as usize, c as u32) as i64;
        }
    }
    ret(raw(n, a, b, c, d, e, f))
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    if on_task() {
        let s = sim();
        shared().entropy_reads += 1;
        let mut i = 0;
        while i < len {
            let v = s.ent.next().to_le_bytes();
            for x in v {
                if i < len {
                    *buf.add(i) = x;
                    i += 1;
                }
            }
        }
        return len as isize;
    }
    ret(raw(libc::SYS_getrandom, buf as i64, len as i64, flags as i64, 0, 0, 0)) as isize
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if on_task() {
        let s = sim();
        let c = s.cur;
        s.tasks[c].spinning = true;
        shared().yields += 1;
        FRUITLESS += 1;
        if FRUITLESS > 1_000_000 {
            shared().add_message("livelock: 1000000 yields in a row and no progress\n");
            finish(3);
        }
        forced(true);
        return 0;
    }
    ret(raw(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> i32 {
    if on_task() {
        let s = sim();
        s.now += 1000;
        shared().clock_reads += 1;
        (*ts).tv_sec = (s.now / 1_000_000_000) as i64 + if id == libc::CLOCK_REALTIME { 1_700_000_000 } else { 0 };
        (*ts).tv_nsec = (s.now % 1_000_000_000) as i64;
        return 0;
    }
    ret(raw(libc::SYS_clock_gettime, id as i64, ts as i64, 0, 0, 0, 0)) as i32
}

unsafe fn sim_sleep(ns: u64) {
    let s = sim();
    let me = s.cur;
    let dl = s.now.saturating_add(ns);
    let t = &mut s.tasks[me];
    t.st = St::Sleep;
    t.deadline = dl;
    forced(false);
    let s = sim();
    s.tasks[me].timed_out = false;
    s.tasks[me].deadline = u64::MAX;
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    if on_task() {
        sim_sleep((*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64);
        return 0;
    }
    ret(raw(libc::SYS_nanosleep, req as i64, rem as i64, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(
    id: libc::clockid_t,
    flags: i32,
    req: *const libc::timespec,
    rem: *mut libc::timespec,
) -> i32 {
    if on_task() {
        let ns = (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
        let now = sim().now;
        sim_sleep(if flags & libc::TIMER_ABSTIME != 0 {
            ns.saturating_sub(now)
        } else {
            ns
        });
        return 0;
    }
    -(raw(libc::SYS_clock_nanosleep, id as i64, flags as i64, req as i64, rem as i64, 0, 0) as i32)
}

struct Start {
    start: StartFn,
    arg: *mut libc::c_void,
    id: usize,
}

extern "C" fn trampoline(p: *mut libc::c_void) -> *mut libc::c_void {
    unsafe {
        let b = Box::from_raw(p as *mut Start);
        let (start, arg, id) = (b.start, b.arg, b.id);
        TID.with(|t| t.set(id));
        // the task list is not touched before the gate opens: only the token holder may
        let gate = START_GATES[id];
        gate_wait(&*gate);
        drop(b);
        libc::pthread_setspecific(EXIT_KEY, (id + 1) as *const libc::c_void);
        start(arg)
    }
}

const MAX_TASKS: usize = 512;
static mut START_GATES: [*const AtomicU32; MAX_TASKS] = [std::ptr::null(); MAX_TASKS];

/// Runs after all thread-local destructors of an ending thread.
unsafe extern "C" fn exit_dtor(p: *mut libc::c_void) {
    let id = p as usize - 1;
    if !ACTIVE || id == 0 {
        return;
    }
    let s = sim();
    s.tasks[id].st = St::Exited;
    for i in 0..s.tasks.len() {
        if s.tasks[i].st == St::Join(id) {
            s.tasks[i].st = St::Runnable;
        }
    }
    STEP += 1;
    let c = candidates(s, id, true);
    let default = match c.iter().find(|&&i| i > id).or(c.first()) {
        Some(&d) => d,
        None => {
            // only timed waiters (or nobody) left
            match (0..s.tasks.len()).filter(|&i| s.tasks[i].deadline != u64::MAX).min_by_key(|&i| s.tasks[i].deadline) {
                Some(i) => {
                    s.now = s.now.max(s.tasks[i].deadline);
                    s.tasks[i].deadline = u64::MAX;
                    s.tasks[i].timed_out = true;
                    s.tasks[i].st = St::Runnable;
                    i
                }
                None => {
                    shared().add_message("deadlock: no task can run after a thread ended\n");
                    finish(2)
                }
            }
        }
    };
    s.cur = default;
    TID.with(|t| t.set(usize::MAX));
    gate_open(&s.tasks[default].gate);
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    th: *mut libc::pthread_t,
    attr: *const libc::pthread_attr_t,
    start: StartFn,
    arg: *mut libc::c_void,
) -> i32 {
    let real = match REAL_CREATE {
        Some(r) => r,
        None => std::mem::transmute::<*mut libc::c_void, PthreadCreate>(libc::dlsym(
            libc::RTLD_NEXT,
            c"pthread_create".as_ptr(),
        )),
    };
    if !on_task() {
        return real(th, attr, start, arg);
    }
    let s = sim();
    if s.tasks.len() >= MAX_TASKS {
        return libc::EAGAIN;
    }
    let id = new_task(s);
    START_GATES[id] = &s.tasks[id].gate;
    let b = Box::into_raw(Box::new(Start { start, arg, id }));
    let r = real(th, attr, trampoline, b as *mut libc::c_void);
    if r != 0 {
        s.tasks[id].st = St::Exited;
        drop(Box::from_raw(b));
        return r;
    }
    s.tasks[id].thread = *th;
    yield_point(false);
    0
}

#[no_mangle]
pub unsafe extern "C" fn pthread_join(th: libc::pthread_t, ret: *mut *mut libc::c_void) -> i32 {
    let real = match REAL_JOIN {
        Some(r) => r,
        None => std::mem::transmute::<*mut libc::c_void, PthreadJoin>(libc::dlsym(
            libc::RTLD_NEXT,
            c"pthread_join".as_ptr(),
        )),
    };
    if on_task() {
        let s = sim();
        if let Some(id) = (0..s.tasks.len()).rev().find(|&i| s.tasks[i].thread == th) {
            while sim().tasks[id].st != St::Exited {
                let s = sim();
                let me = s.cur;
                s.tasks[me].st = St::Join(id);
                s.tasks[me].spinning = false;
                forced(false);
            }
        }
    }
    real(th, ret)
}

// ---------------------------------------------------------------------------------------------
// Process control for the shards

pub enum Child {
    Done,
    Signal(i32),
    Timeout,
}

/// Forks; the child runs `f` as a fresh simulated process. Waits at most `wall_s` seconds of real time
/// (CPU time is what is limited, so that a loaded machine does not matter).
pub fn in_child<F: FnOnce()>(cpu_s: u64, f: F) -> Child {
    unsafe {
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            let lim = libc::rlimit { rlim_cur: cpu_s, rlim_max: cpu_s + 2 };
            libc::setrlimit(libc::RLIMIT_CPU, &lim);
            let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &core);
            f();
            libc::_exit(0);
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        if libc::WIFSIGNALED(st) {
            let sig = libc::WTERMSIG(st);
            if sig == libc::SIGXCPU || sig == libc::SIGKILL {
                Child::Timeout
            } else {
                Child::Signal(sig)
            }
        } else {
            Child::Done
        }
    }
}

pub fn pin(core: usize) {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, std::mem::size_of_val(&set), &mut set) != 0 {
            return;
        }
        let cpus: Vec<usize> = (0..1024).filter(|&i| libc::CPU_ISSET(i, &set)).collect();
        if cpus.is_empty() {
            return;
        }
        let mut one: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(cpus[core % cpus.len()], &mut one);
        libc::sched_setaffinity(0, std::mem::size_of_val(&one), &one);
    }
}

pub fn cpus() -> usize {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, std::mem::size_of_val(&set), &mut set) != 0 {
            return 4;
        }
        (0..1024).filter(|&i| libc::CPU_ISSET(i, &set)).count().clamp(1, 64)
    }
}
