//! Simulation runtime: scheduler, allocator, clock/entropy/environment/futex seams.
//!
//! Everything in here runs in a process that was forked for one simulated run.  Real OS threads
//! are used, but exactly one of them (the holder of the token, `RT.current`) runs at any time;
//! who runs next is decided here and nowhere else.
#![feature(alloc_error_hook)]
#![allow(unknown_lints, static_mut_refs, invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions)]
#![allow(clippy::missing_safety_doc)]

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU32, Ordering};

pub mod rng;
pub mod sys;
use rng::Rng;

pub const MAXT: usize = 72;
pub const ARENA_BASE: usize = 0x2000_0000_0000;
pub const ARENA_SIZE: usize = 1 << 31;
const SHADOW_BASE: usize = 0x2100_0000_0000;
const SHADOW_SIZE: usize = ARENA_SIZE / 16;
/// For the harness: what library code is given to read.
pub const LENT_BASE: usize = 0x2200_0000_0000;
pub const LENT_SIZE: usize = 40 << 20;

// ---------------------------------------------------------------- point classes
pub const P_EDGE: u32 = 0;
pub const P_LOAD: u32 = 1;
pub const P_STORE: u32 = 2;
pub const P_ALLOC: u32 = 3;
pub const P_CONV: u32 = 4;
pub const P_SYS: u32 = 5;

/// A thread that never blocks is preempted at least this often (points).
const FAIR: u64 = 3_000_000;
pub const MAX_EVENTS: usize = 1 << 16;

/// State that survives the death of the process: lives in memory shared with the parent.
#[repr(C)]
pub struct Shared {
    pub thr: u32,
    pub op: u32,
    /// Faults fired in the operation named by (thr, op).
    pub fired: u32,
    pub in_solo: u32,
    pub nev: u32,
    pub n_total: u64,
    pub ev: [Ev; MAX_EVENTS],
    pub cov: [u8; sys::COV_LEN],
    pub pairs: [u8; sys::PAIR_BITS / 8],
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum St {
    Unused,
    Runnable,
    Futex { addr: usize, deadline: u64 },
    Sleep { deadline: u64 },
    Join { who: usize },
    Stalled,
    Done,
}

/// What kind of scheduling decision an event records.
#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub enum EvKind {
    /// Preemption of a running thread at a point inside a call.
    Preempt,
    /// Suspension of a running thread until every other thread has finished.
    Stall,
    /// Choice at the boundary between two operations of a thread.
    Boundary,
    /// Choice of the successor of a thread that blocked or finished.
    Forced,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(C)]
pub struct Ev {
    pub thr: u32,
    pub op: u32,
    pub n: u64,
    pub kind: EvKind,
    pub to: u32,
}

/// How preemption points are chosen while searching.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Strategy {
    /// Only between operations.
    Boundary,
    /// Geometrically distributed slices with this mean (in points).
    Slices { mean: u64 },
    /// At allocations, conversions and system calls with probability num/256.
    Alloc { num: u32 },
    /// At accesses to writable statics, thread-locals reached from two threads, or heap blocks
    /// touched by two threads, with probability num/256; elsewhere rarely.
    Shared { num: u32 },
}

#[derive(Clone, Debug)]
pub enum Mode {
    Search { strategy: Strategy, boundary_num: u32, stall_hazard: u64, max_stalls: u32, max_switches: u32 },
    Replay { events: BTreeMap<(u32, u32, u64, EvKind), u32> },
}

pub struct Tcb {
    pub st: St,
    sem: AtomicU32,
    /// >0 while library code is on top of this thread's stack.
    pub sut: u32,
    /// >0: points are counted but neither preempt nor fail (verification calls).
    pub quiet: u32,
    pub op: u32,
    pub op_points: u64,
    /// Absolute value of `op_points` at which the current call counts as not progressing.
    pub lim: u64,
    pub quiet_points: u64,
    next: u64,
    pub last_guard: u32,
    // allocation faults of the current operation
    pub allocs: u32,
    pub fail: [(u32, u32); 4],
    pub nfail: usize,
    pub fails_fired: u32,
    pub panics: u32,
    pub panic_msg: [u8; 240],
    pub panic_len: usize,
    pub stalled_once: bool,
    wake_timeout: bool,
    pthread: usize,
    pub ambient: u32,
}

const TCB0: Tcb = Tcb {
    st: St::Unused,
    sem: AtomicU32::new(0),
    sut: 0,
    quiet: 0,
    op: 0,
    op_points: 0,
    lim: u64::MAX,
    quiet_points: 0,
    next: u64::MAX,
    last_guard: 0,
    allocs: 0,
    fail: [(0, 0); 4],
    nfail: 0,
    fails_fired: 0,
    panics: 0,
    panic_msg: [0; 240],
    panic_len: 0,
    stalled_once: false,
    wake_timeout: false,
    pthread: 0,
    ambient: 0,
};

#[derive(Clone, Copy, Default, Debug)]
pub struct Stats {
    pub points: u64,
    /// Steps of the longest operation.
    pub longest: u64,
    pub switches: u64,
    pub preempts_in_call: u64,
    pub stalls: u64,
    pub stalled_resumed: u64,
    pub alloc_fails: u64,
    pub allocs: u64,
    pub frees: u64,
    pub addr_reuses: u64,
    pub shared_accesses: u64,
    pub static_accesses: u64,
    pub futex_waits: u64,
    pub futex_wakes: u64,
    pub clock_reads: u64,
    pub clock_jumps: u64,
    pub entropy_reads: u64,
    pub env_reads: u64,
    pub ambient_io: u64,
    pub threads_spawned_by_sut: u64,
}

pub struct Rt {
    pub on: bool,
    pub t: [Tcb; MAXT],
    pub n: usize,
    pub current: usize,
    main_sem: AtomicU32,
    pub mode: Option<Mode>,
    strat: u32, // 0 none, 1 slices, 2 alloc, 3 shared, 4 replay
    num: u32,
    mean: u64,
    boundary_num: u32,
    stall_hazard: u64,
    max_stalls: u32,
    max_switches: u32,
    pub sched_rng: Rng,
    pub env_rng: Rng,
    pub trace_hash: u64,
    pub clock: u64,
    pub clock_jump_num: u32,
    pub env_mode: u32,
    pub env_vals: &'static [Vec<u8>],
    pub reuse: u32,
    pub poison: u8,
    pub shadow: bool,
    pub live: usize,
    pub live_blocks: usize,
    pub peak: usize,
    bump: usize,
    bins: [usize; 96],
    pub stats: Stats,
    pub op_limit: u64,
    pub fatal: Option<fn(&str, &str) -> !>,
    data_lo: usize,
    data_hi: usize,
    pub first_ambient: [u8; 64],
    pub first_ambient_len: usize,
    pub io_errno: i32,
    pub shared: *mut Shared,
    pub phase: u32,
}

pub static mut RT: Rt = Rt {
    on: false,
    t: [TCB0; MAXT],
    n: 0,
    current: usize::MAX,
    main_sem: AtomicU32::new(0),
    mode: None,
    strat: 0,
    num: 0,
    mean: 0,
    boundary_num: 0,
    stall_hazard: 0,
    max_stalls: 0,
    max_switches: 0,
    sched_rng: Rng::zero(),
    env_rng: Rng::zero(),
    trace_hash: 0xcbf29ce484222325,
    clock: 1_700_000_000_000_000_000,
    clock_jump_num: 0,
    env_mode: 0,
    env_vals: &[],
    reuse: 0,
    poison: 0,
    shadow: false,
    live: 0,
    live_blocks: 0,
    peak: 0,
    bump: ARENA_BASE,
    bins: [0; 96],
    stats: Stats {
        points: 0,
        longest: 0,
        switches: 0,
        preempts_in_call: 0,
        stalls: 0,
        stalled_resumed: 0,
        alloc_fails: 0,
        allocs: 0,
        frees: 0,
        addr_reuses: 0,
        shared_accesses: 0,
        static_accesses: 0,
        futex_waits: 0,
        futex_wakes: 0,
        clock_reads: 0,
        clock_jumps: 0,
        entropy_reads: 0,
        env_reads: 0,
        ambient_io: 0,
        threads_spawned_by_sut: 0,
    },
    op_limit: 400_000_000,
    fatal: None,
    data_lo: 0,
    data_hi: 0,
    first_ambient: [0; 64],
    first_ambient_len: 0,
    io_errno: 13,
    shared: std::ptr::null_mut(),
    phase: 0,
};

thread_local! {
    static CUR: Cell<usize> = const { Cell::new(0) };
    static FIN: Fin = const { Fin };
}

/// Registered before any other thread-local of a simulated thread, so that its destructor runs
/// after those of the code under test: the thread keeps the token until its last destructor ran.
struct Fin;
impl Drop for Fin {
    fn drop(&mut self) {
        thread_done();
    }
}

#[inline(always)]
pub fn me() -> Option<usize> {
    let c = CUR.get();
    if c == 0 {
        None
    } else {
        Some(c - 1)
    }
}

#[inline(always)]
pub fn rt() -> &'static mut Rt {
    unsafe { &mut *std::ptr::addr_of_mut!(RT) }
}

fn die(class: &str, msg: &str) -> ! {
    if let Some(t) = me() {
        rt().t[t].sut = 0;
    }
    match rt().fatal {
        Some(f) => f(class, msg),
        None => sys::exit_group(99),
    }
}

// ---------------------------------------------------------------- semaphores (raw futexes)
fn sem_wait(s: &AtomicU32) {
    loop {
        if s.swap(0, Ordering::Acquire) == 1 {
            return;
        }
        unsafe { sys::raw(202, s as *const _ as usize, 128, 0, 0, 0, 0) };
    }
}
fn sem_post(s: &AtomicU32) {
    s.store(1, Ordering::Release);
    unsafe { sys::raw(202, s as *const _ as usize, 129, 1, 0, 0, 0) };
}

// ---------------------------------------------------------------- preemption points
#[inline(always)]
pub fn point(class: u32, addr: usize) {
    let c = CUR.get();
    if c == 0 {
        return;
    }
    let r = rt();
    let t = &mut r.t[c - 1];
    if t.sut == 0 {
        return;
    }
    hot(r, c - 1, class, addr);
}

#[inline(always)]
fn hot(r: &mut Rt, me: usize, class: u32, addr: usize) {
    let t = &mut r.t[me];
    r.stats.points += 1;
    if t.quiet != 0 {
        t.quiet_points += 1;
        if t.quiet_points > r.op_limit {
            t.sut = 0;
            die("no-progress", "step budget of a verification call exhausted");
        }
        return;
    }
    t.op_points += 1;
    if t.op_points >= t.next {
        return slow(r, me, class);
    }
    if r.shadow && (class == P_LOAD || class == P_STORE) {
        shared_access(r, me, class, addr);
    } else if class >= P_ALLOC {
        slow_alloc(r, me, class);
    }
}

#[cold]
#[inline(never)]
fn slow_alloc(r: &mut Rt, me: usize, class: u32) {
    if (r.strat == 2 || r.strat == 3) && r.t[me].op_points < r.t[me].next {
        let num = if r.strat == 2 { r.num } else { 4 };
        if r.sched_rng.below(256) < num as u64 {
            decide(r, me, class);
        }
    }
}

#[inline(never)]
fn shared_access(r: &mut Rt, me: usize, class: u32, addr: usize) {
    let hit = if addr >= ARENA_BASE && addr < ARENA_BASE + ARENA_SIZE {
        let s = (SHADOW_BASE + (addr - ARENA_BASE) / 16) as *mut u8;
        unsafe {
            let v = *s;
            if v == me as u8 + 1 {
                false
            } else if v == 0 {
                *s = me as u8 + 1;
                false
            } else {
                if v != 0xff && class == P_STORE {
                    *s = 0xff;
                }
                r.stats.shared_accesses += 1;
                true
            }
        }
    } else if addr >= r.data_lo && addr < r.data_hi {
        r.stats.static_accesses += 1;
        true
    } else {
        false
    };
    if hit && r.strat == 3 && r.sched_rng.below(256) < r.num as u64 {
        decide(r, me, class);
    }
}

#[cold]
#[inline(never)]
fn slow(r: &mut Rt, me: usize, class: u32) {
    if r.t[me].op_points > r.t[me].lim {
        r.t[me].sut = 0;
        die("no-progress", &format!("operation {} did not finish within {} steps of its own", r.t[me].op, r.op_limit));
    }
    match r.strat {
        1 => {
            decide(r, me, class);
            let n = draw_slice(r);
            let t = &mut r.t[me];
            t.next = (t.op_points + n).min(t.lim + 1);
        }
        0 | 2 | 3 => {
            if r.t[me].op_points < r.t[me].lim {
                if let Some(to) = pick_other(r, me) {
                    switch(r, me, to, EvKind::Preempt);
                }
            }
            let t = &mut r.t[me];
            t.next = (t.op_points + FAIR).min(t.lim + 1);
        }
        4 => {
            replay_here(r, me);
            set_next_replay(r, me);
        }
        _ => {}
    }
}

fn draw_slice(r: &mut Rt) -> u64 {
    if r.max_switches == 0 && r.max_stalls == 0 {
        r.strat = 0; // nothing left to inject: fair preemption only
        return FAIR;
    }
    r.sched_rng.geometric(r.mean)
}

fn arm(r: &mut Rt, me: usize) {
    match r.strat {
        1 => {
            let n = draw_slice(r);
            let t = &mut r.t[me];
            t.next = (t.op_points + n).min(t.lim + 1);
        }
        4 => set_next_replay(r, me),
        _ => {
            let t = &mut r.t[me];
            t.next = (t.op_points + FAIR).min(t.lim + 1);
        }
    }
}

fn set_next_replay(r: &mut Rt, me: usize) {
    let (op, n) = (r.t[me].op, r.t[me].op_points);
    let mut nx = r.t[me].lim + 1;
    if let Some(Mode::Replay { events }) = &r.mode {
        for (k, _) in events.range((me as u32, op, n + 1, EvKind::Preempt)..) {
            if k.0 != me as u32 || k.1 != op {
                break;
            }
            if k.3 == EvKind::Preempt || k.3 == EvKind::Stall {
                nx = k.2;
                break;
            }
        }
    }
    r.t[me].next = nx;
}

fn replay_here(r: &mut Rt, me: usize) {
    let (op, n) = (r.t[me].op, r.t[me].op_points);
    let mut act = None;
    if let Some(Mode::Replay { events }) = &r.mode {
        if let Some(to) = events.get(&(me as u32, op, n, EvKind::Preempt)) {
            act = Some((EvKind::Preempt, *to as usize));
        } else if let Some(to) = events.get(&(me as u32, op, n, EvKind::Stall)) {
            act = Some((EvKind::Stall, *to as usize));
        }
    }
    match act {
        Some((EvKind::Preempt, to)) => {
            if to < r.n && to != me && r.t[to].st == St::Runnable {
                switch(r, me, to, EvKind::Preempt);
            }
        }
        Some((EvKind::Stall, to)) => {
            let others = (0..r.n).any(|i| i != me && r.t[i].st == St::Runnable);
            if others {
                r.t[me].st = St::Stalled;
                r.t[me].stalled_once = true;
                r.stats.stalls += 1;
                let to = if to < r.n && r.t[to].st == St::Runnable { to } else { first_runnable(r).unwrap() };
                switch(r, me, to, EvKind::Stall);
            }
        }
        _ => {}
    }
}

fn first_runnable(r: &Rt) -> Option<usize> {
    (0..r.n).find(|&i| r.t[i].st == St::Runnable)
}

/// A preemption opportunity was selected by the search strategy: stall, switch or carry on.
#[cold]
#[inline(never)]
fn decide(r: &mut Rt, me: usize, _class: u32) {
    if r.max_stalls > 0 && !r.t[me].stalled_once && r.stall_hazard > 0 && r.sched_rng.below(r.stall_hazard) == 0 {
        // Never suspend the last thread that can run.
        let others: usize = (0..r.n).filter(|&i| i != me && r.t[i].st == St::Runnable).count();
        if others > 0 {
            r.max_stalls -= 1;
            r.t[me].st = St::Stalled;
            r.t[me].stalled_once = true;
            r.stats.stalls += 1;
            let to = pick_other(r, me).unwrap();
            switch(r, me, to, EvKind::Stall);
            return;
        }
    }
    if r.max_switches == 0 {
        return;
    }
    if let Some(to) = pick_other(r, me) {
        r.max_switches -= 1;
        switch(r, me, to, EvKind::Preempt);
    }
}

fn pick_other(r: &mut Rt, me: usize) -> Option<usize> {
    let mut c = [0usize; MAXT];
    let mut k = 0;
    for i in 0..r.n {
        if i != me && r.t[i].st == St::Runnable {
            c[k] = i;
            k += 1;
        }
    }
    if k == 0 {
        None
    } else {
        Some(c[r.sched_rng.below(k as u64) as usize])
    }
}

fn log_event(r: &mut Rt, e: Ev, guard: u32) {
    for v in [e.thr as u64, guard as u64, e.n, e.kind as u64, e.to as u64] {
        r.trace_hash = (r.trace_hash ^ v).wrapping_mul(0x100000001b3);
    }
    if !r.shared.is_null() {
        let sh = unsafe { &mut *r.shared };
        let k = sh.nev as usize;
        if k < MAX_EVENTS {
            sh.ev[k] = e;
            sh.nev += 1;
        }
        sh.n_total += 1;
    }
}

pub fn events() -> Vec<Ev> {
    let sh = unsafe { &*rt().shared };
    sh.ev[..sh.nev as usize].to_vec()
}

pub fn mix_trace(v: u64) {
    let r = rt();
    r.trace_hash = (r.trace_hash ^ v).wrapping_mul(0x100000001b3);
}

/// Passes the token from `me` to `to` and waits until it comes back.
fn switch(r: &mut Rt, me: usize, to: usize, kind: EvKind) {
    let s = r.t[me].sut;
    r.t[me].sut = 0; // bookkeeping below allocates outside the arena
    let e = Ev { thr: me as u32, op: r.t[me].op, n: r.t[me].op_points, kind, to: to as u32 };
    let g = r.t[me].last_guard;
    log_event(r, e, g);
    r.stats.switches += 1;
    if kind == EvKind::Preempt {
        r.stats.preempts_in_call += 1;
    }
    sys::mark_pair(g, r.t[to].last_guard, r.t[to].op);
    r.t[me].sut = s;
    hand_over(r, me, to);
}

fn hand_over(r: &mut Rt, me: usize, to: usize) {
    r.current = to;
    sem_post(&r.t[to].sem);
    sem_wait(&rt().t[me].sem);
    crumb(rt(), me);
}

/// Chooses the next thread when the current one cannot continue.
fn pick_forced(r: &mut Rt, me: usize) -> Option<usize> {
    loop {
        let any = (0..r.n).any(|i| r.t[i].st == St::Runnable);
        if any {
            if let Some(Mode::Replay { events }) = &r.mode {
                let key = (me as u32, r.t[me].op, r.t[me].op_points, EvKind::Forced);
                if let Some(&to) = events.get(&key) {
                    if (to as usize) < r.n && r.t[to as usize].st == St::Runnable {
                        return Some(to as usize);
                    }
                }
                return first_runnable(r);
            }
            return pick_other(r, usize::MAX);
        }
        // Time passes only when nothing can run: jump to the earliest deadline.
        let mut best: Option<(u64, usize)> = None;
        for i in 0..r.n {
            let d = match r.t[i].st {
                St::Futex { deadline, .. } if deadline != u64::MAX => deadline,
                St::Sleep { deadline } => deadline,
                _ => continue,
            };
            if best.is_none() || d < best.unwrap().0 {
                best = Some((d, i));
            }
        }
        if let Some((d, i)) = best {
            r.clock = r.clock.max(d);
            r.t[i].wake_timeout = true;
            r.t[i].st = St::Runnable;
            continue;
        }
        let blocked = (0..r.n).find(|&i| matches!(r.t[i].st, St::Futex { .. } | St::Join { .. }));
        let stalled = (0..r.n).any(|i| r.t[i].st == St::Stalled);
        if let Some(b) = blocked {
            let m = format!(
                "thread {} is blocked in operation {} {}",
                b,
                r.t[b].op,
                if stalled { "behind a suspended thread" } else { "and nothing can wake it" }
            );
            die(if stalled { "blocked-behind-stalled" } else { "deadlock" }, &m);
        }
        if stalled {
            for i in 0..r.n {
                if r.t[i].st == St::Stalled {
                    r.t[i].st = St::Runnable;
                    r.stats.stalled_resumed += 1;
                }
            }
            continue;
        }
        return None;
    }
}

fn block(r: &mut Rt, me: usize, st: St) {
    r.t[me].st = st;
    r.t[me].wake_timeout = false;
    let to = pick_forced(r, me);
    match to {
        Some(to) if to == me => {}
        Some(to) => switch(r, me, to, EvKind::Forced),
        None => die("deadlock", "no thread left"),
    }
}

/// Called between operations: an opportunity to switch that is not inside any call.
pub fn op_begin(op: u32) {
    let m = me().unwrap();
    let r = rt();
    {
        let t = &mut r.t[m];
        t.op = op;
        t.op_points = 0;
        t.lim = u64::MAX;
        t.allocs = 0;
        t.nfail = 0;
        t.fails_fired = 0;
        t.next = u64::MAX;
    }
    if r.strat == 4 {
        if let Some(Mode::Replay { events }) = &r.mode {
            if let Some(&to) = events.get(&(m as u32, op, 0, EvKind::Boundary)) {
                let to = to as usize;
                if to < r.n && to != m && r.t[to].st == St::Runnable {
                    switch(r, m, to, EvKind::Boundary);
                }
            }
        }
    } else if r.boundary_num > 0 && r.sched_rng.below(256) < r.boundary_num as u64 {
        if let Some(to) = pick_other(r, m) {
            switch(r, m, to, EvKind::Boundary);
        }
    }
    let r = rt();
    r.t[m].lim = r.op_limit;
    crumb(r, m);
    arm(r, m);
}

fn crumb(r: &mut Rt, m: usize) {
    if !r.shared.is_null() {
        let sh = unsafe { &mut *r.shared };
        sh.thr = m as u32;
        sh.op = r.t[m].op;
        sh.fired = r.t[m].fails_fired;
    }
}

/// A new call begins inside the current operation: it gets a full step budget.
pub fn renew_budget() {
    let m = me().unwrap();
    let r = rt();
    let l = r.t[m].op_points + r.op_limit;
    r.t[m].lim = l;
    if r.t[m].next != u64::MAX {
        r.t[m].next = r.t[m].next.min(l + 1).max(r.t[m].op_points + 1);
    }
}

/// Counts a fault of the harness' own making (panicking conversion, failing sink, ...).
pub fn fault_fired() {
    let m = me().unwrap();
    let r = rt();
    r.t[m].fails_fired += 1;
    crumb(r, m);
}

pub fn op_end() {
    let m = me().unwrap();
    let r = rt();
    r.stats.longest = r.stats.longest.max(r.t[m].op_points);
    let t = &mut r.t[m];
    t.nfail = 0;
    t.next = u64::MAX;
}

pub fn set_alloc_faults(f: &[(u32, u32)]) {
    let m = me().unwrap();
    let t = &mut rt().t[m];
    t.nfail = f.len().min(4);
    t.allocs = 0;
    t.fails_fired = 0;
    t.fail[..t.nfail].copy_from_slice(&f[..t.nfail]);
}
pub fn clear_alloc_faults() -> u32 {
    let m = me().unwrap();
    let t = &mut rt().t[m];
    t.nfail = 0;
    t.fails_fired
}

/// Runs `f` as library code of the current simulated thread.
pub fn sut<R>(f: impl FnOnce() -> R) -> R {
    struct G(usize);
    impl Drop for G {
        fn drop(&mut self) {
            rt().t[self.0].sut -= 1;
        }
    }
    let m = me().expect("sut outside a simulated thread");
    rt().t[m].sut += 1;
    let _g = G(m);
    f()
}

/// Runs `f` as harness code in the middle of library code (conversions, sinks).
pub fn host<R>(f: impl FnOnce() -> R) -> R {
    struct G(usize, u32);
    impl Drop for G {
        fn drop(&mut self) {
            rt().t[self.0].sut = self.1;
        }
    }
    match me() {
        None => f(),
        Some(m) => {
            let s = rt().t[m].sut;
            rt().t[m].sut = 0;
            let _g = G(m, s);
            f()
        }
    }
}

pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
    struct G(usize);
    impl Drop for G {
        fn drop(&mut self) {
            rt().t[self.0].quiet -= 1;
        }
    }
    let m = me().expect("quiet outside a simulated thread");
    rt().t[m].quiet += 1;
    rt().t[m].quiet_points = 0;
    let _g = G(m);
    f()
}

fn thread_done() {
    let Some(m) = me() else { return };
    let r = rt();
    r.t[m].sut = 0;
    r.t[m].st = St::Done;
    for i in 0..r.n {
        if r.t[i].st == (St::Join { who: m }) {
            r.t[i].st = St::Runnable;
        }
    }
    r.t[m].op = u32::MAX - r.phase;
    match pick_forced(r, m) {
        Some(to) => {
            let e = Ev { thr: m as u32, op: u32::MAX - r.phase, n: r.t[m].op_points, kind: EvKind::Forced, to: to as u32 };
            log_event(r, e, 0);
            r.current = to;
            CUR.set(0);
            sem_post(&r.t[to].sem);
        }
        None => {
            CUR.set(0);
            sem_post(&r.main_sem);
        }
    }
}

pub struct Config {
    pub mode: Mode,
    pub seed: u64,
    pub reuse: u32,
    pub poison: u8,
    pub clock_jump_num: u32,
    /// 0: no variable is set; 1: every variable has the first value; 2: each read gets one of them or none.
    pub env_mode: u32,
    pub env_vals: Vec<String>,
    pub io_errno: i32,
    pub op_limit: u64,
    pub fatal: fn(&str, &str) -> !,
    pub shared: *mut Shared,
}

extern "C" {
    static __data_start: u8;
    static _end: u8;
}

/// Prepares the process for one run.  Called once per process, before any library code.
pub fn setup(c: Config) {
    let r = rt();
    unsafe {
        let a = sys::mmap_fixed(ARENA_BASE, ARENA_SIZE);
        let b = sys::mmap_fixed(SHADOW_BASE, SHADOW_SIZE);
        let l = sys::mmap_fixed(LENT_BASE, LENT_SIZE);
        if !a || !b || !l {
            eprintln!("simrt: cannot map the arena");
            sys::exit_group(98);
        }
        r.data_lo = std::ptr::addr_of!(__data_start) as usize;
        r.data_hi = std::ptr::addr_of!(_end) as usize;
    }
    r.sched_rng = Rng::new(c.seed ^ 0x5c4e_d01e);
    r.env_rng = Rng::new(c.seed ^ 0xe17_70b1);
    r.reuse = c.reuse;
    r.poison = c.poison;
    r.clock_jump_num = c.clock_jump_num;
    r.env_mode = c.env_mode;
    r.env_vals = unsafe { sys::set_env(c.env_vals, c.env_mode) };
    r.io_errno = c.io_errno;
    r.op_limit = c.op_limit;
    r.fatal = Some(c.fatal);
    r.shared = c.shared;
    unsafe { sys::trap_tsc() };
    unsafe { sys::set_cov((*c.shared).cov.as_mut_ptr(), (*c.shared).pairs.as_mut_ptr()) };
    match &c.mode {
        Mode::Search { strategy, boundary_num, stall_hazard, max_stalls, max_switches } => {
            r.boundary_num = *boundary_num;
            r.stall_hazard = *stall_hazard;
            r.max_stalls = *max_stalls;
            r.max_switches = *max_switches;
            match *strategy {
                Strategy::Boundary => r.strat = 0,
                Strategy::Slices { mean } => {
                    r.strat = 1;
                    r.mean = mean.max(1);
                }
                Strategy::Alloc { num } => {
                    r.strat = 2;
                    r.num = num;
                }
                Strategy::Shared { num } => {
                    r.strat = 3;
                    r.num = num;
                }
            }
        }
        Mode::Replay { .. } => r.strat = 4,
    }
    r.shadow = r.strat == 3;
    r.mode = Some(c.mode);
    std::alloc::set_alloc_error_hook(oom_hook);
    std::panic::set_hook(Box::new(|info| {
        if let Some(m) = me() {
            host(|| {
                let p = info.payload();
                let s = if let Some(s) = p.downcast_ref::<&str>() {
                    s.to_string()
                } else if let Some(s) = p.downcast_ref::<String>() {
                    s.clone()
                } else {
                    "?".into()
                };
                let loc = info
                    .location()
                    .map(|l| format!("{}:{}", l.file().rsplit("/").take(3).collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().join("/"), l.line()))
                    .unwrap_or_default();
                let full = format!("{s} at {loc}");
                let t = &mut rt().t[m];
                t.panics += 1;
                let b = full.as_bytes();
                let n = b.len().min(t.panic_msg.len());
                t.panic_msg[..n].copy_from_slice(&b[..n]);
                t.panic_len = n;
            })
        } else {
            sys::write_err(&format!("harness panic: {info}\n"));
        }
    }));
    r.on = true;
}

pub fn last_panic(m: usize) -> String {
    let t = &rt().t[m];
    String::from_utf8_lossy(&t.panic_msg[..t.panic_len]).into_owned()
}

/// Payload of the unwinding that stands for a program surviving an allocation failure.
pub struct OomUnwind;

fn oom_hook(_l: Layout) {
    if me().is_some() {
        let p: Box<OomUnwind> = Box::new(OomUnwind);
        std::panic::resume_unwind(p);
    }
}

/// Runs `f` as the only simulated thread, on the calling thread.
pub fn run_inline(f: impl FnOnce()) {
    let r = rt();
    r.t[0] = TCB0;
    r.t[0].st = St::Runnable;
    r.n = 1;
    r.current = 0;
    CUR.set(1);
    f();
    CUR.set(0);
}

/// What the caller calls its threads is made up like the environment.
fn named(i: usize) -> std::thread::Builder {
    let r = rt();
    let b = std::thread::Builder::new();
    let n = r.env_vals.len();
    if r.env_mode == 0 || n == 0 || i > n {
        return b;
    }
    let v = &r.env_vals[i % n];
    b.name(String::from_utf8_lossy(&v[..v.len() - 1]).into_owned())
}

/// Runs the simulated threads to completion under the scheduler.  May be called again for a
/// further phase.
pub fn run_threads(phase: u32, bodies: Vec<Box<dyn FnOnce() + Send>>) {
    let n = bodies.len();
    let r = rt();
    r.n = n;
    r.phase = phase;
    for t in r.t.iter_mut() {
        *t = TCB0;
    }
    let mut hs = vec![];
    for (i, b) in bodies.into_iter().enumerate() {
        r.t[i].st = St::Runnable;
        hs.push(
            named(i)
                .stack_size(4 << 20)
                .spawn(move || {
                    CUR.set(i + 1);
                    FIN.with(|_| ());
                    // One at a time until here: start-up code of std takes real locks.
                    sem_post(&rt().main_sem);
                    sem_wait(&rt().t[i].sem);
                    b();
                })
                .expect("spawn"),
        );
        sem_wait(&rt().main_sem);
    }
    let first = match &r.mode {
        Some(Mode::Replay { events }) => events.get(&(u32::MAX, phase, 0, EvKind::Boundary)).map(|&x| x as usize).filter(|&x| x < n).unwrap_or(0),
        _ => r.sched_rng.below(n as u64) as usize,
    };
    log_event(r, Ev { thr: u32::MAX, op: phase, n: 0, kind: EvKind::Boundary, to: first as u32 }, 0);
    r.current = first;
    sem_post(&r.t[first].sem);
    sem_wait(&rt().main_sem);
    for h in hs {
        let _ = h.join();
    }
}

// ---------------------------------------------------------------- allocator
pub struct SimAlloc;

fn class_of(size: usize) -> usize {
    if size <= 1024 {
        (size.max(1) + 15) / 16 // 1..=64
    } else {
        64 + (usize::BITS - (size - 1).leading_zeros()) as usize - 10 // 2048 -> 65 ...
    }
}
fn class_size(c: usize) -> usize {
    if c <= 64 {
        c * 16
    } else {
        1 << (c - 64 + 10)
    }
}

#[inline]
fn in_arena(p: usize) -> bool {
    (ARENA_BASE..ARENA_BASE + ARENA_SIZE).contains(&p)
}

unsafe fn sim_alloc(size: usize) -> *mut u8 {
    let m = CUR.get() - 1;
    point(P_ALLOC, 0);
    let r = rt();
    r.stats.allocs += 1;
    {
        let t = &mut r.t[m];
        if t.quiet == 0 {
            t.allocs += 1;
            if t.nfail > 0 {
                let k = t.allocs;
                let hit = t.fail[..t.nfail].iter().any(|&(s, l)| k >= s && (k - s) < l);
                if hit && !std::thread::panicking() {
                    t.fails_fired += 1;
                    r.stats.alloc_fails += 1;
                    crumb(r, m);
                    return std::ptr::null_mut();
                }
            }
        }
    }
    if size > ARENA_SIZE / 8 {
        return std::ptr::null_mut();
    }
    let c = class_of(size);
    let sz = class_size(c);
    let head = r.bins[c];
    let p;
    if head != 0 {
        let mut take = head;
        let next = *((head - 8) as *const usize);
        if r.reuse == 2 && next != 0 && r.env_rng.below(2) == 0 {
            take = next;
            let nn = *((next - 8) as *const usize);
            *((head - 8) as *mut usize) = nn;
        } else {
            r.bins[c] = next;
        }
        r.stats.addr_reuses += 1;
        p = take;
    } else {
        p = r.bump + 16;
        let end = p + sz;
        if end > ARENA_BASE + ARENA_SIZE {
            return std::ptr::null_mut();
        }
        r.bump = end;
    }
    *((p - 16) as *mut usize) = size;
    *((p - 8) as *mut usize) = 0;
    r.live += size;
    r.live_blocks += 1;
    r.peak = r.peak.max(r.live);
    if r.shadow {
        std::ptr::write_bytes((SHADOW_BASE + (p - ARENA_BASE) / 16) as *mut u8, 0, sz.div_ceil(16));
    }
    let fill = sz.min(1 << 16);
    std::ptr::write_bytes(p as *mut u8, r.poison, fill);
    p as *mut u8
}

unsafe fn sim_free(p: *mut u8) {
    point(P_ALLOC, 1);
    let r = rt();
    let a = p as usize;
    let size = *((a - 16) as *const usize);
    if size == usize::MAX {
        die("double-free", "a block was freed twice");
    }
    *((a - 16) as *mut usize) = usize::MAX;
    r.stats.frees += 1;
    r.live -= size;
    r.live_blocks -= 1;
    let c = class_of(size);
    std::ptr::write_bytes(p, 0xDD, class_size(c).min(1 << 12));
    // Policy 1 keeps addresses unique for the whole run (as long as there is room).
    if r.reuse != 1 || r.bump > ARENA_BASE + ARENA_SIZE / 2 {
        *((a - 8) as *mut usize) = r.bins[c];
        r.bins[c] = a;
    }
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let c = CUR.get();
        if c != 0 && rt().t[c - 1].sut > 0 && l.align() <= 16 {
            sim_alloc(l.size())
        } else {
            System.alloc(l)
        }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let c = CUR.get();
        if c != 0 && rt().t[c - 1].sut > 0 && l.align() <= 16 {
            let p = sim_alloc(l.size());
            if !p.is_null() {
                std::ptr::write_bytes(p, 0, l.size());
            }
            p
        } else {
            System.alloc_zeroed(l)
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if in_arena(p as usize) {
            sim_free(p)
        } else {
            System.dealloc(p, l)
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let c = CUR.get();
        let sim = c != 0 && rt().t[c - 1].sut > 0 && l.align() <= 16;
        if !sim && !in_arena(p as usize) {
            return System.realloc(p, l, n);
        }
        let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
        }
        q
    }
}

// ---------------------------------------------------------------- threads started by library code
type Start = unsafe extern "C" fn(*mut u8) -> *mut u8;
struct Spawn {
    idx: usize,
    f: Start,
    arg: *mut u8,
}
unsafe extern "C" fn trampoline(p: *mut u8) -> *mut u8 {
    let s = Box::from_raw(p as *mut Spawn);
    let (idx, f, arg) = (s.idx, s.f, s.arg);
    drop(s);
    CUR.set(idx + 1);
    FIN.with(|_| ());
    sem_wait(&rt().t[idx].sem);
    rt().t[idx].sut = 1;
    let v = f(arg);
    rt().t[idx].sut = 0;
    v
}

pub(crate) unsafe fn sut_pthread_create(out: *mut usize, attr: *const u8, f: Start, arg: *mut u8) -> i32 {
    let m = me().unwrap();
    let r = rt();
    if r.n >= MAXT {
        return 11;
    }
    let idx = r.n;
    let (op, fails) = (r.t[m].op, r.t[m].fails_fired);
    let b = host(|| Box::into_raw(Box::new(Spawn { idx, f, arg })) as *mut u8);
    r.t[idx] = TCB0;
    r.t[idx].st = St::Runnable;
    r.t[idx].op = op;
    r.t[idx].fails_fired = fails;
    let s = r.t[m].sut;
    r.t[m].sut = 0;
    let rc = sys::real_pthread_create(out, attr, trampoline, b);
    r.t[m].sut = s;
    if rc != 0 {
        r.t[idx].st = St::Unused;
        return rc;
    }
    r.n += 1;
    r.t[idx].pthread = *out;
    r.stats.threads_spawned_by_sut += 1;
    arm(r, idx);
    point(P_SYS, 0);
    0
}

pub(crate) unsafe fn sut_pthread_join(th: usize, ret: *mut *mut u8) -> i32 {
    let m = me().unwrap();
    let r = rt();
    if let Some(w) = (0..r.n).find(|&i| r.t[i].pthread == th && r.t[i].st != St::Unused) {
        r.t[m].op_points += 1;
        if r.t[w].st != St::Done {
            block(r, m, St::Join { who: w });
        }
    }
    sys::real_pthread_join(th, ret)
}

// ---------------------------------------------------------------- blocking system calls
pub(crate) unsafe fn sim_futex(addr: usize, op: i32, val: u32, timeout: *const [i64; 2]) -> Result<i64, i32> {
    let m = me().unwrap();
    let r = rt();
    r.t[m].op_points += 1;
    let cmd = op & 0x7f;
    match cmd {
        0 | 9 => {
            r.stats.futex_waits += 1;
            if (*(addr as *const AtomicU32)).load(Ordering::SeqCst) != val {
                return Err(11);
            }
            let deadline = if timeout.is_null() {
                u64::MAX
            } else {
                let d = ((*timeout)[0] as u64).saturating_mul(1_000_000_000).saturating_add((*timeout)[1] as u64);
                if cmd == 0 {
                    r.clock.saturating_add(d)
                } else {
                    d
                }
            };
            block(r, m, St::Futex { addr, deadline });
            if rt().t[m].wake_timeout {
                Err(110)
            } else {
                Ok(0)
            }
        }
        1 | 10 => {
            r.stats.futex_wakes += 1;
            let mut k = 0;
            for i in 0..r.n {
                if k < val as i64 {
                    if let St::Futex { addr: a, .. } = r.t[i].st {
                        if a == addr {
                            r.t[i].st = St::Runnable;
                            k += 1;
                        }
                    }
                }
            }
            Ok(k)
        }
        _ => Err(38),
    }
}

pub(crate) fn sim_sleep(ns: u64) {
    let m = me().unwrap();
    let r = rt();
    r.t[m].op_points += 1;
    let d = r.clock.saturating_add(ns);
    block(r, m, St::Sleep { deadline: d });
}

pub(crate) fn sim_yield() {
    let m = me().unwrap();
    let r = rt();
    r.t[m].op_points += 1;
    let to = match &r.mode {
        Some(Mode::Replay { events }) => events.get(&(m as u32, r.t[m].op, r.t[m].op_points, EvKind::Forced)).map(|&x| x as usize).filter(|&x| x < r.n && x != m && r.t[x].st == St::Runnable),
        _ => pick_other(r, m),
    };
    if let Some(to) = to {
        switch(r, m, to, EvKind::Forced);
    }
    if r.strat == 4 {
        set_next_replay(r, m);
    }
}

pub fn sim_clock() -> u64 {
    let r = rt();
    r.stats.clock_reads += 1;
    if r.clock_jump_num > 0 && r.env_rng.below(256) < r.clock_jump_num as u64 {
        r.stats.clock_jumps += 1;
        let mag = r.env_rng.below(45);
        let d = r.env_rng.below(1 << mag);
        if r.env_rng.below(4) == 0 {
            r.clock = r.clock.saturating_sub(d);
        } else {
            r.clock = r.clock.saturating_add(d);
        }
    } else {
        r.clock += 1000;
    }
    r.clock
}

/// Library code touched something outside the process's own memory.
pub fn ambient(what: &str) {
    let r = rt();
    r.stats.ambient_io += 1;
    if let Some(m) = me() {
        r.t[m].ambient += 1;
    }
    if r.first_ambient_len == 0 {
        let n = what.len().min(64);
        r.first_ambient[..n].copy_from_slice(&what.as_bytes()[..n]);
        r.first_ambient_len = n;
    }
}
