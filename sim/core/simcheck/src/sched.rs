//! Scheduler: real threads, of which exactly one runs at any time. It keeps the token until one of
//! its scheduling points (a basic block of the code under test, an allocation, a write, a lock
//! operation) is the next one in the explicit schedule, until it blocks or until it ends. What runs
//! when is a function of the schedule and the code alone.
use crate::engine;
use crate::interpose::{raw6, CLOCK_NS, SCHED_ON, TID};
use serde::{Deserialize, Serialize};
use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicI32, AtomicU32, Ordering::*};

pub const BLOCK: u8 = 0; // any basic block
pub const NOVEL: u8 = 1; // a basic block reached for the first time in this run
pub const ALLOC: u8 = 2; // an allocation or deallocation
pub const SYNC: u8 = 3; // a write, lock operation or entropy request
pub const RARE: u8 = 4; // a basic block reached for at most the sixth time in this run
pub const CALL: u8 = 5; // the end of a call
pub const SITE: u8 = 6; // one of a few basic blocks, chosen by `site`
pub const ATOMIC: u8 = 7; // an atomic operation
pub const KINDS: usize = 8;

/// Preempt at the `after`-th point of `kind` since the last switch: 0 every point, 1 blocks reached
/// for the first time, 2 allocations, 3 writes and locks,
/// 4 blocks reached rarely, 5 ends of calls, 6 blocks of the `site`,
/// 7 atomic operations. Then run the `to`-th runnable thread.
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Switch {
    pub kind: u8,
    pub after: u64,
    pub to: u8,
    #[serde(default, skip_serializing_if = "is_zero")]
    pub site: u64,
}

fn is_zero(x: &u64) -> bool {
    *x == 0
}

impl Switch {
    /// One block of 16, 32, .. 256 belongs to a site
    fn at(&self, guard: u32) -> bool {
        guard != 0 && crate::rng::mix(guard as u64, self.site) % (16 << (self.site % 5)) == 0
    }
}

pub const MAX_THREADS: usize = 8;
const CONTROLLER: i32 = 100;
const FAIR: u64 = 3_000_000; // when the schedule is used up, switch after that many points

#[derive(Clone, Copy, PartialEq)]
enum State {
    Unused,
    Runnable,
    Blocked(usize, bool),
    Finished,
}

struct S {
    n: usize,
    state: [State; MAX_THREADS],
    schedule: Vec<Switch>,
    next: usize,
    count: u64,
    fair: u64,
    steps: u64,
    by_kind: [u64; KINDS],
    switches: u64,
    blocks: u64,
    trace: Vec<(u64, u8, u8, u32, u8)>,
    pair_hash: u64,
}
struct Cell0(UnsafeCell<S>);
unsafe impl Sync for Cell0 {} // only the holder of the token touches it
static SCHED: Cell0 = Cell0(UnsafeCell::new(S {
    n: 0,
    state: [State::Unused; MAX_THREADS],
    schedule: vec![],
    next: 0,
    count: 0,
    fair: 0,
    steps: 0,
    by_kind: [0; KINDS],
    switches: 0,
    blocks: 0,
    trace: vec![],
    pair_hash: 0,
}));
static CURRENT: AtomicI32 = AtomicI32::new(CONTROLLER);
static WORD: AtomicU32 = AtomicU32::new(0);

fn s() -> &'static mut S {
    unsafe { &mut *SCHED.0.get() }
}

fn kernel_wait(word: &AtomicU32, v: u32) {
    unsafe { raw6(libc::SYS_futex, word.as_ptr() as usize, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as usize, v as usize, 0, 0, 0) };
}
fn kernel_wake(word: &AtomicU32) {
    unsafe { raw6(libc::SYS_futex, word.as_ptr() as usize, (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as usize, i32::MAX as usize, 0, 0, 0) };
}

fn hand_to(who: i32) {
    CURRENT.store(who, SeqCst);
    WORD.fetch_add(1, SeqCst);
    kernel_wake(&WORD);
}
fn await_token(me: i32) {
    loop {
        let w = WORD.load(SeqCst);
        if CURRENT.load(SeqCst) == me {
            return;
        }
        kernel_wait(&WORD, w);
    }
}

fn runnable(s: &S) -> ([u8; MAX_THREADS], usize) {
    let mut list = [0u8; MAX_THREADS];
    let mut k = 0;
    for i in 0..s.n {
        if s.state[i] == State::Runnable {
            list[k] = i as u8;
            k += 1;
        }
    }
    (list, k)
}

fn switch_to(me: i32, target: i32, guard: u32, why: u8) {
    let s = s();
    s.switches += 1;
    s.count = 0;
    s.fair = 0;
    if s.trace.len() < s.trace.capacity() {
        s.trace.push((s.steps, me as u8, target as u8, guard, why));
    }
    s.pair_hash = crate::rng::mix(s.pair_hash ^ ((guard as u64) << 16 | (me as u64 & 0xff) << 8 | target as u64 & 0xff), 9);
    if target == me {
        return;
    }
    hand_to(target);
    if me != CONTROLLER {
        await_token(me);
    }
}

#[inline(always)]
pub fn point(kind: u8, guard: u32) {
    if SCHED_ON.load(Relaxed) {
        let me = TID.with(|t| t.get());
        if me >= 0 {
            point_slow(me, kind, guard);
        }
    }
}

fn point_slow(me: i32, kind: u8, guard: u32) {
    let s = s();
    s.steps += 1;
    s.by_kind[kind as usize] += 1;
    if let Some(sw) = s.schedule.get(s.next) {
        let counts = sw.kind == BLOCK || sw.kind == kind || (sw.kind == RARE && kind == NOVEL) || (sw.kind == SITE && sw.at(guard));
        if counts {
            s.count += 1;
        }
        if counts && s.count >= sw.after {
            let to = sw.to;
            s.next += 1;
            let (list, k) = runnable(s);
            // the choice is among the other runnable threads
            let mut others = [0u8; MAX_THREADS];
            let mut m = 0;
            for i in 0..k {
                if list[i] as i32 != me {
                    others[m] = list[i];
                    m += 1;
                }
            }
            if m > 0 {
                switch_to(me, others[to as usize % m] as i32, guard, kind);
            } else {
                s.count = 0;
            }
        }
    } else {
        s.fair += 1;
        if s.fair > FAIR {
            round_robin(me);
        }
    }
}

fn round_robin(me: i32) {
    let s = s();
    s.fair = 0;
    for d in 1..=s.n {
        let i = (me as usize + d) % s.n;
        if s.state[i] == State::Runnable {
            switch_to(me, i as i32, 0, 9);
            return;
        }
    }
}

/// A thread gives way of its own accord
pub fn yield_now() -> bool {
    let me = TID.with(|t| t.get());
    if !SCHED_ON.load(Relaxed) || me < 0 {
        return false;
    }
    s().steps += 1;
    round_robin(me);
    true
}

fn next_after_block(s: &mut S) -> Option<i32> {
    let (list, k) = runnable(s);
    if k > 0 {
        return Some(list[(s.steps as usize + s.switches as usize) % k] as i32);
    }
    // Nobody can run: time passes until the first timed wait ends
    for i in 0..s.n {
        if let State::Blocked(_, true) = s.state[i] {
            CLOCK_NS.fetch_add(1_000_000_000, Relaxed);
            s.state[i] = State::Runnable;
            return Some(i as i32);
        }
    }
    None
}

fn deadlock() -> ! {
    TID.with(|t| t.set(-1));
    SCHED_ON.store(false, SeqCst);
    engine::die_in_child("deadlock", "every thread waits for a lock that nobody will release");
}

pub fn futex_wait(addr: *const u32, expected: u32, timed: bool) -> Option<isize> {
    let me = TID.with(|t| t.get());
    if !SCHED_ON.load(Relaxed) || me < 0 {
        // the list of threads is not read at one moment while some begin or end
        let stuck = || std::fs::read_dir("/proc/self/task").map_or(2, |d| d.count()) == 1 && unsafe { std::ptr::read_volatile(addr) } == expected;
        let pause = || unsafe { libc::usleep(2000) } == 0;
        if !timed && (0..10).all(|i| (i == 0 || pause()) && stuck()) {
            deadlock();
        }
        return None;
    }
    point(SYNC, 0);
    if unsafe { std::ptr::read_volatile(addr) } != expected {
        return Some(-(libc::EAGAIN as isize));
    }
    let s = s();
    s.blocks += 1;
    s.state[me as usize] = State::Blocked(addr as usize, timed);
    match next_after_block(s) {
        None => deadlock(),
        Some(t) if t == me => return Some(-(libc::ETIMEDOUT as isize)),
        Some(t) => switch_to(me, t, 0, 8),
    }
    Some(0)
}

pub fn futex_wake(addr: *const u32, mut n: u64) -> Option<isize> {
    let me = TID.with(|t| t.get());
    if !SCHED_ON.load(Relaxed) || me < 0 {
        return None;
    }
    let s = s();
    let mut woken = 0;
    for i in 0..s.n {
        if n > 0 {
            if let State::Blocked(a, _) = s.state[i] {
                if a == addr as usize {
                    s.state[i] = State::Runnable;
                    n -= 1;
                    woken += 1;
                }
            }
        }
    }
    point(SYNC, 0);
    Some(woken)
}

pub struct Report {
    pub steps: u64,
    pub by_kind: [u64; KINDS],
    pub switches: u64,
    pub blocks: u64,
    pub trace: Vec<(u64, u8, u8, u32, u8)>,
    pub pair_hash: u64,
}

/// Runs the jobs, each on its own thread, under the schedule
pub fn run(jobs: Vec<Box<dyn FnOnce() + Send + 'static>>, schedule: Vec<Switch>, first: usize) -> Report {
    let n = jobs.len();
    assert!(n > 0 && n <= MAX_THREADS);
    let st = s();
    *st = S {
        n,
        state: [State::Unused; MAX_THREADS],
        schedule,
        next: 0,
        count: 0,
        fair: 0,
        steps: 0,
        by_kind: [0; KINDS],
        switches: 0,
        blocks: 0,
        trace: Vec::with_capacity(4096),
        pair_hash: 0,
    };
    for i in 0..n {
        st.state[i] = State::Runnable;
    }
    CURRENT.store(CONTROLLER, SeqCst);
    let mut handles: Vec<Option<std::thread::JoinHandle<()>>> = vec![];
    for (i, job) in jobs.into_iter().enumerate() {
        handles.push(Some(
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn(move || {
                    await_token(i as i32);
                    TID.with(|t| t.set(i as i32));
                    job();
                    TID.with(|t| t.set(-1));
                    s().state[i] = State::Finished;
                    hand_to(CONTROLLER);
                })
                .unwrap(),
        ));
    }
    SCHED_ON.store(true, SeqCst);
    let mut next = (first % n) as i32;
    loop {
        switch_to(CONTROLLER, next, 0, 10);
        await_token(CONTROLLER);
        // A finished thread is joined, so that even its destructors run at a defined moment
        for i in 0..n {
            if s().state[i] == State::Finished {
                if let Some(h) = handles[i].take() {
                    let _ = h.join();
                }
            }
        }
        if s().state[..n].iter().all(|x| *x == State::Finished) {
            break;
        }
        match next_after_block(s()) {
            None => deadlock(),
            Some(t) => next = t,
        }
    }
    SCHED_ON.store(false, SeqCst);
    let st = s();
    Report {
        steps: st.steps,
        by_kind: st.by_kind,
        switches: st.switches,
        blocks: st.blocks,
        trace: std::mem::take(&mut st.trace),
        pair_hash: st.pair_hash,
    }
}
