//! The deterministic scheduler: tasks are operating-system threads of which
//! exactly one runs at any time; a seeded strategy (or a recorded schedule)
//! decides who runs and for how many control-flow edges. Time is simulated.

use crate::prng::{mix, Rng};
use crate::seams::{raw_syscall, NO_TASK, T};
use serde::{Deserialize, Serialize};
use std::cmp::Reverse;
use std::collections::BinaryHeap;
use std::sync::atomic::{AtomicU32, Ordering};
use std::sync::{Arc, Barrier};

pub const MAX_TASKS: usize = 250;
/// Simulated nanoseconds per control-flow edge.
const NS_PER_EDGE: u64 = 2;
const LONG: u64 = 4_000_000;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Strategy {
    /// Slices of random length around the mean.
    Random { mean: u64 },
    /// Random priorities with the given number of change points.
    Pct { depth: u32 },
    /// Everyone runs until it blocks.
    RunToEnd,
    /// Fixed slices in turn.
    RoundRobin { slice: u64 },
    /// Like `Random`, and often switches when code is reached which was rarely
    /// reached before in this run, and after waking someone.
    Rare { mean: u64 },
}

/// One decision: who, and for how many edges.
pub type Decision = (u8, u32);

#[derive(Clone, Copy, Debug, PartialEq)]
enum St {
    Ready,
    Sleep(u64),
    Futex { addr: usize, until: Option<u64> },
    Done,
}
struct Task {
    st: St,
    slice: u64,
    start: u64,
    /// Steps of the thread when its current slice began.
    begun: u64,
    stalled_until: u64,
    timed_out: bool,
    prio: u64,
    /// A thread the library itself has started.
    own: bool,
    /// Library calls made so far.
    calls: u64,
    /// At which step of its thread the task is stalled, and for how long.
    stall_at: u64,
    stall_ns: u64,
}

pub struct Sim {
    pub now: u64,
    tasks: Vec<Task>,
    current: usize,
    rng: Rng,
    strategy: Strategy,
    changes: Vec<u64>,
    edges: u64,
    pub decisions: Vec<Decision>,
    explicit: Option<Vec<Decision>>,
    pos: usize,
    events: BinaryHeap<Reverse<(u64, u64, u32)>>,
    seq: u64,
    handler: Box<dyn FnMut(u32)>,
    pub switches: u64,
    pub preemptions: u64,
    pub futex_waits: u64,
    pub stalls: u64,
    /// Hash over who ran, and for how long.
    pub trace: u64,
    /// Whether the current slice is the last one of `decisions`.
    recorded: bool,
    next_rr: usize,
    seed: u64,
}

static mut SIM: *mut Sim = std::ptr::null_mut();
static WAKE: [AtomicU32; MAX_TASKS + 1] = [const { AtomicU32::new(0) }; MAX_TASKS + 1];

/// Only the thread holding the token may call this.
#[allow(static_mut_refs)]
pub fn sim() -> &'static mut Sim {
    unsafe { &mut *SIM }
}
pub fn running() -> bool {
    unsafe { !SIM.is_null() }
}

fn wait_token(i: usize) {
    loop {
        if WAKE[i].swap(0, Ordering::Acquire) == 1 {
            return;
        }
        unsafe {
            let _ = raw_syscall(
                libc::SYS_futex,
                WAKE[i].as_ptr() as i64,
                128, // FUTEX_WAIT | PRIVATE
                0,
                0,
                0,
                0,
            );
        }
    }
}
fn give_token(i: usize) {
    WAKE[i].store(1, Ordering::Release);
    unsafe {
        let _ = raw_syscall(libc::SYS_futex, WAKE[i].as_ptr() as i64, 129, 1, 0, 0, 0);
    }
}

impl Sim {
    pub fn new(
        seed: u64,
        strategy: Strategy,
        explicit: Option<Vec<Decision>>,
        tasks: usize,
        handler: Box<dyn FnMut(u32)>,
    ) -> Sim {
        let mut rng = Rng::new(seed);
        let changes = match &strategy {
            Strategy::Pct { depth } => {
                let mut v: Vec<u64> = (0..*depth).map(|_| rng.logrange(10, 2_000_000)).collect();
                v.sort_unstable();
                v
            }
            _ => Vec::new(),
        };
        Sim {
            now: 0,
            tasks: (0..tasks)
                .map(|_| Task {
                    st: St::Ready,
                    slice: 0,
                    start: 0,
                    begun: 0,
                    stalled_until: 0,
                    timed_out: false,
                    prio: 1000 + rng.below(1000),
                    own: false,
                    calls: 0,
                    stall_at: u64::MAX,
                    stall_ns: 0,
                })
                .collect(),
            current: usize::MAX,
            rng,
            strategy,
            changes,
            edges: 0,
            decisions: Vec::new(),
            explicit,
            pos: 0,
            events: BinaryHeap::new(),
            seq: 0,
            handler,
            switches: 0,
            preemptions: 0,
            futex_waits: 0,
            stalls: 0,
            trace: 0xcbf2_9ce4_8422_2325,
            recorded: false,
            next_rr: 0,
            seed,
        }
    }

    pub fn at(&mut self, time: u64, ev: u32) {
        self.seq += 1;
        self.events.push(Reverse((time, self.seq, ev)));
    }
    pub fn stall(&mut self, task: usize, ns: u64) {
        if let Some(t) = self.tasks.get_mut(task) {
            t.stalled_until = t.stalled_until.max(self.now + ns);
            self.stalls += 1;
        }
    }

    fn choose(&mut self, ready: &[usize]) -> (usize, u64) {
        if let Some(ex) = &self.explicit {
            // decisions for tasks that cannot run are skipped
            while let Some((w, s)) = ex.get(self.pos) {
                self.pos += 1;
                if ready.contains(&usize::from(*w)) {
                    return (usize::from(*w), u64::from(*s));
                }
            }
            let w = if ready.contains(&self.current) {
                self.current
            } else {
                ready[0]
            };
            return (w, LONG);
        }
        // Long runs must not spend their time on switching.
        let stretch = 1 + (self.switches / 1500).pow(2);
        match &self.strategy {
            Strategy::Random { mean } | Strategy::Rare { mean } => {
                let m = mean * stretch;
                let w = *self.rng.pick(ready);
                let s = match self.rng.below(8) {
                    0 => 1 + self.rng.below(4),
                    1 => self.rng.logrange(1, m.max(2) * 16),
                    _ => 1 + self.rng.below(2 * m),
                };
                (w, if ready.len() == 1 { s.max(2000) } else { s })
            }
            Strategy::Pct { .. } => {
                if let Some(c) = self.changes.first().copied() {
                    if self.edges >= c {
                        let _ = self.changes.remove(0);
                        if let Some(t) = self.tasks.get_mut(self.current) {
                            t.prio = self.changes.len() as u64;
                        }
                    }
                }
                let w = *ready
                    .iter()
                    .max_by_key(|i| (self.tasks[**i].prio, **i))
                    .unwrap();
                let s = match self.changes.first() {
                    Some(c) => c.saturating_sub(self.edges).clamp(1, LONG),
                    None => LONG,
                };
                (w, s)
            }
            Strategy::RunToEnd => {
                let w = if ready.contains(&self.current) {
                    self.current
                } else {
                    *self.rng.pick(ready)
                };
                (w, LONG)
            }
            Strategy::RoundRobin { slice } => {
                let n = self.tasks.len();
                let w = (0..n)
                    .map(|k| (self.next_rr + k) % n)
                    .find(|i| ready.contains(i))
                    .unwrap();
                self.next_rr = w + 1;
                (w, slice * stretch)
            }
        }
    }

    /// Whether slices may be cut short where it matters.
    fn alert(&self) -> bool {
        self.explicit.is_none() && matches!(self.strategy, Strategy::Rare { .. })
    }

    fn charge(&mut self) {
        T.with(|t| {
            let c = self.current;
            if let Some(task) = self.tasks.get_mut(c) {
                let d = t.steps.get() - task.start;
                task.start = t.steps.get();
                self.edges += d;
                for b in [c as u64, d] {
                    self.trace = (self.trace ^ b).wrapping_mul(0x0000_0100_0000_01B3);
                }
                self.now += d * NS_PER_EDGE;
            }
        });
    }
}

// The handler and the scheduler both use `sim()`, so neither of these may be a method:
// nothing else may hold a reference to the simulation meanwhile.

fn fire_due() {
    while let Some(Reverse((t, _, ev))) = sim().events.peek().copied() {
        if t > sim().now {
            break;
        }
        let _ = sim().events.pop();
        // the handler may schedule further events
        let mut h = std::mem::replace(&mut sim().handler, Box::new(|_| {}));
        h(ev);
        sim().handler = h;
    }
}

/// Chooses who runs next. `None` when every task has finished.
fn pick() -> Option<usize> {
    loop {
        fire_due();
        let s = sim();
        let now = s.now;
        let mut ready: Vec<usize> = Vec::with_capacity(s.tasks.len());
        let mut alive = false;
        let mut next = u64::MAX;
        for (i, t) in s.tasks.iter_mut().enumerate() {
            match t.st {
                St::Done => continue,
                St::Sleep(u) if u <= now => t.st = St::Ready,
                St::Sleep(u) => next = next.min(u),
                St::Futex { until: Some(u), .. } if u <= now => {
                    t.timed_out = true;
                    t.st = St::Ready;
                }
                St::Futex { until: Some(u), .. } => next = next.min(u),
                _ => {}
            }
            alive = true;
            if t.st == St::Ready {
                if t.stalled_until > now {
                    next = next.min(t.stalled_until);
                } else {
                    ready.push(i);
                }
            }
        }
        // the library's own threads may outlive its callers
        if !alive || s.tasks.iter().all(|t| t.own || t.st == St::Done) {
            return None;
        }
        if ready.is_empty() {
            if let Some(Reverse((t, _, _))) = s.events.peek() {
                next = next.min(*t);
            }
            if next == u64::MAX {
                let who: Vec<_> = s
                    .tasks
                    .iter()
                    .enumerate()
                    .filter(|(_, t)| matches!(t.st, St::Futex { .. }))
                    .map(|(i, _)| i.to_string())
                    .collect();
                crate::report::fatal(
                    "deadlock",
                    &format!("tasks {} wait forever for a lock", who.join(",")),
                );
            }
            s.now = s.now.max(next);
            continue;
        }
        let (who, slice) = s.choose(&ready);
        s.tasks[who].slice = slice;
        s.recorded = s.decisions.len() < 200_000;
        if s.recorded {
            s.decisions.push((who as u8, slice.min(u64::from(u32::MAX)) as u32));
        }
        return Some(who);
    }
}

fn begin_slice(me: usize) {
    let s = sim();
    s.current = me;
    T.with(|t| {
        s.tasks[me].start = t.steps.get();
        s.tasks[me].begun = t.steps.get();
    });
    arm();
}
/// Some calls do not get on for a while at some point.
pub fn begin_call() {
    if T.with(|t| t.task.get()) == NO_TASK || !running() {
        return;
    }
    let s = sim();
    if mix(&[s.seed, 0x0073_6c6f_7721]) % 3 != 0 {
        return;
    }
    let seed = s.seed;
    let t = &mut s.tasks[me()];
    t.calls += 1;
    t.stall_at = u64::MAX;
    let mut r = Rng::new(mix(&[seed, me() as u64, t.calls, 0x0073_7461_6c6c]));
    if r.chance(1, 24) {
        t.stall_at = T.with(|x| x.steps.get()) + r.logrange(1, 4000);
        t.stall_ns = if r.chance(1, 2) {
            r.logrange(1000, 5_000_000)
        } else {
            r.logrange(1_000_000, 4_000_000_000_000)
        };
    }
}
/// Called when the step limit of the current call changed.
pub fn arm() {
    T.with(|t| {
        let end = if t.task.get() == NO_TASK || !running() {
            u64::MAX
        } else {
            let s = sim();
            let me = &s.tasks[t.task.get() as usize];
            (me.begun + me.slice).min(me.stall_at)
        };
        t.stop_at.set(end.min(t.limit.get()));
    });
}

fn reschedule(me: usize) {
    let next = pick();
    match next {
        None => give_token(MAX_TASKS),
        Some(n) if n == me => begin_slice(me),
        Some(n) => {
            sim().switches += 1;
            give_token(n);
            wait_token(me);
            reap();
            begin_slice(me);
        }
    }
}
/// The kernel's number of a thread which has given the token away for good.
static EXITING: AtomicU32 = AtomicU32::new(0);
/// Waits until that thread is gone: nothing may happen outside of the simulation.
fn reap() {
    let tid = EXITING.swap(0, Ordering::SeqCst);
    if tid == 0 {
        return;
    }
    unsafe {
        let pid = raw_syscall(libc::SYS_getpid, 0, 0, 0, 0, 0, 0);
        while raw_syscall(libc::SYS_tgkill, pid, tid.into(), 0, 0, 0, 0) == 0 {
            let _ = raw_syscall(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0);
        }
    }
}
/// Gives the token away for good.
fn finish(me: usize) {
    let s = sim();
    s.charge();
    s.tasks[me].st = St::Done;
    let g = &GEN[me];
    g.store(g.load(Ordering::Relaxed) + 1, Ordering::SeqCst);
    let _ = futex_wake(g.as_ptr(), MAX_TASKS as u64);
    match pick() {
        None => give_token(MAX_TASKS),
        Some(n) => {
            sim().switches += 1;
            give_token(n);
        }
    }
}
/// How many tasks have finished in each place.
static GEN: [AtomicU32; MAX_TASKS] = [const { AtomicU32::new(0) }; MAX_TASKS];

/// A place for a thread the library is about to start.
pub fn adopt() -> Option<(usize, u32)> {
    let s = sim();
    let prio = 1000 + s.rng.below(1000);
    let t = Task {
        st: St::Ready,
        slice: 0,
        start: 0,
        begun: 0,
        stalled_until: 0,
        timed_out: false,
        prio,
        own: true,
        calls: 0,
        stall_at: u64::MAX,
        stall_ns: 0,
    };
    let i = match s.tasks.iter().position(|t| t.own && t.st == St::Done) {
        Some(i) => {
            s.tasks[i] = t;
            i
        }
        None if s.tasks.len() < MAX_TASKS => {
            s.tasks.push(t);
            s.tasks.len() - 1
        }
        None => return None,
    };
    WAKE[i].store(0, Ordering::Relaxed);
    Some((i, GEN[i].load(Ordering::Relaxed)))
}
/// The thread could not be started.
pub fn disown(i: usize) {
    sim().tasks[i].st = St::Done;
}
/// What a thread started by the library does in its place.
pub fn as_task<R>(i: usize, f: impl FnOnce() -> R) -> R {
    wait_token(i);
    reap();
    T.with(|t| t.task.set(i as u32));
    begin_slice(i);
    T.with(|t| t.active.set(true));
    let r = f();
    T.with(|t| t.active.set(false));
    T.with(|t| t.stop_at.set(u64::MAX));
    let tid = unsafe { raw_syscall(libc::SYS_gettid, 0, 0, 0, 0, 0, 0) };
    EXITING.store(tid as u32, Ordering::SeqCst);
    finish(i);
    T.with(|t| t.task.set(NO_TASK));
    r
}
pub fn wait_for(i: usize, gen: u32) {
    while GEN[i].load(Ordering::SeqCst) == gen {
        let _ = futex_wait(GEN[i].as_ptr(), gen, None);
    }
}

fn me() -> usize {
    T.with(|t| t.task.get()) as usize
}

/// Called at an edge that was rarely reached before: whether to switch here.
pub fn rare() -> bool {
    running() && sim().alert() && sim().rng.chance(1, 4)
}
pub fn preempt() {
    let s = sim();
    s.charge();
    s.preemptions += 1;
    let now = s.now;
    let t = &mut s.tasks[me()];
    if T.with(|x| x.steps.get()) >= t.stall_at {
        t.stalled_until = now + t.stall_ns;
        t.stall_at = u64::MAX;
        s.stalls += 1;
    }
    // the slice as it was, for a replay
    if s.recorded {
        let used = T.with(|t| t.steps.get()) - s.tasks[me()].begun;
        if let Some(d) = s.decisions.last_mut() {
            d.1 = used.min(u64::from(u32::MAX)) as u32;
        }
    }
    reschedule(me());
}
pub fn yield_now() {
    let s = sim();
    s.charge();
    s.now += 200;
    reschedule(me());
}
pub fn sleep(ns: u64) {
    let s = sim();
    s.charge();
    let u = s.now + ns;
    s.tasks[me()].st = St::Sleep(u);
    reschedule(me());
}
pub fn clock(clock: i32) -> u64 {
    // an arbitrary but fixed start of time
    let s = sim();
    let extra = T.with(|t| t.steps.get() - s.tasks[me()].start) * NS_PER_EDGE;
    let t = 1_000_000_000_000 + s.now + extra;
    match clock {
        libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE | libc::CLOCK_TAI => {
            // somebody sets the time of day, forwards and backwards
            let h = mix(&[s.seed, (s.now + extra) / 50_000, 0x746f_6461]);
            let base = 1_700_000_000_000_000_000 + t;
            match h % 4 {
                0 => base - (h >> 8) % 4_000_000_000_000,
                1 => base + (h >> 8) % 4_000_000_000_000,
                2 => base - (h >> 8) % 2_000_000,
                _ => base,
            }
        }
        _ => t,
    }
}
pub fn futex_wait(addr: *const u32, val: u32, until: Option<(bool, u64)>) -> i64 {
    let s = sim();
    s.charge();
    let cur = unsafe { (*addr.cast::<AtomicU32>()).load(Ordering::SeqCst) };
    if cur != val {
        return -i64::from(libc::EAGAIN);
    }
    s.futex_waits += 1;
    let until = until.map(|(abs, v)| {
        if abs {
            v.saturating_sub(1_000_000_000_000)
        } else {
            s.now + v
        }
    });
    let m = me();
    s.tasks[m].timed_out = false;
    s.tasks[m].st = St::Futex { addr: addr as usize, until };
    reschedule(m);
    if sim().tasks[m].timed_out {
        -i64::from(libc::ETIMEDOUT)
    } else {
        0
    }
}
pub fn futex_wake(addr: *const u32, n: u64) -> i64 {
    let s = sim();
    let mut woken = 0;
    // who is woken first is a scheduling decision, too
    let k = s.tasks.len();
    if s.alert() && s.rng.chance(1, 2) {
        // end the slice at the next opportunity
        T.with(|t| t.stop_at.set(0));
        s.tasks[me()].slice = 0;
    }
    let start = (s.trace % k as u64) as usize;
    for i in 0..k {
        if woken >= n {
            break;
        }
        let t = &mut s.tasks[(start + i) % k];
        if matches!(t.st, St::Futex { addr: a, .. } if a == addr as usize) {
            t.st = St::Ready;
            woken += 1;
        }
    }
    woken as i64
}
static ARRIVED: AtomicU32 = AtomicU32::new(0);
/// Someone has come to a meeting.
pub fn arrive() {
    ARRIVED.store(ARRIVED.load(Ordering::SeqCst).wrapping_add(1), Ordering::SeqCst);
    let _ = futex_wake(ARRIVED.as_ptr(), MAX_TASKS as u64);
}
pub fn wait_arrival() {
    let r = futex_wait(ARRIVED.as_ptr(), ARRIVED.load(Ordering::SeqCst), None);
    debug_assert_eq!(r, 0);
    sim().futex_waits -= 1;
}
thread_local! {
    static CALL: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}
/// Describes the call the current task is about to make.
pub fn set_call(s: String) {
    crate::report::set_call(&s);
    CALL.with(|c| *c.borrow_mut() = s);
}
pub fn call_info() -> String {
    CALL.with(|c| c.borrow().clone())
}

/// Runs the tasks to completion.
pub fn run(s: Sim, bodies: Vec<Box<dyn FnOnce() + Send>>) -> Box<Sim> {
    let n = bodies.len();
    assert!(n <= MAX_TASKS && n == s.tasks.len());
    unsafe { SIM = Box::into_raw(Box::new(s)) };
    // The standard library takes locks of its own where threads begin and end: no
    // task does so while the simulation runs.
    let (begun, over) = (Arc::new(AtomicU32::new(0)), Arc::new(Barrier::new(n + 1)));
    let handles: Vec<_> = bodies
        .into_iter()
        .enumerate()
        .map(|(i, b)| {
            let (started, over) = (begun.clone(), over.clone());
            let h = std::thread::Builder::new()
                .stack_size(2 << 20)
                .spawn(move || {
                    let _ = started.fetch_add(1, Ordering::SeqCst);
                    wait_token(i);
                    reap();
                    T.with(|t| t.task.set(i as u32));
                    begin_slice(i);
                    b();
                    T.with(|t| t.stop_at.set(u64::MAX));
                    finish(i);
                    T.with(|t| t.task.set(NO_TASK));
                    let _ = over.wait();
                })
                .expect("spawn");
            // one after the other
            while begun.load(Ordering::SeqCst) <= i as u32 {
                std::thread::yield_now();
            }
            h
        })
        .collect();
    match pick() {
        Some(f) => {
            give_token(f);
            wait_token(MAX_TASKS);
            reap();
            let _ = over.wait();
        }
        None => assert_eq!(n, 0),
    }
    for h in handles {
        let _ = h.join();
    }
    unsafe {
        let b = Box::from_raw(SIM);
        SIM = std::ptr::null_mut();
        b
    }
}
