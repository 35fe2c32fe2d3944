//! A controlled scheduler for real threads: exactly one registered thread runs at a time, and at every
//! scheduling point the next one is chosen by a prefix of choices, so that all schedules up to a bound on
//! the number of preemptions can be enumerated by depth-first search over the choices.
//!
//! All communication between the threads goes through relaxed atomics and futex system calls, so that a
//! happens-before race detector does not see the schedule itself as synchronisation.
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicU8, AtomicUsize, Ordering::Relaxed};

pub const MAX_THREADS: usize = 4;
pub const MAX_CHOICES: usize = 4096;
const NONE: u32 = u32::MAX;
const READY: u32 = 0;
const BLOCKED: u32 = 1;
const DONE: u32 = 2;
/// blocked in the operating system, on something the scheduler does not control
const OUTSIDE: u32 = 3;
const NOT_STARTED: u32 = 4;

/// unwinds the threads of a deadlocked execution
pub struct Abandon;

pub struct Sched {
    n: usize,
    bound: u32,
    prefix: usize,
    running: AtomicU32,
    status: [AtomicU32; MAX_THREADS],
    wait: [AtomicUsize; MAX_THREADS],
    go: [AtomicU32; MAX_THREADS],
    tid: [AtomicU32; MAX_THREADS],
    finished: AtomicU32,
    steps: AtomicU64,
    preemptions: AtomicU32,
    pos: AtomicUsize,
    choice: Box<[AtomicU8]>,
    options: Box<[AtomicU8]>,
    trace: Box<[AtomicU8]>,
    abandon: AtomicBool,
    pub deadlock: AtomicBool,
    pub overflow: AtomicBool,
}

thread_local! { static CUR: Cell<(*const Sched, usize)> = const { Cell::new((std::ptr::null(), 0)) }; }

fn futex_wait(a: &AtomicU32, val: u32, timeout_ms: Option<u64>) {
    let ts = timeout_ms.map(|ms| libc::timespec { tv_sec: (ms / 1000) as _, tv_nsec: (ms % 1000 * 1_000_000) as _ });
    unsafe { libc::syscall(libc::SYS_futex, a.as_ptr(), libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG, val, ts.as_ref().map_or(std::ptr::null(), |t| t as *const _)) };
}
fn futex_wake(a: &AtomicU32) { unsafe { libc::syscall(libc::SYS_futex, a.as_ptr(), libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG, 1) }; }

impl Sched {
    pub fn new(n: usize, bound: u32, prefix: &[u8]) -> Sched {
        assert!(n <= MAX_THREADS);
        let bytes = |n: usize| (0..n).map(|_| AtomicU8::new(0)).collect::<Box<[_]>>();
        let s = Sched {
            n,
            bound,
            prefix: prefix.len(),
            running: AtomicU32::new(NONE),
            status: std::array::from_fn(|_| AtomicU32::new(NOT_STARTED)),
            wait: std::array::from_fn(|_| AtomicUsize::new(0)),
            go: std::array::from_fn(|_| AtomicU32::new(0)),
            tid: std::array::from_fn(|_| AtomicU32::new(0)),
            finished: AtomicU32::new(0),
            steps: AtomicU64::new(0),
            preemptions: AtomicU32::new(0),
            pos: AtomicUsize::new(0),
            choice: bytes(MAX_CHOICES),
            options: bytes(MAX_CHOICES),
            trace: bytes(MAX_CHOICES * 4),
            abandon: AtomicBool::new(false),
            deadlock: AtomicBool::new(false),
            overflow: AtomicBool::new(false),
        };
        for (i, c) in prefix.iter().enumerate() { s.choice[i].store(*c, Relaxed) }
        s
    }
    fn count(&self, st: u32) -> usize { (0..self.n).filter(|i| self.status[*i].load(Relaxed) == st).count() }
    fn start(&self, id: usize) {
        self.running.store(id as u32, Relaxed);
        self.go[id].store(1, Relaxed);
        futex_wake(&self.go[id]);
    }
    /// who runs next, if anybody can; `cur` is the thread at a scheduling point
    fn pick(&self, cur: Option<usize>) -> Option<usize> {
        let mut en = [0usize; MAX_THREADS];
        let mut k = 0;
        let cur_on = cur.filter(|c| self.status[*c].load(Relaxed) == READY);
        if let Some(c) = cur_on { en[0] = c; k = 1 }
        if !(cur_on.is_some() && self.preemptions.load(Relaxed) >= self.bound) {
            for i in 0..self.n { if Some(i) != cur_on && self.status[i].load(Relaxed) == READY { en[k] = i; k += 1 } }
        }
        if k == 0 { return None }
        let mut c = 0;
        if k > 1 {
            let p = self.pos.load(Relaxed);
            if p >= MAX_CHOICES { self.overflow.store(true, Relaxed) } else {
                self.pos.store(p + 1, Relaxed);
                if p < self.prefix { c = (self.choice[p].load(Relaxed) as usize).min(k - 1) }
                self.choice[p].store(c as u8, Relaxed);
                self.options[p].store(k as u8, Relaxed);
            }
            if cur_on.is_some() && c > 0 { self.preemptions.store(self.preemptions.load(Relaxed) + 1, Relaxed) }
        }
        Some(en[c])
    }
    fn wait_for_turn(&self, id: usize) {
        while self.go[id].load(Relaxed) == 0 { futex_wait(&self.go[id], 0, None) }
        self.go[id].store(0, Relaxed);
        if self.abandon.load(Relaxed) && !std::thread::panicking() { std::panic::panic_any(Abandon) }
    }
    /// the current thread is at a scheduling point with the given status
    fn switch(&self, id: usize, st: u32) {
        if self.abandon.load(Relaxed) { if std::thread::panicking() { return } std::panic::panic_any(Abandon) }
        let step = self.steps.load(Relaxed);
        self.steps.store(step + 1, Relaxed);
        let was_outside = self.status[id].load(Relaxed) == OUTSIDE;
        self.status[id].store(st, Relaxed);
        if was_outside {
            // somebody else may be running meanwhile
            if self.running.load(Relaxed) != NONE { return self.wait_for_turn(id) }
        }
        match self.pick(if was_outside { None } else { Some(id) }) {
            Some(x) if x == id => { self.running.store(id as u32, Relaxed); self.note(id) }
            Some(x) => { self.note(x); self.start(x); self.wait_for_turn(id) }
            None => { self.stuck(); self.wait_for_turn(id) }
        }
    }
    fn note(&self, id: usize) {
        let s = self.steps.load(Relaxed) as usize;
        if s < self.trace.len() { self.trace[s].store(id as u8 + 1, Relaxed) }
    }
    /// nobody can run: finished, or waiting for a thread outside, or a deadlock
    fn stuck(&self) {
        self.running.store(NONE, Relaxed);
        if self.count(OUTSIDE) == 0 && self.count(DONE) < self.n { self.deadlock.store(true, Relaxed) }
        self.finished.store(1, Relaxed);
        futex_wake(&self.finished);
    }
    fn in_os(&self, id: usize) -> bool {
        let t = self.tid[id].load(Relaxed);
        std::fs::read_to_string(format!("/proc/self/task/{t}/stat")).ok().and_then(|s| s.rsplit(')').next().map(|r| r.trim_start().starts_with('S'))).unwrap_or(false)
    }
    /// called by the thread that owns the execution, after it started all the others
    pub fn supervise(&self) {
        while (0..self.n).any(|i| self.status[i].load(Relaxed) == NOT_STARTED) { std::thread::yield_now() }
        let first = self.pick(None).unwrap();
        self.note(first);
        self.start(first);
        let (mut last, mut still, mut idle) = (0, 0, 0);
        loop {
            futex_wait(&self.finished, 0, Some(3));
            if self.count(DONE) == self.n { return }
            if self.deadlock.load(Relaxed) { break }
            if self.finished.swap(0, Relaxed) == 1 { continue }
            let s = self.steps.load(Relaxed);
            let r = self.running.load(Relaxed);
            if s != last { last = s; still = 0; idle = 0; continue }
            if r == NONE {
                idle += 1;
                if idle > 700 { self.deadlock.store(true, Relaxed); break }
                continue
            }
            if self.in_os(r as usize) { still += 1 } else { still = 0 }
            if still >= 4 && self.running.load(Relaxed) == r && self.steps.load(Relaxed) == s {
                still = 0;
                self.status[r as usize].store(OUTSIDE, Relaxed);
                match self.pick(None) { Some(x) => self.start(x), None => self.running.store(NONE, Relaxed) }
            }
        }
        // give up on this execution
        self.abandon.store(true, Relaxed);
        for i in 0..self.n { self.go[i].store(1, Relaxed); futex_wake(&self.go[i]) }
    }
    /// the choices that were made, and how many options each had
    pub fn choices(&self) -> Vec<(u8, u8)> { (0..self.pos.load(Relaxed)).map(|i| (self.choice[i].load(Relaxed), self.options[i].load(Relaxed))).collect() }
    pub fn trace(&self) -> String { self.trace.iter().map(|x| x.load(Relaxed)).skip_while(|x| *x == 0).take_while(|x| *x != 0).map(|x| (b'A' + x - 1) as char).collect() }
    pub fn steps(&self) -> u64 { self.steps.load(Relaxed) }
    pub fn preemptions(&self) -> u32 { self.preemptions.load(Relaxed) }
}

/// registers the current thread for as long as it lives
pub struct Enter<'a>(&'a Sched, usize);
pub fn enter(s: &Sched, id: usize) -> Enter<'_> {
    s.tid[id].store(unsafe { libc::syscall(libc::SYS_gettid) } as u32, Relaxed);
    CUR.with(|c| c.set((s as *const Sched, id)));
    s.status[id].store(READY, Relaxed);
    s.wait_for_turn(id);
    Enter(s, id)
}
impl Drop for Enter<'_> {
    fn drop(&mut self) {
        CUR.with(|c| c.set((std::ptr::null(), 0)));
        let (s, id) = (self.0, self.1);
        let was_outside = s.status[id].swap(DONE, Relaxed) == OUTSIDE;
        s.steps.store(s.steps.load(Relaxed) + 1, Relaxed);
        if s.abandon.load(Relaxed) { return }
        if was_outside && s.running.load(Relaxed) != NONE { return }
        match s.pick(None) { Some(x) => { s.note(x); s.start(x) } None => s.stuck() }
    }
}
fn cur() -> Option<(&'static Sched, usize)> {
    CUR.try_with(|c| c.get()).ok().filter(|c| !c.0.is_null()).map(|(p, i)| (unsafe { &*p }, i))
}
/// a scheduling point, if the current thread is registered
pub fn point() { if let Some((s, id)) = cur() { s.switch(id, READY) } }
/// block until `wake(addr)`; returns false if the thread is not controlled
pub(crate) fn block(addr: usize) -> bool {
    match cur() {
        None => false,
        Some((s, id)) => {
            s.wait[id].store(addr, Relaxed);
            s.switch(id, BLOCKED);
            true
        }
    }
}
pub(crate) fn wake(addr: usize) {
    if let Some((s, _)) = cur() {
        for i in 0..s.n {
            if s.status[i].load(Relaxed) == BLOCKED && s.wait[i].load(Relaxed) == addr { s.status[i].store(READY, Relaxed) }
        }
    }
}
/// the execution is being given up: nothing blocks any more
pub(crate) fn abandoned() -> bool { cur().is_some_and(|(s, _)| s.abandon.load(Relaxed)) }
/// run without scheduling points (for objects no other thread knows)
pub fn quiet<T>(f: impl FnOnce() -> T) -> T {
    let c = CUR.with(|c| c.replace((std::ptr::null(), 0)));
    let r = f();
    CUR.with(|x| x.set(c));
    r
}
