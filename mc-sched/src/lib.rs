//! Enumerates the schedules of small programs over the real code.
use mc::{ensure, guarded, Cx};
use parking_lot::sched::{enter, Sched};
use rkyv::{Archive, Fallible, Serialize};
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, AtomicUsize, Ordering::*};

/// a value whose clones are scheduling points; clones made from inside the archive are counted per place
#[derive(Debug, PartialEq, Eq)]
#[repr(transparent)]
pub struct CV(pub u16);
pub struct Loads { base: usize, counts: Vec<AtomicU32> }
impl Loads {
    pub fn new(b: &[u8]) -> Loads { Loads { base: b.as_ptr() as usize, counts: (0..b.len() / 2 + 1).map(|_| AtomicU32::new(0)).collect() } }
    pub fn reset(&self) { for c in &self.counts { c.store(0, Relaxed) } }
    /// how often the value at each place of the archive was read out
    pub fn get(&self) -> Vec<u32> { self.counts.iter().map(|c| c.load(Relaxed)).filter(|c| *c > 0).collect() }
    pub fn watch<T>(&self, f: impl FnOnce() -> T) -> T {
        struct Reset(*const Loads);
        impl Drop for Reset { fn drop(&mut self) { LOADS.with(|l| l.set(self.0)) } }
        let _r = Reset(LOADS.with(|l| l.replace(self)));
        f()
    }
}
thread_local! { static LOADS: Cell<*const Loads> = const { Cell::new(std::ptr::null()) }; }
impl Clone for CV {
    fn clone(&self) -> CV {
        let l = LOADS.with(|l| l.get());
        if !l.is_null() {
            let l = unsafe { &*l };
            let i = (self as *const CV as usize).wrapping_sub(l.base) / 2;
            if i < l.counts.len() { l.counts[i].fetch_add(1, Relaxed); }
        }
        parking_lot::sched::point();
        CV(self.0)
    }
}
impl Archive for CV {
    type Archived = CV;
    type Resolver = ();
    unsafe fn resolve(&self, _: usize, _: (), out: *mut CV) { out.write(CV(self.0)) }
}
impl<S: Fallible + ?Sized> Serialize<S> for CV { fn serialize(&self, _: &mut S) -> Result<(), S::Error> { Ok(()) } }

/// keep all threads of one exploration on one processor: they take turns anyway
fn pin_to_cpu() {
    static NEXT: AtomicUsize = AtomicUsize::new(0);
    thread_local! { static DONE: Cell<bool> = const { Cell::new(false) }; }
    if DONE.with(|d| d.replace(true)) { return }
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, std::mem::size_of_val(&set), &mut set) != 0 { return }
        let cpus: Vec<usize> = (0..libc::CPU_SETSIZE as usize).filter(|c| libc::CPU_ISSET(*c, &set)).collect();
        if cpus.is_empty() { return }
        let c = cpus[NEXT.fetch_add(1, Relaxed) % cpus.len()];
        let mut one: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(c, &mut one);
        libc::sched_setaffinity(0, std::mem::size_of_val(&one), &one);
    }
}
struct Helper { go: AtomicU32, job: std::cell::UnsafeCell<Option<Box<dyn FnOnce() + Send>>> }
unsafe impl Sync for Helper {}
fn futex(a: &AtomicU32, op: i32, val: u32) { unsafe { libc::syscall(libc::SYS_futex, a.as_ptr(), op | libc::FUTEX_PRIVATE_FLAG, val, std::ptr::null::<u8>()) }; }
thread_local! { static POOL: std::cell::RefCell<Vec<&'static Helper>> = const { std::cell::RefCell::new(Vec::new()) }; }
/// run the jobs, each on a thread of its own, while `f` runs here; returns when all are done
fn on_pool<'a>(jobs: Vec<Box<dyn FnOnce() + Send + 'a>>, f: impl FnOnce()) {
    POOL.with(|p| {
        let mut p = p.borrow_mut();
        while p.len() < jobs.len() {
            let h: &'static Helper = Box::leak(Box::new(Helper { go: AtomicU32::new(0), job: Default::default() }));
            std::thread::spawn(move || loop {
                while h.go.load(Acquire) != 1 { futex(&h.go, libc::FUTEX_WAIT, 0); }
                let j = unsafe { (*h.job.get()).take().unwrap() };
                j();
                h.go.store(0, Release);
                futex(&h.go, libc::FUTEX_WAKE, 1);
            });
            p.push(h);
        }
        let n = jobs.len();
        for (h, j) in p.iter().zip(jobs) {
            unsafe { *h.job.get() = Some(std::mem::transmute::<Box<dyn FnOnce() + Send + 'a>, Box<dyn FnOnce() + Send + 'static>>(j)) };
            h.go.store(1, Release);
            futex(&h.go, libc::FUTEX_WAKE, 1);
        }
        f();
        for h in &p[..n] { while h.go.load(Acquire) != 0 { futex(&h.go, libc::FUTEX_WAIT, 1); } }
    })
}
pub struct Report { pub schedules: u64, pub steps: u64, pub states: u64, pub complete: bool }
/// All schedules of the threads that `setup` makes, with at most `bound` preemptions. `setup` is called for every
/// schedule; `check` is called with what the threads returned.
pub fn explore<R: Send, D>(n: usize, bound: u32, limit: u64, cx: &mut Cx, setup: impl Fn() -> (Vec<Box<dyn FnOnce() -> R + Send>>, D), check: impl Fn(Vec<R>, D)) -> Report {
    pin_to_cpu();
    let mut prefix: Vec<u8> = vec![];
    let mut rep = Report { schedules: 0, steps: 0, states: 0, complete: true };
    loop {
        let (threads, data) = setup();
        assert_eq!(threads.len(), n);
        let s = Sched::new(n, bound, &prefix);
        let mut res: Vec<Option<Result<R, String>>> = (0..n).map(|_| None).collect();
        on_pool(threads.into_iter().zip(res.iter_mut()).enumerate().map(|(i, (f, out))| {
            let s = &s;
            let b: Box<dyn FnOnce() + Send + '_> = Box::new(move || *out = Some(guarded(move || { let _e = enter(s, i); f() })));
            b
        }).collect(), || s.supervise());
        rep.schedules += 1;
        rep.steps += s.steps();
        let at = || format!("schedule {} with {} preemptions", s.trace(), s.preemptions());
        ensure!(!s.deadlock.load(Relaxed), "deadlock in {}", at());
        ensure!(!s.overflow.load(Relaxed), "too many scheduling points");
        let mut out = vec![];
        for (i, r) in res.into_iter().enumerate() {
            match r.unwrap_or_else(|| Err("thread died".into())) { Ok(r) => out.push(r), Err(m) => mc::fail!("thread {}: {m} in {}", (b'A' + i as u8) as char, at()) }
        }
        if let Err(m) = guarded(|| check(out, data)) { mc::fail!("{m} after {}", at()) }
        // next schedule in depth-first order
        let mut c = s.choices();
        rep.states += (c.len().saturating_sub(prefix.len()) + 1) as u64;
        loop {
            match c.pop() {
                None => return rep,
                Some((x, n)) if x + 1 < n => { prefix = c.iter().map(|e| e.0).collect(); prefix.push(x + 1); break }
                Some(_) => {}
            }
        }
        if rep.schedules >= limit { rep.complete = false; return rep }
    }
}
