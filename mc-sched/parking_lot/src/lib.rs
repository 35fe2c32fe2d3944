//! Stand-in for parking_lot 0.11: the same types over lock_api, with locks that are scheduling points.
pub use lock_api;
pub mod sched;
use std::sync::atomic::{AtomicU32, AtomicU8, AtomicUsize, Ordering::*};

macro_rules! acquire {
    ($self:expr, $try:expr) => {{
        sched::point();
        while !$try {
            if sched::abandoned() { break }
            if !sched::block($self as *const _ as usize) { std::thread::yield_now() }
        }
    }};
}
macro_rules! released { ($self:expr) => {{ sched::wake($self as *const _ as usize); if !std::thread::panicking() { sched::point() } }} }

pub struct RawMutex(AtomicU8);
unsafe impl lock_api::RawMutex for RawMutex {
    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: RawMutex = RawMutex(AtomicU8::new(0));
    type GuardMarker = lock_api::GuardNoSend;
    fn lock(&self) { acquire!(self, self.0.compare_exchange(0, 1, Acquire, Relaxed).is_ok()) }
    fn try_lock(&self) -> bool { sched::point(); self.0.compare_exchange(0, 1, Acquire, Relaxed).is_ok() }
    unsafe fn unlock(&self) { self.0.store(0, Release); released!(self) }
    fn is_locked(&self) -> bool { sched::point(); self.0.load(Relaxed) != 0 }
}
unsafe impl lock_api::RawMutexFair for RawMutex {
    unsafe fn unlock_fair(&self) { lock_api::RawMutex::unlock(self) }
}
/// -1: exclusive
pub struct RawRwLock(AtomicU32);
const X: u32 = u32::MAX;
unsafe impl lock_api::RawRwLock for RawRwLock {
    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: RawRwLock = RawRwLock(AtomicU32::new(0));
    type GuardMarker = lock_api::GuardNoSend;
    fn lock_shared(&self) { acquire!(self, self.get_shared()) }
    fn try_lock_shared(&self) -> bool { sched::point(); self.get_shared() }
    unsafe fn unlock_shared(&self) { self.0.fetch_sub(1, Release); released!(self) }
    fn lock_exclusive(&self) { acquire!(self, self.0.compare_exchange(0, X, Acquire, Relaxed).is_ok()) }
    fn try_lock_exclusive(&self) -> bool { sched::point(); self.0.compare_exchange(0, X, Acquire, Relaxed).is_ok() }
    unsafe fn unlock_exclusive(&self) { self.0.store(0, Release); released!(self) }
}
impl RawRwLock {
    fn get_shared(&self) -> bool { self.0.fetch_update(Acquire, Relaxed, |x| if x == X { None } else { Some(x + 1) }).is_ok() }
}
unsafe impl lock_api::RawRwLockDowngrade for RawRwLock {
    unsafe fn downgrade(&self) { self.0.store(1, Release); released!(self) }
}
pub struct RawThreadId;
unsafe impl lock_api::GetThreadId for RawThreadId {
    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: RawThreadId = RawThreadId;
    fn nonzero_thread_id(&self) -> std::num::NonZeroUsize {
        thread_local! { static KEY: u8 = const { 0 }; }
        KEY.with(|x| std::num::NonZeroUsize::new(x as *const _ as usize).unwrap())
    }
}
pub type Mutex<T> = lock_api::Mutex<RawMutex, T>;
pub type MutexGuard<'a, T> = lock_api::MutexGuard<'a, RawMutex, T>;
pub type MappedMutexGuard<'a, T> = lock_api::MappedMutexGuard<'a, RawMutex, T>;
pub type FairMutex<T> = Mutex<T>;
pub type FairMutexGuard<'a, T> = MutexGuard<'a, T>;
pub type RwLock<T> = lock_api::RwLock<RawRwLock, T>;
pub type RwLockReadGuard<'a, T> = lock_api::RwLockReadGuard<'a, RawRwLock, T>;
pub type RwLockWriteGuard<'a, T> = lock_api::RwLockWriteGuard<'a, RawRwLock, T>;
pub type MappedRwLockReadGuard<'a, T> = lock_api::MappedRwLockReadGuard<'a, RawRwLock, T>;
pub type MappedRwLockWriteGuard<'a, T> = lock_api::MappedRwLockWriteGuard<'a, RawRwLock, T>;
pub type ReentrantMutex<T> = lock_api::ReentrantMutex<RawMutex, RawThreadId, T>;
pub type ReentrantMutexGuard<'a, T> = lock_api::ReentrantMutexGuard<'a, RawMutex, RawThreadId, T>;
pub const fn const_mutex<T>(val: T) -> Mutex<T> { Mutex::const_new(<RawMutex as lock_api::RawMutex>::INIT, val) }
pub const fn const_fair_mutex<T>(val: T) -> Mutex<T> { const_mutex(val) }
pub const fn const_rwlock<T>(val: T) -> RwLock<T> { RwLock::const_new(<RawRwLock as lock_api::RawRwLock>::INIT, val) }

#[derive(Copy, Clone, Eq, PartialEq, Debug)]
pub enum OnceState { New, Poisoned, InProgress, Done }
impl OnceState {
    pub fn poisoned(self) -> bool { self == OnceState::Poisoned }
    pub fn done(self) -> bool { self == OnceState::Done }
}
/// 0 new, 1 poisoned, 2 running, 3 done
pub struct Once(AtomicUsize);
impl Default for Once { fn default() -> Self { Self::new() } }
impl std::fmt::Debug for Once { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.debug_struct("Once").field("state", &self.state()).finish() } }
impl Once {
    pub const fn new() -> Once { Once(AtomicUsize::new(0)) }
    pub fn state(&self) -> OnceState {
        sched::point();
        match self.0.load(Acquire) { 0 => OnceState::New, 1 => OnceState::Poisoned, 2 => OnceState::InProgress, _ => OnceState::Done }
    }
    pub fn call_once<F: FnOnce()>(&self, f: F) { self.run(false, |_| f()) }
    pub fn call_once_force<F: FnOnce(OnceState)>(&self, f: F) { self.run(true, f) }
    fn run<F: FnOnce(OnceState)>(&self, force: bool, f: F) {
        struct Reset<'a>(&'a Once, usize);
        impl Drop for Reset<'_> { fn drop(&mut self) { self.0 .0.store(self.1, Release); released!(self.0) } }
        sched::point();
        let mut f = Some(f);
        loop {
            match self.0.load(Acquire) {
                3 => return,
                2 => if !sched::block(self as *const _ as usize) { std::thread::yield_now() },
                1 if !force => panic!("Once instance has previously been poisoned."),
                s => if self.0.compare_exchange(s, 2, Acquire, Relaxed).is_ok() {
                    let mut r = Reset(self, 1);
                    (f.take().unwrap())(if s == 0 { OnceState::New } else { OnceState::Poisoned });
                    r.1 = 3;
                    return
                }
            }
        }
    }
}
#[derive(Debug, PartialEq, Eq, Copy, Clone)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult { pub fn timed_out(&self) -> bool { self.0 } }
/// waits may end spuriously: every wait is a scheduling point that lets others run
#[derive(Default)]
pub struct Condvar(AtomicUsize);
impl Condvar {
    pub const fn new() -> Condvar { Condvar(AtomicUsize::new(0)) }
    pub fn notify_one(&self) -> bool { self.notify_all() > 0 }
    pub fn notify_all(&self) -> usize { self.0.fetch_add(1, Relaxed); released!(self); 1 }
    pub fn wait<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>) {
        let n = self.0.load(Relaxed);
        lock_api::MutexGuard::unlocked(g, || while self.0.load(Relaxed) == n { if !sched::block(self as *const _ as usize) { std::thread::yield_now() } })
    }
}
