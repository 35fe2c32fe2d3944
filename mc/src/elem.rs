//! Element types that observe what a collection does with them.
use crate::Injected;
use std::cell::RefCell;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};

#[derive(Default)]
pub struct Reg {
    alive: Vec<bool>,
    live: i64,
    err: Option<String>,
    /// callbacks left until an injected panic; None: never
    fuel: Option<u64>,
    pub ticks: u64,
    zst_live: i64,
    /// answers of the next comparisons, last one first; when it is used up, comparisons are right again
    tape: Vec<Ordering>,
}
thread_local! { static REG: RefCell<Reg> = RefCell::new(Reg::default()); }

fn with<T>(f: impl FnOnce(&mut Reg) -> T) -> T { REG.with(|r| f(&mut r.borrow_mut())) }

/// forget everything about earlier cases on this thread
pub fn reset() { with(|r| { r.alive.clear(); *r = Reg { alive: std::mem::take(&mut r.alive), ..Default::default() } }) }
pub fn live() -> i64 { with(|r| r.live) }
pub fn zst_live() -> i64 { with(|r| r.zst_live) }
pub fn error() -> Option<String> { with(|r| r.err.clone()) }
pub fn arm(fuel: Option<u64>) { with(|r| { r.fuel = fuel; r.ticks = 0 }) }
pub fn ticks() -> u64 { with(|r| r.ticks) }
/// elements inside an archive: not owned, never dropped
pub const ARCHIVED: u32 = u32::MAX;
pub fn is_alive(slot: u32) -> bool { slot == ARCHIVED || with(|r| r.alive.get(slot as usize).copied().unwrap_or(false)) }
/// every user callback (comparison, clone, closure, iterator step) passes through here
pub fn tick() {
    let boom = with(|r| {
        r.ticks += 1;
        match &mut r.fuel {
            Some(0) => { r.fuel = None; true }
            Some(n) => { *n -= 1; false }
            None => false,
        }
    });
    if boom && !std::thread::panicking() { std::panic::panic_any(Injected) }
}
/// the next comparisons answer as told, whatever they compare
pub fn set_tape(mut t: Vec<Ordering>) { t.reverse(); with(|r| r.tape = t) }
pub fn tape_left() -> usize { with(|r| r.tape.len()) }
pub fn compare(truth: Ordering) -> Ordering { tick(); with(|r| r.tape.pop()).unwrap_or(truth) }
fn bad(m: String) { with(|r| { if r.err.is_none() { r.err = Some(m) } }) }
/// all elements gone, nothing dropped twice or used after drop
pub fn check_clean(allow_leak: bool) {
    if let Some(e) = error() { crate::fail!("{e}") }
    if !allow_leak {
        let (l, z) = (live(), zst_live());
        if l != 0 { crate::fail!("{l} elements were leaked (never dropped)") }
        if z != 0 { crate::fail!("{z} zero-sized elements were leaked or dropped too often") }
    }
}

/// Ordered by `key` only; `tag` makes equal elements distinguishable; `slot` is the identity.
pub struct E { pub key: u16, pub tag: u16, pub slot: u32 }
impl E {
    pub fn new(key: u16, tag: u16) -> E {
        let slot = with(|r| { r.alive.push(true); r.live += 1; r.alive.len() as u32 - 1 });
        E { key, tag, slot }
    }
    fn touch(&self, what: &str) {
        if !is_alive(self.slot) { bad(format!("use after drop: {what} on element key {} tag {}", self.key, self.tag)) }
    }
    pub fn ok(&self) -> bool { is_alive(self.slot) }
}
impl Clone for E {
    fn clone(&self) -> E { self.touch("clone"); tick(); E::new(self.key, self.tag) }
}
impl Drop for E {
    fn drop(&mut self) {
        let _ = REG.try_with(|r| {
            let mut r = r.borrow_mut();
            match r.alive.get_mut(self.slot as usize) {
                Some(a) if *a => { *a = false; r.live -= 1 }
                _ => if r.err.is_none() { r.err = Some(format!("element key {} tag {} dropped twice", self.key, self.tag)) },
            }
        });
    }
}
impl PartialEq for E { fn eq(&self, o: &E) -> bool { self.touch("eq"); o.touch("eq"); compare(self.key.cmp(&o.key)).is_eq() } }
impl Eq for E {}
impl PartialOrd for E { fn partial_cmp(&self, o: &E) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for E { fn cmp(&self, o: &E) -> Ordering { self.touch("cmp"); o.touch("cmp"); compare(self.key.cmp(&o.key)) } }
impl Hash for E { fn hash<H: Hasher>(&self, h: &mut H) { self.touch("hash"); self.key.hash(h) } }
impl std::fmt::Debug for E {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}#{}", self.key, self.tag) }
}

/// zero sized, counts constructions minus drops
#[derive(PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Z(());
impl Z { pub fn new() -> Z { with(|r| r.zst_live += 1); Z(()) } }
impl Default for Z { fn default() -> Self { Z::new() } }
impl Clone for Z { fn clone(&self) -> Z { tick(); Z::new() } }
impl Drop for Z { fn drop(&mut self) { let _ = REG.try_with(|r| r.borrow_mut().zst_live -= 1); } }

impl rkyv::Archive for E {
    type Archived = E;
    type Resolver = ();
    unsafe fn resolve(&self, _: usize, _: (), out: *mut E) { out.write(E { key: self.key, tag: self.tag, slot: ARCHIVED }) }
}
impl<S: rkyv::Fallible + ?Sized> rkyv::Serialize<S> for E {
    fn serialize(&self, _: &mut S) -> Result<(), S::Error> { self.touch("serialize"); Ok(()) }
}

/// the encoding of an `E` in a serde document; key 999 is not a valid element
pub const BAD_KEY: u16 = 999;
pub fn code(key: u16, tag: u16) -> u32 { tag as u32 * 1000 + key as u32 }
impl serde::Serialize for E { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { self.touch("serialize"); s.serialize_u32(code(self.key, self.tag)) } }
impl<'de> serde::Deserialize<'de> for E {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<E, D::Error> {
        let x = u32::deserialize(d)?;
        if x % 1000 == BAD_KEY as u32 { return Err(serde::de::Error::custom("bad element")) }
        Ok(E::new((x % 1000) as u16, (x / 1000) as u16))
    }
}
