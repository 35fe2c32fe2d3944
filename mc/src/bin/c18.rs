//! C18: incremental persistence recovers exactly every flushed state.
//!
//! The database below is the library's own recipe (examples/radix_db.rs): a registry of written nodes that
//! survives from flush to flush, a serializer that continues at the end of the file, and all_arcs to pin.
use mc::radix::*;
use mc::{bfs, check_tree, ensure, idx, Cx, Prop, Space, System};
use rkyv::de::{deserializers::SharedDeserializeMapError, SharedDeserializeRegistry, SharedPointer};
use rkyv::ser::serializers::{AllocScratch, CompositeSerializer, FallbackScratch, HeapScratch, SharedSerializeMapError, WriteSerializer};
use rkyv::ser::{Serializer, SharedSerializeRegistry};
use rkyv::{AlignedVec, Archive, Deserialize, Fallible, Serialize};
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;
use vec_collections::radix_tree::AbstractRadixTreeMut;

#[derive(Default)]
struct Written { at: HashMap<usize, usize>, reused: u64 }
impl Fallible for Written { type Error = SharedSerializeMapError; }
impl SharedSerializeRegistry for Written {
    fn get_shared_ptr(&mut self, value: *const u8) -> Option<usize> {
        let r = self.at.get(&(value as usize)).copied();
        self.reused += r.is_some() as u64;
        r
    }
    fn add_shared_ptr(&mut self, value: *const u8, pos: usize) -> Result<(), Self::Error> {
        if self.at.insert(value as usize, pos).is_some() { return Err(SharedSerializeMapError::DuplicateSharedPointer(value)) }
        Ok(())
    }
}
#[derive(Default)]
struct Loaded { ptrs: HashMap<*const u8, Box<dyn SharedPointer>> }
impl Fallible for Loaded { type Error = SharedDeserializeMapError; }
impl SharedDeserializeRegistry for Loaded {
    fn get_shared_ptr(&mut self, ptr: *const u8) -> Option<&dyn SharedPointer> { self.ptrs.get(&ptr).map(|p| p.as_ref()) }
    fn add_shared_ptr(&mut self, ptr: *const u8, shared: Box<dyn SharedPointer>) -> Result<(), Self::Error> {
        if self.ptrs.insert(ptr, shared).is_some() { return Err(SharedDeserializeMapError::DuplicateSharedPointer(ptr)) }
        Ok(())
    }
}
type Ser<'a> = CompositeSerializer<WriteSerializer<&'a mut AlignedVec>, FallbackScratch<HeapScratch<256>, AllocScratch>, Written>;

trait Tree: AbstractRadixTreeMut<u8, V, Materialized = Self> + for<'a> Serialize<Ser<'a>> + Archive + 'static {
    const NAME: &'static str;
    fn pin(&self, into: &mut BTreeMap<usize, Arc<Vec<Self>>>);
    /// open an archive, with what is known about the place of its nodes
    fn load(b: &'static [u8], cx: &mut Cx) -> (Self, Written);
    fn check_archive(b: &[u8], keys: &[Key], want: &[(u16, V)], what: &str);
    /// an archive written in one go passes validation (one written incrementally does not: rkyv's
    /// validation does not allow pointers back into earlier parts)
    fn validate(_: &[u8]) {}
}
impl Tree for Shared {
    const NAME: &'static str = "shared";
    fn pin(&self, into: &mut BTreeMap<usize, Arc<Vec<Self>>>) { self.all_arcs(into) }
    fn load(b: &'static [u8], cx: &mut Cx) -> (Self, Written) {
        let mut d = Loaded::default();
        let a = unsafe { rkyv::archived_root::<Shared>(b) };
        let t: Shared = match a.deserialize(&mut d) { Ok(t) => t, Err(e) => mc::fail!("loading: {e}") };
        let at = d.ptrs.iter().map(|(p, s)| (s.data_address() as usize, *p as usize - b.as_ptr() as usize)).collect();
        cx.op();
        (t, Written { at, reused: 0 })
    }
    fn validate(b: &[u8]) { if let Err(e) = rkyv::check_archived_root::<Shared>(b) { mc::fail!("validation rejects a compacted file: {e}") } }
    fn check_archive(b: &[u8], keys: &[Key], want: &[(u16, V)], what: &str) {
        check_tree!(unsafe { rkyv::archived_root::<Shared>(b) }, keys, want, "{what}");
    }
}
impl Tree for LazyT {
    const NAME: &'static str = "lazy";
    fn pin(&self, into: &mut BTreeMap<usize, Arc<Vec<Self>>>) { self.all_arcs(into) }
    fn load(b: &'static [u8], cx: &mut Cx) -> (Self, Written) {
        cx.op();
        (LazyT::from(unsafe { rkyv::archived_root::<LazyT>(b) }), Written::default())
    }
    fn check_archive(b: &[u8], keys: &[Key], want: &[(u16, V)], what: &str) {
        check_tree!(unsafe { rkyv::archived_root::<LazyT>(b) }, keys, want, "{what}");
    }
}

fn leak_until(b: &AlignedVec) -> &'static [u8] { unsafe { std::slice::from_raw_parts(b.as_ptr(), b.len()) } }
/// every node of the tree, as (path, children)
fn nodes<'t, T: Tree>(t: &'t T, path: Vec<u8>, out: &mut Vec<(Vec<u8>, &'t [T])>) {
    let mut p = path;
    p.extend_from_slice(t.prefix());
    for c in t.children() { nodes(c, p.clone(), out) }
    out.push((p, t.children()));
}

type M = BTreeMap<u16, V>;
struct Db<T> {
    tree: T,
    snap: T,
    written: Written,
    pins: BTreeMap<usize, Arc<Vec<T>>>,
    file: AlignedVec,
    /// end of every flushed prefix, and what was flushed
    flushed: Vec<(usize, M)>,
    m: M,
    snap_m: M,
    /// buffers that loaded (lazy) trees still refer to
    keep: Vec<AlignedVec>,
}
impl<T: Tree> Db<T> {
    fn new() -> Self { Db { tree: T::empty(), snap: T::empty(), written: Default::default(), pins: Default::default(), file: AlignedVec::new(), flushed: vec![], m: M::new(), snap_m: M::new(), keep: vec![] } }
    fn flush(&mut self, cx: &mut Cx) {
        let mut t = AlignedVec::new();
        let mut s: Ser = CompositeSerializer::new(WriteSerializer::with_pos(&mut t, self.file.len()), Default::default(), std::mem::take(&mut self.written));
        s.serialize_value(&self.tree).unwrap_or_else(|e| mc::fail!("flush: {e}"));
        let (_, _, w) = s.into_components();
        self.written = w;
        self.tree.pin(&mut self.pins);
        self.file.extend_from_slice(&t);
        self.flushed.push((self.file.len(), self.m.clone()));
        cx.op();
        self.check_pins("flush");
    }
    fn vacuum(&mut self, cx: &mut Cx) {
        let mut file = AlignedVec::new();
        let mut s: Ser = CompositeSerializer::new(WriteSerializer::new(&mut file), Default::default(), Default::default());
        s.serialize_value(&self.tree).unwrap_or_else(|e| mc::fail!("vacuum: {e}"));
        let (_, _, w) = s.into_components();
        T::validate(&file);
        self.pins.clear();
        self.tree.pin(&mut self.pins);
        self.written = w;
        self.flushed = vec![(file.len(), self.m.clone())];
        self.file = file;
        cx.op();
        self.check_pins("vacuum");
    }
    /// forget the last `n` flushed prefixes (they never reached the disk), open what is left
    fn load(&mut self, drop_last: usize, cx: &mut Cx) -> bool {
        if self.flushed.len() <= drop_last { return false }
        for _ in 0..drop_last { self.flushed.pop(); }
        let (end, m) = self.flushed.last().unwrap().clone();
        let mut f = AlignedVec::new();
        f.extend_from_slice(&self.file[..end]);
        self.file = f;
        self.pins.clear();
        self.written = Written::default();
        let mut own = AlignedVec::new();
        own.extend_from_slice(&self.file);
        let b = leak_until(&own);
        self.keep.push(own);
        let (t, w) = T::load(b, cx);
        self.tree = t;
        self.written = w;
        self.m = m;
        self.tree.pin(&mut self.pins);
        self.check_pins("load");
        true
    }
    fn check_pins(&self, what: &str) {
        for (a, pos) in &self.written.at {
            ensure!(*pos < self.file.len(), "{what}: a node is recorded beyond the end of the file");
            match self.pins.get(a) {
                None => mc::fail!("{what}: node {:#x?} is recorded as written at {pos} but pinning does not keep its memory", "addr"),
                Some(p) => ensure!(&**p as *const Vec<T> as usize == *a, "{what}: a pinned node is kept under a different address"),
            }
        }
        let mut ns = vec![];
        if T::NAME == "shared" { nodes(&self.tree, vec![], &mut ns) }
        for (p, c) in ns {
            ensure!(c.is_empty() || self.pins.values().any(|a| a.as_ptr() == c.as_ptr()), "{what}: the children of node {p:?} are not pinned");
        }
    }
    fn check_files(&self, keys: &[Key], cx: &mut Cx) {
        for (i, (end, m)) in self.flushed.iter().enumerate() {
            let mut f = AlignedVec::new();
            f.extend_from_slice(&self.file[..*end]);
            let want: Ents = m.iter().map(|(k, v)| (*k, *v)).collect();
            T::check_archive(&f, keys, &want, &format!("flushed prefix {i} of {}, read in place", self.flushed.len()));
            let (t, w) = T::load(leak_until(&f), cx);
            check_tree!(&t, keys, &want, "flushed prefix {i} of {}, loaded", self.flushed.len());
            let mut pins = BTreeMap::new();
            t.pin(&mut pins);
            for a in w.at.keys() { ensure!(pins.contains_key(a), "prefix {i}: a loaded node is not pinned") }
            cx.ops(2);
            drop(t);
        }
    }
}

#[derive(Clone, Debug)]
enum Act { Insert(u16, V), Remove(u16), RemovePrefix(u16), Snap, Restore, UnionSnap, DiffSnap, Flush, Vacuum, Load, Crash }
struct Sys<T> { name: String, keys: Vec<Key>, acts: Vec<Act>, depth: usize, start: usize, _t: std::marker::PhantomData<fn() -> T> }
impl<T: Tree> Sys<T> {
    fn new(name: &str, mut keys: Vec<Key>, snaps: bool, depth: usize) -> Self {
        keys.sort();
        let n = keys.len() as u16;
        let mut acts = vec![Act::Flush, Act::Vacuum, Act::Load, Act::Crash];
        for k in 0..n { acts.push(Act::Insert(k, 1)); acts.push(Act::Remove(k)) }
        acts.push(Act::Insert(n / 2, 2));
        acts.push(Act::RemovePrefix(1));
        if snaps { acts.extend([Act::Snap, Act::Restore, Act::UnionSnap, Act::DiffSnap]) }
        Sys { name: format!("{}-{name}", T::NAME), keys, acts, depth, start: 2, _t: Default::default() }
    }
}
fn shape<T: Tree>(t: &T, w: &HashMap<usize, usize>, ids: &mut BTreeMap<usize, u8>, out: &mut Vec<u8>) {
    out.push(t.prefix().len() as u8);
    out.extend_from_slice(t.prefix());
    out.push(t.value().map_or(255, |v| *v as u8));
    let c = t.children();
    if c.is_empty() { out.push(253); return }
    let n = ids.len() as u8;
    let p = c.as_ptr() as usize;
    let known = ids.contains_key(&p);
    out.push(*ids.entry(p).or_insert(n));
    let _ = w;
    if !known {
        out.push(c.len() as u8);
        for x in c { shape(x, w, ids, out) }
    }
}
impl<T: Tree> System for Sys<T> {
    fn name(&self) -> String { self.name.clone() }
    fn about(&self) -> String { format!("a {} tree over {} keys, saved incrementally: {} actions (insert, remove, remove by prefix, snapshot, combine with the snapshot, flush, vacuum, reload, crash before the last flush); from an empty and a flushed full tree; every flushed prefix of the file is read back", T::NAME, self.keys.len(), self.acts.len()) }
    fn inits(&self) -> usize { self.start }
    fn actions(&self) -> usize { self.acts.len() }
    fn max_depth(&self) -> usize { self.depth }
    fn describe(&self, p: &[u16]) -> String { format!("{} tree: {}", ["empty", "full, flushed"][p[0] as usize], p[1..].iter().map(|a| match &self.acts[*a as usize] { Act::Insert(k, v) => format!("insert {:?} => {v}", self.keys[*k as usize]), Act::Remove(k) => format!("remove {:?}", self.keys[*k as usize]), Act::RemovePrefix(k) => format!("remove prefix {:?}", self.keys[*k as usize]), a => format!("{a:?}") }).collect::<Vec<_>>().join("; ")) }
    fn replay(&self, path: &[u16], cx: &mut Cx) -> Option<Vec<u8>> {
        let mut db = Db::<T>::new();
        if path[0] == 1 {
            for k in 0..self.keys.len() { db.tree.insert(&self.keys[k], 1); db.m.insert(k as u16, 1); }
            db.flush(cx);
        }
        let last = path.len() - 1;
        for (i, ai) in path.iter().enumerate().skip(1) {
            match &self.acts[*ai as usize] {
                Act::Insert(k, v) => {
                    db.tree.insert(&self.keys[*k as usize], *v);
                    db.m.insert(*k, *v);
                }
                Act::Remove(k) => { db.tree.difference_with(&T::single(&self.keys[*k as usize], 0)); db.m.remove(k); }
                Act::RemovePrefix(k) => {
                    db.tree.remove_prefix_with(&T::single(&self.keys[*k as usize], 0), |_| true);
                    db.m.retain(|x, _| !self.keys[*x as usize].starts_with(&self.keys[*k as usize]));
                }
                Act::Snap => { db.snap = db.tree.clone(); db.snap_m = db.m.clone() }
                Act::Restore => { db.tree = db.snap.clone(); db.m = db.snap_m.clone() }
                Act::UnionSnap => { db.tree.union_with(&db.snap); for (k, v) in &db.snap_m { db.m.entry(*k).or_insert(*v); } }
                Act::DiffSnap => { db.tree.difference_with(&db.snap); let s = &db.snap_m; db.m.retain(|k, _| !s.contains_key(k)) }
                Act::Flush => {
                    if i == last { cx.nontrivial_if(!db.flushed.is_empty() && db.m.len() > 1) }
                    db.flush(cx)
                }
                Act::Vacuum => db.vacuum(cx),
                Act::Load => if !db.load(0, cx) { return None },
                Act::Crash => if !db.load(1, cx) { return None },
            }
            cx.op();
        }
        let want: Ents = db.m.iter().map(|(k, v)| (*k, *v)).collect();
        check_tree!(&db.tree, &self.keys, &want, "the tree in memory");
        if last == 0 || matches!(self.acts[path[last] as usize], Act::Flush | Act::Vacuum | Act::Load | Act::Crash) { db.check_files(&self.keys, cx) }
        // what the next steps can depend on: contents, sharing, which nodes are written, what was flushed
        let mut key = vec![];
        let mut ids = BTreeMap::new();
        shape(&db.tree, &db.written.at, &mut ids, &mut key);
        key.push(252);
        shape(&db.snap, &db.written.at, &mut ids, &mut key);
        key.push(251);
        let mut by_id: Vec<(u8, usize)> = ids.iter().map(|(p, i)| (*i, *p)).collect();
        by_id.sort();
        for (_, p) in by_id { key.push(db.pins.values().any(|a| a.as_ptr() as usize == p) as u8) }
        for (_, m) in db.flushed.iter().rev().take(3) { key.push(250); for (k, v) in m { key.push(*k as u8); key.push(*v as u8) } }
        // nothing changes through the snapshot, and a flush of what is there now reads back as well
        let swant: Ents = db.snap_m.iter().map(|(k, v)| (*k, *v)).collect();
        check_tree!(&db.snap, &self.keys, &swant, "the snapshot");
        db.flush(cx);
        let before = db.written.at.len();
        db.flush(cx);
        ensure!(db.written.at.len() == before, "flushing the unchanged tree again wrote {} nodes again", db.written.at.len() - before);
        let n = db.flushed.len();
        db.flushed.drain(..n.saturating_sub(3));
        db.check_files(&self.keys, cx);
        Some(key)
    }
}

/// flush, one change, flush: every pair; the second flush writes only what changed
fn steps<T: Tree>(u: Uni) -> Box<dyn Space> {
    let u = Arc::new(u);
    let u2 = u.clone();
    let (n, k) = (u.len(), u.keys.len() as u64);
    idx(format!("steps-{}-{}", T::NAME, u.name), format!("{}: every tree is flushed, changed by inserting each key (new value), flushed, reloaded, the key removed, flushed again; all flushed prefixes read back and nodes off the path to the key are not written twice", u.about()), n * k,
        move |i, cx| {
            let (t, key) = (i / k, (i % k) as u16);
            let mut db = Db::<T>::new();
            let ents = u.ents(t, L);
            db.tree = build(&u.keys, ents.iter().copied());
            db.m = ents.iter().copied().collect();
            cx.nontrivial_if(db.m.len() > 1);
            db.flush(cx);
            let kb = &u.keys[key as usize];
            let reuse = |db: &Db<T>, known: &HashMap<usize, usize>, what: &str| {
                let mut ns = vec![];
                nodes(&db.tree, vec![], &mut ns);
                let written: Vec<usize> = db.pins.iter().filter(|(a, _)| known.contains_key(a)).map(|(_, v)| v.as_ptr() as usize).collect();
                for (p, c) in ns {
                    ensure!(c.is_empty() || kb.starts_with(&p) || written.contains(&(c.as_ptr() as usize)), "{what} {kb:?}: the children of {p:?} did not change but were written again");
                }
            };
            let known = db.written.at.clone();
            db.tree.insert(kb, 7);
            db.m.insert(key, 7);
            db.flush(cx);
            reuse(&db, &known, "insert");
            db.check_files(&u.keys, cx);
            db.load(0, cx);
            if T::NAME == "lazy" { db.flush(cx) }
            let known = db.written.at.clone();
            db.tree.insert(kb, 8);
            db.m.insert(key, 8);
            db.flush(cx);
            reuse(&db, &known, "insert after reload");
            db.tree.difference_with(&T::single(kb, 0));
            db.m.remove(&key);
            db.flush(cx);
            db.vacuum(cx);
            db.tree.insert(kb, 9);
            db.m.insert(key, 9);
            db.flush(cx);
            let at_vacuum = db.flushed.len();
            ensure!(at_vacuum == 2, "harness");
            db.check_files(&u.keys, cx);
            db.load(1, cx);
            db.tree.insert(kb, 10);
            db.m.insert(key, 10);
            db.flush(cx);
            db.check_files(&u.keys, cx);
            cx.outcome((t, db.file.len()));
        },
        move |i| format!("tree {} / key {}", u2.show(i / k), show_key(&u2.keys[(i % k) as usize])))
}
/// a chain of versions: every order of flushing growing/shrinking trees, all prefixes read back
fn versions<T: Tree>(u: Uni) -> Box<dyn Space> {
    let u = Arc::new(u);
    let u2 = u.clone();
    let n = u.len();
    idx(format!("versions-{}-{}", T::NAME, u.name), format!("{}: every ordered pair of trees: the first is flushed, turned into the second by in-place combination, flushed, turned back, flushed, with and without a reload between; all prefixes read back", u.about()), n * n,
        move |i, cx| {
            let (a, b) = (i / n, i % n);
            let (ea, eb) = (u.ents(a, L), u.ents(b, R));
            cx.nontrivial_if(a != b && ea.len() > 1 && !eb.is_empty());
            let other: T = build(&u.keys, eb.iter().copied());
            for reload in [false, true] {
                let mut db = Db::<T>::new();
                db.tree = build(&u.keys, ea.iter().copied());
                db.m = ea.iter().copied().collect();
                db.flush(cx);
                if reload { db.load(0, cx); }
                let first = db.tree.clone();
                db.tree.union_with(&other);
                for (k, v) in &eb { db.m.entry(*k).or_insert(*v); }
                db.flush(cx);
                db.tree.intersection_with(&other);
                db.m.retain(|k, _| eb.iter().any(|e| e.0 == *k));
                db.flush(cx);
                if reload { db.load(0, cx); }
                db.tree.outer_combine_with(&first, |x, _| { *x = 5; true });
                for (k, v) in &ea { db.m.entry(*k).and_modify(|x| *x = 5).or_insert(*v); }
                db.flush(cx);
                // the tree that was flushed first is still there: nothing of it is written again
                db.tree = first.clone();
                db.m = ea.iter().copied().collect();
                let before = db.written.at.len();
                db.flush(cx);
                ensure!(reload || db.written.at.len() == before, "flushing a pinned earlier version wrote {} nodes again", db.written.at.len() - before);
                db.check_files(&u.keys, cx);
                cx.outcome((a, b, db.file.len()));
            }
        },
        move |i| format!("first {} / second {}", u2.show(i / n), u2.show(i % n)))
}
/// pinning with one map as more and more of a tree is loaded or changed: after every call of all_arcs
/// the map holds everything that can be reached in memory by now
fn growing<T: Tree>(u: Uni, len: u32) -> Box<dyn Space> {
    let u = Arc::new(u);
    let u2 = u.clone();
    let (n, k) = (u.len(), u.keys.len() as u64);
    // per step: what, with which key; whether the map is filled after the step
    let acts = 4 * k + 2;
    let seqs = acts.pow(len);
    let show = move |a: u64, keys: &[Key]| match a / k { 0 => format!("read {}", show_key(&keys[(a % k) as usize])), 1 => format!("read {} through a clone", show_key(&keys[(a % k) as usize])), 2 => format!("insert {}", show_key(&keys[(a % k) as usize])), 3 => format!("remove {} from the clone", show_key(&keys[(a % k) as usize])), _ => ["iterate", "snapshot"][(a - 4 * k) as usize].to_string() };
    idx(format!("growing-{}-{}", T::NAME, u.name), format!("{}: opened from an archive, then all sequences of {len} of: read a key, read a key through a clone, insert a key, remove a key from the clone, iterate, take the clone anew; with all_arcs into the same map after each step, or only after some of them", u.about()), n * seqs << (len - 1),
        move |i, cx| {
            let mask = i & ((1 << (len - 1)) - 1) | 1 << (len - 1);
            let (t, mut seq) = ((i >> (len - 1)) / seqs, (i >> (len - 1)) % seqs);
            let mut db = Db::<T>::new();
            let ents = u.ents(t, L);
            db.tree = build(&u.keys, ents.iter().copied());
            db.m = ents.iter().copied().collect();
            db.flush(cx);
            db.load(0, cx);
            cx.nontrivial_if(db.m.len() > 1);
            let mut clone = db.tree.clone();
            let mut seen: Vec<&Key> = vec![];
            for step in 0..len {
                let a = seq % acts;
                seq /= acts;
                let key = &u.keys[(a % k) as usize];
                let id = (a % k) as u16;
                match a / k {
                    0 => { ensure!(db.tree.get(key) == db.m.get(&id), "reading {key:?}"); seen.push(key) }
                    1 => { clone.get(key); }
                    2 => { db.tree.insert(key, 7); db.m.insert(id, 7); seen.push(key) }
                    3 => clone.difference_with(&T::single(key, 0)),
                    _ if a == 4 * k => { ensure!(db.tree.iter().count() == db.m.len(), "iterating"); seen.extend(u.keys.iter()) }
                    _ => clone = db.tree.clone(),
                }
                cx.op();
                if mask >> step & 1 == 0 { continue }
                db.tree.pin(&mut db.pins);
                let mut fresh = BTreeMap::new();
                db.tree.pin(&mut fresh);
                for (a, n) in &fresh { ensure!(db.pins.get(a).map_or(false, |p| Arc::ptr_eq(p, n)), "step {step}: a node with {} children is in a fresh map, but not in the one that was filled before", n.len()) }
                // what has been visited is in memory for sure
                for key in &seen {
                    let (mut t, mut rest) = (&db.tree, key.as_slice());
                    while rest.len() > t.prefix().len() && rest.starts_with(t.prefix()) {
                        rest = &rest[t.prefix().len()..];
                        let c = t.children();
                        ensure!(c.is_empty() || db.pins.values().any(|a| a.as_ptr() == c.as_ptr()), "step {step}: the {} children on the way to {key:?} are not pinned", c.len());
                        match c.iter().find(|c| c.prefix()[0] == rest[0]) { Some(c) => t = c, None => break }
                    }
                }
                cx.ops(2);
            }
            let want: Ents = db.m.iter().map(|(k, v)| (*k, *v)).collect();
            check_tree!(&db.tree, &u.keys, &want, "the tree after all steps");
            cx.outcome((t, db.pins.len()));
        },
        move |i| {
            let mask = i & ((1 << (len - 1)) - 1) | 1 << (len - 1);
            let mut seq = (i >> (len - 1)) % seqs;
            let mut r = format!("tree {}:", u2.show((i >> (len - 1)) / seqs));
            for step in 0..len { r += &format!(" {};{}", show(seq % acts, &u2.keys), if mask >> step & 1 == 1 { " pin;" } else { "" }); seq /= acts }
            r
        })
}
fn spaces(th: bool) -> Vec<Box<dyn Space>> {
    let k5: Vec<Key> = vec![vec![], vec![0], vec![0, 0], vec![0, 1], vec![0, 1, 1]];
    let k4: Vec<Key> = vec![vec![], vec![0], vec![0, 0], vec![1]];
    let deep: Vec<Key> = vec![vec![0], vec![0, 0, 0], vec![0, 0, 1], vec![0, 1]];
    let d = |q, t| if th { t } else { q };
    let mut v: Vec<Box<dyn Space>> = vec![];
    v.push(bfs(Sys::<Shared>::new("flat4", k4.clone(), false, d(7, 12))));
    v.push(bfs(Sys::<Shared>::new("deep4", deep.clone(), false, d(7, 12))));
    v.push(bfs(Sys::<Shared>::new("deep4-snap", deep.clone(), true, d(6, 8))));
    v.push(bfs(Sys::<LazyT>::new("flat4", k4, false, d(6, 10))));
    v.push(bfs(Sys::<LazyT>::new("deep4-snap", deep, true, d(5, 8))));
    v.push(bfs(Sys::<Shared>::new("five-snap", k5, true, d(5, 7))));
    v.push(steps::<Shared>(u_small()));
    v.push(steps::<LazyT>(u_small()));
    v.push(steps::<Shared>(u_mid(if th { 5 } else { 4 })));
    v.push(steps::<Shared>(u_deepwide()));
    v.push(versions::<Shared>(u_small()));
    v.push(versions::<LazyT>(u_small()));
    v.push(versions::<Shared>(u_mid(2)));
    v.push(versions::<Shared>(u_deepwide()));
    let spine: Vec<Key> = vec![vec![], vec![0], vec![0, 0], vec![0, 0, 0], vec![0, 0, 1], vec![1]];
    v.push(growing::<LazyT>(Uni::all("nest6", spine.clone()), 3));
    v.push(growing::<Shared>(Uni::all("nest6", spine.clone()), if th { 3 } else { 2 }));
    v.push(growing::<LazyT>(Uni::atoms("nest6-long", spine.iter().map(|k| vec![k.clone()]).collect(), vec![59, 61, 63]), 4));
    // large trees
    v.push(steps::<Shared>(u_bush()));
    v.push(steps::<Shared>(u_fan(1, &[1, 9, 65, 129, 256])));
    v.push(steps::<LazyT>(u_fan(0, &[9, 129])));
    v.push(steps::<Shared>(u_chain(&[17, 65])));
    v.push(steps::<LazyT>(u_chain(&[40])));
    v.push(steps::<Shared>(u_long(2)));
    v.push(steps::<Shared>(u_huge()));
    v.push(steps::<LazyT>(u_huge()));
    v.push(versions::<Shared>(u_bush()));
    v.push(versions::<LazyT>(u_bush()));
    v.push(versions::<Shared>(u_fan(1, &FAN_SHORT)));
    v.push(versions::<LazyT>(u_fan(0, &[1, 9, 129, 256])));
    v.push(versions::<Shared>(u_chain(&[17, 65])));
    v.push(versions::<Shared>(u_long(2)));
    v.push(versions::<Shared>(u_huge()));
    if th {
        v.push(steps::<Shared>(u_spine()));
        v.push(steps::<LazyT>(u_mid(4)));
        v.push(versions::<Shared>(u_mid(3)));
        v.push(versions::<LazyT>(u_mid(3)));
        v.push(versions::<Shared>(u_spine()));
        v.push(steps::<Shared>(u_scaled(9)));
        v.push(versions::<LazyT>(u_deepwide()));
    }
    v
}
fn main() {
    mc::run_main(Prop {
        id: "C18",
        level: "model_checking",
        rule: "histories: a state is the mappings and physical sharing of the tree and a snapshot, which nodes are written and pinned, and the last three flushed states; a transition one operation; inputs: every tree with every change; distinct by construction; non-trivial: a second or later flush of a tree with at least two mappings, or two different such trees",
        assumptions: &["the persistence recipe is the one of examples/radix_db.rs, with an in-memory file", "a crash loses whole flushes (the storage appends atomically); torn appends are not part of the recipe", "4 keys in histories, the stated key universes for single steps"],
        spaces,
    })
}
