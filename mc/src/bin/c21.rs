//! C21: documented costs. Counts what an element type can count (comparisons, clones) and what an allocator can count.
use mc::radix::{archive, around, u_bush, u_chain, u_letters, u_mid, u_tern, u_deepwide, u_fan, u_long, u_scaled, u_small, u_spine, u_wide, Key, Uni, FAN, FAN_SHORT};
use mc::{fail, gen::*, idx, seqs, Cx, Prop, Space};
use rkyv::Archive;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::cmp::Ordering;
use std::sync::Arc;
use vec_collections::radix_tree::{AbstractRadixTree, AbstractRadixTreeMut, ArcRadixTree, LazyRadixTree, RadixTree};
use vec_collections::{total_vec_map::TotalVecMap, total_vec_set::TotalVecSet, AbstractVecMap, AbstractVecSet, VecMap, VecSet};

thread_local! {
    static CMPS: Cell<u64> = const { Cell::new(0) };
    static CLONES: Cell<u64> = const { Cell::new(0) };
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
    static FREES: Cell<u64> = const { Cell::new(0) };
}
fn inc(c: &'static std::thread::LocalKey<Cell<u64>>) { let _ = c.try_with(|c| c.set(c.get() + 1)); }
/// bytes alive
fn grow(n: i64) { let _ = BYTES.try_with(|b| b.set(b.get() + n)); }
thread_local! { static BYTES: Cell<i64> = const { Cell::new(0) } }
struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { inc(&ALLOCS); grow(l.size() as i64); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { inc(&FREES); grow(-(l.size() as i64)); System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { inc(&ALLOCS); inc(&FREES); grow(n as i64 - l.size() as i64); System.realloc(p, l, n) }
}
#[global_allocator]
static GLOBAL: Counting = Counting;

/// an element, or part of a key, that counts what is done to it
#[derive(Debug)]
#[repr(transparent)]
struct N(u16);
impl Clone for N { fn clone(&self) -> N { inc(&CLONES); N(self.0) } }
impl PartialEq for N { fn eq(&self, o: &N) -> bool { inc(&CMPS); self.0 == o.0 } }
impl Eq for N {}
impl PartialOrd for N { fn partial_cmp(&self, o: &N) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for N { fn cmp(&self, o: &N) -> Ordering { inc(&CMPS); self.0.cmp(&o.0) } }
#[derive(Clone, Copy, Debug)]
#[repr(transparent)]
struct L(u8);
impl PartialEq for L { fn eq(&self, o: &L) -> bool { inc(&CMPS); self.0 == o.0 } }
impl Eq for L {}
impl PartialOrd for L { fn partial_cmp(&self, o: &L) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for L { fn cmp(&self, o: &L) -> Ordering { inc(&CMPS); self.0.cmp(&o.0) } }
/// an element that counts how many of it there are
#[derive(Debug)]
struct P(u16);
thread_local! {
    static LIVE: Cell<usize> = const { Cell::new(0) };
    static PEAK: Cell<usize> = const { Cell::new(0) };
}
impl P { fn new(x: u16) -> P { LIVE.set(LIVE.get() + 1); PEAK.set(PEAK.get().max(LIVE.get())); P(x) } }
impl Drop for P { fn drop(&mut self) { let _ = LIVE.try_with(|l| l.set(l.get() - 1)); } }
impl PartialEq for P { fn eq(&self, o: &P) -> bool { self.0 == o.0 } }
impl Eq for P {}
impl PartialOrd for P { fn partial_cmp(&self, o: &P) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for P { fn cmp(&self, o: &P) -> Ordering { self.0.cmp(&o.0) } }
/// building from an iterator never holds more than twice what comes out, a handful aside
fn peak<R>(cx: &mut Cx, what: &str, len: impl Fn(&R) -> usize, f: impl FnOnce() -> R) {
    let before = LIVE.get();
    PEAK.set(before);
    let r = f();
    let (held, n) = (PEAK.get() - before, len(&r));
    cx.op();
    if held > 2 * n + 20 { fail!("{what}: {held} elements held at once to make a collection of {n}") }
}
macro_rules! plain { ($t:ty) => {
    impl Archive for $t { type Archived = $t; type Resolver = (); unsafe fn resolve(&self, _: usize, _: (), out: *mut $t) { out.write(<$t>::from_raw(self.0)) } }
    impl<S: rkyv::Fallible + ?Sized> rkyv::Serialize<S> for $t { fn serialize(&self, _: &mut S) -> Result<(), S::Error> { Ok(()) } }
    impl<D: rkyv::Fallible + ?Sized> rkyv::Deserialize<$t, D> for $t { fn deserialize(&self, _: &mut D) -> Result<$t, D::Error> { Ok(<$t>::from_raw(self.0)) } }
} }
impl N { fn from_raw(x: u16) -> N { N(x) } }
impl L { fn from_raw(x: u8) -> L { L(x) } }
plain!(N);
plain!(L);

#[derive(Clone, Copy, Debug)]
struct Cost { cmps: u64, clones: u64, allocs: u64, live: i64, bytes: i64 }
fn cost<R>(f: impl FnOnce() -> R) -> (R, Cost) {
    let now = || (CMPS.get(), CLONES.get(), ALLOCS.get(), FREES.get(), BYTES.get());
    let a = now();
    let r = f();
    let b = now();
    (r, Cost { cmps: b.0 - a.0, clones: b.1 - a.1, allocs: b.2 - a.2, live: (b.2 - a.2) as i64 - (b.3 - a.3) as i64, bytes: b.4 - a.4 })
}
/// what an operation may cost
#[derive(Clone, Copy)]
struct Max { cmps: u64, clones: u64, allocs: u64 }
const ANY: u64 = u64::MAX;
fn check(cx: &mut Cx, what: &str, c: Cost, m: Max) {
    cx.op();
    for (k, a, b) in [("comparisons", c.cmps, m.cmps), ("clones", c.clones, m.clones), ("allocations", c.allocs, m.allocs)] {
        if a > b { fail!("{what}: {a} {k}, more than {b}") }
    }
}
/// halvings of n
fn lg(n: usize) -> u64 { (n as u64 + 1).next_power_of_two().trailing_zeros() as u64 }
/// a search by halving, with room for two comparisons a step
fn search(n: usize) -> u64 { 3 * lg(n) + 6 }
/// comparisons to merge n with m
fn merging(n: usize, m: usize) -> u64 {
    let (s, l) = (n.min(m) as u64, n.max(m));
    (3 * (n + m) as u64).min((s + 1) * search(l)) + 6
}

type S = VecSet<[N; 8]>;
type S2 = VecSet<[N; 2]>;
type M = VecMap<[(N, N); 8]>;
fn set(v: &[u16]) -> S { v.iter().map(|x| N(*x)).collect() }
fn map(v: &[u16]) -> M { v.iter().map(|x| (N(*x), N(*x))).collect() }
fn bytes<T: rkyv::Serialize<rkyv::ser::serializers::AllocSerializer<256>>>(t: &T) -> rkyv::AlignedVec { archive(t) }

// -- merging operations -----------------------------------------------------------------------------
fn merge_case(a: &[u16], b: &[u16], cx: &mut Cx) {
    let (n, m) = (a.len(), b.len());
    let ina = |x: &u16| a.binary_search(x).is_ok();
    let inb = |x: &u16| b.binary_search(x).is_ok();
    let both = a.iter().filter(|x| inb(x)).count() as u64;
    let right = m as u64 - b.iter().filter(|x| ina(x)).count() as u64;
    let left = n as u64 - both;
    cx.nontrivial_if(both > 0 && left > 0 && right > 0);
    let cmps = merging(n, m);
    let inline = n <= 8 && m <= 8 && left + both + right <= 8;
    let allocs = if inline { 0 } else { 2 * lg(n + m) + 2 };
    let mx = |clones: u64| Max { cmps, clones, allocs };
    let (x, y) = (set(a), set(b));
    let y2: S2 = b.iter().map(|x| N(*x)).collect();
    let (ba, bb) = (bytes(&x), bytes(&y));
    let (ax, ay) = unsafe { (rkyv::archived_root::<S>(&ba), rkyv::archived_root::<S>(&bb)) };
    macro_rules! o { ($what:expr, $e:expr, $m:expr) => {{
        let (r, c) = cost(|| $e);
        check(cx, $what, c, $m);
        let _ = r;
    }} }
    /// a result of its own: also at most one allocation stays alive
    macro_rules! own { ($what:expr, $e:expr, $m:expr) => {{
        let (r, c) = cost(|| $e);
        check(cx, $what, c, $m);
        if c.live > 1 { fail!("{}: the result holds {} allocations", $what, c.live) }
        let _ = r;
    }} }
    own!("a & b", &x & &y, mx(both));
    own!("a | b", &x | &y, mx(left + both + right));
    own!("a ^ b", &x ^ &y, mx(left + right));
    own!("a - b", &x - &y, mx(left));
    own!("a.intersection(archived b)", x.intersection(ay), mx(both));
    own!("a.union(archived b)", x.union(ay), mx(left + both + right));
    own!("archived a.symmetric_difference(b)", AbstractVecSet::symmetric_difference::<[N; 8]>(ax, &y), mx(left + right));
    own!("archived a.difference(archived b)", AbstractVecSet::difference::<[N; 8]>(ax, ay), mx(left));
    let none = Max { cmps, clones: 0, allocs: 0 };
    o!("is_disjoint", x.is_disjoint(&y), none);
    o!("is_disjoint archived", ax.is_disjoint(ay), none);
    o!("is_subset", x.is_subset(&y), none);
    o!("is_subset archived", x.is_subset(ay), none);
    o!("is_superset", x.is_superset(&y), none);
    let lex = Max { cmps: 2 * n.min(m) as u64 + 2, clones: 0, allocs: 0 };
    o!("==", x == y, lex);
    o!("cmp", x.cmp(&y), lex);
    macro_rules! place { ($what:literal, $op:tt, $max:expr) => {{
        let mut z = x.clone();
        o!(concat!("a ", $what, " b"), z $op &y, $max);
        let (mut z, w) = (x.clone(), y2.clone());
        o!(concat!("a ", $what, " b by value"), z $op w, Max { clones: 0, ..$max });
    }} }
    // what can only remove never needs memory
    place!("&=", &=, none);
    place!("|=", |=, mx(right));
    place!("^=", ^=, mx(right));
    place!("-=", -=, none);
    let mut z = x.clone();
    o!("union_with", z.union_with(ay), mx(right));
    let mut z = x.clone();
    o!("intersection_with", z.intersection_with(ay), none);
    let mut z = x.clone();
    o!("xor_with", z.xor_with(ay), mx(right));
    let mut z = x.clone();
    o!("difference_with", z.difference_with(ay), none);
    // total sets: merging and never an extra pass
    for (p, q) in [(false, false), (false, true), (true, false), (true, true)] {
        let t = |s: &S, neg: bool| { let t = TotalVecSet::<[N; 8]>::from(s.clone()); if neg { !t } else { t } };
        let (t, u) = (t(&x, p), t(&y, q));
        let all = mx(left + both + right);
        own!("total &", &t & &u, all);
        own!("total |", &t | &u, all);
        own!("total ^", &t ^ &u, all);
        own!("total -", &t - &u, all);
        o!("total is_subset", t.is_subset(&u), none);
        o!("total is_disjoint", t.is_disjoint(&u), none);
        let mut z = t.clone();
        let w = u.clone();
        o!("total |=", z |= w, all);
        let (mut z, w) = (t.clone(), u.clone());
        o!("total &=", z &= w, all);
    }
    // joins: the keys of the result, and the values the function makes
    let (u, v) = (map(a), map(b));
    let (bu, bv) = (bytes(&u), bytes(&v));
    let (_au, av) = unsafe { (rkyv::archived_root::<M>(&bu), rkyv::archived_root::<M>(&bv)) };
    let nv = || Some(N(0));
    own!("outer_join", AbstractVecMap::outer_join::<_, _, _, [(N, N); 8]>(&u, &v, |_| nv()), mx(left + both + right));
    own!("left_join", AbstractVecMap::left_join::<_, _, _, [(N, N); 8]>(&u, &v, |_, _, _| nv()), mx(left + both));
    own!("right_join", AbstractVecMap::right_join::<_, _, _, [(N, N); 8]>(&u, av, |_, _, _| nv()), mx(right + both));
    own!("inner_join", AbstractVecMap::inner_join::<_, _, _, [(N, N); 8]>(&u, av, |_, _, _| nv()), mx(both));
    let mut z = u.clone();
    o!("outer_join_with", z.outer_join_with(&v, |_| nv()), mx(right));
    let mut z = u.clone();
    o!("left_join_with", z.left_join_with(&v, |_, _, _| nv()), none);
    let mut z = u.clone();
    o!("right_join_with", z.right_join_with(av, |_, _, _| nv()), mx(right));
    let mut z = u.clone();
    o!("inner_join_with", z.inner_join_with(av, |_, _, _| nv()), none);
    let (mut z, w) = (u.clone(), v.clone());
    o!("merge_with", z.merge_with(w), mx(0));
    let (mut z, w) = (u.clone(), v.clone());
    o!("combine_with", z.combine_with(w, |a, _| a), mx(0));
}
fn small(n: usize) -> Box<dyn Space> {
    let at = Atoms::unit(n);
    let at2 = at.clone();
    idx(format!("merge-pairs-{n}"), format!("all pairs of sets and of maps over {n} keys: comparisons, clones and allocations of every merging operation"), at.masks() * at.masks(),
        move |i, cx| { let (x, y) = pair(i, at.masks()); merge_case(&at.elems(x), &at.elems(y), cx) },
        move |i| { let (x, y) = pair(i, at2.masks()); format!("A={:?} B={:?}", at2.elems(x), at2.elems(y)) })
}
fn large(name: &str, what: &str, ps: Vec<(Vec<u16>, Vec<u16>)>) -> Box<dyn Space> {
    let ps = Arc::new(ps);
    let ps2 = ps.clone();
    idx(format!("merge-{name}"), format!("{what}: comparisons, clones and allocations of every merging operation"), ps.len() as u64,
        move |i, cx| { let (a, b) = &ps[i as usize]; merge_case(a, b, cx) },
        move |i| { let (a, b) = &ps2[i as usize]; format!("A={} B={}", runs(a), runs(b)) })
}

// -- lookups and single changes -----------------------------------------------------------------------
fn lookups(lens: &'static [usize]) -> Box<dyn Space> {
    idx("lookups", format!("sets, maps and total collections of {} lengths up to {}, owned and archived: comparisons of the lookup of every element and of everything between; insertion and removal of those up to 1100 elements", lens.len(), lens.iter().max().unwrap()), lens.len() as u64,
        move |i, cx| {
            let n = lens[i as usize];
            let keys: Vec<u16> = (0..n as u16).map(|i| 2 * i + 2).collect();
            let (s, m) = (set(&keys), map(&keys));
            let (bs, bm) = (bytes(&s), bytes(&m));
            let (sa, ma) = unsafe { (rkyv::archived_root::<S>(&bs), rkyv::archived_root::<M>(&bm)) };
            let ts = TotalVecSet::<[N; 8]>::from(s.clone());
            let tm = TotalVecMap::<N, [(N, N); 8]>::new(m.clone(), N(0));
            let q = Max { cmps: search(n), clones: 0, allocs: 0 };
            for p in 0..2 * n as u16 + 4 {
                let k = N(p);
                check(cx, "contains", cost(|| s.contains(&k)).1, q);
                check(cx, "archived contains", cost(|| sa.contains(&k)).1, q);
                check(cx, "total set contains", cost(|| ts.contains(&k)).1, q);
                check(cx, "get", cost(|| m.get(&k).is_some()).1, q);
                check(cx, "archived get", cost(|| ma.get(&k).is_some()).1, q);
                check(cx, "total map get", cost(|| tm[&k].0).1, q);
                if n > 1100 { continue }
                let one = Max { cmps: search(n), clones: 0, allocs: 1 };
                let mut z = s.clone();
                let k = N(p);
                check(cx, "insert", cost(|| z.insert(k)).1, one);
                let mut z = s.clone();
                let k = N(p);
                check(cx, "remove", cost(|| z.remove(&k)).1, one);
                let (mut z, k) = (m.clone(), N(p));
                check(cx, "map insert", cost(|| z.insert(k, N(1))).1, one);
                let (mut z, k) = (m.clone(), N(p));
                check(cx, "get_mut", cost(|| z.get_mut(&k).is_some()).1, q);
                let (mut z, k) = (ts.clone(), N(p));
                check(cx, "total insert", cost(|| z.insert(k)).1, one);
                let (mut z, k) = (ts.clone(), N(p));
                check(cx, "total remove", cost(|| z.remove(&k)).1, one);
            }
            let z = Max { cmps: 0, clones: 0, allocs: 0 };
            check(cx, "iter", cost(|| s.iter().count()).1, z);
            check(cx, "map iter", cost(|| m.iter().count()).1, z);
            let mut t = s.clone();
            check(cx, "retain", cost(|| t.retain(|x| x.0 % 3 == 0)).1, z);
            let mut t = m.clone();
            check(cx, "map retain", cost(|| t.retain(|x| x.0.0 % 3 == 0)).1, z);
            let t = s.clone();
            check(cx, "into_iter", cost(|| t.into_iter().count()).1, z);
            cx.nontrivial_if(n > 1);
        },
        move |i| format!("{} elements", lens[i as usize]))
}

// -- construction ---------------------------------------------------------------------------------------
fn build_case(w: &[u16], cx: &mut Cx) {
    let n = w.len();
    let log = lg(n) + 1;
    let sorted = w.windows(2).all(|x| x[0] <= x[1]);
    let cmps = if sorted { 4 * n as u64 + 4 } else { 4 * n as u64 * log * log + 4 };
    // the sort may want memory of its own, for more than a handful of elements
    let allocs = if n <= 8 { 0 } else { ANY };
    let mx = Max { cmps, clones: 0, allocs };
    let v = || w.iter().map(|x| N(*x)).collect::<Vec<_>>();
    let kv = || w.iter().map(|x| (N(*x), N(*x))).collect::<Vec<_>>();
    macro_rules! own { ($what:expr, $e:expr, $m:expr) => {{
        let (r, c) = cost(|| $e);
        check(cx, $what, c, $m);
        if c.live > 1 { fail!("{}: the result holds {} allocations", $what, c.live) }
        let _ = r;
    }} }
    own!("collect", w.iter().map(|x| N(*x)).collect::<S>(), mx);
    own!("collect map", w.iter().map(|x| (N(*x), N(*x))).collect::<M>(), mx);
    let x = v();
    own!("from vec", S::from(x), Max { allocs: ANY, ..mx });
    let x = kv();
    own!("collect map from vec", x.into_iter().collect::<M>(), mx);
    let x = v();
    own!("extend an empty set", { let mut s = S::empty(); s.extend(x); s }, mx);
    let x = kv();
    own!("extend an empty map", { let mut s = M::empty(); s.extend(x); s }, mx);
    type PS = VecSet<[P; 8]>;
    type PM = VecMap<[(P, u16); 2]>;
    let ps = || w.iter().map(|x| P::new(*x));
    peak(cx, "collect", |s: &PS| s.len(), || ps().collect());
    peak(cx, "extend an empty set", |s: &PS| s.len(), || { let mut s = PS::empty(); s.extend(ps()); s });
    peak(cx, "collect a map", |m: &PM| m.len(), || ps().map(|k| (k, 1)).collect());
    // from a standard collection: already sorted
    let b: std::collections::BTreeSet<N> = w.iter().map(|x| N(*x)).collect();
    let m = Max { cmps: 4 * n as u64 + 4, clones: 0, allocs };
    own!("from BTreeSet", S::from(b), m);
    let b: std::collections::BTreeMap<N, N> = w.iter().map(|x| (N(*x), N(*x))).collect();
    own!("from BTreeMap", M::from(b), m);
    cx.nontrivial_if(!sorted);
}
fn built(s: seqs::Seqs) -> Box<dyn Space> {
    let s = Arc::new(s);
    let s2 = s.clone();
    idx(format!("build-{}", s.name), format!("{}: comparisons, clones and allocations to make sets and maps of it", s.about), s.size, move |i, cx| build_case(&(s.gen)(i), cx), move |i| { let w = (s2.gen)(i); format!("{} elements starting {:?}", w.len(), &w[..w.len().min(20)]) })
}
// -- radix trees ------------------------------------------------------------------------------------------
type Flat = RadixTree<L, N>;
type Shared = ArcRadixTree<L, N>;
type Lazy = LazyRadixTree<'static, L, N>;
fn ls(k: &[u8]) -> Vec<L> { k.iter().map(|x| L(*x)).collect() }
fn plant<T: AbstractRadixTreeMut<L, N>>(keys: &[Vec<L>]) -> T {
    let mut t = T::empty();
    for (i, k) in keys.iter().enumerate() { t.insert(k, N(i as u16)) }
    t
}
/// the nodes on the way to a key: (children of each, the one where the search ends), and nodes below
fn path<'a, T: AbstractRadixTree<L, N>>(t: &'a T, mut key: &[L]) -> (Vec<usize>, &'a T) {
    let mut t = t;
    let mut out = vec![];
    loop {
        out.push(t.children().len());
        let p = t.prefix();
        let n = p.iter().zip(key).take_while(|(a, b)| a.0 == b.0).count();
        if n < p.len() || n == key.len() { return (out, t) }
        key = &key[n..];
        match t.children().iter().find(|c| c.prefix()[0].0 == key[0].0) { Some(c) => t = c, None => return (out, t) }
    }
}
fn nodes<T: AbstractRadixTree<L, N>>(t: &T) -> u64 { 1 + t.children().iter().map(nodes).sum::<u64>() }
fn depth<T: AbstractRadixTree<L, N>>(t: &T) -> u64 { 1 + t.children().iter().map(depth).max().unwrap_or(0) }
/// letters compared to find a key
fn finding(way: &[usize], len: usize) -> u64 { 3 * len as u64 + 4 + way.iter().map(|n| search(*n)).sum::<u64>() }

fn find_case<T: AbstractRadixTree<L, N>>(t: &T, what: &str, probes: &[Vec<L>], cx: &mut Cx) {
    for k in probes {
        let (way, _) = path(t, k);
        let q = Max { cmps: finding(&way, k.len()), clones: 0, allocs: 0 };
        check(cx, &format!("get {what}"), cost(|| t.get(k).is_some()).1, q);
        check(cx, &format!("contains_key {what}"), cost(|| t.contains_key(k)).1, q);
        // starting a scan is finding its place
        let c = cost(|| { std::mem::forget(t.scan_prefix(k).next()) }).1;
        check(cx, &format!("scan_prefix {what}"), c, Max { cmps: q.cmps, clones: 0, allocs: ANY });
    }
    let z = Max { cmps: 0, clones: 0, allocs: 2 * lg(depth(t) as usize) + 4 };
    check(cx, &format!("values {what}"), cost(|| t.values().count()).1, z);
    check(cx, &format!("iter {what}"), cost(|| t.iter().count()).1, Max { allocs: ANY, ..z });
    check(cx, &format!("is_empty {what}"), cost(|| t.is_empty()).1, Max { cmps: 0, clones: 0, allocs: 0 });
}
fn letters<T: AbstractRadixTree<L, N>>(t: &T) -> usize { t.prefix().len() + t.children().iter().map(letters).sum::<usize>() }
/// a tree takes memory for its nodes and their letters
fn tree_fits<T: AbstractRadixTree<L, N>>(cx: &mut Cx, what: &str, f: impl FnOnce() -> T) {
    let (t, c) = cost(f);
    let (n, l) = (nodes(&t), letters(&t));
    cx.op();
    let most = 7 * n as usize * std::mem::size_of::<T>() + 4 * l + 64;
    if c.bytes > most as i64 { fail!("{what}: {} bytes for {n} nodes of {} bytes and {l} letters", c.bytes, std::mem::size_of::<T>()) }
}
fn tree_mem<T: AbstractRadixTreeMut<L, N>>(keys: &[Vec<L>], flat: &Flat, what: &str, cx: &mut Cx) where T: From<Flat> {
    tree_fits::<T>(cx, &format!("{what}, key by key"), || plant(keys));
    tree_fits::<T>(cx, &format!("{what}, converted"), || flat.clone().into());
    tree_fits::<T>(cx, &format!("{what}, joined from halves"), || {
        let (a, b): (Vec<_>, Vec<_>) = keys.iter().enumerate().partition(|x| x.0 % 2 == 0);
        let half = |v: Vec<(usize, &Vec<L>)>| plant::<T>(&v.into_iter().map(|x| x.1.clone()).collect::<Vec<_>>());
        half(a).union(&half(b))
    });
    tree_fits::<T>(cx, &format!("{what}, thinned out"), || {
        let mut t: T = flat.clone().into();
        let odd: Vec<_> = keys.iter().enumerate().filter(|x| x.0 % 2 == 1).map(|x| x.1.clone()).collect();
        t.difference_with(&plant::<Flat>(&odd));
        t
    });
}
/// operations on one tree; `shared`: a clone costs one node
fn tree_case<T: AbstractRadixTreeMut<L, N>>(mk: &dyn Fn() -> T, what: &str, shared: bool, probes: &[Vec<L>], cx: &mut Cx) {
    let t = mk();
    let size = nodes(&t);
    let vals = t.values().count() as u64;
    check(cx, &format!("clone {what}"), cost(|| t.clone()).1, if shared { Max { cmps: 0, clones: 3, allocs: 4 } } else { Max { cmps: 0, clones: vals, allocs: 2 * size } });
    for k in probes {
        let (way, end) = path(&t, k);
        let find = finding(&way, k.len());
        // the selected part is shared, or copied once
        let below = if shared { Max { cmps: find, clones: 3, allocs: 8 } } else { Max { cmps: find, clones: end.values().count() as u64, allocs: 2 * nodes(end) + 4 } };
        check(cx, &format!("filter_prefix {what}"), cost(|| t.filter_prefix(k)).1, below);
        let mut z = mk();
        check(cx, &format!("prepend {what}"), cost(|| z.prepend(k)).1, Max { cmps: 0, clones: 0, allocs: 2 });
        // changes touch the nodes on the way; those of a snapshot are copied, a node with its children at a time
        let fan: u64 = way.iter().map(|n| *n as u64).sum();
        let steps = way.len() as u64;
        let one = plant::<Flat>(&[k.clone()]);
        type Change<'a, T> = (&'a str, &'a dyn Fn(&mut T));
        let (k1, one1) = (k.clone(), one.clone());
        let changes: [Change<T>; 5] = [
            ("insert", &|z| z.insert(&k1, N(7))),
            ("difference_with one key", &|z| z.difference_with(&one1)),
            ("left_combine_with one key", &|z| z.left_combine_with(&one1, |v, _| { v.0 = 9; true })),
            ("remove_prefix_with one key", &|z| z.remove_prefix_with(&one1, |_| true)),
            ("intersection_with one key", &|z| z.intersection_with(&one1)),
        ];
        for (name, f) in changes {
            let mut z = mk();
            let c = cost(|| f(&mut z)).1;
            check(cx, &format!("{name}, {what}"), c, Max { cmps: 4 * find, clones: fan + steps + 4, allocs: 4 * (fan + steps) + 16 });
            if shared {
                let mut z = mk();
                let snap = z.clone();
                let c = cost(|| f(&mut z)).1;
                check(cx, &format!("{name}, {what} with a snapshot"), c, Max { cmps: 4 * find, clones: fan + steps + 4, allocs: 4 * (fan + steps) + 16 });
                drop(snap);
            }
        }
        // these may look at every child on the way, but at none beside it
        let q = Max { cmps: 4 * (find + fan), clones: 0, allocs: 0 };
        check(cx, &format!("intersects one key, {what}"), cost(|| t.intersects(&one)).1, q);
        check(cx, &format!("is_superset of one key, {what}"), cost(|| t.is_superset(&one)).1, q);
        check(cx, &format!("is_subset of one key, {what}"), cost(|| t.is_subset(&one)).1, q);
        check(cx, &format!("one key is_subset of, {what}"), cost(|| one.is_subset(&t)).1, q);
    }
}
fn trees(u: Uni) -> Box<dyn Space> {
    let u = Arc::new(u);
    let u2 = u.clone();
    idx(format!("trees-{}", u.name), format!("{}: comparisons, clones and allocations of lookups, prefix operations, snapshots and changes by one key, for every flavour and archive", u.about()), u.len(),
        move |i, cx| {
            let own: Vec<Key> = u.subsets[i as usize].iter().map(|k| u.keys[*k as usize].clone()).collect();
            let mut probes = around(&own, &[0, 1, 7, 255]);
            if probes.len() > 120 { let n = probes.len() / 120 + 1; probes = probes.into_iter().enumerate().filter(|(i, _)| i % n == 0).map(|x| x.1).collect() }
            let probes: Vec<Vec<L>> = probes.iter().map(|k| ls(k)).collect();
            let keys: Vec<Vec<L>> = own.iter().map(|k| ls(k)).collect();
            let flat: Flat = plant(&keys);
            let arc: Shared = plant(&keys);
            let (bf, ba, bl) = (archive(&flat), archive(&arc), archive(&Lazy::from(flat.clone())));
            let (af, aa, al) = unsafe { (rkyv::archived_root::<Flat>(&bf), rkyv::archived_root::<Shared>(&ba), rkyv::archived_root::<Lazy>(&bl)) };
            find_case(&flat, "in a flat tree", &probes, cx);
            find_case(&arc, "in a shared tree", &probes, cx);
            find_case(&Lazy::from(flat.clone()), "in a loaded lazy tree", &probes, cx);
            find_case(af, "in an archived flat tree", &probes, cx);
            find_case(aa, "in an archived shared tree", &probes, cx);
            find_case(al, "in an archived lazy tree", &probes, cx);
            tree_case::<Flat>(&|| flat.clone(), "flat tree", false, &probes, cx);
            tree_case::<Shared>(&|| Shared::from(flat.clone()), "shared tree", true, &probes, cx);
            tree_case::<Lazy>(&|| Lazy::from(flat.clone()), "lazy tree", true, &probes, cx);
            tree_fits::<Flat>(cx, "flat tree, collected", || keys.iter().enumerate().map(|(i, k)| (k.clone(), N(i as u16))).collect());
            tree_mem::<Flat>(&keys, &flat, "flat tree", cx);
            tree_mem::<Shared>(&keys, &flat, "shared tree", cx);
            tree_mem::<Lazy>(&keys, &flat, "lazy tree", cx);
            for (what, n) in [("flat", bf.len()), ("shared", ba.len()), ("lazy", bl.len())] {
                let most = 80 * nodes(&flat) as usize + 2 * letters(&flat) + 128;
                cx.op();
                if n > most { fail!("archive of a {what} tree: {n} bytes for {} nodes and {} letters", nodes(&flat), letters(&flat)) }
            }
            cx.nontrivial_if(own.len() > 1);
        },
        move |i| format!("keys: {}", u2.show(i)))
}
// -- memory -------------------------------------------------------------------------------------------------
/// what a value says about its size
trait Held { fn n(&self) -> usize; const EACH: usize; }
impl Held for S { fn n(&self) -> usize { self.len() } const EACH: usize = std::mem::size_of::<N>(); }
impl Held for M { fn n(&self) -> usize { self.len() } const EACH: usize = std::mem::size_of::<(N, N)>(); }
impl Held for TotalVecMap<N, [(N, N); 8]> { fn n(&self) -> usize { self.non_default_mappings().len() } const EACH: usize = std::mem::size_of::<(N, N)>(); }
/// a collection made afresh: one allocation with some room in it, or none; `room`: elements it may have room for, per element
fn fits<R: Held>(cx: &mut Cx, what: &str, slack: usize, f: impl FnOnce() -> R) {
    let (r, c) = cost(f);
    held(cx, what, slack, r.n(), R::EACH, c)
}
fn held(cx: &mut Cx, what: &str, slack: usize, n: usize, each: usize, c: Cost) {
    cx.op();
    let most = (if slack > 0 { 6 } else { 3 } * n + 8 + slack) * each;
    if c.live > 1 { fail!("{what}: {n} elements in {} allocations", c.live) }
    if c.bytes > most as i64 { fail!("{what}: {} bytes for {n} elements of {each}", c.bytes) }
}
fn mem_case(a: &[u16], b: &[u16], cx: &mut Cx) {
    let (x, y) = (set(a), set(b));
    let (u, v) = (map(a), map(b));
    let (tx, ty) = (TotalVecSet::from(x.clone()), TotalVecSet::from(y.clone()));
    let (tu, tv) = (TotalVecMap::<N, [(N, N); 8]>::new(u.clone(), N(0)), TotalVecMap::<N, [(N, N); 8]>::new(v.clone(), N(0)));
    let (bx, bu) = (bytes(&x), bytes(&u));
    for (what, got, most) in [("a set", bx.len(), 2 * a.len()), ("a map", bu.len(), 4 * a.len())] {
        cx.op();
        if got > most + 64 { fail!("archive of {what} with {} elements: {got} bytes, and {most} for the elements", a.len()) }
    }
    let (ax, au) = unsafe { (rkyv::archived_root::<S>(&bx), rkyv::archived_root::<M>(&bu)) };
    let sum = |a: &N, b: &N| N(a.0.wrapping_add(b.0));
    cx.nontrivial_if(a.len() > 8 && b.len() > 8);
    fits(cx, "set clone", 0, || x.clone());
    fits(cx, "map clone", 0, || u.clone());
    fits(cx, "set &", 0, || &x & &y);
    fits(cx, "set |", 0, || &x | &y);
    fits(cx, "set ^", 0, || &x ^ &y);
    fits(cx, "set -", 0, || &x - &y);
    let both = a.iter().filter(|x| b.binary_search(x).is_ok()).count();
    let (n, m, nt) = (a.len(), b.len(), !&ty);
    macro_rules! total { ($what:literal, $n:expr, $e:expr) => {{ let (r, c) = cost(|| $e); held(cx, $what, 0, $n, 2, c); drop(r) }} }
    total!("total set &", both, &tx & &ty);
    total!("total set & with a complement", n - both, &tx & &nt);
    total!("total set |", n + m - both, &tx | &ty);
    total!("total set | with a complement", m - both, &tx | &nt);
    total!("total set ^", n + m - 2 * both, &tx ^ &ty);
    total!("total set -", n - both, &tx - &ty);
    total!("total set !", n, !&tx);
    fits(cx, "outer_join", 0, || AbstractVecMap::outer_join::<_, _, _, [(N, N); 8]>(&u, &v, |_| Some(N(0))));
    fits(cx, "left_join", 0, || AbstractVecMap::left_join::<_, _, _, [(N, N); 8]>(&u, &v, |_, _, _| Some(N(0))));
    fits(cx, "right_join", 0, || AbstractVecMap::right_join::<_, _, _, [(N, N); 8]>(&u, &v, |_, _, _| Some(N(0))));
    fits(cx, "inner_join", 0, || AbstractVecMap::inner_join::<_, _, _, [(N, N); 8]>(&u, &v, |_, _, _| Some(N(0))));
    fits(cx, "total map combine_ref", 0, || tu.combine_ref(&tv, sum));
    fits(cx, "total map supremum", 0, || tu.supremum(&tv));
    fits(cx, "set from archive", 0, || rkyv::Deserialize::<S, _>::deserialize(ax, &mut rkyv::Infallible).unwrap());
    fits(cx, "map from archive", 0, || rkyv::Deserialize::<M, _>::deserialize(au, &mut rkyv::Infallible).unwrap());
    fits(cx, "map_values", 0, || u.clone().map_values::<N, [(N, N); 8], _>(|v| v));
    fits(cx, "total map_values", 0, || tu.map_values::<N, _, [(N, N); 8]>(|v| N(v.0 % 7)));
    // from an iterator, with as many repetitions as there are of b in a
    fits(cx, "collect", 40, || a.iter().chain(b).map(|x| N(*x)).collect::<S>());
    fits(cx, "collect a map", 40, || a.iter().chain(b).map(|x| (N(*x), N(*x))).collect::<M>());
    fits(cx, "extend", 40, || { let mut s = S::empty(); s.extend(a.iter().chain(b).map(|x| N(*x))); s });
    fits(cx, "insert", 0, || { let mut s = S::empty(); for x in a.iter().take(300) { s.insert(N(*x)); } s });
    fits(cx, "insert into a map", 0, || { let mut s = M::empty(); for x in a.iter().take(300) { s.insert(N(*x), N(*x)); } s });
    // without any room
    macro_rules! tight { ($what:literal, $mk:expr, $op:expr) => { tight!($what, $mk, $op, S::len) }; ($what:literal, $mk:expr, $op:expr, $n:expr) => {{
        let (r, c) = cost(|| { let mut z = $mk; $op(&mut z); z.shrink_to_fit(); z });
        let n = $n(&r) as i64;
        cx.op();
        let want = if n <= 8 { 0 } else { n * 2 };
        if c.bytes != want { fail!("{} and shrink_to_fit: {} bytes for {n} elements of 2", $what, c.bytes) }
    }} }
    tight!("set clone", x.clone(), |_: &mut S| ());
    tight!("set -=", x.clone(), |z: &mut S| *z -= &y);
    tight!("set &=", x.clone(), |z: &mut S| *z &= &y);
    tight!("set |=", x.clone(), |z: &mut S| *z |= &y);
    tight!("set ^=", x.clone(), |z: &mut S| *z ^= &y);
    tight!("retain", x.clone(), |z: &mut S| z.retain(|x| x.0 % 3 == 0));
    tight!("total set &=", tx.clone(), |z: &mut TotalVecSet<[N; 8]>| *z &= ty.clone(), |_: &TotalVecSet<[N; 8]>| both);
}
fn memory() -> Vec<Box<dyn Space>> {
    let ps = Arc::new(grid(&LENS));
    let ps2 = ps.clone();
    let mut out = vec![idx("memory-grid", "pairs of 46 lengths up to 4099 in 14 relative positions: bytes held by everything made from them, afresh and after shrinking", ps.len() as u64,
        move |i, cx| { let (a, b) = &ps[i as usize]; mem_case(a, b, cx) },
        move |i| { let (a, b) = &ps2[i as usize]; format!("A={} B={}", runs(a), runs(b)) })];
    out.push(idx("memory-inline", "the values themselves, for 7 inline sizes and 3 element types: no larger than the small vector, and a flag or a default", 7,
        |i, cx| {
            use std::mem::size_of as z;
            use smallvec::SmallVec;
            fn one<T: 'static, const K: usize>(cx: &mut Cx) where [T; K]: smallvec::Array<Item = T>, [(T, u32); K]: smallvec::Array<Item = (T, u32)> {
                let (s, m) = (z::<SmallVec<[T; K]>>(), z::<SmallVec<[(T, u32); K]>>());
                let word = z::<usize>();
                for (what, got, most) in [
                    ("VecSet", z::<VecSet<[T; K]>>(), s), ("VecMap", z::<VecMap<[(T, u32); K]>>(), m),
                    ("TotalVecSet", z::<TotalVecSet<[T; K]>>(), s + word), ("TotalVecMap", z::<TotalVecMap<u32, [(T, u32); K]>>(), m + word)] {
                    cx.op();
                    if got > most { fail!("{what} with {K} inline elements of {} bytes: {got} bytes, more than {most}", z::<T>()) }
                }
            }
            macro_rules! all { ($k:literal) => { { one::<u8, $k>(cx); one::<u64, $k>(cx); one::<String, $k>(cx); } } }
            match i { 0 => all!(0), 1 => all!(1), 2 => all!(2), 3 => all!(3), 4 => all!(4), 5 => all!(8), _ => all!(16) }
            cx.nontrivial_if(true);
        }, |i| format!("inline size {}", [0, 1, 2, 3, 4, 8, 16][i as usize])));
    out
}
fn spaces(th: bool) -> Vec<Box<dyn Space>> {
    let mut v = vec![
        small(if th { 10 } else { 8 }),
        large("grid", "pairs of 46 lengths up to 4099 in 14 relative positions", grid(&LENS)),
        lookups(&LENS),
        built(seqs::words(3, if th { 10 } else { 8 })), built(seqs::words(2, if th { 18 } else { 14 })), built(seqs::perms(if th { 8 } else { 6 })),
        built(seqs::displaced(40)), built(seqs::affine(40, &[17, 40, 65])), built(seqs::affine_large(&[64, 300, 4099], 7, &[100, 1000, 4099])),
        trees(u_small()), trees(u_spine()), trees(u_wide()), trees(u_deepwide()), trees(u_scaled(17)), trees(u_fan(0, &FAN)), trees(u_fan(2, &FAN_SHORT)),
        trees(u_long(2)), trees(u_chain(&[17, 65])), trees(u_bush()),
    ];
    v.extend(memory());
    if th {
        v.push(large("sweep", "a set of each of 30 lengths up to 300 against itself with one element more, fewer or replaced at every position", sweep(&(1..30).map(|i| i * 10).collect::<Vec<_>>())));
        v.extend([trees(u_letters(12)), trees(u_tern(5)), trees(u_mid(5)), trees(u_long(3)), trees(u_fan(17, &FAN))]);
    }
    v
}
fn main() {
    mc::run_main(Prop {
        id: "C21",
        level: "exploration",
        rule: "case by case: what an operation compared, cloned and allocated, against a bound in the sizes of its operands and its result",
        assumptions: &[
            "comparisons and clones are those of the element, key or value type (letters, for radix trees); allocations are those of the global allocator, in the thread that runs the operation",
            "the bounds leave room: a constant factor over what the documentation says, at least 1.5 over what the unchanged code does; only a cost of another order, a clone too many, or an allocation where there has to be none, is a violation",
            "radix trees: changes by one key are bounded by the children of the nodes on the way to it, not by the size of the tree; letters copied with a prefix are not counted",
            "memory: up to three times the elements (six, for what was collected from an iterator), seven times the nodes of a tree; exact after shrinking",
            "building: the bound on what is held at once, twice the result, is relaxed by 20 elements, since small collections are not compacted",
            "time itself is not measured",
        ],
        spaces,
    })
}
