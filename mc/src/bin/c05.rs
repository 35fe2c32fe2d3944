//! C05: a map behaves like a sorted map under every operation history.
use mc::{bfs, elem, elem::E, ensure, ensure_eq, gen::*, seqs::Hinted, idx, iters::*, Cx, Prop, Space, System};
use std::cmp::Ordering;
use std::collections::{hash_map::DefaultHasher, BTreeMap};
use std::hash::{Hash, Hasher};
use std::sync::Arc;
use vec_collections::{AbstractVecMap, AbstractVecSet, Array, OuterJoinArg, VecMap, VecSet};

#[derive(Clone, Debug)]
enum Act {
    Insert(u16),
    GetMut(u16),
    Retain(u8),
    /// the sequence, and how its iterator reports its length
    Extend(Vec<u16>, u8),
    Merge(Vec<u16>, bool),
    Combine(Vec<u16>, bool),
    /// which join, right operand, decision rule
    Join(u8, Vec<u16>, u8),
    MapValues,
    CloneReplace,
    ViaIter,
    ViaInner,
    ViaBTree,
    ViaSet,
    Single(u16),
    Empty,
}
type M = Vec<(u16, u16)>;
fn rule(r: u8, k: u16) -> bool {
    match r { 0 => true, 1 => false, 2 => k % 4 == 0, 3 => k % 4 != 0, 4 => k > 4, 5 => k <= 4, _ => k % 3 == 0 }
}
fn build<A: Array<Item = (E, E)>>(ks: &[u16], t: u16, heap: bool) -> VecMap<A> {
    let mut m = VecMap::<A>::default();
    let it = ks.iter().map(|k| (E::new(*k, t), E::new(*k, t)));
    if heap {
        // grow past the inline capacity, then drop the surplus again
        let mut v: Vec<(E, E)> = it.collect();
        v.extend((0..40).map(|i| (E::new(10_000 + i, 0), E::new(10_000 + i, 0))));
        m = v.into_iter().collect();
        m.retain(|e| e.0.key < 10_000);
    } else {
        for (k, v) in it { m.insert(k, v); }
    }
    m
}

struct Sys<A: Array<Item = (E, E)>> { name: String, w: Vec<usize>, depth: usize, acts: Vec<Act>, probes: Vec<u16>, _a: std::marker::PhantomData<fn() -> A> }
impl<A: Array<Item = (E, E)>> Sys<A> {
    fn new(w: &[usize], depth: usize, operands: usize) -> Self {
        let at = Atoms::new(w);
        let mut acts = vec![];
        let mut singles = vec![];
        for i in 0..at.n() {
            let e = at.elems(1 << i);
            singles.push(e[0]);
            if e.len() > 1 { singles.push(*e.last().unwrap()) }
            if e.len() > 2 { singles.push(e[e.len() / 2]) }
        }
        for k in &singles { for h in 0..6 { acts.push(Act::Extend(vec![*k], h)) } acts.push(Act::Insert(*k)); acts.push(Act::GetMut(*k)) }
        for m in subsets_upto(at.n(), operands) {
            let k = at.elems(m);
            for heap in [false, true] { acts.push(Act::Merge(k.clone(), heap)); acts.push(Act::Combine(k.clone(), heap)) }
            for j in 0..4 { for r in [0, 2, 3] { acts.push(Act::Join(j, k.clone(), r)) } }
            let mut d = k.clone();
            d.extend(k.iter().rev());
            if d.is_empty() { acts.push(Act::Extend(d, 0)) } else {
                acts.push(Act::Extend(d, m as u8 % 6));
                acts.push(Act::Extend(k.clone(), (m as u8 + 3) % 6));
                let mut r = k.clone();
                r.reverse();
                r.push(r[0]);
                acts.push(Act::Extend(r, (m as u8 + 1) % 6));
            }
        }
        for r in 0..7 { acts.push(Act::Retain(r)) }
        acts.extend([Act::MapValues, Act::CloneReplace, Act::ViaIter, Act::ViaInner, Act::ViaBTree, Act::ViaSet, Act::Empty]);
        acts.push(Act::Single(singles[0]));
        acts.push(Act::Single(*singles.last().unwrap()));
        Sys { name: format!("map-cap{}-{w:?}", A::size()), w: w.to_vec(), depth, acts, probes: at.probes(), _a: std::marker::PhantomData }
    }
}
fn set(m: &mut M, k: u16, t: u16) -> Option<u16> {
    let old = m.iter().find(|e| e.0 == k).map(|e| e.1);
    m.retain(|e| e.0 != k);
    m.push((k, t));
    m.sort();
    old
}
impl<A: Array<Item = (E, E)>> System for Sys<A> {
    fn name(&self) -> String { self.name.clone() }
    fn about(&self) -> String { format!("one map of inline capacity {} over atoms {:?}; insert, update, retain, extend, merge, combine, in-place joins, value mapping, clone, conversions; state = keys, capacity, inline/heap", A::size(), self.w) }
    fn actions(&self) -> usize { self.acts.len() }
    fn max_depth(&self) -> usize { self.depth }
    fn describe(&self, p: &[u16]) -> String { p[1..].iter().map(|a| format!("{:?}", self.acts[*a as usize])).collect::<Vec<_>>().join("; ") }
    fn replay(&self, path: &[u16], cx: &mut Cx) -> Option<Vec<u8>> {
        elem::reset();
        let mut key = vec![];
        {
            let mut s: VecMap<A> = VecMap::empty();
            let mut m: M = vec![];
            for (step, a) in path[1..].iter().enumerate() {
                let a = &self.acts[*a as usize];
                let t = step as u16 + 1;
                cx.op();
                match a {
                    Act::Insert(k) => {
                        let old = s.insert(E::new(*k, t), E::new(*k, t));
                        ensure!(old.as_ref().is_none_or(|o| o.ok() && o.key == *k), "insert({k}) returned {old:?}");
                        ensure_eq!(old.map(|v| v.tag), set(&mut m, *k, t), "value replaced by insert({k})");
                    }
                    Act::GetMut(k) => {
                        let want = m.iter_mut().find(|e| e.0 == *k);
                        let got = s.get_mut(&E::new(*k, 0));
                        ensure!(got.is_some() == want.is_some(), "get_mut({k}) presence");
                        if let (Some(g), Some(w)) = (got, want) {
                            ensure_eq!(g.tag, w.1, "get_mut({k})");
                            *g = E::new(*k, 100 + t);
                            w.1 = 100 + t;
                        }
                    }
                    Act::Retain(r) => {
                        let mut seen = vec![];
                        s.retain(|e| { seen.push((e.0.key, e.1.tag)); rule(*r, e.0.key) });
                        seen.sort();
                        ensure_eq!(seen, m, "mappings shown to the retain predicate");
                        m.retain(|e| rule(*r, e.0));
                    }
                    Act::Extend(ks, hint) => {
                        s.extend(Hinted(ks.iter().enumerate().map(|(i, k)| (E::new(*k, 0), E::new(*k, t * 256 + i as u16))), *hint));
                        for (i, k) in ks.iter().enumerate() { set(&mut m, *k, t * 256 + i as u16); }
                    }
                    Act::Merge(ks, heap) => {
                        s.merge_with(build::<[(E, E); 4]>(ks, t, *heap));
                        for k in ks { set(&mut m, *k, t); }
                    }
                    Act::Combine(ks, heap) => {
                        let was = m.clone();
                        s.combine_with(build::<[(E, E); 4]>(ks, t, *heap), |l, r| {
                            ensure!(l.ok() && r.ok() && l.key == r.key && r.tag == t && was.contains(&(l.key, l.tag)), "combine called with left {l:?} right {r:?}");
                            E::new(l.key, l.tag.wrapping_mul(31) + r.tag + 1)
                        });
                        for k in ks { let o = was.iter().find(|e| e.0 == *k).map(|e| e.1); set(&mut m, *k, o.map_or(t, |o| o.wrapping_mul(31) + t + 1)); }
                    }
                    Act::Join(j, ks, r) => {
                        let y = build::<[(E, E); 2]>(ks, t, false);
                        let (was, keep) = (m.clone(), |k: u16| rule(*r, k));
                        let mix = |k: u16, l: Option<u16>, r: Option<u16>| (k, l.map_or(7, |x| x.wrapping_mul(31)).wrapping_add(r.map_or(3, |x| x + 1)));
                        let e = |p: (u16, u16)| E::new(p.0, p.1);
                        let f = |k: &E, l: Option<E>, r: Option<&E>| keep(k.key).then(|| e(mix(k.key, l.map(|x| x.tag), r.map(|x| x.tag))));
                        match j {
                            0 => s.outer_join_with(&y, |a| match a { OuterJoinArg::Left(k, l) => f(k, Some(l), None), OuterJoinArg::Right(k, r) => f(k, None, Some(r)), OuterJoinArg::Both(k, l, r) => f(k, Some(l), Some(r)) }),
                            1 => s.left_join_with(&y, |k, l, r| f(k, Some(l), r)),
                            2 => s.right_join_with(&y, |k, l, r| f(k, l, Some(r))),
                            _ => s.inner_join_with(&y, |k, l, r| f(k, Some(l), Some(r))),
                        }
                        let mut all: Vec<u16> = was.iter().map(|e| e.0).chain(ks.iter().copied()).collect();
                        all.sort();
                        all.dedup();
                        m = all.into_iter().filter(|k| keep(*k)).filter_map(|k| {
                            let l = was.iter().find(|e| e.0 == k).map(|e| e.1);
                            let r = ks.contains(&k).then_some(t);
                            let ranges = match j { 0 => true, 1 => l.is_some(), 2 => r.is_some(), _ => l.is_some() && r.is_some() };
                            ranges.then(|| mix(k, l, r))
                        }).collect();
                    }
                    Act::MapValues => {
                        let mut seen = vec![];
                        s = s.map_values(|v| { seen.push((v.key, v.tag)); E::new(v.key, v.tag.wrapping_add(1000)) });
                        seen.sort();
                        ensure_eq!(seen, m, "values shown to map_values");
                        for e in m.iter_mut() { e.1 = e.1.wrapping_add(1000) }
                    }
                    Act::CloneReplace => { let c = s.clone(); s = c }
                    Act::ViaIter => s = s.into_iter().collect(),
                    Act::ViaInner => s = s.into_inner().into_iter().collect(),
                    Act::ViaBTree => { let b: BTreeMap<E, E> = s.into_iter().collect(); s = b.into() }
                    Act::ViaSet => { let b: VecSet<A> = s.into(); ensure_eq!(b.len(), m.len(), "as a set"); s = b.into_iter().collect() }
                    Act::Single(k) => { s = VecMap::single((E::new(*k, t), E::new(*k, t))); m = vec![(*k, t)] }
                    Act::Empty => { s = VecMap::empty(); m.clear() }
                }
                ensure!(s.len() == m.len() && s.iter().zip(&m).all(|((k, v), e)| k.ok() && v.ok() && (k.key, v.tag) == *e && v.key == k.key),
                    "after step {step} ({a:?}): got {:?}, expected {:?}", s.iter().map(|(k, v)| (k.key, v.tag)).collect::<Vec<_>>(), m);
            }
            ensure_eq!(s.is_empty(), m.is_empty(), "is_empty");
            for p in &self.probes {
                let want = m.iter().find(|e| e.0 == *p).map(|e| e.1);
                ensure_eq!(s.get(&E::new(*p, 0)).map(|v| v.tag), want, "get({p}) in the final state");
            }
            cx.nontrivial_if(!m.is_empty());
            key.extend(s.iter().flat_map(|(k, _)| k.key.to_le_bytes()));
            let inner = s.into_inner();
            key.push(255);
            key.push(255);
            key.push(inner.spilled() as u8);
            key.extend((inner.capacity() as u16).to_le_bytes());
        }
        elem::check_clean(false);
        Some(key)
    }
}

fn h(x: &impl Hash) -> u64 { let mut s = DefaultHasher::new(); x.hash(&mut s); s.finish() }
fn decode(mut i: u64, n: usize, vals: u64) -> Vec<(u16, u16)> {
    let mut v = vec![];
    for k in 0..n { let d = i % (vals + 1); i /= vals + 1; if d > 0 { v.push((2 * k as u16 + 2, d as u16)) } }
    v
}
/// equality, ordering, hashing, lookup and iteration over all pairs of small maps
fn pairs(n: usize, vals: u64) -> Box<dyn Space> {
    let size = (vals + 1).pow(n as u32);
    type P = (Vec<(u16, u16)>, VecMap<[(u16, u16); 2]>, VecMap<[(u16, u16); 2]>);
    let pre: Arc<Vec<P>> = Arc::new((0..size).map(|i| {
        let l = decode(i, n, vals);
        let heap: VecMap<[(u16, u16); 2]> = { let mut m: VecMap<[(u16, u16); 2]> = l.iter().copied().chain((0..20).map(|i| (1000 + i, 0))).collect(); m.retain(|e| e.0 < 1000); m };
        (l.clone(), l.iter().copied().collect(), heap)
    }).collect());
    let p2 = pre.clone();
    idx(format!("map-pairs-{n}-{vals}"), format!("all pairs of maps from {n} keys to {vals} values: equality, order, hash, lookups, iteration, compact and heap storage"), size * size,
        move |i, cx| {
            let (a, b) = (&pre[(i / size) as usize], &pre[(i % size) as usize]);
            let o = a.0.cmp(&b.0);
            cx.ops(8);
            cx.nontrivial_if(!a.0.is_empty() && !b.0.is_empty() && o != Ordering::Equal);
            for (w, l, r) in [("compact/compact", &a.1, &b.1), ("compact/heap", &a.1, &b.2), ("heap/compact", &a.2, &b.1)] {
                ensure_eq!(l.cmp(r), o, "cmp {w}");
                ensure_eq!(l.partial_cmp(r), Some(o), "partial_cmp {w}");
                ensure!((l == r) == (o == Ordering::Equal) && (l != r) == (o != Ordering::Equal), "equality {w}");
                if o == Ordering::Equal { ensure!(h(l) == h(r), "hash {w}") }
            }
            if i / size == i % size {
                for (w, m) in [("compact", &a.1), ("heap", &a.2)] {
                    ensure_eq!(m.iter().copied().collect::<Vec<_>>(), a.0, "iter {w}");
                    ensure_eq!(m.into_iter().copied().collect::<Vec<_>>(), a.0, "by-reference into_iter {w}");
                    ensure_eq!(m.clone().into_iter().collect::<Vec<_>>(), a.0, "into_iter {w}");
                    ensure_eq!(m.as_ref().to_vec(), a.0, "as_ref {w}");
                    ensure_eq!(smallvec::SmallVec::from(m.clone()).to_vec(), a.0, "into SmallVec {w}");
                    let s: VecSet<[(u16, u16); 2]> = m.clone().into();
                    ensure_eq!(s.as_ref().to_vec(), a.0, "into VecSet {w}");
                    for p in &a.0 { ensure!(s.contains(p), "the set of mappings lost {p:?}") }
                    for k in 0..=2 * n as u16 + 3 {
                        let want = a.0.iter().find(|e| e.0 == k).map(|e| &e.1);
                        ensure_eq!(m.get(&k), want, "get({k}) {w}");
                        let mut c = m.clone();
                        ensure_eq!(c.get_mut(&k).map(|v| &*v), want, "get_mut({k}) {w}");
                    }
                    let (lo, hi) = m.iter().size_hint();
                    ensure!(lo <= a.0.len() && hi.is_none_or(|h| h >= a.0.len()), "size_hint {w}");
                    let up: VecMap<[(u16, u32); 1]> = m.clone().map_values(|v| v as u32 * 10);
                    ensure_eq!(up.as_ref().to_vec(), a.0.iter().map(|e| (e.0, e.1 as u32 * 10)).collect::<Vec<_>>(), "map_values {w}");
                }
            }
            cx.outcome((&a.0, o as i8));
        },
        move |i| format!("A={:?} B={:?}", p2[(i / size) as usize].0, p2[(i % size) as usize].0))
}
/// pairs of large maps; keys are strings too, looked up through a borrowed form
fn large(name: &str, what: &str, ps: Vec<(Vec<u16>, Vec<u16>)>) -> Box<dyn Space> {
    let ps = Arc::new(ps);
    let ps2 = ps.clone();
    idx(format!("map-large-{name}"), format!("{what}: equality, order, hash; every lookup and its neighbours, by key and by borrowed key, owned, mutable and archived"), ps.len() as u64,
        move |i, cx| {
            let (ka, kb) = &ps[i as usize];
            type V = VecMap<[(u16, u16); 4]>;
            let kv = |ks: &[u16], c: u16| ks.iter().map(|k| (*k, k % c)).collect::<Vec<_>>();
            cx.nontrivial_if(!ka.is_empty() && !kb.is_empty() && ka != kb);
            for c in [7, 5] {
                let (la, lb) = (kv(ka, 7), kv(kb, c));
                let (a, b): (V, V) = (la.iter().copied().collect(), lb.iter().copied().collect());
                let o = la.cmp(&lb);
                cx.ops(5);
                ensure_eq!(a.cmp(&b), o, "cmp");
                ensure_eq!(b.partial_cmp(&a), Some(o.reverse()), "partial_cmp");
                ensure!((a == b) == (la == lb) && (b != a) == (la != lb), "equality");
                if la == lb { ensure!(h(&a) == h(&b), "hash") }
                ensure!(a.iter().copied().eq(la.iter().copied()) && b.clone().into_iter().eq(lb.iter().copied()), "iteration");
            }
            let la = kv(ka, 7);
            let mut a: V = la.iter().copied().collect();
            let s: VecMap<[(String, u16); 2]> = la.iter().map(|e| (format!("{:05}", e.0), e.1)).collect();
            let mut ser = rkyv::ser::serializers::AllocSerializer::<256>::default();
            rkyv::ser::Serializer::serialize_value(&mut ser, &a).unwrap();
            let buf = ser.into_serializer().into_inner();
            let arch = unsafe { rkyv::archived_root::<V>(&buf) };
            ensure!(arch.as_slice() == la && arch.is_empty() == la.is_empty(), "archived mappings");
            ensure!(a.len() == la.len() && a.is_empty() == la.is_empty(), "len");
            let ina = member(ka);
            for k in ka.iter().chain(kb) {
                for p in [k - 1, *k, k + 1] {
                    let want = ina(p).then_some(p % 7);
                    cx.ops(4);
                    ensure_eq!(a.get(&p).copied(), want, "get({p})");
                    ensure_eq!(AbstractVecMap::get(&a, &p).copied(), want, "trait get({p})");
                    ensure_eq!(a.get_mut(&p).copied(), want, "get_mut({p})");
                    ensure_eq!(arch.get(&p).copied(), want, "archived get({p})");
                    if k % 8 == 2 { ensure_eq!(s.get(format!("{p:05}").as_str()).copied(), want, "get({p:?}) through &str") }
                }
            }
        },
        move |i| format!("A: {} B: {}", runs(&ps2[i as usize].0), runs(&ps2[i as usize].1)))
}
/// every script of iterator calls on every kind of map iterator
fn protocols(depth: usize, sizes: &'static [usize]) -> Box<dyn Space> {
    let sc = Arc::new(scripts(depth));
    let n = sc.len() as u64;
    let sc2 = sc.clone();
    idx(format!("iterator-protocol-{depth}"), format!("every sequence of up to {depth} next/nth calls, then each of {} ways of finishing, on owning, borrowing and archived iterators over {sizes:?} mappings", ENDS.len()), n * sizes.len() as u64,
        move |i, cx| {
            let (script, len) = (&sc[(i % n) as usize], sizes[(i / n) as usize]);
            let kvs: Vec<(u16, u16)> = (0..len as u16).map(|x| (3 * x + 1, 500 - x)).collect();
            let keys: Vec<u16> = kvs.iter().map(|e| e.0).collect();
            cx.nontrivial_if(len > 0 && !script.is_empty());
            cx.outcome((len, i % n));
            elem::reset();
            {
                let show = |e: (E, E)| { ensure!(e.0.ok() && e.1.ok(), "a dropped element was handed out"); (e.0.key, e.1.tag) };
                let exp: Vec<(u16, u16)> = keys.iter().map(|k| (*k, 9)).collect();
                for heap in [false, true] {
                    let m: VecMap<[(E, E); 4]> = build(&keys, 9, heap);
                    let w = if heap { "heap" } else { "compact" };
                    protocol(|| m.iter(), &exp, |(k, v)| (k.key, v.tag), script, &format!("iter() {w}"), cx);
                    protocol(|| (&m).into_iter(), &exp, |(k, v)| (k.key, v.tag), script, &format!("(&map).into_iter() {w}"), cx);
                    protocol(|| m.clone().into_iter(), &exp, show, script, &format!("into_iter() {w}"), cx);
                }
                let m: VecMap<[(u16, u16); 4]> = kvs.iter().copied().collect();
                let mut s = rkyv::ser::serializers::AllocSerializer::<256>::default();
                rkyv::ser::Serializer::serialize_value(&mut s, &m).unwrap();
                let b = s.into_serializer().into_inner();
                let a = unsafe { rkyv::archived_root::<VecMap<[(u16, u16); 4]>>(&b) };
                protocol(|| a.iter(), &kvs, |(k, v)| (*k, *v), script, "archived iter()", cx);
            }
            elem::check_clean(false);
        },
        move |i| format!("{} mappings, calls {:?}", sizes[(i / n) as usize], sc2[(i % n) as usize]))
}
fn spaces(th: bool) -> Vec<Box<dyn Space>> {
    let d = |q, t| if th { t } else { q };
    let mut v = vec![
        protocols(if th { 5 } else { 4 }, &[0, 1, 2, 3, 4, 5, 6, 8, 9, 17]),
        pairs(5, 2),
        pairs(3, 3),
        pairs(if th { 7 } else { 6 }, 2),
        bfs(Sys::<[(E, E); 1]>::new(&[1; 4], 40, 4)),
        bfs(Sys::<[(E, E); 2]>::new(&[1; 5], 40, d(3, 5))),
        bfs(Sys::<[(E, E); 4]>::new(&[1, 3, 1], 40, 3)),
        bfs(Sys::<[(E, E); 2]>::new(&[1, 9, 1, 2], d(6, 40), d(2, 4))),
        bfs(Sys::<[(E, E); 16]>::new(&[2, 9, 1, 7], d(5, 9), d(2, 4))),
        bfs(Sys::<[(E, E); 4]>::new(&[1; 9], d(5, 8), 2)),
        bfs(Sys::<[(E, E); 4]>::new(&[1, 70, 1, 150, 1], d(3, 4), 2)),
        bfs(Sys::<[(E, E); 64]>::new(&[30, 1, 33, 1], d(3, 5), 2)),
        bfs(Sys::<[(E, E); 2]>::new(&[256, 1, 600, 1], d(2, 3), 2)),
        large("grid", "pairs of maps of 46 lengths up to 4099 in 14 relative positions", grid(&LENS)),
        large("sweep", "maps of 9..300 mappings differing at one place, every place", sweep(&[9, 17, 33, 65, 130, 300])),
    ];
    { use mc::types::*; v.extend([maps::<(), u16>(), maps::<bool, String>(), maps::<u8, ()>(), maps::<i8, Box<i16>>(), maps::<u64, u8>(), maps::<i128, bool>(), maps::<Huge, i8>(), maps::<Rev, Huge>(), maps::<Fold, u64>(), maps::<String, Option<Vec<u8>>>(), maps::<Box<i16>, String>()]) }
    v.push(mc::huge::map_changes());
    v
}
fn main() {
    mc::run_main(Prop {
        id: "C05",
        level: "model_checking",
        rule: "a state is reached by replaying its action path on a fresh real map in lock step with a reference association list; states are merged when keys, capacity and storage kind agree; pair cases compare equality, order and hash; non-trivial: the final map is non-empty (pairs: both non-empty and different)",
        assumptions: &["the map's control flow depends only on its keys, capacity and storage kind, not on the values", "bounded universes and, where the space is not marked closed, bounded depth"],
        spaces,
    })
}
