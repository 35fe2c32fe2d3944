//! C14: snapshots of shared trees are isolated.
use mc::radix::*;
use mc::{bfs, check_tree, ensure, idx, Cx, Prop, Space, System};
use std::collections::BTreeMap;
use std::sync::Arc;
use vec_collections::radix_tree::{AbstractRadixTree, AbstractRadixTreeMut};

/// the two flavours with shared nodes
trait Tree: AbstractRadixTreeMut<u8, V, Materialized = Self> + 'static {
    const NAME: &'static str;
    /// kind 0: built in memory, 1: opened from an archive
    fn open(p: &Pre, kind: usize) -> Self;
    fn is_loaded(&self) -> bool;
    fn reopen(&self, keep: &mut Vec<Box<rkyv::AlignedVec>>) -> Self;
}
impl Tree for Shared {
    const NAME: &'static str = "shared";
    fn open(p: &Pre, kind: usize) -> Self { if kind == 0 { p.arc.clone() } else { Shared::from(p.aarc()) } }
    fn is_loaded(&self) -> bool { true }
    fn reopen(&self, _: &mut Vec<Box<rkyv::AlignedVec>>) -> Self {
        let b = archive(self);
        Shared::from(unsafe { rkyv::archived_root::<Shared>(&b) })
    }
}
impl Tree for LazyT {
    const NAME: &'static str = "lazy";
    fn open(p: &Pre, kind: usize) -> Self { if kind == 0 { p.lazy_loaded() } else { p.lazy() } }
    fn is_loaded(&self) -> bool {
        let mut m = BTreeMap::new();
        self.all_arcs(&mut m);
        !m.is_empty()
    }
    fn reopen(&self, keep: &mut Vec<Box<rkyv::AlignedVec>>) -> Self {
        let b = Box::new(archive(self));
        let v: &'static [u8] = unsafe { std::slice::from_raw_parts(b.as_ptr(), b.len()) };
        keep.push(b);
        LazyT::from(unsafe { rkyv::archived_root::<LazyT>(v) })
    }
}
/// structure of a handle including which nodes it shares with earlier ones and what is not loaded yet
fn shape<T: Tree>(t: &T, ids: &mut BTreeMap<usize, u16>, out: &mut Vec<u8>) {
    out.push(t.prefix().len() as u8);
    out.extend_from_slice(t.prefix());
    out.push(t.value().map_or(255, |v| *v as u8));
    if !t.is_loaded() { out.push(254); return }
    let c = t.children();
    if c.is_empty() { out.push(253); return }
    let n = ids.len() as u16;
    let p = c.as_ptr() as usize;
    let known = ids.contains_key(&p);
    out.extend_from_slice(&ids.entry(p).or_insert(n).to_le_bytes());
    if !known {
        out.push(c.len() as u8);
        for x in c { shape(x, ids, out) }
    }
}

#[derive(Clone, Copy, Debug)]
enum Op { Union, Swap, Inter, Diff, Remove, Retain }
#[derive(Clone, Debug)]
enum Act {
    Insert(usize, u16, V),
    Clone(usize, usize),
    Filter(usize, u16, usize),
    Bin(Op, usize, usize),
    /// handle 2 = a op b
    Copy(Op, usize, usize),
    Touch(usize),
    Get(usize, u16),
    Clear(usize),
    Reopen(usize),
}
struct Sys<T> { name: String, keys: Vec<Key>, n: usize, acts: Vec<Act>, inits: Vec<(Pre, usize, String)>, depth: usize, _t: std::marker::PhantomData<fn() -> T> }
impl<T: Tree> Sys<T> {
    fn new(name: &str, keys: Vec<Key>, n: usize, depth: usize, init_sets: &[&[usize]]) -> Self {
        let hot: Vec<u16> = (0..keys.len() as u16).collect();
        Self::hot(name, keys, &hot, n, depth, init_sets)
    }
    /// only the `hot` keys (by position) are inserted, looked up and used as prefixes
    fn hot(name: &str, mut keys: Vec<Key>, hot: &[u16], n: usize, depth: usize, init_sets: &[&[usize]]) -> Self {
        keys.sort();
        let mut acts = vec![];
        for h in 0..n {
            for k in hot { acts.push(Act::Insert(h, *k, 1)) }
            acts.push(Act::Insert(h, hot[hot.len() / 2], 2));
            for h2 in 0..n { if h != h2 { acts.push(Act::Clone(h, h2)); for op in [Op::Union, Op::Swap, Op::Inter, Op::Diff, Op::Remove, Op::Retain] { acts.push(Act::Bin(op, h, h2)) } } }
            for k in hot { acts.push(Act::Filter(h, *k, h)); acts.push(Act::Filter(h, *k, (h + 1) % n)) }
            acts.extend([Act::Touch(h), Act::Clear(h), Act::Reopen(h), Act::Get(h, hot[0]), Act::Get(h, hot[hot.len() - 1])]);
        }
        if n > 2 { for op in [Op::Union, Op::Inter, Op::Diff] { acts.push(Act::Copy(op, 0, 1)); acts.push(Act::Copy(op, 1, 0)) } }
        let mut inits = vec![];
        for s in init_sets {
            for kind in 0..2 {
                let e: Ents = s.iter().map(|k| (*k as u16, 1)).collect();
                let what = if s.len() > 20 { format!("{} keys from {:?}", s.len(), keys[s[0]]) } else { format!("keys {:?}", s.iter().map(|k| &keys[*k]).collect::<Vec<_>>()) };
                inits.push((Pre::from_ents(&keys, e), kind, format!("{} {what}", if kind == 0 { "built" } else { "opened" })));
            }
        }
        Sys { name: format!("handles{n}-{}-{name}", T::NAME), keys, n, acts, inits, depth, _t: Default::default() }
    }
}
type M = BTreeMap<u16, V>;
impl<T: Tree> System for Sys<T> {
    fn name(&self) -> String { self.name.clone() }
    fn about(&self) -> String { format!("{} handles to {} trees over {} keys, {} actions (mutate, clone, combine with one another, filter, reopen) from {} initial trees; state = all mappings, which nodes are shared by whom, what is loaded", self.n, T::NAME, self.keys.len(), self.acts.len(), self.inits.len()) }
    fn inits(&self) -> usize { self.inits.len() }
    fn actions(&self) -> usize { self.acts.len() }
    fn max_depth(&self) -> usize { self.depth }
    fn describe(&self, p: &[u16]) -> String { format!("all handles on {}: {}", self.inits[p[0] as usize].2, p[1..].iter().map(|a| format!("{:?}", self.acts[*a as usize])).collect::<Vec<_>>().join("; ")) }
    fn replay(&self, path: &[u16], cx: &mut Cx) -> Option<Vec<u8>> {
        let (pre, kind, _) = &self.inits[path[0] as usize];
        let t0 = T::open(pre, *kind);
        let mut ts: Vec<T> = (0..self.n).map(|_| t0.clone()).collect();
        drop(t0);
        let mut ms: Vec<M> = vec![pre.ents.iter().copied().collect(); self.n];
        let mut keep = vec![];
        let pfx = |a: u16, b: u16| self.keys[a as usize].starts_with(&self.keys[b as usize]);
        for (step, ai) in path[1..].iter().enumerate() {
            let before = if step + 2 == path.len() { Some(ms.clone()) } else { None };
            match &self.acts[*ai as usize] {
                Act::Insert(h, k, v) => { ms[*h].insert(*k, *v); ts[*h].insert(&self.keys[*k as usize], *v) }
                Act::Clone(a, b) => { ms[*b] = ms[*a].clone(); ts[*b] = ts[*a].clone() }
                Act::Filter(a, k, b) => {
                    let mut m = ms[*a].clone();
                    m.retain(|x, _| pfx(*x, *k));
                    ms[*b] = m;
                    ts[*b] = ts[*a].filter_prefix(&self.keys[*k as usize]);
                }
                Act::Bin(op, a, b) => {
                    let y = ms[*b].clone();
                    apply(*op, &mut ms[*a], &y, &pfx);
                    // borrow two different handles
                    let (x, y) = if a < b { let (l, r) = ts.split_at_mut(*b); (&mut l[*a], &r[0]) } else { let (l, r) = ts.split_at_mut(*a); (&mut r[0], &l[*b]) };
                    match op {
                        Op::Union => x.union_with(y),
                        Op::Swap => x.outer_combine_with(y, |p, q| { *p = 3 - *p; *q == 1 }),
                        Op::Inter => x.intersection_with(y),
                        Op::Diff => x.difference_with(y),
                        Op::Remove => x.remove_prefix_with(y, |_| true),
                        Op::Retain => x.retain_prefix_with(y, |_| true),
                    }
                }
                Act::Copy(op, a, b) => {
                    let mut m = ms[*a].clone();
                    apply(*op, &mut m, &ms[*b], &pfx);
                    ms[2] = m;
                    ts[2] = match op { Op::Union => ts[*a].union(&ts[*b]), Op::Inter => ts[*a].intersection(&ts[*b]), _ => ts[*a].difference(&ts[*b]) };
                }
                Act::Touch(h) => ensure!(ts[*h].iter().count() == ms[*h].len(), "iteration through handle {h}"),
                Act::Get(h, k) => ensure!(ts[*h].get(&self.keys[*k as usize]) == ms[*h].get(k), "lookup through handle {h}"),
                Act::Clear(h) => { ms[*h].clear(); ts[*h] = T::empty() }
                Act::Reopen(h) => ts[*h] = ts[*h].reopen(&mut keep),
            }
            cx.op();
            if let Some(b) = before { cx.nontrivial_if((0..self.n).any(|h| b[h] != ms[h]) && b.iter().filter(|m| m.len() > 1).count() > 1) }
        }
        let mut key = vec![];
        let mut ids = BTreeMap::new();
        for t in &ts { shape(t, &mut ids, &mut key); key.push(252) }
        // looking at a lazy tree loads it: look at clones, in both orders, then at the handles themselves
        let snaps: Vec<T> = ts.iter().cloned().collect();
        let wants: Vec<Ents> = ms.iter().map(|m| m.iter().map(|(k, v)| (*k, *v)).collect()).collect();
        for h in 0..self.n {
            check_tree!(&snaps[h], &self.keys, &wants[h], "clone of handle {h}");
            check_tree!(&ts[h], &self.keys, &wants[h], "handle {h}");
            let got: Vec<V> = ts[h].iter().map(|(_, v)| *v).collect();
            ensure!(got.iter().copied().eq(wants[h].iter().map(|e| e.1)), "iteration through handle {h}: {got:?}, expected {:?}", wants[h]);
            cx.ops(3);
        }
        // mutate every handle once more: the snapshots taken above must not move
        for t in &mut ts { t.outer_combine_with(&snaps[0], |a, _| { *a = 77; true }); t.insert(&[0, 0, 9], 99); t.remove_prefix_with(&T::single(&self.keys[1], 0), |_| true) }
        for h in 0..self.n { check_tree!(&snaps[h], &self.keys, &wants[h], "snapshot of handle {h} after changing the handles") }
        cx.ops(self.n as u64);
        drop(ts);
        for h in 0..self.n { check_tree!(&snaps[h], &self.keys, &wants[h], "snapshot of handle {h} after dropping the handles") }
        drop(snaps);
        Some(key)
    }
}
fn apply(op: Op, a: &mut M, b: &M, pfx: &dyn Fn(u16, u16) -> bool) {
    match op {
        Op::Union => for (k, v) in b { a.entry(*k).or_insert(*v); },
        Op::Swap => for (k, v) in b { match a.get(k).copied() { None => { a.insert(*k, *v); } Some(x) => if *v == 1 { a.insert(*k, 3 - x); } else { a.remove(k); } } },
        Op::Inter => a.retain(|k, _| b.contains_key(k)),
        Op::Diff => a.retain(|k, _| !b.contains_key(k)),
        Op::Remove => a.retain(|k, _| !b.keys().any(|p| pfx(*k, *p))),
        Op::Retain => a.retain(|k, _| b.keys().any(|p| pfx(*k, *p))),
    }
}

/// an iteration in progress is not disturbed by changes to a clone, for every position and change
fn paused<T: Tree>(u: Uni) -> Box<dyn Space> {
    let u = Arc::new(u);
    let u2 = u.clone();
    let n = u.len();
    idx(format!("paused-{}-{}", T::NAME, u.name), format!("{}: every pair (tree, second tree) x built/opened; every pause position (6 positions of trees with more than 12 entries) of iter and values while clones are changed in 9 ways", u.about()), n * n * 2,
        move |i, cx| {
            let (x, y, kind) = (i / 2 / n, i / 2 % n, (i % 2) as usize);
            let pa = Pre::new_unleaked(&u, x, L);
            let pb = Pre::new_unleaked(&u, y, R);
            let (a, b) = (T::open(&pa.p, kind), T::open(&pb.p, kind));
            let want = &pa.p.ents;
            cx.nontrivial_if(want.len() > 1 && !pb.p.ents.is_empty());
            let change = |c: &mut T, how: usize| match how {
                0 => c.union_with(&b),
                1 => c.difference_with(&b),
                2 => c.intersection_with(&b),
                3 => c.outer_combine_with(&b, |p, _| { *p = 5; true }),
                4 => c.remove_prefix_with(&b, |_| true),
                5 => c.retain_prefix_with(&b, |_| true),
                6 => c.prepend(&[3, 3]),
                7 => *c = T::empty(),
                _ => { let ks: Vec<Key> = c.iter().map(|(k, _)| k.to_vec()).collect(); for k in ks { c.insert(&k, 9) } }
            };
            // every position, of long iterations the interesting ones
            let n = want.len();
            let at: Vec<usize> = if n <= 12 { (0..=n).collect() } else { vec![0, 1, n / 3, n / 2, n - 1, n] };
            for pause in at {
                for how in 0..9 {
                    let t = T::open(&pa.p, kind);
                    let (mut it, mut vs) = (t.iter(), t.values());
                    let mut got = vec![];
                    for _ in 0..pause { got.push(it.next().map(|(k, v)| (k, *v)).unwrap()); vs.next(); }
                    let mut c = t.clone();
                    change(&mut c, how);
                    let mut c2 = a.clone();
                    change(&mut c2, how);
                    drop(c);
                    got.extend(it.map(|(k, v)| (k, *v)));
                    ensure!(got.len() == want.len() && got.iter().zip(want).all(|((k, v), w)| k.as_ref() as &[u8] == u.keys[w.0 as usize].as_slice() && *v == w.1), "iteration paused after {pause} entries while a clone was changed (way {how}) yields {:?}", got.iter().map(|(k, v)| (k.to_vec(), *v)).collect::<Vec<_>>());
                    ensure!(vs.copied().eq(want[pause..].iter().map(|e| e.1)), "values paused after {pause} entries while a clone was changed (way {how})");
                    cx.ops(2);
                }
            }
            check_tree!(&a, &u.keys, want, "tree whose clones were changed");
            check_tree!(&b, &u.keys, &pb.p.ents, "operand of changes to clones");
            cx.outcome(want);
        },
        move |i| format!("tree {} / second tree {} / {}", u2.show(i / 2 / n), u2.show(i / 2 % n), if i % 2 == 0 { "built" } else { "opened" }))
}
fn spaces(th: bool) -> Vec<Box<dyn Space>> {
    let k5: Vec<Key> = vec![vec![], vec![0], vec![0, 0], vec![0, 1], vec![1]];
    let deep: Vec<Key> = vec![vec![0], vec![0, 0, 0], vec![0, 0, 1], vec![0, 1], vec![0, 0, 0, 1]];
    let i5: &[&[usize]] = &[&[], &[0, 1, 2, 3, 4], &[2, 3, 4], &[1, 2, 3]];
    let id: &[&[usize]] = &[&[0, 1, 2, 3, 4], &[1, 2, 3], &[1, 2, 4]];
    let d = |q, t| if th { t } else { q };
    let mut v: Vec<Box<dyn Space>> = vec![];
    v.push(bfs(Sys::<Shared>::new("flat5", k5.clone(), 2, d(5, 8), i5)));
    v.push(bfs(Sys::<LazyT>::new("flat5", k5.clone(), 2, d(5, 7), i5)));
    v.push(bfs(Sys::<Shared>::new("deep5", deep.clone(), 2, d(5, 8), id)));
    v.push(bfs(Sys::<LazyT>::new("deep5", deep.clone(), 2, d(5, 7), id)));
    v.push(bfs(Sys::<Shared>::new("deep5", deep.clone(), 3, d(4, 5), id)));
    v.push(bfs(Sys::<LazyT>::new("deep5", deep, 3, d(4, 5), id)));
    v.push(paused::<Shared>(u_small()));
    v.push(paused::<LazyT>(u_small()));
    v.push(paused::<Shared>(u_mid(2)));
    v.push(paused::<LazyT>(u_mid(2)));
    // many children, deep chains, long keys
    let wide: Vec<Key> = (0..40).map(|x| vec![x]).chain((0..12).map(|x| vec![20, x])).chain([vec![], vec![20, 5, 1]]).collect();
    let ix = |keys: &[Key], f: &dyn Fn(&Key) -> bool| { let mut s = keys.to_vec(); s.sort(); (0..s.len()).filter(|i| f(&s[*i])).collect::<Vec<usize>>() };
    let pos = |keys: &[Key], ks: &[&[u8]]| ks.iter().map(|k| { let mut s = keys.to_vec(); s.sort(); s.iter().position(|x| x == k).unwrap() as u16 }).collect::<Vec<u16>>();
    let (w1, w2, w3) = (ix(&wide, &|_| true), ix(&wide, &|k| k.len() == 1), ix(&wide, &|k| k.len() > 1 || k.last().is_some_and(|x| x % 3 == 0)));
    let hot = pos(&wide, &[&[3], &[20], &[20, 5], &[39]]);
    v.push(bfs(Sys::<Shared>::hot("wide54", wide.clone(), &hot, 2, d(3, 4), &[&w1, &w2, &w3])));
    v.push(bfs(Sys::<LazyT>::hot("wide54", wide, &hot, 2, d(3, 4), &[&w1, &w2, &w3])));
    let chain: Vec<Key> = (0..40).map(|n| vec![3; n]).chain((0..40).step_by(6).map(|n| [vec![3; n], vec![4]].concat())).collect();
    let (c1, c2) = (ix(&chain, &|_| true), ix(&chain, &|k| k.len() % 3 == 0));
    let long = |n: usize, x: u8| [vec![3; n], vec![x]].concat();
    let hot = pos(&chain, &[&[], &long(17, 3), &long(18, 4), &long(38, 3)]);
    v.push(bfs(Sys::<Shared>::hot("chain47", chain.clone(), &hot, 2, d(3, 4), &[&c1, &c2])));
    v.push(bfs(Sys::<LazyT>::hot("chain47", chain, &hot, 2, d(3, 4), &[&c1, &c2])));
    v.push(paused::<Shared>(u_fan(1, &[9, 65, 256])));
    v.push(paused::<LazyT>(u_fan(0, &[9, 65, 256])));
    v.push(paused::<Shared>(u_chain(&[17, 40])));
    v.push(paused::<LazyT>(u_chain(&[33])));
    v.push(paused::<Shared>(u_long(2)));
    if th {
        v.push(paused::<Shared>(u_bush()));
        v.push(paused::<LazyT>(u_bush()));
        v.push(paused::<Shared>(u_mid(3)));
        v.push(paused::<LazyT>(u_mid(3)));
        v.push(paused::<Shared>(u_deepwide()));
        v.push(paused::<LazyT>(u_deepwide()));
    }
    v
}
fn main() {
    mc::run_main(Prop {
        id: "C14",
        level: "model_checking",
        rule: "histories: a state is the mappings of every handle plus which nodes are physically shared and which are unloaded, a transition one operation on one handle; inputs: a tree, a second tree and every pause position and change; distinct by construction; non-trivial: a handle changes while at least two handles hold two or more mappings",
        assumptions: &["sharing is observable through the addresses of the children slices", "2 or 3 handles over 5 keys (or 2 handles on trees of 47 and 54 keys, 4 of which are operated on), up to the stated depth"],
        spaces,
    })
}
