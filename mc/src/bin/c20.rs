//! C20: every element is owned exactly once, even when callbacks panic.
use mc::elem::{self, tick, E, Z};
use mc::radix::*;
use mc::{catch_injected, ensure, gen::*, idx, Cx, Prop, Space};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;
use vec_collections::btree_map::{AbstractBTreeMap, InPlaceRelationalOps};
use vec_collections::radix_tree::{AbstractRadixTree, AbstractRadixTreeMut, ArcRadixTree, LazyRadixTree, RadixTree, TKey};
use vec_collections::total_vec_map::TotalVecMap;
use vec_collections::total_vec_set::TotalVecSet;
use vec_collections::{AbstractVecMap, AbstractVecSet, Array, OuterJoinArg, VecMap, VecSet};

/// Run `op` on a fresh state, first undisturbed, then once for each of its callbacks with a panic injected
/// into exactly that callback. `check` looks at what is left after every run, then everything is dropped.
fn inject<S>(what: &dyn Fn() -> String, cx: &mut Cx, build: impl Fn() -> S, op: impl Fn(&mut S), check: impl Fn(&mut S)) {
    let mut fuel = None;
    let mut total = 0;
    loop {
        let at = || match fuel { None => what(), Some(k) => format!("{} with a panic in callback {} of {total}", what(), k + 1) };
        elem::reset();
        let r = mc::guarded(|| {
            let mut s = build();
            elem::arm(fuel);
            let done = catch_injected(|| op(&mut s));
            let t = elem::ticks();
            elem::arm(None);
            ensure!(fuel.is_none() || done.is_none(), "the injected panic was swallowed");
            check(&mut s);
            drop(s);
            elem::check_clean(fuel.is_some());
            t
        });
        cx.op();
        match r {
            Err(m) => mc::fail!("{}: {m}", at()),
            Ok(t) => if fuel.is_none() { total = t },
        }
        let next = fuel.map_or(0, |k: u64| k + 1);
        if next >= total { break }
        fuel = Some(next);
    }
    cx.outcome(total);
    cx.nontrivial_if(total > 0);
}
fn alive(e: &E, what: &str) { ensure!(e.ok(), "{what} contains the dropped element {e:?}") }
fn is_set<A: Array<Item = E>>(s: &mut VecSet<A>, u: &[u16], what: &str) {
    for e in s.as_ref() { alive(e, what) }
    ensure!(s.as_ref().windows(2).all(|w| w[0].key < w[1].key), "{what} is not strictly sorted: {s:?}");
    ensure!(s.as_ref().iter().all(|e| u.contains(&e.key)), "{what} has a new element: {s:?}");
    // still usable
    let n = s.len();
    for k in u { ensure!(s.contains(&E::new(*k, 9)) == s.as_ref().iter().any(|e| e.key == *k), "{what}: contains") }
    ensure!(s.insert(E::new(29_999, 1)) && s.len() == n + 1 && s.remove(&E::new(29_999, 0)) && s.len() == n, "{what} cannot be used any more");
}
fn is_map<A: Array<Item = (E, E)>>(s: &mut VecMap<A>, u: &[u16], what: &str) {
    for e in s.as_ref() { alive(&e.0, what); alive(&e.1, what) }
    ensure!(s.as_ref().windows(2).all(|w| w[0].0.key < w[1].0.key), "{what} is not strictly sorted: {s:?}");
    ensure!(s.as_ref().iter().all(|e| u.contains(&e.0.key)), "{what} has a new key: {s:?}");
    let n = s.len();
    for k in u { ensure!(s.get(&E::new(*k, 9)).is_some() == s.as_ref().iter().any(|e| e.0.key == *k), "{what}: get") }
    ensure!(s.insert(E::new(29_999, 1), E::new(1, 1)).is_none() && s.len() == n + 1, "{what} cannot be used any more");
    s.retain(|e| e.0.key != 29_999);
    ensure!(s.len() == n, "{what} cannot be used any more");
}

// -- sets ----------------------------------------------------------------------------------------
type B2 = [E; 2];
struct Sets<A: Array<Item = E>> { a: Option<VecSet<A>>, b: Option<VecSet<B2>>, r: Option<VecSet<A>>, v: Vec<E> }
impl<A: Array<Item = E>> Sets<A> {
    fn a(&mut self) -> &mut VecSet<A> { self.a.as_mut().unwrap() }
    fn ab(&mut self) -> (&mut VecSet<A>, &VecSet<B2>) { (self.a.as_mut().unwrap(), self.b.as_ref().unwrap()) }
    fn both(&mut self) -> (&mut VecSet<A>, VecSet<B2>) { (self.a.as_mut().unwrap(), self.b.take().unwrap()) }
}
/// an iterator that calls back for every step
struct Ticking<I>(I);
impl<I: Iterator> Iterator for Ticking<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { tick(); self.0.next() }
    fn size_hint(&self) -> (usize, Option<usize>) { self.0.size_hint() }
}
type SetOp<A> = (&'static str, fn(&mut Sets<A>));
fn set_ops<A: Array<Item = E>>() -> Vec<SetOp<A>> {
    vec![
        ("union", |s| { let r = { let (a, b) = s.ab(); &*a | b }; s.r = Some(r) }),
        ("intersection", |s| { let r = { let (a, b) = s.ab(); &*a & b }; s.r = Some(r) }),
        ("difference", |s| { let r = { let (a, b) = s.ab(); &*a - b }; s.r = Some(r) }),
        ("symmetric difference", |s| { let r = { let (a, b) = s.ab(); &*a ^ b }; s.r = Some(r) }),
        ("|= set", |s| { let (a, b) = s.both(); *a |= b }),
        ("&= set", |s| { let (a, b) = s.both(); *a &= b }),
        ("-= set", |s| { let (a, b) = s.both(); *a -= b }),
        ("^= set", |s| { let (a, b) = s.both(); *a ^= b }),
        ("|= &set", |s| { let (a, b) = s.ab(); *a |= b }),
        ("&= &set", |s| { let (a, b) = s.ab(); *a &= b }),
        ("-= &set", |s| { let (a, b) = s.ab(); *a -= b }),
        ("^= &set", |s| { let (a, b) = s.ab(); *a ^= b }),
        ("union_with", |s| { let (a, b) = s.ab(); a.union_with(b) }),
        ("intersection_with", |s| { let (a, b) = s.ab(); a.intersection_with(b) }),
        ("difference_with", |s| { let (a, b) = s.ab(); a.difference_with(b) }),
        ("xor_with", |s| { let (a, b) = s.ab(); a.xor_with(b) }),
        ("extend", |s| { let (a, b) = s.both(); a.extend(Ticking(b.into_iter())) }),
        ("comparisons", |s| { let (a, b) = s.ab(); let _ = (a.is_subset(b), a.is_superset(b), a.is_disjoint(b)); }),
    ]
}
fn set_unary<A: Array<Item = E>>() -> Vec<SetOp<A>> {
    vec![
        ("clone", |s| { let r = s.a().clone(); s.r = Some(r) }),
        ("eq and cmp", |s| { let c = s.a().clone(); let _ = (*s.a() == c, (*s.a()).cmp(&c)); s.r = Some(c) }),
        ("retain nothing", |s| s.a().retain(|e| { tick(); alive(e, "retain"); false })),
        ("retain every second", |s| { let mut i = 0; s.a().retain(|e| { tick(); alive(e, "retain"); i += 1; i % 2 == 0 }) }),
        ("retain all but the first", |s| { let mut i = 0; s.a().retain(|e| { tick(); alive(e, "retain"); i += 1; i > 1 }) }),
        ("retain all", |s| s.a().retain(|e| { tick(); alive(e, "retain"); true })),
        ("into_iter, one taken", |s| { let mut i = s.a.take().unwrap().into_iter(); tick(); s.v.extend(i.next()); tick(); }),
        ("into_iter, collected", |s| { let i = s.a.take().unwrap(); s.r = Some(Ticking(i.into_iter()).collect()) }),
        ("into_inner", |s| { let i = s.a.take().unwrap().into_inner(); tick(); s.v.extend(i) }),
        ("into vec", |s| { let i: Vec<E> = s.a.take().unwrap().into(); tick(); s.r = Some(VecSet::from(i)) }),
        ("from btree set", |s| { let i: BTreeSet<E> = s.a.take().unwrap().into_iter().collect(); s.r = Some(VecSet::from(i)) }),
        ("shrink_to_fit", |s| s.a().shrink_to_fit()),
        ("union with itself", |s| { let c: VecSet<B2> = s.a().as_ref().iter().cloned().collect(); *s.a() |= c }),
        ("difference with itself", |s| { let c: VecSet<B2> = s.a().as_ref().iter().cloned().collect(); *s.a() -= c }),
    ]
}
fn set_keyed<A: Array<Item = E>>() -> Vec<(&'static str, fn(&mut Sets<A>, u16))> {
    vec![
        ("insert", |s, k| { let e = E::new(k, 5); s.a().insert(e); }),
        ("remove", |s, k| { let e = E::new(k, 5); s.a().remove(&e); }),
        ("contains", |s, k| { let e = E::new(k, 5); s.a().contains(&e); }),
        ("single", |s, k| { let e = E::new(k, 5); tick(); s.r = Some(VecSet::single(e)) }),
    ]
}
fn set<A: Array<Item = E>>(k: &[u16], tag: u16, spill: bool) -> VecSet<A> { mc::sets::build(k, tag, spill) }
fn sets_space<A: Array<Item = E>>(w: &[usize], spill: bool) -> Box<dyn Space> {
    let at = Arc::new(Atoms::unit(w.len()));
    let at = if w.iter().any(|x| *x > 1) { Arc::new(Atoms::new(w)) } else { at };
    let at2 = at.clone();
    let n = at.masks();
    let name = format!("sets-inline{}{}-{}", A::size(), if spill { "-heap" } else { "" }, w.iter().map(|x| x.to_string()).collect::<Vec<_>>().join("."));
    idx(name, format!("every pair of sets over {} atoms of sizes {w:?}, {} binary operations and, per left set, {} others; a panic injected into every callback", w.len(), set_ops::<A>().len(), set_unary::<A>().len() + set_keyed::<A>().len()), n * n,
        move |i, cx| {
            let (x, y) = pair(i, n);
            let (ka, kb) = (at.elems(x), at.elems(y));
            let mut u: Vec<u16> = ka.iter().chain(&kb).copied().collect();
            let build = || Sets::<A> { a: Some(set(&ka, 1, spill)), b: Some(set(&kb, 2, spill)), r: None, v: vec![] };
            let check = |u: &[u16]| { let u = u.to_vec(); move |s: &mut Sets<A>| {
                if let Some(a) = &mut s.a { is_set(a, &u, "the left set") }
                if let Some(b) = &mut s.b { is_set(b, &u, "the right set") }
                if let Some(r) = &mut s.r { is_set(r, &u, "the result") }
                for e in &s.v { alive(e, "what was taken out") }
            } };
            for (name, op) in set_ops::<A>() { inject(&|| name.to_string(), cx, build, op, check(&u)) }
            if y == 0 {
                for (name, op) in set_unary::<A>() { inject(&|| name.to_string(), cx, build, op, check(&u)) }
                for k in at.probes() {
                    u.push(k);
                    for (name, op) in set_keyed::<A>() { inject(&|| format!("{name} {k}"), cx, build, |s| op(s, k), check(&u)) }
                    u.pop();
                }
            }
        },
        move |i| format!("{:?} and {:?}", at2.elems(pair(i, n).0), at2.elems(pair(i, n).1)))
}
/// building from every sequence
fn build_space(n: usize, len: usize) -> Box<dyn Space> { build_of(format!("build-{n}-{len}"), &format!("every sequence of up to {len} out of {n} different elements"), n, words(n as u8, len)) }
/// long sequences: the deduplication works in blocks
fn build_long(lens: &[usize]) -> Box<dyn Space> {
    let n = 60;
    let mut ws = vec![];
    for &l in lens { for m in [1, 2, 3, 7, 16, 17, 33, 60usize] { for a in [1, 5, m - 1] { ws.push((0..l).map(|i| ((a * i + m / 2) % m) as u8).collect::<Vec<u8>>()) } } }
    ws.sort();
    ws.dedup();
    build_of("build-long".into(), &format!("sequences (a*i+b) mod m, m up to {n}, lengths {lens:?}"), n, ws)
}
fn build_of(name: String, about: &str, n: usize, ws: Vec<Vec<u8>>) -> Box<dyn Space> {
    let ws = Arc::new(ws);
    let w2 = ws.clone();
    idx(name, format!("{about}, made into sets and maps of every kind; a panic injected into every callback"), ws.len() as u64,
        move |i, cx| {
            let w = &ws[i as usize];
            let u: Vec<u16> = (0..n as u16).collect();
            let es = || w.iter().enumerate().map(|(i, k)| E::new(*k as u16, i as u16)).collect::<Vec<E>>();
            let ps = || w.iter().enumerate().map(|(i, k)| (E::new(*k as u16, i as u16), E::new(100 + i as u16, 0))).collect::<Vec<(E, E)>>();
            fn one<A: Array<Item = E>>(es: &dyn Fn() -> Vec<E>, u: &[u16], cx: &mut Cx) {
                inject(&|| format!("collect into [E; {}]", A::size()), cx, || (Some(es()), None::<VecSet<A>>), |s| { let v = s.0.take().unwrap(); s.1 = Some(Ticking(v.into_iter()).collect()) }, |s| if let Some(r) = &mut s.1 { is_set(r, u, "the result") });
                inject(&|| format!("from vec into [E; {}]", A::size()), cx, || (Some(es()), None::<VecSet<A>>), |s| { let v = s.0.take().unwrap(); s.1 = Some(VecSet::from(v)) }, |s| if let Some(r) = &mut s.1 { is_set(r, u, "the result") });
                inject(&|| format!("extend [E; {}]", A::size()), cx, || (Some(es()), set::<A>(&u[..1], 50, false)), |s| { let v = s.0.take().unwrap(); s.1.extend(Ticking(v.into_iter())) }, |s| is_set(&mut s.1, u, "the set"));
            }
            one::<[E; 1]>(&es, &u, cx);
            one::<[E; 2]>(&es, &u, cx);
            one::<[E; 8]>(&es, &u, cx);
            fn map<A: Array<Item = (E, E)>>(ps: &dyn Fn() -> Vec<(E, E)>, u: &[u16], cx: &mut Cx) {
                inject(&|| format!("collect into [(E, E); {}]", A::size()), cx, || (Some(ps()), None::<VecMap<A>>), |s| { let v = s.0.take().unwrap(); s.1 = Some(Ticking(v.into_iter()).collect()) }, |s| if let Some(r) = &mut s.1 { is_map(r, u, "the result") });
                inject(&|| format!("extend [(E, E); {}]", A::size()), cx, || (Some(ps()), [(E::new(0, 50), E::new(0, 50))].into_iter().collect::<VecMap<A>>()), |s| { let v = s.0.take().unwrap(); s.1.extend(Ticking(v.into_iter())) }, |s| is_map(&mut s.1, u, "the map"));
                inject(&|| format!("from btree map into [(E, E); {}]", A::size()), cx, || (Some(ps()), None::<VecMap<A>>), |s| { let v: BTreeMap<E, E> = s.0.take().unwrap().into_iter().collect(); s.1 = Some(VecMap::from(v)) }, |s| if let Some(r) = &mut s.1 { is_map(r, u, "the result") });
            }
            map::<[(E, E); 1]>(&ps, &u, cx);
            map::<[(E, E); 4]>(&ps, &u, cx);
        },
        move |i| format!("{:?}", w2[i as usize]))
}

// -- maps ----------------------------------------------------------------------------------------
type MB = [(E, E); 2];
struct Maps<A: Array<Item = (E, E)>> { a: Option<VecMap<A>>, b: Option<VecMap<MB>>, r: Option<VecMap<A>>, v: Vec<(E, E)>, keep: u8 }
impl<A: Array<Item = (E, E)>> Maps<A> {
    fn a(&mut self) -> &mut VecMap<A> { self.a.as_mut().unwrap() }
    fn ab(&mut self) -> (&mut VecMap<A>, &VecMap<MB>) { (self.a.as_mut().unwrap(), self.b.as_ref().unwrap()) }
    fn both(&mut self) -> (&mut VecMap<A>, VecMap<MB>) { (self.a.as_mut().unwrap(), self.b.take().unwrap()) }
}
fn shown(e: &E) -> u16 { alive(e, "what a function is shown"); e.key }
/// the answer of a join function: a new value, the left one passed on, or nothing
fn answer(keep: u8, k: &E, l: Option<E>, r: Option<&E>) -> Option<E> {
    tick();
    let (k, _, _) = (shown(k), l.as_ref().map(shown), r.map(shown));
    let side = match (l.is_some(), r.is_some()) { (true, false) => 0, (false, true) => 1, _ => 2 };
    if keep >> ((side + k as u8 / 2) % 3) & 1 == 0 { return None }
    Some(match l { Some(l) if k % 4 == 0 => l, _ => E::new(7, 7) })
}
fn cl(e: &E) -> E { E::new(shown(e), e.tag) }
type MapOp<A> = (&'static str, fn(&mut Maps<A>));
fn map_ops<A: Array<Item = (E, E)>>() -> Vec<MapOp<A>> {
    vec![
        ("outer_join", |s| { let k = s.keep; let r = { let (a, b) = s.ab(); a.outer_join(b, |x| match x { OuterJoinArg::Left(q, l) => answer(k, q, Some(cl(l)), None), OuterJoinArg::Right(q, r) => answer(k, q, None, Some(r)), OuterJoinArg::Both(q, l, r) => answer(k, q, Some(cl(l)), Some(r)) }) }; s.r = Some(r) }),
        ("left_join", |s| { let k = s.keep; let r = { let (a, b) = s.ab(); a.left_join(b, |q, l, r| answer(k, q, Some(cl(l)), r)) }; s.r = Some(r) }),
        ("right_join", |s| { let k = s.keep; let r = { let (a, b) = s.ab(); a.right_join(b, |q, l, r| answer(k, q, l.map(cl), Some(r))) }; s.r = Some(r) }),
        ("inner_join", |s| { let k = s.keep; let r = { let (a, b) = s.ab(); a.inner_join(b, |q, l, r| answer(k, q, Some(cl(l)), Some(r))) }; s.r = Some(r) }),
        ("outer_join_with", |s| { let k = s.keep; let (a, b) = s.ab(); a.outer_join_with(b, |x| match x { OuterJoinArg::Left(q, l) => answer(k, q, Some(l), None), OuterJoinArg::Right(q, r) => answer(k, q, None, Some(r)), OuterJoinArg::Both(q, l, r) => answer(k, q, Some(l), Some(r)) }) }),
        ("left_join_with", |s| { let k = s.keep; let (a, b) = s.ab(); a.left_join_with(b, |q, l, r| answer(k, q, Some(l), r)) }),
        ("right_join_with", |s| { let k = s.keep; let (a, b) = s.ab(); a.right_join_with(b, |q, l, r| answer(k, q, l, Some(r))) }),
        ("inner_join_with", |s| { let k = s.keep; let (a, b) = s.ab(); a.inner_join_with(b, |q, l, r| answer(k, q, Some(l), Some(r))) }),
    ]
}
/// these do not depend on the answers of a join function
fn map_ops1<A: Array<Item = (E, E)>>() -> Vec<MapOp<A>> {
    vec![
        ("merge_with", |s| { let (a, b) = s.both(); a.merge_with(b) }),
        ("combine_with left", |s| { let (a, b) = s.both(); a.combine_with(b, |l, r| { tick(); shown(&l); shown(&r); l }) }),
        ("combine_with right", |s| { let (a, b) = s.both(); a.combine_with(b, |l, r| { tick(); shown(&l); shown(&r); r }) }),
        ("combine_with new", |s| { let (a, b) = s.both(); a.combine_with(b, |l, r| { tick(); E::new(shown(&l), shown(&r)) }) }),
        ("extend", |s| { let (a, b) = s.both(); a.extend(Ticking(b.into_iter())) }),
    ]
}
fn map_unary<A: Array<Item = (E, E)>>() -> Vec<MapOp<A>> {
    vec![
        ("clone", |s| { let r = s.a().clone(); s.r = Some(r) }),
        ("eq and cmp", |s| { let c = s.a().clone(); let _ = (*s.a() == c, (*s.a()).cmp(&c)); s.r = Some(c) }),
        ("retain nothing", |s| s.a().retain(|e| { tick(); shown(&e.0); shown(&e.1); false })),
        ("retain every second", |s| { let mut i = 0; s.a().retain(|e| { tick(); shown(&e.0); i += 1; i % 2 == 0 }) }),
        ("retain all but the first", |s| { let mut i = 0; s.a().retain(|e| { tick(); shown(&e.0); i += 1; i > 1 }) }),
        ("map_values", |s| { let m = s.a.take().unwrap(); s.r = Some(m.map_values(|v| { tick(); shown(&v); E::new(3, 3) })) }),
        ("map_values, kept", |s| { let m = s.a.take().unwrap(); s.r = Some(m.map_values(|v| { tick(); shown(&v); v })) }),
        ("into_iter, one taken", |s| { let mut i = s.a.take().unwrap().into_iter(); tick(); s.v.extend(i.next()); tick(); }),
        ("into_iter, collected", |s| { let i = s.a.take().unwrap(); s.r = Some(Ticking(i.into_iter()).collect()) }),
        ("into_inner", |s| { let i = s.a.take().unwrap().into_inner(); tick(); s.v.extend(i) }),
        ("into set", |s| { let i: VecSet<A> = s.a.take().unwrap().into(); tick(); s.v.extend(i) }),
        ("through a btree map", |s| { let i: BTreeMap<E, E> = s.a.take().unwrap().into_iter().collect(); s.r = Some(VecMap::from(i)) }),
        ("inner join with itself", |s| { let c: VecMap<MB> = s.a().as_ref().iter().cloned().collect(); s.a().inner_join_with(&c, |k, l, r| answer(7, k, Some(l), Some(r))) }),
    ]
}
fn map_keyed<A: Array<Item = (E, E)>>() -> Vec<(&'static str, fn(&mut Maps<A>, u16))> {
    vec![
        ("insert", |s, k| { let old = s.a().insert(E::new(k, 5), E::new(900, 9)); if let Some(o) = old { s.v.push((E::new(k, 6), o)) } }),
        ("get", |s, k| { let q = E::new(k, 5); if let Some(v) = s.a().get(&q) { alive(v, "get") } }),
        ("get_mut", |s, k| { let q = E::new(k, 5); if let Some(v) = s.a().get_mut(&q) { *v = E::new(901, 0) } }),
        ("get_mut and clone", |s, k| { let q = E::new(k, 5); if let Some(v) = s.a().get_mut(&q) { *v = v.clone() } }),
        ("single", |s, k| { let e = (E::new(k, 5), E::new(k, 5)); tick(); s.r = Some(VecMap::single(e)) }),
    ]
}
fn map<A: Array<Item = (E, E)>>(ks: &[u16], off: u16, heap: bool) -> VecMap<A> {
    let e = |k: u16, off: u16| (E::new(k, off), E::new(off + k, 0));
    let mut m: VecMap<A> = ks.iter().map(|k| e(*k, off)).chain((0..if heap { 30 } else { 0 }).map(|i| e(20_000 + i, 0))).collect();
    if heap { m.retain(|x| x.0.key < 20_000) }
    m
}
fn maps_space<A: Array<Item = (E, E)>>(w: &[usize], heap: bool) -> Box<dyn Space> {
    let at = Arc::new(Atoms::new(w));
    let at2 = at.clone();
    let n = at.masks();
    idx(format!("maps-inline{}{}-{}", A::size(), if heap { "-heap" } else { "" }, w.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(".")),
        format!("every pair of maps over {} atoms of sizes {w:?}, {} joins under 8 answer patterns, {} other binary operations and, per left map, {} others; a panic injected into every callback", w.len(), map_ops::<A>().len(), map_ops1::<A>().len(), map_unary::<A>().len() + map_keyed::<A>().len()), n * n,
        move |i, cx| {
            let (x, y) = pair(i, n);
            let (ka, kb) = (at.elems(x), at.elems(y));
            let mut u: Vec<u16> = ka.iter().chain(&kb).copied().collect();
            let build = |keep: u8| { let (ka, kb) = (&ka, &kb); move || Maps::<A> { a: Some(map(ka, 100, heap)), b: Some(map(kb, 200, false)), r: None, v: vec![], keep } };
            let check = |u: &[u16]| { let u = u.to_vec(); move |s: &mut Maps<A>| {
                if let Some(a) = &mut s.a { is_map(a, &u, "the left map") }
                if let Some(b) = &mut s.b { is_map(b, &u, "the right map") }
                if let Some(r) = &mut s.r { is_map(r, &u, "the result") }
                for e in &s.v { alive(&e.0, "what was taken out"); alive(&e.1, "what was taken out") }
            } };
            for keep in 0..8 { for (name, op) in map_ops::<A>() { inject(&|| format!("{name}, answers {keep:03b}"), cx, build(keep), op, check(&u)) } }
            for (name, op) in map_ops1::<A>() { inject(&|| name.to_string(), cx, build(0), op, check(&u)) }
            if y == 0 {
                for (name, op) in map_unary::<A>() { inject(&|| name.to_string(), cx, build(0), op, check(&u)) }
                for k in at.probes() {
                    u.push(k);
                    for (name, op) in map_keyed::<A>() { inject(&|| format!("{name} {k}"), cx, build(0), |s| op(s, k), check(&u)) }
                    u.pop();
                }
            }
        },
        move |i| format!("{:?} and {:?}", at2.elems(pair(i, n).0), at2.elems(pair(i, n).1)))
}

// -- std maps ------------------------------------------------------------------------------------
struct Std { a: BTreeMap<E, E>, b: BTreeMap<E, E>, r: BTreeMap<E, E>, keep: u8 }
fn change(keep: u8, k: &E, l: &mut E, r: Option<&E>) -> bool {
    tick();
    let (k, _, _) = (shown(k), shown(l), r.map(shown));
    if k % 4 == 0 { *l = E::new(7, 7) }
    tick();
    keep >> ((if r.is_some() { 2 } else { 0 } + k as u8 / 2) % 3) & 1 == 1
}
fn std_ops() -> Vec<(&'static str, fn(&mut Std))> {
    vec![
        ("outer_join", |s| { let k = s.keep; s.r = s.a.outer_join(&s.b, |x: OuterJoinArg<&E, &E, &E>| match x { OuterJoinArg::Left(q, l) => answer(k, q, Some(cl(l)), None), OuterJoinArg::Right(q, r) => answer(k, q, None, Some(r)), OuterJoinArg::Both(q, l, r) => answer(k, q, Some(cl(l)), Some(r)) }) }),
        ("left_join", |s| { let k = s.keep; s.r = s.a.left_join(&s.b, |q, l, r: Option<&E>| answer(k, q, Some(cl(l)), r)) }),
        ("right_join", |s| { let k = s.keep; s.r = s.a.right_join(&s.b, |q, l: Option<&E>, r| answer(k, q, l.map(cl), Some(r))) }),
        ("inner_join", |s| { let k = s.keep; s.r = s.a.inner_join::<E, E, _, [(E, E); 1]>(&s.b, |q, l, r| answer(k, q, Some(cl(l)), Some(r))) }),
        ("outer_join_with", |s| { let k = s.keep; s.a.outer_join_with(&s.b, |q, l, r| change(k, q, l, r), |q, r| answer(k, q, None, Some(r))) }),
        ("left_join_with", |s| { let k = s.keep; s.a.left_join_with(&s.b, |q, l, r| change(k, q, l, r)) }),
        ("right_join_with", |s| { let k = s.keep; s.a.right_join_with(&s.b, |q, l, r| match l { Some(l) => change(k, q, l, Some(r)), None => { tick(); shown(r) % 2 == 0 } }) }),
        ("inner_join_with", |s| { let k = s.keep; s.a.inner_join_with(&s.b, |q, l, r| change(k, q, l, Some(r))) }),
    ]
}
fn std_space(n: usize) -> Box<dyn Space> {
    let at = Arc::new(Atoms::unit(n));
    let at2 = at.clone();
    let n = at.masks();
    idx(format!("std-maps-{}", at.n()), format!("every pair of std maps over {} keys, {} joins under 8 answer patterns; a panic injected into every callback", at.n(), std_ops().len()), n * n,
        move |i, cx| {
            let (x, y) = pair(i, n);
            let m = |x: u64, off: u16| at.elems(x).into_iter().map(|k| (E::new(k, off), E::new(off + k, 0))).collect::<BTreeMap<E, E>>();
            for keep in 0..8 {
                for (name, op) in std_ops() {
                    inject(&|| format!("{name}, answers {keep:03b}"), cx, || Std { a: m(x, 100), b: m(y, 200), r: BTreeMap::new(), keep }, op, |s| for m in [&s.a, &s.b, &s.r] {
                        let k: Vec<u16> = m.iter().map(|(k, v)| { alive(k, "a map"); alive(v, "a map"); k.key }).collect();
                        ensure!(k.windows(2).all(|w| w[0] < w[1]), "a map is not strictly sorted: {m:?}");
                    });
                }
            }
        },
        move |i| format!("{:?} and {:?}", at2.elems(pair(i, n).0), at2.elems(pair(i, n).1)))
}

// -- total sets and maps -------------------------------------------------------------------------
type TS = TotalVecSet<[E; 2]>;
type TM = TotalVecMap<E, [(E, E); 2]>;
struct Totals { a: Option<TS>, b: Option<TS>, r: Option<TS>, m: Option<TM>, w: Option<TM>, x: Option<TM> }
fn total(k: &[u16], neg: bool, tag: u16) -> TS { let s = TS::from(set::<[E; 2]>(k, tag, false)); if neg { !s } else { s } }
fn total_ops() -> Vec<(&'static str, fn(&mut Totals))> {
    fn ab(s: &mut Totals) -> (&mut TS, &TS) { (s.a.as_mut().unwrap(), s.b.as_ref().unwrap()) }
    fn mw(s: &Totals) -> (&TM, &TM) { (s.m.as_ref().unwrap(), s.w.as_ref().unwrap()) }
    vec![
        ("total |", |s| { let r = { let (a, b) = ab(s); &*a | b }; s.r = Some(r) }),
        ("total &", |s| { let r = { let (a, b) = ab(s); &*a & b }; s.r = Some(r) }),
        ("total ^", |s| { let r = { let (a, b) = ab(s); &*a ^ b }; s.r = Some(r) }),
        ("total -", |s| { let r = { let (a, b) = ab(s); &*a - b }; s.r = Some(r) }),
        ("total |=", |s| { let b = s.b.take().unwrap(); *s.a.as_mut().unwrap() |= b }),
        ("total &=", |s| { let b = s.b.take().unwrap(); *s.a.as_mut().unwrap() &= b }),
        ("total ^=", |s| { let b = s.b.take().unwrap(); *s.a.as_mut().unwrap() ^= b }),
        ("total -=", |s| { let b = s.b.take().unwrap(); *s.a.as_mut().unwrap() -= b }),
        ("total !", |s| { let a = s.a.take().unwrap(); tick(); s.r = Some(!a) }),
        ("total !&", |s| { let r = !s.a.as_ref().unwrap(); s.r = Some(r) }),
        ("total clone", |s| { let r = s.a.clone(); s.r = r }),
        ("total comparisons", |s| { let (a, b) = ab(s); let _ = (a.is_subset(b), a.is_superset(b), a.is_disjoint(b), *a == *b); }),
        ("total insert", |s| { let e = E::new(3, 9); s.a.as_mut().unwrap().insert(e) }),
        ("total insert member", |s| { let e = E::new(2, 9); s.a.as_mut().unwrap().insert(e) }),
        ("total remove", |s| { let e = E::new(3, 9); s.a.as_mut().unwrap().remove(&e) }),
        ("total remove member", |s| { let e = E::new(2, 9); s.a.as_mut().unwrap().remove(&e) }),
        ("total map combine_ref left", |s| { let r = { let (m, w) = mw(s); m.combine_ref(w, |l, r| { tick(); shown(l); cl(r); l.clone() }) }; s.x = Some(r) }),
        ("total map combine_ref right", |s| { let r = { let (m, w) = mw(s); m.combine_ref(w, |_, r| { tick(); r.clone() }) }; s.x = Some(r) }),
        ("total map supremum", |s| { let r = { let (m, w) = mw(s); m.supremum(w) }; s.x = Some(r) }),
        ("total map infimum", |s| { let r = { let (m, w) = mw(s); m.infimum(w) }; s.x = Some(r) }),
        ("total map map_values", |s| { let r = { let (m, _) = mw(s); m.map_values(|v| { tick(); E::new(shown(v) / 4, 0) }) }; s.x = Some(r) }),
        ("total map clone and eq", |s| { let r = { let (m, w) = mw(s); let _ = *m == *w; m.clone() }; s.x = Some(r) }),
        ("total map new", |s| { let m = s.m.take().unwrap().non_default_mappings().clone(); let d = E::new(1, 1); tick(); s.x = Some(TM::new(m, d)) }),
    ]
}
fn totals_space(n: usize) -> Box<dyn Space> {
    let at = Arc::new(Atoms::unit(n));
    let at2 = at.clone();
    let n = at.masks() * 2;
    idx(format!("totals-{}", at.n()), format!("every pair of total sets, and of total maps with values 0..2, over {} atoms; {} operations; a panic injected into every callback", at.n(), total_ops().len()), n * n,
        move |i, cx| {
            let (x, y) = pair(i, n);
            let mk = |x: u64, off: u16| TM::new(at.elems(x / 2).into_iter().map(|k| (E::new(k, off), E::new(k % 3, off))).collect(), E::new((x % 2) as u16, off));
            for (name, op) in total_ops() {
                inject(&|| name.to_string(), cx, || Totals { a: Some(total(&at.elems(x / 2), x % 2 == 1, 1)), b: Some(total(&at.elems(y / 2), y % 2 == 1, 2)), r: None, m: Some(mk(x, 1)), w: Some(mk(y, 2)), x: None }, op, |s| {
                    for t in [&mut s.a, &mut s.b, &mut s.r].into_iter().flatten() {
                        // observable elements: a total set answers membership only
                        let before: Vec<bool> = (0..30).map(|k| t.contains(&E::new(k, 0))).collect();
                        t.insert(E::new(20_000, 0));
                        ensure!(t.contains(&E::new(20_000, 1)), "a total set cannot be used any more: {t:?}");
                        ensure!((0..30).all(|k| t.contains(&E::new(k, 0)) == before[k as usize]), "a total set is not sorted: {t:?}");
                        let c = t.clone();
                        ensure!(c == *t && t.is_subset(&c) && (&*t & &c) == c, "a total set cannot be used any more: {t:?}");
                    }
                    for m in [&s.m, &s.w, &s.x].into_iter().flatten() {
                        let k: Vec<u16> = m.non_default_mappings().as_ref().iter().map(|(k, v)| { alive(k, "a total map"); alive(v, "a total map"); k.key }).collect();
                        ensure!(k.windows(2).all(|w| w[0] < w[1]), "a total map is not strictly sorted: {m:?}");
                        for k in 0..30 { alive(&m[&E::new(k, 0)], "a total map") }
                    }
                });
            }
        },
        move |i| format!("{:?} negated {} and {:?} negated {}", at2.elems(pair(i, n).0 / 2), pair(i, n).0 % 2, at2.elems(pair(i, n).1 / 2), pair(i, n).1 % 2))
}

// -- radix trees ---------------------------------------------------------------------------------
type Kept = Option<Box<rkyv::AlignedVec>>;
/// a key letter whose comparisons are callbacks
#[derive(Clone, Copy, Debug, Eq)]
struct P(u8);
impl PartialEq for P { fn eq(&self, o: &P) -> bool { elem::compare(self.0.cmp(&o.0)).is_eq() } }
impl From<u8> for P { fn from(x: u8) -> P { P(x) } }
impl PartialOrd for P { fn partial_cmp(&self, o: &P) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for P { fn cmp(&self, o: &P) -> std::cmp::Ordering { elem::compare(self.0.cmp(&o.0)) } }
impl rkyv::Archive for P {
    type Archived = P;
    type Resolver = ();
    unsafe fn resolve(&self, _: usize, _: (), out: *mut P) { out.write(*self) }
}
impl<S: rkyv::Fallible + ?Sized> rkyv::Serialize<S> for P { fn serialize(&self, _: &mut S) -> Result<(), S::Error> { Ok(()) } }
trait Letter: TKey + From<u8> {}
impl<K: TKey + From<u8>> Letter for K {}
fn key<K: Letter>(k: &[u8]) -> Vec<K> { k.iter().map(|x| K::from(*x)).collect() }
struct Trees<K, T> { a: Option<T>, b: Option<T>, r: Option<T>, s: Option<T>, key: Vec<K>, _keep: Kept }
/// the tree can still be walked, iterated and searched; keys ascending; everything in it is alive
fn is_tree<K: Letter, T: AbstractRadixTreeMut<K, E>>(t: &T, keys: &[Vec<K>], what: &str) {
    fn go<K: Letter, T: AbstractRadixTree<K, E>>(t: &T, what: &str, n: &mut usize) {
        *n += 1;
        if let Some(v) = t.value() { alive(v, what) }
        for c in t.children() { go(c, what, n) }
    }
    go(t, what, &mut 0);
    let got: Vec<Vec<K>> = t.iter().map(|(k, v)| { alive(v, what); k.as_ref().to_vec() }).collect();
    ensure!(got.windows(2).all(|w| w[0] < w[1]), "{what}: the keys are not strictly sorted: {got:?}");
    ensure!(got.iter().all(|k| keys.contains(k)), "{what}: a new key: {got:?}");
    ensure!(t.values().count() == got.len(), "{what}: values and keys disagree");
    for k in keys { ensure!(t.contains_key(k) == got.contains(k), "{what}: contains_key({k:?}) disagrees with the iterator, {got:?}") }
    ensure!(t.is_subset(t), "{what}: is not a subset of itself");
}
type TreeOp<K, T> = (&'static str, fn(&mut Trees<K, T>));
fn tree_ops<K: Letter, T: AbstractRadixTreeMut<K, E> + AbstractRadixTree<K, E, Materialized = T> + Clone>() -> Vec<TreeOp<K, T>> {
    fn ab<K, T>(s: &mut Trees<K, T>) -> (&mut T, &T) { (s.a.as_mut().unwrap(), s.b.as_ref().unwrap()) }
    vec![
        ("union", |s| { let r = { let (a, b) = ab(s); a.union(b) }; s.r = Some(r) }),
        ("outer_combine right", |s| { let r = { let (a, b) = ab(s); a.outer_combine(b, |l, r| { tick(); shown(l); (r.key % 2 == 0).then(|| r.clone()) }) }; s.r = Some(r) }),
        ("intersection", |s| { let r = { let (a, b) = ab(s); a.intersection(b) }; s.r = Some(r) }),
        ("inner_combine", |s| { let r = { let (a, b) = ab(s); a.inner_combine(b, |l, r| { tick(); shown(r); (l.key % 2 == 0).then(|| E::new(5, 5)) }) }; s.r = Some(r) }),
        ("difference", |s| { let r = { let (a, b) = ab(s); a.difference(b) }; s.r = Some(r) }),
        ("left_combine", |s| { let r = { let (a, b) = ab(s); a.left_combine(b, |l, r| { tick(); r.map(shown); (l.key % 2 == 0).then(|| E::new(5, 5)) }) }; s.r = Some(r) }),
        ("union_with", |s| { let (a, b) = ab(s); a.union_with(b) }),
        ("outer_combine_with", |s| { let (a, b) = ab(s); a.outer_combine_with(b, |l, r| { tick(); *l = r.clone(); l.key % 2 == 0 }) }),
        ("intersection_with", |s| { let (a, b) = ab(s); a.intersection_with(b) }),
        ("inner_combine_with", |s| { let (a, b) = ab(s); a.inner_combine_with(b, |l, r| { tick(); shown(l); *l = r.clone(); l.key % 2 == 0 }) }),
        ("difference_with", |s| { let (a, b) = ab(s); a.difference_with(b) }),
        ("left_combine_with", |s| { let (a, b) = ab(s); a.left_combine_with(b, |l, r| { tick(); shown(l); *l = r.clone(); l.key % 2 == 0 }) }),
        ("remove_prefix_with", |s| { let (a, b) = ab(s); a.remove_prefix_with(b, |r| { tick(); shown(r) % 2 == 0 }) }),
        ("retain_prefix_with", |s| { let (a, b) = ab(s); a.retain_prefix_with(b, |r| { tick(); shown(r) % 2 == 0 }) }),
        ("comparisons", |s| { let (a, b) = ab(s); let _ = (a.is_subset(b), a.is_superset(b), a.is_disjoint(b)); }),
        // a snapshot exists while the original is changed
        ("union_with while cloned", |s| { s.s = s.a.clone(); let (a, b) = ab(s); a.union_with(b) }),
        ("difference_with while cloned", |s| { s.s = s.a.clone(); let (a, b) = ab(s); a.difference_with(b) }),
        ("outer_combine_with while cloned", |s| { s.s = s.a.clone(); let (a, b) = ab(s); a.outer_combine_with(b, |l, r| { tick(); *l = r.clone(); l.key % 2 == 0 }) }),
    ]
}
fn tree_unary<K: Letter, T: AbstractRadixTreeMut<K, E> + Clone>() -> Vec<TreeOp<K, T>> {
    vec![
        ("clone", |s| s.r = s.a.clone()),
        ("iter", |s| for (k, v) in s.a.as_ref().unwrap().iter() { tick(); let _ = (k.as_ref().len(), shown(v)); }),
        ("values", |s| for v in s.a.as_ref().unwrap().values() { tick(); shown(v); }),
    ]
}
fn tree_keyed<K: Letter, T: AbstractRadixTreeMut<K, E> + Clone>() -> Vec<TreeOp<K, T>> {
    vec![
        ("insert", |s| { let e = E::new(900, 0); s.a.as_mut().unwrap().insert(&s.key, e) }),
        ("insert while cloned", |s| { s.s = s.a.clone(); let e = E::new(900, 0); s.a.as_mut().unwrap().insert(&s.key, e) }),
        ("get", |s| if let Some(v) = s.a.as_ref().unwrap().get(&s.key) { alive(v, "get") }),
        ("filter_prefix", |s| { let r = s.a.as_ref().unwrap().filter_prefix(&s.key); s.r = Some(r) }),
        ("scan_prefix", |s| for (k, v) in s.a.as_ref().unwrap().scan_prefix(&s.key) { tick(); let _ = (k.as_ref().len(), shown(v)); }),
        ("single", |s| { let e = E::new(1, 0); tick(); s.r = Some(T::single(&s.key, e)) }),
    ]
}
fn tree<K: Letter, T: AbstractRadixTreeMut<K, E>>(keys: &[Vec<K>], e: &[(u16, u16)]) -> T {
    let mut t = T::empty();
    for (k, v) in e { t.insert(&keys[*k as usize], E::new(*v, *k)) }
    t
}
/// `make` builds the left operand (and what it borrows from)
fn trees_space<K: Letter, T>(flavour: &'static str, u: mc::radix::Uni, make: fn(&[Vec<K>], &[(u16, u16)]) -> (T, Kept)) -> Box<dyn Space>
where T: AbstractRadixTreeMut<K, E> + AbstractRadixTree<K, E, Materialized = T> + Clone + 'static {
    let n = u.len();
    let u2 = u.clone();
    idx(format!("trees-{flavour}-{}", u.name), format!("{}: every pair of {flavour} radix trees, {} binary operations and, per left tree, {} others; a panic injected into every callback", u.about(), tree_ops::<K, T>().len(), tree_unary::<K, T>().len() + tree_keyed::<K, T>().len()), n * n,
        move |i, cx| {
            let (x, y) = pair(i, n);
            let keys: Vec<Vec<K>> = u.keys.iter().map(|k| key(k)).collect();
            let build = |key: Vec<K>| { let (u, keys) = (&u, &keys); move || {
                let (a, k) = make(keys, &u.ents(x, 0));
                Trees { a: Some(a), b: Some(tree(keys, &u.ents(y, 1))), r: None, s: None, key: key.clone(), _keep: k }
            } };
            let before: Vec<Vec<K>> = u.ents(x, 0).iter().map(|e| keys[e.0 as usize].clone()).collect();
            let check = |s: &mut Trees<K, T>| {
                if let Some(t) = &s.a { is_tree(t, &keys, "the left tree") }
                if let Some(t) = &s.b { is_tree(t, &keys, "the right tree") }
                if let Some(t) = &s.r { is_tree(t, &keys, "the result") }
                if let Some(t) = &s.s {
                    is_tree(t, &keys, "the snapshot");
                    let now: Vec<Vec<K>> = t.iter().map(|e| e.0.as_ref().to_vec()).collect();
                    ensure!(now == before, "the snapshot changed from {before:?} to {now:?}");
                }
                // still usable
                if let (Some(a), Some(b)) = (&mut s.a, &s.b) {
                    a.union_with(b);
                    for k in &keys { a.insert(k, E::new(1, 1)) }
                    ensure!(a.iter().count() == keys.len(), "the left tree cannot be used any more");
                }
            };
            for (name, op) in tree_ops::<K, T>() { inject(&|| name.to_string(), cx, build(vec![]), op, check) }
            if y == 0 {
                for (name, op) in tree_unary::<K, T>() { inject(&|| name.to_string(), cx, build(vec![]), op, check) }
                for k in &keys { for (name, op) in tree_keyed::<K, T>() { inject(&|| format!("{name} {k:?}"), cx, build(k.clone()), op, check) } }
            }
        },
        move |i| format!("{} | {}", u2.show(pair(i, n).0), u2.show(pair(i, n).1)))
}
fn flat<K: Letter>(u: mc::radix::Uni, n: &'static str) -> Box<dyn Space> { trees_space::<K, RadixTree<K, E>>(n, u, |k, e| (tree(k, e), None)) }
fn arc<K: Letter>(u: mc::radix::Uni, n: &'static str) -> Box<dyn Space> { trees_space::<K, ArcRadixTree<K, E>>(n, u, |k, e| (tree(k, e), None)) }
/// everything loaded
fn loaded<K: Letter>(u: mc::radix::Uni, n: &'static str) -> Box<dyn Space> { trees_space::<K, LazyRadixTree<'static, K, E>>(n, u, |k, e| (tree(k, e), None)) }
/// opened from an archive, nothing loaded below the root
fn lazy(u: mc::radix::Uni) -> Box<dyn Space> {
    type LT = LazyRadixTree<'static, u8, E>;
    trees_space::<u8, LT>("lazy", u, |k, e| {
        let b = Box::new(archive(&tree::<u8, LT>(k, e)));
        let bytes: &'static [u8] = unsafe { std::slice::from_raw_parts(b.as_ptr(), b.len()) };
        (LT::from(unsafe { rkyv::archived_root::<LT>(bytes) }), Some(b))
    })
}

// -- elements without a size ---------------------------------------------------------------------
fn zst_space() -> Box<dyn Space> {
    idx("zero-sized", "every pair of collections of zero-sized elements, keys or values, all operations; a panic injected into every callback", 2 * 2 * 3 * 3,
        |i, cx| {
            let (x, y, m, n) = (i % 2, i / 2 % 2, i / 4 % 3, i / 12);
            type S = VecSet<[Z; 2]>;
            let s = |n: u64| (0..n).map(|_| Z::new()).collect::<S>();
            let ops: Vec<(&str, fn(&mut (S, Option<S>, Option<S>)))> = vec![
                ("|", |t| { let r = &t.0 | t.1.as_ref().unwrap(); t.2 = Some(r) }),
                ("&", |t| { let r = &t.0 & t.1.as_ref().unwrap(); t.2 = Some(r) }),
                ("-", |t| { let r = &t.0 - t.1.as_ref().unwrap(); t.2 = Some(r) }),
                ("^", |t| { let r = &t.0 ^ t.1.as_ref().unwrap(); t.2 = Some(r) }),
                ("|=", |t| { let b = t.1.take().unwrap(); t.0 |= b }),
                ("&=", |t| { let b = t.1.take().unwrap(); t.0 &= b }),
                ("-=", |t| { let b = t.1.take().unwrap(); t.0 -= b }),
                ("^=", |t| { let b = t.1.take().unwrap(); t.0 ^= b }),
                ("|= &", |t| t.0 |= t.1.as_ref().unwrap()),
                ("&= &", |t| t.0 &= t.1.as_ref().unwrap()),
                ("-= &", |t| t.0 -= t.1.as_ref().unwrap()),
                ("^= &", |t| t.0 ^= t.1.as_ref().unwrap()),
                ("insert", |t| { t.0.insert(Z::new()); }),
                ("remove", |t| { t.0.remove(&Z::new()); }),
                ("retain nothing", |t| t.0.retain(|_| { tick(); false })),
                ("extend", |t| t.0.extend(vec![Z::new(), Z::new()])),
                ("clone", |t| t.2 = Some(t.0.clone())),
            ];
            for (name, op) in ops {
                inject(&|| format!("set of zero-sized elements, {name}"), cx, || (s(x), Some(s(y)), None), op, |t| {
                    for s in [Some(&t.0), t.1.as_ref(), t.2.as_ref()].into_iter().flatten() { ensure!(s.len() <= 1 && elem::zst_live() >= s.len() as i64, "a set of {} equal elements", s.len()) }
                });
            }
            // keys without a size
            type K = VecMap<[(Z, E); 2]>;
            let km = |n: u64, off: u16| (0..n as u16).map(|i| (Z::new(), E::new(off, i))).collect::<K>();
            let ops: Vec<(&str, fn(&mut (K, Option<K>)))> = vec![
                ("merge_with", |t| { let b = t.1.take().unwrap(); t.0.merge_with(b) }),
                ("combine_with", |t| { let b = t.1.take().unwrap(); t.0.combine_with(b, |_, r| { tick(); r }) }),
                ("inner_join_with", |t| t.0.inner_join_with(t.1.as_ref().unwrap(), |_, l, _| { tick(); Some(l) })),
                ("left_join_with", |t| t.0.left_join_with(t.1.as_ref().unwrap(), |_, l, r| { tick(); r.is_none().then_some(l) })),
                ("right_join_with", |t| t.0.right_join_with(t.1.as_ref().unwrap(), |_, _, r| { tick(); Some(r.clone()) })),
                ("insert", |t| { t.0.insert(Z::new(), E::new(8, 8)); }),
                ("get_mut", |t| if let Some(v) = t.0.get_mut(&Z::new()) { *v = E::new(9, 9) }),
                ("retain", |t| t.0.retain(|e| { tick(); e.1.key > 50 })),
                ("map_values", |t| { let r: K = std::mem::take(&mut t.0).map_values(|v| { tick(); v }); t.0 = r }),
            ];
            for (name, op) in ops {
                inject(&|| format!("map with zero-sized keys, {name}"), cx, || (km(m, 10), Some(km(n, 90))), op, |t| {
                    for s in [Some(&t.0), t.1.as_ref()].into_iter().flatten() { ensure!(s.len() <= 1, "a map with {} equal keys", s.len()); for e in s.as_ref() { alive(&e.1, "the map") } }
                });
            }
            // values without a size
            type W = VecMap<[(E, Z); 2]>;
            let vm = |n: u64, off: u64| (off..off + n).map(|i| (E::new(i as u16, 0), Z::new())).collect::<W>();
            let ops: Vec<(&str, fn(&mut (W, Option<W>)))> = vec![
                ("merge_with", |t| { let b = t.1.take().unwrap(); t.0.merge_with(b) }),
                ("outer_join_with", |t| t.0.outer_join_with(t.1.as_ref().unwrap(), |x| { tick(); match x { OuterJoinArg::Left(_, l) => Some(l), OuterJoinArg::Right(_, r) => Some(r.clone()), OuterJoinArg::Both(..) => None } })),
                ("inner_join_with", |t| t.0.inner_join_with(t.1.as_ref().unwrap(), |_, l, _| { tick(); Some(l) })),
                ("insert", |t| { t.0.insert(E::new(1, 1), Z::new()); }),
                ("retain", |t| t.0.retain(|e| { tick(); e.0.key == 1 })),
            ];
            for (name, op) in ops {
                inject(&|| format!("map with zero-sized values, {name}"), cx, || (vm(m, 0), Some(vm(n, x + y))), op, |t| {
                    for s in [Some(&t.0), t.1.as_ref()].into_iter().flatten() { ensure!(s.as_ref().windows(2).all(|w| w[0].0.key < w[1].0.key), "a map is not sorted"); for e in s.as_ref() { alive(&e.0, "the map") } }
                });
            }
        },
        |i| format!("sets of {} and {}, maps of {} and {}", i % 2, i / 2 % 2, i / 4 % 3, i / 12))
}

// -- comparisons that lie ------------------------------------------------------------------------
/// Run `op` under every sequence of comparison answers up to length `len` that differs in the answers it
/// really asks for. Nothing is promised about the contents then, or about panics, but ownership stays exact.
fn lies<S>(what: &dyn Fn() -> String, len: usize, cx: &mut Cx, build: impl Fn() -> S, op: impl Fn(&mut S), walk: impl Fn(&S)) {
    use std::cmp::Ordering::*;
    let mut tape: Vec<std::cmp::Ordering> = vec![];
    loop {
        elem::reset();
        let mut asked = 0;
        let r = mc::guarded(|| {
            let mut s = build();
            let mut t = tape.clone();
            t.resize(len, Less);
            elem::set_tape(t);
            let done = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| op(&mut s)));
            asked = len - elem::tape_left();
            elem::set_tape(vec![]);
            walk(&s);
            drop(s);
            elem::check_clean(done.is_err());
        });
        cx.op();
        cx.states += 1;
        if let Err(m) = r { mc::fail!("{} where the comparisons answer {:?}: {m}", what(), { let mut t = tape.clone(); t.resize(asked, Less); t }) }
        cx.nontrivial_if(asked > 1);
        // the next sequence, in the tree of answers that were asked for
        tape.resize(asked, Less);
        loop {
            match tape.pop() {
                None => return,
                Some(Less) => { tape.push(Equal); break }
                Some(Equal) => { tape.push(Greater); break }
                Some(Greater) => {}
            }
        }
    }
}
fn lies_sets(n: usize, len: usize) -> Box<dyn Space> {
    type A = [E; 2];
    let at = Arc::new(Atoms::unit(n));
    let at2 = at.clone();
    let n = at.masks();
    idx(format!("lying-comparisons-sets-{}-{len}", at.n()), format!("every pair of sets and of maps over {} atoms, all operations, under every sequence of answers to the first {len} comparisons, right answers afterwards", at.n()), n * n,
        move |i, cx| {
            let (x, y) = pair(i, n);
            let (ka, kb) = (at.elems(x), at.elems(y));
            let sets = || Sets::<A> { a: Some(set(&ka, 1, false)), b: Some(set(&kb, 2, false)), r: None, v: vec![] };
            let walk = |s: &Sets<A>| {
                for t in [&s.a, &s.r].into_iter().flatten() { for e in t.as_ref() { alive(e, "a set") } }
                for e in s.b.iter().flatten() { alive(e, "a set") }
                for e in &s.v { alive(e, "what was taken out") }
            };
            for (name, op) in set_ops::<A>() { lies(&|| name.to_string(), len, cx, sets, op, walk) }
            if y == 0 {
                for (name, op) in set_unary::<A>() { lies(&|| name.to_string(), len, cx, sets, op, walk) }
                for (name, op) in set_keyed::<A>() { lies(&|| format!("{name} 4"), len, cx, sets, |s| op(s, 4), walk) }
            }
            type M = [(E, E); 2];
            let maps = |keep: u8| { let (ka, kb) = (&ka, &kb); move || Maps::<M> { a: Some(map(ka, 100, false)), b: Some(map(kb, 200, false)), r: None, v: vec![], keep } };
            let walk = |s: &Maps<M>| {
                for t in [&s.a, &s.r].into_iter().flatten() { for e in t.as_ref() { alive(&e.0, "a map"); alive(&e.1, "a map") } }
                for e in s.b.iter().flatten() { alive(&e.0, "a map"); alive(&e.1, "a map") }
                for e in &s.v { alive(&e.0, "what was taken out"); alive(&e.1, "what was taken out") }
            };
            for keep in [0, 5, 7] { for (name, op) in map_ops::<M>() { lies(&|| format!("{name}, answers {keep:03b}"), len, cx, maps(keep), op, walk) } }
            for (name, op) in map_ops1::<M>() { lies(&|| name.to_string(), len, cx, maps(0), op, walk) }
            if y == 0 {
                for (name, op) in map_unary::<M>() { lies(&|| name.to_string(), len, cx, maps(0), op, walk) }
                for (name, op) in map_keyed::<M>() { lies(&|| format!("{name} 4"), len, cx, maps(0), |s| op(s, 4), walk) }
            }
        },
        move |i| format!("{:?} and {:?}", at2.elems(pair(i, n).0), at2.elems(pair(i, n).1)))
}
fn lies_build(n: usize, len: usize) -> Box<dyn Space> {
    let ws = Arc::new(words(n as u8, 4));
    let w2 = ws.clone();
    idx(format!("lying-comparisons-build-{n}-{len}"), format!("sets and maps collected from every sequence of up to 4 out of {n} elements, under every sequence of answers to the first {len} comparisons"), ws.len() as u64,
        move |i, cx| {
            let w = &ws[i as usize];
            let es = || w.iter().enumerate().map(|(i, k)| E::new(*k as u16, i as u16)).collect::<Vec<E>>();
            let ps = || w.iter().enumerate().map(|(i, k)| (E::new(*k as u16, i as u16), E::new(100 + i as u16, 0))).collect::<Vec<(E, E)>>();
            lies(&|| "collect into a set".into(), len, cx, || (Some(es()), None::<VecSet<[E; 2]>>), |s| s.1 = Some(s.0.take().unwrap().into_iter().collect()), |s| for e in s.1.iter().flatten() { alive(e, "the set") });
            lies(&|| "a set from a vec".into(), len, cx, || (Some(es()), None::<VecSet<[E; 8]>>), |s| s.1 = Some(s.0.take().unwrap().into()), |s| for e in s.1.iter().flatten() { alive(e, "the set") });
            lies(&|| "collect into a map".into(), len, cx, || (Some(ps()), None::<VecMap<[(E, E); 2]>>), |s| s.1 = Some(s.0.take().unwrap().into_iter().collect()), |s| for e in s.1.iter().flatten() { alive(&e.0, "the map"); alive(&e.1, "the map") });
        },
        move |i| format!("{:?}", w2[i as usize]))
}
fn lies_trees(u: Uni, len: usize) -> Box<dyn Space> {
    let n = u.len();
    let u2 = u.clone();
    idx(format!("lying-comparisons-trees-{}-{len}", u.name), format!("{}: every pair of flat and of arc radix trees, all operations, under every sequence of answers to the first {len} comparisons of key elements", u.about()), n * n,
        move |i, cx| {
            let (x, y) = pair(i, n);
            let keys: Vec<Vec<P>> = u.keys.iter().map(|k| key(k)).collect();
            fn all<T: AbstractRadixTreeMut<P, E> + AbstractRadixTree<P, E, Materialized = T> + Clone + 'static>(u: &Uni, x: u64, y: u64, keys: &[Vec<P>], len: usize, flavour: &str, cx: &mut Cx) {
                let build = |k: usize| move || Trees { a: Some(tree::<P, T>(keys, &u.ents(x, 0))), b: Some(tree(keys, &u.ents(y, 1))), r: None, s: None, key: keys[k].clone(), _keep: None };
                let walk = |s: &Trees<P, T>| for t in [&s.a, &s.b, &s.r, &s.s].into_iter().flatten() { for (k, v) in t.iter() { let _ = k.as_ref().len(); alive(v, "a tree") } };
                for (name, op) in tree_ops::<P, T>() { lies(&|| format!("{name} ({flavour})"), len, cx, build(0), op, walk) }
                if y == 0 { for k in 0..keys.len() { for (name, op) in tree_keyed::<P, T>() { lies(&|| format!("{name} {:?} ({flavour})", keys[k]), len, cx, build(k), op, walk) } } }
            }
            all::<RadixTree<P, E>>(&u, x, y, &keys, len, "flat", cx);
            all::<ArcRadixTree<P, E>>(&u, x, y, &keys, len, "arc", cx);
        },
        move |i| format!("{} | {}", u2.show(pair(i, n).0), u2.show(pair(i, n).1)))
}

// -- references ----------------------------------------------------------------------------------
/// The borrow checker lets a caller keep what an iterator of the tree yielded for as long as its type says.
fn references() -> Box<dyn Space> {
    idx("references-of-into-iter", "AbstractRadixTree::into_iter of each flavour: what it yields is still alive when the iterator is gone, for as long as the borrow checker lets the caller keep it", 3,
        |i, cx| {
            elem::reset();
            // this compiles only while the borrow checker lets the item outlive the iterator
            fn first<T: AbstractRadixTree<u8, E> + 'static>(t: T) -> bool {
                let mut it = t.into_iter();
                let item = it.next().unwrap();
                let slot = item.1.slot;
                drop(it);
                let ok = elem::is_alive(slot);
                drop(item);
                ok
            }
            let k = vec![vec![0u8], vec![1u8]];
            let e = [(0u16, 4u16), (1, 6)];
            let ok = match i { 0 => first(tree::<u8, RadixTree<u8, E>>(&k, &e)), 1 => first(tree::<u8, ArcRadixTree<u8, E>>(&k, &e)), _ => first(tree::<u8, LazyRadixTree<u8, E>>(&k, &e)) };
            cx.op();
            cx.nontrivial_if(true);
            ensure!(ok, "the iterator yields a &'static to a value of the tree, and dropping the iterator drops the tree: the reference dangles");
        },
        |i| ["flat", "arc", "lazy"][i as usize].into())
}

/// nodes with ten and with nineteen children
fn u_few() -> Uni {
    let one = |r: std::ops::Range<u8>| r.map(|x| vec![x]).collect::<Vec<_>>();
    Uni::groups("few-wide", vec![one(0..9), one(9..10), one(10..19), vec![vec![0, 0], vec![9, 9]]])
}
/// up to 33 children of one node
fn fan() -> Uni {
    let r = |r: std::ops::Range<u8>| r.map(|x| vec![7, x]).collect::<Vec<Key>>();
    let odd = |m: u8| (0..33u8).filter(|x| x % m == 1).map(|x| vec![7, x]).collect::<Vec<Key>>();
    let all = [r(0..33), vec![vec![7], vec![7, 20, 1]]].concat();
    Uni::listed("fan", all.clone(), vec![vec![], r(0..33), all, r(0..9), r(12..33), odd(2), odd(3), odd(11), vec![vec![7], vec![7, 20, 1]], vec![vec![7, 32]]])
}
fn u_five() -> Uni { Uni::all("five", vec![vec![], vec![0], vec![0, 1], vec![1], vec![1, 0, 0]]) }
fn spaces(th: bool) -> Vec<Box<dyn Space>> {
    let d = |q: usize, t: usize| if th { t } else { q };
    let mut v = vec![
        references(),
        zst_space(),
        build_space(3, d(4, 5)),
        sets_space::<[E; 2]>(&vec![1; d(4, 5)], false),
        sets_space::<[E; 8]>(&vec![1; 4], false),
        sets_space::<[E; 1]>(&vec![1; d(3, 4)], true),
        sets_space::<[E; 4]>(&[3, 1, 9, 2], false),
        maps_space::<[(E, E); 2]>(&vec![1; d(3, 4)], false),
        maps_space::<[(E, E); 8]>(&vec![1; 3], false),
        maps_space::<[(E, E); 1]>(&vec![1; 3], true),
        maps_space::<[(E, E); 4]>(&[3, 1, 9], false),
        std_space(d(3, 4)),
        totals_space(d(2, 3)),
        flat::<u8>(u_small(), "flat"), arc::<u8>(u_small(), "arc"), loaded::<u8>(u_small(), "loaded"), lazy(u_small()),
        flat::<P>(u_small(), "flat-letters"), arc::<P>(if th { u_small() } else { u_five() }, "arc-letters"), loaded::<P>(if th { u_small() } else { u_five() }, "loaded-letters"),
        flat::<P>(u_few(), "flat-letters"), flat::<u8>(u_few(), "flat"), arc::<u8>(u_few(), "arc"), lazy(u_few()),
    ];
    v.push(lies_sets(3, d(7, 10)));
    v.push(lies_build(3, d(7, 10)));
    v.push(lies_trees(u_five(), d(5, 8)));
    // large operands
    v.push(build_long(if th { &[15, 16, 17, 20, 33, 40, 65, 70, 130] } else { &[17, 33, 40, 65] }));
    v.push(sets_space::<[E; 4]>(&[40, 1, 70], false));
    v.push(sets_space::<[E; 32]>(&[33, 1, 20], true));
    v.push(maps_space::<[(E, E); 4]>(&[30, 1, 20], false));
    v.push(flat::<u8>(fan(), "flat"));
    v.push(arc::<u8>(fan(), "arc"));
    v.push(lazy(fan()));
    v.push(flat::<u8>(u_chain(&[17]), "flat"));
    v.push(arc::<u8>(u_chain(&[17]), "arc"));
    v.push(lazy(u_chain(&[17])));
    if th {
        v.push(maps_space::<[(E, E); 2]>(&[2, 9, 1, 4], true));
        v.push(sets_space::<[E; 2]>(&[2, 9, 1, 4, 1], true));
        v.push(flat::<u8>(u_wide(), "flat"));
        v.push(arc::<u8>(u_wide(), "arc"));
        v.push(lazy(u_wide()));
        v.push(flat::<P>(u_wide(), "flat-letters"));
        v.push(flat::<u8>(u_spine(), "flat"));
        v.push(arc::<u8>(u_spine(), "arc"));
        v.push(lazy(u_spine()));
    }
    v
}
fn main() {
    mc::run_main(Prop {
        id: "C20",
        level: "fault_enumeration",
        rule: "a case is one pair of operands; every operation on it is run undisturbed and then once per callback (comparison, clone, closure, iterator step) with a panic injected into exactly that callback; non-trivial: an operation of the case has callbacks",
        assumptions: &["at most one callback panics per operation", "panics in Drop are not injected", "lying comparisons (answers that are no order at all) are enumerated for ownership only, nothing is claimed about contents then", "elements kept alive by a panic (leaked) are tolerated, twice dropped or dead ones are not"],
        spaces,
    })
}
