//! C10: a radix tree behaves like a sorted map of sequences, in canonical form.
use mc::gen::words;
use mc::iters::*;
use mc::radix::*;
use mc::{bfs, check_tree, ensure, ensure_eq, idx, Cx, Prop, Space, System};
use rkyv::Deserialize;
use std::collections::BTreeMap;
use std::sync::Arc;
use vec_collections::radix_tree::{AbstractRadixTree, AbstractRadixTreeMut};

/// every way of looking at a tree
fn observe<T: AbstractRadixTree<u8, V>>(t: &T, keys: &[Key], want: &Ents, probes: &[Key], what: &str, cx: &mut Cx) {
    check_tree!(t, keys, want, "{what}");
    ensure_eq!(t.is_empty(), want.is_empty(), "is_empty ({what})");
    // iteration, with every key kept
    let held: Vec<_> = t.iter().collect();
    // with every second key kept: the others are dropped before the iterator advances
    let mut half = vec![];
    let mut copied = vec![];
    for (n, (k, v)) in t.iter().enumerate() {
        copied.push((k.to_vec(), *v));
        if n % 2 == 0 { half.push((n, k, *v)) }
    }
    let exp: Vec<(&[u8], V)> = want.iter().map(|(k, v)| (keys[*k as usize].as_slice(), *v)).collect();
    let got: Vec<(&[u8], V)> = held.iter().map(|(k, v)| (k.as_ref(), **v)).collect();
    ensure_eq!(got, exp, "iter with the keys kept ({what})");
    ensure!(copied.iter().map(|(k, v)| (k.as_slice(), *v)).eq(exp.iter().copied()), "iter ({what}): got {copied:?}, expected {exp:?}");
    ensure!(half.iter().all(|(n, k, v)| (k.as_ref() as &[u8], *v) == exp[*n]), "a key kept while the iterator advanced has changed ({what})");
    // a clone of a kept key is independent as well
    let mut it = t.iter();
    if let Some((k, _)) = it.next() {
        let k2 = k.clone();
        drop(k);
        let _ = it.next();
        ensure_eq!(k2.as_ref() as &[u8], exp[0].0, "clone of a kept key ({what})");
    }
    let vals: Vec<V> = t.values().copied().collect();
    ensure!(vals.iter().copied().eq(want.iter().map(|e| e.1)), "values ({what}): got {vals:?}, expected {want:?}");
    // an exhausted iterator stays exhausted
    let (mut it, mut vs) = (t.iter(), t.values());
    while it.next().is_some() {}
    while vs.next().is_some() {}
    ensure!(it.next().is_none() && vs.next().is_none(), "iteration continues after its end ({what})");
    cx.ops(7);
    for p in probes {
        let w = want.iter().find(|e| keys[e.0 as usize] == *p).map(|e| e.1);
        ensure!(t.get(p).copied() == w, "get({p:?}) ({what}) is {:?}, expected {w:?}", t.get(p));
        ensure!(t.contains_key(p) == w.is_some(), "contains_key({p:?}) ({what})");
        cx.ops(2);
    }
}
fn owned_iter<T: AbstractRadixTree<u8, V> + 'static>(t: T, keys: &[Key], want: &Ents, what: &str, cx: &mut Cx) {
    cx.op();
    // values are looked at while the iterator lives
    let mut it = t.into_iter();
    let mut n = 0;
    let mut held = vec![];
    while let Some((k, v)) = it.next() {
        ensure!(n < want.len() && k.as_ref() as &[u8] == keys[want[n].0 as usize].as_slice() && *v == want[n].1, "into_iter ({what}) entry #{n} is {:?} => {v}", k.as_ref() as &[u8]);
        held.push(k);
        n += 1;
    }
    ensure_eq!(n, want.len(), "number of entries from into_iter ({what})");
    ensure!(held.iter().zip(want).all(|(k, w)| k.as_ref() as &[u8] == keys[w.0 as usize].as_slice()), "a key kept while into_iter advanced has changed ({what})");
}
fn probes(keys: &[Key]) -> Vec<Key> { around(keys, &[0, 1, 2, 7, 255]) }
/// every key set, every flavour and every conversion between them
fn shapes(u: Uni) -> Box<dyn Space> {
    let u = Arc::new(u);
    let u2 = u.clone();
    let ps = probes(&u.keys);
    idx(format!("trees-{}", u.name), format!("{}: every flavour, archive and conversion; iteration with keys kept, values, lookups of {} keys", u.about(), ps.len()), u.len(),
        move |i, cx| {
            let own = Pre::new_unleaked(&u, i, L);
            let a = &own.p;
            let (ks, w) = (&u.keys, &a.ents);
            cx.nontrivial_if(w.len() > 1);
            observe(&a.flat, ks, w, &ps, "flat", cx);
            observe(&a.arc, ks, w, &ps, "shared", cx);
            observe(&a.lazy(), ks, w, &ps, "unloaded lazy", cx);
            observe(&a.lazy_loaded(), ks, w, &ps, "loaded lazy", cx);
            observe(a.aflat(), ks, w, &ps, "archived flat", cx);
            observe(a.aarc(), ks, w, &ps, "archived shared", cx);
            observe(a.alazy(), ks, w, &ps, "archived lazy", cx);
            // conversions
            let conv = Shared::from(a.flat.clone());
            observe(&conv, ks, w, &[], "shared from flat", cx);
            let conv = Shared::from(a.aarc());
            observe(&conv, ks, w, &[], "shared from archived", cx);
            let back: Flat = a.aflat().deserialize(&mut rkyv::Infallible).unwrap();
            observe(&back, ks, w, &[], "flat deserialized", cx);
            ensure!(back == a.flat, "a deserialized tree is not equal to the original");
            // a conversion result is a full citizen: grow it
            let mut conv = conv;
            conv.union_with(&a.arc);
            check_tree!(&conv, ks, w, "union of a converted tree with itself");
            owned_iter(a.flat.clone(), ks, w, "flat", cx);
            owned_iter(a.arc.clone(), ks, w, "shared", cx);
            owned_iter(a.lazy(), ks, w, "lazy", cx);
            // collecting, in ascending and in descending order, and with duplicates
            let up: Flat = w.iter().map(|(k, v)| (&ks[*k as usize], *v)).collect();
            let down: Flat = w.iter().rev().map(|(k, v)| (&ks[*k as usize], *v)).collect();
            let dup: Flat = w.iter().map(|(k, _)| (&ks[*k as usize], 7)).chain(w.iter().rev().map(|(k, v)| (&ks[*k as usize], *v))).collect();
            ensure!(up == a.flat && down == a.flat && dup == a.flat, "trees with the same mappings are not equal: collected in different orders");
            check_tree!(&dup, ks, w, "collected with duplicate keys");
            // equality sees keys and values
            if let Some((k, v)) = w.last() {
                let mut c = a.flat.clone();
                c.insert(&ks[*k as usize], v ^ 1);
                ensure!(c != a.flat, "trees with different values are equal");
                let single: Flat = Flat::single(&ks[*k as usize], *v);
                check_tree!(&single, ks, &vec![(*k, *v)], "single");
                check_tree!(&Shared::single(&ks[*k as usize], *v), ks, &vec![(*k, *v)], "single (shared)");
                check_tree!(&LazyT::single(&ks[*k as usize], *v), ks, &vec![(*k, *v)], "single (lazy)");
                cx.ops(4);
            }
            check_tree!(&Flat::leaf(5), &[vec![]], &vec![(0, 5)], "leaf");
            check_tree!(&Flat::empty(), &[], &vec![], "empty");
            cx.ops(6);
            cx.outcome(w);
        },
        move |i| format!("keys: {}", u2.show(i)))
}
/// every insertion sequence (repeats allowed): last value wins, shape independent of the order
fn sequences(name: &str, keys: Vec<Key>, len: u32) -> Box<dyn Space> {
    let mut keys = keys;
    keys.sort();
    let keys = Arc::new(keys);
    let k2 = keys.clone();
    let m = keys.len() as u64;
    let size: u64 = (0..=len).map(|l| m.pow(l)).sum();
    let decode = move |mut i: u64| { let mut l = 0; while i >= m.pow(l) { i -= m.pow(l); l += 1 } (0..l).map(|_| { let x = (i % m) as u16; i /= m; x }).collect::<Vec<u16>>() };
    idx(format!("sequences-{name}"), format!("every sequence of up to {len} insertions of {m} keys (repeats allowed), three flavours and FromIterator"), size,
        move |i, cx| {
            let seq = decode(i);
            let mut r = BTreeMap::new();
            let (mut f, mut a, mut l) = (Flat::empty(), Shared::empty(), LazyT::empty());
            for (n, k) in seq.iter().enumerate() {
                let v = n as V + 1;
                r.insert(*k, v);
                f.insert(&keys[*k as usize], v);
                a.insert(&keys[*k as usize], v);
                l.insert(&keys[*k as usize], v);
            }
            cx.nontrivial_if(r.len() < seq.len() && r.len() > 1);
            cx.ops(4);
            let want: Ents = r.into_iter().collect();
            check_tree!(&f, &keys, &want, "flat after the insertions");
            check_tree!(&a, &keys, &want, "shared after the insertions");
            check_tree!(&l, &keys, &want, "lazy after the insertions");
            let c: Flat = seq.iter().enumerate().map(|(n, k)| (&keys[*k as usize], n as V + 1)).collect();
            check_tree!(&c, &keys, &want, "collected");
            ensure!(c == f, "collected and inserted trees differ");
            cx.outcome(&want);
        },
        move |i| format!("insert in this order: {:?}", decode(i).iter().map(|k| &k2[*k as usize]).collect::<Vec<_>>()))
}

/// many insertions in every arithmetic order
fn orders(u: Uni, every: usize) -> Box<dyn Space> {
    let n = u.keys.len();
    let steps: Arc<Vec<usize>> = Arc::new((1..n).filter(|a| { let (mut x, mut y) = (*a, n); while y > 0 { (x, y) = (y, x % y) } x == 1 }).step_by(every).chain([n - 1]).collect());
    let (u, s2) = (Arc::new(u), steps.clone());
    idx(format!("orders-{}", u.name), format!("{n} keys inserted in the orders (a*i + b) mod {n} for {} multipliers a and 3 offsets b, three flavours and FromIterator; checked half way and at the end", steps.len()), steps.len() as u64 * 3,
        move |i, cx| {
            let (a, b) = (steps[(i / 3) as usize], [0, n / 2, n - 1][(i % 3) as usize]);
            let seq: Vec<u16> = (0..n).map(|x| ((a * x + b) % n) as u16).collect();
            let (mut f, mut s, mut l) = (Flat::empty(), Shared::empty(), LazyT::empty());
            cx.ops(n as u64 * 3);
            cx.nontrivial_if(a > 1);
            for part in [&seq[..n / 2], &seq[n / 2..]] {
                for k in part {
                    let key = &u.keys[*k as usize];
                    f.insert(key, *k + 1);
                    s.insert(key, *k + 1);
                    l.insert(key, *k + 1);
                }
                let mut want: Ents = seq[..if part[0] == seq[0] { n / 2 } else { n }].iter().map(|k| (*k, *k + 1)).collect();
                want.sort();
                check_tree!(&f, &u.keys, &want, "flat after {} insertions", want.len());
                check_tree!(&s, &u.keys, &want, "shared after {} insertions", want.len());
                check_tree!(&l, &u.keys, &want, "lazy after {} insertions", want.len());
                ensure!(f.values().copied().eq(want.iter().map(|e| e.1)), "values after {} insertions", want.len());
            }
            let c: Flat = seq.iter().map(|k| (&u.keys[*k as usize], *k + 1)).collect();
            ensure!(c == f, "collected and inserted trees differ");
            cx.outcome(i);
        },
        move |i| format!("order ({} i + offset #{}) mod {n}", s2[(i / 3) as usize], i % 3))
}

#[derive(Clone, Debug)]
enum Act {
    Insert(u16, V),
    Union(Ents),
    Outer(Ents, bool),
    Inter(Ents),
    Diff(Ents),
    Remove(Ents),
    Retain(Ents),
    Filter(u16),
    Convert,
    Reload,
}
struct Hist { name: String, keys: Vec<Key>, acts: Vec<Act>, depth: usize, probes: Vec<Key>, ops: Vec<Option<Pre>> }
impl Hist {
    fn new(name: &str, mut keys: Vec<Key>, depth: usize, upto: usize) -> Hist {
        keys.sort();
        let mut u = Uni::upto(name, keys.clone(), upto);
        u.name = name.into();
        let n = keys.len() as u16;
        let mut acts = vec![];
        for k in 0..n { for v in [1, 2] { acts.push(Act::Insert(k, v)) } }
        for i in 0..u.len() {
            let e: Ents = u.subsets[i as usize].iter().map(|k| (*k, 1 + k % 2)).collect();
            if e.is_empty() { continue }
            acts.push(Act::Union(e.clone()));
            acts.push(Act::Outer(e.clone(), true));
            acts.push(Act::Outer(e.clone(), false));
            acts.push(Act::Diff(e.clone()));
            acts.push(Act::Remove(e.clone()));
            acts.push(Act::Retain(e.clone()));
            // remove everything but the given keys
            let inv: Ents = (0..n).filter(|k| !e.iter().any(|x| x.0 == *k)).map(|k| (k, 1)).collect();
            acts.push(Act::Inter(inv));
        }
        for k in 0..n { acts.push(Act::Filter(k)) }
        acts.push(Act::Convert);
        acts.push(Act::Reload);
        let ops = acts.iter().map(|a| match a {
            Act::Union(e) | Act::Outer(e, _) | Act::Inter(e) | Act::Diff(e) | Act::Remove(e) | Act::Retain(e) => Some(Pre::from_ents(&keys, e.clone())),
            _ => None,
        }).collect();
        Hist { name: format!("history-{name}"), probes: probes(&keys), keys, acts, depth, ops }
    }
}
type M = BTreeMap<u16, V>;
impl System for Hist {
    fn name(&self) -> String { self.name.clone() }
    fn about(&self) -> String { format!("histories of {} operations over {} keys x 2 values, flat, shared and lazy trees in lock step; state = the mappings", self.acts.len(), self.keys.len()) }
    fn actions(&self) -> usize { self.acts.len() }
    fn max_depth(&self) -> usize { self.depth }
    fn describe(&self, p: &[u16]) -> String { p[1..].iter().map(|a| format!("{:?}", self.acts[*a as usize])).collect::<Vec<_>>().join("; ") }
    fn replay(&self, path: &[u16], cx: &mut Cx) -> Option<Vec<u8>> {
        let mut m = M::new();
        let (mut f, mut a, mut l) = (Flat::empty(), Shared::empty(), LazyT::empty());
        // archives opened on the way stay alive until the end
        let mut arch: Vec<Box<rkyv::AlignedVec>> = vec![];
        for (step, ai) in path[1..].iter().enumerate() {
            let last = step + 2 == path.len();
            let before = m.clone();
            let op = self.ops[*ai as usize].as_ref();
            let swap = |x: &mut V, y: &V| { *x = 3 - *x; *y > 1 };
            match &self.acts[*ai as usize] {
                Act::Insert(k, v) => {
                    m.insert(*k, *v);
                    let k = &self.keys[*k as usize];
                    f.insert(k, *v); a.insert(k, *v); l.insert(k, *v);
                }
                Act::Union(e) => {
                    for (k, v) in e { m.entry(*k).or_insert(*v); }
                    let o = op.unwrap();
                    f.union_with(&o.flat); a.union_with(&o.arc); l.union_with(&o.lazy());
                }
                Act::Outer(e, keep) => {
                    for (k, v) in e {
                        match m.get(k).copied() { None => { m.insert(*k, *v); } Some(x) => if *keep || *v > 1 { m.insert(*k, 3 - x); } else { m.remove(k); } }
                    }
                    let o = op.unwrap();
                    let kp = *keep;
                    f.outer_combine_with(&o.flat, |x, y| swap(x, y) || kp);
                    a.outer_combine_with(o.aarc(), |x, y| swap(x, y) || kp);
                    l.outer_combine_with(o.alazy(), |x, y| swap(x, y) || kp);
                }
                Act::Inter(e) => {
                    m.retain(|k, _| e.iter().any(|x| x.0 == *k));
                    let o = op.unwrap();
                    f.intersection_with(&o.arc); a.intersection_with(&o.flat); l.intersection_with(&o.lazy());
                }
                Act::Diff(e) => {
                    m.retain(|k, _| !e.iter().any(|x| x.0 == *k));
                    let o = op.unwrap();
                    f.difference_with(&o.flat); a.difference_with(o.aflat()); l.difference_with(&o.lazy());
                }
                Act::Remove(e) => {
                    m.retain(|k, _| !e.iter().any(|x| self.keys[*k as usize].starts_with(&self.keys[x.0 as usize])));
                    let o = op.unwrap();
                    f.remove_prefix_with(&o.arc, |_| true); a.remove_prefix_with(&o.lazy(), |_| true); l.remove_prefix_with(o.aflat(), |_| true);
                }
                Act::Retain(e) => {
                    m.retain(|k, _| e.iter().any(|x| self.keys[*k as usize].starts_with(&self.keys[x.0 as usize])));
                    let o = op.unwrap();
                    f.retain_prefix_with(&o.flat, |_| true); a.retain_prefix_with(&o.arc, |_| true); l.retain_prefix_with(&o.lazy(), |_| true);
                }
                Act::Filter(k) => {
                    let p = &self.keys[*k as usize];
                    m.retain(|k, _| self.keys[*k as usize].starts_with(p));
                    f = f.filter_prefix(p); a = a.filter_prefix(p); l = l.filter_prefix(p);
                }
                Act::Convert => { a = Shared::from(f.clone()); l = LazyT::from(f.clone()) }
                Act::Reload => {
                    let b = Box::new(archive(&l));
                    let b2 = archive(&a);
                    let v: &'static [u8] = unsafe { std::slice::from_raw_parts(b.as_ptr(), b.len()) };
                    arch.push(b);
                    l = LazyT::from(unsafe { rkyv::archived_root::<LazyT>(v) });
                    a = Shared::from(unsafe { rkyv::archived_root::<Shared>(&b2) });
                    f = unsafe { rkyv::archived_root::<Flat>(&archive(&f)) }.deserialize(&mut rkyv::Infallible).unwrap();
                }
            }
            cx.ops(3);
            if last { cx.nontrivial_if(before != m && before.len() > 1) }
        }
        let want: Ents = m.iter().map(|(k, v)| (*k, *v)).collect();
        // the lazily opened flavour first: its unloaded parts are loaded by what we do to it
        observe(&l, &self.keys, &want, &self.probes, "lazy", cx);
        observe(&f, &self.keys, &want, &self.probes, "flat", cx);
        observe(&a, &self.keys, &want, &self.probes, "shared", cx);
        ensure!(f == build::<Flat, V>(&self.keys, want.iter().copied()), "flat tree differs from a fresh tree with the same mappings");
        drop(l);
        Some(want.iter().flat_map(|e| [e.0 as u8, e.1 as u8]).collect())
    }
}

/// every script of iterator calls on every flavour
fn protocols(u: Uni, masks: Vec<u64>, depth: usize) -> Box<dyn Space> {
    let sc = Arc::new(scripts(depth));
    let n = sc.len() as u64;
    let (u, sc2) = (Arc::new(u), sc.clone());
    let (u2, m2) = (u.clone(), masks.clone());
    idx(format!("iterator-protocol-{}-{depth}", u.name), format!("every sequence of up to {depth} next/nth calls, then each of {} ways of finishing, on iter, values, scan_prefix and into_iter of every flavour, {} trees", ENDS.len(), masks.len()), n * masks.len() as u64,
        move |i, cx| {
            let (script, a) = (&sc[(i % n) as usize], Pre::new_unleaked(&u, masks[(i / n) as usize], L));
            let a = &a.p;
            let want = u.pairs(&a.ents);
            let vals: Vec<V> = want.iter().map(|e| e.1).collect();
            cx.nontrivial_if(want.len() > 1 && !script.is_empty());
            fn go<T: AbstractRadixTree<u8, V>>(t: &T, want: &[(Key, V)], vals: &[V], script: &[Step], what: &str, cx: &mut Cx) {
                protocol(|| t.iter(), want, |(k, v)| (k.to_vec(), *v), script, &format!("iter() {what}"), cx);
                protocol(|| t.values(), vals, |v| *v, script, &format!("values() {what}"), cx);
                protocol(|| t.scan_prefix(&[]), want, |(k, v)| (k.to_vec(), *v), script, &format!("scan_prefix([]) {what}"), cx);
            }
            go(&a.flat, &want, &vals, script, "flat", cx);
            go(&a.arc, &want, &vals, script, "shared", cx);
            go(&a.lazy(), &want, &vals, script, "lazy", cx);
            go(a.aflat(), &want, &vals, script, "archived flat", cx);
            go(a.aarc(), &want, &vals, script, "archived shared", cx);
            go(a.alazy(), &want, &vals, script, "archived lazy", cx);
            cx.outcome(i);
        },
        move |i| format!("{}; calls {:?}", u2.show(m2[(i / n) as usize]), sc2[(i % n) as usize]))
}
fn spaces(th: bool) -> Vec<Box<dyn Space>> {
    let mut v: Vec<Box<dyn Space>> = vec![];
    for u in [u_small(), u_spine(), u_wide(), u_deepwide(), u_scaled(9), u_scaled(17), u_bytes(), u_mid(4), u_tern(4), u_letters(10), u_fan(0, &FAN), u_fan(2, &FAN), u_long(if th { 11 } else { 4 }), u_huge(), u_chain(&[16, 17, 33, 65, 129, 300]), u_bush()] { v.push(shapes(u)) }
    let wide: Vec<Key> = (0..10u8).map(|x| vec![x]).chain([vec![3, 3], vec![]]).collect();
    {
        let (s, w) = (u_small(), u_spine());
        let (ms, mw) = ((0..s.len()).step_by(if th { 1 } else { 7 }).collect(), (0..w.len()).step_by(if th { 3 } else { 31 }).collect());
        v.push(protocols(s, ms, 3));
        v.push(protocols(w, mw, 3));
    }
    v.push(sequences("small", words(2, 2), 6));
    v.push(sequences("mid", words(2, 3), 4));
    v.push(sequences("ternary", words(3, 2), 4));
    v.push(sequences("wide", wide.clone(), 4));
    v.push(sequences("long", words(2, 2).into_iter().map(|w| mc::gen::scale(&w, 17)).collect(), 5));
    let e = if th { 1 } else { 3 };
    for u in [u_fan(0, &[1]), u_fan(2, &[1]), u_long(1), u_chain(&[65]), u_bush()] { v.push(orders(u, e)) }
    v.push(bfs(Hist::new("small", words(2, 2), 99, 2)));
    v.push(bfs(Hist::new("spine", u_spine().keys, if th { 99 } else { 6 }, 2)));
    v.push(bfs(Hist::new("mid", words(2, 3), if th { 6 } else { 4 }, 1)));
    v.push(bfs(Hist::new("wide", wide, if th { 6 } else { 4 }, 1)));
    if th {
        v.push(shapes(Uni::all("mid-all", words(2, 3))));
        v.push(shapes(u_tern(6)));
        v.push(sequences("small7", words(2, 2), 7));
        v.push(sequences("mid5", words(2, 3), 5));
        v.push(sequences("ternary5", words(3, 2), 5));
        v.push(sequences("spine6", u_spine2().keys, 6));
    }
    v.extend(mc::each_tree!(trees));
    v.extend(mc::deep::spaces(&["get", "iter", "clone", "insert", "drop"], &["clone", "insert", "drop"]));
    v.push(mc::huge::trees(mc::huge::Part::Map));
    v
}
fn main() {
    mc::deep::child();
    mc::run_main(Prop {
        id: "C10",
        level: "model_checking",
        rule: "histories: a state is a set of mappings, a transition one operation on the real trees in lock step with the reference map; inputs: one key set or insertion sequence observed in every way; distinct by construction; non-trivial: an operation changes a map of at least two entries, or the case has several keys",
        assumptions: &["trees treat key elements only through Ord/Eq/Copy and values only through Clone", "bounded universes: histories over 7 keys x 2 values explored to closure, larger ones to the stated depth", "values returned by into_iter are only used while the iterator lives (see the known finding under C20)"],
        spaces,
    })
}
