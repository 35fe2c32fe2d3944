//! C02: set queries depend only on the elements.
use mc::{elem, elem::E, ensure, ensure_eq, gen::*, idx, iters::*, sets::*, Cx, Prop, Space};
use rkyv::AlignedVec;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::sync::Arc;
use vec_collections::{AbstractVecSet, Array, VecSet};

fn h(x: &impl Hash) -> u64 { let mut s = DefaultHasher::new(); x.hash(&mut s); s.finish() }

/// lexicographic comparison of the sorted elements, written out
fn lex(a: &[u16], b: &[u16]) -> Ordering {
    let mut i = 0;
    loop {
        match (a.get(i), b.get(i)) {
            (None, None) => return Ordering::Equal,
            (None, _) => return Ordering::Less,
            (_, None) => return Ordering::Greater,
            (Some(x), Some(y)) if x < y => return Ordering::Less,
            (Some(x), Some(y)) if x > y => return Ordering::Greater,
            _ => i += 1,
        }
    }
}

fn walk<T: Elem>(it: impl Iterator<Item = T>, keys: &[u16], what: &str, cx: &mut Cx) { walk_map(it, keys, what, |x| x.kt().0, cx) }
/// drains an iterator by hand, checking every item, the size hint at every step and that it stays exhausted
fn walk_map<X>(mut it: impl Iterator<Item = X>, keys: &[u16], what: &str, f: impl Fn(&X) -> u16, cx: &mut Cx) {
    cx.op();
    for (i, k) in keys.iter().enumerate() {
        let (lo, hi) = it.size_hint();
        let rest = keys.len() - i;
        ensure!(lo <= rest && hi.is_none_or(|h| h >= rest), "{what}: size_hint {:?} with {rest} elements left", (lo, hi));
        match it.next() {
            Some(x) => ensure_eq!(f(&x), *k, "{what}: element {i}"),
            None => mc::fail!("{what}: ended after {i} of {} elements", keys.len()),
        }
    }
    let (lo, _) = it.size_hint();
    ensure!(lo == 0, "{what}: size_hint lower bound {lo} at the end");
    ensure!(it.next().is_none(), "{what}: more elements than expected");
}

/// all queries on one set, in the given storage state
fn unary<T: Elem + std::fmt::Debug, A: Array<Item = T> + Clone>(mk: impl Fn() -> VecSet<A>, keys: &[u16], probes: &[u16], what: &str, cx: &mut Cx) {
    let s = mk();
    ensure_eq!(s.len(), keys.len(), "len {what}");
    ensure_eq!(s.is_empty(), keys.is_empty(), "is_empty {what}");
    ensure_eq!(AbstractVecSet::is_empty(&s), keys.is_empty(), "trait is_empty {what}");
    ensure!(s == s.clone(), "clone differs {what}");
    for p in probes {
        cx.op();
        ensure_eq!(s.contains(&T::mk(*p, 3)), keys.contains(p), "contains({p}) {what}");
    }
    walk_map(s.iter(), keys, "iter()", |x| x.kt().0, cx);
    walk_map(AbstractVecSet::iter(&s), keys, "trait iter()", |x| x.kt().0, cx);
    walk_map((&s).into_iter(), keys, "(&set).into_iter()", |x| x.kt().0, cx);
    walk_map(s.as_ref().iter(), keys, "as_ref()", |x| x.kt().0, cx);
    walk(s.clone().into_iter(), keys, "into_iter()", cx);
    walk(Vec::from(s.clone()).into_iter(), keys, "Vec::from", cx);
    walk(s.clone().into_inner().into_iter(), keys, "into_inner", cx);
    walk(smallvec::SmallVec::<A>::from(s.clone()).into_iter(), keys, "SmallVec::from", cx);
    // a partially consumed owning iterator must not lose or repeat anything
    for n in 0..=keys.len().min(4) {
        let mut it = s.clone().into_iter();
        for _ in 0..n { it.next(); }
        walk(it, &keys[n..], "partially consumed into_iter()", cx);
    }
    let mut t = mk();
    t.shrink_to_fit();
    ensure!(t == s && s == t && t.cmp(&s) == Ordering::Equal && h(&t) == h(&s), "shrink_to_fit changed the set {what}");
    walk_map(t.iter(), keys, "iter() after shrink_to_fit", |x| x.kt().0, cx);
}

fn singles(name: &str, w: &[usize]) -> Box<dyn Space> {
    let at = Atoms::new(w);
    let at2 = at.clone();
    let probes = at.probes();
    idx(format!("single-{name}"), format!("all subsets of {} atoms of sizes {w:?}, each built inline, on the heap and by different histories, every probe value", at.n()),
        at.masks(),
        move |i, cx| {
            let k = at.elems(i);
            cx.nontrivial_if(!k.is_empty());
            cx.outcome(&k);
            elem::reset();
            unary::<E, [E; 4]>(|| build(&k, 1, false), &k, &probes, "(compact, capacity 4)", cx);
            unary::<E, [E; 16]>(|| build(&k, 1, true), &k, &probes, "(heap, capacity 16)", cx);
            unary::<u16, [u16; 2]>(|| build(&k, 1, true), &k, &probes, "(heap, capacity 2)", cx);
            unary::<String, [String; 1]>(|| build(&k, 1, false), &k, &probes, "(strings)", cx);
            // histories that end in the same elements
            let base: VecSet<[u16; 4]> = build(&k, 1, false);
            let rev: VecSet<[u16; 4]> = { let mut s = VecSet::empty(); for x in k.iter().rev() { s.insert(*x); } s };
            let dup: VecSet<[u16; 4]> = k.iter().chain(k.iter().rev()).copied().collect();
            let shrunk: VecSet<[u16; 4]> = { let mut s: VecSet<[u16; 4]> = (0..120).collect(); s.retain(|x| k.contains(x)); s };
            let unioned: VecSet<[u16; 4]> = { let mut s = VecSet::empty(); for x in &k { s |= VecSet::<[u16; 4]>::single(*x); } s };
            let spilled: VecSet<[u16; 4]> = build(&k, 1, true);
            for (n, s) in [("reverse insertion", &rev), ("with duplicates", &dup), ("retained from a larger one", &shrunk), ("union of singletons", &unioned), ("heap", &spilled)] {
                cx.op();
                ensure!(*s == base && base == *s && !(*s != base), "{n} != collected");
                ensure!(s.cmp(&base) == Ordering::Equal && base.partial_cmp(s) == Some(Ordering::Equal), "{n} does not compare Equal");
                ensure!(h(s) == h(&base), "{n} hashes differently");
            }
            if k.len() == 1 { ensure!(VecSet::<[u16; 4]>::single(k[0]) == base, "single") }
            if k.is_empty() { ensure!(VecSet::<[u16; 4]>::empty() == base && VecSet::<[u16; 4]>::default() == base, "empty/default") }
            // archived
            let b = archived(&k);
            let a = view(&b);
            walk_map(a.iter(), &k, "archived iter()", |x| **x, cx);
            ensure_eq!(a.is_empty(), k.is_empty(), "archived is_empty");
            ensure_eq!(a.as_slice().len(), k.len(), "archived len");
            for p in &probes { cx.op(); ensure_eq!(a.contains(p), k.contains(p), "archived contains({p})"); }
            elem::check_clean(false);
        },
        move |i| format!("A={:?}", at2.elems(i)))
}

fn binary<T: Elem, A: Array<Item = T>, B: Array<Item = T>>(a: &VecSet<A>, b: &VecSet<B>, q: &(bool, bool, bool), what: &str, cx: &mut Cx) {
    cx.ops(3);
    ensure_eq!(a.is_subset(b), q.0, "is_subset {what}");
    ensure_eq!(a.is_superset(b), q.1, "is_superset {what}");
    ensure_eq!(a.is_disjoint(b), q.2, "is_disjoint {what}");
}
fn pairs(name: &str, w: &[usize], strings: bool) -> Box<dyn Space> {
    let at = Atoms::new(w);
    let at2 = at.clone();
    type S = (Vec<u16>, AlignedVec, VecSet<[u16; 4]>, VecSet<[u16; 4]>, VecSet<[u16; 1]>, VecSet<[String; 2]>);
    let pre: Arc<Vec<S>> = Arc::new((0..at.masks()).map(|m| {
        let k = at.elems(m);
        (k.clone(), archived(&k), build(&k, 0, false), build(&k, 0, true), build(&k, 0, false), if strings { build(&k, 0, false) } else { VecSet::empty() })
    }).collect());
    idx(format!("pairs-{name}"), format!("all pairs of subsets of {} atoms of sizes {w:?}: subset, superset, disjoint, equality, order, hash; owned and archived, mixed capacities and storage", at.n()),
        at.masks() * at.masks(),
        move |i, cx| {
            let (x, y) = pair(i, at.masks());
            let (l, r) = (&pre[x as usize], &pre[y as usize]);
            let q = (
                l.0.iter().all(|k| r.0.contains(k)),
                r.0.iter().all(|k| l.0.contains(k)),
                !l.0.iter().any(|k| r.0.contains(k)),
            );
            cx.nontrivial_if(x != 0 && y != 0 && x != y);
            binary(&l.2, &r.2, &q, "(compact, compact)", cx);
            binary(&l.2, &r.4, &q, "(capacity 4, capacity 1)", cx);
            binary(&l.3, &r.4, &q, "(heap, capacity 1)", cx);
            if strings { binary(&l.5, &r.5, &q, "(strings)", cx) }
            let (aa, ab) = (view(&l.1), view(&r.1));
            for (n, got) in [
                ("owned.q(archived)", (l.2.is_subset(ab), l.2.is_superset(ab), l.2.is_disjoint(ab))),
                ("archived.q(owned)", (aa.is_subset(&r.2), aa.is_superset(&r.2), aa.is_disjoint(&r.2))),
                ("archived.q(archived)", (aa.is_subset(ab), aa.is_superset(ab), aa.is_disjoint(ab))),
            ] {
                cx.op();
                ensure_eq!(got, q, "(subset, superset, disjoint) {n}");
            }
            let o = lex(&l.0, &r.0);
            for (n, a, b) in [("compact/compact", &l.2, &r.2), ("compact/heap", &l.2, &r.3), ("heap/compact", &l.3, &r.2)] {
                cx.op();
                ensure_eq!(a.cmp(b), o, "cmp {n}");
                ensure_eq!(a.partial_cmp(b), Some(o), "partial_cmp {n}");
                ensure!((a == b) == (x == y) && (a != b) == (x != y), "equality {n}");
                ensure!((a < b) == (o == Ordering::Less) && (a >= b) == (o != Ordering::Less), "comparison operators {n}");
            }
            ensure_eq!(l.4.cmp(&r.4), o, "cmp capacity 1");
            if x == y { ensure!(h(&l.2) == h(&r.3) && h(&l.2) == h(&l.2.clone()), "equal sets hash differently") }
            cx.outcome((q, o as i8));
        },
        move |i| { let (x, y) = pair(i, at2.masks()); format!("A={:?} B={:?}", at2.elems(x), at2.elems(y)) })
}
/// a set asked about itself (the same object as both operands)
fn selfs<T: Elem + Hash, A: Array<Item = T>>(k: &[u16], heap: bool, what: &str, cx: &mut Cx) {
    let a: VecSet<A> = build(k, 1, heap);
    binary(&a, &a, &(true, true, k.is_empty()), what, cx);
    ensure!(a == a && !(a != a) && a.cmp(&a) == Ordering::Equal && a.partial_cmp(&a) == Some(Ordering::Equal) && a <= a && a >= a && !(a < a) && !(a > a), "comparison with itself {what}");
}
#[allow(clippy::eq_op)]
fn self_pairs(name: &str, w: &[usize]) -> Box<dyn Space> {
    let at = Atoms::new(w);
    let at2 = at.clone();
    idx(format!("self-{name}"), format!("every subset of {} atoms of sizes {w:?} compared with itself (the same object): subset, superset, disjoint, equality, order; 3 element types, archived", at.n()), at.masks(),
        move |i, cx| {
            let k = at.elems(i);
            cx.nontrivial_if(!k.is_empty());
            cx.outcome(&k);
            elem::reset();
            for heap in [false, true] {
                let w = if heap { "(heap, the same object)" } else { "(compact, the same object)" };
                selfs::<E, [E; 4]>(&k, heap, w, cx);
                selfs::<u16, [u16; 2]>(&k, heap, w, cx);
                selfs::<String, [String; 1]>(&k, heap, w, cx);
            }
            elem::check_clean(false);
            let b = archived(&k);
            let a = view(&b);
            cx.op();
            ensure_eq!((a.is_subset(a), a.is_superset(a), a.is_disjoint(a)), (true, true, k.is_empty()), "(subset, superset, disjoint) of an archived set with itself");
        },
        move |i| format!("A=B={:?}", at2.elems(i)))
}
/// pairs of large operands
fn large(name: &str, what: &str, ps: Vec<(Vec<u16>, Vec<u16>)>) -> Box<dyn Space> {
    let ps = Arc::new(ps);
    let ps2 = ps.clone();
    idx(format!("large-{name}"), format!("{what}: subset, superset, disjoint, equality, order, hash, owned and archived; membership of every element and of its neighbours"), ps.len() as u64,
        move |i, cx| {
            let (ka, kb) = &ps[i as usize];
            let (ina, inb) = (member(ka), member(kb));
            let q = (ka.iter().all(|k| inb(*k)), kb.iter().all(|k| ina(*k)), !ka.iter().any(|k| inb(*k)));
            cx.nontrivial_if(!ka.is_empty() && !kb.is_empty() && ka != kb);
            let (a, b): (VecSet<[u16; 4]>, VecSet<[u16; 4]>) = (build(ka, 0, false), build(kb, 0, true));
            let c: VecSet<[u16; 64]> = build(kb, 0, false);
            binary(&a, &b, &q, "(compact, heap)", cx);
            binary(&a, &c, &q, "(capacity 4, capacity 64)", cx);
            let (ba, bb) = (archived(ka), archived(kb));
            let (aa, ab) = (view(&ba), view(&bb));
            for (n, got) in [
                ("owned.q(archived)", (a.is_subset(ab), a.is_superset(ab), a.is_disjoint(ab))),
                ("archived.q(owned)", (aa.is_subset(&b), aa.is_superset(&b), aa.is_disjoint(&b))),
                ("archived.q(archived)", (aa.is_subset(ab), aa.is_superset(ab), aa.is_disjoint(ab))),
            ] {
                cx.op();
                ensure_eq!(got, q, "(subset, superset, disjoint) {n}");
            }
            let o = lex(ka, kb);
            ensure_eq!(a.cmp(&b), o, "cmp");
            ensure_eq!(b.partial_cmp(&a), Some(o.reverse()), "partial_cmp");
            ensure!((a == b) == (ka == kb) && (b != a) == (ka != kb), "equality");
            let a2: VecSet<[u16; 4]> = build(ka, 0, true);
            ensure!(a == a2 && h(&a) == h(&a2) && a.cmp(&a2) == Ordering::Equal, "depends on the storage");
            let kab = |k: u16| (ina(k), inb(k));
            for k in ka.iter().chain(kb) {
                for p in [k - 1, *k, k + 1] {
                    cx.op();
                    ensure_eq!((a.contains(&p), b.contains(&p)), kab(p), "contains({p})");
                    ensure_eq!((aa.contains(&p), ab.contains(&p)), kab(p), "archived contains({p})");
                    ensure_eq!(c.contains(&p), inb(p), "contains({p}), capacity 64");
                }
            }
            walk_map(c.iter(), kb, "iter()", |x| x.kt().0, cx);
            walk(b.into_iter(), kb, "into_iter()", cx);
        },
        move |i| format!("A={} B={}", runs(&ps2[i as usize].0), runs(&ps2[i as usize].1)))
}
/// every script of iterator calls on every kind of set iterator
fn protocols(depth: usize, sizes: &'static [usize]) -> Box<dyn Space> {
    let sc = Arc::new(scripts(depth));
    let n = sc.len() as u64;
    let sc2 = sc.clone();
    idx(format!("iterator-protocol-{depth}"), format!("every sequence of up to {depth} next/nth calls, then each of {} ways of finishing, on owning, borrowing and archived iterators over {sizes:?} elements", ENDS.len()), n * sizes.len() as u64,
        move |i, cx| {
            let (script, len) = (&sc[(i % n) as usize], sizes[(i / n) as usize]);
            let keys: Vec<u16> = (0..len as u16).map(|x| 3 * x + 1).collect();
            cx.nontrivial_if(len > 0 && !script.is_empty());
            cx.outcome((len, i % n));
            elem::reset();
            {
                let c: VecSet<[E; 4]> = build(&keys, 1, false);
                let s: VecSet<[E; 4]> = build(&keys, 1, true);
                for (w, s) in [("compact", &c), ("heap", &s)] {
                    protocol(|| s.iter(), &keys, |x| x.key, script, &format!("iter() {w}"), cx);
                    protocol(|| s.into_iter(), &keys, |x| x.key, script, &format!("(&set).into_iter() {w}"), cx);
                    protocol(|| s.clone().into_iter(), &keys, |x| { ensure!(x.ok(), "a dropped element was handed out"); x.key }, script, &format!("into_iter() {w}"), cx);
                }
                let b = archived(&keys);
                protocol(|| view(&b).iter(), &keys, |x| *x, script, "archived iter()", cx);
            }
            elem::check_clean(false);
        },
        move |i| format!("{} elements, calls {:?}", sizes[(i / n) as usize], sc2[(i % n) as usize]))
}
fn spaces(th: bool) -> Vec<Box<dyn Space>> {
    let mut v = vec![
        protocols(if th { 5 } else { 4 }, &[0, 1, 2, 3, 4, 5, 6, 8, 9, 17]),
        singles("10", &[1; 10]),
        singles("weighted", &[1, 9, 1, 17, 2, 1, 8, 1, 1]),
        pairs("11", &[1; 11], false),
        pairs("strings-7", &[1; 7], true),
        pairs("weighted", &[1, 9, 1, 17, 2, 1, 8, 1, 1], false),
        self_pairs("11", &[1; 11]),
        self_pairs("weighted", &[1, 9, 2, 1, 5, 65, 1, 300]),
        large("grid", "pairs of operands of 46 lengths up to 4099 in 14 relative positions", grid(&LENS)),
        large("sweep", "operands of 9..300 elements differing at one place, every place", sweep(&[9, 17, 33, 65, 130, 300])),
    ];
    if th {
        v.push(singles("17", &[1; 17]));
        v.push(pairs("14", &[1; 14], false));
        v.push(pairs("weighted2", &[2, 1, 1, 33, 1, 1, 7, 1, 1, 16, 1, 1], false));
        v.push(pairs("weighted3", &[1, 65, 1, 1, 1, 1, 1, 5, 1, 1, 1], false));
    }
    v.extend(mc::each_elem!(queries));
    v.push(mc::huge::set_queries());
    v
}
fn main() {
    mc::run_main(Prop {
        id: "C02",
        level: "exploration",
        rule: "a case is one set (or pair of sets) in all storage states with every query and probe compared with list membership; every case is distinct; non-trivial when the sets are non-empty and (pairs) different",
        assumptions: &["queries see elements only through Ord/Eq/Hash, so finite ordered universes stand for all element types with the same order pattern", "bounded universe sizes (see space descriptions)"],
        spaces,
    })
}
