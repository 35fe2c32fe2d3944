//! Collections of tens of thousands of elements, against sorted vectors.
use crate::{ensure, ensure_eq, fail, idx, lp, radix::archive, Cx, Space};
use std::cell::Cell;
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet};
use vec_collections::radix_tree::{AbstractRadixTree, AbstractRadixTreeMut, ArcRadixTree, LazyRadixTree, RadixTree};
use vec_collections::{total_vec_map::TotalVecMap, total_vec_set::TotalVecSet, AbstractVecMap, AbstractVecSet, OuterJoinArg, VecMap, VecSet};

type S = VecSet<[u32; 4]>;
type S0 = VecSet<[u32; 1]>;
type M = VecMap<[(u32, u32); 4]>;
const SIZES: [usize; 11] = [0, 1, 2, 40, 300, 9000, 32769, 65535, 65536, 65537, 140000];
const PLACES: usize = 12;
/// a pair of sorted operands in one of twelve relative positions
fn at(n: usize, m: usize, k: usize) -> (Vec<u32>, Vec<u32>) {
    let f = |n: usize, g: &dyn Fn(usize) -> usize| (0..n).map(|i| 2 * g(i) as u32 + 2).collect::<Vec<_>>();
    let id = |i: usize| i;
    match k {
        0 => (f(n, &id), f(m, &id)),
        1 => (f(n, &id), f(m, &|j| n + j)),
        2 => (f(n, &|i| m + i), f(m, &id)),
        3 => (f(n, &|i| 2 * i), f(m, &|j| 2 * j + 1)),
        4 => (f(n, &id), f(m, &|j| n / 2 + j)),
        5 => (f(n, &|i| m / 2 + i), f(m, &id)),
        6 => (f(n, &id), f(m, &|j| 3 * j)),
        7 => (f(n, &|i| 2 * i), f(m, &|j| 3 * j)),
        8 => (f(n, &|i| m / 2 + i), f(m, &|j| if j < m / 2 { j } else { n + j })),
        9 => (f(n, &|i| i + m.saturating_sub(n)), f(m, &|j| j + n.saturating_sub(m))),
        10 => (f(n, &|i| i * m.max(1)), f(m, &|j| j * n.max(1))),
        _ => (f(n, &|i| 5 * i), f(m, &|j| n * 5 / 2 + j)),
    }
}
fn pairs() -> Vec<(usize, usize, usize)> {
    let mut v = vec![];
    for n in SIZES { for m in SIZES { if n.max(m) > 5000 { for k in 0..PLACES { if k != 10 || n * m < 1 << 29 { v.push((n, m, k)) } } } } }
    v
}
/// merges, with what is in either
fn merged(a: &[u32], b: &[u32], keep: impl Fn(bool, bool) -> bool) -> Vec<u32> {
    let (mut i, mut j, mut out) = (0, 0, vec![]);
    while i < a.len() || j < b.len() {
        let o = if i == a.len() { Ordering::Greater } else if j == b.len() { Ordering::Less } else { a[i].cmp(&b[j]) };
        let (x, y) = (o != Ordering::Greater, o != Ordering::Less);
        let e = if x { a[i] } else { b[j] };
        if keep(x, y) { out.push(e) }
        i += x as usize;
        j += y as usize;
    }
    out
}
fn same(got: &[u32], want: &[u32], what: &str) {
    if got != want {
        let i = got.iter().zip(want).take_while(|(a, b)| a == b).count();
        fail!("{what}: {} elements instead of {}, first different at {i}: {:?} instead of {:?}", got.len(), want.len(), got.get(i), want.get(i))
    }
}
fn same_map(got: &[(u32, u32)], want: &[(u32, u32)], what: &str) {
    if got != want {
        let i = got.iter().zip(want).take_while(|(a, b)| a == b).count();
        fail!("{what}: {} mappings instead of {}, first different at {i}: {:?} instead of {:?}", got.len(), want.len(), got.get(i), want.get(i))
    }
}
fn set(v: &[u32]) -> S { S::from_iter(v.iter().cloned()) }
fn map(v: &[u32], side: u32) -> M { v.iter().map(|k| (*k, val(*k, side))).collect() }
fn val(k: u32, side: u32) -> u32 { k.wrapping_mul(2654435761).wrapping_add(side) }
fn over(name: &str, what: &str, f: fn(&[u32], &[u32], &mut Cx)) -> Box<dyn Space> {
    let ps = pairs();
    let p2 = ps.clone();
    idx(format!("huge-{name}"), format!("pairs of operands of which one has 9000 to 140000 elements and the other 0 to 140000, in {PLACES} relative positions: {what}"), ps.len() as u64,
        move |i, cx| { let (n, m, k) = ps[i as usize]; let (a, b) = at(n, m, k); cx.nontrivial_if(n > 0 && m > 0); f(&a, &b, cx) },
        move |i| { let (n, m, k) = p2[i as usize]; format!("{n} and {m} elements in position {k}") })
}

// -- sets -------------------------------------------------------------------------------------------
fn algebra(a: &[u32], b: &[u32], cx: &mut Cx) {
    let (x, y) = (set(a), set(b));
    let (ba, bb) = (archive(&x), archive(&y));
    let (ax, ay) = unsafe { (rkyv::archived_root::<S>(&ba), rkyv::archived_root::<S>(&bb)) };
    macro_rules! op { ($name:literal, $op:tt, $asg:tt, $m:ident, $w:ident, $keep:expr) => {{
        let want = merged(a, b, $keep);
        same((&x $op &y).as_ref(), &want, concat!("a ", $name, " b"));
        same(x.$m(ay).as_ref(), &want, concat!("a ", $name, " archived b"));
        same(AbstractVecSet::$m::<[u32; 4]>(ax, ay).as_ref(), &want, concat!("archived a ", $name, " archived b"));
        let mut z = x.clone();
        z $asg &y;
        same(z.as_ref(), &want, concat!("a ", $name, "= &b"));
        let mut z = x.clone();
        z $asg y.clone();
        same(z.as_ref(), &want, concat!("a ", $name, "= b"));
        let mut z = x.clone();
        z $asg S0::from_iter(b.iter().cloned());
        same(z.as_ref(), &want, concat!("a ", $name, "= b with less inline"));
        let mut z = x.clone();
        z.$w(ay);
        same(z.as_ref(), &want, concat!("a ", $name, "= archived b"));
        for _ in 0..7 { cx.op() }
    }} }
    op!("&", &, &=, intersection, intersection_with, |x, y| x && y);
    op!("|", |, |=, union, union_with, |_, _| true);
    op!("^", ^, ^=, symmetric_difference, xor_with, |x, y| x != y);
    op!("-", -, -=, difference, difference_with, |x, y| x && !y);
    same(x.as_ref(), a, "a afterwards");
    same(y.as_ref(), b, "b afterwards");
}
fn queries(a: &[u32], b: &[u32], cx: &mut Cx) {
    let (x, y) = (set(a), set(b));
    let (ba, bb) = (archive(&x), archive(&y));
    let (ax, ay) = unsafe { (rkyv::archived_root::<S>(&ba), rkyv::archived_root::<S>(&bb)) };
    let both = merged(a, b, |x, y| x && y).len();
    let (sub, sup, dis) = (both == a.len(), both == b.len(), both == 0);
    ensure_eq!((x.is_subset(&y), x.is_superset(&y), x.is_disjoint(&y)), (sub, sup, dis), "subset, superset, disjoint");
    ensure_eq!((ax.is_subset(ay), ax.is_superset(ay), ax.is_disjoint(ay)), (sub, sup, dis), "subset, superset, disjoint, archived");
    ensure_eq!((ax.is_subset(&y), x.is_superset(ay), ax.is_disjoint(&y)), (sub, sup, dis), "subset, superset, disjoint, half archived");
    ensure_eq!(x == y, a == b, "==");
    ensure_eq!(x.cmp(&y), a.cmp(b), "cmp");
    ensure_eq!((x.len(), x.is_empty(), ax.iter().count(), ax.is_empty()), (a.len(), a.is_empty(), a.len(), a.is_empty()), "len");
    for _ in 0..6 { cx.op() }
    for k in (0..a.len()).step_by(a.len() / 500 + 1).chain([0, 255, 256, 65534, 65535, 65536, a.len().saturating_sub(1)]) {
        let Some(e) = a.get(k) else { continue };
        for p in [e - 1, *e, e + 1] {
            let want = a.binary_search(&p).is_ok();
            ensure_eq!((x.contains(&p), ax.contains(&p)), (want, want), "contains {p}");
            cx.op();
        }
        ensure_eq!(x.iter().nth(k), Some(e), "nth({k})");
        ensure_eq!(x.iter().skip(k).count(), a.len() - k, "after {k}");
    }
    ensure!(x.iter().eq(a.iter()) && ax.iter().eq(a.iter()), "iter");
    ensure!(x.into_iter().eq(a.iter().cloned()), "into_iter");
}
fn history(a: &[u32], b: &[u32], cx: &mut Cx) {
    let mut s = set(a);
    let mut r: BTreeSet<u32> = a.iter().cloned().collect();
    let mut at: Vec<usize> = vec![0, 1, 254, 255, 256, 257, 32767, 32768, 65533, 65534, 65535, 65536, 65537, a.len() / 2, a.len().saturating_sub(2), a.len().saturating_sub(1), a.len()];
    at.retain(|i| *i <= a.len());
    for i in at {
        let e = a.get(i).cloned().unwrap_or(u32::MAX - 1);
        for e in [e - 1, e, e + 1] {
            ensure_eq!(s.insert(e), r.insert(e), "insert {e}");
            ensure_eq!(s.remove(&e), r.remove(&e), "remove {e}");
            ensure_eq!(s.remove(&e), false, "remove {e} again");
            if e % 4 == 0 { ensure_eq!(s.insert(e), r.insert(e), "insert {e}") }
            for _ in 0..3 { cx.op() }
        }
    }
    let now = |r: &BTreeSet<u32>| r.iter().cloned().collect::<Vec<_>>();
    same(s.as_ref(), &now(&r), "after insertions and removals");
    s.extend(b.iter().rev().cloned());
    r.extend(b.iter().cloned());
    same(s.as_ref(), &now(&r), "after extend");
    s.retain(|x| x % 3 != 0);
    r.retain(|x| x % 3 != 0);
    same(s.as_ref(), &now(&r), "after retain");
    s.shrink_to_fit();
    same(s.as_ref(), &now(&r), "after shrink_to_fit");
    let back: BTreeSet<u32> = s.clone().into_iter().collect();
    ensure!(back == r, "into BTreeSet");
    same(S::from(back).as_ref(), &now(&r), "from BTreeSet");
    s.retain(|x| *x < 10);
    r.retain(|x| *x < 10);
    s.shrink_to_fit();
    same(s.as_ref(), &now(&r), "after shrinking to a few");
    for _ in 0..6 { cx.op() }
}
/// what is built from: b after, before and between a, forwards and backwards
fn build(a: &[u32], b: &[u32], cx: &mut Cx) {
    let shuffled = |v: &[u32]| { let n = v.len().max(1); let step = (n / 2 + 7..).find(|s| gcd(*s, n) == 1).unwrap(); (0..v.len()).map(|i| v[i * step % n]).collect::<Vec<_>>() };
    let ab: Vec<u32> = a.iter().chain(b).cloned().collect();
    let rev: Vec<u32> = ab.iter().rev().cloned().collect();
    let mix = shuffled(&ab);
    let union = merged(a, b, |_, _| true);
    for w in [&ab, &rev, &mix] {
        same(w.iter().cloned().collect::<S>().as_ref(), &union, "collect");
        same(S::from(w.clone()).as_ref(), &union, "from Vec");
        let tagged = || w.iter().enumerate().map(|(i, k)| (*k, i as u32));
        let mut last: BTreeMap<u32, u32> = BTreeMap::new();
        for (k, v) in tagged() { last.insert(k, v); }
        let last: Vec<(u32, u32)> = last.into_iter().collect();
        same_map(tagged().collect::<M>().as_ref(), &last, "collect a map");
        let mut e = M::empty();
        e.extend(tagged());
        same_map(e.as_ref(), &last, "extend an empty map");
        for _ in 0..4 { cx.op() }
    }
}
fn gcd(a: usize, b: usize) -> usize { if b == 0 { a } else { gcd(b, a % b) } }

// -- maps -------------------------------------------------------------------------------------------
fn merged_map(a: &[u32], b: &[u32], f: impl Fn(u32, bool, bool) -> Option<u32>) -> Vec<(u32, u32)> {
    let (xs, ys) = (merged(a, b, |_, _| true), ());
    let _ = ys;
    let (mut i, mut j, mut out) = (0, 0, vec![]);
    for k in xs {
        let (x, y) = (a.get(i) == Some(&k), b.get(j) == Some(&k));
        i += x as usize;
        j += y as usize;
        if let Some(v) = f(k, x, y) { out.push((k, v)) }
    }
    out
}
fn maps(a: &[u32], b: &[u32], cx: &mut Cx) {
    let (x, y) = (map(a, 1), map(b, 2));
    let mut z = x.clone();
    z.merge_with(y.clone());
    same_map(z.as_ref(), &merged_map(a, b, |k, _, y| Some(val(k, if y { 2 } else { 1 }))), "merge_with");
    let mut z = x.clone();
    let calls = Cell::new(0);
    z.combine_with(y.clone(), |v, w| { calls.set(calls.get() + 1); v ^ w });
    same_map(z.as_ref(), &merged_map(a, b, |k, x, y| Some(if x && y { val(k, 1) ^ val(k, 2) } else { val(k, if x { 1 } else { 2 }) })), "combine_with");
    ensure_eq!(calls.get(), merged(a, b, |x, y| x && y).len(), "calls of combine_with");
    let mut z = x.clone();
    z.extend(b.iter().rev().map(|k| (*k, val(*k, 2))));
    same_map(z.as_ref(), &merged_map(a, b, |k, _, y| Some(val(k, if y { 2 } else { 1 }))), "extend");
    let mut z = x.clone();
    for i in [0, 1, 255, 256, 65535, 65536, 65537, a.len() / 2, a.len().saturating_sub(1)] {
        let Some(e) = a.get(i) else { continue };
        ensure_eq!(z.get(e), Some(&val(*e, 1)), "get {e}");
        ensure_eq!(z.get(&(e - 1)), None, "get {}", e - 1);
        ensure_eq!(z.insert(*e, 5), Some(val(*e, 1)), "insert {e}");
        *z.get_mut(e).unwrap() += 1;
        ensure_eq!(z.insert(e - 1, 9), None, "insert {}", e - 1);
        ensure_eq!((z.get(e), z.get(&(e - 1))), (Some(&6), Some(&9)), "after insert {e}");
        z.retain(|(k, _)| *k != e - 1);
        z.insert(*e, val(*e, 1));
        for _ in 0..5 { cx.op() }
    }
    ensure!(z == x, "after insertions and removals");
    same_map(x.clone().map_values::<u32, [(u32, u32); 4], _>(|v| !v).as_ref(), &merged_map(a, &[], |k, _, _| Some(!val(k, 1))), "map_values");
    let back: BTreeMap<u32, u32> = x.clone().into_inner().into_iter().collect();
    ensure!(M::from(back) == x, "from BTreeMap");
    ensure_eq!(x.cmp(&y), x.as_ref().cmp(y.as_ref()), "cmp");
    for _ in 0..7 { cx.op() }
}
fn ans(k: u32, v: Option<u32>, w: Option<u32>) -> Option<u32> { if k % 14 == 0 { None } else { Some(v.unwrap_or(3).wrapping_mul(5) ^ w.unwrap_or(11)) } }
fn joins(a: &[u32], b: &[u32], cx: &mut Cx) {
    let (x, y) = (map(a, 1), map(b, 2));
    let bb = archive(&y);
    let ay = unsafe { rkyv::archived_root::<M>(&bb) };
    type R = [(u32, u32); 4];
    let calls = Cell::new(0usize);
    let did = || calls.set(calls.get() + 1);
    let arg = |o: OuterJoinArg<&u32, &u32, &u32>| { calls.set(calls.get() + 1); match o { OuterJoinArg::Left(k, v) => ans(*k, Some(*v), None), OuterJoinArg::Right(k, w) => ans(*k, None, Some(*w)), OuterJoinArg::Both(k, v, w) => ans(*k, Some(*v), Some(*w)) } };
    let want = |inside: fn(bool, bool) -> bool| merged_map(a, b, |k, x, y| if inside(x, y) { ans(k, x.then(|| val(k, 1)), y.then(|| val(k, 2))) } else { None });
    let both = merged(a, b, |x, y| x && y).len();
    macro_rules! join { ($what:literal, $n:expr, $inside:expr, $e:expr) => {{
        calls.set(0);
        let r: M = $e;
        same_map(r.as_ref(), &want($inside), $what);
        ensure_eq!(calls.get(), $n, "calls of {}", $what);
        cx.op();
    }} }
    macro_rules! with { ($z:ident, $e:expr) => {{ let mut $z = x.clone(); $e; $z }} }
    let (n, m) = (a.len(), b.len());
    join!("outer_join", n + m - both, |_, _| true, AbstractVecMap::outer_join::<_, _, _, R>(&x, &y, arg));
    join!("outer_join archived", n + m - both, |_, _| true, AbstractVecMap::outer_join::<_, _, _, R>(&x, ay, arg));
    join!("left_join", n, |x, _| x, AbstractVecMap::left_join::<_, _, _, R>(&x, &y, |k, v, w| { did(); ans(*k, Some(*v), w.cloned()) }));
    join!("right_join", m, |_, y| y, AbstractVecMap::right_join::<_, _, _, R>(&x, ay, |k, v, w| { did(); ans(*k, v.cloned(), Some(*w)) }));
    join!("inner_join", both, |x, y| x && y, AbstractVecMap::inner_join::<_, _, _, R>(&x, &y, |k, v, w| { did(); ans(*k, Some(*v), Some(*w)) }));
    join!("outer_join_with", n + m - both, |_, _| true, with!(z, z.outer_join_with(&y, |o| { did(); match o { OuterJoinArg::Left(k, v) => ans(*k, Some(v), None), OuterJoinArg::Right(k, w) => ans(*k, None, Some(*w)), OuterJoinArg::Both(k, v, w) => ans(*k, Some(v), Some(*w)) } })));
    join!("left_join_with", n, |x, _| x, with!(z, z.left_join_with(ay, |k, v, w| { did(); ans(*k, Some(v), w.cloned()) })));
    join!("right_join_with", m, |_, y| y, with!(z, z.right_join_with(&y, |k, v, w| { did(); ans(*k, v, Some(*w)) })));
    join!("inner_join_with", both, |x, y| x && y, with!(z, z.inner_join_with(ay, |k, v, w| { did(); ans(*k, Some(v), Some(*w)) })));
}
fn std_joins(a: &[u32], b: &[u32], cx: &mut Cx) {
    use vec_collections::btree_map::{AbstractBTreeMap, InPlaceRelationalOps};
    let bm = |v: &[u32], s: u32| v.iter().map(|k| (*k, val(*k, s))).collect::<BTreeMap<u32, u32>>();
    let (x, y) = (bm(a, 1), bm(b, 2));
    let want = |inside: fn(bool, bool) -> bool| merged_map(a, b, |k, x, y| if inside(x, y) { ans(k, x.then(|| val(k, 1)), y.then(|| val(k, 2))) } else { None });
    macro_rules! join { ($what:literal, $inside:expr, $e:expr) => {{
        let r: BTreeMap<u32, u32> = $e;
        same_map(&r.into_iter().collect::<Vec<_>>(), &want($inside), $what);
        cx.op();
    }} }
    macro_rules! with { ($z:ident, $e:expr) => {{ let mut $z = x.clone(); $e; $z }} }
    fn upd(k: u32, v: &mut u32, w: Option<u32>) -> bool { match ans(k, Some(*v), w) { Some(r) => { *v = r; true } None => false } }
    join!("outer_join", |_, _| true, AbstractBTreeMap::outer_join(&x, &y, |o| match o { OuterJoinArg::Left(k, v) => ans(*k, Some(*v), None), OuterJoinArg::Right(k, w) => ans(*k, None, Some(*w)), OuterJoinArg::Both(k, v, w) => ans(*k, Some(*v), Some(*w)) }));
    join!("left_join", |x, _| x, AbstractBTreeMap::left_join(&x, &y, |k, v, w| ans(*k, Some(*v), w.cloned())));
    join!("right_join", |_, y| y, AbstractBTreeMap::right_join(&x, &y, |k, v, w| ans(*k, v.cloned(), Some(*w))));
    join!("inner_join", |x, y| x && y, AbstractBTreeMap::inner_join::<_, _, _, ()>(&x, &y, |k, v, w| ans(*k, Some(*v), Some(*w))));
    join!("inner_join_with", |x, y| x && y, with!(z, InPlaceRelationalOps::inner_join_with(&mut z, &y, |k, v, w| upd(*k, v, Some(*w)))));
    join!("left_join_with", |x, _| x, with!(z, InPlaceRelationalOps::left_join_with(&mut z, &y, |k, v, w| upd(*k, v, w.cloned()))));
    join!("outer_join_with", |_, _| true, with!(z, InPlaceRelationalOps::outer_join_with(&mut z, &y, |k, v, w| upd(*k, v, w.cloned()), |k, w| ans(*k, None, Some(*w)))));
}
// -- total collections ------------------------------------------------------------------------------
fn total_sets(a: &[u32], b: &[u32], cx: &mut Cx) {
    type T = TotalVecSet<[u32; 4]>;
    for (p, q) in [(false, false), (false, true), (true, false), (true, true)] {
        let mk = |v: &[u32], neg: bool| { let t = T::from(set(v)); if neg { !t } else { t } };
        let (x, y) = (mk(a, p), mk(b, q));
        let out = |f: fn(bool, bool) -> bool| { let o = f(p, q); mk(&merged(a, b, |i, j| f(i != p, j != q) != o), o) };
        macro_rules! op { ($name:literal, $op:tt, $asg:tt, $f:expr) => {{
            let want = out($f);
            ensure!(&x $op &y == want, concat!("total ", $name));
            let mut z = x.clone();
            z $asg y.clone();
            ensure!(z == want, concat!("total ", $name, "="));
            cx.op();
            cx.op();
        }} }
        op!("&", &, &=, |x, y| x && y);
        op!("|", |, |=, |x, y| x || y);
        op!("^", ^, ^=, |x, y| x != y);
        op!("-", -, -=, |x, y| x && !y);
        let none = |f: fn(bool, bool) -> bool| !f(p, q) && merged(a, b, |i, j| f(i != p, j != q)).is_empty();
        ensure_eq!((x.is_disjoint(&y), x.is_subset(&y), x.is_superset(&y)), (none(|x, y| x && y), none(|x, y| x && !y), none(|x, y| !x && y)), "total disjoint, subset, superset");
        ensure!(!&!&x == x, "total double complement");
        cx.op();
        cx.op();
    }
}
fn total_maps(a: &[u32], b: &[u32], cx: &mut Cx) {
    type T = TotalVecMap<u32, [(u32, u32); 4]>;
    for (d, e) in [(0, 0), (7, 1), (2, 8)] {
        // values of which some equal the default
        let v = |k: u32, s: u32| k / 2 % 5 * s;
        let mk = |w: &[u32], s: u32, d: u32| T::new(w.iter().map(|k| (*k, v(*k, s))).collect::<M>(), d);
        let (x, y) = (mk(a, 1, d), mk(b, 2, e));
        for (name, f) in [("wrapping +", (|x, y| x.wrapping_add(y)) as fn(u32, u32) -> u32), ("max", |x, y| x.max(y)), ("min", |x, y| x.min(y)), ("left", |x, _| x)] {
            let dd = f(d, e);
            let want = merged_map(a, b, |k, i, j| { let r = f(if i { v(k, 1) } else { d }, if j { v(k, 2) } else { e }); (r != dd).then_some(r) });
            let r = match name { "max" => x.supremum(&y), "min" => x.infimum(&y), _ => x.combine_ref(&y, |x, y| f(*x, *y)) };
            same_map(r.non_default_mappings().as_ref(), &want, name);
            ensure_eq!(r[&1], dd, "default of {name}");
            for (k, v) in want.iter().step_by(want.len() / 50 + 1) { ensure_eq!(r[k], *v, "{name} at {k}") }
            cx.op();
        }
        let r = x.map_values::<u32, _, [(u32, u32); 4]>(|v| v / 2);
        same_map(r.non_default_mappings().as_ref(), &merged_map(a, &[], |k, _, _| { let r = v(k, 1) / 2; (r != d / 2).then_some(r) }), "map_values");
        cx.op();
    }
}
// -- serialised and archived ------------------------------------------------------------------------
fn serde(a: &[u32], b: &[u32], cx: &mut Cx) {
    let rt = |v: &S| { let r: S = serde_json::from_str(&serde_json::to_string(v).unwrap()).unwrap(); let q: S = lp::from_bytes(&lp::to_bytes(v).unwrap()).unwrap_or_else(|_| fail!("no round trip")); (r, q) };
    let (x, m) = (set(a), map(a, 1));
    let (r, q) = rt(&x);
    same(r.as_ref(), a, "set through json");
    same(q.as_ref(), a, "set through bytes");
    let r: M = serde_json::from_str(&serde_json::to_string(&m).unwrap()).unwrap();
    ensure!(r == m, "map through json");
    let r: M = lp::from_bytes(&lp::to_bytes(&m).unwrap()).unwrap_or_else(|_| fail!("no round trip"));
    ensure!(r == m, "map through bytes");
    let t = !TotalVecSet::<[u32; 4]>::from(x);
    let r: TotalVecSet<[u32; 4]> = serde_json::from_str(&serde_json::to_string(&t).unwrap()).unwrap();
    ensure!(r == t, "total set through json");
    // not sorted, with repetitions
    let w: Vec<u32> = b.iter().rev().chain(a).chain(b).cloned().collect();
    let want = merged(a, b, |_, _| true);
    let r: S = serde_json::from_str(&serde_json::to_string(&w).unwrap()).unwrap();
    same(r.as_ref(), &want, "set from any sequence");
    let r: S = lp::from_bytes(&lp::to_bytes(&w).unwrap()).unwrap_or_else(|_| fail!("not accepted"));
    same(r.as_ref(), &want, "set from any bytes");
    for _ in 0..7 { cx.op() }
}
fn archives(a: &[u32], b: &[u32], cx: &mut Cx) {
    use rkyv::{archived_root, check_archived_root, Deserialize, Infallible};
    let (x, m) = (set(a), map(a, 1));
    let (bx, bm) = (archive(&x), archive(&m));
    ensure!(check_archived_root::<S>(&bx).is_ok() && check_archived_root::<M>(&bm).is_ok(), "validation");
    let (ax, am) = unsafe { (archived_root::<S>(&bx), archived_root::<M>(&bm)) };
    let d: S = ax.deserialize(&mut Infallible).unwrap();
    ensure!(d == x, "set through an archive");
    let d: M = am.deserialize(&mut Infallible).unwrap();
    ensure!(d == m, "map through an archive");
    ensure!(am.iter().map(|(k, v)| (*k, *v)).eq(m.iter().map(|(k, v)| (*k, *v))), "iteration of an archived map");
    for k in b.iter().step_by(b.len() / 300 + 1).chain(a.iter().step_by(a.len() / 300 + 1)).chain(a.last()) { ensure_eq!(am.get(k), m.get(k), "get {k}") }
    for _ in 0..5 { cx.op() }
}

// -- trees ------------------------------------------------------------------------------------------
type F = RadixTree<u32, u32>;
type A = ArcRadixTree<u32, u32>;
type L = LazyRadixTree<'static, u32, u32>;
const SHAPES: usize = 4;
/// keys in order, of numbers in order
fn key(shape: usize, e: u32) -> Vec<u32> {
    match shape {
        0 => vec![e],                              // a node with everything
        1 => vec![7, 7, e / 256, e % 256],         // a common prefix, and two levels
        2 => vec![e / 2, e],                       // nodes with few children
        _ => vec![9; 70000].into_iter().chain([e]).collect(), // a long common prefix
    }
}
fn flat(v: &[u32], shape: usize, side: u32) -> F {
    // halves at a time, as one insertion after the other would be quadratic
    fn part(v: &[u32], shape: usize, side: u32) -> F {
        if v.len() < 20 {
            let mut t = F::empty();
            for k in v { t.insert(&key(shape, *k), val(*k, side)) }
            return t;
        }
        let (a, b) = v.split_at(v.len() / 2);
        let mut t = part(a, shape, side);
        t.union_with(&part(b, shape, side));
        t
    }
    let mut t = part(v, if shape == 3 { 0 } else { shape }, side);
    if shape == 3 && !v.is_empty() { t.prepend(&vec![9; 70000]) }
    t
}
fn check<T: AbstractRadixTree<u32, u32>>(t: &T, shape: usize, want: &[(u32, u32)], what: &str) {
    ensure!(t.values().copied().eq(want.iter().map(|x| x.1)), "{what}: {} values instead of {}", t.values().count(), want.len());
    if shape < 3 {
        let mut it = t.iter();
        for (e, v) in want {
            let k = key(shape, *e);
            match it.next() { Some((g, w)) if *g == k[..] && w == v => (), x => fail!("{what}: {x:?} instead of {k:?}") }
        }
        ensure!(it.next().is_none(), "{what}: more than {} mappings", want.len());
    }
    for (e, v) in want.iter().step_by(want.len() / 40 + 1).chain(want.last()) {
        ensure_eq!(t.get(&key(shape, *e)), Some(v), "{what}: get {e}");
        ensure_eq!(t.contains_key(&key(shape, e + 1)), want.binary_search_by(|x| x.0.cmp(&(e + 1))).is_ok(), "{what}: contains_key {}", e + 1);
    }
}
#[derive(Clone, Copy, PartialEq)]
pub enum Part { Map, Combine, Compare, Prefix, Archive }
macro_rules! flavour { ($name:ident, $T:ty, $from:expr) => {
    fn $name(a: &[u32], b: &[u32], shape: usize, part: Part, what: &str, cx: &mut Cx) {
        let mk = |v: &[u32], side: u32| -> $T { $from(flat(v, shape, side)) };
        let (x, y) = (mk(a, 1), mk(b, 2));
        let only = |w: fn(bool, bool) -> bool| merged_map(a, b, move |k, i, j| w(i, j).then(|| val(k, if i { 1 } else { 2 })));
        let here = |s: &str| format!("{what}: {s}");
        match part {
            Part::Map => {
                check(&x, shape, &only(|i, _| i), what);
                let mut z = x.clone();
                let mut at: Vec<_> = [a.first(), a.get(65535), a.get(65536), a.last()].into_iter().flatten().collect();
                at.dedup();
                for k in at {
                    z.insert(&key(shape, k + 1), 5);
                    ensure_eq!((z.get(&key(shape, *k)), z.get(&key(shape, k + 1))), (Some(&val(*k, 1)), Some(&5)), "{what}: after insert {}", k + 1);
                    z.insert(&key(shape, *k), 6);
                    ensure_eq!(z.get(&key(shape, *k)), Some(&6), "{what}: after insert {k}");
                    cx.op();
                }
            }
            Part::Combine => {
                let all = only(|_, _| true);
                check(&x.union(&y), shape, &all, &here("union"));
                let mut z = x.clone();
                z.union_with(&y);
                check(&z, shape, &all, &here("union_with"));
                let (i, d) = (only(|i, j| i && j), only(|i, j| i && !j));
                check(&x.intersection(&y), shape, &i, &here("intersection"));
                check(&x.difference(&y), shape, &d, &here("difference"));
                let mut z = x.clone();
                z.intersection_with(&y);
                check(&z, shape, &i, &here("intersection_with"));
                let mut z = x.clone();
                z.difference_with(&y);
                check(&z, shape, &d, &here("difference_with"));
                let sum = merged_map(a, b, |k, i, j| if i && j { (k % 4 == 0).then(|| val(k, 1) ^ val(k, 2)) } else { Some(val(k, if i { 1 } else { 2 })) });
                let mut z = x.clone();
                z.outer_combine_with(&y, |v, w| { let k = *v ^ *w; let keep = (*v).wrapping_sub(1).wrapping_mul(INV) % 4 == 0; *v = k; keep });
                check(&z, shape, &sum, &here("outer_combine_with"));
                for _ in 0..7 { cx.op() }
            }
            Part::Compare => {
                let both = only(|i, j| i && j).len();
                ensure_eq!((x.is_subset(&y), x.is_superset(&y), x.is_disjoint(&y), x.intersects(&y)), (both == a.len(), both == b.len(), both == 0, both != 0), "{what}: subset, superset, disjoint, intersects");
                for _ in 0..4 { cx.op() }
            }
            Part::Prefix => {
                for k in [a.first(), a.get(a.len() / 2), a.get(65536), a.last()].into_iter().flatten() {
                    let k = key(shape, *k);
                    for n in [0, 1, k.len() / 2, k.len() - 1, k.len()] {
                        let p = &k[..n];
                        let want: Vec<u32> = a.iter().filter(|e| key_starts(shape, **e, p)).map(|e| val(*e, 1)).collect();
                        ensure!(x.filter_prefix(p).values().copied().eq(want.iter().copied()), "{what}: filter_prefix of {n} letters");
                        ensure_eq!(x.scan_prefix(p).count(), want.len(), "{what}: scan_prefix of {n} letters");
                        let one: $T = <$T>::single(p, 0);
                        let mut z = x.clone();
                        z.remove_prefix_with(&one, |_| true);
                        ensure_eq!(z.values().count(), a.len() - want.len(), "{what}: remove_prefix_with {n} letters");
                        let mut z = x.clone();
                        z.retain_prefix_with(&one, |_| true);
                        ensure!(z.values().copied().eq(want.iter().copied()), "{what}: retain_prefix_with {n} letters");
                        for _ in 0..4 { cx.op() }
                    }
                }
            }
            Part::Archive => {
                let want = only(|i, _| i);
                let bytes = archive(&x);
                let v = unsafe { rkyv::archived_root::<$T>(&bytes) };
                check(v, shape, &want, &here("archived"));
                let mut z = y.clone();
                z.union_with(v);
                check(&z, shape, &merged_map(a, b, |k, _, j| Some(val(k, if j { 2 } else { 1 }))), &here("union_with archived"));
                cx.op();
                cx.op();
            }
        }
    }
} }
/// undoes the multiplication in `val`
const INV: u32 = { let a = 2654435761u32; let mut x = a; let mut i = 0; while i < 5 { x = x.wrapping_mul(2u32.wrapping_sub(a.wrapping_mul(x))); i += 1 } x };
fn key_starts(shape: usize, e: u32, p: &[u32]) -> bool { if shape == 3 { p.len() <= 70000 || p[70000] == e } else { key(shape, e).starts_with(p) } }
flavour!(on_flat, F, |t| t);
flavour!(on_arc, A, A::from);
flavour!(on_lazy, L, L::from);
pub fn trees(part: Part) -> Box<dyn Space> {
    const N: [usize; 6] = [0, 1, 300, 9000, 65537, 70000];
    let ps: Vec<_> = N.iter().flat_map(|n| N.iter().flat_map(move |m| [0, 4, 5, 7].into_iter().flat_map(move |k| (0..SHAPES * 3).map(move |s| (*n, *m, k, s))))).filter(|x| x.0.max(x.1) > 5000 && (part != Part::Map && part != Part::Prefix || x.2 == 7 && x.1 == 300) && (x.3 / 3 != 2 || x.2 == 7) && (x.3 % 3 != 2 || x.2 == 7)).collect();
    let p2 = ps.clone();
    let what = match part { Part::Map => "lookup, iteration and insertion", Part::Combine => "union, intersection, difference and combination", Part::Compare => "comparison", Part::Prefix => "prefix operations", Part::Archive => "archives" };
    idx("huge-trees", format!("trees of 9000 to 70000 keys (all in one node, two levels, many small nodes, a prefix of 70000 letters) of every flavour, with one of 0 to 70000 in 4 relative positions: {what}"), ps.len() as u64,
        move |i, cx| {
            let (n, m, k, s) = ps[i as usize];
            let (a, b) = at(n, m, k);
            cx.nontrivial_if(true);
            match s % 3 { 0 => on_flat(&a, &b, s / 3, part, "flat tree", cx), 1 => on_arc(&a, &b, s / 3, part, "shared tree", cx), _ => on_lazy(&a, &b, s / 3, part, "lazy tree", cx) }
        },
        move |i| format!("(sizes, position, shape and flavour) {:?}", p2[i as usize]))
}
pub fn set_algebra() -> Box<dyn Space> { over("algebra", "every form of every operation", algebra) }
pub fn set_queries() -> Box<dyn Space> { over("queries", "every query", queries) }
pub fn set_history() -> Box<dyn Space> { over("history", "single insertions and removals at 17 places, then extend, retain, shrink and conversions", history) }
pub fn construction() -> Box<dyn Space> { over("build", "sets and maps of both, one after the other, backwards and shuffled", build) }
pub fn map_changes() -> Box<dyn Space> { over("maps", "merge, combine, extend, single changes and conversions", maps) }
pub fn map_joins() -> Box<dyn Space> { over("joins", "every join", joins) }
pub fn btree_joins() -> Box<dyn Space> { over("std-joins", "every join", std_joins) }
pub fn totals() -> Box<dyn Space> { over("total-sets", "every operation with and without complements", total_sets) }
pub fn total_map_ops() -> Box<dyn Space> { over("total-maps", "combination, supremum, infimum and value mapping", total_maps) }
pub fn serialised() -> Box<dyn Space> { over("serde", "round trips, and documents that hold one before and after the other", serde) }
pub fn archived() -> Box<dyn Space> { over("archives", "validation, round trips and lookups", archives) }
