//! The generic parameters: the same small universes over element, key and value types of every size and
//! nature (zero-sized, signed, multi-byte, heap-allocating, larger than a cache line, reversed order).
use crate::gen::words;
use crate::radix::archive;
use crate::{ensure, ensure_eq, fail, idx, Cx, Space};
use rkyv::ser::serializers::AllocSerializer;
use rkyv::Archive;
use std::cell::RefCell;
use std::cmp::{Ordering, Reverse};
use std::collections::{hash_map::DefaultHasher, BTreeMap, BTreeSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use vec_collections::radix_tree::{AbstractRadixTree, AbstractRadixTreeMut, ArcRadixTree, LazyRadixTree, RadixTree};
use vec_collections::{total_vec_map::TotalVecMap, total_vec_set::TotalVecSet, AbstractVecMap, AbstractVecSet, Array, OuterJoinArg, VecMap, VecSet};

/// `N` distinct values in ascending order
pub trait El: Ord + Clone + Hash + Debug + Send + Sync + 'static {
    const NAME: &'static str;
    const N: u16 = 6;
    fn of(i: u16) -> Self;
}
macro_rules! els {
    ($($t:ty, $name:literal, $n:expr, |$i:ident| $e:expr;)*) => { $(impl El for $t { const NAME: &'static str = $name; const N: u16 = $n; fn of($i: u16) -> Self { $e } })* };
}
pub type Huge = [u64; 20];
els! {
    (), "unit", 1, |_i| ();
    bool, "bool", 2, |i| i == 1;
    u8, "u8", 6, |i| [0, 1, 127, 128, 200, 255][i as usize];
    i8, "i8", 6, |i| [-128, -1, 0, 1, 100, 127][i as usize];
    u16, "u16", 6, |i| [0, 255, 256, 257, 0x7fff, 0xff00][i as usize];
    i32, "i32", 6, |i| [i32::MIN, -256, -1, 0, 256, i32::MAX][i as usize];
    u64, "u64", 6, |i| [0, 255, 1 << 32, (1 << 32) + 255, 1 << 63, u64::MAX][i as usize];
    i128, "i128", 6, |i| [i128::MIN, -1, 0, 1, 1 << 64, i128::MAX][i as usize];
    char, "char", 6, |i| ['\0', 'a', 'b', 'é', '\u{ffff}', '\u{10ffff}'][i as usize];
    (u8, i8), "pair", 6, |i| (i as u8 / 2, i as i8 % 2 * 2 - 1);
    [u16; 3], "triple", 6, |i| [[0, 0, 0], [0, 0, 256], [0, 1, 0], [255, 0, 0], [256, 0, 0], [256, 0, 1]][i as usize];
    Huge, "huge", 6, |i| { let mut v = [0; 20]; v[19 - i as usize] = 1; if i == 0 { v[19] = 0 } v };
    Rev, "reversed", 6, |i| Rev(250 - i as u8 * 50);
    Fold, "folded", 6, |i| Fold(b"aBcDeF"[i as usize]);
    String, "String", 6, |i| ["", "a", "ab", "b", "ba", "é"][i as usize].into();
    Box<i16>, "Box", 6, |i| Box::new([-300, -1, 0, 1, 255, 300][i as usize]);
    Option<Vec<u8>>, "Option<Vec>", 6, |i| [None, Some(vec![]), Some(vec![0]), Some(vec![0, 0]), Some(vec![1]), Some(vec![1, 0])][i as usize].clone();
    Reverse<(u8, String)>, "Reverse<(u8, String)>", 6, |i| Reverse((2 - i as u8 / 2, ["z", ""][i as usize % 2].into()));
}
/// ordered against its memory
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Rev(pub u8);
impl PartialOrd for Rev { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for Rev { fn cmp(&self, o: &Self) -> Ordering { o.0.cmp(&self.0) } }
/// equal without being identical in memory
#[derive(Clone, Copy, Debug)]
pub struct Fold(pub u8);
impl Fold { fn f(self) -> u8 { self.0.to_ascii_lowercase() } pub fn swap(self) -> Fold { Fold(self.0 ^ 32) } }
impl PartialEq for Fold { fn eq(&self, o: &Self) -> bool { self.f() == o.f() } }
impl Eq for Fold {}
impl Hash for Fold { fn hash<H: Hasher>(&self, h: &mut H) { self.f().hash(h) } }
impl PartialOrd for Fold { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for Fold { fn cmp(&self, o: &Self) -> Ordering { self.f().cmp(&o.f()) } }
macro_rules! plain { ($t:ty) => {
    impl Archive for $t { type Archived = $t; type Resolver = (); unsafe fn resolve(&self, _: usize, _: (), out: *mut $t) { out.write(*self) } }
    impl<S: rkyv::Fallible + ?Sized> rkyv::Serialize<S> for $t { fn serialize(&self, _: &mut S) -> Result<(), S::Error> { Ok(()) } }
    impl<D: rkyv::Fallible + ?Sized> rkyv::Deserialize<$t, D> for $t { fn deserialize(&self, _: &mut D) -> Result<$t, D::Error> { Ok(*self) } }
} }
plain!(Rev);
plain!(Fold);

/// one space per element type: `f::<T>()`
#[macro_export]
macro_rules! each_elem {
    ($f:ident) => {{
        use $crate::types::*;
        vec![$f::<()>(), $f::<bool>(), $f::<u8>(), $f::<i8>(), $f::<u64>(), $f::<i128>(), $f::<(u8, i8)>(), $f::<[u16; 3]>(), $f::<Huge>(), $f::<Rev>(), $f::<Fold>(), $f::<String>(), $f::<Box<i16>>(), $f::<Option<Vec<u8>>>(), $f::<std::cmp::Reverse<(u8, String)>>()]
    }};
}
fn sub<T: El>(m: u64) -> Vec<T> { (0..T::N).filter(|i| m >> i & 1 == 1).map(T::of).collect() }
fn hash(x: &impl Hash) -> u64 { let mut h = DefaultHasher::new(); x.hash(&mut h); h.finish() }
fn space<T: El>(what: &str, bits: u32, case: impl Fn(u64, &mut Cx) + Send + Sync + 'static) -> Box<dyn Space> {
    idx(format!("types-{what}-{}", T::NAME), format!("{what} over {} elements of type {} ({} bytes)", T::N, T::NAME, std::mem::size_of::<T>()), 1 << bits, case, move |i| format!("subsets {:#b} of {}", i, T::NAME))
}
type S<T, const N: usize> = VecSet<[T; N]>;
fn set<T: El, A: Array<Item = T>>(m: u64) -> VecSet<A> { sub::<T>(m).into_iter().collect() }

pub fn algebra<T: El>() -> Box<dyn Space> {
    space::<T>("algebra", 2 * T::N as u32, |i, cx| {
        let n = T::N as u64;
        let (x, y) = (i & ((1 << n) - 1), i >> n);
        cx.nontrivial_if(x & y != 0 && x != y);
        let want = [x | y, x & y, x & !y, x ^ y].map(sub::<T>);
        fn go<T: El, A: Array<Item = T>, B: Array<Item = T>>(x: u64, y: u64, want: &[Vec<T>; 4], cx: &mut Cx) {
            let (a, b): (VecSet<A>, VecSet<B>) = (set(x), set(y));
            let w = format!("{} inline capacities {} and {}", T::NAME, A::size(), B::size());
            let mut put = |op: &str, got: &[T], j: usize| { cx.op(); if got != want[j] { fail!("{op} ({w}): got {got:?}, expected {:?}", want[j]) } };
            put("|", (&a | &b).as_ref(), 0);
            put("&", (&a & &b).as_ref(), 1);
            put("-", (&a - &b).as_ref(), 2);
            put("^", (&a ^ &b).as_ref(), 3);
            put("union", AbstractVecSet::union::<[T; 3]>(&a, &b).as_ref(), 0);
            put("intersection", AbstractVecSet::intersection::<[T; 3]>(&a, &b).as_ref(), 1);
            put("difference", AbstractVecSet::difference::<[T; 3]>(&a, &b).as_ref(), 2);
            put("symmetric_difference", AbstractVecSet::symmetric_difference::<[T; 3]>(&a, &b).as_ref(), 3);
            macro_rules! ip { ($op:literal, $e:expr, $j:expr) => {{ let mut c = a.clone(); $e(&mut c); put($op, c.as_ref(), $j) }} }
            ip!("|= by value", |c: &mut VecSet<A>| *c |= b.clone(), 0);
            ip!("&= by value", |c: &mut VecSet<A>| *c &= b.clone(), 1);
            ip!("-= by value", |c: &mut VecSet<A>| *c -= b.clone(), 2);
            ip!("^= by value", |c: &mut VecSet<A>| *c ^= b.clone(), 3);
            ip!("|= by reference", |c: &mut VecSet<A>| *c |= &b, 0);
            ip!("&= by reference", |c: &mut VecSet<A>| *c &= &b, 1);
            ip!("-= by reference", |c: &mut VecSet<A>| *c -= &b, 2);
            ip!("^= by reference", |c: &mut VecSet<A>| *c ^= &b, 3);
            ip!("union_with", |c: &mut VecSet<A>| c.union_with(&b), 0);
            ip!("intersection_with", |c: &mut VecSet<A>| c.intersection_with(&b), 1);
            ip!("difference_with", |c: &mut VecSet<A>| c.difference_with(&b), 2);
            ip!("xor_with", |c: &mut VecSet<A>| c.xor_with(&b), 3);
            ensure!(a.as_ref() == sub::<T>(x) && b.as_ref() == sub::<T>(y), "an operand taken by reference has changed ({w})");
        }
        go::<T, [T; 0], [T; 2]>(x, y, &want, cx);
        go::<T, [T; 2], [T; 0]>(x, y, &want, cx);
        go::<T, [T; 5], [T; 32]>(x, y, &want, cx);
        go::<T, [T; 32], [T; 5]>(x, y, &want, cx);
    })
}
pub fn queries<T: El>() -> Box<dyn Space> {
    space::<T>("queries", 2 * T::N as u32, |i, cx| {
        let n = T::N as u64;
        let (x, y) = (i & ((1 << n) - 1), i >> n);
        cx.nontrivial_if(x & y != 0 && x != y);
        fn go<T: El, A: Array<Item = T>, B: Array<Item = T>>(x: u64, y: u64, cx: &mut Cx) {
            let (a, b): (VecSet<A>, VecSet<B>) = (set(x), set(y));
            ensure_eq!((a.is_subset(&b), a.is_superset(&b), a.is_disjoint(&b)), (x & !y == 0, y & !x == 0, x & y == 0), "subset, superset, disjoint");
            let c: VecSet<A> = set(y);
            let (p, q) = (sub::<T>(x), sub::<T>(y));
            ensure_eq!(a.cmp(&c), p.cmp(&q), "order");
            ensure_eq!(a.partial_cmp(&c), p.partial_cmp(&q), "partial order");
            ensure_eq!(a == c, p == q, "equality");
            ensure_eq!(hash(&a) == hash(&c), hash(&p) == hash(&q), "hash equality");
            for k in 0..T::N { ensure_eq!(a.contains(&T::of(k)), x >> k & 1 == 1, "contains({:?})", T::of(k)) }
            ensure!(a.iter().eq(p.iter()) && (&a).into_iter().eq(p.iter()) && a.clone().into_iter().eq(p.iter().cloned()), "iteration");
            ensure_eq!((a.len(), a.is_empty(), a.iter().count()), (p.len(), p.is_empty(), p.len()), "len, is_empty, count");
            ensure_eq!(a.clone().into_inner().to_vec(), p, "into_inner");
            ensure_eq!(Vec::from(a), p, "Vec::from");
            cx.ops(12 + T::N as u64);
        }
        go::<T, [T; 0], [T; 5]>(x, y, cx);
        go::<T, [T; 5], [T; 1]>(x, y, cx);
    })
}
/// one set, every step of two operations
pub fn steps<T: El>() -> Box<dyn Space> {
    space::<T>("operations", T::N as u32, |x, cx| {
        cx.nontrivial_if(x != 0);
        fn go<T: El, A: Array<Item = T>>(x: u64, cx: &mut Cx) {
            for first in 0..T::N * 2 { for second in 0..T::N * 2 {
                let (mut s, mut m): (VecSet<A>, u64) = (set(x), x);
                for o in [first, second] {
                    let (k, b) = (T::of(o / 2), 1u64 << (o / 2));
                    if o % 2 == 0 { ensure_eq!(s.insert(k), m & b == 0, "insert"); m |= b } else { ensure_eq!(s.remove(&k), m & b != 0, "remove"); m &= !b }
                    ensure_eq!(s.as_ref(), sub::<T>(m).as_slice(), "after inserting (even) or removing (odd) {first} {second}");
                    cx.op();
                }
                s.shrink_to_fit();
                ensure_eq!(s.as_ref(), sub::<T>(m).as_slice(), "after shrinking");
            } }
            for y in 0..1u64 << T::N {
                let mut s: VecSet<A> = set(x);
                let keep = sub::<T>(y);
                s.retain(|e| keep.contains(e));
                ensure_eq!(s.as_ref(), sub::<T>(x & y).as_slice(), "retain");
                let mut s: VecSet<A> = set(x);
                s.extend(keep.into_iter().rev());
                ensure_eq!(s.as_ref(), sub::<T>(x | y).as_slice(), "extend");
                cx.ops(2);
            }
        }
        go::<T, [T; 0]>(x, cx);
        go::<T, [T; 1]>(x, cx);
        go::<T, [T; 4]>(x, cx);
        go::<T, [T; 16]>(x, cx);
    })
}
/// every sequence of up to five of three elements, and every order of all
pub fn construct<T: El>() -> Box<dyn Space> {
    let mut seqs: Vec<Vec<u16>> = words(3.min(T::N as u8), 5).into_iter().map(|w| w.into_iter().map(|x| x as u16 * if T::N > 5 { 2 } else { 1 }).collect()).collect();
    for k in 0..24 { for step in [1usize, 5, 7] { seqs.push((0..k).map(|j| ((j * step + k) % T::N as usize) as u16).collect()) } }
    idx(format!("types-construct-{}", T::NAME), format!("sequences of values of type {} through every constructor", T::NAME), seqs.len() as u64, {
        let seqs = seqs.clone();
        move |i, cx| {
            let s: Vec<T> = seqs[i as usize].iter().map(|k| T::of(*k)).collect();
            let want: Vec<T> = s.iter().cloned().collect::<BTreeSet<T>>().into_iter().collect();
            cx.nontrivial_if(want.len() < s.len());
            fn go<T: El, A: Array<Item = T>>(s: &[T], want: &[T], cx: &mut Cx) {
                ensure_eq!(s.iter().cloned().collect::<VecSet<A>>().as_ref(), want, "collect");
                ensure_eq!(VecSet::<A>::from(s.to_vec()).as_ref(), want, "From<Vec>");
                ensure_eq!(VecSet::<A>::from(s.iter().cloned().collect::<BTreeSet<T>>()).as_ref(), want, "From<BTreeSet>");
                let mut e = VecSet::<A>::empty();
                for x in s { e.insert(x.clone()); }
                ensure_eq!(e.as_ref(), want, "insert");
                let last: BTreeMap<T, usize> = s.iter().cloned().zip(0..).collect();
                let last: Vec<(T, usize)> = last.into_iter().collect();
                let m: VecMap<[(T, usize); 2]> = s.iter().cloned().zip(0..).collect();
                ensure_eq!(m.as_ref(), last.as_slice(), "map collect");
                let mut m: VecMap<[(T, usize); 2]> = s[..s.len() / 2].iter().cloned().zip(0..).collect();
                m.extend(s.iter().cloned().zip(0..).skip(s.len() / 2));
                ensure_eq!(m.as_ref(), last.as_slice(), "map extend");
                cx.ops(6);
            }
            go::<T, [T; 0]>(&s, &want, cx);
            go::<T, [T; 4]>(&s, &want, cx);
        }
    }, move |i| format!("{:?}", seqs[i as usize]))
}

fn key_vals<T: El, V: El>(m: u64, off: u16) -> Vec<(T, V)> { (0..T::N).filter(|i| m >> i & 1 == 1).map(|i| (T::of(i), V::of((i + off) % V::N))).collect() }
/// map operations with keys of type `T` and values of type `V`
pub fn maps<T: El, V: El>() -> Box<dyn Space> {
    idx(format!("types-map-{}-{}", T::NAME, V::NAME), format!("map operations, keys {}, values {}", T::NAME, V::NAME), 1 << (2 * T::N), |i, cx| {
        let n = T::N as u64;
        let (x, y) = (i & ((1 << n) - 1), i >> n);
        cx.nontrivial_if(x & y != 0 && x != y);
        fn go<T: El, V: El, A: Array<Item = (T, V)>, B: Array<Item = (T, V)>>(x: u64, y: u64, cx: &mut Cx) {
            let (p, q) = (key_vals::<T, V>(x, 0), key_vals::<T, V>(y, 1));
            let mk = || p.iter().cloned().collect::<VecMap<A>>();
            let (a, b): (VecMap<A>, VecMap<B>) = (mk(), q.iter().cloned().collect());
            let c: VecMap<A> = q.iter().cloned().collect();
            ensure_eq!(a.cmp(&c), p.cmp(&q), "order");
            ensure_eq!(a == c, p == q, "equality");
            ensure_eq!(hash(&a) == hash(&c), hash(&p) == hash(&q), "hash equality");
            let base: BTreeMap<T, V> = p.iter().cloned().collect();
            for k in 0..T::N {
                let k = T::of(k);
                ensure_eq!(a.get(&k), base.get(&k), "get");
                let (mut d, mut w) = (mk(), base.clone());
                ensure_eq!(d.insert(k.clone(), V::of(2 % V::N)), w.insert(k.clone(), V::of(2 % V::N)), "insert");
                ensure!(d.iter().map(|e| (&e.0, &e.1)).eq(w.iter()), "after insert: {d:?}, expected {w:?}");
                if let (Some(f), Some(g)) = (d.get_mut(&k), w.get_mut(&k)) { *f = V::of(V::N - 1); *g = V::of(V::N - 1) } else { fail!("get_mut of a present key") }
                ensure!(d.iter().map(|e| (&e.0, &e.1)).eq(w.iter()), "after get_mut: {d:?}, expected {w:?}");
            }
            let mut d = mk();
            d.merge_with(b.clone());
            let mut w = base.clone();
            w.extend(q.iter().cloned());
            ensure!(d.iter().map(|e| (&e.0, &e.1)).eq(w.iter()), "merge_with: {d:?}, expected {w:?}");
            let mut d = mk();
            d.combine_with(b.clone(), |l, r| l.max(r));
            let mut w = base.clone();
            for (k, v) in &q { let o = w.get(k).cloned(); w.insert(k.clone(), o.map_or(v.clone(), |o| o.max(v.clone()))); }
            ensure!(d.iter().map(|e| (&e.0, &e.1)).eq(w.iter()), "combine_with: {d:?}, expected {w:?}");
            let mut d = mk();
            let ks = sub::<T>(y);
            d.retain(|e| ks.contains(&e.0));
            ensure_eq!(d.as_ref(), key_vals::<T, V>(x & y, 0).as_slice(), "retain");
            let d: VecMap<[(T, Option<V>); 3]> = mk().map_values(|v| if v == V::of(0) { None } else { Some(v) });
            ensure!(d.iter().map(|e| (&e.0, &e.1)).eq(p.iter().map(|e| (e.0.clone(), Some(e.1.clone()).filter(|v| *v != V::of(0)))).collect::<Vec<_>>().iter().map(|e| (&e.0, &e.1))), "map_values");
            ensure_eq!(VecSet::<A>::from(mk()).as_ref(), p.as_slice(), "VecSet::from");
            ensure_eq!(mk().into_inner().to_vec(), p, "into_inner");
            ensure_eq!(b.as_ref(), q.as_slice(), "right operand");
            cx.ops(8 + 3 * T::N as u64);
        }
        go::<T, V, [(T, V); 0], [(T, V); 3]>(x, y, cx);
        go::<T, V, [(T, V); 4], [(T, V); 1]>(x, y, cx);
    }, |i| format!("subset pair {i:#b}"))
}
/// joins between maps with values of different types
pub fn joins<T: El, V: El, W: El>() -> Box<dyn Space> {
    idx(format!("types-joins-{}-{}-{}", T::NAME, V::NAME, W::NAME), format!("joins, keys {}, values {} and {}", T::NAME, V::NAME, W::NAME), 1 << (2 * T::N + 2), |i, cx| {
        let (rule, i) = (i & 3, i >> 2);
        let n = T::N as u64;
        let (x, y) = (i & ((1 << n) - 1), i >> n);
        cx.nontrivial_if(x & y != 0 && x != y);
        type Call<T, V, W> = (T, Option<V>, Option<W>);
        let (p, q) = (key_vals::<T, V>(x, 0), key_vals::<T, W>(y, 1));
        let all: Vec<(u16, Call<T, V, W>)> = (0..T::N).filter(|k| (x | y) >> k & 1 == 1).map(|k| (k, (T::of(k), (x >> k & 1 == 1).then(|| V::of(k % V::N)), (y >> k & 1 == 1).then(|| W::of((k + 1) % W::N))))).collect();
        let answer = |c: &Call<T, V, W>| -> bool { rule == 0 || (rule == 1 && c.1.is_some()) || (rule == 2 && c.2.is_some()) || (rule == 3 && (hash(c) & 1 == 0)) };
        let exp = |j: usize| all.iter().map(|e| e.1.clone()).filter(|c| match j { 0 => true, 1 => c.1.is_some(), 2 => c.2.is_some(), _ => c.1.is_some() && c.2.is_some() }).collect::<Vec<_>>();
        for j in 0..4 {
            let calls = exp(j);
            let kept: Vec<&Call<T, V, W>> = calls.iter().filter(|c| answer(c)).collect();
            let a: VecMap<[(T, V); 0]> = p.iter().cloned().collect();
            let b: VecMap<[(T, W); 3]> = q.iter().cloned().collect();
            let log = RefCell::new(vec![]);
            let f = |k: &T, l: Option<&V>, r: Option<&W>| { let c = (k.clone(), l.cloned(), r.cloned()); let y = answer(&c); log.borrow_mut().push(c.clone()); y.then(|| (c.1, c.2)) };
            let r: VecMap<[(T, (Option<V>, Option<W>)); 2]> = match j {
                0 => a.outer_join(&b, |x| match x { OuterJoinArg::Left(k, l) => f(k, Some(l), None), OuterJoinArg::Right(k, r) => f(k, None, Some(r)), OuterJoinArg::Both(k, l, r) => f(k, Some(l), Some(r)) }),
                1 => a.left_join(&b, |k, l, r| f(k, Some(l), r)),
                2 => a.right_join(&b, |k, l, r| f(k, l, Some(r))),
                _ => a.inner_join(&b, |k, l, r| f(k, Some(l), Some(r))),
            };
            let mut got = log.into_inner();
            got.sort();
            ensure_eq!(got, calls, "calls of join {j}");
            ensure!(r.iter().map(|e| (&e.0, &e.1 .0, &e.1 .1)).eq(kept.iter().map(|c| (&c.0, &c.1, &c.2))), "result of join {j}: {r:?}, expected {kept:?}");
            // in place; the answer is the left value, or the lowest
            let mut d: VecMap<[(T, V); 3]> = p.iter().cloned().collect();
            let log = RefCell::new(vec![]);
            let g = |k: &T, l: Option<V>, r: Option<&W>| { let c = (k.clone(), l, r.cloned()); let y = answer(&c); log.borrow_mut().push(c.clone()); y.then(|| c.1.unwrap_or(V::of(0))) };
            match j {
                0 => d.outer_join_with(&b, |x| match x { OuterJoinArg::Left(k, l) => g(k, Some(l), None), OuterJoinArg::Right(k, r) => g(k, None, Some(r)), OuterJoinArg::Both(k, l, r) => g(k, Some(l), Some(r)) }),
                1 => d.left_join_with(&b, |k, l, r| g(k, Some(l), r)),
                2 => d.right_join_with(&b, |k, l, r| g(k, l, Some(r))),
                _ => d.inner_join_with(&b, |k, l, r| g(k, Some(l), Some(r))),
            }
            let mut got = log.into_inner();
            got.sort();
            ensure_eq!(got, calls, "calls of in-place join {j}");
            ensure!(d.iter().map(|e| (&e.0, e.1.clone())).eq(kept.iter().map(|c| (&c.0, c.1.clone().unwrap_or(V::of(0))))), "result of in-place join {j}: {d:?}, expected {kept:?}");
            ensure_eq!((a.as_ref(), b.as_ref()), (p.as_slice(), q.as_slice()), "operands");
            cx.ops(2);
        }
    }, |i| format!("rule {} subset pair {:#b}", i & 3, i >> 2))
}
/// joins between std maps
pub fn btree_joins<T: El, V: El, W: El>() -> Box<dyn Space> {
    use vec_collections::btree_map::{AbstractBTreeMap, InPlaceRelationalOps};
    idx(format!("types-btree-joins-{}-{}-{}", T::NAME, V::NAME, W::NAME), format!("joins of std maps, keys {}, values {} and {}", T::NAME, V::NAME, W::NAME), 1 << (2 * T::N + 2), |i, cx| {
        let (rule, i) = (i & 3, i >> 2);
        let n = T::N as u64;
        let (x, y) = (i & ((1 << n) - 1), i >> n);
        cx.nontrivial_if(x & y != 0 && x != y);
        type Call<T, V, W> = (T, Option<V>, Option<W>);
        let (a, b): (BTreeMap<T, V>, BTreeMap<T, W>) = (key_vals::<T, V>(x, 0).into_iter().collect(), key_vals::<T, W>(y, 1).into_iter().collect());
        let (a0, b0) = (a.clone(), b.clone());
        let all: Vec<Call<T, V, W>> = (0..T::N).filter(|k| (x | y) >> k & 1 == 1).map(|k| (T::of(k), (x >> k & 1 == 1).then(|| V::of(k % V::N)), (y >> k & 1 == 1).then(|| W::of((k + 1) % W::N)))).collect();
        let answer = |c: &Call<T, V, W>| -> bool { rule == 0 || (rule == 1 && c.1.is_some()) || (rule == 2 && c.2.is_some()) || (rule == 3 && (hash(c) & 1 == 0)) };
        for j in 0..4 {
            let mut calls: Vec<Call<T, V, W>> = all.iter().filter(|c| match j { 0 => true, 1 => c.1.is_some(), 2 => c.2.is_some(), _ => c.1.is_some() && c.2.is_some() }).cloned().collect();
            calls.sort();
            let log = RefCell::new(vec![]);
            let f = |k: &T, l: Option<&V>, r: Option<&W>| { let c = (k.clone(), l.cloned(), r.cloned()); let y = answer(&c); log.borrow_mut().push(c.clone()); y.then_some((c.1, c.2)) };
            let r: BTreeMap<T, (Option<V>, Option<W>)> = match j {
                0 => a.outer_join(&b, |x: OuterJoinArg<&T, &V, &W>| match x { OuterJoinArg::Left(k, l) => f(k, Some(l), None), OuterJoinArg::Right(k, r) => f(k, None, Some(r)), OuterJoinArg::Both(k, l, r) => f(k, Some(l), Some(r)) }),
                1 => a.left_join(&b, |k, l, r: Option<&W>| f(k, Some(l), r)),
                2 => a.right_join(&b, |k, l, r: &W| f(k, l, Some(r))),
                _ => a.inner_join::<_, _, _, ()>(&b, |k, l, r: &W| f(k, Some(l), Some(r))),
            };
            let mut got = log.into_inner();
            got.sort();
            ensure_eq!(got, calls, "calls of join {j}");
            ensure_eq!(r, calls.iter().filter(|c| answer(c)).map(|c| (c.0.clone(), (c.1.clone(), c.2.clone()))).collect::<BTreeMap<T, (Option<V>, Option<W>)>>(), "result of join {j}");
            // in place: every left value it is shown becomes the last one
            let mut d = a.clone();
            let log = RefCell::new(vec![]);
            let g = |k: &T, l: Option<&mut V>, r: Option<&W>| { let c = (k.clone(), l.as_deref().cloned(), r.cloned()); if let Some(l) = l { *l = V::of(V::N - 1) } let y = answer(&c); log.borrow_mut().push(c); y };
            match j {
                0 => d.outer_join_with(&b, |k, l, r: Option<&W>| g(k, Some(l), r), |k, r| g(k, None, Some(r)).then(|| V::of(V::N - 1))),
                1 => d.left_join_with(&b, |k, l, r: Option<&W>| g(k, Some(l), r)),
                2 => d.right_join_with(&b, |k, l, r: &W| g(k, l, Some(r))),
                _ => d.inner_join_with(&b, |k, l, r: &W| g(k, Some(l), Some(r))),
            }
            let mut got = log.into_inner();
            got.sort();
            ensure_eq!(got, calls, "calls of in-place join {j}");
            ensure_eq!(d, calls.iter().filter(|c| (j == 0 || c.1.is_some()) && answer(c)).map(|c| (c.0.clone(), V::of(V::N - 1))).collect::<BTreeMap<T, V>>(), "result of in-place join {j}");
            ensure!(a == a0 && b == b0, "operands");
            cx.ops(2);
        }
    }, |i| format!("rule {} subset pair {:#b}", i & 3, i >> 2))
}
/// total sets: pairs of finite or cofinite sets
pub fn total_sets<T: El>() -> Box<dyn Space> {
    space::<T>("total sets", 2 * T::N as u32 + 2, |i, cx| {
        let n = T::N as u64;
        let full = (1u64 << n) - 1;
        let (neg, i) = (i & 3, i >> 2);
        let (x, y) = (i & full, i >> n);
        cx.nontrivial_if(x != 0 && y != 0);
        type TS<T> = TotalVecSet<[T; 2]>;
        // membership as a mask, the bit n stands for everything else; N elements of the type are all probed,
        // for the types with more values the complement is seen through the normal form
        let mk = |m: u64, neg: bool| -> TS<T> { let s: S<T, 2> = set(m); let t = TS::from(s); if neg { !t } else { t } };
        let den = |m: u64, neg: bool| if neg { (full & !m) | (1 << n) } else { m };
        let (da, db) = (den(x, neg & 1 != 0), den(y, neg & 2 != 0));
        let whole = full | (1 << n);
        let (a, b) = (mk(x, neg & 1 != 0), mk(y, neg & 2 != 0));
        let same = |got: &TS<T>, d: u64, op: &str| {
            let want = if d >> n & 1 == 1 { mk(full & !d, true) } else { mk(d, false) };
            ensure_eq!(*got, want, "{op} of {a:?} and {b:?}");
            ensure_eq!(hash(got), hash(&want), "hash of {op}");
            for k in 0..T::N { ensure_eq!(got.contains(&T::of(k)), d >> k & 1 == 1, "contains({:?}) of {op}", T::of(k)) }
        };
        same(&(&a & &b), da & db, "&");
        same(&(&a | &b), da | db, "|");
        same(&(&a ^ &b), da ^ db, "^");
        same(&(&a - &b), da & !db, "-");
        same(&!&a, whole & !da, "!");
        let ip = |f: &dyn Fn(&mut TS<T>)| { let mut c = a.clone(); f(&mut c); c };
        same(&ip(&|c| *c &= b.clone()), da & db, "&=");
        same(&ip(&|c| *c |= b.clone()), da | db, "|=");
        same(&ip(&|c| *c ^= b.clone()), da ^ db, "^=");
        same(&ip(&|c| *c -= b.clone()), da & !db, "-=");
        ensure_eq!((a.is_subset(&b), a.is_superset(&b), a.is_disjoint(&b)), (da & !db == 0, db & !da == 0, da & db == 0), "subset, superset, disjoint of {a:?} and {b:?}");
        ensure_eq!((a.is_empty(), a.is_all()), (da == 0, da == whole), "is_empty, is_all of {a:?}");
        for k in 0..T::N {
            let mut c = a.clone();
            c.insert(T::of(k));
            same(&c, da | 1 << k, "insert");
            let mut c = a.clone();
            c.remove(&T::of(k));
            same(&c, da & !(1 << k), "remove");
        }
        cx.ops(14 + 2 * T::N as u64);
    })
}
/// total maps from `T` to `V`
pub fn total_maps<T: El, V: El>() -> Box<dyn Space> {
    idx(format!("types-total-map-{}-{}", T::NAME, V::NAME), format!("total maps, keys {}, values {}", T::NAME, V::NAME), 4 << (2 * T::N), |i, cx| {
        let n = T::N as u64;
        let (dd, i) = (i & 3, i >> 2);
        let (x, y) = (i & ((1 << n) - 1), i >> n);
        cx.nontrivial_if(x & y != 0 && x != y);
        type TM<T, V> = TotalVecMap<V, [(T, V); 2]>;
        let mk = |m: u64, off: u16, d: u16| -> TM<T, V> { TM::new(key_vals::<T, V>(m, off).into_iter().collect(), V::of(d % V::N)) };
        let (xd, yd) = ((dd & 1) as u16, (dd >> 1) as u16);
        let (a, b) = (mk(x, 0, xd), mk(y, 1, yd));
        let at = |m: u64, off: u16, d: u16, k: u16| if m >> k & 1 == 1 { V::of((k + off) % V::N) } else { V::of(d % V::N) };
        let same = |got: &TM<T, V>, f: &dyn Fn(u16) -> V, d: V, op: &str| {
            for k in 0..T::N { ensure_eq!(got[&T::of(k)], f(k), "{op} at {:?}", T::of(k)) }
            let want: TM<T, V> = TM::new((0..T::N).map(|k| (T::of(k), f(k))).collect(), d.clone());
            ensure_eq!(*got, want, "{op}");
            ensure_eq!(hash(got), hash(&want), "hash of {op}");
            ensure_eq!(got.cmp(&want), Ordering::Equal, "order of {op}");
            ensure!(got.non_default_mappings().iter().all(|e| e.1 != d), "{op} stores its default");
        };
        same(&a, &|k| at(x, 0, xd, k), V::of(xd % V::N), "new");
        let (u, v) = (V::of(xd % V::N), V::of(yd % V::N));
        same(&a.combine_ref(&b, |p, q| if p == q { V::of(0) } else { q.clone() }), &|k| { let (p, q) = (at(x, 0, xd, k), at(y, 1, yd, k)); if p == q { V::of(0) } else { q } }, if u == v { V::of(0) } else { v.clone() }, "combine_ref");
        same(&a.supremum(&b), &|k| at(x, 0, xd, k).max(at(y, 1, yd, k)), u.clone().max(v.clone()), "supremum");
        same(&a.infimum(&b), &|k| at(x, 0, xd, k).min(at(y, 1, yd, k)), u.clone().min(v.clone()), "infimum");
        let g = |p: &V| if *p == V::of(1 % V::N) { V::of(0) } else { p.clone() };
        same(&a.map_values(|p| g(p)), &|k| g(&at(x, 0, xd, k)), g(&u), "map_values");
        cx.ops(5);
    }, |i| format!("defaults {} subset pair {:#b}", i & 3, i >> 2))
}

/// key elements and values of trees
pub trait Letter: El + Copy + Archive<Archived = Self> + rkyv::Serialize<AllocSerializer<256>> {}
impl<T: El + Copy + Archive<Archived = T> + rkyv::Serialize<AllocSerializer<256>>> Letter for T {}
pub trait Val: El + Archive<Archived = Self> + rkyv::Serialize<AllocSerializer<256>> {}
impl<T: El + Archive<Archived = T> + rkyv::Serialize<AllocSerializer<256>>> Val for T {}
/// one space per type of key elements and values: `f::<K, V>()`
#[macro_export]
macro_rules! each_tree {
    ($f:ident) => {{
        use $crate::types::*;
        vec![$f::<(), u16>(), $f::<bool, i8>(), $f::<u8, ()>(), $f::<i8, u64>(), $f::<u16, bool>(), $f::<i32, Huge>(), $f::<u64, u8>(), $f::<i128, u16>(), $f::<char, u64>(), $f::<(u8, i8), i128>(), $f::<[u16; 3], u16>(), $f::<Huge, u16>(), $f::<Rev, u16>(), $f::<Fold, u16>()]
    }};
}
type Ref<V> = BTreeMap<Vec<u8>, V>;
/// a word over the first letters of the type; long words leave the inline storage of fragments
fn key<K: Letter>(w: &[u8]) -> Vec<K> {
    let step = if K::N > 5 { 2 } else { 1 };
    w.iter().map(|x| K::of(*x as u16 * step)).collect()
}
fn keysets(alpha: u8) -> Vec<Vec<Vec<u8>>> {
    let pick = |ws: Vec<Vec<u8>>, k: u32| -> Vec<Vec<Vec<u8>>> { (0..1u64 << ws.len()).filter(|m| m.count_ones() <= k).map(|m| (0..ws.len()).filter(|i| m >> i & 1 == 1).map(|i| ws[i].clone()).collect()).collect() };
    match alpha {
        1 => pick((0..6).chain([16, 17]).map(|n| vec![0; n]).collect(), 8),
        2 => { let mut ws = words(2, 2); ws.push([vec![0; 17], vec![1]].concat()); pick(ws, 8) }
        _ => { let mut ws = words(3, 1); ws.extend([vec![1, 0], vec![1, 1], vec![1, 2], vec![2, 2], [vec![1; 17], vec![2]].concat()]); pick(ws, 4) }
    }
}
fn reference<V: El>(ks: &[Vec<u8>], off: u16) -> Ref<V> { ks.iter().enumerate().map(|(i, k)| (k.clone(), V::of((k.len() as u16 + i as u16 + off) % V::N))).collect() }
fn grow<K: Letter, V: Val, T: AbstractRadixTreeMut<K, V>>(r: &Ref<V>) -> T {
    let mut t = T::empty();
    for (k, v) in r { t.insert(&key::<K>(k), v.clone()) }
    t
}
/// the raw structure against the expected mappings, and the canonical form
fn structure<K: Letter, V: Val, T: AbstractRadixTree<K, V>>(t: &T, want: &Ref<V>, what: &str) {
    fn walk<K: Letter, V: Val, T: AbstractRadixTree<K, V>>(t: &T, root: bool, path: &mut Vec<K>, out: &mut Vec<(Vec<K>, V)>) -> Result<(), &'static str> {
        let n = path.len();
        path.extend_from_slice(t.prefix());
        let (v, c) = (t.value(), t.children());
        if !root && t.prefix().is_empty() { return Err("an empty prefix below the root") }
        if v.is_none() && (c.len() == 1 || c.is_empty() && !(root && t.prefix().is_empty())) { return Err("a valueless node with less than two children") }
        if let Some(v) = v { out.push((path.clone(), v.clone())) }
        for (i, x) in c.iter().enumerate() {
            if i > 0 && !x.prefix().is_empty() && c[i - 1].prefix()[0] >= x.prefix()[0] { return Err("children not strictly ordered") }
            walk(x, false, path, out)?
        }
        path.truncate(n);
        Ok(())
    }
    let mut got = vec![];
    if let Err(e) = walk(t, true, &mut vec![], &mut got) { fail!("{what}: {e}: {got:?}") }
    if !got.iter().map(|e| (&e.0, &e.1)).eq(want.iter().map(|(k, v)| (key::<K>(k), v)).collect::<Vec<_>>().iter().map(|e| (&e.0, e.1))) { fail!("{what}: got {got:?}, expected {want:?}") }
}
fn tree_space<K: Letter, V: Val>(what: &str, pairs: bool, case: impl Fn(&Vec<Vec<u8>>, &Vec<Vec<u8>>, &mut Cx) + Send + Sync + 'static) -> Box<dyn Space> {
    let s = std::sync::Arc::new(keysets(K::N.min(3) as u8));
    let s2 = s.clone();
    let n = s.len() as u64;
    let m = if pairs { n } else { 1 };
    idx(format!("types-{what}-{}-{}", K::NAME, V::NAME), format!("{what}: key elements {}, values {}, {n} key sets", K::NAME, V::NAME), n * m, move |i, cx| {
        cx.nontrivial_if(!s[(i / m) as usize].is_empty());
        case(&s[(i / m) as usize], &s[(i % m) as usize], cx)
    }, move |i| format!("{:?} / {:?}", s2[(i / m) as usize], s2[(i % m) as usize]))
}
pub fn trees<K: Letter, V: Val>() -> Box<dyn Space> {
    tree_space::<K, V>("trees", false, |ks, _, cx| {
        let r: Ref<V> = reference(ks, 0);
        fn look<K: Letter, V: Val, T: AbstractRadixTree<K, V>>(t: &T, r: &Ref<V>, what: &str, cx: &mut Cx) {
            structure(t, r, what);
            let held: Vec<_> = t.iter().collect();
            ensure!(held.iter().map(|(k, v)| (k.to_vec(), *v)).eq(r.iter().map(|(k, v)| (key::<K>(k), v))), "iteration ({what})");
            ensure!(t.values().eq(r.values()), "values ({what})");
            ensure_eq!(t.is_empty(), r.is_empty(), "is_empty ({what})");
            for w in words(3.min(K::N as u8), 3).iter().chain(r.keys()) {
                ensure_eq!(t.get(&key::<K>(w)), r.get(w), "get({w:?}) ({what})");
                ensure_eq!(t.contains_key(&key::<K>(w)), r.contains_key(w), "contains_key({w:?}) ({what})");
            }
            cx.ops(20);
        }
        let f: RadixTree<K, V> = grow(&r);
        let a: ArcRadixTree<K, V> = grow(&r);
        let l: LazyRadixTree<'static, K, V> = grow(&r);
        look(&f, &r, "flat", cx);
        look(&a, &r, "shared", cx);
        look(&l, &r, "lazy", cx);
        look(&ArcRadixTree::from(f.clone()), &r, "shared from flat", cx);
        look(&LazyRadixTree::from(f.clone()), &r, "lazy from flat", cx);
        let back: RadixTree<K, V> = r.iter().rev().map(|(k, v)| (key::<K>(k), v.clone())).collect();
        look(&back, &r, "collected", cx);
        ensure!(back == f, "collected trees are not equal");
        let (bf, ba, bl) = (archive(&f), archive(&a), archive(&l));
        let af = unsafe { rkyv::archived_root::<RadixTree<K, V>>(&bf) };
        let aa = unsafe { rkyv::archived_root::<ArcRadixTree<K, V>>(&ba) };
        look(af, &r, "archived flat", cx);
        look(aa, &r, "archived shared", cx);
        look(&ArcRadixTree::from(aa), &r, "shared from archive", cx);
        {
            let al = unsafe { rkyv::archived_root::<LazyRadixTree<'static, K, V>>(&bl) };
            look(al, &r, "archived lazy", cx);
            look(&LazyRadixTree::from(al), &r, "lazy from archive", cx);
        }
    })
}
pub fn tree_combination<K: Letter, V: Val>() -> Box<dyn Space> {
    tree_space::<K, V>("combination", true, |ka, kb, cx| {
        fn go<K: Letter, V: Val, T: AbstractRadixTreeMut<K, V, Materialized = T>>(ra: &Ref<V>, rb: &Ref<V>, what: &str, cx: &mut Cx) {
            let (a, b): (T, T) = (grow(ra), grow(rb));
            // keep the larger value, drop where both are equal to the first
            let f = |l: &V, r: &V| if l == r && *l == V::of(0) { None } else { Some(l.max(r).clone()) };
            let g = |l: &mut V, r: &V| match f(l, r) { Some(v) => { *l = v; true } None => false };
            let both = |k: &Vec<u8>, v: &V| match rb.get(k) { Some(w) => f(v, w), None => Some(v.clone()) };
            let left: Ref<V> = ra.iter().filter_map(|(k, v)| both(k, v).map(|v| (k.clone(), v))).collect();
            let inner: Ref<V> = left.iter().filter(|(k, _)| rb.contains_key(*k)).map(|(k, v)| (k.clone(), v.clone())).collect();
            let outer: Ref<V> = left.iter().chain(rb.iter().filter(|(k, _)| !ra.contains_key(*k))).map(|(k, v)| (k.clone(), v.clone())).collect();
            let diff: Ref<V> = ra.iter().filter(|(k, _)| !rb.contains_key(*k)).map(|(k, v)| (k.clone(), v.clone())).collect();
            let isect: Ref<V> = ra.iter().filter(|(k, _)| rb.contains_key(*k)).map(|(k, v)| (k.clone(), v.clone())).collect();
            let union: Ref<V> = rb.iter().chain(ra).map(|(k, v)| (k.clone(), v.clone())).collect();
            let s = |t: &T, w: &Ref<V>, op: &str| structure(t, w, &format!("{op} ({what})"));
            s(&a.outer_combine(&b, f), &outer, "outer_combine");
            s(&a.inner_combine(&b, f), &inner, "inner_combine");
            s(&a.left_combine(&b, |l, r: Option<&V>| r.map_or(Some(l.clone()), |r| f(l, r))), &left, "left_combine");
            s(&a.union(&b), &union, "union");
            s(&a.intersection(&b), &isect, "intersection");
            s(&a.difference(&b), &diff, "difference");
            let ip = |h: &dyn Fn(&mut T)| { let mut c = a.clone(); h(&mut c); c };
            s(&ip(&|c| c.outer_combine_with(&b, g)), &outer, "outer_combine_with");
            s(&ip(&|c| c.inner_combine_with(&b, g)), &inner, "inner_combine_with");
            s(&ip(&|c| c.left_combine_with(&b, g)), &left, "left_combine_with");
            s(&ip(&|c| c.union_with(&b)), &union, "union_with");
            s(&ip(&|c| c.intersection_with(&b)), &isect, "intersection_with");
            s(&ip(&|c| c.difference_with(&b)), &diff, "difference_with");
            s(&a, ra, "left operand");
            s(&b, rb, "right operand");
            cx.ops(12);
        }
        let (ra, rb): (Ref<V>, Ref<V>) = (reference(ka, 0), reference(kb, 1));
        go::<K, V, RadixTree<K, V>>(&ra, &rb, "flat", cx);
        go::<K, V, ArcRadixTree<K, V>>(&ra, &rb, "shared", cx);
        go::<K, V, LazyRadixTree<'static, K, V>>(&ra, &rb, "lazy", cx);
    })
}
pub fn tree_comparison<K: Letter, V: Val>() -> Box<dyn Space> {
    tree_space::<K, V>("comparison", true, |ka, kb, cx| {
        let a: RadixTree<K, V> = grow(&reference(ka, 0));
        let b: ArcRadixTree<K, u16> = grow(&reference(kb, 1));
        let sub = ka.iter().all(|k| kb.contains(k));
        let sup = kb.iter().all(|k| ka.contains(k));
        let dis = !ka.iter().any(|k| kb.contains(k));
        ensure_eq!((a.is_subset(&b), a.is_superset(&b), a.is_disjoint(&b), a.intersects(&b)), (sub, sup, dis, !dis), "is_subset, is_superset, is_disjoint, intersects");
        ensure_eq!((b.is_subset(&a), b.is_superset(&a), b.is_disjoint(&a), b.intersects(&a)), (sup, sub, dis, !dis), "is_subset, is_superset, is_disjoint, intersects, the other way round");
        cx.ops(8);
    })
}
pub fn tree_prefixes<K: Letter, V: Val>() -> Box<dyn Space> {
    tree_space::<K, V>("prefixes", true, |ka, kb, cx| {
        fn go<K: Letter, V: Val, T: AbstractRadixTreeMut<K, V, Materialized = T>>(ra: &Ref<V>, kb: &[Vec<u8>], what: &str, cx: &mut Cx) {
            let rb: Ref<V> = reference(kb, 1);
            let (a, b): (T, RadixTree<K, V>) = (grow(ra), grow(&rb));
            let p = |v: &V| *v == V::of(0);
            let hit = |k: &Vec<u8>| rb.iter().any(|(q, v)| p(v) && k.starts_with(q));
            let (mut c, mut d) = (a.clone(), a.clone());
            c.remove_prefix_with(&b, p);
            d.retain_prefix_with(&b, p);
            structure(&c, &ra.iter().filter(|(k, _)| !hit(k)).map(|(k, v)| (k.clone(), v.clone())).collect(), &format!("remove_prefix_with ({what})"));
            structure(&d, &ra.iter().filter(|(k, _)| hit(k)).map(|(k, v)| (k.clone(), v.clone())).collect(), &format!("retain_prefix_with ({what})"));
            structure(&b, &rb, "right operand");
            if kb.len() == 1 {
                let q = key::<K>(&kb[0]);
                let under: Ref<V> = ra.iter().filter(|(k, _)| k.starts_with(&kb[0])).map(|(k, v)| (k.clone(), v.clone())).collect();
                ensure!(a.scan_prefix(&q).map(|(k, v)| (k.to_vec(), v)).eq(under.iter().map(|(k, v)| (key::<K>(k), v))), "scan_prefix ({what})");
                structure(&a.filter_prefix(&q), &under, &format!("filter_prefix ({what})"));
                let mut c = a.clone();
                c.prepend(&q);
                structure(&c, &ra.iter().map(|(k, v)| ([kb[0].clone(), k.clone()].concat(), v.clone())).collect(), &format!("prepend ({what})"));
            }
            structure(&a, ra, "left operand");
            cx.ops(2);
        }
        let ra: Ref<V> = reference(ka, 0);
        go::<K, V, RadixTree<K, V>>(&ra, kb, "flat", cx);
        go::<K, V, ArcRadixTree<K, V>>(&ra, kb, "shared", cx);
        go::<K, V, LazyRadixTree<'static, K, V>>(&ra, kb, "lazy", cx);
    })
}
