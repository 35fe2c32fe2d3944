//! Prints one line per part of the crate that this selection of features offers: its name, the number of results and a digest of
//! all of them. Check C22 builds it with every selection and compares the lines.
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use vec_collections::{sort_dedup, sort_dedup_by_key, AbstractVecMap, AbstractVecSet, Keep, OuterJoinArg, VecMap, VecSet};

pub struct Log { name: &'static str, n: u64, h: DefaultHasher }
impl Log {
    fn new(name: &'static str) -> Self { Log { name, n: 0, h: DefaultHasher::new() } }
    fn put(&mut self, x: impl Hash) { self.n += 1; x.hash(&mut self.h) }
    fn dbg(&mut self, x: impl Debug) { self.put(format!("{x:?} {x:#?}")) }
    fn end(self) { println!("{} {} {:016x}", self.name, self.n, self.h.finish()) }
}
fn hash(x: &impl Hash) -> u64 { let mut h = DefaultHasher::new(); x.hash(&mut h); h.finish() }

type S = VecSet<[u8; 2]>;
type T = VecSet<[u8; 8]>;
type M = VecMap<[(u8, u8); 2]>;
type N = VecMap<[(u8, u8); 8]>;

fn set(m: u32) -> Vec<u8> { (0..6).filter(|i| m >> i & 1 == 1).collect() }
/// the i-th map of four keys to one of two values
fn map(mut i: u32) -> Vec<(u8, u8)> {
    let mut v = vec![];
    for k in 0..4 {
        if i % 3 > 0 { v.push((k * 2, (i % 3) as u8 * 10)) }
        i /= 3;
    }
    v
}
const MAPS: u32 = 81;
fn seqs(letters: u32, max: u32) -> impl Iterator<Item = Vec<u8>> {
    (0..=max).flat_map(move |n| (0..letters.pow(n)).map(move |mut i| (0..n).map(|_| { let x = (i % letters) as u8; i /= letters; x }).collect()))
}

fn sets() {
    let mut l = Log::new("sets");
    for x in 0..64 {
        let a: S = set(x).into_iter().collect();
        l.dbg(&a);
        l.put(hash(&a));
        l.put(a.iter().copied().collect::<Vec<_>>());
        l.put((a.len(), a.is_empty()));
        for e in 0..7u8 {
            let mut b = a.clone();
            l.put((b.contains(&e), b.insert(e), b.as_ref().to_vec()));
            let mut b = a.clone();
            l.put((b.remove(&e), b.as_ref().to_vec()));
            let mut b = a.clone();
            b.retain(|y| y % 3 != e % 3);
            l.put(b.as_ref().to_vec());
            let mut b = a.clone();
            b.extend([e, 3, e, 1]);
            b.shrink_to_fit();
            l.put(b.as_ref().to_vec());
        }
        let mut v = set(x);
        v.reverse();
        l.put((S::from(v.clone()).into_inner().to_vec(), S::from(v.iter().copied().collect::<BTreeSet<_>>()).into_inner().to_vec()));
        for y in 0..64 {
            let b: T = set(y).into_iter().collect();
            let c: S = set(y).into_iter().rev().collect();
            let v = |x: VecSet<[u8; 2]>| x.into_inner().to_vec();
            l.put((v(&a | &c), v(&a & &c), v(&a ^ &c), v(&a - &c)));
            l.put((v(a.union(&b)), v(a.intersection(&b)), v(a.symmetric_difference(&b)), v(a.difference(&b))));
            let f = |f: &dyn Fn(&mut S)| { let mut a = a.clone(); f(&mut a); a.into_inner().to_vec() };
            l.put((f(&|a| *a |= c.clone()), f(&|a| *a &= c.clone()), f(&|a| *a ^= c.clone()), f(&|a| *a -= c.clone())));
            l.put((f(&|a| a.union_with(&b)), f(&|a| a.intersection_with(&b)), f(&|a| a.xor_with(&b)), f(&|a| a.difference_with(&b))));
            l.put((a.is_subset(&b), a.is_superset(&b), a.is_disjoint(&b), a == c, a.cmp(&c), a.partial_cmp(&c)));
        }
    }
    l.end();
    let mut l = Log::new("building");
    for s in seqs(3, 6) {
        l.put(s.iter().copied().collect::<S>().into_inner().to_vec());
        let tagged = || s.iter().enumerate().map(|(i, k)| (*k, i as u8));
        l.put(tagged().collect::<M>().into_inner().to_vec());
        for keep in [Keep::First, Keep::Last] {
            l.put((sort_dedup::<_, Vec<u8>>(s.iter().copied(), keep), sort_dedup_by_key::<_, Vec<(u8, u8)>, _, _>(tagged(), keep, |x| &x.0)));
        }
    }
    // the macros by their paths, without importing them
    let none: (S, M) = (vec_collections::vecset! {}, vec_collections::vecmap! {});
    let some: (S, M) = (vec_collections::vecset! { 3, 1, 3, }, vec_collections::vecmap! { 3 => 1, 1 => 2, 3 => 3, });
    l.dbg((none, some));
    l.end();
}

fn maps() {
    let mut l = Log::new("maps");
    for x in 0..MAPS {
        let a: M = map(x).into_iter().collect();
        l.dbg(&a);
        l.put((hash(&a), a.len(), a.is_empty(), a.iter().map(|(k, v)| (*k, *v)).collect::<Vec<_>>()));
        l.put((M::from(map(x).into_iter().collect::<BTreeMap<_, _>>()) == a, a.clone().into_iter().collect::<Vec<_>>()));
        l.put(a.clone().map_values::<u16, [(u8, u16); 4], _>(|v| v as u16 * 300).into_inner().to_vec());
        for k in 0..8u8 {
            let mut b = a.clone();
            l.put((b.get(&k).copied(), b.insert(k, 77), b.into_inner().to_vec()));
            let mut b = a.clone();
            if let Some(v) = b.get_mut(&k) { *v += k }
            b.extend([(k, 5), (3, 4), (k, 6)]);
            l.put(b.into_inner().to_vec());
            let mut b = a.clone();
            b.retain(|(y, v)| y % 4 != k % 4 || *v > 10);
            l.put(b.into_inner().to_vec());
        }
        for y in 0..MAPS {
            let b: N = map(y).into_iter().collect();
            let mut r = a.clone();
            r.merge_with(b.clone());
            let mut c = a.clone();
            c.combine_with(b.clone(), |x, y| x + 3 * y);
            l.put((r.into_inner().to_vec(), c.into_inner().to_vec(), a.cmp(&map(y).into_iter().collect())));
            joins(&mut l, &a, &b);
        }
    }
    l.end();
}
fn num(x: OuterJoinArg<&u8, &u8, &u8>) -> Option<u8> {
    Some(match x { OuterJoinArg::Left(k, v) => k + v, OuterJoinArg::Right(k, w) => 100 + k + w, OuterJoinArg::Both(k, v, w) => 200 + k + v - w }).filter(|x| x % 3 > 0)
}
fn joins(l: &mut Log, a: &M, b: &impl AbstractVecMap<u8, u8>) {
    let v = |x: M| x.into_inner().to_vec();
    l.put(v(a.outer_join(b, num)));
    l.put(v(a.left_join(b, |k, v, w| Some(k + v + w.copied().unwrap_or(1)).filter(|x| x % 3 > 0))));
    l.put(v(a.right_join(b, |k, v, w| Some(k + w + v.copied().unwrap_or(1)).filter(|x| x % 3 > 0))));
    l.put(v(a.inner_join(b, |k, v, w| Some(k + w + 2 * v).filter(|x| x % 3 > 0))));
    let f = |f: &dyn Fn(&mut M)| { let mut a = a.clone(); f(&mut a); v(a) };
    l.put(f(&|a| a.left_join_with(b, |k, v, w| Some(k + v + w.copied().unwrap_or(1)).filter(|x| x % 3 > 0))));
    l.put(f(&|a| a.right_join_with(b, |k, v, w| Some(k + w + v.unwrap_or(1)).filter(|x| x % 3 > 0))));
    l.put(f(&|a| a.inner_join_with(b, |k, v, w| Some(k + w + 2 * v).filter(|x| x % 3 > 0))));
    l.put(f(&|a| a.outer_join_with(b, |x| Some(match x { OuterJoinArg::Left(k, v) => k + v, OuterJoinArg::Right(k, w) => 100 + k + w, OuterJoinArg::Both(k, v, w) => 200 + k + v - w }).filter(|x| x % 3 > 0))));
}

#[cfg(feature = "total")]
mod total {
    use super::*;
    use vec_collections::total_vec_map::TotalVecMap;
    use vec_collections::total_vec_set::TotalVecSet;
    type TS = TotalVecSet<[u8; 2]>;
    type TM = TotalVecMap<u8, [(u8, u8); 2]>;
    fn ts(x: u32) -> TS { let s: TS = S::from(set(x % 16)).into(); if x >= 16 { !s } else { s } }
    fn tm(x: u32) -> TM { TM::new(map(x % MAPS).into_iter().collect(), [0, 10][(x / MAPS) as usize]) }
    pub fn run() {
        let mut l = Log::new("total-sets");
        for x in 0..32 {
            let a = ts(x);
            l.dbg(&a);
            l.put((hash(&a), a.is_empty(), a.is_all(), (0..8u8).map(|k| a.contains(&k)).collect::<Vec<_>>()));
            for k in 0..6u8 {
                let mut b = a.clone();
                b.insert(k);
                let mut c = a.clone();
                c.remove(&k);
                l.dbg((b, c));
            }
            for y in 0..32 {
                let b = ts(y);
                l.dbg((&a | &b, &a & &b, &a ^ &b, &a - &b, !&a));
                l.dbg(!a.clone());
                let f = |f: &dyn Fn(&mut TS)| { let mut a = a.clone(); f(&mut a); a };
                l.dbg((f(&|a| *a |= b.clone()), f(&|a| *a &= b.clone()), f(&|a| *a ^= b.clone()), f(&|a| *a -= b.clone())));
                l.put((a.is_subset(&b), a.is_superset(&b), a.is_disjoint(&b), a == b));
            }
        }
        l.end();
        let mut l = Log::new("total-maps");
        for x in 0..MAPS * 2 {
            let a = tm(x);
            l.dbg(&a);
            l.put((hash(&a), (0..9u8).map(|k| a[&k]).collect::<Vec<_>>()));
            for y in (0..MAPS * 2).step_by(3) {
                let b = tm(y);
                l.dbg((a.combine_ref(&b, |x, y| x * 2 + y), a.clone() + b.clone(), a.supremum(&b), a.infimum(&b), a == b, a.cmp(&b)));
            }
        }
        l.end();
    }
}

#[cfg(feature = "std_support")]
mod std_maps {
    use super::*;
    use vec_collections::btree_map::{AbstractBTreeMap, InPlaceRelationalOps};
    type B = BTreeMap<u8, u8>;
    pub fn pair(l: &mut Log, a: &impl AbstractBTreeMap<u8, u8>, b: &impl AbstractBTreeMap<u8, u8>) {
        l.put(a.outer_join(b, num));
        l.put(a.left_join(b, |k, v, w| Some(k + v + w.copied().unwrap_or(1)).filter(|x| x % 3 > 0)));
        l.put(a.right_join(b, |k, v, w| Some(k + w + v.copied().unwrap_or(1)).filter(|x| x % 3 > 0)));
        l.put(a.inner_join::<_, _, _, ()>(b, |k, v, w| Some(k + w + 2 * v).filter(|x| x % 3 > 0)));
        l.put(a.iter().map(|(k, v)| (*k, *v)).collect::<Vec<_>>());
    }
    pub fn pair_mut(l: &mut Log, a: &B, b: &impl AbstractBTreeMap<u8, u8>) {
        let mut f = |f: &dyn Fn(&mut B)| { let mut a = a.clone(); f(&mut a); l.put(a) };
        f(&|a| a.left_join_with(b, |k, v, w| { *v = k + w.copied().unwrap_or(1); *v % 3 > 0 }));
        f(&|a| a.inner_join_with(b, |k, v, w| { *v = k + w; *v % 3 > 0 }));
        f(&|a| a.right_join_with(b, |k, v, w| { if let Some(v) = v { *v += k + w; *v % 3 > 0 } else { k + w > 20 } }));
        f(&|a| a.outer_join_with(b, |k, v, w| { *v = k + w.copied().unwrap_or(1); *v % 3 > 0 }, |k, w| Some(k + w).filter(|x| x % 3 > 0)));
    }
    pub fn run() {
        let mut l = Log::new("std-maps");
        for x in 0..MAPS {
            for y in 0..MAPS {
                let (a, b): (B, B) = (map(x).into_iter().collect(), map(y).into_iter().collect());
                pair(&mut l, &a, &b);
                pair_mut(&mut l, &a, &b);
            }
        }
        l.end();
    }
}

#[cfg(feature = "radixtree")]
mod trees {
    use super::*;
    use vec_collections::radix_tree::{AbstractRadixTree, AbstractRadixTreeMut, RadixTree};
    pub const KEYS: [&[u8]; 7] = [b"", b"a", b"ab", b"abc", b"abd", b"b", b"ba"];
    pub fn build<R: AbstractRadixTreeMut<u8, u8>>(m: u32) -> R {
        let mut t = R::empty();
        for (i, k) in KEYS.iter().enumerate() { if m >> i & 1 == 1 { t.insert(k, i as u8 * 7) } }
        t
    }
    pub fn dump(t: &impl AbstractRadixTree<u8, u8>) -> Vec<(Vec<u8>, u8)> { t.iter().map(|(k, v)| (k.to_vec(), *v)).collect() }
    pub fn shape(t: &impl AbstractRadixTree<u8, u8>) -> String {
        format!("{:?}{:?}[{}]", t.prefix(), t.value(), t.children().iter().map(|c| shape(c)).collect::<Vec<_>>().join(","))
    }
    pub fn one(l: &mut Log, t: &impl AbstractRadixTree<u8, u8>) {
        l.put((dump(t), shape(t), t.values().copied().collect::<Vec<_>>(), t.is_empty()));
        for k in KEYS { l.put((t.get(k).copied(), t.contains_key(k), t.scan_prefix(k).map(|(k, v)| (k.to_vec(), *v)).collect::<Vec<_>>())) }
    }
    pub fn two<R: AbstractRadixTreeMut<u8, u8, Materialized = R>>(l: &mut Log, a: &impl AbstractRadixTree<u8, u8, Materialized = R>, b: &impl AbstractRadixTree<u8, u8, Materialized = R>) {
        l.put((a.intersects(b), a.is_disjoint(b), a.is_subset(b), a.is_superset(b)));
        l.put(shape(&a.outer_combine(b, |x, y| Some(x + y).filter(|x| x % 3 > 0))));
        l.put(shape(&a.inner_combine(b, |x, y| Some(x + y).filter(|x| x % 3 > 0))));
        l.put(shape(&a.left_combine(b, |x, y| Some(x + y.copied().unwrap_or(1)).filter(|x| x % 3 > 0))));
    }
    pub fn change<R: AbstractRadixTreeMut<u8, u8, Materialized = R> + Clone>(l: &mut Log, a: &R, b: &impl AbstractRadixTree<u8, u8, Materialized = R>) {
        let mut f = |f: &dyn Fn(&mut R)| { let mut a = a.clone(); f(&mut a); l.put(shape(&a)) };
        f(&|a| a.union_with(b));
        f(&|a| a.intersection_with(b));
        f(&|a| a.difference_with(b));
        f(&|a| a.outer_combine_with(b, |x, y| { *x += y; *x % 3 > 0 }));
        f(&|a| a.inner_combine_with(b, |x, y| { *x += y; *x % 3 > 0 }));
        f(&|a| a.left_combine_with(b, |x, y| { *x += y; *x % 3 > 0 }));
        f(&|a| a.remove_prefix_with(b, |v| v % 3 > 0));
        f(&|a| a.retain_prefix_with(b, |v| v % 3 > 0));
        l.put((shape(&a.union(b)), shape(&a.intersection(b)), shape(&a.difference(b))));
    }
    pub fn grow<R: AbstractRadixTreeMut<u8, u8, Materialized = R> + Clone>(l: &mut Log, a: &R) {
        for k in KEYS {
            l.put(shape(&a.filter_prefix(k)));
            let mut b = a.clone();
            b.prepend(k);
            b.insert(b"abcx", 1);
            b.insert(k, 200);
            l.put(shape(&b));
        }
    }
    pub fn run() {
        let mut l = Log::new("trees");
        for x in 0..128 {
            let a: RadixTree<u8, u8> = build(x);
            l.dbg(&a);
            one(&mut l, &a);
            grow(&mut l, &a);
            for y in 0..128 {
                let b: RadixTree<u8, u8> = build(y);
                two(&mut l, &a, &b);
                change(&mut l, &a, &b);
            }
        }
        l.end();
    }
    #[cfg(feature = "archives")]
    pub mod archived {
        use super::*;
        use crate::archives::bytes;
        use rkyv::archived_root;
        use vec_collections::radix_tree::ArcRadixTree;
        pub fn run() {
            let mut l = Log::new("shared-and-archived-trees");
            for x in 0..128 {
                let a: ArcRadixTree<u8, u8> = build(x);
                let flat: RadixTree<u8, u8> = build(x);
                let (ab, fb) = (bytes(&a), bytes(&flat));
                l.put((ab.to_vec(), fb.to_vec()));
                let (aa, fa) = unsafe { (archived_root::<ArcRadixTree<u8, u8>>(&ab), archived_root::<RadixTree<u8, u8>>(&fb)) };
                one(&mut l, &a);
                one(&mut l, aa);
                one(&mut l, fa);
                grow(&mut l, &a);
                for y in (0..128).step_by(5) {
                    let b: ArcRadixTree<u8, u8> = build(y);
                    two(&mut l, &a, &b);
                    
                    two(&mut l, &b, aa);
                    change(&mut l, &a, &b);
                    change(&mut l, &b, aa);
                }
            }
            l.end();
        }
    }
    #[cfg(all(feature = "archives", feature = "lazy_radixtree"))]
    pub mod lazy {
        use super::*;
        use crate::archives::bytes;
        use rkyv::archived_root;
        use vec_collections::radix_tree::LazyRadixTree;
        pub fn run() {
            let mut l = Log::new("lazy-trees");
            for x in 0..128 {
                let whole: LazyRadixTree<'static, u8, u8> = build(x);
                let b: &'static [u8] = Box::leak(Box::new(bytes(&whole)));
                l.put(b);
                let archived = unsafe { archived_root::<LazyRadixTree<'static, u8, u8>>(b) };
                let open = || LazyRadixTree::from(archived);
                one(&mut l, &open());
                one(&mut l, archived);
                grow(&mut l, &open());
                for y in (0..128).step_by(5) {
                    let b: LazyRadixTree<'static, u8, u8> = build(y);
                    two(&mut l, &open(), &b);
                    two(&mut l, &b, &open());
                    change(&mut l, &open(), &b);
                    change(&mut l, &b, archived);
                }
            }
            l.end();
        }
    }
}

#[cfg(feature = "archives")]
mod archives {
    use super::*;
    use rkyv::ser::{serializers::AllocSerializer, Serializer};
    use rkyv::{archived_root, AlignedVec, Deserialize, Infallible, Serialize};
    pub fn bytes<X: Serialize<AllocSerializer<256>>>(x: &X) -> AlignedVec {
        let mut s = AllocSerializer::<256>::default();
        s.serialize_value(x).unwrap();
        s.into_serializer().into_inner()
    }
    pub fn run() {
        let mut l = Log::new("archived-sets");
        for x in 0..64 {
            let a: S = set(x).into_iter().collect();
            let b = bytes(&a);
            l.put(b.to_vec());
            let aa = unsafe { archived_root::<S>(&b) };
            let back: S = aa.deserialize(&mut Infallible).unwrap();
            l.put((back == a, aa.iter().copied().collect::<Vec<_>>(), (0..7u8).map(|k| aa.contains(&k)).collect::<Vec<_>>()));
            for y in 0..64 {
                let c: S = set(y).into_iter().collect();
                l.put((c.union(aa).into_inner().to_vec(), c.difference(aa).into_inner().to_vec(), aa.is_subset(&c), aa.is_superset(&c), aa.is_disjoint(&c)));
            }
        }
        l.end();
        let mut l = Log::new("archived-maps");
        for x in 0..MAPS {
            let a: M = map(x).into_iter().collect();
            let b = bytes(&a);
            l.put(b.to_vec());
            let aa = unsafe { archived_root::<M>(&b) };
            let back: M = aa.deserialize(&mut Infallible).unwrap();
            l.put((back == a, (0..7u8).map(|k| aa.get(&k).copied()).collect::<Vec<_>>()));
            for y in 0..MAPS { joins(&mut l, &map(y).into_iter().collect(), aa) }
        }
        l.end();
        #[cfg(feature = "std_support")]
        {
            let mut l = Log::new("archived-std-maps");
            for x in 0..MAPS {
                let a: BTreeMap<u8, u8> = map(x).into_iter().collect();
                let b = bytes(&a);
                let aa = unsafe { archived_root::<BTreeMap<u8, u8>>(&b) };
                for y in 0..MAPS {
                    let c: BTreeMap<u8, u8> = map(y).into_iter().collect();
                    crate::std_maps::pair(&mut l, aa, &c);
                    crate::std_maps::pair(&mut l, &c, aa);
                    crate::std_maps::pair_mut(&mut l, &c, aa);
                }
            }
            l.end();
        }
    }
}

#[cfg(feature = "validation")]
mod validated {
    use super::*;
    use crate::archives::bytes;
    use rkyv::{check_archived_root, AlignedVec};
    fn faults(b: &[u8], mut f: impl FnMut(&[u8])) {
        let mut v = AlignedVec::new();
        v.extend_from_slice(b);
        f(&v);
        for i in 0..b.len() {
            for x in [0, 1, 2, 4, 9, 127, 128, 255] { let old = v[i]; v[i] = x; f(&v); v[i] = old }
        }
    }
    pub fn run() {
        let mut l = Log::new("validated-sets");
        for x in 0..64 { faults(&bytes(&set(x).into_iter().collect::<S>()), |b| l.put(check_archived_root::<S>(b).ok().map(|s| s.iter().copied().collect::<Vec<_>>()))) }
        l.end();
        let mut l = Log::new("validated-maps");
        for x in 0..MAPS { faults(&bytes(&map(x).into_iter().collect::<M>()), |b| l.put(check_archived_root::<M>(b).ok().map(|s| s.iter().map(|(k, v)| (*k, *v)).collect::<Vec<_>>()))) }
        l.end();
        #[cfg(feature = "radixtree")]
        {
            use crate::trees::{build, dump};
            use vec_collections::radix_tree::{ArcRadixTree, RadixTree};
            let mut l = Log::new("validated-trees");
            for x in (0..128).step_by(3) {
                faults(&bytes(&build::<RadixTree<u8, u8>>(x)), |b| l.put(check_archived_root::<RadixTree<u8, u8>>(b).ok().map(dump)));
                faults(&bytes(&build::<ArcRadixTree<u8, u8>>(x)), |b| l.put(check_archived_root::<ArcRadixTree<u8, u8>>(b).ok().map(dump)));
            }
            l.end();
        }
    }
}

#[cfg(feature = "serde")]
mod documents {
    use super::*;
    use serde_json::{from_str, to_string};
    pub fn run() {
        let mut l = Log::new("documents");
        for s in seqs(3, 5) {
            let text = format!("{s:?}");
            let a: S = from_str(&text).unwrap();
            l.put((to_string(&a).unwrap(), a.into_inner().to_vec()));
            let text = format!("{{{}}}", s.iter().enumerate().map(|(i, k)| format!("\"{k}\":{i}")).collect::<Vec<_>>().join(","));
            let a: M = from_str(&text).unwrap();
            l.put((to_string(&a).unwrap(), a.into_inner().to_vec()));
        }
        l.end();
        #[cfg(feature = "total")]
        {
            use vec_collections::total_vec_map::TotalVecMap;
            use vec_collections::total_vec_set::TotalVecSet;
            let mut l = Log::new("total-documents");
            for x in 0..64 {
                let a: TotalVecSet<[u8; 2]> = S::from(set(x)).into();
                for a in [!a.clone(), a] {
                    let text = to_string(&a).unwrap();
                    l.put((from_str::<TotalVecSet<[u8; 2]>>(&text).unwrap() == a, text));
                }
            }
            for x in 0..MAPS {
                for d in [0, 10] {
                    let a = TotalVecMap::<u8, [(u8, u8); 2]>::new(map(x).into_iter().collect(), d);
                    let text = to_string(&a).unwrap();
                    l.put((from_str::<TotalVecMap<u8, [(u8, u8); 2]>>(&text).unwrap() == a, text));
                }
            }
            l.end();
        }
    }
}

fn main() {
    sets();
    maps();
    #[cfg(feature = "total")]
    total::run();
    #[cfg(feature = "std_support")]
    std_maps::run();
    #[cfg(feature = "radixtree")]
    trees::run();
    #[cfg(all(feature = "radixtree", feature = "archives"))]
    trees::archived::run();
    #[cfg(all(feature = "radixtree", feature = "archives", feature = "lazy_radixtree"))]
    trees::lazy::run();
    #[cfg(feature = "archives")]
    archives::run();
    #[cfg(feature = "validation")]
    validated::run();
    #[cfg(feature = "serde")]
    documents::run();
}
