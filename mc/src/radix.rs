//! Radix trees: key universes, every flavour of the same tree, and an independent structure check.
use crate::gen::{scale, subsets_upto, words};
use rkyv::ser::{serializers::AllocSerializer, Serializer};
use rkyv::{Archived, Serialize};
use vec_collections::radix_tree::{AbstractRadixTree, AbstractRadixTreeMut, ArcRadixTree, LazyRadixTree, RadixTree, TValue};

pub type Key = Vec<u8>;
pub type V = u16;
pub type Flat = RadixTree<u8, V>;
pub type Shared = ArcRadixTree<u8, V>;
pub type LazyT = LazyRadixTree<'static, u8, V>;
pub type AFlat = Archived<Flat>;
pub type AShared = Archived<Shared>;
pub type ALazy = Archived<LazyT>;
/// entries as (index of the key in the universe, value), ascending
pub type Ents = Vec<(u16, V)>;

/// the keys of a universe (ascending) and the subsets of them that are enumerated
#[derive(Clone)]
pub struct Uni { pub name: String, pub keys: Vec<Key>, pub subsets: Vec<Vec<u16>> }
impl Uni {
    /// atoms: groups of keys that are in or out together; every subset of atoms in `masks`
    pub fn atoms(name: &str, atoms: Vec<Vec<Key>>, masks: Vec<u64>) -> Uni {
        let mut keys: Vec<Key> = atoms.iter().flatten().cloned().collect();
        keys.sort();
        let n = keys.len();
        keys.dedup();
        assert_eq!(n, keys.len());
        let ix = |k: &Key| keys.binary_search(k).unwrap() as u16;
        let subsets = masks.iter().map(|m| {
            let mut v: Vec<u16> = (0..atoms.len()).filter(|i| m >> i & 1 == 1).flat_map(|i| atoms[i].iter().map(ix)).collect();
            v.sort();
            v
        }).collect();
        Uni { name: name.into(), subsets, keys }
    }
    pub fn all(name: &str, keys: Vec<Key>) -> Uni {
        let n = keys.len();
        Uni::atoms(name, keys.into_iter().map(|k| vec![k]).collect(), subsets_upto(n, n))
    }
    pub fn upto(name: &str, keys: Vec<Key>, k: usize) -> Uni {
        let n = keys.len();
        Uni::atoms(name, keys.into_iter().map(|k| vec![k]).collect(), subsets_upto(n, k))
    }
    pub fn groups(name: &str, atoms: Vec<Vec<Key>>) -> Uni { let n = atoms.len(); Uni::atoms(name, atoms, subsets_upto(n, n)) }
    pub fn len(&self) -> u64 { self.subsets.len() as u64 }
    pub fn is_empty(&self) -> bool { false }
    pub fn about(&self) -> String { format!("{} key sets over {} keys of length up to {}", self.len(), self.keys.len(), self.keys.iter().map(|k| k.len()).max().unwrap()) }
    pub fn show(&self, i: u64) -> String { self.subsets[i as usize].iter().map(|k| show_key(&self.keys[*k as usize])).collect::<Vec<_>>().chunks(60).next().map_or(String::new(), |c| c.join(" ")) + &if self.subsets[i as usize].len() > 60 { format!(" ... {} keys", self.subsets[i as usize].len()) } else { String::new() } }
    /// explicitly listed subsets, by key
    pub fn listed(name: &str, mut keys: Vec<Key>, subsets: Vec<Vec<Key>>) -> Uni {
        keys.sort();
        keys.dedup();
        let mut subsets: Vec<Vec<u16>> = subsets.iter().map(|s| { let mut v: Vec<u16> = s.iter().map(|k| keys.binary_search(k).unwrap() as u16).collect(); v.sort(); v.dedup(); v }).collect();
        subsets.sort_by_key(|s| (s.len(), s.clone()));
        subsets.dedup();
        Uni { name: name.into(), keys, subsets }
    }
    pub fn ents(&self, i: u64, side: u16) -> Ents { self.subsets[i as usize].iter().map(|k| (*k, side + k)).collect() }
    pub fn pairs(&self, e: &[(u16, V)]) -> Vec<(Key, V)> { e.iter().map(|(k, v)| (self.keys[*k as usize].clone(), *v)).collect() }
}
pub const L: u16 = 1000;
pub const R: u16 = 2000;

pub fn u_small() -> Uni { Uni::all("small", words(2, 2)) }
pub fn u_mid(k: usize) -> Uni { Uni::upto(&format!("mid{k}"), words(2, 3), k) }
pub fn u_tern(k: usize) -> Uni { Uni::upto(&format!("ternary{k}"), words(3, 2), k) }
pub fn u_spine() -> Uni {
    let mut k: Vec<Key> = (0..6).map(|n| vec![0; n]).collect();
    k.push(vec![0, 0, 1]);
    k.push(vec![0, 0, 0, 0, 1]);
    Uni::all("spine", k)
}
/// a chain of prefixes with side branches at three depths
pub fn u_spine2() -> Uni {
    let mut k: Vec<Key> = (0..6).map(|n| vec![0; n]).collect();
    k.extend([vec![1], vec![0, 0, 1], vec![0, 0, 1, 1], vec![0, 0, 0, 0, 1]]);
    Uni::all("spine2", k)
}
/// up to n children of one node, every combination
pub fn u_letters(n: u8) -> Uni { Uni::all(&format!("letters{n}"), (0..n).map(|x| vec![x * 3]).collect()) }
/// nodes with more than eight children (the merge changes its algorithm there)
pub fn u_wide() -> Uni {
    let one = |r: std::ops::Range<u8>| r.map(|x| vec![x]).collect::<Vec<_>>();
    Uni::groups("wide", vec![one(0..9), one(9..10), one(10..19), vec![vec![0, 0]], vec![vec![9, 9]], vec![vec![20]], vec![vec![]]])
}
/// the same below a prefix, with grandchildren
pub fn u_deepwide() -> Uni {
    let one = |r: std::ops::Range<u8>| r.map(|x| vec![7, 7, x]).collect::<Vec<_>>();
    Uni::groups("deepwide", vec![one(1..10), one(10..20), vec![vec![7, 7, 5, 5]], vec![vec![7]], vec![vec![7, 7]], vec![vec![7, 7, 12, 1], vec![7, 7, 12, 2]], vec![vec![8]]])
}
pub fn u_scaled(times: usize) -> Uni { Uni::all(&format!("scaled{times}"), words(2, 2).into_iter().map(|w| scale(&w, times)).collect()) }
/// bytes with the high bit set, and keys that differ only far from the start
pub fn u_bytes() -> Uni {
    let long = |x: u8| { let mut v = vec![200; 20]; v.push(x); v };
    Uni::all("bytes", vec![vec![], vec![0], vec![255], vec![127], vec![128], long(0), long(255)])
}

/// a node with up to 256 children, below a stem of the given length
pub fn u_fan(stem: usize, lens: &[usize]) -> Uni {
    let k = |x: usize| { let mut v = vec![7; stem]; v.push(x as u8); v };
    let extra = vec![vec![7; stem], [k(100), vec![5]].concat(), [k(100), vec![5, 6]].concat(), [k(20), vec![0; 20]].concat()];
    let mut subs = vec![vec![], extra.clone()];
    for &n in lens {
        for step in 1..=3 {
            if (n - 1) * step > 255 { continue }
            for start in [0, 255 - (n - 1) * step] {
                let s: Vec<Key> = (0..n).map(|i| k(start + i * step)).collect();
                if n > 8 && step == 1 { subs.push([s.clone(), extra.clone()].concat()); subs.push([&s[..n / 2], &s[n / 2 + 1..]].concat()) }
                subs.push(s);
            }
        }
    }
    Uni::listed(&format!("fan{stem}-{}", lens.len()), (0..256).map(k).chain(extra).collect(), subs)
}
pub const FAN: [usize; 16] = [1, 2, 8, 9, 10, 16, 17, 32, 33, 64, 65, 127, 128, 129, 255, 256];
pub const FAN_SHORT: [usize; 8] = [1, 3, 9, 17, 65, 128, 129, 256];
/// long keys diverging at different places
pub fn u_long(upto: usize) -> Uni {
    let z = |n: usize| vec![0u8; n];
    let d = |n: usize, at: usize| { let mut v = z(n); v[at] = 1; v };
    Uni::upto(&format!("long{upto}"), vec![z(0), z(255), z(256), z(257), z(1000), d(256, 255), d(257, 256), d(300, 127), d(300, 128), d(1000, 999), d(1000, 512)], upto)
}
/// keys longer than a 16 bit length
pub fn u_huge() -> Uni {
    let z = |n: usize| vec![0u8; n];
    let mut d = z(65_600);
    d[65_536] = 1;
    Uni::all("huge", vec![z(1), z(65_535), z(65_537), d])
}
/// nested prefixes: deep trees without branches, and with branches on the way
pub fn u_chain(depths: &[usize]) -> Uni {
    let z = |n: usize| vec![3u8; n];
    let b = |n: usize| { let mut v = z(n); v.push(1); v };
    let max = *depths.iter().max().unwrap();
    let mut subs = vec![vec![]];
    for &n in depths {
        for step in [1, 2, 5] {
            subs.push((0..=n).step_by(step).map(z).collect());
            subs.push((1..=n).step_by(step).map(z).collect());
            subs.push((0..n).step_by(step).map(b).collect());
            subs.push((0..n).step_by(step).flat_map(|i| [z(i), b(i)]).collect());
        }
        subs.push(vec![z(n)]);
        subs.push(vec![z(n / 2), b(n - 1)]);
    }
    Uni::listed("chain", (0..=max).flat_map(|n| [z(n), b(n)]).collect(), subs)
}
/// all words over 4 letters of length at most 4, in patterned subsets
pub fn u_bush() -> Uni {
    let ws = words(4, 4);
    let mut subs: Vec<Vec<Key>> = vec![vec![], ws.clone()];
    let mut add = |f: &dyn Fn(usize, &Key) -> bool| subs.push(ws.iter().enumerate().filter(|(i, k)| f(*i, k)).map(|(_, k)| k.clone()).collect());
    for m in [2, 3, 7, 50] { for r in 0..2 { add(&|i, _| i % m == r); add(&|i, _| i % m != r) } }
    for l in 0..5 { add(&|_, k| k.len() == l); add(&|_, k| k.len() <= l) }
    for a in 0..4u8 {
        add(&|_, k| k.first() == Some(&a));
        add(&|_, k| k.first() != Some(&a));
        add(&|_, k| k.last() == Some(&a));
        add(&|_, k| k.contains(&a));
        add(&|_, k| !k.contains(&a));
        add(&|_, k| k.starts_with(&[a, a]));
        add(&|_, k| k.len() == 4 && k[2] == a);
        add(&|_, k| !(k.len() == 4 && k[3] == a));
    }
    Uni::listed("bush", ws, subs)
}
/// the keys, their prefixes and one-element extensions of those; only at interesting places of long keys
pub fn around(keys: &[Key], next: &[u8]) -> Vec<Key> {
    let mut ps: Vec<Key> = vec![vec![]];
    for k in keys {
        for n in 0..=k.len() {
            if k.len() > 40 && n > 3 && n + 3 < k.len() && ![15, 16, 17, 127, 128, 129, 255, 256, 257, 512, 513, 65_535, 65_536, 65_537].contains(&n) { continue }
            ps.push(k[..n].to_vec());
            for x in next { let mut e = k[..n].to_vec(); e.push(*x); ps.push(e) }
        }
    }
    ps.sort();
    ps.dedup();
    ps
}
pub fn show_key(k: &Key) -> String {
    if k.len() <= 40 { return format!("{k:?}") }
    let odd: Vec<String> = k.iter().enumerate().filter(|(_, x)| **x != k[0]).take(5).map(|(i, x)| format!("{x} at {i}")).collect();
    format!("[{}; {}{}{}]", k[0], k.len(), if odd.is_empty() { "" } else { " but " }, odd.join(" "))
}

pub fn bytes_of<T: Serialize<AllocSerializer<256>>>(t: &T) -> &'static [u8] {
    let mut s = AllocSerializer::<256>::default();
    s.serialize_value(t).unwrap();
    let b = s.into_serializer().into_inner();
    let b: &'static rkyv::AlignedVec = Box::leak(Box::new(b));
    b.as_slice()
}
/// one tree in every flavour
pub struct Pre { pub ents: Ents, pub flat: Flat, pub arc: Shared, bf: &'static [u8], ba: &'static [u8], bl: &'static [u8] }
pub fn build<T: AbstractRadixTreeMut<u8, W>, W: TValue>(keys: &[Key], e: impl IntoIterator<Item = (u16, W)>) -> T {
    let mut t = T::empty();
    for (k, v) in e { t.insert(&keys[k as usize], v) }
    t
}
/// frees its archives again
pub struct Owned { pub p: Pre, _keep: [rkyv::AlignedVec; 3] }
pub fn archive<T: Serialize<AllocSerializer<256>>>(t: &T) -> rkyv::AlignedVec {
    let mut s = AllocSerializer::<256>::default();
    s.serialize_value(t).unwrap();
    s.into_serializer().into_inner()
}
impl Pre {
    /// for one case only: nothing made from it may outlive it
    pub fn new_unleaked(u: &Uni, i: u64, side: u16) -> Owned {
        let ents = u.ents(i, side);
        let flat: Flat = build(&u.keys, ents.iter().copied());
        let arc: Shared = build(&u.keys, ents.iter().copied());
        let lazy = LazyT::from(flat.clone());
        let k = [archive(&flat), archive(&arc), archive(&lazy)];
        let st = |b: &rkyv::AlignedVec| unsafe { std::slice::from_raw_parts::<'static, u8>(b.as_ptr(), b.len()) };
        Owned { p: Pre { bf: st(&k[0]), ba: st(&k[1]), bl: st(&k[2]), ents, flat, arc }, _keep: k }
    }
    pub fn new(u: &Uni, i: u64, side: u16) -> Pre { Pre::from_ents(&u.keys, u.ents(i, side)) }
    pub fn from_ents(keys: &[Key], ents: Ents) -> Pre {
        let flat: Flat = build(keys, ents.iter().copied());
        let arc: Shared = build(keys, ents.iter().copied());
        let lazy = LazyT::from(flat.clone());
        Pre { bf: bytes_of(&flat), ba: bytes_of(&arc), bl: bytes_of(&lazy), ents, flat, arc }
    }
    pub fn aflat(&self) -> &'static AFlat { unsafe { rkyv::archived_root::<Flat>(self.bf) } }
    pub fn aarc(&self) -> &'static AShared { unsafe { rkyv::archived_root::<Shared>(self.ba) } }
    pub fn alazy(&self) -> &'static ALazy { unsafe { rkyv::archived_root::<LazyT>(self.bl) } }
    /// nothing below the root loaded
    pub fn lazy(&self) -> LazyT { LazyT::from(self.alazy()) }
    pub fn lazy_loaded(&self) -> LazyT { LazyT::from(self.flat.clone()) }
}

/// Walk the raw structure (not the iterators) and compare with the expected mappings; also check the
/// canonical form. Returns what is wrong.
pub fn verify<T: AbstractRadixTree<u8, W>, W: TValue + PartialEq>(t: &T, keys: &[Key], want: &[(u16, W)]) -> Result<(), String> {
    let mut path = Vec::new();
    let mut pos = 0;
    walk(t, true, &mut path, &mut |p: &[u8], v: &W| {
        match want.get(pos) {
            Some((k, w)) if keys[*k as usize] == p && w == v => { pos += 1; Ok(()) }
            Some((k, w)) => Err(format!("mapping #{pos} is {p:?} => {v:?}, expected {:?} => {w:?}", keys[*k as usize])),
            None => Err(format!("extra mapping {p:?} => {v:?}")),
        }
    })?;
    if pos < want.len() { return Err(format!("mapping {:?} => {:?} is missing", keys[want[pos].0 as usize], want[pos].1)) }
    Ok(())
}
pub fn walk<T: AbstractRadixTree<u8, W>, W: TValue>(t: &T, root: bool, path: &mut Vec<u8>, f: &mut impl FnMut(&[u8], &W) -> Result<(), String>) -> Result<(), String> {
    let (p, v, c) = (t.prefix(), t.value(), t.children());
    let n = path.len();
    path.extend_from_slice(p);
    if !root && p.is_empty() { return Err(format!("not canonical: empty prefix below the root at {path:?}")) }
    if v.is_none() && c.len() == 1 { return Err(format!("not canonical: valueless node with a single child at {path:?}")) }
    if v.is_none() && c.is_empty() && !(root && p.is_empty()) { return Err(format!("not canonical: empty node at {path:?}")) }
    if let Some(v) = v { f(path, v)? }
    for (i, x) in c.iter().enumerate() {
        if x.prefix().is_empty() { return Err(format!("not canonical: empty prefix below the root at {path:?}")) }
        if i > 0 && c[i - 1].prefix()[0] >= x.prefix()[0] { return Err(format!("children not strictly ordered at {path:?}")) }
        walk(x, false, path, f)?;
    }
    path.truncate(n);
    Ok(())
}
/// all mappings, from the raw structure
pub fn dump<T: AbstractRadixTree<u8, W>, W: TValue>(t: &T) -> Result<Vec<(Key, W)>, String> {
    let mut out = vec![];
    walk(t, true, &mut vec![], &mut |p: &[u8], v: &W| { out.push((p.to_vec(), v.clone())); Ok(()) })?;
    Ok(out)
}
/// Two trees of one flavour with common history: `b` is a clone of `a` (key set x, values L + k) turned into key
/// set y by removals and insertions; every third common key gets a new value in `b`. They share what the
/// flavour lets them share. None when the library does not build them right (that is for other properties).
pub struct Kin<T> { pub a: T, pub b: T }
pub fn kin_ents(u: &Uni, x: u64, y: u64) -> (Ents, Ents) {
    let (sx, sy) = (&u.subsets[x as usize], &u.subsets[y as usize]);
    (u.ents(x, L), sy.iter().map(|k| (*k, if k % 3 != 0 && sx.binary_search(k).is_ok() { L + k } else { R + k })).collect())
}
pub fn kin<T: AbstractRadixTreeMut<u8, V>>(u: &Uni, a: T, ea: &Ents, eb: &Ents) -> Option<Kin<T>> {
    let mut b = a.clone();
    let gone: RadixTree<u8, ()> = build(&u.keys, ea.iter().filter(|e| eb.binary_search_by_key(&e.0, |f| f.0).is_err()).map(|e| (e.0, ())));
    if !gone.is_empty() { b.difference_with(&gone) }
    for e in eb { if ea.binary_search(e).is_err() { b.insert(&u.keys[e.0 as usize], e.1) } }
    (verify(&a, &u.keys, ea).is_ok() && verify(&b, &u.keys, eb).is_ok()).then_some(Kin { a, b })
}
/// both trees in one record of one archive: nodes that are shared are stored once
pub struct KinArchive<T: rkyv::Archive>(rkyv::AlignedVec, std::marker::PhantomData<T>);
impl<T: Serialize<AllocSerializer<256>> + Clone> KinArchive<T> {
    pub fn new(k: &Kin<T>) -> Self { KinArchive(archive(&vec![k.a.clone(), k.b.clone()]), std::marker::PhantomData) }
    pub fn get(&self) -> (&Archived<T>, &Archived<T>) {
        let r = unsafe { rkyv::archived_root::<Vec<T>>(&self.0) };
        (&r[0], &r[1])
    }
}
#[macro_export]
macro_rules! check_tree {
    ($t:expr, $keys:expr, $want:expr, $($w:tt)*) => {
        if let Err(e) = $crate::radix::verify($t, $keys, $want) { $crate::fail!("{}: {e}", format!($($w)*)) }
    }
}
