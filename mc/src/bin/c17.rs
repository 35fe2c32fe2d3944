//! C17: validation of arbitrary bytes is safe and sound.
use mc::{ensure, fail, idx, Cx, Prop, Space};
use rkyv::de::deserializers::SharedDeserializeMap;
use rkyv::ser::{serializers::AllocSerializer, Serializer};
use rkyv::{check_archived_root, validation::validators::DefaultValidator, Archive, Deserialize, Serialize};
use std::cell::OnceCell;
use std::sync::Arc;
use vec_collections::radix_tree::{AbstractRadixTree, AbstractRadixTreeMut, ArcRadixTree, RadixTree, TKey, TValue};
use vec_collections::{AbstractVecMap, AbstractVecSet, OuterJoinArg, VecMap, VecSet};

// -- a page between two inaccessible regions -----------------------------------------------------
const PAGE: usize = 4096;
const GUARD: usize = 1 << 20;
struct Region(*mut u8);
impl Region {
    fn new() -> Region {
        unsafe {
            let p = libc::mmap(std::ptr::null_mut(), GUARD * 2 + PAGE, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
            assert!(p != libc::MAP_FAILED);
            let q = (p as *mut u8).add(GUARD);
            assert_eq!(libc::mprotect(q as *mut _, PAGE, libc::PROT_READ | libc::PROT_WRITE), 0);
            Region(q)
        }
    }
    /// the buffer begins right after, or ends right before, inaccessible memory
    fn put(&self, b: &[u8], at_end: bool, skew: usize) -> &[u8] {
        assert!(b.len() + skew <= PAGE);
        let off = if at_end { PAGE - b.len() - skew } else { skew };
        unsafe {
            let d = self.0.add(off);
            std::ptr::copy_nonoverlapping(b.as_ptr(), d, b.len());
            std::slice::from_raw_parts(d, b.len())
        }
    }
}
thread_local! { static REGION: OnceCell<Region> = const { OnceCell::new() }; }

// -- what an accepted buffer has to satisfy --------------------------------------------------------
/// values whose every bit pattern is not valid
trait Bits { fn valid(p: *const Self) -> bool; }
macro_rules! plain { ($($t:ty),*) => { $(impl Bits for $t { fn valid(_: *const Self) -> bool { true } })* } }
plain!(u8, u16, u32, u64, i32, ());
impl Bits for bool { fn valid(p: *const Self) -> bool { unsafe { std::ptr::read_volatile(p as *const u8) <= 1 } } }
impl Bits for char { fn valid(p: *const Self) -> bool { unsafe { char::from_u32(std::ptr::read_volatile(p as *const u32)).is_some() } } }
impl<A: Bits, B: Bits> Bits for (A, B) { fn valid(p: *const Self) -> bool { unsafe { A::valid(std::ptr::addr_of!((*p).0)) && B::valid(std::ptr::addr_of!((*p).1)) } } }

type Verdict = bool;
fn set_check<T>(b: &[u8]) -> Verdict
where T: Ord + Clone + Bits + std::fmt::Debug + Archive<Archived = T> + for<'a> bytecheck::CheckBytes<DefaultValidator<'a>> + Deserialize<T, rkyv::Infallible> + 'static {
    let Ok(v) = check_archived_root::<VecSet<[T; 4]>>(b) else { return false };
    let s = AbstractVecSet::as_slice(v);
    ensure!(s.len() * std::mem::size_of::<T>() <= b.len(), "an accepted set of {} elements does not fit in the buffer", s.len());
    for x in s { ensure!(T::valid(x), "accepted an invalid element") }
    for w in s.windows(2) { ensure!(w[0] < w[1], "accepted a set that is not strictly sorted: {s:?}") }
    for x in s { ensure!(AbstractVecSet::contains(v, x), "contains({x:?}) fails on an accepted set") }
    ensure!(v.is_subset(v) && (s.is_empty() || !v.is_disjoint(v)), "comparison with itself fails");
    let d: VecSet<[T; 4]> = v.deserialize(&mut rkyv::Infallible).unwrap();
    ensure!(d.as_ref() == s, "deserialised set differs");
    ensure!(d.union(v) == d && d.difference(v).is_empty(), "union or difference with itself is wrong");
    true
}
fn map_check<K, W>(b: &[u8]) -> Verdict
where K: Ord + Clone + Bits + std::fmt::Debug + Archive<Archived = K> + for<'a> bytecheck::CheckBytes<DefaultValidator<'a>> + Deserialize<K, rkyv::Infallible> + 'static,
      W: Clone + Bits + PartialEq + std::fmt::Debug + Archive<Archived = W> + for<'a> bytecheck::CheckBytes<DefaultValidator<'a>> + Deserialize<W, rkyv::Infallible> + 'static {
    let Ok(v) = check_archived_root::<VecMap<[(K, W); 4]>>(b) else { return false };
    let s = AbstractVecMap::as_slice(v);
    ensure!(std::mem::size_of_val(s) <= b.len(), "an accepted map of {} entries does not fit in the buffer", s.len());
    for x in s { ensure!(<(K, W)>::valid(x), "accepted an invalid entry") }
    for w in s.windows(2) { ensure!(w[0].0 < w[1].0, "accepted a map that is not strictly sorted: {s:?}") }
    for (k, w) in s { ensure!(v.get(k) == Some(w), "get({k:?}) fails on an accepted map") }
    let d: VecMap<[(K, W); 4]> = v.deserialize(&mut rkyv::Infallible).unwrap();
    ensure!(d.as_ref() == s, "deserialised map differs");
    let j: VecMap<[(K, W); 4]> = d.outer_join(v, |a| match a { OuterJoinArg::Both(_, a, b) if a == b => Some(a.clone()), _ => None });
    ensure!(j == d, "outer join with itself is wrong");
    true
}
/// the tree as it is, within a budget of nodes
fn nodes<K: TKey + Bits, W: TValue + Bits, T: AbstractRadixTree<K, W>>(t: &T, depth: usize, path: &mut Vec<K>, budget: &mut usize, out: &mut Vec<(Vec<K>, W)>) {
    if *budget == 0 || depth > 300 { fail!("accepted a tree that is cyclic, or far bigger than its archive") }
    *budget -= 1;
    let n = path.len();
    let p = t.prefix();
    for x in p { ensure!(K::valid(x), "accepted an invalid key element") }
    ensure!(depth == 0 || !p.is_empty(), "accepted a child with an empty prefix");
    path.extend_from_slice(p);
    if let Some(v) = t.value() { ensure!(W::valid(v), "accepted an invalid value"); out.push((path.clone(), v.clone())) }
    let c = t.children();
    for (i, x) in c.iter().enumerate() {
        ensure!(!x.prefix().is_empty(), "accepted a child with an empty prefix");
        if i > 0 { ensure!(c[i - 1].prefix()[0] < x.prefix()[0], "accepted children that are not strictly ordered") }
        nodes(x, depth + 1, path, budget, out);
    }
    path.truncate(n);
}
fn tree_queries<K: TKey + Bits, W: TValue + Bits + PartialEq, T: AbstractRadixTree<K, W>>(t: &T) -> Vec<(Vec<K>, W)> {
    let mut out = vec![];
    nodes(t, 0, &mut vec![], &mut 100_000, &mut out);
    let it: Vec<(Vec<K>, W)> = t.iter().map(|(k, v)| (k.to_vec(), v.clone())).collect();
    ensure!(it == out, "iteration of an accepted tree gives {it:?}, its nodes are {out:?}");
    for w in out.windows(2) { ensure!(w[0].0 < w[1].0, "iteration of an accepted tree is not ordered") }
    ensure!(t.values().count() == out.len(), "values of an accepted tree");
    for (k, v) in &out {
        ensure!(t.get(k) == Some(v) && t.contains_key(k), "get({k:?}) fails on an accepted tree");
        if !k.is_empty() { let h = &k[..k.len() - 1]; ensure!(t.scan_prefix(h).any(|(q, _)| q.as_ref() == &k[..]), "scan_prefix({h:?}) misses a key") }
    }
    ensure!(t.is_subset(t) && t.is_superset(t), "comparison with itself fails");
    let _ = (t.is_disjoint(t), t.intersects(t), t.is_empty());
    let i = t.inner_combine(t, |a, _| Some(a.clone()));
    ensure!(i.iter().count() == out.len(), "intersection with itself is wrong");
    let l = t.left_combine(t, |_, b| if b.is_some() { None } else { Some(b.cloned().unwrap()) });
    ensure!(l.is_empty(), "difference with itself is wrong");
    out
}
fn flat_check<K, W>(b: &[u8]) -> Verdict
where K: TKey + Bits + for<'a> bytecheck::CheckBytes<DefaultValidator<'a>> + Deserialize<K, SharedDeserializeMap>,
      W: TValue + Bits + PartialEq + Archive<Archived = W> + for<'a> bytecheck::CheckBytes<DefaultValidator<'a>> + Deserialize<W, SharedDeserializeMap> {
    let Ok(v) = check_archived_root::<RadixTree<K, W>>(b) else { return false };
    let e = tree_queries(v);
    let d: RadixTree<K, W> = v.deserialize(&mut SharedDeserializeMap::new()).unwrap();
    ensure!(tree_queries(&d) == e, "deserialised tree differs");
    let mut u = RadixTree::<K, W>::empty();
    u.union_with(v);
    ensure!(u.iter().count() == e.len(), "union with an accepted tree is wrong");
    u.difference_with(v);
    ensure!(u.is_empty(), "difference with an accepted tree is wrong");
    true
}
fn arc_check<K, W>(b: &[u8]) -> Verdict
where K: TKey + Bits + for<'a> bytecheck::CheckBytes<DefaultValidator<'a>> + Deserialize<K, SharedDeserializeMap>,
      W: TValue + Bits + PartialEq + Archive<Archived = W> + for<'a> bytecheck::CheckBytes<DefaultValidator<'a>> + Deserialize<W, SharedDeserializeMap> {
    let Ok(v) = check_archived_root::<ArcRadixTree<K, W>>(b) else { return false };
    let e = tree_queries(v);
    let d: ArcRadixTree<K, W> = v.deserialize(&mut SharedDeserializeMap::new()).unwrap();
    ensure!(tree_queries(&d) == e, "deserialised tree differs");
    ensure!(tree_queries(&ArcRadixTree::from(v)) == e, "converted tree differs");
    let mut u = ArcRadixTree::<K, W>::empty();
    u.union_with(v);
    ensure!(u.iter().count() == e.len(), "union with an accepted tree is wrong");
    true
}
// values that are archived out of line (strings are not used: rkyv 0.7 itself reads out of bounds for some of them)
type Vals = Vec<u32>;
fn vals_check(b: &[u8]) -> Verdict {
    let Ok(v) = check_archived_root::<RadixTree<u8, Vals>>(b) else { return false };
    let d: RadixTree<u8, Vals> = v.deserialize(&mut SharedDeserializeMap::new()).unwrap();
    for (_, s) in d.iter() { std::hint::black_box(s.iter().fold(0u32, |a, x| a.wrapping_add(*x))); }
    true
}
fn arc_vals_check(b: &[u8]) -> Verdict {
    let Ok(v) = check_archived_root::<ArcRadixTree<u8, Vals>>(b) else { return false };
    let d: ArcRadixTree<u8, Vals> = v.deserialize(&mut SharedDeserializeMap::new()).unwrap();
    for (_, s) in d.iter() { std::hint::black_box(s.iter().fold(0u32, |a, x| a.wrapping_add(*x))); }
    true
}

// -- archives ----------------------------------------------------------------------------------
struct Seed { name: String, bytes: Vec<u8>, check: fn(&[u8]) -> Verdict }
fn put<T: Serialize<AllocSerializer<256>>>(t: &T) -> Vec<u8> {
    let ser = |pad: usize| {
        let mut s = AllocSerializer::<256>::default();
        s.write(&vec![0; pad]).unwrap();
        s.serialize_value(t).unwrap();
        s.into_serializer().into_inner().to_vec()
    };
    // a multiple of 16, so that the buffer can end at the end of a page and still be aligned
    (0..64).map(ser).find(|b| b.len() % 16 == 0).expect("an aligned archive")
}
fn keys<K>(w: &[&str], f: impl Fn(u8) -> K) -> Vec<Vec<K>> { w.iter().map(|s| s.bytes().map(&f).collect()).collect() }
fn flat<K: TKey, W: TValue>(k: &[Vec<K>], v: impl Fn(usize) -> W) -> RadixTree<K, W> { let mut t = RadixTree::empty(); for (i, k) in k.iter().enumerate() { t.insert(k, v(i)) } t }
fn shared<K: TKey, W: TValue>(k: &[Vec<K>], v: impl Fn(usize) -> W) -> ArcRadixTree<K, W> { let mut t = ArcRadixTree::empty(); for (i, k) in k.iter().enumerate() { t.insert(k, v(i)) } t }
fn seeds() -> Vec<Seed> {
    let mut v = vec![];
    macro_rules! seed { ($n:expr, $t:expr, $c:expr) => { v.push(Seed { name: $n.into(), bytes: put(&$t), check: $c }) } }
    seed!("set u8 []", VecSet::<[u8; 4]>::default(), set_check::<u8>);
    seed!("set u8 [3]", VecSet::<[u8; 4]>::from_iter([3u8]), set_check::<u8>);
    seed!("set u8 [1,2,9]", VecSet::<[u8; 4]>::from_iter([1u8, 2, 9]), set_check::<u8>);
    seed!("set u16 [1,256,513]", VecSet::<[u16; 4]>::from_iter([1u16, 256, 513]), set_check::<u16>);
    seed!("set i32 [-1,0,7]", VecSet::<[i32; 4]>::from_iter([-1i32, 0, 7]), set_check::<i32>);
    seed!("set u64 [1,2^40]", VecSet::<[u64; 4]>::from_iter([1u64, 1 << 40]), set_check::<u64>);
    seed!("set bool", VecSet::<[bool; 4]>::from_iter([false, true]), set_check::<bool>);
    seed!("set char [a,ö,0x10000]", VecSet::<[char; 4]>::from_iter(['a', 'ö', '\u{10000}']), set_check::<char>);
    seed!("set (u8,u32)", VecSet::<[(u8, u32); 4]>::from_iter([(1u8, 5u32), (1, 9), (2, 0)]), set_check::<(u8, u32)>);
    seed!("map u8 u8", VecMap::<[(u8, u8); 4]>::from_iter([(1u8, 9u8), (2, 8), (7, 7)]), map_check::<u8, u8>);
    seed!("map u16 u32", VecMap::<[(u16, u32); 4]>::from_iter([(1u16, 9u32), (2, 8), (300, 7)]), map_check::<u16, u32>);
    seed!("map char bool", VecMap::<[(char, bool); 4]>::from_iter([('a', true), ('b', false)]), map_check::<char, bool>);
    seed!("map u8 u64", VecMap::<[(u8, u64); 4]>::from_iter([(1u8, 1u64), (2, 3)]), map_check::<u8, u64>);
    seed!("map bool char", VecMap::<[(bool, char); 4]>::from_iter([(false, 'x'), (true, 'y')]), map_check::<bool, char>);
    let id = |b: u8| b;
    for (n, w) in [("empty", vec![]), ("root", vec![""]), ("leaf", vec!["a"]), ("long", vec!["abcabcabcabcabcabc"]), ("split", vec!["ax", "ay"]), ("wide", vec!["a", "b", "c", "d"]), ("deep", vec!["a", "ab", "abc"]), ("tree", vec!["", "ab", "aca", "acb", "b"])] {
        seed!(format!("flat u8 u8 {n}"), flat(&keys(&w, id), |i| i as u8), flat_check::<u8, u8>);
        seed!(format!("shared u8 u8 {n}"), shared(&keys(&w, id), |i| i as u8), arc_check::<u8, u8>);
    }
    let w = ["a", "ba", "bb"];
    seed!("flat u8 unit", flat(&keys(&w, id), |_| ()), flat_check::<u8, ()>);
    seed!("flat u16 bool", flat(&keys(&w, |b| b as u16 * 250), |i| i % 2 == 0), flat_check::<u16, bool>);
    seed!("flat char u32", flat(&keys(&w, |b| b as char), |i| i as u32), flat_check::<char, u32>);
    seed!("flat bool u8", flat(&[vec![], vec![false], vec![true, false], vec![true, true]], |i| i as u8), flat_check::<bool, u8>);
    seed!("shared u8 unit", shared(&keys(&w, id), |_| ()), arc_check::<u8, ()>);
    seed!("shared u16 bool", shared(&keys(&w, |b| b as u16 * 250), |i| i % 2 == 0), arc_check::<u16, bool>);
    seed!("shared char u64", shared(&keys(&w, |b| b as char), |i| i as u64), arc_check::<char, u64>);
    let vals = |i: usize| vec![vec![], vec![7u32], vec![1, 2, 3]][i].clone();
    seed!("flat u8 Vec<u32>", flat(&keys(&w, id), vals), vals_check);
    seed!("shared u8 Vec<u32>", shared(&keys(&w, id), vals), arc_vals_check);
    // the same subtree below two children
    let mut t = shared(&keys(&["x", "y"], id), |i| i as u8);
    let mut o = t.clone();
    t.prepend(b"p");
    o.prepend(b"q");
    t.union_with(&o);
    seed!("shared u8 u8 dag", t, arc_check::<u8, u8>);
    // long ones: a check that stops early, or works in blocks, is right for the short ones
    seed!("set u8 x200", VecSet::<[u8; 4]>::from_iter(20..220u8), set_check::<u8>);
    seed!("set u16 x300", VecSet::<[u16; 4]>::from_iter((0..300u16).map(|x| x * 200)), set_check::<u16>);
    seed!("map u16 u16 x80", VecMap::<[(u16, u16); 4]>::from_iter((0..80u16).map(|x| (x * 3, x))), map_check::<u16, u16>);
    seed!("map u8 bool x150", VecMap::<[(u8, bool); 4]>::from_iter((0..150u8).map(|x| (x, x % 3 == 0))), map_check::<u8, bool>);
    let one = |n: u8| (0..n).map(|x| vec![x * 5]).collect::<Vec<_>>();
    let chain = |n: usize| (1..=n).map(|x| vec![3u8; x]).collect::<Vec<_>>();
    seed!("flat u8 u8 20 children", flat(&one(20), |i| i as u8), flat_check::<u8, u8>);
    seed!("shared u8 u8 20 children", shared(&one(20), |i| i as u8), arc_check::<u8, u8>);
    seed!("flat u8 u8 15 deep", flat(&chain(15), |i| i as u8), flat_check::<u8, u8>);
    seed!("shared u8 u8 15 deep", shared(&chain(15), |i| i as u8), arc_check::<u8, u8>);
    seed!("flat u8 u8 300 long", flat(&[vec![1u8; 300], [vec![1u8; 300], vec![2; 40]].concat(), [vec![1u8; 300], vec![7; 40]].concat()], |i| i as u8), flat_check::<u8, u8>);
    seed!("shared char bool 40 long", shared(&[vec!['x'; 40], [vec!['x'; 40], vec!['y'; 20]].concat()], |i| i == 0), arc_check::<char, bool>);
    seed!("flat u8 bool 33 children", flat(&one(33), |i| i % 2 == 0), flat_check::<u8, bool>);
    v
}

// -- mutations ----------------------------------------------------------------------------------
/// run validation on one buffer in both placements
fn run(s: &Seed, b: &[u8], cx: &mut Cx) -> bool {
    REGION.with(|r| {
        let r = r.get_or_init(Region::new);
        let a = (s.check)(r.put(b, true, 0));
        let c = (s.check)(r.put(b, false, 0));
        cx.ops(2);
        ensure!(a == c || b.len() % 16 != 0, "validation depends on the address of the buffer");
        a
    })
}
fn space(name: &str, about: &str, seeds: &Arc<Vec<Seed>>, sel: impl Fn(&Seed) -> bool, count: impl Fn(&Seed) -> u64, mutate: impl Fn(&Seed, u64) -> Vec<u8> + Send + Sync + Clone + 'static) -> Box<dyn Space> {
    let mut table = vec![];
    let mut total = 0;
    for (i, s) in seeds.iter().enumerate() { if sel(s) { table.push((total, i)); total += count(s) } }
    let table = Arc::new(table);
    let find = move |t: &[(u64, usize)], i: u64| { let p = t.partition_point(|e| e.0 <= i) - 1; (t[p].1, i - t[p].0) };
    let (s1, s2, t1, t2, m2) = (seeds.clone(), seeds.clone(), table.clone(), table.clone(), mutate.clone());
    idx(name, format!("{about}; {} archives of {} to {} bytes", table.len(), table.iter().map(|t| seeds[t.1].bytes.len()).min().unwrap(), table.iter().map(|t| seeds[t.1].bytes.len()).max().unwrap()), total,
        move |i, cx| {
            let (k, j) = find(&t1, i);
            let s = &s1[k];
            let b = mutate(s, j);
            let acc = run(s, &b, cx);
            if b == s.bytes { ensure!(acc, "an unmodified archive is rejected") }
            cx.nontrivial_if(acc && b != s.bytes);
            cx.outcome((k, acc));
        },
        move |i| { let (k, j) = find(&t2, i); format!("{}: {:02x?}", s2[k].name, m2(&s2[k], j)) })
}
/// the values a 32-bit word is replaced by: every offset that stays near the archive, small counts, extremes
fn words(n: usize, few: bool) -> Vec<u32> {
    let n = n as i32;
    let mut v: Vec<i32> = if few { (-n / 4..=n / 4).map(|x| x * 4).collect() } else { (-n - 9..=n + 9).collect() };
    if few { v.extend([1, 2, 3, 5, -1, -2]) }
    v.extend([i32::MIN, i32::MIN + 1, i32::MAX, i32::MAX - 7, 1 << 16, 1 << 24, -(1 << 16), 1 << 30, 0x2020_2020, 0x0101_0101, 1 << 20, -(1 << 20)]);
    let mut w: Vec<u32> = v.into_iter().map(|x| x as u32).collect();
    w.sort();
    w.dedup();
    w
}
fn set_word(b: &mut [u8], at: usize, w: u32) { b[at..at + 4].copy_from_slice(&w.to_le_bytes()) }

fn spaces(th: bool) -> Vec<Box<dyn Space>> {
    let seeds = Arc::new(seeds());
    let all = |_: &Seed| true;
    let mut v = vec![];
    v.push(space("unmodified", "unmodified archives are accepted", &seeds, all, |_| 1, |s, _| s.bytes.clone()));
    v.push(space("bytes", "every byte set to every value", &seeds, all, |s| s.bytes.len() as u64 * 256, |s, i| { let mut b = s.bytes.clone(); b[(i / 256) as usize] = i as u8; b }));
    v.push(space("truncations", "every prefix and every suffix", &seeds, all, |s| s.bytes.len() as u64 * 2, |s, i| { let n = (i / 2) as usize; if i % 2 == 0 { s.bytes[..n].to_vec() } else { s.bytes[n..].to_vec() } }));
    v.push(space("words", "every aligned 32-bit word replaced by every offset within the archive, counts and extremes", &seeds, all, |s| (s.bytes.len() / 4 * words(s.bytes.len(), false).len()) as u64,
        |s, i| { let w = words(s.bytes.len(), false); let mut b = s.bytes.clone(); set_word(&mut b, (i as usize / w.len()) * 4, w[i as usize % w.len()]); b }));
    let cap = if th { 4096 } else { 320 };
    v.push(space("byte-copies", &format!("every byte replaced by a copy of every other byte, and every two bytes swapped, in archives up to {cap} bytes"), &seeds, move |s| s.bytes.len() <= cap, |s| (s.bytes.len() * s.bytes.len() * 2) as u64,
        |s, i| { let n = s.bytes.len(); let mut b = s.bytes.clone(); let (x, y) = ((i / 2) as usize / n, (i / 2) as usize % n); if i % 2 == 0 { b[x] = b[y] } else { b.swap(x, y) } b }));
    v.push(space("word-copies", "every word replaced by a copy of every other word, or two words swapped", &seeds, all, |s| (s.bytes.len() * s.bytes.len() / 8) as u64,
        |s, i| { let n = s.bytes.len() / 4; let mut b = s.bytes.clone(); let (x, y) = ((i / 2) as usize / n * 4, (i / 2) as usize % n * 4); let w: [u8; 4] = s.bytes[y..y + 4].try_into().unwrap(); let z: [u8; 4] = s.bytes[x..x + 4].try_into().unwrap(); b[x..x + 4].copy_from_slice(&w); if i % 2 == 1 { b[y..y + 4].copy_from_slice(&z) } b }));
    // misaligned buffers
    {
        let (s1, s2) = (seeds.clone(), seeds.clone());
        v.push(idx("misaligned", "every archive at every address modulo 16, at both ends of the page: no crash, accepted only if sound", seeds.len() as u64 * 16, move |i, cx| {
            let s = &s1[(i / 16) as usize];
            REGION.with(|r| {
                let r = r.get_or_init(Region::new);
                let a = (s.check)(r.put(&s.bytes, true, (i % 16) as usize));
                let c = (s.check)(r.put(&s.bytes, false, (i % 16) as usize));
                cx.ops(2);
                if i % 16 == 0 { ensure!(a && c, "an unmodified archive is rejected") }
                cx.nontrivial_if(!a || !c);
                cx.outcome((a, c));
            })
        }, move |i| format!("{} at +{}", s2[(i / 16) as usize].name, i % 16)));
    }
    let cap = if th { 400 } else { 130 };
    let pairs = |s: &Seed| { let n = s.bytes.len() / 4; n * (n - 1) / 2 };
    let nth = |n: usize, mut p: usize| { for i in 0..n { if p < n - 1 - i { return (i, i + 1 + p) } p -= n - 1 - i } unreachable!() };
    v.push(space("word-pairs", &format!("every two aligned words of archives up to {cap} bytes each replaced by every aligned offset within the archive, counts and extremes"), &seeds, move |s| s.bytes.len() <= cap, move |s| (pairs(s) * words(s.bytes.len(), true).len().pow(2)) as u64,
        move |s, i| {
            let w = words(s.bytes.len(), true);
            let (n, m) = (s.bytes.len() / 4, w.len());
            let (p, r) = (i as usize / (m * m), i as usize % (m * m));
            let (x, y) = nth(n, p);
            let mut b = s.bytes.clone();
            set_word(&mut b, x * 4, w[r / m]);
            set_word(&mut b, y * 4, w[r % m]);
            b
        }));
    let cap = if th { 100 } else { 50 };
    const VALS: [u8; 14] = [0, 1, 2, 3, 4, 8, 0x61, 0x62, 0x7f, 0x80, 0xf0, 0xfc, 0xfe, 0xff];
    v.push(space("byte-pairs", &format!("every two bytes of archives up to {cap} bytes each set to 14 values"), &seeds, move |s| s.bytes.len() <= cap, |s| { let n = s.bytes.len() as u64; n * (n - 1) / 2 * 196 },
        move |s, i| {
            let (x, y) = nth(s.bytes.len(), (i / 196) as usize);
            let mut b = s.bytes.clone();
            b[x] = VALS[(i % 196) as usize / 14];
            b[y] = VALS[(i % 14) as usize];
            b
        }));
    v.extend(mc::deep::spaces(&["validate"], &["validate"]));
    v
}
fn main() {
    mc::deep::child();
    mc::run_main(Prop {
        id: "C17",
        level: "fault_enumeration",
        rule: "a case is one corrupted buffer, validated with inaccessible memory right behind it and right in front of it; non-trivial: the corrupted buffer is accepted, so that its invariants and queries are exercised",
        assumptions: &["reads outside the buffer are detected as faults within a megabyte of it; a read inside the buffer of bytes that were not validated is only detected through its consequences", "the validation entry points provided by rkyv itself (bytecheck of primitives, bounds checks) are part of what is exercised", "validation of the element type is trusted (rkyv 0.7 itself reads outside the buffer for some corrupted strings, so strings are not used as elements); the archived lazy tree has no validation"],
        spaces,
    })
}
