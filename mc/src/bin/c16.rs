//! C16: archives round trip, and archived views answer like the original.
use mc::gen::Atoms;
use mc::radix::{dump, u_bush, u_bytes, u_chain, u_deepwide, u_fan, u_huge, u_letters, u_long, u_mid, u_scaled, u_small, u_spine, u_spine2, u_tern, u_wide, Uni, FAN, FAN_SHORT};
use mc::{ensure, fail, idx, Prop, Space};
use rkyv::de::deserializers::SharedDeserializeMap;
use rkyv::ser::{serializers::AllocSerializer, Serializer};
use rkyv::{check_archived_root, validation::validators::DefaultValidator, AlignedVec, Archive, Archived, Deserialize, Serialize};
use std::fmt::Debug;
use std::sync::Arc;
use vec_collections::radix_tree::{AbstractRadixTree, AbstractRadixTreeMut, ArcRadixTree, LazyRadixTree, RadixTree, TKey, TValue};
use vec_collections::{AbstractVecMap, AbstractVecSet, OuterJoinArg, VecMap, VecSet};

/// an archive with `pad` unrelated bytes in front, so that the value lies at an arbitrary position
fn put<T: Serialize<AllocSerializer<256>>>(t: &T, pad: usize) -> AlignedVec {
    let mut s = AllocSerializer::<256>::default();
    s.write(&vec![0x5a; pad]).unwrap();
    s.serialize_value(t).unwrap();
    s.into_serializer().into_inner()
}
fn get<T: Archive>(b: &AlignedVec) -> &Archived<T> { unsafe { rkyv::archived_root::<T>(b) } }
fn valid<'a, T: Archive>(b: &'a AlignedVec, what: &str)
where Archived<T>: bytecheck::CheckBytes<DefaultValidator<'a>>, Archived<T>: 'a {
    match check_archived_root::<T>(b) {
        Ok(v) => ensure!(std::ptr::eq(v, get::<T>(b)), "{what}: validation returns another place"),
        Err(e) => fail!("{what}: the archive does not pass validation: {e:?}"),
    }
}
fn read<T: Archive>(b: &AlignedVec) -> T where Archived<T>: Deserialize<T, SharedDeserializeMap> {
    let mut d = SharedDeserializeMap::new();
    get::<T>(b).deserialize(&mut d).unwrap()
}
fn eq<T: PartialEq + Debug>(a: T, b: T, what: &dyn Fn() -> String) { if a != b { fail!("{}: got {a:?}, expected {b:?}", what()) } }

// -- sets and maps -----------------------------------------------------------------------------
trait Mk: Ord + Clone + Debug + 'static { fn mk(k: u16) -> Self; }
impl Mk for u8 { fn mk(k: u16) -> Self { k as u8 } }
impl Mk for u16 { fn mk(k: u16) -> Self { k } }
impl Mk for i32 { fn mk(k: u16) -> Self { if k & 2 == 0 { -(k as i32) << 9 } else { (k as i32) << 9 } } }
impl Mk for u64 { fn mk(k: u16) -> Self { ((k % 7) as u64) << 60 | k as u64 } }
impl Mk for u128 { fn mk(k: u16) -> Self { ((k % 7) as u128) << 120 | k as u128 } }
impl Mk for char { fn mk(k: u16) -> Self { char::from_u32(k as u32 * 97).unwrap() } }
impl Mk for bool { fn mk(k: u16) -> Self { k & 2 == 0 } }
impl Mk for (u8, u64) { fn mk(k: u16) -> Self { ((k / 4) as u8, (k % 4) as u64) } }
impl Mk for () { fn mk(_: u16) -> Self {} }
impl Mk for String { fn mk(k: u16) -> Self { "xyzé".repeat(k as usize / 5) + &k.to_string() } }

fn padded(i: u64) -> usize { [0, 1, 16, 37][(i % 4) as usize] }

macro_rules! set_view_space { ($T:ty, $a:expr) => {{
    let a: Atoms = $a;
    let n = a.masks();
    let b = a.clone();
    idx(format!("set-view-{}-{:?}", stringify!($T), a.w), format!("all pairs of sets of {} whose elements are unions of blocks of sizes {:?}: archived at 4 positions, all queries, as left and right operand, deserialised", stringify!($T), a.w), n * n,
        move |i, cx| {
            let (x, y) = (i / n, i % n);
            let mk = |m: u64| a.elems(m).into_iter().map(<$T>::mk).collect::<VecSet<[$T; 4]>>();
            let (s, o) = (mk(x), mk(y));
            let (sb, ob) = (put(&s, padded(x)), put(&o, padded(y + 1)));
            let (v, w) = (get::<VecSet<[$T; 4]>>(&sb), get::<VecSet<[$T; 4]>>(&ob));
            if y == 0 {
                valid::<VecSet<[$T; 4]>>(&sb, "set");
                eq(AbstractVecSet::as_slice(v).to_vec(), s.as_ref().to_vec(), &|| "elements of the archived set".into());
                eq(AbstractVecSet::iter(v).cloned().collect::<Vec<_>>(), s.iter().cloned().collect(), &|| "iteration of the archived set".into());
                eq(AbstractVecSet::is_empty(v), s.is_empty(), &|| "is_empty".into());
                for p in a.probes() { let p = <$T>::mk(p); eq(AbstractVecSet::contains(v, &p), s.iter().any(|e| *e == p), &|| format!("contains {p:?}")) }
                eq(read::<VecSet<[$T; 4]>>(&sb), s.clone(), &|| "deserialised, capacity 4".into());
                let b1 = put(&s.iter().cloned().collect::<VecSet<[$T; 1]>>(), 0);
                eq(read::<VecSet<[$T; 1]>>(&b1).as_ref().to_vec(), s.as_ref().to_vec(), &|| "deserialised, capacity 1".into());
                let r: VecSet<[$T; 64]> = get::<VecSet<[$T; 1]>>(&b1).deserialize(&mut rkyv::Infallible).unwrap();
                eq(r.as_ref().to_vec(), s.as_ref().to_vec(), &|| "deserialised, capacity 64".into());
                cx.ops(8);
            }
            type S = VecSet<[$T; 4]>;
            eq([v.is_subset(w), v.is_superset(w), v.is_disjoint(w), v.is_subset(&o), v.is_superset(&o), v.is_disjoint(&o), s.is_subset(w), s.is_superset(w), s.is_disjoint(w)],
               { let r = [AbstractVecSet::is_subset(&s, &o), AbstractVecSet::is_superset(&s, &o), AbstractVecSet::is_disjoint(&s, &o)]; [r[0], r[1], r[2], r[0], r[1], r[2], r[0], r[1], r[2]] }, &|| "comparisons".into());
            let want: [S; 4] = [&s | &o, &s & &o, &s ^ &o, &s - &o];
            eq([v.union::<[$T; 4]>(w), v.intersection::<[$T; 4]>(w), v.symmetric_difference::<[$T; 4]>(w), v.difference::<[$T; 4]>(w)], want.clone(), &|| "archived with archived: union, intersection, symmetric difference, difference".into());
            eq([v.union::<[$T; 4]>(&o), v.intersection::<[$T; 4]>(&o), v.symmetric_difference::<[$T; 4]>(&o), v.difference::<[$T; 4]>(&o)], want.clone(), &|| "archived with original: union, intersection, symmetric difference, difference".into());
            eq([s.union(w), s.intersection(w), s.symmetric_difference(w), s.difference(w)], want.clone(), &|| "original with archived: union, intersection, symmetric difference, difference".into());
            let m = |f: &dyn Fn(&mut S)| { let mut c = s.clone(); f(&mut c); c };
            eq([m(&|c| c.union_with(w)), m(&|c| c.intersection_with(w)), m(&|c| c.xor_with(w)), m(&|c| c.difference_with(w))], want, &|| "in place with archived: union, intersection, xor, difference".into());
            cx.ops(25);
            cx.nontrivial_if(x != y && x & y != 0);
            cx.outcome((x, y));
        },
        move |i| format!("{:?} and {:?}", b.elems(i / n), b.elems(i % n)))
}} }
macro_rules! map_view_space { ($K:ty, $V:ty, $a:expr) => {{
    let a: Atoms = $a;
    let n = a.masks();
    let b = a.clone();
    idx(format!("map-view-{}-{}-{:?}", stringify!($K), stringify!($V), a.w), format!("all pairs of maps from {} to {} whose keys are unions of blocks of sizes {:?}: archived at 4 positions, lookups, iteration, joins as left and right operand, deserialised", stringify!($K), stringify!($V), a.w), n * n,
        move |i, cx| {
            let (x, y) = (i / n, i % n);
            type M = VecMap<[($K, $V); 4]>;
            let mk = |m: u64, t: u16| a.elems(m).into_iter().map(|k| (<$K>::mk(k), <$V>::mk(k + t))).collect::<M>();
            let (s, o) = (mk(x, 0), mk(y, 4));
            let (sb, ob) = (put(&s, padded(x)), put(&o, padded(y + 1)));
            let (v, w) = (get::<M>(&sb), get::<M>(&ob));
            if y == 0 {
                valid::<M>(&sb, "map");
                eq(AbstractVecMap::as_slice(v).to_vec(), s.as_ref().to_vec(), &|| "mappings of the archived map".into());
                eq(v.iter().map(|(k, v)| (k.clone(), v.clone())).collect::<Vec<_>>(), s.as_ref().to_vec(), &|| "iteration of the archived map".into());
                eq(AbstractVecMap::is_empty(v), s.is_empty(), &|| "is_empty".into());
                for p in a.probes() { let p = <$K>::mk(p); eq(v.get(&p), s.as_ref().iter().find(|e| e.0 == p).map(|e| &e.1), &|| format!("get {p:?}")) }
                eq(read::<M>(&sb), s.clone(), &|| "deserialised, capacity 4".into());
                let b1 = put(&s.as_ref().iter().cloned().collect::<VecMap<[($K, $V); 1]>>(), 0);
                eq(read::<VecMap<[($K, $V); 1]>>(&b1).as_ref().to_vec(), s.as_ref().to_vec(), &|| "deserialised, capacity 1".into());
                let r: VecMap<[($K, $V); 64]> = get::<VecMap<[($K, $V); 1]>>(&b1).deserialize(&mut rkyv::Infallible).unwrap();
                eq(r.as_ref().to_vec(), s.as_ref().to_vec(), &|| "deserialised, capacity 64".into());
                cx.ops(8);
            }
            fn all<X: AbstractVecMap<$K, $V>, Y: AbstractVecMap<$K, $V>>(x: &X, y: &Y) -> [Vec<($K, (Option<$V>, Option<$V>))>; 4] {
                type A = [($K, (Option<$V>, Option<$V>)); 2];
                [x.outer_join::<_, _, _, A>(y, |a| Some(match a { OuterJoinArg::Left(_, v) => (Some(v.clone()), None), OuterJoinArg::Right(_, w) => (None, Some(w.clone())), OuterJoinArg::Both(_, v, w) => (Some(v.clone()), Some(w.clone())) })).as_ref().to_vec(),
                 x.left_join::<_, _, _, A>(y, |_, v, w| Some((Some(v.clone()), w.cloned()))).as_ref().to_vec(),
                 x.right_join::<_, _, _, A>(y, |_, v, w| Some((v.cloned(), Some(w.clone())))).as_ref().to_vec(),
                 x.inner_join::<_, _, _, A>(y, |_, v, w| Some((Some(v.clone()), Some(w.clone())))).as_ref().to_vec()]
            }
            let want = all(&s, &o);
            eq(all(v, w), want.clone(), &|| "archived joined with archived (outer, left, right, inner)".into());
            eq(all(v, &o), want.clone(), &|| "archived joined with original".into());
            eq(all(&s, w), want, &|| "original joined with archived".into());
            cx.ops(12);
            cx.nontrivial_if(x != y && x & y != 0);
            cx.outcome((x, y));
        },
        move |i| format!("{:?} and {:?}", b.elems(i / n), b.elems(i % n)))
}} }
/// out-of-line data: read back through deserialisation, viewed through the archived strings
fn strings(a: Atoms) -> Box<dyn Space> {
    let n = a.masks();
    let b = a.clone();
    idx(format!("strings-{:?}", a.w), format!("every set of strings and map between strings over blocks of sizes {:?}, archived at 4 positions and read back; long and empty strings", a.w), n,
        move |i, cx| {
            let els: Vec<String> = a.elems(i).into_iter().map(String::mk).collect();
            let s: VecSet<[String; 2]> = els.iter().cloned().collect();
            let m: VecMap<[(String, String); 2]> = els.iter().map(|e| (e.clone(), e.chars().rev().collect())).collect();
            let (bs, bm) = (put(&s, padded(i)), put(&m, padded(i + 2)));
            eq(read::<VecSet<[String; 2]>>(&bs), s.clone(), &|| "set".into());
            eq(read::<VecMap<[(String, String); 2]>>(&bm), m.clone(), &|| "map".into());
            let v = get::<VecSet<[String; 2]>>(&bs);
            eq(AbstractVecSet::iter(v).map(|e| e.as_str().to_string()).collect::<Vec<_>>(), s.iter().cloned().collect(), &|| "iteration of the archived set".into());
            for e in AbstractVecSet::iter(v) { ensure!(AbstractVecSet::contains(v, e), "archived set does not contain {e:?}") }
            ensure!(v.is_subset(v) && v.is_superset(v), "the archived set is not a subset of itself");
            let w = get::<VecMap<[(String, String); 2]>>(&bm);
            eq(w.iter().map(|(k, v)| (k.as_str().to_string(), v.as_str().to_string())).collect::<Vec<_>>(), m.as_ref().to_vec(), &|| "iteration of the archived map".into());
            for k in a.probes() { let k = String::mk(k); eq(w.get(k.as_str()).map(|v| v.as_str()), m.get(&k).map(|v| v.as_str()), &|| format!("get {k:?}")) }
            // nested collections
            let mut ns: VecMap<[(u32, VecSet<[u64; 2]>); 1]> = VecMap::default();
            for (j, e) in els.iter().enumerate() { ns.insert(e.len() as u32, (0..j as u64).map(|x| x << 40).collect()); }
            let nb = put(&ns, padded(i + 1));
            eq(read::<VecMap<[(u32, VecSet<[u64; 2]>); 1]>>(&nb), ns.clone(), &|| "map of sets".into());
            for (k, v) in get::<VecMap<[(u32, VecSet<[u64; 2]>); 1]>>(&nb).iter() { eq(AbstractVecSet::as_slice(v).to_vec(), ns.get(k).unwrap().as_ref().to_vec(), &|| "archived set in an archived map".into()) }
            cx.ops(7);
            cx.nontrivial_if(els.len() > 1);
            cx.outcome(&els);
        },
        move |i| format!("{:?}", b.elems(i)))
}

// -- radix trees -------------------------------------------------------------------------------
trait RK: TKey { fn k(b: u8) -> Self; }
impl RK for u8 { fn k(b: u8) -> Self { b } }
impl RK for u16 { fn k(b: u8) -> Self { (b as u16) << 8 | 7 } }
impl RK for i32 { fn k(b: u8) -> Self { b as i32 - 3 } }
impl RK for u64 { fn k(b: u8) -> Self { (b as u64) << 56 | 1 } }
impl RK for char { fn k(b: u8) -> Self { char::from_u32(b as u32 * 200).unwrap() } }
trait RV: TValue + PartialEq + Archive<Archived = Self> { fn v(i: u16) -> Self; }
impl RV for () { fn v(_: u16) -> Self {} }
impl RV for u8 { fn v(i: u16) -> Self { i as u8 } }
impl RV for u16 { fn v(i: u16) -> Self { i } }
impl RV for u64 { fn v(i: u16) -> Self { (i as u64) << 48 | i as u64 } }
impl RV for u128 { fn v(i: u16) -> Self { (i as u128) << 112 | i as u128 } }
impl RV for (u8, u64) { fn v(i: u16) -> Self { (i as u8, i as u64) } }
impl RV for bool { fn v(i: u16) -> Self { i & 1 == 1 } }

fn keys_of<K: RK>(u: &Uni) -> Vec<Vec<K>> { u.keys.iter().map(|k| k.iter().map(|b| K::k(*b)).collect()).collect() }
fn tree<K: TKey, W: TValue, T: AbstractRadixTreeMut<K, W>>(keys: &[Vec<K>], u: &Uni, i: u64, v: impl Fn(u16) -> W) -> T {
    let mut t = T::empty();
    for k in &u.subsets[i as usize] { t.insert(&keys[*k as usize], v(*k)) }
    t
}
/// every answer a tree gives
#[derive(PartialEq, Debug)]
struct Answers<K, W> { empty: bool, iter: Vec<(Vec<K>, W)>, values: Vec<W>, gets: Vec<Option<W>>, has: Vec<bool>, scans: Vec<Vec<(Vec<K>, W)>> }
fn answers<K: TKey, W: TValue, T: AbstractRadixTree<K, W>>(t: &T, probes: &[Vec<K>]) -> Answers<K, W> {
    Answers {
        empty: t.is_empty(),
        iter: t.iter().map(|(k, v)| (k.to_vec(), v.clone())).collect(),
        values: t.values().cloned().collect(),
        gets: probes.iter().map(|p| t.get(p).cloned()).collect(),
        has: probes.iter().map(|p| t.contains_key(p)).collect(),
        scans: probes.iter().map(|p| t.scan_prefix(p).map(|(k, v)| (k.to_vec(), v.clone())).collect()).collect(),
    }
}
fn ents<K: TKey, W: TValue, T: AbstractRadixTree<K, W>>(t: &T) -> Vec<(Vec<K>, W)> { t.iter().map(|(k, v)| (k.to_vec(), v.clone())).collect() }
/// the raw structure: prefixes, values and children
fn shape<K: TKey, W: TValue, T: AbstractRadixTree<K, W>>(t: &T, out: &mut Vec<(Vec<K>, Option<W>, usize)>) {
    out.push((t.prefix().to_vec(), t.value().cloned(), t.children().len()));
    for c in t.children() { shape(c, out) }
}
fn shape_of<K: TKey, W: TValue, T: AbstractRadixTree<K, W>>(t: &T) -> Vec<(Vec<K>, Option<W>, usize)> { let mut v = vec![]; shape(t, &mut v); v }

fn radix_unary<K: RK, W: RV>(u: Uni, ty: &'static str) -> Box<dyn Space>
where for<'a> K: bytecheck::CheckBytes<DefaultValidator<'a>>, for<'a> W: bytecheck::CheckBytes<DefaultValidator<'a>>,
      K: Serialize<AllocSerializer<256>> + Deserialize<K, SharedDeserializeMap>, W: Serialize<AllocSerializer<256>> + Deserialize<W, SharedDeserializeMap> {
    let u = Arc::new(u);
    let u2 = u.clone();
    let keys = keys_of::<K>(&u);
    let mut probes = keys.clone();
    for k in &keys { for x in [0u8, 1, 255] { let mut p = k.clone(); p.push(K::k(x)); probes.push(p); if !k.is_empty() { let mut p = k.clone(); *p.last_mut().unwrap() = K::k(x); probes.push(p) } } }
    probes.sort();
    probes.dedup();
    idx(format!("tree-{ty}-{}", u.name), format!("{}; {ty}: flat, shared and lazy tree archived at 4 positions, validated, every query on the view, deserialised and converted", u.about()), u.len(),
        move |i, cx| {
            let flat: RadixTree<K, W> = tree(&keys, &u, i, W::v);
            let arc: ArcRadixTree<K, W> = tree(&keys, &u, i, W::v);
            let lazy = LazyRadixTree::<K, W>::from(flat.clone());
            let want = answers(&flat, &probes);
            let (bf, ba, bl) = (put(&flat, padded(i)), put(&arc, padded(i + 1)), put(&lazy, padded(i + 2)));
            let (f, a, l) = (get::<RadixTree<K, W>>(&bf), get::<ArcRadixTree<K, W>>(&ba), get::<LazyRadixTree<K, W>>(&bl));
            valid::<RadixTree<K, W>>(&bf, "flat tree");
            valid::<ArcRadixTree<K, W>>(&ba, "shared tree");
            let same = |got: Answers<K, W>, what: &str| if got != want { fail!("{what}: {got:?}\noriginal: {want:?}") };
            same(answers(f, &probes), "archived flat tree");
            same(answers(a, &probes), "archived shared tree");
            same(answers(l, &probes), "archived lazy tree");
            let sh = shape_of(&flat);
            let shp = |got: Vec<(Vec<K>, Option<W>, usize)>, what: &str| if got != sh { fail!("{what}: structure {got:?}, expected {sh:?}") };
            shp(shape_of(f), "archived flat tree");
            shp(shape_of(a), "archived shared tree");
            shp(shape_of(l), "archived lazy tree");
            let r = read::<RadixTree<K, W>>(&bf);
            ensure!(r == flat, "deserialised flat tree {r:?} differs from {flat:?}");
            shp(shape_of(&read::<ArcRadixTree<K, W>>(&ba)), "deserialised shared tree");
            shp(shape_of(&ArcRadixTree::<K, W>::from(a)), "converted shared tree");
            shp(shape_of(&LazyRadixTree::<K, W>::from(l)), "converted lazy tree");
            same(answers(&LazyRadixTree::<K, W>::from(l), &probes), "converted lazy tree");
            // what was read back can be archived again and stays mutable
            let mut r = read::<ArcRadixTree<K, W>>(&ba);
            let again = put(&r, 0);
            shp(shape_of(get::<ArcRadixTree<K, W>>(&again)), "archived again");
            let lz = LazyRadixTree::<K, W>::from(l);
            let again = put(&lz, 3);
            shp(shape_of(get::<LazyRadixTree<K, W>>(&again)), "lazy tree archived again");
            let (mut g, mut lz) = (flat.clone(), lz);
            for (j, p) in probes.iter().enumerate().step_by(5) { g.insert(p, W::v(j as u16)); r.insert(p, W::v(j as u16)); lz.insert(p, W::v(j as u16)) }
            let sg = shape_of(&g);
            ensure!(shape_of(&r) == sg && shape_of(&lz) == sg, "insertions into the tree read back differ");
            shp(shape_of(a), "archived shared tree after mutation of its copies");
            cx.ops(18);
            cx.nontrivial_if(sh.len() > 2);
            cx.outcome(sh.len());
        },
        move |i| u2.show(i))
}
/// values with out-of-line data
fn radix_strings(u: Uni) -> Box<dyn Space> {
    let u = Arc::new(u);
    let u2 = u.clone();
    idx(format!("tree-u8-String-{}", u.name), format!("{}; string values: flat and shared tree validated and deserialised", u.about()), u.len(),
        move |i, cx| {
            let v = |k: u16| "pqé".repeat(k as usize) + &k.to_string();
            let flat: RadixTree<u8, String> = tree(&u.keys, &u, i, v);
            let arc: ArcRadixTree<u8, String> = tree(&u.keys, &u, i, v);
            let set: RadixTree<u8, Option<Box<str>>> = tree(&u.keys, &u, i, |k| if k & 1 == 0 { Some(v(k).into_boxed_str()) } else { None });
            let (bf, ba, bs) = (put(&flat, padded(i)), put(&arc, padded(i + 1)), put(&set, padded(i + 2)));
            valid::<RadixTree<u8, String>>(&bf, "flat tree");
            valid::<ArcRadixTree<u8, String>>(&ba, "shared tree");
            valid::<RadixTree<u8, Option<Box<str>>>>(&bs, "flat tree of optional strings");
            ensure!(read::<RadixTree<u8, String>>(&bf) == flat, "deserialised flat tree differs");
            ensure!(read::<RadixTree<u8, Option<Box<str>>>>(&bs) == set, "deserialised flat tree of optional strings differs");
            let r = read::<ArcRadixTree<u8, String>>(&ba);
            ensure!(shape_of(&r) == shape_of(&flat), "deserialised shared tree differs");
            cx.ops(6);
            cx.nontrivial_if(u.subsets[i as usize].len() > 1);
            cx.outcome(i);
        },
        move |i| u2.show(i))
}
/// archived trees as operands
fn radix_pairs(u: Uni) -> Box<dyn Space> {
    type F = RadixTree<u8, u16>;
    type A = ArcRadixTree<u8, u16>;
    type Z = LazyRadixTree<'static, u8, u16>;
    struct P { f: F, a: A, bf: AlignedVec, ba: AlignedVec, bl: AlignedVec }
    let u = Arc::new(u);
    let u2 = u.clone();
    let n = u.len();
    let pre: Arc<Vec<P>> = Arc::new((0..n).map(|i| { let f: F = tree(&u.keys, &u, i, |k| 100 + k); let a: A = tree(&u.keys, &u, i, |k| 100 + k); P { bf: put(&f, 0), ba: put(&a, 0), bl: put(&Z::from(f.clone()), 0), f, a } }).collect());
    type Res = Vec<Vec<(Vec<u8>, u16)>>;
    fn go<X: AbstractRadixTree<u8, u16>, Y: AbstractRadixTree<u8, u16>>(x: &X, y: &Y) -> (Res, [bool; 4]) {
        let own = x.inner_combine(x, |a, _| Some(*a));
        let (mut fi, mut fd, mut fl) = (x.inner_combine(x, |a, _| Some(*a)), x.inner_combine(x, |a, _| Some(*a)), x.inner_combine(x, |a, _| Some(*a)));
        fi.inner_combine_with(y, |l, r| { *l = l.wrapping_mul(3).wrapping_add(*r); *l % 2 == 0 });
        fd.difference_with(y);
        fl.left_combine_with(y, |l, r| { *l = l.wrapping_mul(3).wrapping_add(*r); *l % 2 == 0 });
        let i = x.inner_combine(y, |l, r| Some(l.wrapping_mul(3).wrapping_add(*r)));
        let l = x.left_combine(y, |l, r| match r { None => Some(*l), Some(r) if r % 2 == 0 => Some(l.wrapping_add(*r)), _ => None });
        (vec![ents(&fi), ents(&fd), ents(&fl), ents(&i), ents(&l), dump(&own).unwrap()], [x.is_subset(y), x.is_superset(y), x.is_disjoint(y), x.intersects(y)])
    }
    fn outer<X: AbstractRadixTree<u8, u16>, Y: AbstractRadixTree<u8, u16, Materialized = X::Materialized>>(x: &X, y: &Y) -> Res {
        let mut own = x.inner_combine(x, |a, _| Some(*a));
        let o = x.outer_combine(y, |l, r| { let v = l.wrapping_mul(3).wrapping_add(*r); if v % 3 != 0 { Some(v) } else { None } });
        own.outer_combine_with(y, |l, r| { *l = l.wrapping_mul(3).wrapping_add(*r); *l % 3 != 0 });
        vec![ents(&o), ents(&own)]
    }
    idx(format!("tree-pairs-{}", u.name), format!("{}; all pairs: every comparison and combination with an archived tree of each flavour on the left, on the right, or on both sides", u.about()), n * n,
        move |i, cx| {
            let (x, y) = (&pre[(i / n) as usize], &pre[(i % n) as usize]);
            let want = go(&x.f, &y.f);
            let (xf, xa, xl) = (get::<F>(&x.bf), get::<A>(&x.ba), get::<Z>(&x.bl));
            let (yf, ya, yl) = (get::<F>(&y.bf), get::<A>(&y.ba), get::<Z>(&y.bl));
            let c = |got: (Res, [bool; 4]), what: &str| if got != want { fail!("{what}: {got:?}\nwith the originals: {want:?}") };
            let wo = outer(&x.f, &y.f);
            let o = |got: Res, what: &str| if got != wo { fail!("outer combinations, {what}: {got:?}\nwith the originals: {wo:?}") };
            o(outer(xf, yf), "archived flat with archived flat");
            o(outer(&x.f, yf), "flat with archived flat");
            o(outer(xf, &y.f), "archived flat with flat");
            o(outer(xa, ya), "archived shared with archived shared");
            o(outer(&x.a, ya), "shared with archived shared");
            o(outer(xa, &y.a), "archived shared with shared");
            o(outer(xl, yl), "archived lazy with archived lazy");
            o(outer(&Z::from(x.f.clone()), yl), "lazy with archived lazy");
            o(outer(xl, &Z::from(y.f.clone())), "archived lazy with lazy");
            c(go(xf, yf), "archived flat with archived flat");
            c(go(&x.f, yf), "flat with archived flat");
            c(go(xf, &y.a), "archived flat with shared");
            c(go(xa, ya), "archived shared with archived shared");
            c(go(&x.a, ya), "shared with archived shared");
            c(go(xa, yl), "archived shared with archived lazy");
            c(go(xl, yf), "archived lazy with archived flat");
            c(go(xl, &y.f), "archived lazy with flat");
            cx.ops(98);
            cx.nontrivial_if(!want.1[0] && !want.1[1] && want.1[3]);
            cx.outcome(&want.1);
        },
        move |i| format!("{} | {}", u2.show(i / n), u2.show(i % n)))
}
/// one archive with several trees that share subtrees, within and across trees
fn shared_forest(u: Uni) -> Box<dyn Space> {
    type A = ArcRadixTree<u8, u16>;
    let u = Arc::new(u);
    let u2 = u.clone();
    let n = u.len();
    idx(format!("forest-{}", u.name), format!("{}; all pairs (x, y): one archive with x, clones of x, a tree with two copies of x below different prefixes, x with y merged in, and subtrees of it by prefix; validated, viewed, deserialised, converted", u.about()), n * n,
        move |i, cx| {
            let a: A = tree(&u.keys, &u, i / n, |k| k);
            let b: A = tree(&u.keys, &u, i % n, |k| 50 + k);
            let mut twin = a.clone();
            twin.prepend(&[9]);
            let mut other = a.clone();
            other.prepend(&[9, 9, 1]);
            twin.union_with(&other);
            twin.union_with(&b);
            let mut merged = a.clone();
            merged.union_with(&b);
            let mut less = merged.clone();
            less.difference_with(&a);
            let forest = vec![a.clone(), twin.clone(), a.clone(), twin.filter_prefix(&[9, 9]), merged, twin.filter_prefix(&[9]), less, A::empty(), b];
            let want: Vec<_> = forest.iter().map(|t| { let mut f: RadixTree<u8, u16> = RadixTree::empty(); for (k, v) in ents(t) { f.insert(&k, v) } (ents(&f), shape_of(&f)) }).collect();
            let bytes = put(&forest, padded(i));
            valid::<Vec<A>>(&bytes, "forest");
            let v = get::<Vec<A>>(&bytes);
            let r = read::<Vec<A>>(&bytes);
            ensure!(v.len() == forest.len() && r.len() == forest.len(), "wrong number of trees");
            for (j, w) in want.iter().enumerate() {
                let c = |got: (Vec<(Vec<u8>, u16)>, Vec<(Vec<u8>, Option<u16>, usize)>), what: &str| if got != *w { fail!("tree {j} {what}: {got:?}, expected {w:?}") };
                c((ents(&forest[j]), shape_of(&forest[j])), "before archiving");
                c((ents(&v[j]), shape_of(&v[j])), "viewed");
                c((ents(&r[j]), shape_of(&r[j])), "deserialised");
                let conv = A::from(&v[j]);
                c((ents(&conv), shape_of(&conv)), "converted");
            }
            // what was deserialised may share nodes: mutating one must not show in another
            let mut r = r;
            r[0].insert(&[9, 9], 999);
            r[1].insert(&[9, 9, 1], 998);
            let mut keep = a.clone();
            keep.insert(&[9, 9], 999);
            ensure!(ents(&r[0]) == ents(&keep), "insertion into a deserialised tree");
            for j in 2..want.len() { ensure!(ents(&r[j]) == want[j].0, "mutating other deserialised trees changed tree {j}") }
            cx.ops(4 * want.len() as u64);
            cx.nontrivial_if(want[4].1.len() > 3);
            cx.outcome(&want[1].1.len());
        },
        move |i| format!("{} | {}", u2.show(i / n), u2.show(i % n)))
}
/// trees (and sets) of different types next to each other in one archive
#[derive(Archive, Serialize, Deserialize)]
#[archive_attr(derive(bytecheck::CheckBytes))]
struct Record<A, B, C, D> { a: A, b: B, c: C, d: D }
fn record<A: RV, B: RV, C: RV>(u: Uni, ty: &'static str) -> Box<dyn Space>
where for<'a> A: bytecheck::CheckBytes<DefaultValidator<'a>>, for<'a> B: bytecheck::CheckBytes<DefaultValidator<'a>>, for<'a> C: bytecheck::CheckBytes<DefaultValidator<'a>>,
      A: Serialize<AllocSerializer<256>> + Deserialize<A, SharedDeserializeMap>, B: Serialize<AllocSerializer<256>> + Deserialize<B, SharedDeserializeMap>, C: Serialize<AllocSerializer<256>> + Deserialize<C, SharedDeserializeMap> {
    let u = Arc::new(u);
    let u2 = u.clone();
    let n = u.len();
    let wide = keys_of::<u64>(&u);
    idx(format!("record-{ty}-{}", u.name), format!("{}; all pairs (x, y): a record of shared trees of key and value types {ty}, of a flat tree or a lazy tree and of a set in one archive; validated, viewed, deserialised, converted, changed", u.about()), n * n,
        move |i, cx| {
            let (x, y) = (i / n, i % n);
            let a: ArcRadixTree<u8, A> = tree(&u.keys, &u, x, A::v);
            let b: ArcRadixTree<u8, B> = tree(&u.keys, &u, y, B::v);
            let c: ArcRadixTree<u64, C> = tree(&wide, &u, x, C::v);
            let s: VecSet<[u64; 2]> = u.subsets[y as usize].iter().map(|k| *k as u64).collect();
            let flat: RadixTree<u8, B> = tree(&u.keys, &u, x, B::v);
            type R1<A, B, C> = Record<ArcRadixTree<u8, A>, ArcRadixTree<u8, B>, ArcRadixTree<u64, C>, RadixTree<u8, B>>;
            type R2<A, B, C> = Record<VecSet<[u64; 2]>, ArcRadixTree<u64, C>, ArcRadixTree<u8, B>, ArcRadixTree<u8, A>>;
            type R3<A, B> = Record<LazyRadixTree<'static, u8, A>, LazyRadixTree<'static, u8, B>, VecSet<[u64; 2]>, ArcRadixTree<u8, B>>;
            let (wa, wb, wc, wf) = (shape_of(&a), shape_of(&b), shape_of(&c), shape_of(&flat));
            let la = LazyRadixTree::<u8, A>::from(tree::<u8, A, RadixTree<u8, A>>(&u.keys, &u, x, A::v));
            let lb = LazyRadixTree::<u8, B>::from(flat.clone());
            let b1 = put(&R1::<A, B, C> { a: a.clone(), b: b.clone(), c: c.clone(), d: flat.clone() }, padded(i));
            let b2 = put(&R2::<A, B, C> { a: s.clone(), b: c.clone(), c: b.clone(), d: a.clone() }, padded(i + 1));
            let b3 = put(&R3::<A, B> { a: la, b: lb, c: s.clone(), d: b.clone() }, padded(i + 2));
            valid::<R1<A, B, C>>(&b1, "record of trees");
            valid::<R2<A, B, C>>(&b2, "record of a set and trees");
            let (v1, v2, v3) = (get::<R1<A, B, C>>(&b1), get::<R2<A, B, C>>(&b2), get::<R3<A, B>>(&b3));
            ensure!(shape_of(&v1.a) == wa && shape_of(&v1.b) == wb && shape_of(&v1.c) == wc && shape_of(&v1.d) == wf, "viewed record of trees differs");
            ensure!(v2.a.iter().eq(s.iter()) && shape_of(&v2.b) == wc && shape_of(&v2.c) == wb && shape_of(&v2.d) == wa, "viewed record of a set and trees differs");
            ensure!(shape_of(&v3.a) == wa && shape_of(&v3.b) == wf && v3.c.iter().eq(s.iter()) && shape_of(&v3.d) == wb, "viewed record of lazy trees differs");
            let mut r = read::<R1<A, B, C>>(&b1);
            ensure!(shape_of(&r.a) == wa && shape_of(&r.b) == wb && shape_of(&r.c) == wc && shape_of(&r.d) == wf, "deserialised record of trees differs");
            let t = read::<R2<A, B, C>>(&b2);
            ensure!(t.a == s && shape_of(&t.b) == wc && shape_of(&t.c) == wb && shape_of(&t.d) == wa, "deserialised record of a set and trees differs");
            ensure!(shape_of(&ArcRadixTree::from(&v1.a)) == wa && shape_of(&ArcRadixTree::from(&v1.c)) == wc && shape_of(&LazyRadixTree::from(&v3.b)) == wf, "converted trees differ");
            // they do not influence each other when changed, nor when dropped
            r.a.insert(&[2, 2, 2], A::v(77));
            let (mut b, mut c) = (r.b.clone(), r.c.clone());
            drop(r);
            b.insert(&[2, 2, 2], B::v(78));
            c.insert(&[1, 2, 3], C::v(79));
            ensure!(b.get(&[2, 2, 2]) == Some(&B::v(78)) && c.get(&[1, 2, 3]) == Some(&C::v(79)) && ents(&b).len() >= ents(&t.c).len() && shape_of(&t.c) == wb, "changing a deserialised tree");
            cx.ops(14);
            cx.nontrivial_if(wa.len() > 1 && wb.len() > 1);
            cx.outcome(&(wa.len(), wb.len()));
        },
        move |i| format!("{} | {}", u2.show(i / n), u2.show(i % n)))
}
/// trees can be values of trees in a type of the user's that is Debug
#[derive(Archive, Serialize, Deserialize, Clone)]
#[archive_attr(derive(bytecheck::CheckBytes))]
struct Held<T>(T);
impl<T> Debug for Held<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("a tree") } }
/// collections as values of collections
fn nested_values(u: Uni) -> Box<dyn Space> {
    type Inner = ArcRadixTree<u8, u16>;
    type S = VecSet<[u64; 2]>;
    type M = VecMap<[(u8, Inner); 1]>;
    type L = LazyRadixTree<'static, u8, u16>;
    let u = Arc::new(u);
    let u2 = u.clone();
    let n = u.len();
    idx(format!("nested-values-{}", u.name), format!("{}; all pairs (x, y): flat and shared trees with the keys of x whose values are shared trees, flat trees, sets and maps made of parts of y; a map of trees; validated, viewed, deserialised", u.about()), n * n,
        move |i, cx| {
            let (x, y) = (i / n, i % n);
            let base: Inner = tree(&u.keys, &u, y, |k| k);
            // values that share nodes with each other, and empty ones
            let part = |k: u16| -> Inner { let mut t = match k % 4 { 0 => base.clone(), 1 => base.filter_prefix(&u.keys[k as usize % u.keys.len()]), 2 => Inner::empty(), _ => { let mut t = base.clone(); t.insert(&[k as u8], 900 + k); t } }; if k % 3 == 0 { t.prepend(&[7]) } t };
            let set = |k: u16| -> S { u.subsets[y as usize].iter().take(k as usize).map(|e| (*e as u64) << 40).collect() };
            let map = |k: u16| -> M { (0..k % 3).map(|j| (j as u8, part(k + j))).collect() };
            let fl = |k: u16| -> RadixTree<u8, u16> { let mut f = RadixTree::empty(); for (key, v) in part(k).iter() { f.insert(&key, *v) } f };
            let want: Vec<(Vec<u8>, u16)> = { let mut v: Vec<_> = u.subsets[x as usize].iter().map(|k| (u.keys[*k as usize].clone(), *k)).collect(); v.sort(); v };
            macro_rules! check { ($Tree:ident, $V:ty, $mk:expr, $same:expr, $what:expr) => {{
                let mk = $mk;
                let t: $Tree<u8, $V> = tree(&u.keys, &u, x, mk);
                let b = put(&t, padded(i));
                valid::<$Tree<u8, $V>>(&b, $what);
                let r = read::<$Tree<u8, $V>>(&b);
                ensure!(r.iter().count() == want.len(), "{}: wrong number of mappings", $what);
                for (k, j) in &want { let (got, w) = (r.get(k), mk(*j)); ensure!(got.map_or(false, |g| $same(g, &w)), "{}: value of {k:?}: {got:?}, expected {w:?}", $what) }
                cx.ops(1);
            }} }
            let same_tree = |a: &Inner, b: &Inner| shape_of(a) == shape_of(b);
            check!(RadixTree, Held<Inner>, |k| Held(part(k)), |a: &Held<Inner>, b: &Held<Inner>| same_tree(&a.0, &b.0), "flat tree of shared trees");
            check!(ArcRadixTree, Held<Inner>, |k| Held(part(k)), |a: &Held<Inner>, b: &Held<Inner>| same_tree(&a.0, &b.0), "shared tree of shared trees");
            check!(RadixTree, RadixTree<u8, u16>, fl, |a: &RadixTree<u8, u16>, b: &RadixTree<u8, u16>| shape_of(a) == shape_of(b), "flat tree of flat trees");
            check!(ArcRadixTree, RadixTree<u8, u16>, fl, |a: &RadixTree<u8, u16>, b: &RadixTree<u8, u16>| shape_of(a) == shape_of(b), "shared tree of flat trees");
            check!(RadixTree, S, set, |a: &S, b: &S| a == b, "flat tree of sets");
            check!(ArcRadixTree, S, set, |a: &S, b: &S| a == b, "shared tree of sets");
            // (the validation of maps wants values that can be archived again, which archived trees can not)
            let t: ArcRadixTree<u8, Held<M>> = tree(&u.keys, &u, x, |k| Held(map(k)));
            let b = put(&t, padded(i));
            let r = read::<ArcRadixTree<u8, Held<M>>>(&b);
            ensure!(r.iter().count() == want.len(), "shared tree of maps of trees: wrong number of mappings");
            for (k, j) in &want { ensure!(r.get(k).map_or(false, |g| { let w = map(*j); g.0.len() == w.len() && g.0.iter().zip(w.iter()).all(|(a, b)| a.0 == b.0 && same_tree(&a.1, &b.1)) }), "shared tree of maps of trees: value of {k:?}") }
            check!(ArcRadixTree, Held<ArcRadixTree<u8, Held<Inner>>>, |k: u16| Held(ArcRadixTree::<u8, Held<Inner>>::single(&[k as u8; 20], Held(part(k)))), |a: &Held<ArcRadixTree<u8, Held<Inner>>>, b: &Held<ArcRadixTree<u8, Held<Inner>>>| a.0.iter().zip(b.0.iter()).all(|(a, b)| *a.0 == *b.0 && same_tree(&a.1 .0, &b.1 .0)) && a.0.iter().count() == b.0.iter().count(), "shared tree of shared trees of shared trees");
            // maps of trees
            let m: VecMap<[(u16, Inner); 2]> = u.subsets[x as usize].iter().map(|k| (*k, part(*k))).collect();
            let b = put(&m, padded(i + 1));
            let (v, r) = (get::<VecMap<[(u16, Inner); 2]>>(&b), read::<VecMap<[(u16, Inner); 2]>>(&b));
            let m2: VecMap<[(u16, L); 2]> = m.iter().map(|(k, t)| { let mut f: RadixTree<u8, u16> = RadixTree::empty(); for (key, v) in t.iter() { f.insert(&key, *v) } (*k, L::from(f)) }).collect();
            let b2 = put(&m2, padded(i + 2));
            let v2 = get::<VecMap<[(u16, L); 2]>>(&b2);
            ensure!(r.len() == m.len() && v.iter().count() == m.len() && v2.iter().count() == m.len(), "map of trees: wrong number of mappings");
            for (k, t) in m.iter() {
                ensure!(same_tree(r.get(k).unwrap(), t), "map of trees: deserialised value of {k}");
                ensure!(shape_of(v.get(k).unwrap()) == shape_of(t), "map of trees: viewed value of {k}");
                ensure!(shape_of(v2.get(k).unwrap()) == shape_of(t) && shape_of(&LazyRadixTree::<u8, u16>::from(v2.get(k).unwrap())) == shape_of(t), "map of lazy trees: value of {k}");
            }
            cx.ops(4);
            cx.nontrivial_if(want.len() > 1 && base.iter().count() > 1);
            cx.outcome(&(want.len(), base.iter().count()));
        },
        move |i| format!("{} | {}", u2.show(i / n), u2.show(i % n)))
}
fn spaces(th: bool) -> Vec<Box<dyn Space>> {
    let d = |q: usize, t| if th { t } else { q };
    let un = Atoms::unit;
    let mut v: Vec<Box<dyn Space>> = vec![
        set_view_space!(u8, un(d(7, 9))), set_view_space!(u16, un(d(8, 10))), set_view_space!(u16, Atoms::new(&[1, 3, 16, 1, 33])), set_view_space!(i32, un(6)),
        set_view_space!(u64, un(d(7, 9))), set_view_space!(u128, un(5)), set_view_space!(char, un(5)), set_view_space!(bool, un(3)), set_view_space!((u8, u64), un(d(5, 7))), set_view_space!((), un(2)),
        map_view_space!(u16, u16, un(d(7, 9))), map_view_space!(u8, u64, un(6)), map_view_space!(u64, u8, un(6)), map_view_space!(u8, u128, un(5)), map_view_space!(char, bool, un(5)),
        map_view_space!(u16, u64, Atoms::new(&[1, 3, 16, 1, 33])), map_view_space!((u8, u64), u8, un(5)), map_view_space!(u32x, (), un(5)),
        strings(un(d(11, 14))), strings(Atoms::new(&[1, 3, 12, 1, 20])),
        radix_unary::<u8, u16>(u_small(), "u8-u16"),
        radix_unary::<u8, u16>(u_mid(d(5, 7)), "u8-u16"),
        radix_unary::<u8, ()>(u_tern(d(4, 6)), "u8-unit"),
        radix_unary::<u8, u8>(u_spine(), "u8-u8"),
        radix_unary::<u8, u16>(u_spine2(), "u8-u16"),
        radix_unary::<u8, u16>(u_letters(d(9, 12) as u8), "u8-u16"),
        radix_unary::<u8, u16>(u_wide(), "u8-u16"),
        radix_unary::<u8, u128>(u_deepwide(), "u8-u128"),
        radix_unary::<u8, u16>(u_scaled(9), "u8-u16"),
        radix_unary::<u8, u64>(u_scaled(17), "u8-u64"),
        radix_unary::<u8, u16>(u_bytes(), "u8-u16"),
        radix_unary::<u16, u8>(u_spine2(), "u16-u8"),
        radix_unary::<i32, u64>(u_mid(d(4, 6)), "i32-u64"),
        radix_unary::<u64, u8>(u_tern(d(3, 5)), "u64-u8"),
        radix_unary::<u64, ()>(u_scaled(9), "u64-unit"),
        radix_unary::<char, (u8, u64)>(u_wide(), "char-pair"),
        radix_unary::<u8, bool>(u_small(), "u8-bool"),
        radix_strings(u_mid(d(5, 7))), radix_strings(u_wide()), radix_strings(u_scaled(9)),
        radix_pairs(u_small()), radix_pairs(u_spine()), radix_pairs(u_mid(2)), radix_pairs(u_wide()), radix_pairs(u_scaled(9)),
        shared_forest(u_small()), shared_forest(u_wide()), shared_forest(u_scaled(9)),
        // large collections
        set_view_space!(u16, Atoms::new(&[1, 64, 130, 257])), set_view_space!(u64, Atoms::new(&[1, 65, 128, 300])), set_view_space!(u16, Atoms::new(&[1, 1000, 1, 3100])), set_view_space!(i32, Atoms::new(&[1, 7, 130, 9])),
        map_view_space!(u16, u16, Atoms::new(&[1, 64, 130, 257])), map_view_space!(u64, u8, Atoms::new(&[1, 65, 128, 300])), map_view_space!(u16, u64, Atoms::new(&[1, 1000, 1, 3100])),
        strings(Atoms::new(&[1, 64, 130, 257])),
        radix_unary::<u8, u16>(u_fan(0, if th { &FAN } else { &FAN_SHORT }), "u8-u16"), radix_unary::<u8, u64>(u_fan(2, if th { &FAN } else { &FAN_SHORT }), "u8-u64"),
        radix_unary::<u8, ()>(u_fan(1, &FAN_SHORT), "u8-unit"), radix_unary::<char, u8>(u_fan(0, &FAN_SHORT), "char-u8"), radix_unary::<u64, u16>(u_fan(0, &FAN_SHORT), "u64-u16"),
        radix_unary::<u8, u16>(u_long(d(2, 3)), "u8-u16"), radix_unary::<u16, u8>(u_long(2), "u16-u8"), radix_unary::<u8, u16>(u_huge(), "u8-u16"), radix_unary::<u64, ()>(u_huge(), "u64-unit"),
        radix_unary::<u8, u16>(u_chain(&[17, 65, 129]), "u8-u16"), radix_unary::<u8, u16>(u_bush(), "u8-u16"), radix_unary::<i32, u128>(u_bush(), "i32-u128"),
        radix_strings(u_fan(0, &FAN_SHORT)), radix_strings(u_chain(&[17, 65])), radix_strings(u_bush()), radix_strings(u_long(2)),
        radix_pairs(u_bush()), radix_pairs(u_fan(1, &FAN_SHORT)), radix_pairs(u_chain(&[17, 40])), radix_pairs(u_long(2)),
        shared_forest(u_bush()), shared_forest(u_fan(1, &[1, 9, 65, 129, 256])), shared_forest(u_chain(&[17, 40])), shared_forest(u_long(2)),
    ];
    if th { v.push(radix_pairs(u_spine2())); v.push(radix_pairs(u_mid(4))); v.push(radix_pairs(u_letters(10))); v.push(shared_forest(u_spine2())); v.push(radix_pairs(u_tern(3))); v.push(shared_forest(u_spine())); v.push(shared_forest(u_tern(3))); v.push(radix_pairs(u_deepwide())) }
    let few = || if th { u_small() } else { u_mid(2) };
    v.extend([record::<u8, u64, u16>(few(), "u8-u64-u16"), record::<u64, u8, ()>(few(), "u64-u8-unit"), record::<u16, u128, u128>(u_wide(), "u16-u128-u128"), record::<(), (u8, u64), u8>(u_spine(), "unit-pair-u8"), record::<u16, u16, u16>(u_scaled(9), "u16-u16-u16")]);
    v.extend([nested_values(if th { u_small() } else { u_mid(2) }), nested_values(u_wide()), nested_values(u_scaled(9))]);
    v.extend(mc::deep::spaces(&["archive", "archived get", "archived iter", "deserialise"], &["archive", "deserialise"]));
    v.push(mc::huge::archived());
    v.push(mc::huge::trees(mc::huge::Part::Archive));
    v
}
#[allow(non_camel_case_types)]
type u32x = u16;
fn main() {
    mc::deep::child();
    mc::run_main(Prop {
        id: "C16",
        level: "exploration",
        rule: "a case is one collection, or one pair of collections, archived and compared with its original in every answer; non-trivial: the pair overlaps without being equal, the tree has more than two nodes",
        assumptions: &["native endianness and 32-bit relative pointers (rkyv's default configuration)", "archived set and map views are only compared in their own element types; string elements through as_str"],
        spaces,
    })
}
