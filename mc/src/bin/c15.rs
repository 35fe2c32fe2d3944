//! C15: serde round trips; any document deserialises into a valid collection.
use mc::elem::{self, code, BAD_KEY, E};
use mc::seqs::{self, Seqs};
use mc::{ensure, ensure_eq, fail, gen::Atoms, idx, lp, Cx, Prop, Space};
use serde::de::value::{Error as VErr, MapDeserializer, SeqDeserializer};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use vec_collections::{AbstractVecMap, AbstractVecSet, Array, VecMap, VecSet};
use vec_collections::{total_vec_map::TotalVecMap, total_vec_set::TotalVecSet};

/// an iterator whose upper and lower size bounds agree on a wrong (or no) number
struct Hint<I>(I, usize);
impl<I: Iterator> Iterator for Hint<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { self.0.next() }
    fn size_hint(&self) -> (usize, Option<usize>) { (self.1, if self.1 == 0 { None } else { Some(self.1) }) }
}
fn json<T: DeserializeOwned>(s: &str, what: &str) -> T {
    match serde_json::from_str(s) { Ok(t) => t, Err(e) => fail!("{what}: deserialising {s} failed: {e}") }
}
fn ok<T, Er: std::fmt::Display>(r: Result<T, Er>, what: &str) -> T { match r { Ok(t) => t, Err(e) => fail!("{what} failed: {e}") } }

fn total<T: Ord + Clone, A: Array<Item = T>>(s: VecSet<A>, neg: bool) -> TotalVecSet<A> { let t = TotalVecSet::from(s); if neg { !t } else { t } }

// -- sets ------------------------------------------------------------------------------------
fn good_set<A: Array<Item = E>>(s: &VecSet<A>, seq: &[u16], what: &str) {
    let want: BTreeSet<u16> = seq.iter().copied().collect();
    let got: Vec<u16> = s.iter().map(|e| { ensure!(e.ok(), "{what}: dropped element"); e.key }).collect();
    ensure_eq!(got, want.iter().copied().collect::<Vec<_>>(), "{what}");
    for e in s.iter() { ensure!(seq.get(e.tag as usize) == Some(&e.key), "{what}: element {e:?} is not in the document") }
    if let Some(max) = want.iter().next_back() {
        for k in 0..=max + 1 { ensure_eq!(AbstractVecSet::contains(s, &E::new(k, 0)), want.contains(&k), "{what}: contains {k}") }
    }
    let direct: VecSet<A> = seq.iter().enumerate().map(|(i, k)| E::new(*k, i as u16)).collect();
    ensure!(*s == direct, "{what}: not equal to the directly built set");
}
fn codes(seq: &[u16]) -> Vec<u32> { seq.iter().enumerate().map(|(i, k)| code(*k, i as u16)).collect() }
fn doc<T: std::fmt::Debug>(v: &[T]) -> String { format!("{v:?}") }

fn short<T: std::fmt::Debug>(v: &[T]) -> String { if v.len() <= 150 { format!("{v:?}") } else { format!("{} entries starting {:?}", v.len(), &v[..10]) } }
fn set_case(seq: &[u16], cx: &mut Cx) {
    elem::reset();
    let c = codes(seq);
    let text = doc(&c);
    {
        good_set(&json::<VecSet<[E; 4]>>(&text, "set"), seq, "VecSet capacity 4 from JSON");
        good_set(&json::<VecSet<[E; 1]>>(&text, "set"), seq, "VecSet capacity 1 from JSON");
        let r: VecSet<[E; 32]> = ok(VecSet::deserialize(SeqDeserializer::<_, VErr>::new(c.iter().copied())), "exact size hint");
        good_set(&r, seq, "VecSet capacity 32, exact size hint");
        let r: VecSet<[E; 2]> = ok(VecSet::deserialize(SeqDeserializer::<_, VErr>::new(Hint(c.iter().copied(), 0))), "no size hint");
        good_set(&r, seq, "VecSet capacity 2, no size hint");
        let r: VecSet<[E; 2]> = ok(VecSet::deserialize(SeqDeserializer::<_, VErr>::new(Hint(c.iter().copied(), (seq.len() / 2).max(1)))), "low size hint");
        good_set(&r, seq, "VecSet capacity 2, low size hint");
        let r: VecSet<[E; 4]> = ok(VecSet::deserialize(SeqDeserializer::<_, VErr>::new(Hint(c.iter().copied(), seq.len() + 9))), "high size hint");
        good_set(&r, seq, "VecSet capacity 4, high size hint");
        let r: VecSet<[E; 4]> = ok(lp::from_bytes(&lp::to_bytes(&c).unwrap()), "length prefixed format");
        good_set(&r, seq, "VecSet, length prefixed format");
        for neg in [false, true] {
            let t: TotalVecSet<[E; 2]> = json(&format!("[{text},{neg}]"), "total set");
            let want: BTreeSet<u16> = seq.iter().copied().collect();
            for k in 0..8 { ensure_eq!(t.contains(&E::new(k, 0)), want.contains(&k) != neg, "TotalVecSet contains {k}") }
            let direct = total(seq.iter().map(|k| E::new(*k, 0)).collect::<VecSet<[E; 2]>>(), neg);
            ensure!(t == direct, "TotalVecSet differs from the directly built one");
            ensure_eq!(t.is_empty(), want.is_empty() && !neg, "TotalVecSet is_empty");
        }
    }
    elem::check_clean(false);
    cx.ops(9);
    let d: BTreeSet<_> = seq.iter().collect();
    cx.nontrivial_if(seq.windows(2).any(|w| w[0] > w[1]) && d.len() < seq.len());
    cx.outcome(&d);
}
fn set_space(s: Seqs) -> Box<dyn Space> {
    let (g, h) = (s.gen.clone(), s.gen);
    idx(format!("set-docs-{}", s.name), format!("sequences as documents for sets and total sets, through JSON, a length prefixed format and value deserialisers with exact, missing, low and high size hints: {}", s.about), s.size,
        move |i, cx| set_case(&g(i), cx), move |i| short(&h(i)))
}

// -- maps: letter l is key l / nv with value l % nv --------------------------------------------
fn good_map<A: Array<Item = (E, E)>>(m: &VecMap<A>, ent: &[(u16, u16)], what: &str) -> Vec<(u16, u16)> {
    let want: BTreeSet<u16> = ent.iter().map(|e| e.0).collect();
    let got: Vec<(u16, u16)> = m.iter().map(|(k, v)| { ensure!(k.ok() && v.ok(), "{what}: dropped element"); (k.key, v.key) }).collect();
    ensure_eq!(got.iter().map(|e| e.0).collect::<Vec<_>>(), want.iter().copied().collect::<Vec<_>>(), "{what}");
    for e in &got { ensure!(ent.contains(e), "{what}: mapping {e:?} is not in the document") }
    if let Some(max) = want.iter().next_back() {
        for k in 0..=max + 1 { ensure_eq!(m.get(&E::new(k, 0)).map(|v| v.key), got.iter().find(|e| e.0 == k).map(|e| e.1), "{what}: get {k}") }
    }
    let direct: VecMap<A> = got.iter().map(|e| (E::new(e.0, 0), E::new(e.1, 0))).collect();
    ensure!(*m == direct, "{what}: not equal to the directly built map");
    got
}
fn map_case(ent: &[(u16, u16)], nv: u16, cx: &mut Cx) {
    elem::reset();
    // JSON has string keys: "7" parses into E's integer code
    let text = format!("{{{}}}", ent.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect::<Vec<_>>().join(","));
    let mut results = vec![];
    {
        let pairs = || ent.iter().map(|(k, v)| (*k as u32, *v as u32));
        results.push(good_map(&json::<VecMap<[(E, E); 4]>>(&text, "map"), ent, "VecMap capacity 4 from JSON"));
        let r: VecMap<[(E, E); 1]> = ok(VecMap::deserialize(MapDeserializer::<_, VErr>::new(pairs())), "exact size hint");
        results.push(good_map(&r, ent, "VecMap capacity 1, exact size hint"));
        let r: VecMap<[(E, E); 32]> = ok(VecMap::deserialize(MapDeserializer::<_, VErr>::new(Hint(pairs(), 0))), "no size hint");
        results.push(good_map(&r, ent, "VecMap capacity 32, no size hint"));
        let r: VecMap<[(E, E); 2]> = ok(VecMap::deserialize(MapDeserializer::<_, VErr>::new(Hint(pairs(), ent.len() + 9))), "high size hint");
        results.push(good_map(&r, ent, "VecMap capacity 2, high size hint"));
        let mut b = (ent.len() as u64).to_le_bytes().to_vec();
        for (k, v) in ent { b.extend((*k as u64).to_le_bytes()); b.extend((*v as u64).to_le_bytes()) }
        let r: VecMap<[(E, E); 2]> = ok(lp::from_bytes(&b), "length prefixed format");
        results.push(good_map(&r, ent, "VecMap, length prefixed format"));
        for r in &results { ensure!(*r == results[0], "the same document gives different maps: {r:?} and {:?}", results[0]) }
        for d in 0..nv {
            let t: TotalVecMap<E, [(E, E); 2]> = json(&format!("[{text},{d}]"), "total map");
            let kept: Vec<(u16, u16)> = results[0].iter().copied().filter(|e| e.1 != d).collect();
            ensure_eq!(t.non_default_mappings().iter().map(|(k, v)| (k.key, v.key)).collect::<Vec<_>>(), kept, "TotalVecMap with default {d}: non default mappings");
            for k in 0..6 { ensure_eq!(t[&E::new(k, 0)].key, results[0].iter().find(|e| e.0 == k).map(|e| e.1).unwrap_or(d), "TotalVecMap with default {d}: get {k}") }
            let direct = TotalVecMap::<E, [(E, E); 2]>::new(results[0].iter().map(|e| (E::new(e.0, 0), E::new(e.1, 0))).collect(), E::new(d, 0));
            ensure!(t == direct, "TotalVecMap with default {d} differs from the directly built one");
        }
    }
    elem::check_clean(false);
    cx.ops(6 + nv as u64);
    cx.nontrivial_if(ent.windows(2).any(|w| w[0].0 > w[1].0) && results[0].len() < ent.len());
    cx.outcome(&results[0]);
}
fn map_space(s: Seqs, nv: u16) -> Box<dyn Space> {
    let (g, h) = (s.gen.clone(), s.gen);
    let e = move |w: Vec<u16>| w.into_iter().map(|l| (l / nv, l % nv)).collect::<Vec<_>>();
    idx(format!("map-docs-{}-{nv}", s.name), format!("map documents in every entry order with every duplicate pattern (letter l is key l/{nv} with value l%{nv}), for maps and total maps with every default: {}", s.about), s.size,
        move |i, cx| map_case(&e(g(i)), nv, cx), move |i| short(&e(h(i))))
}

// -- documents with a malformed element ---------------------------------------------------------
fn bad_space(alpha: u64, len: u32) -> Box<dyn Space> {
    let n = seqs::count(alpha, len);
    let g = move |i: u64| { let w = seqs::word(i % n, alpha); let p = ((i / n) as usize).min(w.len()); (w, p) };
    idx("malformed", format!("every word over {alpha} letters up to length {len} with an invalid element inserted at every position: an error, no panic, nothing leaked"), n * (len as u64 + 1),
        move |i, cx| {
            let (w, p) = g(i);
            elem::reset();
            let mut c = codes(&w);
            c.insert(p, BAD_KEY as u32);
            ensure!(serde_json::from_str::<VecSet<[E; 2]>>(&doc(&c)).is_err(), "a set with an invalid element was accepted");
            ensure!(serde_json::from_str::<TotalVecSet<[E; 2]>>(&format!("[{},true]", doc(&c))).is_err(), "a total set with an invalid element was accepted");
            let m = |bad_key: bool| c.iter().enumerate().map(|(j, x)| if j == p && bad_key { format!("\"{BAD_KEY}\":{j}") } else if j == p { format!("\"{j}\":{BAD_KEY}") } else { format!("\"{}\":{j}", x % 1000) }).collect::<Vec<_>>().join(",");
            for k in [true, false] {
                ensure!(serde_json::from_str::<VecMap<[(E, E); 2]>>(&format!("{{{}}}", m(k))).is_err(), "a map with an invalid entry was accepted");
                ensure!(serde_json::from_str::<TotalVecMap<E, [(E, E); 2]>>(&format!("[{{{}}},3]", m(k))).is_err(), "a total map with an invalid entry was accepted");
            }
            // cut off after the invalid element was replaced: incomplete input
            let b = lp::to_bytes(&codes(&w)).unwrap();
            if !w.is_empty() { ensure!(lp::from_bytes::<VecSet<[E; 2]>>(&b[..b.len() - 8]).is_err(), "a truncated sequence was accepted") }
            elem::check_clean(false);
            cx.ops(7);
            cx.nontrivial_if(p > 0 && p < w.len());
            cx.outcome((p, w.len()));
        },
        move |i| format!("{:?}", g(i)))
}

// -- size hints that have nothing to do with the document ------------------------------------------
fn hint_space(alpha: u64, len: u32) -> Box<dyn Space> {
    let n = seqs::count(alpha, len);
    const HINTS: [usize; 5] = [1, 1000, usize::MAX / 16, isize::MAX as usize, usize::MAX];
    let g = move |i: u64| (seqs::word(i % n, alpha), HINTS[(i / n % 5) as usize]);
    idx("hostile-hints", format!("every word over {alpha} letters up to length {len} from a deserialiser whose size hint is any of {HINTS:?}, and as a length-prefixed document with that prefix: the same collection, or an error for a document that ends too early"), n * 5,
        move |i, cx| {
            let (w, h) = g(i);
            elem::reset();
            let c = codes(&w);
            {
                let r: VecSet<[E; 2]> = ok(VecSet::deserialize(SeqDeserializer::<_, VErr>::new(Hint(c.iter().copied(), h))), "hint");
                good_set(&r, &w, "VecSet");
                let r = VecSet::<[(); 2]>::deserialize(SeqDeserializer::<_, VErr>::new(Hint(w.iter().map(|_| ()), h)));
                ensure_eq!(ok(r, "hint").len(), w.len().min(1), "set of units");
                let ent: Vec<(u16, u16)> = w.iter().map(|k| (*k, *k % 2)).collect();
                let r: VecMap<[(E, E); 2]> = ok(VecMap::deserialize(MapDeserializer::<_, VErr>::new(Hint(ent.iter().map(|e| (e.0 as u32, e.1 as u32)), h))), "hint");
                good_map(&r, &ent, "VecMap");
                let words = |v: &[u64]| v.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>();
                let set: Vec<u64> = std::iter::once(h as u64).chain(c.iter().map(|x| *x as u64)).collect();
                let map: Vec<u64> = std::iter::once(h as u64).chain(ent.iter().flat_map(|e| [e.0 as u64, e.1 as u64])).collect();
                let whole = h == w.len();
                let x = lp::from_bytes::<VecSet<[E; 2]>>(&words(&set));
                ensure_eq!(x.is_ok(), whole, "a set with a wrong length prefix was accepted or one with the right length refused");
                let x = lp::from_bytes::<VecMap<[(E, E); 2]>>(&words(&map));
                ensure_eq!(x.is_ok(), whole, "a map with a wrong length prefix was accepted or one with the right length refused");
            }
            elem::check_clean(false);
            cx.ops(5);
            cx.nontrivial_if(w.len() > 1 && h > w.len());
            cx.outcome((w.len(), h));
        },
        move |i| format!("{:?}", g(i)))
}

// -- round trips -------------------------------------------------------------------------------
fn trip<T: Serialize + DeserializeOwned + PartialEq + std::fmt::Debug>(t: &T, is_json: bool, what: &str) -> Vec<T> {
    let mut out = vec![];
    if is_json {
        let s = ok(serde_json::to_string(t), what);
        out.push(json::<T>(&s, what));
        let v = ok(serde_json::to_value(t), what);
        out.push(ok(serde_json::from_value::<T>(v), what));
    }
    let b = ok(lp::to_bytes(t), what);
    out.push(ok(lp::from_bytes::<T>(&b), what));
    for r in &out {
        ensure!(r == t, "{what}: {r:?} read back, {t:?} written");
        let again = ok(lp::to_bytes(r), what);
        ensure!(again == b, "{what}: the value read back is written differently");
    }
    out
}
trait Item: Ord + Clone + Serialize + DeserializeOwned + std::fmt::Debug + std::hash::Hash + 'static { fn mk(k: u16) -> Self; }
impl Item for u16 { fn mk(k: u16) -> Self { k } }
impl Item for i64 { fn mk(k: u16) -> Self { [i64::MIN, -1, 0, i64::MAX][k as usize % 4] / (k as i64 / 4 + 1) } }
impl Item for String { fn mk(k: u16) -> Self { ["", "a", "\"\\\u{0}", "\u{10ffff}é"][k as usize % 4].repeat(1 + k as usize / 4) + &k.to_string() } }
impl Item for (bool, Option<char>) { fn mk(k: u16) -> Self { (k & 1 == 1, if k & 2 == 2 { char::from_u32(k as u32 + 32) } else { None }) } }
impl Item for VecSet<[u16; 2]> { fn mk(k: u16) -> Self { (0..4).filter(|b| k >> b & 1 == 1).collect() } }
impl Item for () { fn mk(_: u16) -> Self {} }

fn sets_of<T: Item>(a: Atoms, ty: &'static str) -> Box<dyn Space> {
    let (b, n) = (a.clone(), a.masks());
    idx(format!("set-round-trip-{ty}-{:?}", a.w), format!("every set (and total set) of {ty} whose elements are a union of blocks of sizes {:?}, inline and spilled", a.w), n * 2,
        move |i, cx| {
            let els: Vec<T> = a.elems(i % n).into_iter().map(T::mk).collect();
            let want: Vec<T> = els.iter().cloned().collect::<BTreeSet<_>>().into_iter().collect();
            macro_rules! cap { ($c:literal) => {{
                let s: VecSet<[T; $c]> = if i >= n { let mut v = Vec::with_capacity(70); v.extend(els.iter().cloned()); VecSet::from(v) } else { els.iter().cloned().collect() };
                for r in trip(&s, true, "VecSet") { ensure_eq!(r.as_ref().to_vec(), want, "VecSet of capacity {} read back", $c) }
                for neg in [false, true] {
                    let t = total(s.clone(), neg);
                    for r in trip(&t, true, "TotalVecSet") {
                        for p in &want { if r.contains(p) == neg { fail!("TotalVecSet read back: contains {p:?} is {neg}") } }
                        if r.is_all() != (want.is_empty() && neg) { fail!("TotalVecSet read back: is_all is wrong") }
                    }
                }
                cx.ops(9);
            }} }
            cap!(1); cap!(4); cap!(32);
            cx.nontrivial_if(want.len() > 1);
            cx.outcome(&want);
        },
        move |i| format!("blocks {:b}, {}", i % n, if i >= n { "spilled" } else { "inline" }) + &format!(" ({} elements)", b.elems(i % n).len()))
}
fn maps_of<K: Item, V: Item>(a: Atoms, nv: u64, is_json: bool, ty: &'static str) -> Box<dyn Space> {
    let k = a.n() as u32;
    let total = (nv + 1).pow(k);
    let dec = move |mut i: u64| { let mut v = vec![]; for _ in 0..k { v.push(i % (nv + 1)); i /= nv + 1 } v };
    let f = dec;
    idx(format!("map-round-trip-{ty}-{:?}", a.w), format!("every map (and total map with every default) of {ty}: each block of keys of sizes {:?} absent or mapped to one of {nv} values", a.w), total,
        move |i, cx| {
            let d = dec(i);
            let mut ents: Vec<(K, V)> = vec![];
            for (j, x) in d.iter().enumerate() { if *x > 0 { for e in a.elems(1 << j) { ents.push((K::mk(e), V::mk(*x as u16))) } } }
            let want: BTreeMap<K, V> = ents.iter().cloned().collect();
            let want: Vec<(K, V)> = want.into_iter().collect();
            macro_rules! cap { ($c:literal) => {{
                let m: VecMap<[(K, V); $c]> = ents.iter().cloned().collect();
                for r in trip(&m, is_json, "VecMap") { ensure_eq!(r.as_ref().to_vec(), want, "VecMap of capacity {} read back", $c) }
                for df in 1..=nv as u16 {
                    let df = V::mk(df);
                    let t: TotalVecMap<V, [(K, V); $c]> = TotalVecMap::new(m.clone(), df.clone());
                    let kept: Vec<(K, V)> = want.iter().filter(|e| e.1 != df).cloned().collect();
                    let mut outs = vec![];
                    if is_json { outs.push(json::<TotalVecMap<V, [(K, V); $c]>>(&ok(serde_json::to_string(&t), "TotalVecMap"), "TotalVecMap")) }
                    outs.push(ok(lp::from_bytes(&ok(lp::to_bytes(&t), "TotalVecMap")), "TotalVecMap"));
                    for r in outs {
                        ensure!(r == t, "TotalVecMap read back differs");
                        ensure_eq!(r.non_default_mappings().as_ref().to_vec(), kept, "TotalVecMap read back: mappings");
                        for (k, v) in &want { ensure_eq!(r[k], *v, "TotalVecMap read back: get {k:?}") }
                    }
                }
                cx.ops(3 + 2 * nv);
            }} }
            cap!(1); cap!(4); cap!(32);
            cx.nontrivial_if(want.len() > 1);
            cx.outcome(&want);
        },
        move |i| format!("{:?}", f(i)))
}
fn spaces(th: bool) -> Vec<Box<dyn Space>> {
    let d = |q, t| if th { t } else { q };
    let mut v = vec![
        bad_space(3, d(8, 9)),
        hint_space(3, d(7, 9)),
        set_space(seqs::words(2, d(16, 19))),
        set_space(seqs::words(3, d(10, 12))),
        set_space(seqs::words(6, d(7, 8))),
        set_space(seqs::perms(if th { 9 } else { 8 })),
        set_space(seqs::displaced(20)),
        set_space(seqs::displaced(34)),
        set_space(seqs::affine(if th { 50 } else { 24 }, &[16, 17, 20, 21, 24, 32, 33, 40, 65])),
        map_space(seqs::words(4, d(9, 10)), 2),
        map_space(seqs::words(6, d(7, 8)), 2),
        map_space(seqs::words(9, d(5, 6)), 3),
        map_space(seqs::perms(if th { 9 } else { 8 }), 2),
        map_space(seqs::displaced(33), 3),
        map_space(seqs::affine(if th { 40 } else { 20 }, &[16, 17, 20, 21, 24, 33, 40, 65]), 2),
        set_space(seqs::displaced(130)),
        set_space(seqs::affine_large(&[61, 127, 128, 129, 255, 256, 257, 509, 991], 7, &[64, 129, 256, 300, 700, 1025])),
        map_space(seqs::displaced(130), 2),
        map_space(seqs::affine_large(&[61, 127, 128, 129, 255, 256, 257, 509, 991], 11, &[64, 129, 256, 300]), 2),
        sets_of::<u16>(Atoms::new(&[1, 64, 130, 257, 1025, 2900]), "u16"),
        sets_of::<String>(Atoms::new(&[1, 64, 130, 257]), "String"),
        maps_of::<u16, u16>(Atoms::new(&[1, 64, 130, 257]), 3, true, "u16-u16"),
        maps_of::<String, i64>(Atoms::new(&[1, 64, 130, 257]), 2, true, "String-i64"),
        sets_of::<u16>(Atoms::unit(d(11, 14) as usize), "u16"),
        sets_of::<u16>(Atoms::new(&[1, 3, 16, 1, 33, 2, 4]), "u16"),
        sets_of::<i64>(Atoms::unit(8), "i64"),
        sets_of::<String>(Atoms::unit(8), "String"),
        sets_of::<String>(Atoms::new(&[1, 7, 16, 24, 2]), "String"),
        sets_of::<(bool, Option<char>)>(Atoms::unit(8), "pair"),
        sets_of::<VecSet<[u16; 2]>>(Atoms::unit(7), "VecSet"),
        sets_of::<()>(Atoms::unit(2), "unit"),
        maps_of::<u16, u16>(Atoms::unit(d(8, 9) as usize), 2, true, "u16-u16"),
        maps_of::<u16, u16>(Atoms::new(&[1, 17, 2, 32]), 3, true, "u16-u16"),
        maps_of::<String, i64>(Atoms::unit(6), 2, true, "String-i64"),
        maps_of::<i64, String>(Atoms::unit(5), 3, true, "i64-String"),
        maps_of::<VecSet<[u16; 2]>, VecSet<[u16; 2]>>(Atoms::unit(5), 2, false, "VecSet-VecSet"),
        maps_of::<u16, ()>(Atoms::unit(6), 1, true, "u16-unit"),
    ];
    if th { v.push(set_space(seqs::displaced(80))); v.push(map_space(seqs::displaced(80), 2)) }
    v.push(mc::huge::serialised());
    v
}
fn main() {
    mc::run_main(Prop {
        id: "C15",
        level: "exploration",
        rule: "a case is one document (distinct by construction) through every reader, or one collection through every format and back; non-trivial: the document is unsorted and has a duplicate, the collection has at least two elements",
        assumptions: &["formats: JSON, serde's own value deserialisers with exact, missing, low, high and absurdly high size hints, and a length-prefixed binary format of the harness, also with wrong prefixes", "which of several values given for one key wins is not claimed"],
        spaces,
    })
}
