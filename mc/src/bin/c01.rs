//! C01: set algebra is exact in every form offered.
use mc::{bfs, elem, elem::E, ensure, ensure_eq, gen::*, idx, sets::*, Cx, Prop, Space, System};
use rkyv::AlignedVec;
use std::sync::Arc;
use vec_collections::{AbstractVecSet, Array, ArchivedVecSet, VecSet};

const OPS: [&str; 4] = ["union", "intersection", "difference", "symmetric_difference"];
/// (key, tag): tag 1 = from the left operand, 2 = from the right
type Exp = [Vec<(u16, u16)>; 4];

fn expected(a: &[u16], b: &[u16]) -> Exp {
    // reference: plain list membership, no merging
    let (ina, inb) = (member(a), member(b));
    let (ina, inb) = (|k: &u16| ina(*k), |k: &u16| inb(*k));
    let mut all: Vec<u16> = a.iter().chain(b.iter()).copied().collect();
    all.sort_unstable();
    all.dedup();
    let pick = |f: &dyn Fn(bool, bool) -> bool| -> Vec<(u16, u16)> {
        all.iter().filter(|k| f(ina(k), inb(k))).map(|k| (*k, if ina(k) { 1 } else { 2 })).collect()
    };
    [pick(&|x, y| x | y), pick(&|x, y| x & y), pick(&|x, y| x & !y), pick(&|x, y| x ^ y)]
}

fn same<T: Elem>(got: &[T], exp: &[(u16, u16)], cx: &mut Cx, what: &dyn Fn() -> String) {
    cx.op();
    let ok = got.len() == exp.len()
        && got.iter().zip(exp).all(|(g, e)| { let (k, t) = g.kt(); k == e.0 && t.is_none_or(|t| t == e.1) });
    if !ok { mc::fail!("{}: got {:?} expected (key, side) {:?}", what(), got.iter().map(|x| x.kt()).collect::<Vec<_>>(), exp) }
}
fn unchanged<T: Elem>(got: &[T], keys: &[u16], tag: u16, what: &str) {
    ensure!(got.len() == keys.len() && got.iter().zip(keys).all(|(g, k)| g.kt().0 == *k && g.kt().1.is_none_or(|t| t == tag)),
        "{what} operand was changed: {:?} was {:?}", got.iter().map(|x| x.kt()).collect::<Vec<_>>(), keys)
}

/// every form that takes two owned sets
fn all_forms<T: Elem, A: Array<Item = T>, B: Array<Item = T>, R: Array<Item = T>>(ka: &[u16], kb: &[u16], exp: &Exp, sa: bool, sb: bool, cx: &mut Cx) {
    let mka = || build::<T, A>(ka, 1, sa);
    let mkb = || build::<T, B>(kb, 2, sb);
    let a = mka();
    let b = mkb();
    let mut chk = |op: usize, form: &str, got: &[T]| {
        same(got, &exp[op], cx, &|| format!("{} {form}, capacities {}/{}, storage {}/{}", OPS[op], A::size(), B::size(),
            if sa { "heap" } else { "compact" }, if sb { "heap" } else { "compact" }))
    };
    chk(0, "| operator", (&a | &b).as_ref());
    chk(1, "& operator", (&a & &b).as_ref());
    chk(2, "- operator", (&a - &b).as_ref());
    chk(3, "^ operator", (&a ^ &b).as_ref());
    chk(0, "method", a.union(&b).as_ref());
    chk(1, "method", a.intersection(&b).as_ref());
    chk(2, "method", a.difference(&b).as_ref());
    chk(3, "method", a.symmetric_difference(&b).as_ref());
    chk(0, "trait method", AbstractVecSet::union::<R>(&a, &b).as_ref());
    chk(1, "trait method", AbstractVecSet::intersection::<R>(&a, &b).as_ref());
    chk(2, "trait method", AbstractVecSet::difference::<R>(&a, &b).as_ref());
    chk(3, "trait method", AbstractVecSet::symmetric_difference::<R>(&a, &b).as_ref());
    unchanged(a.as_ref(), ka, 1, "left");
    let mut x = mka(); x |= &b; chk(0, "|= by reference", x.as_ref());
    let mut x = mka(); x &= &b; chk(1, "&= by reference", x.as_ref());
    let mut x = mka(); x -= &b; chk(2, "-= by reference", x.as_ref());
    let mut x = mka(); x ^= &b; chk(3, "^= by reference", x.as_ref());
    let mut x = mka(); x.union_with(&b); chk(0, "_with", x.as_ref());
    let mut x = mka(); x.intersection_with(&b); chk(1, "_with", x.as_ref());
    let mut x = mka(); x.difference_with(&b); chk(2, "_with", x.as_ref());
    let mut x = mka(); x.xor_with(&b); chk(3, "_with", x.as_ref());
    unchanged(b.as_ref(), kb, 2, "right");
    let mut x = mka(); x |= mkb(); chk(0, "|= by value", x.as_ref());
    let mut x = mka(); x &= mkb(); chk(1, "&= by value", x.as_ref());
    let mut x = mka(); x -= mkb(); chk(2, "-= by value", x.as_ref());
    let mut x = mka(); x ^= mkb(); chk(3, "^= by value", x.as_ref());
}

fn arch_forms(ka: &[u16], kb: &[u16], aa: &ArchivedVecSet<u16>, ab: &ArchivedVecSet<u16>, exp: &Exp, cx: &mut Cx) {
    type A = [u16; 4];
    let mka = || build::<u16, A>(ka, 1, false);
    let a = mka();
    let b = build::<u16, [u16; 2]>(kb, 2, true);
    let mut chk = |op: usize, form: &str, got: &[u16]| same(got, &exp[op], cx, &|| format!("{} {form}", OPS[op]));
    chk(0, "owned.method(archived)", a.union(ab).as_ref());
    chk(1, "owned.method(archived)", a.intersection(ab).as_ref());
    chk(2, "owned.method(archived)", a.difference(ab).as_ref());
    chk(3, "owned.method(archived)", a.symmetric_difference(ab).as_ref());
    chk(0, "archived.method(archived)", aa.union::<A>(ab).as_ref());
    chk(1, "archived.method(archived)", aa.intersection::<A>(ab).as_ref());
    chk(2, "archived.method(archived)", aa.difference::<A>(ab).as_ref());
    chk(3, "archived.method(archived)", aa.symmetric_difference::<A>(ab).as_ref());
    chk(0, "archived.method(owned)", aa.union::<A>(&b).as_ref());
    chk(1, "archived.method(owned)", aa.intersection::<A>(&b).as_ref());
    chk(2, "archived.method(owned)", aa.difference::<A>(&b).as_ref());
    chk(3, "archived.method(owned)", aa.symmetric_difference::<A>(&b).as_ref());
    let mut x = mka(); x.union_with(ab); chk(0, "_with(archived)", x.as_ref());
    let mut x = mka(); x.intersection_with(ab); chk(1, "_with(archived)", x.as_ref());
    let mut x = mka(); x.difference_with(ab); chk(2, "_with(archived)", x.as_ref());
    let mut x = mka(); x.xor_with(ab); chk(3, "_with(archived)", x.as_ref());
    unchanged(aa.as_slice(), ka, 1, "archived left");
    unchanged(ab.as_slice(), kb, 2, "archived right");
    unchanged(a.as_ref(), ka, 1, "left");
    unchanged(b.as_ref(), kb, 2, "right");
}

fn show(at: &Atoms, i: u64) -> String {
    let (x, y) = pair(i, at.masks());
    format!("A={:?} B={:?}", at.elems(x), at.elems(y))
}

fn pairs_tracked(name: &str, w: &[usize]) -> Box<dyn Space> {
    let at = Atoms::new(w);
    let at2 = at.clone();
    idx(
        format!("pairs-tracked-{name}"),
        format!("all pairs of subsets of {} atoms of sizes {w:?}, ownership-tracked distinguishable elements, 24 forms, 4 storage states, mixed capacities", at.n()),
        at.masks() * at.masks(),
        move |i, cx| {
            let (x, y) = pair(i, at.masks());
            let (ka, kb) = (at.elems(x), at.elems(y));
            let exp = expected(&ka, &kb);
            cx.nontrivial_if(!exp[1].is_empty() && !exp[3].is_empty());
            elem::reset();
            for (sa, sb) in [(false, false), (true, false), (false, true), (true, true)] {
                all_forms::<E, [E; 4], [E; 2], [E; 8]>(&ka, &kb, &exp, sa, sb, cx);
            }
            all_forms::<E, [E; 1], [E; 16], [E; 2]>(&ka, &kb, &exp, false, false, cx);
            all_forms::<E, [E; 16], [E; 1], [E; 32]>(&ka, &kb, &exp, false, false, cx);
            elem::check_clean(false);
            cx.outcome(&exp);
        },
        move |i| show(&at2, i),
    )
}
fn pairs_plain(name: &str, w: &[usize]) -> Box<dyn Space> {
    let at = Atoms::new(w);
    let at2 = at.clone();
    let arch: Arc<Vec<AlignedVec>> = Arc::new((0..at.masks()).map(|m| archived(&at.elems(m))).collect());
    idx(
        format!("pairs-plain-{name}"),
        format!("all pairs of subsets of {} atoms of sizes {w:?}, u16 elements, 24 owned and 16 archived forms", at.n()),
        at.masks() * at.masks(),
        move |i, cx| {
            let (x, y) = pair(i, at.masks());
            let (ka, kb) = (at.elems(x), at.elems(y));
            let exp = expected(&ka, &kb);
            cx.nontrivial_if(!exp[1].is_empty() && !exp[3].is_empty());
            all_forms::<u16, [u16; 4], [u16; 8], [u16; 2]>(&ka, &kb, &exp, false, false, cx);
            arch_forms(&ka, &kb, view(&arch[x as usize]), view(&arch[y as usize]), &exp, cx);
        },
        move |i| show(&at2, i),
    )
}
fn pairs_string(n: usize) -> Box<dyn Space> {
    let at = Atoms::unit(n);
    let at2 = at.clone();
    idx(
        format!("pairs-string-{n}"),
        "all pairs of subsets, heap-allocated String elements, 24 forms",
        at.masks() * at.masks(),
        move |i, cx| {
            let (x, y) = pair(i, at.masks());
            let (ka, kb) = (at.elems(x), at.elems(y));
            let exp = expected(&ka, &kb);
            cx.nontrivial_if(!exp[1].is_empty() && !exp[3].is_empty());
            all_forms::<String, [String; 2], [String; 2], [String; 2]>(&ka, &kb, &exp, false, true, cx);
        },
        move |i| show(&at2, i),
    )
}
/// one set as both operands of every form that borrows them
fn selfs<T: Elem, A: Array<Item = T>>(k: &[u16], heap: bool, cx: &mut Cx) {
    let keep: Vec<(u16, u16)> = k.iter().map(|k| (*k, 1)).collect();
    let exp: Exp = [keep.clone(), keep, vec![], vec![]];
    let a = build::<T, A>(k, 1, heap);
    let mut chk = |op: usize, form: &str, got: &[T]| same(got, &exp[op], cx, &|| format!("{} {form} of a set with itself, capacity {}, {}", OPS[op], A::size(), if heap { "heap" } else { "compact" }));
    chk(0, "| operator", (&a | &a).as_ref());
    chk(1, "& operator", (&a & &a).as_ref());
    chk(2, "- operator", (&a - &a).as_ref());
    chk(3, "^ operator", (&a ^ &a).as_ref());
    chk(0, "method", a.union(&a).as_ref());
    chk(1, "method", a.intersection(&a).as_ref());
    chk(2, "method", a.difference(&a).as_ref());
    chk(3, "method", a.symmetric_difference(&a).as_ref());
    chk(0, "trait method", AbstractVecSet::union::<[T; 8]>(&a, &a).as_ref());
    chk(1, "trait method", AbstractVecSet::intersection::<[T; 8]>(&a, &a).as_ref());
    chk(2, "trait method", AbstractVecSet::difference::<[T; 8]>(&a, &a).as_ref());
    chk(3, "trait method", AbstractVecSet::symmetric_difference::<[T; 8]>(&a, &a).as_ref());
    unchanged(a.as_ref(), k, 1, "only");
}
fn self_pairs(name: &str, w: &[usize]) -> Box<dyn Space> {
    let at = Atoms::new(w);
    let at2 = at.clone();
    idx(format!("self-{name}"), format!("every subset of {} atoms of sizes {w:?} as both operands at once (the same object), 12 forms, 3 element types, and the same archived set", at.n()), at.masks(),
        move |i, cx| {
            let k = at.elems(i);
            cx.nontrivial_if(!k.is_empty());
            cx.outcome(&k);
            elem::reset();
            for heap in [false, true] {
                selfs::<E, [E; 4]>(&k, heap, cx);
                selfs::<u16, [u16; 2]>(&k, heap, cx);
                selfs::<String, [String; 1]>(&k, heap, cx);
            }
            elem::check_clean(false);
            let b = archived(&k);
            let aa = view(&b);
            let keep: Vec<(u16, u16)> = k.iter().map(|k| (*k, 1)).collect();
            let mut chk = |op: usize, got: &[u16]| same(got, if op < 2 { &keep } else { &[] }, cx, &|| format!("{} of an archived set with itself", OPS[op]));
            chk(0, aa.union::<[u16; 4]>(aa).as_ref());
            chk(1, aa.intersection::<[u16; 4]>(aa).as_ref());
            chk(2, aa.difference::<[u16; 4]>(aa).as_ref());
            chk(3, aa.symmetric_difference::<[u16; 4]>(aa).as_ref());
        },
        move |i| format!("A=B={:?}", at2.elems(i)))
}
/// pairs of large operands
fn large(name: &str, what: &str, ps: Vec<(Vec<u16>, Vec<u16>)>, tracked: bool) -> Box<dyn Space> {
    let ps = Arc::new(ps);
    let ps2 = ps.clone();
    idx(
        format!("large-{name}"),
        format!("{what}; u16 elements in 24 owned and 16 archived forms{}", if tracked { ", tracked elements in 24 forms" } else { "" }),
        ps.len() as u64,
        move |i, cx| {
            let (ka, kb) = &ps[i as usize];
            let exp = expected(ka, kb);
            cx.nontrivial_if(!ka.is_empty() && !kb.is_empty() && !exp[3].is_empty());
            all_forms::<u16, [u16; 4], [u16; 8], [u16; 2]>(ka, kb, &exp, false, true, cx);
            all_forms::<u16, [u16; 32], [u16; 16], [u16; 16]>(ka, kb, &exp, false, false, cx);
            arch_forms(ka, kb, view(&archived(ka)), view(&archived(kb)), &exp, cx);
            if tracked {
                elem::reset();
                all_forms::<E, [E; 4], [E; 2], [E; 8]>(ka, kb, &exp, false, false, cx);
                all_forms::<E, [E; 4], [E; 2], [E; 8]>(ka, kb, &exp, true, true, cx);
                elem::check_clean(false);
            }
        },
        move |i| format!("A={} B={}", runs(&ps2[i as usize].0), runs(&ps2[i as usize].1)),
    )
}

/// Two registers over a small universe; every set-algebra form as an action, from every reachable storage state.
struct Regs { n: u16, depth: usize }
#[derive(Clone, Copy, Debug)]
enum Act { Op(usize, usize), Swap, Clone, Shrink, Ins(u16), Del(u16) }
impl Regs {
    fn act(&self, a: u16) -> Act {
        match a {
            0..=15 => Act::Op(a as usize / 4, a as usize % 4),
            16 => Act::Swap,
            17 => Act::Clone,
            18 => Act::Shrink,
            _ => { let k = a - 19; if k % 2 == 0 { Act::Ins(k / 2) } else { Act::Del(k / 2) } }
        }
    }
}
impl System for Regs {
    fn name(&self) -> String { format!("registers-{}", self.n) }
    fn about(&self) -> String { format!("two set registers X,Y over {} keys; actions: X op= Y for 4 operations in 4 forms, swap, Y:=clone X, shrink, insert, remove; state = contents, capacity and storage of both", self.n) }
    fn actions(&self) -> usize { 19 + 2 * self.n as usize }
    fn max_depth(&self) -> usize { self.depth }
    fn describe(&self, p: &[u16]) -> String { p[1..].iter().map(|a| format!("{:?}", self.act(*a))).collect::<Vec<_>>().join(" ") }
    fn replay(&self, path: &[u16], cx: &mut Cx) -> Option<Vec<u8>> {
        elem::reset();
        let key;
        {
            let mut x: VecSet<[E; 2]> = VecSet::empty();
            let mut y: VecSet<[E; 2]> = VecSet::empty();
            let (mut mx, mut my): (Vec<(u16, u16)>, Vec<(u16, u16)>) = (vec![], vec![]);
            for (step, a) in path[1..].iter().enumerate() {
                cx.op();
                match self.act(*a) {
                    Act::Op(op, form) => {
                        let (kx, ky): (Vec<u16>, Vec<u16>) = (mx.iter().map(|e| e.0).collect(), my.iter().map(|e| e.0).collect());
                        let exp = &expected(&kx, &ky)[op];
                        mx = exp.iter().map(|(k, s)| *(if *s == 1 { mx.iter() } else { my.iter() }).find(|e| e.0 == *k).unwrap()).collect();
                        match (op, form) {
                            (0, 0) => x |= &y, (1, 0) => x &= &y, (2, 0) => x -= &y, (3, 0) => x ^= &y,
                            (0, 1) => x |= y.clone(), (1, 1) => x &= y.clone(), (2, 1) => x -= y.clone(), (3, 1) => x ^= y.clone(),
                            (0, 2) => x.union_with(&y), (1, 2) => x.intersection_with(&y), (2, 2) => x.difference_with(&y), (3, 2) => x.xor_with(&y),
                            // consume Y itself
                            (0, _) => { x |= std::mem::replace(&mut y, VecSet::empty()); my.clear() }
                            (1, _) => { x &= std::mem::replace(&mut y, VecSet::empty()); my.clear() }
                            (2, _) => { x -= std::mem::replace(&mut y, VecSet::empty()); my.clear() }
                            (_, _) => { x ^= std::mem::replace(&mut y, VecSet::empty()); my.clear() }
                        }
                    }
                    Act::Swap => { std::mem::swap(&mut x, &mut y); std::mem::swap(&mut mx, &mut my) }
                    Act::Clone => { y = x.clone(); my = mx.clone() }
                    Act::Shrink => x.shrink_to_fit(),
                    Act::Ins(k) => { let t = step as u16 + 1; x.insert(E::new(k, t)); mx.retain(|e| e.0 != k); mx.push((k, t)); mx.sort() }
                    Act::Del(k) => { x.remove(&E::new(k, 0)); mx.retain(|e| e.0 != k) }
                }
                for (n, s, m) in [("X", &x, &mx), ("Y", &y, &my)] {
                    let got: Vec<(u16, u16)> = s.iter().map(|e| (e.key, e.tag)).collect();
                    ensure_eq!(got, *m, "register {n} after step {step} {:?}", self.act(*a));
                    ensure!(s.iter().all(|e| e.ok()), "register {n} holds a dropped element");
                }
            }
            cx.nontrivial_if(!mx.is_empty() && !my.is_empty());
            let mut kk = vec![];
            for s in [x, y] {
                kk.push(s.len() as u8);
                kk.extend(s.iter().map(|e| e.key as u8));
                let inner = s.into_inner();
                kk.push(inner.spilled() as u8);
                kk.extend((inner.capacity() as u16).to_le_bytes());
            }
            key = kk;
        }
        elem::check_clean(false);
        Some(key)
    }
}

fn spaces(th: bool) -> Vec<Box<dyn Space>> {
    let mut v = vec![
        pairs_tracked("6", &[1; 6]),
        pairs_tracked("9", &[1; 9]),
        pairs_tracked("weighted", &[1, 9, 2, 1, 5, 1]),
        pairs_tracked("weighted2", &[3, 1, 17, 1, 1, 10]),
        pairs_string(5),
        self_pairs("11", &[1; 11]),
        self_pairs("weighted", &[1, 9, 2, 1, 5, 65, 1, 300]),
        pairs_plain("11", &[1; 11]),
        pairs_plain("weighted", &[2, 1, 7, 1, 3, 9, 1]),
        pairs_plain("weighted2", &[1, 1, 33, 1, 8, 1, 1, 16, 1]),
        large("grid", "pairs of operands of 46 lengths up to 4099 in 14 relative positions", grid(&LENS), false),
        large("grid-tracked", "pairs of operands of 24 lengths up to 300 in 14 relative positions", grid(&SOME_LENS), true),
        large("sweep", "operands of 9..130 elements differing at one place, every place", sweep(&[9, 17, 33, 65, 130]), true),
        bfs(Regs { n: 3, depth: 40 }),
    ];
    if th {
        v.push(pairs_tracked("10", &[1; 10]));
        v.push(pairs_tracked("weighted3", &[1, 8, 1, 2, 16, 1, 33, 1]));
        v.push(pairs_tracked("weighted4", &[9, 1, 1, 1, 1, 1, 1, 1, 9]));
        v.push(pairs_plain("14", &[1; 14]));
        v.push(pairs_plain("weighted3", &[9, 1, 1, 17, 2, 1, 33, 1, 8, 1]));
        v.push(pairs_plain("weighted4", &[1, 1, 1, 65, 1, 1, 1, 1, 5, 1, 1]));
        v.push(bfs(Regs { n: 4, depth: 40 }));
        v.push(bfs(Regs { n: 5, depth: 40 }));
        v.push(bfs(Regs { n: 6, depth: 40 }));
    }
    v.extend(mc::each_elem!(algebra));
    v.push(mc::huge::set_algebra());
    v
}
fn main() {
    mc::run_main(Prop {
        id: "C01",
        level: "model_checking",
        rule: "a case is one pair of operand sets run through every form of every operation against list-membership reference; non-trivial when the sets share some elements and differ in others (for register histories: both registers non-empty)",
        assumptions: &["elements only interact with the code through Ord, Clone and Drop, so finite ordered universes stand for all element types with the same order pattern", "universe size bounds the number of elements per set (all pairs over up to 14 distinct atoms, block-weighted sets up to 73 elements, and large operands of up to 4099 elements in fixed relative positions)"],
        spaces,
    })
}
