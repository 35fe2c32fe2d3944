//! C08: total sets form a boolean algebra over an infinite universe.
use mc::{bfs, elem, elem::E, ensure, ensure_eq, gen::*, idx, sets::*, Cx, Prop, Space, System};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::sync::Arc;
use vec_collections::{total_vec_set::TotalVecSet, Array, VecSet};

fn h(x: &impl Hash) -> u64 { let mut s = DefaultHasher::new(); x.hash(&mut s); s.finish() }

/// membership of every universe element, plus that of all the elements never mentioned
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
struct D { at: Vec<u16>, m: Vec<bool>, rest: bool }
impl D {
    fn new(universe: &[u16], keys: &[u16], neg: bool) -> D { { let f = member(keys); D { at: universe.to_vec(), m: universe.iter().map(|k| f(*k) != neg).collect(), rest: neg } } }
    fn op(&self, o: &D, f: impl Fn(bool, bool) -> bool) -> D { D { at: self.at.clone(), m: self.m.iter().zip(&o.m).map(|(a, b)| f(*a, *b)).collect(), rest: f(self.rest, o.rest) } }
    fn all(&self, o: &D, f: impl Fn(bool, bool) -> bool) -> bool { f(self.rest, o.rest) && self.m.iter().zip(&o.m).all(|(a, b)| f(*a, *b)) }
    fn canon<T: Elem, A: Array<Item = T>>(&self) -> TotalVecSet<A> {
        let ks: Vec<u16> = self.at.iter().zip(&self.m).filter(|(_, m)| **m != self.rest).map(|(k, _)| *k).collect();
        mk(&ks, self.rest, false)
    }
}
fn mk<T: Elem, A: Array<Item = T>>(ks: &[u16], neg: bool, heap: bool) -> TotalVecSet<A> {
    let s: VecSet<A> = build(ks, 1, heap);
    let t: TotalVecSet<A> = s.into();
    if neg { !t } else { t }
}
/// `got` denotes exactly `want`, in the canonical representation
fn same<T: Elem, A: Array<Item = T>>(got: &TotalVecSet<A>, want: &D, probes: &[u16], what: &dyn Fn() -> String, cx: &mut Cx) {
    cx.op();
    for (k, m) in want.at.iter().zip(&want.m) { if got.contains(&T::mk(*k, 9)) != *m { mc::fail!("{}: contains({k}) should be {m}", what()) } }
    let mentioned = member(if probes.is_empty() { &[] } else { &want.at });
    for p in probes { if !mentioned(*p) && got.contains(&T::mk(*p, 9)) != want.rest { mc::fail!("{}: contains({p}) of a never mentioned element should be {}", what(), want.rest) } }
    let c: TotalVecSet<A> = want.canon();
    if !(*got == c && c == *got && !(*got != c)) { mc::fail!("{}: not equal to the same set built directly", what()) }
    if h(got) != h(&c) { mc::fail!("{}: hashes differently from the same set built directly", what()) }
    if got.is_empty() != (!want.rest && want.m.iter().all(|m| !m)) { mc::fail!("{}: is_empty", what()) }
    if got.is_all() != (want.rest && want.m.iter().all(|m| *m)) { mc::fail!("{}: is_all", what()) }
}
const OPS: [(&str, fn(bool, bool) -> bool); 4] = [("&", |a, b| a & b), ("|", |a, b| a | b), ("^", |a, b| a ^ b), ("-", |a, b| a & !b)];

#[allow(clippy::too_many_arguments)]
fn all_forms<T: Elem, A: Array<Item = T>>(ka: &[u16], na: bool, kb: &[u16], nb: bool, uni: &[u16], probes: &[u16], heap: (bool, bool), cx: &mut Cx) {
    let (da, db) = (D::new(uni, ka, na), D::new(uni, kb, nb));
    let mka = || mk::<T, A>(ka, na, heap.0);
    let mkb = || mk::<T, A>(kb, nb, heap.1);
    let (a, b) = (mka(), mkb());
    same(&a, &da, probes, &|| "construction".into(), cx);
    for (i, (n, f)) in OPS.iter().enumerate() {
        let want = da.op(&db, f);
        let got = match i { 0 => &a & &b, 1 => &a | &b, 2 => &a ^ &b, _ => &a - &b };
        same(&got, &want, probes, &|| format!("A {n} B"), cx);
        let mut x = mka();
        match i { 0 => x &= mkb(), 1 => x |= mkb(), 2 => x ^= mkb(), _ => x -= mkb() }
        same(&x, &want, probes, &|| format!("A {n}= B"), cx);
    }
    let not = D { at: da.at.clone(), m: da.m.iter().map(|m| !m).collect(), rest: !da.rest };
    same(&!&a, &not, probes, &|| "!&A".into(), cx);
    same(&!mka(), &not, probes, &|| "!A".into(), cx);
    cx.ops(4);
    ensure_eq!(a.is_subset(&b), da.all(&db, |x, y| !x | y), "is_subset");
    ensure_eq!(a.is_superset(&b), da.all(&db, |x, y| x | !y), "is_superset");
    ensure_eq!(a.is_disjoint(&b), da.all(&db, |x, y| !(x & y)), "is_disjoint");
    ensure_eq!(a == b, da == db, "equality");
    if da == db { ensure!(h(&a) == h(&b), "equal sets hash differently") }
    // operands unchanged
    same(&a, &da, &[], &|| "A after the operations".into(), cx);
    same(&b, &db, &[], &|| "B after the operations".into(), cx);
    same(&a.clone(), &da, &[], &|| "clone of A".into(), cx);
}
fn pairs(name: &str, w: &[usize], tracked: bool) -> Box<dyn Space> {
    let at = Atoms::new(w);
    let at2 = at.clone();
    let n = at.masks() * 2;
    let probes: Vec<u16> = at.probes();
    idx(format!("total-pairs-{name}"), format!("all pairs of finite and cofinite sets over {} atoms of sizes {w:?} plus the never-mentioned rest; every operator form, predicate, equality, hash", at.n()),
        n * n,
        move |i, cx| {
            let (x, y) = pair(i, n);
            let (ka, kb) = (at.elems(x / 2), at.elems(y / 2));
            let (na, nb) = (x % 2 == 1, y % 2 == 1);
            let uni = at.elems(at.masks() - 1);
            cx.nontrivial_if(x != y && !ka.is_empty() && !kb.is_empty());
            if tracked {
                elem::reset();
                for heap in [(false, false), (true, false), (false, true)] { all_forms::<E, [E; 4]>(&ka, na, &kb, nb, &uni, &probes, heap, cx) }
                elem::check_clean(false);
            }
            all_forms::<u16, [u16; 2]>(&ka, na, &kb, nb, &uni, &probes, (false, false), cx);
            cx.outcome((&ka, &kb, na, nb));
        },
        move |i| { let (x, y) = pair(i, n); let s = |x: u64| format!("{}{:?}", if x % 2 == 1 { "!" } else { "" }, at2.elems(x / 2)); format!("A={} B={}", s(x), s(y)) })
}
/// one total set as both operands of every form that borrows them
fn selfs<T: Elem, A: Array<Item = T>>(k: &[u16], neg: bool, uni: &[u16], probes: &[u16], heap: bool, cx: &mut Cx) {
    let d = D::new(uni, k, neg);
    let a = mk::<T, A>(k, neg, heap);
    for (i, (n, f)) in OPS.iter().enumerate() {
        let got = match i { 0 => &a & &a, 1 => &a | &a, 2 => &a ^ &a, _ => &a - &a };
        same(&got, &d.op(&d, f), probes, &|| format!("A {n} A"), cx);
    }
    cx.ops(4);
    ensure!(a.is_subset(&a), "A is_subset A");
    ensure!(a.is_superset(&a), "A is_superset A");
    ensure_eq!(a.is_disjoint(&a), k.is_empty() && !neg, "A is_disjoint A");
    #[allow(clippy::eq_op)]
    { ensure!(a == a && !(a != a), "A == A") }
    same(&a, &d, probes, &|| "A after the operations".into(), cx);
}
fn self_pairs(name: &str, w: &[usize]) -> Box<dyn Space> {
    let at = Atoms::new(w);
    let at2 = at.clone();
    let probes: Vec<u16> = at.probes();
    idx(format!("self-{name}"), format!("every finite and cofinite set over {} atoms of sizes {w:?} as both operands at once (the same object)", at.n()), at.masks() * 2,
        move |i, cx| {
            let (k, neg) = (at.elems(i / 2), i % 2 == 1);
            let uni = at.elems(at.masks() - 1);
            cx.nontrivial_if(!k.is_empty());
            cx.outcome((&k, neg));
            elem::reset();
            for heap in [false, true] {
                selfs::<E, [E; 4]>(&k, neg, &uni, &probes, heap, cx);
                selfs::<u16, [u16; 2]>(&k, neg, &uni, &probes, heap, cx);
            }
            elem::check_clean(false);
        },
        move |i| format!("A=B={}{:?}", if i % 2 == 1 { "!" } else { "" }, at2.elems(i / 2)))
}
/// pairs of large operands
fn large(name: &str, what: &str, ps: Vec<(Vec<u16>, Vec<u16>)>, tracked: bool) -> Box<dyn Space> {
    let ps = Arc::new(ps);
    let ps2 = ps.clone();
    idx(format!("large-{name}"), format!("{what}, finite and cofinite; every operator form, predicate, equality, hash"), ps.len() as u64 * 4,
        move |i, cx| {
            let (ka, kb) = &ps[(i / 4) as usize];
            let (na, nb) = (i & 1 == 1, i & 2 == 2);
            let mut uni: Vec<u16> = ka.iter().chain(kb).copied().collect();
            uni.sort();
            uni.dedup();
            let mut probes: Vec<u16> = [0, 1, 3, 60_000].to_vec();
            probes.extend(uni.iter().map(|k| k + 1).filter(|p| p % 8 == 3));
            cx.nontrivial_if(!ka.is_empty() && !kb.is_empty() && (ka != kb || na != nb));
            all_forms::<u16, [u16; 2]>(ka, na, kb, nb, &uni, &probes, (false, false), cx);
            if tracked {
                elem::reset();
                all_forms::<E, [E; 4]>(ka, na, kb, nb, &uni, &probes[..4], (true, false), cx);
                elem::check_clean(false);
            }
        },
        move |i| format!("A={}{} B={}{}", if i & 1 == 1 { "!" } else { "" }, runs(&ps2[(i / 4) as usize].0), if i & 2 == 2 { "!" } else { "" }, runs(&ps2[(i / 4) as usize].1)))
}

struct Regs { n: u16 }
impl System for Regs {
    fn name(&self) -> String { format!("total-registers-{}", self.n) }
    fn about(&self) -> String { format!("two total-set registers over {} keys and the rest: insert, remove, the four assigning operators, both negations, swap, clone, constants, shrink; state = denotation of both", self.n) }
    fn actions(&self) -> usize { 2 * self.n as usize + 13 }
    fn max_depth(&self) -> usize { 40 }
    fn describe(&self, p: &[u16]) -> String {
        p[1..].iter().map(|a| {
            let k = 2 * self.n;
            if *a < k { format!("{}({})", if a % 2 == 0 { "insert" } else { "remove" }, a / 2 * 2 + 2) }
            else { ["&=", "|=", "^=", "-=", "X:=!X", "X:=!&X", "swap", "Y:=clone X", "X:=empty", "X:=all", "shrink", "X:=false", "X:=true"][(*a - k) as usize].to_string() }
        }).collect::<Vec<_>>().join("; ")
    }
    fn replay(&self, path: &[u16], cx: &mut Cx) -> Option<Vec<u8>> {
        elem::reset();
        let uni: Vec<u16> = (0..self.n).map(|i| 2 * i + 2).collect();
        let probes: Vec<u16> = (1..=2 * self.n + 3).collect();
        let key;
        {
            type S = TotalVecSet<[E; 2]>;
            let (mut x, mut y): (S, S) = (S::empty(), S::empty());
            let (mut dx, mut dy) = (D::new(&uni, &[], false), D::new(&uni, &[], false));
            for (step, a) in path[1..].iter().enumerate() {
                let k = 2 * self.n;
                if *a < k {
                    let i = (*a / 2) as usize;
                    let e = E::new(uni[i], step as u16);
                    if a % 2 == 0 { x.insert(e); dx.m[i] = true } else { x.remove(&e); dx.m[i] = false }
                } else {
                    match *a - k {
                        i @ 0..=3 => {
                            match i { 0 => x &= y.clone(), 1 => x |= y.clone(), 2 => x ^= y.clone(), _ => x -= y.clone() }
                            dx = dx.op(&dy, OPS[i as usize].1);
                        }
                        i @ 4..=5 => { x = if i == 4 { !x } else { !&x }; dx = D { at: dx.at, m: dx.m.iter().map(|m| !m).collect(), rest: !dx.rest } }
                        6 => { std::mem::swap(&mut x, &mut y); std::mem::swap(&mut dx, &mut dy) }
                        7 => { y = x.clone(); dy = dx.clone() }
                        8 => { x = S::empty(); dx = D::new(&uni, &[], false) }
                        9 => { x = S::all(); dx = D::new(&uni, &[], true) }
                        10 => x.shrink_to_fit(),
                        11 => { x = S::from(false); dx = D::new(&uni, &[], false) }
                        _ => { x = S::constant(true); dx = D::new(&uni, &[], true) }
                    }
                }
                same(&x, &dx, &probes, &|| format!("X after step {step}"), cx);
                same(&y, &dy, &probes, &|| format!("Y after step {step}"), cx);
                ensure_eq!(x == y, dx == dy, "X == Y");
                ensure_eq!(x.is_subset(&y), dx.all(&dy, |x, y| !x | y), "X is_subset Y");
                ensure_eq!(x.is_superset(&y), dx.all(&dy, |x, y| x | !y), "X is_superset Y");
                ensure_eq!(x.is_disjoint(&y), dx.all(&dy, |x, y| !(x & y)), "X is_disjoint Y");
            }
            cx.nontrivial_if(dx != dy);
            let f = |d: &D| d.m.iter().chain([&d.rest]).map(|b| *b as u8).collect::<Vec<_>>();
            key = [f(&dx), f(&dy)].concat();
        }
        elem::check_clean(false);
        Some(key)
    }
}
fn spaces(th: bool) -> Vec<Box<dyn Space>> {
    let mut v = vec![
        pairs("5", &[1; 5], true),
        pairs("8", &[1; 8], false),
        pairs("weighted", &[1, 9, 2, 5], true),
        pairs("weighted2", &[3, 1, 17, 1, 1, 10], false),
        self_pairs("10", &[1; 10]),
        self_pairs("weighted", &[1, 9, 2, 1, 5, 65, 1]),
        large("grid", "pairs of exception sets of 24 lengths up to 300 in 14 relative positions", grid(&SOME_LENS), false),
        large("grid-tracked", "pairs of exception sets of 14 lengths up to 129 in 14 relative positions, tracked elements", grid(&[0, 1, 2, 3, 5, 8, 9, 16, 17, 33, 64, 65, 128, 129]), true),
        large("longest", "pairs of exception sets of lengths up to 1025 in 14 relative positions", grid(&[0, 1, 10, 64, 128, 512, 1000, 1025]), false),
        large("sweep", "exception sets of 9..100 elements differing at one place, every place", sweep(&[9, 17, 33, 65, 100]), false),
        bfs(Regs { n: 3 }),
    ];
    if th {
        v.push(pairs("10", &[1; 10], false));
        v.push(pairs("8-tracked", &[1; 8], true));
        v.push(pairs("weighted3", &[1, 8, 1, 2, 16, 1, 33, 1], true));
        v.push(bfs(Regs { n: 4 }));
        v.push(bfs(Regs { n: 5 }));
    }
    v.extend(mc::each_elem!(total_sets));
    v.push(mc::huge::totals());
    v
}
fn main() {
    mc::run_main(Prop {
        id: "C08",
        level: "model_checking",
        rule: "a pair case runs every operator form and predicate against pointwise membership over the universe plus its rest; a history state is the pair of denotations of two registers, reached by replay on real sets; non-trivial: the two sets differ (pairs: and both have exceptions)",
        assumptions: &["elements that are never mentioned are interchangeable, so one class 'rest' (probed below, between and above the universe) stands for all of them", "bounded number of mentioned elements: all pairs over up to 10, block-weighted up to 63, large ones up to 1025 in fixed relative positions"],
        spaces,
    })
}
