//! C09: total maps are pointwise functions with one representation.
use mc::{ensure, ensure_eq, gen::*, idx, Cx, Prop, Space};
use num_traits::{Bounded, One, Zero};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::ops::*;
use std::sync::Arc;
use vec_collections::{total_vec_map::TotalVecMap, AbstractVecMap};

/// integers modulo 3: results of arithmetic coincide with the default all the time
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Default)]
struct F3(u8);
impl Add for F3 { type Output = F3; fn add(self, o: F3) -> F3 { F3((self.0 + o.0) % 3) } }
impl Sub for F3 { type Output = F3; fn sub(self, o: F3) -> F3 { F3((self.0 + 3 - o.0) % 3) } }
impl Mul for F3 { type Output = F3; fn mul(self, o: F3) -> F3 { F3((self.0 * o.0) % 3) } }
impl Div for F3 { type Output = F3; fn div(self, o: F3) -> F3 { F3(self.0 / (o.0 + 1)) } }
impl Neg for F3 { type Output = F3; fn neg(self) -> F3 { F3((3 - self.0) % 3) } }
impl Zero for F3 { fn zero() -> F3 { F3(0) } fn is_zero(&self) -> bool { self.0 == 0 } }
impl One for F3 { fn one() -> F3 { F3(1) } }
impl Bounded for F3 { fn min_value() -> F3 { F3(0) } fn max_value() -> F3 { F3(2) } }

type T = TotalVecMap<F3, [(u16, F3); 2]>;
fn h(x: &impl Hash) -> u64 { let mut s = DefaultHasher::new(); x.hash(&mut s); s.finish() }

/// the denoted function: one value per universe key, and the value everywhere else
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
struct Fun { at: Vec<(u16, F3)>, rest: F3 }
struct Uni { at: Atoms, size: u64 }
impl Uni {
    fn new(w: &[usize]) -> Uni { Uni { at: Atoms::new(w), size: 3u64.pow(w.len() as u32 + 1) } }
    fn fun(&self, mut i: u64) -> Fun {
        let rest = F3((i % 3) as u8);
        i /= 3;
        let mut at = vec![];
        for a in 0..self.at.n() { for k in self.at.elems(1 << a) { at.push((k, F3((i % 3) as u8))) } i /= 3; }
        Fun { at, rest }
    }
}
impl Fun {
    /// built from every mapping, including those equal to the default
    fn build(&self) -> T { T::new(self.at.iter().copied().collect(), self.rest) }
    /// built from the non-default mappings only
    fn build_min(&self) -> T { T::new(self.at.iter().filter(|e| e.1 != self.rest).copied().collect(), self.rest) }
    fn op(&self, o: &Fun, f: impl Fn(F3, F3) -> F3) -> Fun { Fun { at: self.at.iter().zip(&o.at).map(|(a, b)| (a.0, f(a.1, b.1))).collect(), rest: f(self.rest, o.rest) } }
    fn map(&self, f: impl Fn(F3) -> F3) -> Fun { Fun { at: self.at.iter().map(|a| (a.0, f(a.1))).collect(), rest: f(self.rest) } }
    fn stored(&self) -> Vec<(u16, F3)> { self.at.iter().filter(|e| e.1 != self.rest).copied().collect() }
}
fn same(got: &T, want: &Fun, what: &dyn Fn() -> String, cx: &mut Cx) {
    cx.op();
    for (k, v) in &want.at { if got[k] != *v { mc::fail!("{}: [{k}] is {:?}, expected {:?}", what(), got[k], v) } }
    for k in [0, 1, 3, 5, 60_000] { if got[&k] != want.rest { mc::fail!("{}: [{k}] (never stored) is {:?}, expected {:?}", what(), got[&k], want.rest) } }
    if got.non_default_mappings().as_slice() != want.stored().as_slice() { mc::fail!("{}: stored mappings {:?}, expected {:?}", what(), got.non_default_mappings(), want.stored()) }
}
fn same_eq(got: &T, want: &Fun, what: &dyn Fn() -> String, cx: &mut Cx) {
    same(got, want, what, cx);
    let c = want.build_min();
    if !(*got == c && c == *got && got.cmp(&c) == Ordering::Equal && h(got) == h(&c)) { mc::fail!("{}: not equal (eq, cmp, hash) to the same function built directly", what()) }
}

fn singles(name: &str, w: &[usize]) -> Box<dyn Space> {
    let u = Arc::new(Uni::new(w));
    let u2 = u.clone();
    idx(format!("total-map-{name}"), format!("all functions to Z/3 over {} atoms of sizes {w:?} and the rest: lookup, representation, constants, negation, all 27 value functions", u.at.n()),
        u.size,
        move |i, cx| {
            let f = u.fun(i);
            cx.nontrivial_if(!f.stored().is_empty());
            cx.outcome(&f);
            let t = f.build();
            same_eq(&t, &f, &|| "construction with default-valued entries".into(), cx);
            same_eq(&t.clone(), &f, &|| "clone".into(), cx);
            same_eq(&-t.clone(), &f.map(|v| -v), &|| "negation".into(), cx);
            ensure_eq!(t.is_zero(), f.rest.0 == 0 && f.stored().is_empty(), "is_zero");
            ensure_eq!(t.is_one(), f.rest.0 == 1 && f.stored().is_empty(), "is_one");
            for code in 0..27u32 {
                let g = |v: F3| F3((code / 3u32.pow(v.0 as u32) % 3) as u8);
                same_eq(&t.map_values(|v| g(*v)), &f.map(g), &|| format!("map_values #{code}"), cx);
                // into another value type
                let b: TotalVecMap<bool, [(u16, bool); 4]> = t.map_values(|v| g(*v).0 == 1);
                let want = |v: F3| g(v).0 == 1;
                for (k, v) in &f.at { ensure_eq!(b[k], want(*v), "map_values to bool [{k}]") }
                ensure_eq!(b[&1], want(f.rest), "map_values to bool elsewhere");
                ensure!(b.non_default_mappings().iter().all(|e| e.1 != want(f.rest)), "map_values to bool stored a default value");
            }
            if f.stored().is_empty() {
                let none = Fun { at: f.at.iter().map(|e| (e.0, f.rest)).collect(), rest: f.rest };
                same_eq(&T::constant(f.rest), &none, &|| "constant".into(), cx);
                same_eq(&f.rest.into(), &none, &|| "From<V>".into(), cx);
                let c = |v: F3| Fun { at: f.at.iter().map(|e| (e.0, v)).collect(), rest: v };
                same_eq(&T::zero(), &c(F3(0)), &|| "zero".into(), cx);
                same_eq(&T::one(), &c(F3(1)), &|| "one".into(), cx);
                same_eq(&T::min_value(), &c(F3(0)), &|| "min_value".into(), cx);
                same_eq(&T::max_value(), &c(F3(2)), &|| "max_value".into(), cx);
                same_eq(&T::default(), &c(F3(0)), &|| "default".into(), cx);
            }
        },
        move |i| format!("{:?}", u2.fun(i)))
}
fn pairs(name: &str, w: &[usize]) -> Box<dyn Space> {
    let u = Arc::new(Uni::new(w));
    let u2 = u.clone();
    let n = u.size;
    let pre: Arc<Vec<(Fun, T, T)>> = Arc::new((0..n).map(|i| { let f = u.fun(i); let t = (f.build(), f.build_min()); (f, t.0, t.1) }).collect());
    idx(format!("total-map-pairs-{name}"), format!("all pairs of functions to Z/3 over {} atoms of sizes {w:?} and the rest: arithmetic, supremum, infimum, combine, equality, order, hash", u.at.n()),
        n * n,
        move |i, cx| {
            let ((fa, a, a2), (fb, b, _)) = (&pre[(i / n) as usize], &pre[(i % n) as usize]);
            pair_case(fa, a, a2, fb, b, cx);
        },
        move |i| format!("A={:?} B={:?}", u2.fun(i / n), u2.fun(i % n)))
}
/// pairs of functions with many mappings
fn large(name: &str, what: &str, ps: Vec<(Vec<u16>, Vec<u16>)>) -> Box<dyn Space> {
    let ps = Arc::new(ps);
    let ps2 = ps.clone();
    idx(format!("total-map-large-{name}"), format!("{what}, 9 pairs of defaults: everything checked for pairs"), ps.len() as u64 * 9,
        move |i, cx| {
            let (ka, kb) = &ps[(i / 9) as usize];
            let (ra, rb) = ((i % 3) as u8, (i / 3 % 3) as u8);
            let (ina, inb) = (member(ka), member(kb));
            let mut all: Vec<u16> = ka.iter().chain(kb).copied().collect();
            all.sort();
            all.dedup();
            let f = |ks: &dyn Fn(u16) -> bool, r: u8, p: u16| Fun { at: all.iter().map(|k| (*k, F3(if ks(*k) { (r + 1 + (k / p % 2) as u8) % 3 } else { r }))).collect(), rest: F3(r) };
            let (fa, fb) = (f(&ina, ra, 2), f(&inb, rb, 4));
            pair_case(&fa, &fa.build(), &fa.build_min(), &fb, &fb.build(), cx);
        },
        move |i| format!("A: mappings at {}, default {}; B: mappings at {}, default {}", runs(&ps2[(i / 9) as usize].0), i % 3, runs(&ps2[(i / 9) as usize].1), i / 3 % 3))
}
fn pair_case(fa: &Fun, a: &T, a2: &T, fb: &Fun, b: &T, cx: &mut Cx) {
            cx.nontrivial_if(!fa.stored().is_empty() && !fb.stored().is_empty() && fa != fb);
            let (ca, cb) = (|| a.clone(), || b.clone());
            same_eq(&(ca() + cb()), &fa.op(fb, |x, y| x + y), &|| "A + B".into(), cx);
            same_eq(&(ca() - cb()), &fa.op(fb, |x, y| x - y), &|| "A - B".into(), cx);
            same_eq(&(ca() * cb()), &fa.op(fb, |x, y| x * y), &|| "A * B".into(), cx);
            same_eq(&(ca() / cb()), &fa.op(fb, |x, y| x / y), &|| "A / B".into(), cx);
            same_eq(&a.supremum(b), &fa.op(fb, |x, y| x.max(y)), &|| "supremum".into(), cx);
            same_eq(&a.infimum(b), &fa.op(fb, |x, y| x.min(y)), &|| "infimum".into(), cx);
            same_eq(&a.combine_ref(b, |x, _| *x), fa, &|| "combine (left projection)".into(), cx);
            same_eq(&a.combine_ref(b, |_, y| *y), fb, &|| "combine (right projection)".into(), cx);
            same_eq(&a2.combine_ref(b, |x, y| F3((x.0 == y.0) as u8)), &fa.op(fb, |x, y| F3((x.0 == y.0) as u8)), &|| "combine (equality indicator)".into(), cx);
            same(a, fa, &|| "A afterwards".into(), cx);
            same(b, fb, &|| "B afterwards".into(), cx);
            let eq = fa == fb;
            ensure!((a == b) == eq && (a != b) == !eq && (a2 == b) == eq, "A == B should be {eq}");
            ensure!((a.cmp(b) == Ordering::Equal) == eq, "cmp Equal should be {eq}");
            ensure!(a.partial_cmp(b) == Some(a.cmp(b)) && a.cmp(b) == b.cmp(a).reverse() && a2.cmp(b) == a.cmp(b), "cmp inconsistent");
            if eq { ensure!(h(a) == h(b) && h(a2) == h(b), "equal maps hash differently") }
            cx.outcome((fa.op(fb, |x, y| x + y), eq));
}
/// every binary value function
fn functions(w: &[usize], step: u64) -> Box<dyn Space> {
    let u = Arc::new(Uni::new(w));
    let u2 = u.clone();
    let n = u.size;
    let fs = 19683 / step;
    let pre: Arc<Vec<(Fun, T)>> = Arc::new((0..n).map(|i| { let f = u.fun(i); let t = f.build(); (f, t) }).collect());
    idx(format!("total-map-all-functions-{w:?}"), format!("combine_ref with {} functions (Z/3)^2 -> Z/3 for all pairs over atoms {w:?} and the rest", if step == 1 { "all".into() } else { format!("every {step}th of the") }),
        n * n * fs,
        move |i, cx| {
            let (code, p) = (i / (n * n) * step, i % (n * n));
            let ((fa, a), (fb, b)) = (&pre[(p / n) as usize], &pre[(p % n) as usize]);
            let mut table = [0u8; 9];
            let mut c = code;
            for t in table.iter_mut() { *t = (c % 3) as u8; c /= 3 }
            let f = |x: F3, y: F3| F3(table[(x.0 * 3 + y.0) as usize]);
            cx.nontrivial_if(!fa.stored().is_empty() && !fb.stored().is_empty());
            same(&a.combine_ref(b, |x, y| f(*x, *y)), &fa.op(fb, f), &|| format!("combine_ref with table {table:?}"), cx);
        },
        move |i| { let p = i % (n * n); format!("A={:?} B={:?} function #{}", u2.fun(p / n), u2.fun(p % n), i / (n * n) * step) })
}
/// the order is a total order (transitivity needs triples)
fn triples(w: &[usize]) -> Box<dyn Space> {
    let u = Arc::new(Uni::new(w));
    let u2 = u.clone();
    let n = u.size;
    let pre: Arc<Vec<T>> = Arc::new((0..n).map(|i| u.fun(i).build()).collect());
    idx(format!("total-map-order-{w:?}"), "all triples: the order is transitive", n * n * n,
        move |i, cx| {
            let (a, b, c) = (&pre[(i / n / n) as usize], &pre[(i / n % n) as usize], &pre[(i % n) as usize]);
            cx.op();
            cx.nontrivial_if(a != b && b != c && a != c);
            if a <= b && b <= c { ensure!(a <= c, "a<=b, b<=c but not a<=c") }
            if a < b && b <= c { ensure!(a < c, "a<b, b<=c but not a<c") }
        },
        move |i| format!("{:?} {:?} {:?}", u2.fun(i / n / n), u2.fun(i / n % n), u2.fun(i % n)))
}
fn spaces(th: bool) -> Vec<Box<dyn Space>> {
    let mut v = vec![
        singles("8", &[1; 8]),
        singles("weighted", &[1, 9, 2, 5, 17]),
        pairs("5", &[1; 5]),
        pairs("weighted", &[1, 9, 2, 5, 1]),
        large("grid", "pairs of functions with mappings at 18 numbers of keys up to 257 in 14 relative positions", grid(&[0, 1, 2, 3, 4, 5, 8, 9, 16, 17, 31, 32, 33, 64, 65, 128, 129, 257])),
        large("longest", "pairs of functions with mappings at up to 1025 keys in 14 relative positions", grid(&[0, 1, 10, 64, 512, 1000, 1025])),
        large("sweep", "functions with 9..65 mappings differing at one place, every place", sweep(&[9, 17, 33, 65]).into_iter().map(|(a, b)| (a.iter().map(|k| 2 * k).collect(), b.iter().map(|k| 2 * k).collect())).collect()),
        functions(&[1], 1),
        functions(&[1, 1], 1),
        triples(&[1, 1, 1]),
    ];
    if th {
        v.push(pairs("7", &[1; 7]));
        v.push(pairs("weighted2", &[1, 17, 1, 3, 1, 9]));
        v.push(functions(&[1, 1, 1], 1));
        v.push(triples(&[1, 1, 1, 1]));
    }
    { use mc::types::*; v.extend([total_maps::<(), u16>(), total_maps::<bool, String>(), total_maps::<u8, ()>(), total_maps::<i8, u64>(), total_maps::<u64, Huge>(), total_maps::<Rev, i8>(), total_maps::<Fold, Box<i16>>(), total_maps::<String, String>(), total_maps::<Huge, bool>()]) }
    v.push(mc::huge::total_map_ops());
    v
}
fn main() {
    mc::run_main(Prop {
        id: "C09",
        level: "exploration",
        rule: "a case is one total map, pair or triple (denoted functions enumerated completely over the universe plus the rest, values in Z/3) through every operation, compared pointwise; distinct by construction; non-trivial: the maps have non-default mappings (pairs: and differ; triples: all different)",
        assumptions: &["keys that are never stored are interchangeable", "operations treat values only through Eq/Ord and the given function, so a three-valued type exposes every coincidence with the default"],
        spaces,
    })
}
