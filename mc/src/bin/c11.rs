//! C11: radix tree combination is exact, copying and in place.
use mc::radix::*;
use mc::{check_tree, fail, idx, Cx, Prop, Space};
use std::cell::RefCell;
use std::sync::Arc;
use vec_collections::radix_tree::{AbstractRadixTree, AbstractRadixTreeMut, TValue};

/// what the user function answers for a shared key, by pattern and key index
#[derive(Clone, Copy, Debug)]
enum Pat {
    Keep,
    Replace,
    Remove,
    /// remove where the bit of the key index is clear, otherwise keep (even) or replace (odd index)
    Bits(u64),
}
fn decide(p: Pat, l: V, r: V) -> Option<V> {
    let k = l % 1000;
    match p {
        Pat::Keep => Some(l),
        Pat::Replace => Some(r),
        Pat::Remove => None,
        Pat::Bits(m) => if m >> (k % 64) & 1 == 0 { None } else if k % 2 == 0 { Some(l) } else { Some(l ^ r) },
    }
}
type Log = RefCell<Vec<(V, V)>>;
struct Exp { outer: Ents, inner: Ents, left: Ents, calls: Vec<(V, V)> }
fn expect(a: &Ents, b: &Ents, p: Pat) -> Exp {
    let (mut o, mut i, mut l, mut calls) = (vec![], vec![], vec![], vec![]);
    let (mut x, mut y) = (0, 0);
    while x < a.len() || y < b.len() {
        if y == b.len() || (x < a.len() && a[x].0 < b[y].0) { o.push(a[x]); l.push(a[x]); x += 1 }
        else if x == a.len() || b[y].0 < a[x].0 { o.push(b[y]); y += 1 }
        else {
            calls.push((a[x].1, b[y].1));
            if let Some(v) = decide(p, a[x].1, b[y].1) { let e = (a[x].0, v); o.push(e); i.push(e); l.push(e) }
            x += 1;
            y += 1;
        }
    }
    calls.sort();
    Exp { outer: o, inner: i, left: l, calls }
}
struct T<'a> { keys: &'a [Key], e: &'a Exp, p: Pat, what: &'a str }
impl T<'_> {
    fn done<X: AbstractRadixTree<u8, V>>(&self, op: &str, t: &X, want: &Ents, log: Option<Log>, cx: &mut Cx) {
        cx.op();
        check_tree!(t, self.keys, want, "{op} ({}, {:?})", self.what, self.p);
        if let Some(l) = log {
            let mut l = l.into_inner();
            l.sort();
            if l != self.e.calls { fail!("{op} ({}): the function was called with (left, right) {:?}, expected {:?}", self.what, l, self.e.calls) }
        }
    }
}
fn call(log: &Log, p: Pat, l: V, r: V) -> Option<V> { log.borrow_mut().push((l, r)); decide(p, l, r) }
fn upd(log: &Log, p: Pat, l: &mut V, r: V) -> bool { match call(log, p, *l, r) { Some(v) => { *l = v; true } None => false } }

/// operations needing the same materialized type
fn outer<A, B, M>(a: &A, b: &B, t: &T, cx: &mut Cx)
where A: AbstractRadixTree<u8, V, Materialized = M>, B: AbstractRadixTree<u8, V, Materialized = M>, M: AbstractRadixTreeMut<u8, V, Materialized = M> {
    let log = Log::default();
    let r = a.outer_combine(b, |x, y| call(&log, t.p, *x, *y));
    t.done("outer_combine", &r, &t.e.outer, Some(log), cx);
}
fn outer_mut<M, B>(a: &M, b: &B, t: &T, cx: &mut Cx)
where M: AbstractRadixTreeMut<u8, V, Materialized = M>, B: AbstractRadixTree<u8, V, Materialized = M> {
    let log = Log::default();
    let mut r = a.clone();
    r.outer_combine_with(b, |x, y| upd(&log, t.p, x, *y));
    t.done("outer_combine_with", &r, &t.e.outer, Some(log), cx);
    if let Pat::Keep = t.p {
        t.done("union", &a.union(b), &t.e.outer, None, cx);
        let mut r = a.clone();
        r.union_with(b);
        t.done("union_with", &r, &t.e.outer, None, cx);
    }
}
/// operations with any right hand side
fn others<A, B>(a: &A, b: &B, t: &T, cx: &mut Cx) where A: AbstractRadixTree<u8, V>, B: AbstractRadixTree<u8, V> {
    let log = Log::default();
    let r = a.inner_combine(b, |x, y| call(&log, t.p, *x, *y));
    t.done("inner_combine", &r, &t.e.inner, Some(log), cx);
    let log = Log::default();
    let none = RefCell::new(0);
    let r = a.left_combine(b, |x, y: Option<&V>| match y { Some(y) => call(&log, t.p, *x, *y), None => { *none.borrow_mut() += 1; Some(*x) } });
    t.done("left_combine", &r, &t.e.left, Some(log), cx);
    if none.into_inner() > 0 { fail!("left_combine ({}): the function was consulted for keys that are only in the left tree", t.what) }
}
fn others_mut<M, B>(a: &M, b: &B, t: &T, cx: &mut Cx) where M: AbstractRadixTreeMut<u8, V, Materialized = M>, B: AbstractRadixTree<u8, V> {
    let log = Log::default();
    let mut r = a.clone();
    r.inner_combine_with(b, |x, y| upd(&log, t.p, x, *y));
    t.done("inner_combine_with", &r, &t.e.inner, Some(log), cx);
    let log = Log::default();
    let mut r = a.clone();
    r.left_combine_with(b, |x, y| upd(&log, t.p, x, *y));
    t.done("left_combine_with", &r, &t.e.left, Some(log), cx);
    derived(a, b, t, cx);
}
/// intersection and difference, with a right hand side of any value type
fn derived<M, B, W>(a: &M, b: &B, t: &T, cx: &mut Cx) where M: AbstractRadixTreeMut<u8, V, Materialized = M>, W: TValue, B: AbstractRadixTree<u8, W> {
    if let Pat::Keep = t.p {
        t.done("intersection", &a.intersection(b), &t.e.inner, None, cx);
        let mut r = a.clone();
        r.intersection_with(b);
        t.done("intersection_with", &r, &t.e.inner, None, cx);
    }
    if let Pat::Remove = t.p {
        t.done("difference", &a.difference(b), &t.e.left, None, cx);
        let mut r = a.clone();
        r.difference_with(b);
        t.done("difference_with", &r, &t.e.left, None, cx);
    }
}

fn pairs(u: Uni, pats: Vec<Pat>, full: bool) -> Box<dyn Space> {
    let u = Arc::new(u);
    let u2 = u.clone();
    let n = u.len();
    let np = pats.len() as u64;
    let pre: Arc<Vec<(Pre, Pre)>> = Arc::new((0..n).map(|i| (Pre::new(&u, i, L), Pre::new(&u, i, R))).collect());
    idx(format!("pairs-{}", u.name), format!("{}: all pairs x {np} answer patterns; outer/inner/left combine, union, intersection, difference, copying and in place{}", u.about(),
            if full { "; flat, shared and lazy trees with owned, archived and mixed-flavour right sides, archived left sides" } else { "; flat trees" }),
        n * n * np,
        move |i, cx| {
            let p = pats[(i % np) as usize];
            let (x, y) = (i / np / n, i / np % n);
            let (a, b) = (&pre[x as usize].0, &pre[y as usize].1);
            let e = expect(&a.ents, &b.ents, p);
            cx.nontrivial_if(!e.calls.is_empty() && e.inner.len() < e.outer.len());
            let mut t = T { keys: &u.keys, e: &e, p, what: "flat, flat" };
            outer(&a.flat, &b.flat, &t, cx);
            outer_mut(&a.flat, &b.flat, &t, cx);
            others(&a.flat, &b.flat, &t, cx);
            others_mut(&a.flat, &b.flat, &t, cx);
            check_tree!(&b.flat, &u.keys, &b.ents, "right operand after the operations");
            if full {
                t.what = "flat, archived flat";
                outer_mut(&a.flat, b.aflat(), &t, cx);
                others_mut(&a.flat, b.aflat(), &t, cx);
                outer(&a.flat, b.aflat(), &t, cx);
                t.what = "archived flat, flat";
                outer(a.aflat(), &b.flat, &t, cx);
                others(a.aflat(), &b.flat, &t, cx);
                t.what = "shared, shared";
                outer(&a.arc, &b.arc, &t, cx);
                outer_mut(&a.arc, &b.arc, &t, cx);
                others(&a.arc, &b.arc, &t, cx);
                others_mut(&a.arc, &b.arc, &t, cx);
                t.what = "shared, archived shared";
                outer_mut(&a.arc, b.aarc(), &t, cx);
                others_mut(&a.arc, b.aarc(), &t, cx);
                t.what = "archived shared, archived shared";
                outer(a.aarc(), b.aarc(), &t, cx);
                others(a.aarc(), b.aarc(), &t, cx);
                t.what = "lazy, lazy";
                let (la, lb) = (a.lazy(), b.lazy());
                outer_mut(&la, &lb, &t, cx);
                others(&la, &lb, &t, cx);
                others_mut(&a.lazy(), &b.lazy(), &t, cx);
                t.what = "loaded lazy, archived lazy";
                let lc = a.lazy_loaded();
                outer(&lc, b.alazy(), &t, cx);
                outer_mut(&lc, b.alazy(), &t, cx);
                others_mut(&lc, b.alazy(), &t, cx);
                t.what = "archived lazy, archived lazy";
                outer(a.alazy(), b.alazy(), &t, cx);
                others(a.alazy(), b.alazy(), &t, cx);
                t.what = "flat, shared";
                others_mut(&a.flat, &b.arc, &t, cx);
                t.what = "shared, archived lazy";
                others_mut(&a.arc, b.alazy(), &t, cx);
                t.what = "lazy, archived flat";
                others_mut(&a.lazy(), b.aflat(), &t, cx);
                let unit: vec_collections::radix_tree::RadixTree<u8, ()> = build(&u.keys, b.ents.iter().map(|e| (e.0, ())));
                t.what = "shared, flat set";
                derived(&a.arc, &unit, &t, cx);
                t.what = "flat, flat set";
                derived(&a.flat, &unit, &t, cx);
                check_tree!(&b.arc, &u.keys, &b.ents, "right operand (shared) after the operations");
                check_tree!(&lb, &u.keys, &b.ents, "right operand (lazy) after the operations");
                check_tree!(&la, &u.keys, &a.ents, "left operand (lazy) after the operations");
                check_tree!(&a.arc, &u.keys, &a.ents, "left operand (shared) after the operations");
            }
            check_tree!(&a.flat, &u.keys, &a.ents, "left operand after the operations");
            cx.outcome(&e.outer);
            cx.outcome(&e.left);
        },
        move |i| format!("A keys: {} / B keys: {} / pattern #{}", u2.show(i / np / n), u2.show(i / np % n), i % np))
}
/// every form on two operands with common history, in both orders, and on one tree as both operands
fn relatives<M: AbstractRadixTreeMut<u8, V, Materialized = M>>(k: &Kin<M>, u: &Uni, ents: (&Ents, &Ents), es: &[Exp; 4], p: Pat, what: [&str; 4], cx: &mut Cx) {
    for (n, (a, b)) in [(&k.a, &k.b), (&k.b, &k.a), (&k.a, &k.a), (&k.b, &k.b)].into_iter().enumerate() {
        let t = T { keys: &u.keys, e: &es[n], p, what: what[n] };
        outer(a, b, &t, cx);
        outer_mut(a, b, &t, cx);
        others(a, b, &t, cx);
        others_mut(a, b, &t, cx);
        check_tree!(&k.a, &u.keys, ents.0, "A after the operations ({})", what[n]);
        check_tree!(&k.b, &u.keys, ents.1, "B after the operations ({})", what[n]);
    }
}
fn views<A, M>(a: &A, b: &A, u: &Uni, es: &[Exp; 4], p: Pat, what: &str, cx: &mut Cx)
where A: AbstractRadixTree<u8, V, Materialized = M>, M: AbstractRadixTreeMut<u8, V, Materialized = M> {
    for (n, (a, b)) in [(a, b), (b, a), (a, a), (b, b)].into_iter().enumerate() {
        let t = T { keys: &u.keys, e: &es[n], p, what };
        outer(a, b, &t, cx);
        others(a, b, &t, cx);
    }
}
const KIN: [[&str; 4]; 4] = [
    ["flat and its changed clone", "changed clone and flat", "flat with itself", "changed clone (flat) with itself"],
    ["shared and its changed clone", "changed clone and shared", "shared with itself", "changed clone (shared) with itself"],
    ["loaded lazy and its changed clone", "changed clone and loaded lazy", "loaded lazy with itself", "changed clone (loaded lazy) with itself"],
    ["lazy and its changed clone", "changed clone and lazy", "lazy with itself", "changed clone (lazy) with itself"],
];
fn related(u: Uni, pats: Vec<Pat>) -> Box<dyn Space> {
    let u = Arc::new(u);
    let u2 = u.clone();
    let n = u.len();
    let np = pats.len() as u64;
    let pre: Arc<Vec<Pre>> = Arc::new((0..n).map(|i| Pre::new(&u, i, L)).collect());
    idx(format!("related-{}", u.name), format!("{}: all pairs x {np} answer patterns; B is a clone of A changed into the second key set (sharing what the flavour shares), combined both ways and each with itself; flat, shared, lazy, and both in one archive", u.about()), n * n * np,
        move |i, cx| {
            let p = pats[(i % np) as usize];
            let (x, y) = (i / np / n, i / np % n);
            let (ea, eb) = kin_ents(&u, x, y);
            let es = [expect(&ea, &eb, p), expect(&eb, &ea, p), expect(&ea, &ea, p), expect(&eb, &eb, p)];
            cx.nontrivial_if(!es[0].calls.is_empty() && es[0].inner.len() < es[0].outer.len());
            cx.outcome((&es[0].outer, &es[2].outer));
            let a = &pre[x as usize];
            if let Some(k) = kin(&u, a.flat.clone(), &ea, &eb) { relatives(&k, &u, (&ea, &eb), &es, p, KIN[0], cx) }
            if let Some(k) = kin(&u, a.arc.clone(), &ea, &eb) {
                relatives(&k, &u, (&ea, &eb), &es, p, KIN[1], cx);
                let r = KinArchive::new(&k);
                let (va, vb) = r.get();
                if verify(va, &u.keys, &ea).is_ok() && verify(vb, &u.keys, &eb).is_ok() { views(va, vb, &u, &es, p, "shared trees of one archive", cx) }
            }
            if let Some(k) = kin(&u, a.lazy_loaded(), &ea, &eb) { relatives(&k, &u, (&ea, &eb), &es, p, KIN[2], cx) }
            if let Some(k) = kin(&u, a.lazy(), &ea, &eb) { relatives(&k, &u, (&ea, &eb), &es, p, KIN[3], cx) }
        },
        move |i| format!("A keys: {} / B keys: {} / pattern #{}", u2.show(i / np / n), u2.show(i / np % n), i % np))
}
fn spaces(th: bool) -> Vec<Box<dyn Space>> {
    use Pat::*;
    let base = || vec![Keep, Replace, Remove, Bits(0x5555_5555_5555_5555), Bits(0x9999_3333_9999_3333)];
    let three = || vec![Keep, Remove, Bits(0x5555_5555_5555_5555)];
    let every = |n: u32| (0..1u64 << n).map(Bits).collect::<Vec<_>>();
    let mut v = vec![
        pairs(u_small(), base(), true),
        pairs(u_spine(), three(), true),
        pairs(u_wide(), base(), true),
        pairs(u_deepwide(), base(), true),
        pairs(u_scaled(9), three(), true),
        pairs(u_scaled(17), three(), true),
        pairs(u_bytes(), three(), true),
        pairs(u_mid(2), three(), true),
        pairs(u_tern(2), three(), true),
        pairs(u_mid(3), three(), true),
        pairs(u_tern(3), three(), true),
        pairs(u_letters(10), vec![Bits(0x9999_3333_9999_3333)], false),
        pairs(u_fan(0, &FAN), vec![Bits(0x9999_3333_9999_3333)], false),
        pairs(u_fan(0, &FAN_SHORT), three(), true),
        pairs(u_fan(2, &FAN_SHORT), vec![Bits(0x9999_3333_9999_3333)], true),
        pairs(u_long(2), three(), true),
        pairs(u_huge(), vec![Keep, Bits(0x5)], true),
        pairs(u_chain(&[17, 65, 129, 300]), vec![Bits(0x9999_3333_9999_3333)], true),
        pairs(u_bush(), three(), true),
    ];
    let mixed = || vec![Bits(0x9999_3333_9999_3333)];
    for (u, p) in [(u_small(), base()), (u_spine(), mixed()), (u_wide(), three()), (u_deepwide(), three()), (u_scaled(17), mixed()), (u_mid(2), three()), (u_fan(2, &FAN_SHORT), mixed()), (u_chain(&[17, 65]), mixed())] { v.push(related(u, p)) }
    if th {
        for (u, p) in [(u_tern(3), three()), (u_mid(3), three()), (u_fan(0, &FAN), mixed()), (u_bush(), three()), (u_spine2(), mixed()), (u_long(3), mixed())] { v.push(related(u, p)) }
        let mut s = u_small();
        s.name += "-every-answer";
        v.push(pairs(s, every(7), false));
        v.push(pairs(u_mid(4), three(), true));
        v.push(pairs(u_tern(4), three(), true));
        v.push(pairs(u_letters(12), vec![Bits(0x9999_3333_9999_3333)], false));
        let mut s = u_letters(10);
        s.name += "-full";
        v.push(pairs(s, three(), true));
        v.push(pairs(u_spine2(), base(), true));
        v.push(pairs(u_mid(5), vec![Bits(0x9999_3333_9999_3333)], false));
    }
    v.extend(mc::each_tree!(tree_combination));
    v.extend(mc::deep::spaces(&["union_with", "intersection_with", "difference_with"], &["union_with", "intersection_with", "difference_with"]));
    v.push(mc::huge::trees(mc::huge::Part::Combine));
    v
}
fn main() {
    mc::deep::child();
    mc::run_main(Prop {
        id: "C11",
        level: "exploration",
        rule: "a case is one pair of key sets and one answer pattern of the combining function, run through every combination form and flavour; each result is walked node by node against the key-by-key definition and the canonical form, and the logged calls are compared; distinct by construction; non-trivial: some keys shared and some not",
        assumptions: &["trees treat key elements only through Ord/Eq/Copy and values only through Clone and the given function", "bounded universes: up to 8 free keys, up to 4 of 15 keys, nodes with up to 256 children, keys up to 65600 elements and chains up to depth 300 in fixed patterns"],
        spaces,
    })
}
