//! C12: radix tree comparisons agree with their key sets.
use mc::radix::*;
use mc::{fail, idx, Cx, Prop, Space};
use std::sync::Arc;
use vec_collections::radix_tree::{AbstractRadixTree, ArcRadixTree, RadixTree, TValue};

struct Want { sub: bool, sup: bool, dis: bool }
fn want(a: &[u16], b: &[u16]) -> Want {
    Want { sub: a.iter().all(|x| b.binary_search(x).is_ok()), sup: b.iter().all(|x| a.binary_search(x).is_ok()), dis: a.iter().all(|x| b.binary_search(x).is_err()) }
}
fn q<A, B, X, Y>(a: &A, b: &B, w: &Want, what: &str, cx: &mut Cx)
where A: AbstractRadixTree<u8, X>, B: AbstractRadixTree<u8, Y>, X: TValue, Y: TValue {
    cx.ops(4);
    let got = [a.is_subset(b), a.is_superset(b), a.is_disjoint(b), a.intersects(b)];
    let exp = [w.sub, w.sup, w.dis, !w.dis];
    for (i, n) in ["is_subset", "is_superset", "is_disjoint", "intersects"].iter().enumerate() {
        if got[i] != exp[i] { fail!("{n} ({what}) answers {}, expected {}", got[i], exp[i]) }
    }
}
/// one left operand against every kind of right operand
fn row<A: AbstractRadixTree<u8, X>, X: TValue>(a: &A, b: &Pre, lb: &LazyT, units: &Units, w: &Want, what: &str, cx: &mut Cx) {
    q(a, &b.flat, w, what, cx);
    q(a, &b.arc, w, what, cx);
    q(a, lb, w, what, cx);
    q(a, b.aflat(), w, what, cx);
    q(a, b.aarc(), w, what, cx);
    q(a, b.alazy(), w, what, cx);
    q(a, &units.0, w, what, cx);
    q(a, &units.1, w, what, cx);
}
/// the same keys with other value types
type Units = (RadixTree<u8, ()>, ArcRadixTree<u8, String>);

fn pairs(u: Uni) -> Box<dyn Space> {
    let u = Arc::new(u);
    let u2 = u.clone();
    let n = u.len();
    let pre: Arc<Vec<(Pre, Pre, Units)>> = Arc::new((0..n).map(|i| {
        let b = Pre::new(&u, i, R);
        let units = (build(&u.keys, b.ents.iter().map(|e| (e.0, ()))), build(&u.keys, b.ents.iter().map(|e| (e.0, format!("{}", e.1)))));
        (Pre::new(&u, i, L), b, units)
    }).collect());
    idx(format!("pairs-{}", u.name), format!("{}: all pairs; the four comparisons between 7 kinds of left and 8 kinds of right operand (flat, shared, lazy loaded/unloaded, archived, other value types)", u.about()),
        n * n,
        move |i, cx| {
            let (x, y) = (i / n, i % n);
            let (sa, sb) = (&u.subsets[x as usize], &u.subsets[y as usize]);
            let w = want(sa, sb);
            cx.nontrivial_if(!w.dis && !(w.sub && w.sup));
            let a = &pre[x as usize].0;
            let (_, b, units) = &pre[y as usize];
            // unloaded lazily opened trees on both sides, then partially loaded by the first query
            let (la, lb) = (a.lazy(), b.lazy());
            q(&la, &lb, &w, "unloaded lazy, unloaded lazy", cx);
            row(&la, b, &lb, units, &w, "lazy", cx);
            row(&a.flat, b, &b.lazy(), units, &w, "flat", cx);
            row(&a.arc, b, &lb, units, &w, "shared", cx);
            row(a.aflat(), b, &lb, units, &w, "archived flat", cx);
            row(a.aarc(), b, &lb, units, &w, "archived shared", cx);
            row(a.alazy(), b, &b.lazy(), units, &w, "archived lazy", cx);
            row(&pre[x as usize].2 .0, b, &lb, units, &w, "flat set", cx);
            cx.outcome((w.sub, w.sup, w.dis, x % 97, y % 97));
        },
        move |i| format!("A keys: {} / B keys: {}", u2.show(i / n), u2.show(i % n)))
}
/// operands with common history: two versions of one tree, one tree with itself
fn relatives<T: AbstractRadixTree<u8, V>>(a: &T, b: &T, ws: &[Want; 4], what: &str, cx: &mut Cx) {
    for (n, (l, r)) in [(a, b), (b, a), (a, a), (b, b)].into_iter().enumerate() {
        q(l, r, &ws[n], &format!("{what}: {}", ["A, changed clone of A", "changed clone of A, A", "A with itself", "changed clone with itself"][n]), cx);
    }
}
fn related(u: Uni) -> Box<dyn Space> {
    let u = Arc::new(u);
    let u2 = u.clone();
    let n = u.len();
    let pre: Arc<Vec<Pre>> = Arc::new((0..n).map(|i| Pre::new(&u, i, L)).collect());
    idx(format!("related-{}", u.name), format!("{}: all pairs; B is a clone of A changed into the second key set (sharing what the flavour shares), compared both ways and each with itself; flat, shared, lazy, and both in one archive", u.about()), n * n,
        move |i, cx| {
            let (x, y) = (i / n, i % n);
            let (sa, sb) = (&u.subsets[x as usize], &u.subsets[y as usize]);
            let ws = [want(sa, sb), want(sb, sa), want(sa, sa), want(sb, sb)];
            let (ea, eb) = kin_ents(&u, x, y);
            cx.nontrivial_if(!ws[0].dis && !(ws[0].sub && ws[0].sup));
            cx.outcome((ws[0].sub, ws[0].sup, ws[0].dis, x % 97, y % 97));
            let a = &pre[x as usize];
            if let Some(k) = kin(&u, a.flat.clone(), &ea, &eb) { relatives(&k.a, &k.b, &ws, "flat", cx) }
            if let Some(k) = kin(&u, a.arc.clone(), &ea, &eb) {
                relatives(&k.a, &k.b, &ws, "shared", cx);
                let r = KinArchive::new(&k);
                let (va, vb) = r.get();
                if verify(va, &u.keys, &ea).is_ok() && verify(vb, &u.keys, &eb).is_ok() { relatives(va, vb, &ws, "shared trees of one archive", cx) }
            }
            if let Some(k) = kin(&u, a.lazy_loaded(), &ea, &eb) { relatives(&k.a, &k.b, &ws, "loaded lazy", cx) }
            if let Some(k) = kin(&u, a.lazy(), &ea, &eb) { relatives(&k.a, &k.b, &ws, "lazy", cx) }
        },
        move |i| format!("A keys: {} / B keys: {}", u2.show(i / n), u2.show(i % n)))
}
fn spaces(th: bool) -> Vec<Box<dyn Space>> {
    let mut v = vec![pairs(u_small()), pairs(u_spine()), pairs(u_wide()), pairs(u_deepwide()), pairs(u_scaled(9)), pairs(u_scaled(17)), pairs(u_bytes()), pairs(u_mid(3)), pairs(u_tern(3)), pairs(u_letters(10)),
        pairs(u_fan(0, &FAN)), pairs(u_fan(2, &FAN_SHORT)), pairs(u_long(if th { 4 } else { 3 })), pairs(u_huge()), pairs(u_chain(&[17, 65, 129, 300])), pairs(u_bush())];
    for u in [u_small(), u_spine(), u_wide(), u_deepwide(), u_scaled(17), u_mid(2), u_fan(2, &FAN_SHORT), u_chain(&[17, 65]), u_bush(), u_tern(3), u_spine2()] { v.push(related(u)) }
    if th {
        for u in [u_tern(4), u_mid(3), u_fan(0, &FAN), u_long(3)] { v.push(related(u)) }
        v.push(pairs(u_mid(4)));
        v.push(pairs(u_tern(4)));
        v.push(pairs(u_letters(12)));
        v.push(pairs(u_spine2()));
        v.push(pairs(u_mid(5)));
    }
    v.extend(mc::each_tree!(tree_comparison));
    v.extend(mc::deep::spaces(&["is_subset", "is_superset of itself"], &["is_subset", "is_superset of itself"]));
    v.push(mc::huge::trees(mc::huge::Part::Compare));
    v
}
fn main() {
    mc::deep::child();
    mc::run_main(Prop {
        id: "C12",
        level: "exploration",
        rule: "a case is one pair of key sets, asked all four comparison questions between every combination of flavours, loading states and value types; distinct by construction; non-trivial: the key sets intersect and differ",
        assumptions: &["comparisons treat key elements only through Ord/Eq", "bounded universes: up to 10 free keys, up to 5 of 15 keys, nodes with up to 256 children, keys up to 65600 elements and chains up to depth 300 in fixed patterns"],
        spaces,
    })
}
