//! C13: prefix operations select exactly the keys under a prefix.
use mc::radix::*;
use mc::{check_tree, ensure, fail, idx, Cx, Prop, Space};
use std::sync::Arc;
use vec_collections::radix_tree::{AbstractRadixTree, AbstractRadixTreeMut, TValue};

fn scan<T: AbstractRadixTree<u8, V>>(t: &T, p: &[u8], keys: &[Key], want: &Ents, what: &str, cx: &mut Cx) {
    cx.op();
    let held: Vec<_> = t.scan_prefix(p).collect();
    ensure!(held.len() == want.len(), "scan_prefix({p:?}) ({what}) yields {} entries, expected {}", held.len(), want.len());
    for ((k, v), (wk, wv)) in held.iter().zip(want) {
        ensure!(k.as_ref() as &[u8] == keys[*wk as usize].as_slice() && **v == *wv, "scan_prefix({p:?}) ({what}) yields {:?} => {v:?}, expected {:?} => {wv:?}", k.as_ref() as &[u8], keys[*wk as usize]);
    }
}
fn filter<T: AbstractRadixTreeMut<u8, V>>(t: &T, p: &[u8], keys: &[Key], want: &Ents, what: &str, cx: &mut Cx) {
    cx.op();
    let r = t.filter_prefix(p);
    check_tree!(&r, keys, want, "filter_prefix({p:?}) ({what})");
    // the answer is a tree like any other
    scan(&r, &[], keys, want, what, cx);
    for (k, v) in want { ensure!(r.get(&keys[*k as usize]) == Some(v), "filter_prefix({p:?}) ({what}): lookup of {:?} in the result", keys[*k as usize]) }
}
fn prepend<T: AbstractRadixTreeMut<u8, V>>(t: &T, p: &[u8], all: &[Key], want: &Ents, what: &str, cx: &mut Cx) {
    cx.op();
    let mut r = t.clone();
    r.prepend(p);
    check_tree!(&r, all, want, "prepend({p:?}) ({what})");
}

fn prefixes(u: Uni) -> Box<dyn Space> {
    // query every key, every prefix of a key and every one-element extension of those
    let ps = around(&u.keys, &[0, 1, 7, 255]);
    let prep: Vec<Key> = vec![vec![], vec![0], vec![1, 0], vec![0; 15], vec![0; 16], vec![9; 17], vec![0; 256], vec![3; 300]];
    let u = Arc::new(u);
    let u2 = u.clone();
    idx(format!("prefix-{}", u.name), format!("{}: scan and filter by each of {} prefixes, prepend {} prefixes, all flavours and archives", u.about(), ps.len(), prep.len()), u.len(),
        move |i, cx| {
            let a = Pre::new_unleaked(&u, i, L);
            let keys = &u.keys;
            cx.nontrivial_if(a.p.ents.len() > 1);
            let a = &a.p;
            let lazy_kept = a.lazy();
            for p in &ps {
                let want: Ents = a.ents.iter().filter(|e| keys[e.0 as usize].starts_with(p)).copied().collect();
                scan(&a.flat, p, keys, &want, "flat", cx);
                scan(&a.arc, p, keys, &want, "shared", cx);
                scan(&a.lazy(), p, keys, &want, "unloaded lazy", cx);
                scan(&lazy_kept, p, keys, &want, "lazy", cx);
                scan(a.aflat(), p, keys, &want, "archived flat", cx);
                scan(a.aarc(), p, keys, &want, "archived shared", cx);
                scan(a.alazy(), p, keys, &want, "archived lazy", cx);
                filter(&a.flat, p, keys, &want, "flat", cx);
                filter(&a.arc, p, keys, &want, "shared", cx);
                filter(&a.lazy(), p, keys, &want, "unloaded lazy", cx);
                filter(&lazy_kept, p, keys, &want, "lazy", cx);
                cx.outcome(&want);
            }
            for p in &prep {
                let all: Vec<Key> = keys.iter().map(|k| { let mut x = p.clone(); x.extend(k); x }).collect();
                prepend(&a.flat, p, &all, &a.ents, "flat", cx);
                prepend(&a.arc, p, &all, &a.ents, "shared", cx);
                prepend(&lazy_kept, p, &all, &a.ents, "lazy", cx);
                prepend(&a.lazy(), p, &all, &a.ents, "unloaded lazy", cx);
            }
            check_tree!(&a.flat, keys, &a.ents, "tree after the operations");
            check_tree!(&a.arc, keys, &a.ents, "tree (shared) after the operations");
            check_tree!(&lazy_kept, keys, &a.ents, "tree (lazy) after the operations");
        },
        move |i| format!("keys: {}", u2.show(i)))
}

/// which values of the second tree satisfy the predicate
#[derive(Clone, Copy, Debug)]
enum Pred { All, None, Bits(u64) }
fn sat(p: Pred, k: u16) -> bool { match p { Pred::All => true, Pred::None => false, Pred::Bits(m) => m >> (k % 64) & 1 == 1 } }

fn rr<A, B>(a: &A, b: &B, keys: &[Key], p: Pred, keep: &Ents, drop: &Ents, what: &str, cx: &mut Cx)
where A: AbstractRadixTreeMut<u8, V>, B: AbstractRadixTree<u8, V> {
    cx.ops(2);
    let mut r = a.clone();
    r.remove_prefix_with(b, |v| sat(p, *v % 1000));
    check_tree!(&r, keys, keep, "remove_prefix_with ({what}, {p:?})");
    let mut r = a.clone();
    r.retain_prefix_with(b, |v| sat(p, *v % 1000));
    check_tree!(&r, keys, drop, "retain_prefix_with ({what}, {p:?})");
}
fn unit<A, B, W: TValue>(a: &A, b: &B, keys: &[Key], keep: &Ents, drop: &Ents, what: &str, cx: &mut Cx)
where A: AbstractRadixTreeMut<u8, V>, B: AbstractRadixTree<u8, W> {
    cx.ops(2);
    let mut r = a.clone();
    r.remove_prefix_with(b, |_| true);
    check_tree!(&r, keys, keep, "remove_prefix_with ({what})");
    let mut r = a.clone();
    r.retain_prefix_with(b, |_| true);
    check_tree!(&r, keys, drop, "retain_prefix_with ({what})");
}
fn pairs(u: Uni, preds: Vec<Pred>, full: bool) -> Box<dyn Space> {
    let u = Arc::new(u);
    let u2 = u.clone();
    let n = u.len();
    let np = preds.len() as u64;
    let pre: Arc<Vec<(Pre, Pre)>> = Arc::new((0..n).map(|i| (Pre::new(&u, i, L), Pre::new(&u, i, R))).collect());
    let m = u.keys.len();
    let is_prefix: Vec<bool> = (0..m * m).map(|x| u.keys[x % m].starts_with(&u.keys[x / m])).collect();
    idx(format!("remove-retain-{}", u.name), format!("{}: all pairs x {np} predicates; remove and retain by prefix{}", u.about(), if full { ", flat, shared and lazy trees, owned, archived and mixed-flavour second trees" } else { ", flat trees" }),
        n * n * np,
        move |i, cx| {
            let p = preds[(i % np) as usize];
            let (x, y) = (i / np / n, i / np % n);
            let (a, b) = (&pre[x as usize].0, &pre[y as usize].1);
            let hit = |k: u16, p: Pred| b.ents.iter().any(|e| sat(p, e.0) && is_prefix[e.0 as usize * m + k as usize]);
            let (drop, keep): (Ents, Ents) = a.ents.iter().copied().partition(|e| hit(e.0, p));
            cx.nontrivial_if(!drop.is_empty() && !keep.is_empty());
            let ks = &u.keys;
            rr(&a.flat, &b.flat, ks, p, &keep, &drop, "flat, flat", cx);
            if full {
                rr(&a.flat, b.aflat(), ks, p, &keep, &drop, "flat, archived flat", cx);
                rr(&a.flat, &b.lazy(), ks, p, &keep, &drop, "flat, lazy", cx);
                rr(&a.arc, &b.arc, ks, p, &keep, &drop, "shared, shared", cx);
                rr(&a.arc, b.aarc(), ks, p, &keep, &drop, "shared, archived shared", cx);
                let la = a.lazy();
                rr(&a.lazy(), &b.lazy(), ks, p, &keep, &drop, "lazy, lazy", cx);
                rr(&la, b.alazy(), ks, p, &keep, &drop, "lazy, archived lazy", cx);
                rr(&a.lazy_loaded(), &b.flat, ks, p, &keep, &drop, "loaded lazy, flat", cx);
                if let Pred::All = p {
                    let s: vec_collections::radix_tree::RadixTree<u8, ()> = build(&u.keys, b.ents.iter().map(|e| (e.0, ())));
                    unit(&a.flat, &s, ks, &keep, &drop, "flat, flat set", cx);
                    unit(&a.arc, &s, ks, &keep, &drop, "shared, flat set", cx);
                }
                check_tree!(&la, ks, &a.ents, "tree (lazy) after operations on its clones");
                check_tree!(&a.arc, ks, &a.ents, "tree (shared) after operations on its clones");
                check_tree!(&b.arc, ks, &b.ents, "second tree (shared) after the operations");
            }
            check_tree!(&b.flat, ks, &b.ents, "second tree after the operations");
            if drop.len() + keep.len() != a.ents.len() { fail!("harness") }
            cx.outcome(&keep);
            cx.outcome((1, &drop));
        },
        move |i| format!("A keys: {} / B keys: {} / predicate #{}", u2.show(i / np / n), u2.show(i / np % n), i % np))
}
/// the second tree is an earlier or later version of the first, or the same tree
fn related(u: Uni, preds: Vec<Pred>) -> Box<dyn Space> {
    let u = Arc::new(u);
    let u2 = u.clone();
    let n = u.len();
    let np = preds.len() as u64;
    let pre: Arc<Vec<Pre>> = Arc::new((0..n).map(|i| Pre::new(&u, i, L)).collect());
    let m = u.keys.len();
    let is_prefix: Arc<Vec<bool>> = Arc::new((0..m * m).map(|x| u.keys[x % m].starts_with(&u.keys[x / m])).collect());
    idx(format!("related-{}", u.name), format!("{}: all pairs x {np} predicates; B is a clone of A changed into the second key set (sharing what the flavour shares); remove and retain by prefix both ways and each with itself; flat, shared, lazy", u.about()), n * n * np,
        move |i, cx| {
            let p = preds[(i % np) as usize];
            let (x, y) = (i / np / n, i / np % n);
            let (ea, eb) = kin_ents(&u, x, y);
            let split = |a: &Ents, b: &Ents| -> (Ents, Ents) { a.iter().copied().partition(|e| b.iter().any(|f| sat(p, f.0) && is_prefix[f.0 as usize * m + e.0 as usize])) };
            let ws = [split(&ea, &eb), split(&eb, &ea), split(&ea, &ea), split(&eb, &eb)];
            cx.nontrivial_if(!ws[0].0.is_empty() && !ws[0].1.is_empty());
            cx.outcome(&ws);
            #[allow(clippy::too_many_arguments)]
            fn run<T: AbstractRadixTreeMut<u8, V>>(k: Option<Kin<T>>, u: &Uni, e: (&Ents, &Ents), ws: &[(Ents, Ents); 4], p: Pred, what: &str, cx: &mut Cx) {
                let Some(k) = k else { return };
                for (n, (a, b)) in [(&k.a, &k.b), (&k.b, &k.a), (&k.a, &k.a), (&k.b, &k.b)].into_iter().enumerate() {
                    let (drop, keep) = &ws[n];
                    rr(a, b, &u.keys, p, keep, drop, what, cx);
                    check_tree!(&k.a, &u.keys, e.0, "A ({what}) after the operations");
                    check_tree!(&k.b, &u.keys, e.1, "B ({what}) after the operations");
                }
            }
            let a = &pre[x as usize];
            let e = (&ea, &eb);
            run(kin(&u, a.flat.clone(), &ea, &eb), &u, e, &ws, p, "flat and its changed clone", cx);
            run(kin(&u, a.arc.clone(), &ea, &eb), &u, e, &ws, p, "shared and its changed clone", cx);
            run(kin(&u, a.lazy_loaded(), &ea, &eb), &u, e, &ws, p, "loaded lazy and its changed clone", cx);
            run(kin(&u, a.lazy(), &ea, &eb), &u, e, &ws, p, "lazy and its changed clone", cx);
        },
        move |i| format!("A keys: {} / B keys: {} / predicate #{}", u2.show(i / np / n), u2.show(i / np % n), i % np))
}
fn spaces(th: bool) -> Vec<Box<dyn Space>> {
    use Pred::*;
    let ps = || vec![All, None, Bits(0x5555_5555_5555_5555), Bits(0x9999_3333_9999_3333)];
    let every = |n: u32| (0..1u64 << n).map(Bits).collect::<Vec<_>>();
    let all = || vec![u_small(), u_spine(), u_wide(), u_deepwide(), u_scaled(9), u_scaled(17), u_bytes()];
    let mut v: Vec<Box<dyn Space>> = vec![];
    for u in all() { v.push(prefixes(u)) }
    v.push(prefixes(u_mid(3)));
    v.push(prefixes(u_tern(3)));
    for u in [u_fan(0, &FAN_SHORT), u_fan(2, &FAN_SHORT), u_long(2), u_huge(), u_chain(&[17, 65, 200]), u_bush()] { v.push(prefixes(u)) }
    for u in all() { v.push(pairs(u, ps(), true)) }
    for u in [u_fan(0, &FAN_SHORT), u_fan(2, &FAN_SHORT), u_long(2), u_huge(), u_chain(&[17, 65, 200]), u_bush()] { v.push(pairs(u, vec![All, Bits(0x9999_3333_9999_3333)], true)) }
    v.push(pairs(u_fan(0, &FAN), vec![Bits(0x9999_3333_9999_3333)], false));
    v.push(pairs(u_mid(3), ps(), true));
    v.push(pairs(u_tern(3), ps(), true));
    v.push(pairs(u_letters(10), vec![Bits(0x9999_3333_9999_3333)], false));
    let mut s = u_small();
    s.name += "-every-predicate";
    v.push(pairs(s, every(7), false));
    for u in [u_small(), u_spine(), u_wide(), u_deepwide(), u_scaled(17), u_mid(2), u_fan(2, &FAN_SHORT), u_chain(&[17, 65])] { v.push(related(u, vec![All, Bits(0x9999_3333_9999_3333)])) }
    if th {
        for u in [u_tern(4), u_mid(3), u_fan(0, &FAN), u_bush(), u_spine2(), u_long(2)] { v.push(related(u, vec![All, Bits(0x9999_3333_9999_3333)])) }
        v.push(prefixes(Uni::all("mid-all", mc::gen::words(2, 3))));
        v.push(prefixes(u_tern(5)));
        v.push(pairs(u_mid(4), ps(), true));
        v.push(pairs(u_tern(4), ps(), true));
        v.push(pairs(u_letters(12), vec![Bits(0x9999_3333_9999_3333)], false));
        v.push(pairs(u_spine2(), ps(), true));
        v.push(pairs(u_mid(5), vec![Bits(0x9999_3333_9999_3333)], false));
    }
    v.extend(mc::each_tree!(tree_prefixes));
    v.extend(mc::deep::spaces(&["scan_prefix", "filter_prefix"], &["filter_prefix"]));
    v.push(mc::huge::trees(mc::huge::Part::Prefix));
    v
}
fn main() {
    mc::deep::child();
    mc::run_main(Prop {
        id: "C13",
        level: "exploration",
        rule: "a case is one key set asked for every prefix, or one pair of key sets and one predicate; results are walked node by node against the filtered reference and the canonical form; distinct by construction; non-trivial: more than one key, or some keys removed and some kept",
        assumptions: &["trees treat key elements only through Ord/Eq/Copy", "bounded universes: up to 10 free keys, up to 5 of 15 keys, nodes with up to 256 children, keys up to 65600 elements and chains up to depth 300 in fixed patterns"],
        spaces,
    })
}
