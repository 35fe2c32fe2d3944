//! C19: lazy loading is invisible and safe under concurrent access.
use mc::radix::{archive, show_key, u_bush, u_chain, u_fan, u_huge, u_long, Key, Uni};
use mc::{ensure, idx, Cx, Prop, Space};
use mc_sched::{explore, Loads, CV};
use parking_lot::sched::quiet;
use std::collections::BTreeMap;
use std::sync::Arc;
use vec_collections::radix_tree::{AbstractRadixTree, AbstractRadixTreeMut, ArcRadixTree, LazyRadixTree, RadixTree};

type Shared = ArcRadixTree<u8, CV>;
type Lazy = LazyRadixTree<'static, u8, CV>;
type Flat = RadixTree<u8, CV>;
type M = BTreeMap<Key, u16>;

fn k(s: &str) -> Key { s.bytes().collect() }
fn flat(m: &M) -> Flat { let mut t = Flat::empty(); for (k, v) in m { t.insert(k, CV(*v)) } t }
/// the mappings, from the raw structure, and whether it is canonical
fn same<T: AbstractRadixTree<u8, CV>>(t: &T, m: &M, what: &str) {
    let mut got: Vec<(Key, u16)> = vec![];
    if let Err(e) = mc::radix::walk(t, true, &mut vec![], &mut |p: &[u8], v: &CV| { got.push((p.to_vec(), v.0)); Ok(()) }) { mc::fail!("{what}: {e}") }
    ensure!(got.iter().map(|(k, v)| (k, v)).eq(m.iter()), "{what} has {:?}, expected {:?}", show(&got), m)
}
fn show(v: &[(Key, u16)]) -> String { v.iter().map(|(k, v)| format!("{}={v}", String::from_utf8_lossy(k))).collect::<Vec<_>>().join(" ") }

#[derive(Clone, Debug)]
enum Op { Get(Key), Iter, Values, Scan(Key), Insert(Key, u16), Remove(Key), Union, Outer, Inter, CloneIter, Filter(Key), Pin, Archive, Compare, Subset, RemovePrefix(Key), RetainPrefix(Key), Drop, Prepend, CloneInsert(Key) }
impl Op {
    fn reads(&self) -> bool { matches!(self, Op::Get(_) | Op::Iter | Op::Values | Op::Scan(_) | Op::CloneIter | Op::Pin | Op::Compare | Op::Subset | Op::Drop) }
}
fn other() -> M { [(k("ab"), 50), (k("abe"), 51), (k("c"), 52)].into_iter().collect() }
/// what differs between the flavours of trees that share nodes
trait Tree: AbstractRadixTreeMut<u8, CV> + Clone + From<Flat> + Send + 'static {
    fn pinned(&self) -> bool;
    fn archive_is(&self, m: &M);
    fn open(w: &World, init: Init) -> Self;
}
impl Tree for Lazy {
    fn pinned(&self) -> bool { let mut a = BTreeMap::new(); self.all_arcs(&mut a); a.values().all(|v| v.iter().all(|c| !c.prefix().is_empty())) }
    fn archive_is(&self, m: &M) { let b = archive(self); same(unsafe { rkyv::archived_root::<Lazy>(&b) }, m, "the archive") }
    fn open(w: &World, init: Init) -> Self { w.open(init) }
}
impl Tree for Shared {
    fn pinned(&self) -> bool { let mut a = BTreeMap::new(); self.all_arcs(&mut a); a.values().all(|v| v.iter().all(|c| !c.prefix().is_empty())) }
    fn archive_is(&self, m: &M) { let b = archive(self); same(unsafe { rkyv::archived_root::<Shared>(&b) }, m, "the archive") }
    fn open(w: &World, init: Init) -> Self {
        if init == Init::Built { return Shared::from(flat(&w.m)) }
        let b = archive(&Shared::from(flat(&w.m)));
        Shared::from(unsafe { rkyv::archived_root::<Shared>(&b) })
    }
}
/// run one operation on one thread's own tree, comparing with its model
fn step<T: Tree>(op: &Op, t: &mut Option<T>, m: &mut M) {
    let Some(tree) = t.as_mut() else { return };
    match op {
        Op::Get(key) => {
            ensure!(tree.get(key).map(|v| v.0) == m.get(key).copied(), "get({}) is wrong", String::from_utf8_lossy(key));
            ensure!(tree.contains_key(key) == m.contains_key(key), "contains_key is wrong");
        }
        Op::Iter => ensure!(tree.iter().map(|(k, v)| (k.to_vec(), v.0)).eq(m.iter().map(|(k, v)| (k.clone(), *v))), "iteration is wrong"),
        Op::Values => ensure!(tree.values().map(|v| v.0).eq(m.values().copied()), "values are wrong"),
        Op::Scan(p) => ensure!(tree.scan_prefix(p).map(|(k, v)| (k.to_vec(), v.0)).eq(m.iter().filter(|(k, _)| k.starts_with(p)).map(|(k, v)| (k.clone(), *v))), "scan_prefix is wrong"),
        Op::Insert(key, v) => { tree.insert(key, CV(*v)); m.insert(key.clone(), *v); }
        Op::Remove(key) => { tree.difference_with(&Flat::single(key, CV(0))); m.remove(key); }
        Op::Union => { tree.union_with(&quiet(|| T::from(flat(&other())))); for (k, v) in other() { m.entry(k).or_insert(v); } }
        Op::Outer => { tree.outer_combine_with(&quiet(|| T::from(flat(&other()))), |a, b| { a.0 += b.0; true }); for (k, v) in other() { *m.entry(k).or_insert(0) += v } }
        Op::Inter => { tree.intersection_with(&quiet(|| flat(&other()))); m.retain(|k, _| other().contains_key(k)) }
        Op::CloneIter => { let c = tree.clone(); ensure!(c.iter().map(|(k, v)| (k.to_vec(), v.0)).eq(m.iter().map(|(k, v)| (k.clone(), *v))), "iteration of a clone is wrong") }
        Op::CloneInsert(key) => { let c = tree.clone(); tree.insert(key, CV(77)); same(&c, m, "the clone taken before a change"); m.insert(key.clone(), 77); }
        Op::Filter(p) => { *tree = tree.filter_prefix(p); m.retain(|k, _| k.starts_with(p)) }
        Op::Pin => ensure!(tree.pinned(), "all_arcs"),
        Op::Archive => tree.archive_is(m),
        Op::Compare => ensure!(tree.intersects(&*tree) == !m.is_empty() && tree.is_disjoint(&*tree) == m.is_empty(), "comparison with itself"),
        Op::Subset => { let o = other(); ensure!(tree.is_subset(&quiet(|| flat(m))) && tree.is_superset(&quiet(|| flat(&o))) == o.keys().all(|k| m.contains_key(k)), "comparison with another tree") }
        Op::RemovePrefix(p) => { tree.remove_prefix_with(&Flat::single(p, CV(0)), |_| true); m.retain(|k, _| !k.starts_with(p)) }
        Op::RetainPrefix(p) => { tree.retain_prefix_with(&Flat::single(p, CV(0)), |_| true); m.retain(|k, _| k.starts_with(p)) }
        Op::Prepend => { tree.prepend(b"z"); *m = m.iter().map(|(k, v)| ([b"z".as_ref(), k].concat(), *v)).collect() }
        Op::Drop => *t = None,
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Init { Opened, Root, Deep, Loaded, Built }
struct World { m: M, buf: rkyv::AlignedVec, loads: Loads }
impl World {
    fn new(keys: &[&str]) -> World {
        let m: M = keys.iter().enumerate().map(|(i, s)| (k(s), i as u16 + 1)).collect();
        let buf = archive(&Lazy::from(flat(&m)));
        World { loads: Loads::new(&buf), m, buf }
    }
    fn open(&self, init: Init) -> Lazy {
        if init == Init::Built { return Lazy::from(flat(&self.m)) }
        let b: &'static [u8] = unsafe { std::slice::from_raw_parts(self.buf.as_ptr(), self.buf.len()) };
        let t = Lazy::from(unsafe { rkyv::archived_root::<Lazy>(b) });
        match init {
            Init::Opened | Init::Built => {}
            Init::Root => { t.children(); }
            Init::Deep => { t.get(self.m.keys().max_by_key(|k| k.len()).unwrap()); }
            Init::Loaded => { t.iter().count(); }
        }
        t
    }
}
/// `keep`: the tree that the threads got clones of stays alive
struct Program { init: Init, keep: bool, threads: Vec<Vec<Op>> }
fn run<T: Tree>(w: &World, p: &Program, bound: u32, limit: u64, cx: &mut Cx) {
    let readers = p.threads.iter().flatten().all(|o| o.reads()) && p.init != Init::Opened;
    let r = explore(p.threads.len(), bound, limit, cx,
        || {
            w.loads.reset();
            let wp = w as *const World as usize;
            let t0: T = w.loads.watch(|| T::open(w, p.init));
            let threads = p.threads.iter().map(|ops| {
                let (mut t, ops, mut m) = (Some(t0.clone()), ops.clone(), w.m.clone());
                let f: Box<dyn FnOnce() -> (Option<T>, M) + Send> = Box::new(move || {
                    let w = unsafe { &*(wp as *const World) };
                    w.loads.watch(|| { for o in &ops { step(o, &mut t, &mut m) } });
                    (t, m)
                });
                f
            }).collect();
            (threads, p.keep.then_some(t0))
        },
        |trees, t0| {
            if readers { ensure!(w.loads.get().iter().all(|c| *c == 1), "a shared node was loaded more than once") }
            for (i, (t, m)) in trees.into_iter().enumerate() { if let Some(t) = t { same(&t, &m, &format!("the tree of thread {}", (b'A' + i as u8) as char)) } }
            if let Some(t0) = t0 { same(&t0, &w.m, "the original tree") }
        });
    ensure!(r.complete, "harness: more than {limit} schedules");
    cx.nontrivial_if(r.schedules > 1);
    cx.ops(r.schedules * p.threads.iter().map(|t| t.len() as u64).sum::<u64>());
    cx.traces += r.schedules;
    cx.states += r.states;
    cx.transitions += r.steps;
    cx.outcome(r.schedules);
}
fn concurrent(name: &str, about: &str, keys: &'static [&'static str], bound: u32, programs: Vec<Program>) -> Box<dyn Space> { concurrent_on::<Lazy>(name, about, keys, bound, programs) }
fn concurrent_on<T: Tree>(name: &str, about: &str, keys: &'static [&'static str], bound: u32, programs: Vec<Program>) -> Box<dyn Space> {
    let p = Arc::new(programs);
    let p2 = p.clone();
    idx(name, format!("{about}: {} programs over a tree with keys {}, every schedule with at most {bound} preemptions", p.len(), keys.join(" ")), p.len() as u64,
        move |i, cx| run::<T>(&World::new(keys), &p[i as usize], bound, 1_000_000, cx),
        move |i| { let p = &p2[i as usize]; format!("tree {:?}{}, {}", p.init, if p.keep { "" } else { ", not kept" }, p.threads.iter().enumerate().map(|(i, t)| format!("thread {}: {t:?}", (b'A' + i as u8) as char)).collect::<Vec<_>>().join(", ")) })
}
fn ops() -> Vec<Op> {
    vec![Op::Get(k("abc")), Op::Get(k("b")), Op::Iter, Op::Values, Op::Scan(k("ab")), Op::Insert(k("abc"), 90), Op::Insert(k("abx"), 91), Op::Remove(k("abd")), Op::Union, Op::Outer, Op::Inter, Op::CloneIter, Op::CloneInsert(k("abcd")), Op::Filter(k("ab")), Op::Pin, Op::Archive, Op::Compare, Op::Subset, Op::RemovePrefix(k("ab")), Op::RetainPrefix(k("ab")), Op::Prepend, Op::Drop]
}
fn few() -> Vec<Op> { vec![Op::Get(k("abc")), Op::Iter, Op::Insert(k("abx"), 91), Op::Remove(k("abd")), Op::Union, Op::CloneIter, Op::Archive, Op::Drop] }
const KEYS: &[&str] = &["a", "ab", "abc", "abd", "b"];
const CHAIN: &[&str] = &["a", "aab", "ab", "abca", "abcb", "abcba", "abcbb", "ba", "bb"];
const WIDE: &[&str] = &["a", "ab", "abc", "abd", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "ma", "mb", "mc", "md", "me", "mf", "mg", "mh", "mi", "mj"];
const INITS: [Init; 5] = [Init::Opened, Init::Root, Init::Deep, Init::Loaded, Init::Built];
fn pairs(ops: &[Op], inits: &[Init]) -> Vec<Program> {
    let mut v = vec![];
    for init in inits { for (i, a) in ops.iter().enumerate() { for b in &ops[i..] { v.push(Program { init: *init, keep: true, threads: vec![vec![a.clone()], vec![b.clone()]] }) } } }
    v
}
fn twos(ops: &[Op], inits: &[Init]) -> Vec<Program> {
    let n = ops.len();
    let mut v = vec![];
    for init in inits {
        for x in 0..n * n { for y in x..n * n {
            let t = |z: usize| vec![ops[z / n].clone(), ops[z % n].clone()];
            if matches!(t(x)[0], Op::Drop) || matches!(t(y)[0], Op::Drop) { continue }
            v.push(Program { init: *init, keep: true, threads: vec![t(x), t(y)] })
        } }
    }
    v
}
fn threes(ops: &[Op], inits: &[Init]) -> Vec<Program> {
    let mut v = vec![];
    for init in inits { for (i, a) in ops.iter().enumerate() { for (j, b) in ops.iter().enumerate().skip(i) { for c in &ops[j..] { v.push(Program { init: *init, keep: true, threads: vec![vec![a.clone()], vec![b.clone()], vec![c.clone()]] }) } } } }
    v
}

/// threads that look at a tree, let go of it, or change it, and nobody else holds it: changes may happen in place
fn orphans(inits: &[Init]) -> Vec<Program> {
    let mut v = vec![];
    let looks = [Op::Iter, Op::Values, Op::Get(k("abc")), Op::Scan(k("ab")), Op::CloneIter, Op::Compare, Op::Archive, Op::Filter(k("ab")), Op::Pin];
    let changes = [Op::Insert(k("abc"), 90), Op::Insert(k("abx"), 91), Op::Remove(k("abd")), Op::Union, Op::Outer, Op::Inter, Op::RemovePrefix(k("ab")), Op::RetainPrefix(k("ab")), Op::Prepend];
    for init in inits {
        for l in &looks { for c in &changes {
            v.push(Program { init: *init, keep: false, threads: vec![vec![l.clone(), Op::Drop], vec![c.clone()]] });
            v.push(Program { init: *init, keep: false, threads: vec![vec![l.clone(), Op::Drop], vec![Op::Iter, c.clone(), Op::Iter]] });
        } }
        for a in &changes { for b in &changes { v.push(Program { init: *init, keep: false, threads: vec![vec![a.clone()], vec![b.clone()]] }) } }
    }
    v
}
// -- one thread ----------------------------------------------------------------------------------
/// paths of the nodes whose children are loaded; looks at nothing else
fn loaded(t: &Lazy, path: Key, out: &mut Vec<Key>) {
    let mut a = BTreeMap::new();
    t.all_arcs(&mut a);
    if a.is_empty() { return }
    let p = [path, t.prefix().to_vec()].concat();
    for c in t.children() { loaded(c, p.clone(), out) }
    out.push(p);
}
fn world(u: &Uni, i: u64) -> World {
    let m: M = u.ents(i, 0).into_iter().map(|(k, v)| (u.keys[k as usize].clone(), v + 1)).collect();
    let buf = archive(&Lazy::from(flat(&m)));
    World { loads: Loads::new(&buf), m, buf }
}
/// opening loads nothing, lookups load nothing off the path to the key, nothing is loaded twice
fn on_demand(u: Uni) -> Box<dyn Space> { on_demand_at(u, 1, 1) }
/// of large trees only every `sx`-th first and `sy`-th second key
fn on_demand_at(u: Uni, sx: usize, sy: usize) -> Box<dyn Space> {
    let u = Arc::new(u);
    let u2 = u.clone();
    let mut keys = u.keys.clone();
    for k in &u.keys { for x in [0u8, 1, 9] { keys.push([k.clone(), vec![x]].concat()); } if !k.is_empty() { keys.push(k[..k.len() - 1].to_vec()) } }
    keys.sort();
    keys.dedup();
    let keys = Arc::new(keys);
    let keys2 = keys.clone();
    let (n, qx, qy) = (u.len(), keys.len().div_ceil(sx) as u64, keys.len().div_ceil(sy) as u64);
    let dec = move |i: u64| (i / qx / qy, (i / qy % qx) as usize * sx, (i % qy) as usize * sy);
    idx(format!("on-demand-{}", u.name), format!("{}: every tree is opened and every ordered pair of keys looked up ({qx} x {qy} keys, present and absent); which nodes get loaded", u.about()), n * qx * qy,
        move |i, cx| {
            let (ti, kx, ky) = dec(i);
            let w = world(&u, ti);
            w.loads.watch(|| {
                let t = w.open(Init::Opened);
                let mut l = vec![];
                loaded(&t, vec![], &mut l);
                ensure!(l.is_empty(), "opening the tree loaded the children of {l:?}");
                ensure!(w.loads.get().iter().sum::<u32>() <= 1, "opening the tree read the values of {} nodes", w.loads.get().len());
                let two = [&keys[kx], &keys[ky]];
                for (j, key) in two.iter().enumerate() {
                    let got = if j == 0 { t.get(key).map(|v| v.0) } else { t.contains_key(key).then(|| w.m.get(*key).copied().unwrap_or(0)) };
                    ensure!(got == w.m.get(*key).copied(), "lookup of {key:?}");
                    let mut l = vec![];
                    loaded(&t, vec![], &mut l);
                    for p in &l { ensure!(two[..=j].iter().any(|k| k.starts_with(p)), "looking up {:?} loaded the children of {p:?}", &two[..=j]) }
                    cx.op();
                }
                let c = t.clone();
                let before = w.loads.get().len();
                ensure!(c.get(two[0]).map(|v| v.0) == w.m.get(two[0]).copied(), "lookup in a clone");
                ensure!(w.loads.get().len() == before, "looking the same key up in a clone read other nodes");
                same(&t, &w.m, "the tree");
                ensure!(t.values().count() == w.m.len(), "values");
                if !w.m.is_empty() { cx.nontrivial_if(w.m.len() > 1) }
                let mut l = vec![];
                loaded(&t, vec![], &mut l);
                cx.outcome((w.m.len(), l.len()));
                cx.ops(3);
            });
            // looked at in full through one handle, nothing is read more than once
            w.loads.reset();
            w.loads.watch(|| {
                let t = w.open(Init::Opened);
                for key in keys.iter() { t.get(key); }
                t.iter().count();
                t.children();
                let c = t.clone();
                c.iter().count();
                t.values().count();
                same(&t, &w.m, "the tree");
                ensure!(w.loads.get().iter().all(|x| *x == 1), "a node was loaded more than once");
                cx.ops(3);
            })
        },
        move |i| { let (t, x, y) = dec(i); format!("tree {} / keys {} {}", u2.show(t), show_key(&keys2[x]), show_key(&keys2[y])) })
}
/// every operation gives the same answer in every loading state
fn invisible(u: Uni, pre: usize) -> Box<dyn Space> { let all = (0..u.keys.len()).collect(); invisible_at(u, pre, all) }
/// only some keys, by position, are looked up before and used as arguments
fn invisible_at(u: Uni, pre: usize, hot: Vec<usize>) -> Box<dyn Space> {
    let u = Arc::new(u);
    let u2 = u.clone();
    let n = u.len();
    let hot: Vec<Key> = hot.iter().map(|i| u.keys[*i].clone()).collect();
    let nk = hot.len() as u64;
    // the state is reached by looking up every key of a subset of at most `pre` keys, then optionally walking part of the tree
    let subs = mc::gen::subsets_upto(hot.len(), pre);
    let ways = 4u64;
    let ns = subs.len() as u64;
    idx(format!("invisible-{}", u.name), format!("{}: every tree in every loading state reached by looking up any {pre} keys and 4 partial walks, then each of {} operations; a clone taken before must not move", u.about(), battery(&hot, 0).len() as u64 + (nk - 1) * keyed(&hot[0]).len() as u64), n * ns * ways,
        move |i, cx| {
            let (tree, sub, way) = (i / ways / ns, subs[(i / ways % ns) as usize], i % ways);
            let w = world(&u, tree);
            cx.nontrivial_if(w.m.len() > 1);
            let prepare = || {
                let t = w.open(Init::Opened);
                for (j, key) in hot.iter().enumerate() { if sub >> j & 1 == 1 { t.get(key); } }
                match way {
                    1 => { t.iter().next(); }
                    2 => { if let Some(c) = t.children().last() { c.values().count(); } }
                    3 => { let c = t.clone(); c.iter().take(2).count(); }
                    _ => {}
                }
                t
            };
            for op in all_battery(&hot) {
                let mut t = Some(prepare());
                let snap = t.clone().unwrap();
                let mut m = w.m.clone();
                if let Err(e) = mc::guarded(|| {
                    step(&op, &mut t, &mut m);
                    if let Some(t) = &t { same(t, &m, "the tree") }
                    same(&snap, &w.m, "a clone taken before");
                }) { mc::fail!("{op:?}: {e}") }
                cx.op();
            }
            // as the right operand of everything, also without being modified by it
            let mut base: M = other();
            base.insert(hot[0].clone(), 60);
            base.insert(hot[hot.len() / 2].clone(), 61);
            let lb = || Lazy::from(flat(&base));
            let t = prepare();
            let pairs = |f: &dyn Fn(Option<&u16>, Option<&u16>) -> Option<u16>| -> M {
                let mut o = M::new();
                for k in base.keys().chain(w.m.keys()) { if let Some(v) = f(base.get(k), w.m.get(k)) { o.insert(k.clone(), v); } }
                o
            };
            let union = pairs(&|a, b| a.or(b).copied());
            same(&lb().union(&t), &union, "union with the lazy tree");
            same(&lb().intersection(&prepare()), &pairs(&|a, b| a.filter(|_| b.is_some()).copied()), "intersection with the lazy tree");
            same(&lb().difference(&prepare()), &pairs(&|a, b| a.filter(|_| b.is_none()).copied()), "difference with the lazy tree");
            same(&lb().outer_combine(&prepare(), |a, b| (b.0 % 2 == 0).then(|| CV(a.0 + b.0))), &pairs(&|a, b| match (a, b) { (Some(a), Some(b)) => (b % 2 == 0).then(|| a + b), (a, b) => a.or(b).copied() }), "outer_combine with the lazy tree");
            let mut x = lb();
            x.union_with(&prepare());
            same(&x, &union, "union_with the lazy tree");
            let mut x = flat(&base);
            x.difference_with(&prepare());
            same(&x, &pairs(&|a, b| a.filter(|_| b.is_none()).copied()), "difference_with the lazy tree");
            let mut x = flat(&base);
            x.remove_prefix_with(&prepare(), |_| true);
            same(&x, &base.iter().filter(|(k, _)| !w.m.keys().any(|p| k.starts_with(p))).map(|(k, v)| (k.clone(), *v)).collect(), "remove_prefix_with the lazy tree");
            let fb = flat(&base);
            ensure!(fb.is_subset(&prepare()) == base.keys().all(|k| w.m.contains_key(k)), "is_subset of the lazy tree");
            ensure!(fb.is_disjoint(&prepare()) != base.keys().any(|k| w.m.contains_key(k)), "is_disjoint with the lazy tree");
            ensure!(prepare().is_subset(&fb) == w.m.keys().all(|k| base.contains_key(k)), "is_subset from the lazy tree");
            same(&t, &w.m, "the lazy tree after being an operand");
            cx.ops(11);
            cx.outcome((tree, sub, way));
        },
        move |i| format!("tree {} / looked up subset #{} / walk {}", u2.show(i / ways / ns), i / ways % ns, i % ways))
}
fn keyed(key: &Key) -> Vec<Op> { vec![Op::Get(key.clone()), Op::Scan(key.clone()), Op::Insert(key.clone(), 90), Op::Remove(key.clone()), Op::CloneInsert(key.clone()), Op::Filter(key.clone()), Op::RemovePrefix(key.clone()), Op::RetainPrefix(key.clone())] }
fn battery(keys: &[Key], i: usize) -> Vec<Op> {
    let mut v = vec![Op::Iter, Op::Values, Op::Union, Op::Outer, Op::Inter, Op::CloneIter, Op::Pin, Op::Archive, Op::Compare, Op::Subset, Op::Prepend];
    v.extend(keyed(&keys[i]));
    v
}
fn all_battery(keys: &[Key]) -> Vec<Op> { let mut v = battery(keys, 0); for k in &keys[1..] { v.extend(keyed(k)) } v }

fn spaces(th: bool) -> Vec<Box<dyn Space>> {
    let mut v: Vec<Box<dyn Space>> = vec![];
    let ops = ops();
    let few = few();
    if std::env::var_os("MC_RACES").is_some() {
        // run by the build with ThreadSanitizer, which reports every pair of unordered accesses
        v.push(concurrent("races-two", "two threads, one operation each, from 5 loading states, with a happens-before race detector", KEYS, if th { 2 } else { 1 }, pairs(&ops, &INITS)));
        v.push(concurrent("races-chain", "two threads, one operation each, with a happens-before race detector", CHAIN, 1, pairs(&ops, if th { &INITS } else { &[Init::Root] })));
        v.push(concurrent("races-wide", "two threads, one operation each, with a happens-before race detector", WIDE, if th { 1 } else { 0 }, pairs(&ops, if th { &INITS } else { &[Init::Root] })));
        v.push(concurrent("races-three", "three threads, one operation each, with a happens-before race detector", KEYS, 1, threes(&few, if th { &INITS } else { &[Init::Root] })));
        v.push(concurrent("races-twice", "two threads, two operations each, with a happens-before race detector", KEYS, if th { 1 } else { 0 }, twos(&few, &[Init::Root])));
        v.push(concurrent("races-orphans", "two threads that own the last clones of a tree, with a happens-before race detector", KEYS, if th { 2 } else { 1 }, orphans(if th { &INITS } else { &[Init::Deep, Init::Built] })));
        v.push(concurrent_on::<Shared>("races-shared-orphans", "two threads that own the last clones of a shared tree, with a happens-before race detector", KEYS, 1, orphans(&[Init::Opened, Init::Built])));
        v.push(concurrent_on::<Shared>("races-shared-two", "two threads with clones of a shared tree, one operation each, with a happens-before race detector", KEYS, 1, pairs(&ops, &[Init::Built])));
        v.push(concurrent_on::<Shared>("races-shared-wide", "two threads with the last clones of a shared tree, with a happens-before race detector", WIDE, 0, orphans(&[Init::Opened, Init::Built])));
        return v
    }
    v.push(on_demand(mc::radix::u_small()));
    v.push(on_demand(mc::radix::u_spine()));
    v.push(invisible(mc::radix::u_small(), if th { 7 } else { 2 }));
    v.push(invisible(mc::radix::u_mid(if th { 4 } else { 3 }), if th { 2 } else { 1 }));
    // large trees
    v.push(on_demand_at(u_fan(1, &[9, 129, 256]), 5, 211));
    v.push(on_demand_at(u_chain(&[17, 40]), 2, 17));
    v.push(on_demand_at(u_bush(), 7, 137));
    v.push(on_demand(u_long(1)));
    v.push(on_demand(u_huge()));
    v.push(invisible_at(u_fan(1, &[9, 129, 256]), 1, vec![0, 21, 101, 257]));
    v.push(invisible_at(u_chain(&[17, 40]), 1, vec![0, 17, 18, 40, 60]));
    v.push(invisible_at(u_bush(), 1, vec![0, 5, 100, 340]));
    v.push(invisible(u_long(1), 1));
    v.push(invisible(u_huge(), 1));
    if th { v.push(on_demand(mc::radix::u_mid(4))); v.push(invisible(mc::radix::u_spine(), 3)); v.push(invisible(mc::radix::u_deepwide(), 1)) }
    v.push(concurrent("two-threads", "two threads, one operation each, from 5 loading states", KEYS, if th { 3 } else { 2 }, pairs(&ops, &INITS)));
    v.push(concurrent("two-threads-chain", "two threads, one operation each", CHAIN, if th { 2 } else { 1 }, pairs(&ops, &INITS)));
    v.push(concurrent("two-threads-wide", "two threads, one operation each", WIDE, 1, pairs(&ops, if th { &INITS } else { &[Init::Opened, Init::Root] })));
    v.push(concurrent("orphans", "two threads that own the last clones of a tree", KEYS, if th { 3 } else { 2 }, orphans(&INITS)));
    v.push(concurrent_on::<Shared>("shared-orphans", "two threads that own the last clones of a shared tree", KEYS, if th { 3 } else { 2 }, orphans(&[Init::Opened, Init::Built])));
    v.push(concurrent_on::<Shared>("shared-two-threads", "two threads with clones of a shared tree, one operation each", KEYS, if th { 3 } else { 2 }, pairs(&ops, &[Init::Opened, Init::Built])));
    v.push(concurrent_on::<Shared>("shared-three-threads", "three threads with clones of a shared tree, one operation each", KEYS, if th { 2 } else { 1 }, threes(&few, &[Init::Built])));
    v.push(concurrent("two-operations", "two threads, two operations each", KEYS, if th { 2 } else { 1 }, twos(&few, if th { &INITS } else { &[Init::Root] })));
    v.push(concurrent("three-threads", "three threads, one operation each", KEYS, if th { 2 } else { 1 }, threes(&few, if th { &INITS } else { &[Init::Root, Init::Deep] })));
    v
}
fn main() {
    mc::run_main(Prop {
        id: "C19",
        level: "model_checking",
        rule: "inputs: a tree, a loading state and an operation; schedules: a program of 2 or 3 threads is one case, every schedule of it up to the stated number of preemptions is executed on the real code; distinct by construction; non-trivial: a tree with at least two mappings, or a program with more than one schedule",
        assumptions: &["scheduling points are lock and unlock operations (of the parking_lot stand-in) and clones of values; code between them runs without interruption", "schedules are sequentially consistent; weaker behaviour is covered by the race detector, which finds no unordered accesses", "the standard library (Arc) is trusted"],
        spaces,
    })
}
