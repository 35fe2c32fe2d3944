//! C03: a set behaves like a sorted set under every operation history.
use mc::{bfs, elem, elem::E, ensure, ensure_eq, gen::*, seqs::Hinted, sets::build, Cx, Prop, Space, System};
use vec_collections::{AbstractVecSet, Array, VecSet};

#[derive(Clone, Debug)]
enum Act {
    Insert(u16),
    Remove(u16),
    /// keep the elements whose position in the universe satisfies the rule
    Retain(u8),
    /// the sequence, and how its iterator reports its length
    Extend(Vec<u16>, u8),
    /// operation, form, right operand, operand on the heap?
    Assign(u8, u8, Vec<u16>, bool),
    Shrink,
    CloneReplace,
    ViaVec,
    ViaSpareVec,
    ViaIter,
    ViaInner,
    Single(u16),
    Empty,
    Query(u16),
}
const OPN: [&str; 4] = ["|=", "&=", "-=", "^="];
fn show(a: &Act) -> String {
    match a {
        Act::Assign(o, f, k, h) => format!("{} {:?} ({}, operand {})", OPN[*o as usize], k, ["by value", "by reference", "method"][*f as usize], if *h { "on the heap" } else { "compact" }),
        a => format!("{a:?}"),
    }
}
type M = Vec<(u16, u16)>;
fn rule(r: u8, k: u16) -> bool {
    match r { 0 => true, 1 => false, 2 => k % 4 == 0, 3 => k % 4 != 0, 4 => k > 4, 5 => k <= 4, _ => k % 3 == 0 }
}

struct Sys<A: Array<Item = E>> { name: String, w: Vec<usize>, depth: usize, acts: Vec<Act>, probes: Vec<u16>, _a: std::marker::PhantomData<fn() -> A> }
impl<A: Array<Item = E>> Sys<A> {
    fn new(w: &[usize], depth: usize, operands: usize) -> Self {
        let at = Atoms::new(w);
        let mut acts = vec![];
        let all = at.elems(at.masks() - 1);
        // single elements: the first and last of every atom
        let mut singles = vec![];
        for i in 0..at.n() {
            let e = at.elems(1 << i);
            singles.push(e[0]);
            if e.len() > 1 { singles.push(*e.last().unwrap()) }
            if e.len() > 2 { singles.push(e[e.len() / 2]) }
        }
        for k in &singles { for h in 0..6 { acts.push(Act::Extend(vec![*k], h)) } acts.push(Act::Insert(*k)); acts.push(Act::Remove(*k)) }
        for m in subsets_upto(at.n(), operands) {
            let k = at.elems(m);
            for op in 0..4 { for form in 0..3 { for heap in [false, true] {
                if form == 2 && heap { continue }
                acts.push(Act::Assign(op, form, k.clone(), heap))
            } } }
            let mut d = k.clone();
            d.extend(k.iter().rev());
            if d.is_empty() { acts.push(Act::Extend(d, 0)) } else {
                acts.push(Act::Extend(d, m as u8 % 6));
                acts.push(Act::Extend(k.clone(), (m as u8 + 3) % 6));
                let mut r = k.clone();
                r.reverse();
                r.push(r[0]);
                acts.push(Act::Extend(r, (m as u8 + 1) % 6));
            }
        }
        for r in 0..7 { acts.push(Act::Retain(r)) }
        acts.extend([Act::Shrink, Act::CloneReplace, Act::ViaVec, Act::ViaSpareVec, Act::ViaIter, Act::ViaInner, Act::Empty]);
        acts.push(Act::Single(singles[0]));
        acts.push(Act::Single(*singles.last().unwrap()));
        for k in &all { if singles.contains(k) { acts.push(Act::Query(*k)) } }
        Sys { name: format!("set-cap{}-{w:?}", A::size()), w: w.to_vec(), depth, acts, probes: at.probes(), _a: std::marker::PhantomData }
    }
}
fn fresh(step: usize) -> u16 { step as u16 + 1 }

impl<A: Array<Item = E>> System for Sys<A> {
    fn name(&self) -> String { self.name.clone() }
    fn about(&self) -> String { format!("one set of inline capacity {} over atoms {:?}; insert, remove, retain, extend, set-algebra assignment in all forms, shrink, clone, conversions; state = elements, capacity, inline/heap", A::size(), self.w) }
    fn actions(&self) -> usize { self.acts.len() }
    fn max_depth(&self) -> usize { self.depth }
    fn describe(&self, p: &[u16]) -> String { p[1..].iter().map(|a| show(&self.acts[*a as usize])).collect::<Vec<_>>().join("; ") }
    fn replay(&self, path: &[u16], cx: &mut Cx) -> Option<Vec<u8>> {
        elem::reset();
        let mut key = vec![];
        {
            let mut s: VecSet<A> = VecSet::empty();
            let mut m: M = vec![];
            for (step, a) in path[1..].iter().enumerate() {
                let a = &self.acts[*a as usize];
                let t = fresh(step);
                cx.op();
                match a {
                    Act::Insert(k) => {
                        let new = !m.iter().any(|e| e.0 == *k);
                        ensure_eq!(s.insert(E::new(*k, t)), new, "insert({k}) result");
                        m.retain(|e| e.0 != *k);
                        m.push((*k, t));
                        m.sort();
                    }
                    Act::Remove(k) => {
                        let had = m.iter().any(|e| e.0 == *k);
                        ensure_eq!(s.remove(&E::new(*k, t)), had, "remove({k}) result");
                        m.retain(|e| e.0 != *k);
                    }
                    Act::Retain(r) => {
                        let mut seen = vec![];
                        s.retain(|e| { seen.push(e.key); rule(*r, e.key) });
                        seen.sort();
                        ensure_eq!(seen, m.iter().map(|e| e.0).collect::<Vec<_>>(), "elements shown to the retain predicate");
                        m.retain(|e| rule(*r, e.0));
                    }
                    Act::Extend(ks, hint) => {
                        // distinguishable duplicates: position in the sequence is part of the tag
                        let n = ks.len() as u16;
                        s.extend(Hinted(ks.iter().enumerate().map(|(i, k)| E::new(*k, t * 256 + i as u16)), *hint));
                        for i in 0..n { let k = ks[i as usize]; if !m.iter().any(|e| e.0 == k) { m.push((k, t * 256 + i)) } }
                        m.sort();
                    }
                    Act::Assign(op, form, ks, heap) => {
                        let y: VecSet<[E; 4]> = build(ks, t, *heap);
                        let was = m.clone();
                        let ina = |k: u16| was.iter().any(|e| e.0 == k);
                        match op {
                            0 => for k in ks { if !ina(*k) { m.push((*k, t)) } },
                            1 => m.retain(|e| ks.contains(&e.0)),
                            2 => m.retain(|e| !ks.contains(&e.0)),
                            _ => { m.retain(|e| !ks.contains(&e.0)); for k in ks { if !ina(*k) { m.push((*k, t)) } } }
                        }
                        m.sort();
                        match (op, form) {
                            (0, 0) => s |= y, (1, 0) => s &= y, (2, 0) => s -= y, (3, 0) => s ^= y,
                            (0, 1) => s |= &y, (1, 1) => s &= &y, (2, 1) => s -= &y, (3, 1) => s ^= &y,
                            (0, _) => s.union_with(&y), (1, _) => s.intersection_with(&y), (2, _) => s.difference_with(&y), (_, _) => s.xor_with(&y),
                        }
                    }
                    Act::Shrink => s.shrink_to_fit(),
                    Act::CloneReplace => { let c = s.clone(); s = c }
                    Act::ViaVec => { let v: Vec<E> = s.into(); s = VecSet::from(v) }
                    Act::ViaSpareVec => { let mut v: Vec<E> = s.into(); v.reserve(40); s = VecSet::from(v) }
                    Act::ViaIter => s = s.into_iter().collect(),
                    Act::ViaInner => { let v = s.into_inner(); s = v.into_iter().collect() }
                    Act::Single(k) => { s = VecSet::single(E::new(*k, t)); m = vec![(*k, t)] }
                    Act::Empty => { s = VecSet::empty(); m.clear() }
                    Act::Query(k) => {
                        ensure_eq!(s.contains(&E::new(*k, t)), m.iter().any(|e| e.0 == *k), "contains({k})");
                    }
                }
                ensure!(s.len() == m.len() && s.iter().zip(&m).all(|(e, m)| e.ok() && (e.key, e.tag) == *m),
                    "after step {step} ({}): got {:?}, expected {:?}", show(a), s.iter().map(|e| (e.key, e.tag)).collect::<Vec<_>>(), m);
            }
            ensure_eq!(s.is_empty(), m.is_empty(), "is_empty");
            for p in &self.probes { ensure_eq!(s.contains(&E::new(*p, 0)), m.iter().any(|e| e.0 == *p), "contains({p}) in the final state") }
            cx.nontrivial_if(!m.is_empty());
            key.extend(s.iter().flat_map(|e| e.key.to_le_bytes()));
            let inner = s.into_inner();
            key.push(255);
            key.push(255);
            key.push(inner.spilled() as u8);
            key.extend((inner.capacity() as u16).to_le_bytes());
        }
        elem::check_clean(false);
        Some(key)
    }
}
fn spaces(th: bool) -> Vec<Box<dyn Space>> {
    let d = |q, t| if th { t } else { q };
    let mut v = vec![
        bfs(Sys::<[E; 1]>::new(&[1; 4], 40, 4)),
        bfs(Sys::<[E; 2]>::new(&[1; 5], 40, d(3, 5))),
        bfs(Sys::<[E; 4]>::new(&[1; 5], 40, d(3, 5))),
        bfs(Sys::<[E; 4]>::new(&[1, 3, 1], 40, 3)),
        bfs(Sys::<[E; 2]>::new(&[1, 9, 1, 2], d(5, 9), 2)),
        bfs(Sys::<[E; 16]>::new(&[2, 9, 1, 7], d(5, 7), 2)),
        bfs(Sys::<[E; 4]>::new(&[1; 9], d(4, 6), 2)),
        bfs(Sys::<[E; 4]>::new(&[1, 70, 1, 150, 1], d(3, 4), 2)),
        bfs(Sys::<[E; 64]>::new(&[30, 1, 33, 1], d(3, 5), 2)),
        bfs(Sys::<[E; 2]>::new(&[256, 1, 600, 1], d(2, 3), 2)),
    ];
    v.extend(mc::each_elem!(steps));
    v.push(mc::huge::set_history());
    v
}
fn main() {
    mc::run_main(Prop {
        id: "C03",
        level: "model_checking",
        rule: "a state is reached by replaying its action path on a fresh real set in lock step with a reference list; states are merged when elements, capacity and storage kind agree; non-trivial: the final set is non-empty",
        assumptions: &["the set's future behaviour depends only on its elements, its capacity and its storage kind (VecSet has no other field)", "bounded universes and, where the space is not marked closed, bounded depth"],
        spaces,
    })
}
