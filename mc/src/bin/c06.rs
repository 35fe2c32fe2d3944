//! C06: map joins call the function once per matching key and keep its answers.
use mc::{elem, elem::E, ensure, ensure_eq, gen::*, idx, Cx, Prop, Space};
use rkyv::ser::{serializers::AllocSerializer, Serializer};
use rkyv::AlignedVec;
use std::cell::RefCell;
use std::sync::Arc;
use vec_collections::{AbstractVecMap, Array, ArchivedVecMap, OuterJoinArg, VecMap};

const JOINS: [&str; 4] = ["outer", "left", "right", "inner"];
/// one observed call: key, left value, right value
type Call = (u16, Option<u16>, Option<u16>);
const L: u16 = 1000;
const R: u16 = 5000;
fn res(c: &Call) -> u16 { c.0 * 7 + c.1.map_or(1, |x| x % 613) * 3 + c.2.map_or(2, |x| x % 359) * 5 }

struct Log { calls: RefCell<Vec<Call>>, keep: Keep }
#[derive(Clone, Copy)]
enum Keep {
    /// bit per key position
    Keys(u64),
    /// bit per (side, key parity)
    Kind(u8),
}
impl Keep {
    fn keep(&self, c: &Call) -> bool {
        match self {
            Keep::Keys(m) => m >> ((c.0 - 2) / 2) & 1 == 1,
            Keep::Kind(t) => {
                let side = match (c.1, c.2) { (Some(_), None) => 0, (None, Some(_)) => 1, _ => 2 };
                t >> (side * 2 + (c.0 / 2 % 2)) & 1 == 1
            }
        }
    }
}
impl Log {
    fn new(keep: Keep) -> Self { Log { calls: RefCell::new(vec![]), keep } }
    fn call(&self, k: u16, l: Option<u16>, r: Option<u16>) -> Option<u16> {
        let c = (k, l, r);
        self.calls.borrow_mut().push(c);
        self.keep.keep(&c).then(|| res(&c))
    }
    fn check(self, got: &[(u16, u16)], exp: &Expect, what: &dyn Fn() -> String, cx: &mut Cx) {
        cx.op();
        let mut c = self.calls.into_inner();
        c.sort();
        if c != exp.calls { mc::fail!("{}: calls (key, left, right) {:?}, expected {:?}", what(), c, exp.calls) }
        if got != exp.result { mc::fail!("{}: result {:?}, expected {:?}", what(), got, exp.result) }
    }
}
struct Expect { calls: Vec<Call>, result: Vec<(u16, u16)> }
fn expect(a: &[u16], b: &[u16], keep: Keep) -> [Expect; 4] { expect_from(a, b, R, keep) }
fn expect_from(a: &[u16], b: &[u16], right: u16, keep: Keep) -> [Expect; 4] {
    let (ina, inb) = (member(a), member(b));
    let mut all: Vec<u16> = a.iter().chain(b).copied().collect();
    all.sort();
    all.dedup();
    let cs: Vec<Call> = all.iter().map(|k| (*k, ina(*k).then_some(L + k), inb(*k).then_some(right + k))).collect();
    [0, 1, 2, 3].map(|j| {
        let calls: Vec<Call> = cs.iter().filter(|c| match j { 0 => true, 1 => c.1.is_some(), 2 => c.2.is_some(), _ => c.1.is_some() && c.2.is_some() }).copied().collect();
        let result = calls.iter().filter(|c| keep.keep(c)).map(|c| (c.0, res(c))).collect();
        Expect { calls, result }
    })
}
fn map<A: Array<Item = (u16, u16)>>(ks: &[u16], off: u16, heap: bool) -> VecMap<A> {
    let mut m: VecMap<A> = ks.iter().map(|k| (*k, off + k)).chain((0..if heap { 40 } else { 0 }).map(|i| (20_000 + i, 0))).collect();
    if heap { m.retain(|e| e.0 < 20_000) }
    m
}
fn arg<'a>(a: OuterJoinArg<&'a u16, &'a u16, &'a u16>) -> (u16, Option<u16>, Option<u16>) {
    match a { OuterJoinArg::Left(k, l) => (*k, Some(*l), None), OuterJoinArg::Right(k, r) => (*k, None, Some(*r)), OuterJoinArg::Both(k, l, r) => (*k, Some(*l), Some(*r)) }
}
fn argo<'a>(a: OuterJoinArg<&'a u16, u16, &'a u16>) -> (u16, Option<u16>, Option<u16>) {
    match a { OuterJoinArg::Left(k, l) => (*k, Some(l), None), OuterJoinArg::Right(k, r) => (*k, None, Some(*r)), OuterJoinArg::Both(k, l, r) => (*k, Some(l), Some(*r)) }
}
type O = [(u16, u16); 3];
/// the copying joins between any two kinds of map
fn copying(a: &impl AbstractVecMap<u16, u16>, b: &impl AbstractVecMap<u16, u16>, exp: &[Expect; 4], keep: Keep, what: &str, cx: &mut Cx) {
    for j in 0..4 {
        let log = Log::new(keep);
        let r: VecMap<O> = match j {
            0 => a.outer_join(b, |x| { let (k, l, r) = arg(x); log.call(k, l, r) }),
            1 => a.left_join(b, |k, l, r: Option<&u16>| log.call(*k, Some(*l), r.copied())),
            2 => a.right_join(b, |k, l, r| log.call(*k, l.copied(), Some(*r))),
            _ => a.inner_join(b, |k, l, r| log.call(*k, Some(*l), Some(*r))),
        };
        log.check(r.as_ref(), &exp[j], &|| format!("{}_join {what}", JOINS[j]), cx);
    }
}
fn in_place<A: Array<Item = (u16, u16)>>(ka: &[u16], heap: bool, b: &impl AbstractVecMap<u16, u16>, exp: &[Expect; 4], keep: Keep, what: &str, cx: &mut Cx) {
    for j in 0..4 {
        let log = Log::new(keep);
        let mut a: VecMap<A> = map(ka, L, heap);
        match j {
            0 => a.outer_join_with(b, |x| { let (k, l, r) = argo(x); log.call(k, l, r) }),
            1 => a.left_join_with(b, |k, l, r| log.call(*k, Some(l), r.copied())),
            2 => a.right_join_with(b, |k, l, r| log.call(*k, l, Some(*r))),
            _ => a.inner_join_with(b, |k, l, r| log.call(*k, Some(l), Some(*r))),
        }
        log.check(a.as_ref(), &exp[j], &|| format!("{}_join_with {what}, capacity {}, {}", JOINS[j], A::size(), if heap { "heap" } else { "compact" }), cx);
    }
}
/// in place with ownership-tracked keys and values
fn tracked(ka: &[u16], kb: &[u16], exp: &[Expect; 4], keep: Keep, heap: bool, cx: &mut Cx) {
    elem::reset();
    let e = |k: u16, off: u16| (E::new(k, 0), E::new(off + k, 0));
    for j in 0..4 {
        let log = Log::new(keep);
        let mut a: VecMap<[(E, E); 2]> = ka.iter().map(|k| e(*k, L)).chain((0..if heap { 30 } else { 0 }).map(|i| e(20_000 + i, 0))).collect();
        if heap { a.retain(|x| x.0.key < 20_000) }
        let b: VecMap<[(E, E); 4]> = kb.iter().map(|k| e(*k, R)).collect();
        let c = |k: &E, l: Option<E>, r: Option<&E>| {
            ensure!(k.ok() && l.as_ref().is_none_or(|x| x.ok()) && r.is_none_or(|x| x.ok()), "the join function was shown a dropped element");
            log.call(k.key, l.map(|x| x.key), r.map(|x| x.key)).map(|v| E::new(v, 0))
        };
        match j {
            0 => a.outer_join_with(&b, |x| match x { OuterJoinArg::Left(k, l) => c(k, Some(l), None), OuterJoinArg::Right(k, r) => c(k, None, Some(r)), OuterJoinArg::Both(k, l, r) => c(k, Some(l), Some(r)) }),
            1 => a.left_join_with(&b, |k, l, r| c(k, Some(l), r)),
            2 => a.right_join_with(&b, |k, l, r| c(k, l, Some(r))),
            _ => a.inner_join_with(&b, |k, l, r| c(k, Some(l), Some(r))),
        }
        let got: Vec<(u16, u16)> = a.iter().map(|(k, v)| { ensure!(k.ok() && v.ok(), "dropped element in the result"); (k.key, v.key) }).collect();
        log.check(&got, &exp[j], &|| format!("{}_join_with on tracked elements", JOINS[j]), cx);
        // the right operand is untouched
        ensure!(b.len() == kb.len() && b.iter().zip(kb).all(|((k, v), x)| k.ok() && v.ok() && k.key == *x && v.key == R + x), "{}_join_with changed its right operand", JOINS[j]);
    }
    // combine: function on the shared keys only
    let mut a: VecMap<[(E, E); 2]> = ka.iter().map(|k| e(*k, L)).collect();
    let b: VecMap<[(E, E); 8]> = kb.iter().map(|k| e(*k, R)).collect();
    let calls = RefCell::new(vec![]);
    a.combine_with(b, |l, r| { calls.borrow_mut().push((l.key, r.key)); E::new(l.key ^ r.key, 1) });
    let mut calls = calls.into_inner();
    calls.sort();
    ensure_eq!(calls, exp[3].calls.iter().map(|c| (c.1.unwrap(), c.2.unwrap())).collect::<Vec<_>>(), "combine_with calls");
    let got: Vec<(u16, u16)> = a.iter().map(|(k, v)| (k.key, v.key)).collect();
    let want: Vec<(u16, u16)> = exp[0].calls.iter().map(|c| (c.0, match (c.1, c.2) { (Some(l), Some(r)) => l ^ r, (l, r) => l.or(r).unwrap() })).collect();
    ensure_eq!(got, want, "combine_with result");
    drop(a);
    // merge: right wins
    let mut a: VecMap<[(E, E); 2]> = ka.iter().map(|k| e(*k, L)).collect();
    a.merge_with(kb.iter().map(|k| e(*k, R)).collect::<VecMap<[(E, E); 1]>>());
    let got: Vec<(u16, u16)> = a.iter().map(|(k, v)| (k.key, v.key)).collect();
    ensure_eq!(got, exp[0].calls.iter().map(|c| (c.0, c.2.or(c.1).unwrap())).collect::<Vec<_>>(), "merge_with result");
    drop(a);
    cx.ops(2);
    elem::check_clean(false);
}
fn archived(ks: &[u16], off: u16) -> AlignedVec {
    let mut ser = AllocSerializer::<256>::default();
    ser.serialize_value(&map::<[(u16, u16); 4]>(ks, off, false)).unwrap();
    ser.into_serializer().into_inner()
}
fn view(b: &AlignedVec) -> &ArchivedVecMap<u16, u16> { unsafe { rkyv::archived_root::<VecMap<[(u16, u16); 4]>>(b) } }

fn pairs(name: &str, w: &[usize], keeps: Vec<Keep>, with_tracked: bool) -> Box<dyn Space> {
    let at = Atoms::new(w);
    let at2 = at.clone();
    let n = keeps.len() as u64;
    let pre: Arc<Vec<_>> = Arc::new((0..at.masks()).map(|m| { let k = at.elems(m); (archived(&k, L), archived(&k, R)) }).collect());
    idx(format!("joins-{name}"), format!("all pairs of maps over {} atoms of sizes {w:?} x {n} keep/drop patterns; 4 joins copying (3 operand kinds) and in place (compact/heap, owned/archived right side){}", at.n(), if with_tracked { ", tracked elements, combine_with, merge_with" } else { "" }),
        at.masks() * at.masks() * n,
        move |i, cx| {
            let keep = keeps[(i % n) as usize];
            let (x, y) = pair(i / n, at.masks());
            let (ka, kb) = (at.elems(x), at.elems(y));
            case(&ka, &kb, keep, view(&pre[x as usize].0), view(&pre[y as usize].1), with_tracked, cx);
        },
        move |i| { let (x, y) = pair(i / n, at2.masks()); format!("A keys {:?}, B keys {:?}, keep pattern #{}", at2.elems(x), at2.elems(y), i % n) })
}
/// a map joined with itself (the same object as both operands)
fn self_joins(name: &str, w: &[usize], keeps: Vec<Keep>) -> Box<dyn Space> {
    let at = Atoms::new(w);
    let at2 = at.clone();
    let n = keeps.len() as u64;
    idx(format!("self-{name}"), format!("every map over {} atoms of sizes {w:?} x {n} keep/drop patterns, joined with itself (the same object): 4 joins, owned compact and heap, archived", at.n()), at.masks() * n,
        move |i, cx| {
            let (keep, k) = (keeps[(i % n) as usize], at.elems(i / n));
            let exp = expect_from(&k, &k, L, keep);
            cx.nontrivial_if(!exp[0].result.is_empty() && exp[0].result.len() < k.len());
            cx.outcome(&exp[0].result);
            let want: Vec<(u16, u16)> = k.iter().map(|x| (*x, L + x)).collect();
            for heap in [false, true] {
                let a: VecMap<[(u16, u16); 4]> = map(&k, L, heap);
                copying(&a, &a, &exp, keep, "of a map with itself", cx);
                ensure!(a.as_ref() == want, "a join changed its only operand");
            }
            let b = archived(&k, L);
            copying(view(&b), view(&b), &exp, keep, "of an archived map with itself", cx);
        },
        move |i| format!("A=B={:?}, keep pattern #{}", at2.elems(i / n), i % n))
}
/// pairs of large operands
fn large(name: &str, what: &str, ps: Vec<(Vec<u16>, Vec<u16>)>, keeps: Vec<Keep>, with_tracked: bool) -> Box<dyn Space> {
    let ps = Arc::new(ps);
    let ps2 = ps.clone();
    let n = keeps.len() as u64;
    idx(format!("large-{name}"), format!("{what} x {n} keep/drop patterns; 4 joins copying and in place as above{}", if with_tracked { ", tracked elements, combine_with, merge_with" } else { "" }), ps.len() as u64 * n,
        move |i, cx| {
            let (ka, kb) = &ps[(i / n) as usize];
            case(ka, kb, keeps[(i % n) as usize], view(&archived(ka, L)), view(&archived(kb, R)), with_tracked, cx);
        },
        move |i| format!("A keys {}, B keys {}, keep pattern #{}", runs(&ps2[(i / n) as usize].0), runs(&ps2[(i / n) as usize].1), i % n))
}
fn case(ka: &[u16], kb: &[u16], keep: Keep, aa: &ArchivedVecMap<u16, u16>, ab: &ArchivedVecMap<u16, u16>, with_tracked: bool, cx: &mut Cx) {
            let exp = expect(ka, kb, keep);
            cx.nontrivial_if(!exp[3].calls.is_empty() && exp[0].calls.len() > exp[3].calls.len() && !exp[0].result.is_empty());
            let a: VecMap<[(u16, u16); 4]> = map(ka, L, false);
            let b: VecMap<[(u16, u16); 2]> = map(kb, R, false);
            copying(&a, &b, &exp, keep, "owned/owned", cx);
            copying(&a, ab, &exp, keep, "owned/archived", cx);
            copying(aa, ab, &exp, keep, "archived/archived", cx);
            in_place::<[(u16, u16); 2]>(&ka, false, &b, &exp, keep, "owned", cx);
            in_place::<[(u16, u16); 4]>(&ka, true, &b, &exp, keep, "owned", cx);
            in_place::<[(u16, u16); 16]>(&ka, false, ab, &exp, keep, "archived", cx);
            let want = |ks: &[u16], off: u16| ks.iter().map(|k| (*k, off + k)).collect::<Vec<_>>();
            ensure!(a.as_ref() == want(&ka, L) && aa.as_slice() == want(&ka, L), "a join changed its left operand");
            ensure!(b.as_ref() == want(&kb, R) && ab.as_slice() == want(&kb, R), "a join changed its right operand");
            if with_tracked {
                tracked(&ka, &kb, &exp, keep, false, cx);
                tracked(&ka, &kb, &exp, keep, true, cx);
            }
            cx.outcome(&exp[0].result);
}
fn spaces(th: bool) -> Vec<Box<dyn Space>> {
    let keys = |n: u64| (0..1 << n).map(Keep::Keys).collect::<Vec<_>>();
    let kinds = || (0..64).map(Keep::Kind).collect::<Vec<_>>();
    let some = || [63, 0, 0b010101, 0b101010, 0b000011, 0b001100, 0b110000, 0b011110].map(Keep::Kind).to_vec();
    let mut v = vec![
        pairs("6-every-keep-set", &[1; 6], keys(6), true),
        pairs("6-every-kind", &[1; 6], kinds(), true),
        pairs("weighted", &[1, 9, 2, 5], kinds(), true),
        self_joins("8-every-kind", &[1; 8], kinds()),
        self_joins("weighted", &[1, 9, 2, 1, 5, 65, 1, 300], some()),
        pairs("9-some", &[1; 9], some(), false),
        pairs("weighted4", &[9, 1, 1, 1, 1, 9], kinds(), true),
        pairs("weighted-some", &[3, 1, 17, 1, 1, 10], some(), true),
        large("grid", "pairs of maps of 24 lengths up to 300 in 14 relative positions", grid(&SOME_LENS), some(), false),
        large("grid-tracked", "pairs of maps of 24 lengths up to 300 in 14 relative positions", grid(&SOME_LENS), vec![Keep::Kind(63), Keep::Kind(0b011110)], true),
        large("longest", "pairs of maps of lengths up to 1025 in 14 relative positions", grid(&[0, 1, 2, 10, 64, 128, 511, 512, 1000, 1025]), vec![Keep::Kind(63), Keep::Kind(0b011001)], false),
        large("sweep", "maps of 9..130 entries differing at one place, every place", sweep(&[9, 17, 33, 65, 130]), vec![Keep::Kind(63), Keep::Kind(0b101101)], false),
    ];
    if th {
        v.push(pairs("7-every-keep-set", &[1; 7], keys(7), true));
        v.push(pairs("7-every-kind", &[1; 7], kinds(), true));
        v.push(pairs("11-some", &[1; 11], some(), false));
        v.push(pairs("weighted3", &[1, 8, 1, 2, 16, 1, 33, 1], some(), true));
    }
    { use mc::types::*; v.extend([joins::<(), u16, String>(), joins::<bool, String, u8>(), joins::<u8, (), i128>(), joins::<i8, u64, ()>(), joins::<u64, Huge, bool>(), joins::<Rev, u8, Huge>(), joins::<Fold, Box<i16>, i8>(), joins::<String, String, String>(), joins::<Huge, i8, u64>()]) }
    v.push(mc::huge::map_joins());
    v
}
fn main() {
    mc::run_main(Prop {
        id: "C06",
        level: "exploration",
        rule: "a case is one pair of key sets and one keep/drop pattern run through every join form with the calls logged and compared with the per-key definition; distinct by construction; non-trivial: some keys shared, some not, and something kept",
        assumptions: &["joins treat keys only through Ord and Clone and values only by moving or borrowing them", "bounded universes (all pairs over up to 11 distinct atoms, block-weighted maps up to 63 entries, large maps up to 1025 entries in fixed relative positions)"],
        spaces,
    })
}
