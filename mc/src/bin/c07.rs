//! C07: std-map joins agree with the map-join semantics.
use mc::{ensure_eq, gen::*, idx, Cx, Prop, Space};
use rkyv::collections::ArchivedBTreeMap;
use rkyv::ser::{serializers::AllocSerializer, Serializer};
use rkyv::AlignedVec;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::sync::Arc;
use vec_collections::{btree_map::{AbstractBTreeMap, InPlaceRelationalOps}, OuterJoinArg};

type Call = (u16, Option<u16>, Option<u16>);
const L: u16 = 1000;
const R: u16 = 5000;
const JOINS: [&str; 4] = ["outer", "left", "right", "inner"];
/// bit per (side, key parity): keep
#[derive(Clone, Copy)]
enum Keep { Keys(u64), Kind(u8) }
impl Keep {
    fn keep(&self, c: &Call) -> bool {
        match self {
            Keep::Keys(m) => m >> ((c.0 - 2) / 2) & 1 == 1,
            Keep::Kind(t) => {
                let side = match (c.1, c.2) { (Some(_), None) => 0, (None, Some(_)) => 1, _ => 2 };
                t >> (side * 2 + (c.0 / 2 % 2)) & 1 == 1
            }
        }
    }
}
fn res(c: &Call) -> u16 { c.0 * 7 + c.1.map_or(1, |x| x % 613) * 3 + c.2.map_or(2, |x| x % 359) * 5 }
struct Expect { calls: Vec<Call>, copy: BTreeMap<u16, u16>, place: BTreeMap<u16, u16> }
fn expect(a: &[u16], b: &[u16], keep: Keep) -> Vec<Expect> { expect_from(a, b, R, keep) }
fn expect_from(a: &[u16], b: &[u16], right: u16, keep: Keep) -> Vec<Expect> {
    let (ina, inb) = (member(a), member(b));
    let mut all: Vec<u16> = a.iter().chain(b).copied().collect();
    all.sort();
    all.dedup();
    (0..4).map(|j| {
        let calls: Vec<Call> = all.iter().map(|k| (*k, ina(*k).then_some(L + k), inb(*k).then_some(right + k)))
            .filter(|c| match j { 0 => true, 1 => c.1.is_some(), 2 => c.2.is_some(), _ => c.1.is_some() && c.2.is_some() }).collect();
        let copy: BTreeMap<u16, u16> = calls.iter().filter(|c| keep.keep(c)).map(|c| (c.0, res(c))).collect();
        // in place a right-only entry can only appear through the outer join's second function
        let place = calls.iter().filter(|c| keep.keep(c) && (j == 0 || c.1.is_some())).map(|c| (c.0, res(c))).collect();
        Expect { calls, copy, place }
    }).collect()
}
struct Log { calls: RefCell<Vec<Call>>, keep: Keep }
impl Log {
    fn new(keep: Keep) -> Self { Log { calls: RefCell::new(vec![]), keep } }
    fn call(&self, k: u16, l: Option<u16>, r: Option<u16>) -> Option<u16> {
        let c = (k, l, r);
        self.calls.borrow_mut().push(c);
        self.keep.keep(&c).then(|| res(&c))
    }
    /// always mutates the value, keeps or drops the entry as the pattern says
    fn mutate(&self, k: u16, l: Option<&mut u16>, r: Option<u16>) -> bool {
        let c = (k, l.as_deref().copied(), r);
        self.calls.borrow_mut().push(c);
        if let Some(l) = l { *l = res(&c) }
        self.keep.keep(&c)
    }
    fn check(self, got: &BTreeMap<u16, u16>, calls: &[Call], want: &BTreeMap<u16, u16>, what: &str, cx: &mut Cx) {
        cx.op();
        let mut c = self.calls.into_inner();
        c.sort();
        ensure_eq!(c, calls.to_vec(), "{what}: calls (key, left, right)");
        ensure_eq!(*got, *want, "{what}: result");
    }
}
fn map(ks: &[u16], off: u16) -> BTreeMap<u16, u16> { ks.iter().map(|k| (*k, off + k)).collect() }
fn archived(ks: &[u16], off: u16) -> AlignedVec {
    let mut ser = AllocSerializer::<256>::default();
    ser.serialize_value(&map(ks, off)).unwrap();
    ser.into_serializer().into_inner()
}
fn view(b: &AlignedVec) -> &ArchivedBTreeMap<u16, u16> { unsafe { rkyv::archived_root::<BTreeMap<u16, u16>>(b) } }

fn copying(a: &impl AbstractBTreeMap<u16, u16>, b: &impl AbstractBTreeMap<u16, u16>, exp: &[Expect], keep: Keep, what: &str, cx: &mut Cx) {
    for j in 0..4 {
        let log = Log::new(keep);
        let r = match j {
            0 => a.outer_join(b, |x: OuterJoinArg<&u16, &u16, &u16>| match x {
                OuterJoinArg::Left(k, l) => log.call(*k, Some(*l), None),
                OuterJoinArg::Right(k, r) => log.call(*k, None, Some(*r)),
                OuterJoinArg::Both(k, l, r) => log.call(*k, Some(*l), Some(*r)),
            }),
            1 => a.left_join(b, |k, l, r: Option<&u16>| log.call(*k, Some(*l), r.copied())),
            2 => a.right_join(b, |k, l, r: &u16| log.call(*k, l.copied(), Some(*r))),
            _ => a.inner_join::<_, _, _, ()>(b, |k, l, r: &u16| log.call(*k, Some(*l), Some(*r))),
        };
        log.check(&r, &exp[j].calls, &exp[j].copy, &format!("{}_join {what}", JOINS[j]), cx);
    }
}
fn in_place(ka: &[u16], b: &impl AbstractBTreeMap<u16, u16>, exp: &[Expect], keep: Keep, what: &str, cx: &mut Cx) {
    for j in 0..4 {
        let log = Log::new(keep);
        let mut a = map(ka, L);
        match j {
            0 => a.outer_join_with(b, |k, l, r: Option<&u16>| log.mutate(*k, Some(l), r.copied()), |k, r| log.call(*k, None, Some(*r))),
            1 => a.left_join_with(b, |k, l, r: Option<&u16>| log.mutate(*k, Some(l), r.copied())),
            2 => a.right_join_with(b, |k, l, r: &u16| log.mutate(*k, l, Some(*r))),
            _ => a.inner_join_with(b, |k, l, r: &u16| log.mutate(*k, Some(l), Some(*r))),
        }
        log.check(&a, &exp[j].calls, &exp[j].place, &format!("{}_join_with {what}", JOINS[j]), cx);
    }
}
fn pairs(name: &str, w: &[usize], keeps: Vec<Keep>) -> Box<dyn Space> {
    let at = Atoms::new(w);
    let at2 = at.clone();
    let n = keeps.len() as u64;
    let pre: Arc<Vec<_>> = Arc::new((0..at.masks()).map(|m| { let k = at.elems(m); (map(&k, L), map(&k, R), archived(&k, L), archived(&k, R)) }).collect());
    idx(format!("btree-joins-{name}"), format!("all pairs of B-tree maps over {} atoms of sizes {w:?} x {n} keep/drop patterns; 4 joins, copying for 4 owned/archived pairings, in place for 2", at.n()),
        at.masks() * at.masks() * n,
        move |i, cx| {
            let keep = keeps[(i % n) as usize];
            let (x, y) = pair(i / n, at.masks());
            let (ka, kb) = (at.elems(x), at.elems(y));
            case(&ka, &kb, keep, (&pre[x as usize].0, &pre[y as usize].1, view(&pre[x as usize].2), view(&pre[y as usize].3)), i % n == 0 && x == y, &at.probes(), cx);
        },
        move |i| { let (x, y) = pair(i / n, at2.masks()); format!("A keys {:?}, B keys {:?}, keep pattern #{}", at2.elems(x), at2.elems(y), i % n) })
}
/// a map joined with itself (the same object as both operands)
fn self_joins(name: &str, w: &[usize], keeps: Vec<Keep>) -> Box<dyn Space> {
    let at = Atoms::new(w);
    let at2 = at.clone();
    let n = keeps.len() as u64;
    idx(format!("self-{name}"), format!("every B-tree map over {} atoms of sizes {w:?} x {n} keep/drop patterns, joined with itself (the same object): 4 copying joins, owned and archived", at.n()), at.masks() * n,
        move |i, cx| {
            let (keep, k) = (keeps[(i % n) as usize], at.elems(i / n));
            let exp = expect_from(&k, &k, L, keep);
            cx.nontrivial_if(!exp[0].copy.is_empty() && exp[0].copy.len() < k.len());
            cx.outcome(&exp[0].copy);
            let a = map(&k, L);
            copying(&a, &a, &exp, keep, "of a map with itself", cx);
            ensure_eq!(a, map(&k, L), "the only operand afterwards");
            let b = archived(&k, L);
            copying(view(&b), view(&b), &exp, keep, "of an archived map with itself", cx);
        },
        move |i| format!("A=B={:?}, keep pattern #{}", at2.elems(i / n), i % n))
}
/// pairs of large operands
fn large(name: &str, what: &str, ps: Vec<(Vec<u16>, Vec<u16>)>, keeps: Vec<Keep>) -> Box<dyn Space> {
    let ps = Arc::new(ps);
    let ps2 = ps.clone();
    let n = keeps.len() as u64;
    idx(format!("large-{name}"), format!("{what} x {n} keep/drop patterns; all joins as above"), ps.len() as u64 * n,
        move |i, cx| {
            let (ka, kb) = &ps[(i / n) as usize];
            let (ba, bb) = (archived(ka, L), archived(kb, R));
            case(ka, kb, keeps[(i % n) as usize], (&map(ka, L), &map(kb, R), view(&ba), view(&bb)), ka == kb, &ka.iter().flat_map(|k| [k - 1, *k, k + 1]).collect::<Vec<_>>(), cx);
        },
        move |i| format!("A keys {}, B keys {}, keep pattern #{}", runs(&ps2[(i / n) as usize].0), runs(&ps2[(i / n) as usize].1), i % n))
}
type Ops<'a> = (&'a BTreeMap<u16, u16>, &'a BTreeMap<u16, u16>, &'a ArchivedBTreeMap<u16, u16>, &'a ArchivedBTreeMap<u16, u16>);
fn case(ka: &[u16], kb: &[u16], keep: Keep, (a, b, aa, ab): Ops, lookups: bool, probes: &[u16], cx: &mut Cx) {
            let exp = expect(ka, kb, keep);
            cx.nontrivial_if(!exp[3].calls.is_empty() && exp[0].calls.len() > exp[3].calls.len() && !exp[0].copy.is_empty());
            copying(a, b, &exp, keep, "owned/owned", cx);
            copying(a, ab, &exp, keep, "owned/archived", cx);
            copying(aa, b, &exp, keep, "archived/owned", cx);
            copying(aa, ab, &exp, keep, "archived/archived", cx);
            in_place(ka, b, &exp, keep, "owned", cx);
            in_place(ka, ab, &exp, keep, "archived", cx);
            if lookups {
                for (w, it) in [("owned", AbstractBTreeMap::iter(a)), ("archived", AbstractBTreeMap::iter(aa))] {
                    ensure_eq!(it.map(|(k, v)| (*k, *v)).collect::<Vec<_>>(), ka.iter().map(|k| (*k, L + k)).collect::<Vec<_>>(), "iteration {w}");
                }
                for k in probes.iter().copied() {
                    let want = ka.contains(&k).then_some(L + k);
                    ensure_eq!(AbstractBTreeMap::get(a, &k).copied(), want, "get({k})");
                    ensure_eq!(AbstractBTreeMap::get(aa, &k).copied(), want, "archived get({k})");
                }
            }
            cx.outcome(&exp[0].copy);
}
fn spaces(th: bool) -> Vec<Box<dyn Space>> {
    let keys = |n: u64| (0..1 << n).map(Keep::Keys).collect::<Vec<_>>();
    let kinds = || (0..64).map(Keep::Kind).collect::<Vec<_>>();
    let some = || [63, 0, 0b010101, 0b101010, 0b000011, 0b001100, 0b110000, 0b011110].map(Keep::Kind).to_vec();
    let mut v = vec![
        pairs("5-every-keep-set", &[1; 5], keys(5)),
        pairs("6-every-kind", &[1; 6], kinds()),
        pairs("weighted", &[1, 9, 2, 30], kinds()),
        self_joins("8-every-kind", &[1; 8], kinds()),
        self_joins("weighted", &[1, 9, 2, 1, 5, 65, 1, 300], some()),
        pairs("weighted-some", &[3, 1, 17, 1, 1, 10], some()),
        large("grid", "pairs of maps of 24 lengths up to 300 in 14 relative positions", grid(&SOME_LENS), some()),
        large("longest", "pairs of maps of lengths up to 1025 in 14 relative positions", grid(&[0, 1, 2, 10, 64, 128, 511, 512, 1000, 1025]), vec![Keep::Kind(63), Keep::Kind(0b011001)]),
        large("sweep", "maps of 9..130 entries differing at one place, every place", sweep(&[9, 17, 33, 65, 130]), vec![Keep::Kind(63), Keep::Kind(0b101101)]),
    ];
    { use mc::types::*; v.extend([btree_joins::<(), u16, String>(), btree_joins::<bool, String, u8>(), btree_joins::<u8, (), i128>(), btree_joins::<i8, u64, ()>(), btree_joins::<u64, Huge, bool>(), btree_joins::<Rev, u8, Huge>(), btree_joins::<Fold, Box<i16>, i8>(), btree_joins::<String, String, String>(), btree_joins::<Huge, i8, u64>()]) }
    if th {
        v.push(pairs("7-every-keep-set", &[1; 7], keys(7)));
        v.push(pairs("7-every-kind", &[1; 7], kinds()));
        v.push(pairs("9-some", &[1; 9], some()));
        v.push(pairs("weighted3", &[1, 8, 1, 2, 16, 1, 33, 1], some()));
    }
    v.push(mc::huge::btree_joins());
    v
}
fn main() {
    mc::run_main(Prop {
        id: "C07",
        level: "exploration",
        rule: "a case is one pair of key sets and one keep/drop pattern run through every B-tree-map join with the calls logged, compared with the per-key definition; distinct by construction; non-trivial: some keys shared, some not, and something kept",
        assumptions: &["joins treat keys only through Ord and Clone and values only by moving or borrowing them", "bounded universes"],
        spaces,
    })
}
