//! Deeply nested trees. What is done to them runs on a stack of 2 MB in a process of its own, since running out of stack ends the process.
use crate::{fail, idx, radix::archive, Space};
use std::sync::mpsc::channel;
use vec_collections::radix_tree::{AbstractRadixTree, AbstractRadixTreeMut, ArcRadixTree, LazyRadixTree, RadixTree};
type F = RadixTree<u8, u32>;
type A = ArcRadixTree<u8, u32>;
type L = LazyRadixTree<'static, u8, u32>;
const FLAVOURS: [&str; 3] = ["flat", "shared", "lazy"];

fn on_stack<R: Send + 'static>(bytes: usize, f: impl FnOnce() -> R + Send + 'static) -> R { std::thread::Builder::new().stack_size(bytes).spawn(f).unwrap().join().unwrap() }
/// every key of up to n - 1 ones
fn nested(n: usize) -> F {
    let mut t = F::empty();
    for i in (0..n).rev() { t.prepend(&[1]); t.insert(&[], i as u32) }
    t
}
struct Moved<T>(T);
unsafe impl<T> Send for Moved<T> {}
fn ones(n: usize) -> Vec<u8> { vec![1; n] }
fn operate<T: AbstractRadixTreeMut<u8, u32> + Clone + 'static>(t: T, op: &str, n: usize, ser: fn(&T) -> rkyv::AlignedVec) {
    let mut t = std::mem::ManuallyDrop::new(t);
    match op {
        "get" => assert!(t.get(&ones(n - 1)) == Some(&(n as u32 - 1)) && t.get(&ones(n)).is_none()),
        "iter" => assert!(t.iter().count() == n && t.values().count() == n),
        "scan_prefix" => assert!(t.scan_prefix(&ones(n - 2)).count() == 2),
        "filter_prefix" => { let p = std::mem::ManuallyDrop::new(t.filter_prefix(&ones(n / 2))); assert!(p.iter().count() == n - n / 2) }
        "clone" => { let c = std::mem::ManuallyDrop::new((*t).clone()); assert!(c.get(&ones(n - 1)).is_some()) }
        "insert" => { t.insert(&ones(n + 5), 7); assert!(t.get(&ones(n + 5)) == Some(&7)) }
        "union_with" => { t.union_with(&T::single(&ones(n + 5), 7)); assert!(t.get(&ones(n + 5)) == Some(&7)) }
        "intersection_with" => { t.intersection_with(&F::single(&ones(n - 1), 7)); assert!(t.iter().count() == 1) }
        "difference_with" => { t.difference_with(&F::single(&ones(n - 1), 7)); assert!(t.get(&ones(n - 1)).is_none() && t.get(&ones(n - 2)).is_some()) }
        "is_subset" => assert!(F::single(&ones(n - 1), 7).is_subset(&*t)),
        "is_superset of itself" => assert!(t.is_superset(&*t)),
        "archive" => assert!(!ser(&t).is_empty()),
        "drop" => drop(std::mem::ManuallyDrop::into_inner(t)),
        _ => panic!("{op}"),
    }
}
const READS: [&str; 4] = ["validate", "archived get", "archived iter", "deserialise"];
fn read<T, G>(b: &[u8], op: &str, n: usize, validate: impl FnOnce(&[u8]) -> bool, view: impl FnOnce(&[u8]) -> G, de: impl FnOnce(&[u8]) -> T)
where for<'a> &'a G: Copy, G: std::ops::Deref, G::Target: AbstractRadixTree<u8, u32> {
    match op {
        "validate" => assert!(validate(b)),
        "archived get" => assert!(view(b).get(&ones(n - 1)) == Some(&(n as u32 - 1))),
        "archived iter" => assert!(view(b).iter().count() == n),
        "deserialise" => std::mem::forget(de(b)),
        _ => panic!("{op}"),
    }
}
/// in the process of its own
pub fn child() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|x| x.as_str()) != Some("--deep") { return }
    let (flavour, op, n) = (a[2].clone(), a[3].clone(), a[4].parse::<usize>().unwrap());
    crate::engine::limit_memory(8 << 30);
    const BIG: usize = 1 << 30;
    if READS.contains(&op.as_str()) {
        let (tx, rx) = channel();
        let fl = flavour.clone();
        on_stack(BIG, move || {
            let t = nested(n);
            let b = match fl.as_str() { "flat" => archive(&t), "shared" => archive(&A::from(t)), _ => archive(&L::from(t)) };
            tx.send(b).unwrap();
        });
        let b = rx.recv().unwrap();
        on_stack(2 << 20, move || unsafe {
            use rkyv::{archived_root, check_archived_root, Deserialize};
            let b: &'static [u8] = Box::leak(b.into_boxed_slice());
            match flavour.as_str() {
                "flat" => read(b, &op, n, |b| check_archived_root::<F>(b).is_ok(), |_| archived_root::<F>(b), |b| -> F { archived_root::<F>(b).deserialize(&mut rkyv::Infallible).unwrap() }),
                "shared" => read(b, &op, n, |b| check_archived_root::<A>(b).is_ok(), |_| archived_root::<A>(b), |b| -> A { archived_root::<A>(b).deserialize(&mut rkyv::de::deserializers::SharedDeserializeMap::new()).unwrap() }),
                _ => read(b, &op, n, |_| true, |_| archived_root::<L>(b), |_| ()),
            }
        });
    } else {
        let (tx, rx) = channel();
        let fl = flavour.clone();
        on_stack(BIG, move || {
            let t = nested(n);
            match fl.as_str() { "flat" => tx.send((Some(Moved(t)), None, None)).unwrap(), "shared" => tx.send((None, Some(Moved(A::from(t))), None)).unwrap(), _ => tx.send((None, None, Some(Moved(L::from(t))))).unwrap() }
        });
        let t = rx.recv().unwrap();
        on_stack(2 << 20, move || {
            let t = t;
            match t {
                (Some(t), _, _) => operate::<F>(t.0, &op, n, |t| archive(t)),
                (_, Some(t), _) => operate::<A>(t.0, &op, n, |t| archive(t)),
                (_, _, Some(t)) => operate::<L>(t.0, &op, n, |t| archive(t)),
                _ => unreachable!(),
            }
        });
    }
    std::process::exit(0)
}
/// what went wrong, and whether it was the stack
fn run(fl: usize, op: &str, n: usize) -> Option<(bool, String)> {
    let out = std::process::Command::new(std::env::current_exe().unwrap()).args(["--deep", FLAVOURS[fl], op, &n.to_string()]).stdin(std::process::Stdio::null()).output().expect("start");
    let err = String::from_utf8_lossy(&out.stderr);
    (!out.status.success()).then(|| (err.contains("stack overflow"), format!("{op} on a {} tree nested {n} deep: {}: {}", FLAVOURS[fl], out.status, err.trim().lines().last().unwrap_or(""))))
}
/// operations on trees of every flavour nested 1000 deep; those of them that recurse, on trees nested 100000 deep
pub fn spaces(ops: &[&'static str], recursive: &[&'static str]) -> Vec<Box<dyn Space>> {
    let mut v = vec![];
    for (n, ops) in [(1000, ops.to_vec()), (100000, recursive.to_vec())] {
        let o2 = ops.clone();
        v.push(idx(format!("nested-{n}"), format!("{} on trees of every flavour nested {n} deep, on a stack of 2 MB: it suffices; the result is right", ops.join(", ")), 2 * ops.len() as u64,
            move |i, cx| {
                cx.nontrivial_if(true);
                let bad: Vec<String> = (0..3).filter_map(|f| { cx.op(); run(f, ops[i as usize / 2], n) }).filter(|x| x.0 == (i % 2 == 0)).map(|x| x.1).collect();
                if !bad.is_empty() { fail!("{}", bad.join("\n    ")) }
            },
            move |i| format!("{} on trees that hold all keys of fewer than {n} ones: {}", o2[i as usize / 2], if i % 2 == 0 { "the stack suffices" } else { "the result is right" })));
    }
    v
}
