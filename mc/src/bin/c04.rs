//! C04: construction from any sequence sorts and deduplicates correctly.
use mc::{elem, elem::E, ensure, ensure_eq, idx, seqs::Hinted, Cx, Prop, Space};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;
use vec_collections::{sort_dedup, sort_dedup_by_key, vecmap, vecset, AbstractVecMap, Array, Keep, VecMap, VecSet};

fn first(seq: &[u16]) -> Vec<(u16, u16)> {
    let mut v: Vec<(u16, u16)> = vec![];
    let mut seen = vec![false; 1 + seq.iter().max().map_or(0, |m| *m as usize)];
    for (i, k) in seq.iter().enumerate() { if !std::mem::replace(&mut seen[*k as usize], true) { v.push((*k, i as u16)) } }
    v.sort();
    v
}
fn last(seq: &[u16]) -> Vec<(u16, u16)> {
    let mut v: Vec<(u16, u16)> = vec![];
    let mut seen = vec![false; 1 + seq.iter().max().map_or(0, |m| *m as usize)];
    for (i, k) in seq.iter().enumerate().rev() { if !std::mem::replace(&mut seen[*k as usize], true) { v.push((*k, i as u16)) } }
    v.sort();
    v
}
fn es(seq: &[u16]) -> impl ExactSizeIterator<Item = E> + '_ { seq.iter().enumerate().map(|(i, k)| E::new(*k, i as u16)) }
fn kvs(seq: &[u16]) -> impl ExactSizeIterator<Item = (E, E)> + '_ { seq.iter().enumerate().map(|(i, k)| (E::new(*k, i as u16), E::new(1000 + *k, i as u16))) }

fn sk<A: Array<Item = E>>(s: &VecSet<A>) -> Vec<(u16, u16)> { s.iter().map(|e| { ensure!(e.ok(), "dropped element in the set"); (e.key, e.tag) }).collect() }
fn keys(v: &[(u16, u16)]) -> Vec<u16> { v.iter().map(|e| e.0).collect() }
fn mk<A: Array<Item = (E, E)>>(m: &VecMap<A>) -> Vec<(u16, u16)> {
    m.iter().map(|(k, v)| { ensure!(k.ok() && v.ok() && v.key == 1000 + k.key, "wrong entry {k:?} {v:?}"); (k.key, v.tag) }).collect()
}

/// one sequence through every constructor; `tail` splits the sequence for the extend forms
fn check(seq: &[u16], splits: &[usize], cx: &mut Cx) {
    elem::reset();
    let (f, l) = (first(seq), last(seq));
    cx.ops(14);
    cx.nontrivial_if(f.len() < seq.len() && f.len() > 1);
    ensure_eq!(sk::<[E; 4]>(&es(seq).collect()), f, "VecSet collect, inline capacity 4");
    ensure_eq!(sk::<[E; 1]>(&Hinted(es(seq), 1).collect()), f, "VecSet collect, capacity 1, no size hint");
    ensure_eq!(sk::<[E; 32]>(&es(seq).collect()), f, "VecSet collect, capacity 32");
    ensure_eq!(keys(&sk::<[E; 4]>(&es(seq).collect::<Vec<_>>().into())), keys(&f), "VecSet from Vec");
    ensure_eq!(mk::<[(E, E); 2]>(&kvs(seq).collect()), l, "VecMap collect");
    ensure_eq!(mk::<[(E, E); 32]>(&Hinted(kvs(seq), 1).collect()), l, "VecMap collect, capacity 32, no size hint");
    // the functions behind them, which are offered on their own
    let ek = |v: &[E]| v.iter().map(|e| { ensure!(e.ok(), "dropped element in the result"); (e.key, e.tag) }).collect::<Vec<_>>();
    let hint = seq.len() as u8 % 6;
    ensure_eq!(ek(&sort_dedup::<_, Vec<E>>(es(seq), Keep::First)), f, "sort_dedup into a Vec, first");
    ensure_eq!(ek(&sort_dedup::<_, Vec<E>>(Hinted(es(seq), hint), Keep::Last)), l, "sort_dedup into a Vec, last");
    ensure_eq!(ek(&sort_dedup::<_, smallvec::SmallVec<[E; 4]>>(Hinted(es(seq), hint), Keep::Last)), l, "sort_dedup into a SmallVec, last");
    let kv = |v: &[(E, E)]| v.iter().map(|(k, v)| { ensure!(k.ok() && v.ok() && v.key == 1000 + k.key && k.tag == v.tag, "wrong entry {k:?} {v:?}"); (k.key, v.tag) }).collect::<Vec<_>>();
    ensure_eq!(kv(&sort_dedup_by_key::<_, Vec<(E, E)>, _, _>(kvs(seq), Keep::First, |e| &e.0)), f, "sort_dedup_by_key into a Vec, first");
    ensure_eq!(kv(&sort_dedup_by_key::<_, smallvec::SmallVec<[(E, E); 2]>, _, _>(Hinted(kvs(seq), hint), Keep::First, |e| &e.0)), f, "sort_dedup_by_key into a SmallVec, first");
    ensure_eq!(kv(&sort_dedup_by_key::<_, Vec<(E, E)>, _, _>(Hinted(kvs(seq), hint), Keep::Last, |e| &e.0)), l, "sort_dedup_by_key into a Vec, last");
    {
        let b: BTreeSet<E> = es(seq).collect();
        ensure_eq!(keys(&sk::<[E; 4]>(&b.into())), keys(&f), "VecSet from BTreeSet");
        let b: BTreeMap<E, E> = kvs(seq).collect();
        ensure_eq!(mk::<[(E, E); 4]>(&b.into()), l, "VecMap from BTreeMap");
    }
    {
        // one element at a time
        let mut x: VecSet<[E; 4]> = VecSet::empty();
        let mut m: VecMap<[(E, E); 4]> = VecMap::empty();
        for (n, (e, kv)) in es(seq).zip(kvs(seq)).enumerate() {
            x.extend(Hinted(std::iter::once(e), (n + seq.len()) as u8 % 6));
            m.extend(Hinted(std::iter::once(kv), (n + seq.len()) as u8 % 6));
        }
        ensure_eq!(sk(&x), f, "VecSet extended by one element at a time");
        ensure_eq!(mk(&m), l, "VecMap extended by one mapping at a time");
    }
    for s in splits.iter().copied().chain([seq.len().wrapping_sub(1), seq.len().wrapping_sub(2)]) {
        if s > seq.len() { continue }
        let hint = (seq.len() + s) as u8 % 6;
        cx.ops(3);
        let (a, b) = seq.split_at(s);
        // existing elements are kept: the first occurrence over the concatenation
        let mut x: VecSet<[E; 4]> = es(a).collect();
        x.extend(Hinted(b.iter().enumerate().map(|(i, k)| E::new(*k, (s + i) as u16)), hint));
        ensure_eq!(sk(&x), f, "VecSet extend, split at {s}");
        let mut y: VecSet<[E; 4]> = es(a).collect();
        let z: VecSet<[E; 4]> = b.iter().enumerate().map(|(i, k)| E::new(*k, (s + i) as u16)).collect();
        y |= z;
        ensure!(sk(&x) == sk(&y), "extend differs from union with the collected sequence");
        let mut m: VecMap<[(E, E); 2]> = kvs(a).collect();
        m.extend(Hinted(b.iter().enumerate().map(|(i, k)| (E::new(*k, 0), E::new(1000 + *k, (s + i) as u16))), hint));
        ensure_eq!(mk(&m), l, "VecMap extend, split at {s}");
    }
    elem::check_clean(false);
    cx.outcome(&l);
}

fn word(mut i: u64, alpha: u64) -> Vec<u16> {
    // words in order of length, then lexicographic
    let mut len = 0;
    let mut n = 1u64;
    while i >= n { i -= n; n *= alpha; len += 1 }
    let mut w = vec![0; len];
    for p in (0..len).rev() { w[p] = (i % alpha) as u16 * 2 + 2; i /= alpha }
    w
}
fn count(alpha: u64, len: u32) -> u64 { (0..=len).map(|l| alpha.pow(l)).sum() }

fn all_words(alpha: u64, len: u32, splits: &'static [usize]) -> Box<dyn Space> {
    idx(format!("words-{alpha}-{len}"), format!("all sequences over {alpha} values of length at most {len}, all constructors"), count(alpha, len),
        move |i, cx| check(&word(i, alpha), splits, cx),
        move |i| format!("{:?}", word(i, alpha)))
}
/// all sequences in which a word is embedded between two runs
fn runs(pre: &'static [usize], post: &'static [usize], alpha: u64, len: u32) -> Box<dyn Space> {
    let n = count(alpha, len);
    let gen = move |i: u64| {
        let (w, r) = (i % n, i / n);
        let (p, r) = (pre[r as usize % pre.len()], r as usize / pre.len());
        let (q, mode) = (post[r % post.len()], r / post.len());
        let word = word(w, alpha);
        let top = p.max(q).max(1) as u16 * 2;
        // letters of the word are spread over (and beyond) the range of the runs
        let mut s: Vec<u16> = (0..p as u16).map(|x| 2 * x + 2).collect();
        if mode & 1 == 1 { s.reverse() }
        s.extend(word.iter().map(|l| ((l - 2) / 2) * (top + 3) / (alpha as u16 - 1).max(1)));
        let mut t: Vec<u16> = (0..q as u16).map(|x| 2 * x + 2).collect();
        if mode & 2 == 2 { t.reverse() }
        s.extend(t);
        s
    };
    idx(format!("runs-{alpha}-{len}"), format!("run, any word over {alpha} values of length at most {len}, run; ascending and descending; run lengths {pre:?} and {post:?}"),
        n * (pre.len() * post.len() * 4) as u64,
        move |i, cx| { let s = gen(i); check(&s, &[0, s.len() / 2, s.len()], cx) },
        move |i| format!("{:?}", gen(i)))
}
/// (a*i + b) mod m
fn affine(maxm: u64, lens: &'static [usize]) -> Box<dyn Space> {
    let mut cases = vec![];
    for m in 1..=maxm { for a in 0..m { for b in [0, m / 2] { for n in lens { cases.push((m, a, b, *n)) } } } }
    let cases = Arc::new(cases);
    let gen = move |i: u64| { let (m, a, b, n) = cases[i as usize]; (0..n as u64).map(|x| 2 * ((a * x + b) % m) as u16 + 2).collect::<Vec<_>>() };
    let (gen, size) = (Arc::new(gen), { let mut c = 0; for m in 1..=maxm { c += m * 2 * lens.len() as u64 } c });
    let g2 = gen.clone();
    idx(format!("affine-{maxm}"), format!("all sequences (a*i+b) mod m, m up to {maxm}, lengths {lens:?}"), size,
        move |i, cx| { let s = gen(i); check(&s, &[0, s.len() / 3, s.len()], cx) },
        move |i| format!("{:?}", g2(i)))
}
/// the same with few large moduli, every 7th multiplier
fn affine_large(ms: &'static [u64], lens: &'static [usize]) -> Box<dyn Space> {
    let mut cases = vec![];
    for m in ms { for a in (0..*m).step_by(7).chain([1, m - 1]) { for n in lens { cases.push((*m, a, *n)) } } }
    let cases = Arc::new(cases);
    let size = cases.len() as u64;
    let gen = Arc::new(move |i: u64| { let (m, a, n) = cases[i as usize]; (0..n as u64).map(|x| 2 * ((a * x + 3) % m) as u16 + 2).collect::<Vec<_>>() });
    let g2 = gen.clone();
    idx("affine-large", format!("sequences (a*i+3) mod m for m in {ms:?}, every 7th a, lengths {lens:?}"), size,
        move |i, cx| { let s = gen(i); check(&s, &[s.len() / 3, s.len() - 3], cx) },
        move |i| { let s = g2(i); format!("{} elements starting {:?}", s.len(), &s[..8]) })
}
/// permutations of 0..n with one element repeated in front and at the end
fn perms(n: usize) -> Box<dyn Space> {
    let f: u64 = (1..=n as u64).product();
    let gen = move |mut i: u64| {
        let rep = i % (n as u64 + 1);
        i /= n as u64 + 1;
        let mut pool: Vec<u16> = (0..n as u16).map(|x| 2 * x + 2).collect();
        let mut s = vec![];
        for k in (1..=n as u64).rev() { s.push(pool.remove((i % k) as usize)); i /= k }
        if rep > 0 { let x = s[rep as usize - 1]; s.insert(0, x); s.push(x) }
        s
    };
    idx(format!("permutations-{n}"), format!("all permutations of {n} elements, without and with each element repeated at both ends"), f * (n as u64 + 1),
        move |i, cx| check(&gen(i), &[1, n / 2], cx),
        move |i| format!("{:?}", gen(i)))
}
/// a fixed long run with one or two elements moved or duplicated to every other place
fn displaced(n: usize, two: bool) -> Box<dyn Space> {
    let one = (n * (n + 1) * 2) as u64;
    let apply = move |s: &mut Vec<u16>, mut i: u64| {
        let dup = i % 2 == 1; i /= 2;
        let from = (i % n as u64) as usize; i /= n as u64;
        let to = i as usize;
        let x = s[from];
        if !dup { s.remove(from); }
        s.insert(to.min(s.len()), x);
    };
    let gen = move |i: u64| {
        let mut s: Vec<u16> = (0..n as u16).map(|x| 2 * x + 2).collect();
        apply(&mut s, i % one);
        if two { apply(&mut s, i / one) }
        s
    };
    idx(format!("displaced-{n}{}", if two { "-twice" } else { "" }), format!("ascending run of {n} with {} moved or duplicated to every position", if two { "two elements" } else { "one element" }),
        if two { one * one } else { one },
        move |i, cx| check(&gen(i), &[n / 2], cx),
        move |i| format!("{:?}", gen(i)))
}
/// literal macros
fn macros() -> Box<dyn Space> {
    idx("macros", "vecset! and vecmap! with every argument list of up to 4 values from 3", count(3, 4),
        |i, cx| {
            let w = word(i, 3);
            let (f, l) = (first(&w), last(&w));
            let p = |i: usize| (w[i], i as u16);
            let s: VecSet<[u16; 2]> = match w.len() {
                0 => vecset! {},
                1 => vecset! {w[0]},
                2 => vecset! {w[0], w[1],},
                3 => vecset! {w[0], w[1], w[2]},
                _ => vecset! {w[0], w[1], w[2], w[3]},
            };
            let m: VecMap<[(u16, u16); 2]> = match w.len() {
                0 => vecmap! {},
                1 => vecmap! {p(0).0 => 0},
                2 => vecmap! {p(0).0 => 0, p(1).0 => 1,},
                3 => vecmap! {p(0).0 => 0, p(1).0 => 1, p(2).0 => 2},
                _ => vecmap! {p(0).0 => 0, p(1).0 => 1, p(2).0 => 2, p(3).0 => 3},
            };
            cx.ops(2);
            cx.nontrivial_if(f.len() < w.len());
            ensure_eq!(s.as_ref().to_vec(), keys(&f), "vecset!");
            ensure_eq!(m.as_ref().to_vec(), l, "vecmap!");
            cx.outcome(&l);
        },
        |i| format!("{:?}", word(i, 3)))
}
fn spaces(th: bool) -> Vec<Box<dyn Space>> {
    let d = |q, t| if th { t } else { q };
    let mut v = vec![
        macros(),
        all_words(2, d(17, 20), &[0, 8]),
        all_words(3, d(10, 12), &[0, 5]),
        all_words(4, d(8, 10), &[4]),
        all_words(6, d(6, 8), &[3]),
        perms(if th { 9 } else { 7 }),
        affine(if th { 60 } else { 30 }, &[5, 15, 16, 17, 18, 24, 31, 32, 33, 34, 40, 65]),
        runs(&[0, 1, 8, 14, 15, 16, 17, 32, 33], &[0, 1, 15, 16, 17, 33], 4, d(3, 5)),
        runs(&[0, 7, 15, 16, 31, 40], &[0, 16, 40], 7, d(2, 4)),
        displaced(20, false),
        displaced(40, false),
        displaced(130, false),
        affine(7, &[63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 513, 1000]),
        affine_large(&[61, 127, 128, 129, 255, 256, 257, 512, 1009], &[64, 129, 256, 300, 700, 1025]),
        runs(&[63, 64, 100, 128, 256, 300, 512], &[0, 1, 64, 127, 257], 3, d(2, 3)),
    ];
    if th { v.push(displaced(19, true)); v.push(displaced(34, true)); v.push(displaced(80, false)) } else { v.push(displaced(18, true)) }
    v.extend(mc::each_elem!(construct));
    v.push(mc::huge::construction());
    v
}
fn main() {
    mc::run_main(Prop {
        id: "C04",
        level: "exploration",
        rule: "a case is one input sequence (distinct by construction) through every constructor and extend split, compared with a first/last-occurrence reference on position-tagged elements; non-trivial: the sequence contains a duplicate and at least two distinct values",
        assumptions: &["elements interact only through Ord and Clone", "sequence lengths and alphabets as stated per space; longer sequences only of the structured kinds"],
        spaces,
    })
}
