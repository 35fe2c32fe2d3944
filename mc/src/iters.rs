//! The iterator protocol: every short script of calls, then every way of finishing, against a list.
use crate::{ensure, ensure_eq, Cx};

#[derive(Clone, Copy, Debug)]
pub enum Step { Next, Nth(usize), NthNear }
pub const STEPS: [Step; 6] = [Step::Next, Step::Nth(0), Step::Nth(1), Step::Nth(3), Step::NthNear, Step::Nth(1000)];
pub const ENDS: [&str; 14] = ["next", "collect", "count", "last", "fold", "skip", "step_by", "by_ref take", "for_each", "position", "find", "all", "partition", "max_by_key"];

/// all scripts of at most `depth` calls
pub fn scripts(depth: usize) -> Vec<Vec<Step>> {
    let mut out = vec![vec![]];
    let mut last: Vec<Vec<Step>> = vec![vec![]];
    for _ in 0..depth {
        last = last.iter().flat_map(|s| STEPS.iter().map(move |x| { let mut s = s.clone(); s.push(*x); s })).collect();
        out.extend(last.iter().cloned());
    }
    out
}
fn hint<I: Iterator>(it: &I, rest: usize, what: &str) {
    let (lo, hi) = it.size_hint();
    ensure!(lo <= rest && hi.is_none_or(|h| h >= rest), "{what}: size_hint {:?} with {rest} items left", (lo, hi));
}
fn finish<X, Y>(mut it: impl Iterator<Item = X>, end: usize, f: &impl Fn(X) -> Y) -> Vec<Y> {
    match end {
        0 => { let mut v = vec![]; while let Some(x) = it.next() { v.push(f(x)) } v }
        1 => it.collect::<Vec<_>>().into_iter().map(f).collect(),
        3 => it.last().into_iter().map(f).collect(),
        4 => it.fold(vec![], |mut v, x| { v.push(f(x)); v }),
        5 => it.skip(2).map(f).collect(),
        6 => it.step_by(2).map(f).collect(),
        7 => { let mut v: Vec<Y> = it.by_ref().take(2).map(f).collect(); v.extend(it.map(f)); v }
        8 => { let mut v = vec![]; it.for_each(|x| v.push(f(x))); v }
        9 => { let mut n = 0; it.position(|_| { n += 1; n == 3 }); it.map(f).collect() }
        10 => { let mut n = 0; let mut v: Vec<Y> = it.find(|_| { n += 1; n == 2 }).into_iter().map(f).collect(); v.extend(it.map(f)); v }
        11 => { let mut n = 0; it.all(|_| { n += 1; n < 2 }); it.map(f).collect() }
        12 => { let mut n = 0; let (a, b): (Vec<X>, Vec<X>) = it.partition(|_| { n += 1; n % 2 == 0 }); a.into_iter().chain(b).map(f).collect() }
        13 => { let mut n = 0; it.max_by_key(|_| { n += 1; (n * 7) % 5 }).into_iter().map(f).collect() }
        _ => unreachable!(),
    }
}
/// `mk` yields a fresh iterator that must produce `want`
pub fn protocol<X, Y: PartialEq + Clone + std::fmt::Debug, I: Iterator<Item = X>>(mk: impl Fn() -> I, want: &[Y], f: impl Fn(X) -> Y, script: &[Step], what: &str, cx: &mut Cx) {
    for end in 0..ENDS.len() {
        cx.op();
        let mut it = mk();
        // the reference: a slice iterator
        let mut r = want.iter();
        hint(&it, r.len(), what);
        for (n, s) in script.iter().enumerate() {
            let (got, exp) = match s {
                Step::Next => (it.next(), r.next()),
                Step::Nth(k) => (it.nth(*k), r.nth(*k)),
                Step::NthNear => { let k = r.len().saturating_sub(1); (it.nth(k), r.nth(k)) }
            };
            let got = got.map(&f);
            ensure!(got.as_ref() == exp, "{what}: call {n} of {script:?} returned {got:?}, expected {exp:?}");
            hint(&it, r.len(), what);
        }
        if ENDS[end] == "count" {
            ensure_eq!(it.count(), r.len(), "{what}: count after {script:?}");
        } else {
            let got = finish(it, end, &f);
            let exp = finish(r, end, &|y: &Y| y.clone());
            ensure!(got == exp, "{what}: {} after {script:?} gave {got:?}, expected {exp:?}", ENDS[end]);
        }
    }
}
