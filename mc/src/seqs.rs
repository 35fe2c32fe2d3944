//! Finite families of input sequences over small alphabets.
use std::sync::Arc;

#[derive(Clone)]
pub struct Seqs { pub name: String, pub about: String, pub size: u64, pub gen: Arc<dyn Fn(u64) -> Vec<u16> + Send + Sync> }

/// words in order of length, then lexicographic; letters 0..alpha
pub fn word(mut i: u64, alpha: u64) -> Vec<u16> {
    let mut len = 0;
    let mut n = 1u64;
    while i >= n { i -= n; n *= alpha; len += 1 }
    let mut w = vec![0; len];
    for p in (0..len).rev() { w[p] = (i % alpha) as u16; i /= alpha }
    w
}
pub fn count(alpha: u64, len: u32) -> u64 { (0..=len).map(|l| alpha.pow(l)).sum() }
pub fn words(alpha: u64, len: u32) -> Seqs {
    Seqs { name: format!("words-{alpha}-{len}"), about: format!("all sequences over {alpha} letters of length at most {len}"), size: count(alpha, len), gen: Arc::new(move |i| word(i, alpha)) }
}
/// permutations of 0..n, without and with one element repeated in front and at the end
pub fn perms(n: usize) -> Seqs {
    let f: u64 = (1..=n as u64).product();
    Seqs {
        name: format!("permutations-{n}"),
        about: format!("all permutations of {n} letters, without and with each letter repeated at both ends"),
        size: f * (n as u64 + 1),
        gen: Arc::new(move |mut i| {
            let rep = i % (n as u64 + 1);
            i /= n as u64 + 1;
            let mut pool: Vec<u16> = (0..n as u16).collect();
            let mut s = vec![];
            for k in (1..=n as u64).rev() { s.push(pool.remove((i % k) as usize)); i /= k }
            if rep > 0 { let x = s[rep as usize - 1]; s.insert(0, x); s.push(x) }
            s
        }),
    }
}
/// an ascending run with one element moved or duplicated to every place
pub fn displaced(n: usize) -> Seqs {
    Seqs {
        name: format!("displaced-{n}"),
        about: format!("ascending run of {n} with one element moved or duplicated to every position"),
        size: (n * (n + 1) * 2) as u64,
        gen: Arc::new(move |mut i| {
            let mut s: Vec<u16> = (0..n as u16).collect();
            let dup = i % 2 == 1;
            i /= 2;
            let from = (i % n as u64) as usize;
            let to = (i / n as u64) as usize;
            let x = s[from];
            if !dup { s.remove(from); }
            s.insert(to.min(s.len()), x);
            s
        }),
    }
}
/// (a*i + b) mod m
pub fn affine(maxm: u64, lens: &'static [usize]) -> Seqs {
    let mut cases = vec![];
    for m in 1..=maxm { for a in 0..m { for b in [0, m / 2] { for n in lens { cases.push((m, a, b, *n)) } } } }
    Seqs {
        name: format!("affine-{maxm}"),
        about: format!("all sequences (a*i+b) mod m, m up to {maxm}, lengths {lens:?}"),
        size: cases.len() as u64,
        gen: Arc::new(move |i| { let (m, a, b, n) = cases[i as usize]; (0..n as u64).map(|x| ((a * x + b) % m) as u16).collect() }),
    }
}
/// (a*i + 3) mod m for large m: unsorted, with and without duplicates
pub fn affine_large(ms: &'static [u64], step: usize, lens: &'static [usize]) -> Seqs {
    let mut cases = vec![];
    for m in ms { for a in (0..*m).step_by(step).chain([1, m - 1]) { for n in lens { cases.push((*m, a, *n)) } } }
    Seqs {
        name: format!("affine-large-{}", lens.len()),
        about: format!("sequences (a*i+3) mod m for m in {ms:?}, every {step}th a, lengths {lens:?}"),
        size: cases.len() as u64,
        gen: Arc::new(move |i| { let (m, a, n) = cases[i as usize]; (0..n as u64).map(|x| ((a * x + 3) % m) as u16).collect() }),
    }
}

/// an iterator whose size hint is correct but as vague as wanted
pub struct Hinted<I>(pub I, pub u8);
impl<I: ExactSizeIterator> Iterator for Hinted<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { self.0.next() }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.0.len();
        match self.1 {
            0 => (n, Some(n)),
            1 => (0, None),
            2 => (n / 2, None),
            3 => (0, Some(n + 1)),
            4 => (n, None),
            _ => (n.min(1), Some(n.max(60))),
        }
    }
}
