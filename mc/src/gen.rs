//! Enumeration helpers.

/// `n` atoms; atom i stands for `w[i]` consecutive elements. A mask selects atoms; the elements of a
/// mask are the even numbers 2*(start_i..start_i+w_i)+2.
#[derive(Clone)]
pub struct Atoms { pub w: Vec<usize>, start: Vec<usize> }
impl Atoms {
    pub fn new(w: &[usize]) -> Self {
        let mut start = vec![];
        let mut s = 0;
        for x in w { start.push(s); s += x }
        Atoms { w: w.to_vec(), start }
    }
    pub fn unit(n: usize) -> Self { Self::new(&vec![1; n]) }
    pub fn n(&self) -> usize { self.w.len() }
    pub fn masks(&self) -> u64 { 1 << self.n() }
    pub fn total(&self) -> usize { self.w.iter().sum() }
    pub fn elems(&self, mask: u64) -> Vec<u16> {
        let mut v = vec![];
        for i in 0..self.n() {
            if mask >> i & 1 == 1 { for j in 0..self.w[i] { v.push(2 * (self.start[i] + j) as u16 + 2) } }
        }
        v
    }
    /// all probe values: every element of the universe plus a value between, below and above
    pub fn probes(&self) -> Vec<u16> { (1..=2 * self.total() as u16 + 3).collect() }
}

/// decode a pair index into two masks
pub fn pair(i: u64, n: u64) -> (u64, u64) { (i / n, i % n) }

/// all subsets of 0..m with at most k elements, as masks, smallest first
pub fn subsets_upto(m: usize, k: usize) -> Vec<u64> {
    let mut v: Vec<u64> = (0..1u64 << m).filter(|x| x.count_ones() as usize <= k).collect();
    v.sort_by_key(|x| (x.count_ones(), *x));
    v
}

/// all words over `alpha` letters with length <= len, shortest first
pub fn words(alpha: u8, len: usize) -> Vec<Vec<u8>> {
    let mut out = vec![vec![]];
    let mut last = vec![vec![]];
    for _ in 0..len {
        let mut next = vec![];
        for w in &last {
            for a in 0..alpha { let mut x: Vec<u8> = w.clone(); x.push(a); next.push(x) }
        }
        out.extend(next.iter().cloned());
        last = next;
    }
    out
}

/// repeat every letter `times` times (a scaled word crosses the inline fragment size)
pub fn scale(w: &[u8], times: usize) -> Vec<u8> { w.iter().flat_map(|x| std::iter::repeat(*x).take(times)).collect() }

/// lengths around every power of two and round number an implementation might treat specially
pub const LENS: [usize; 46] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 24, 25, 31, 32, 33, 40, 47, 48, 49, 50, 63, 64, 65, 66, 96, 100, 127, 128, 129, 200, 255, 256, 257, 300, 513, 1025, 2049, 4099];
pub const SOME_LENS: [usize; 24] = [0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 16, 17, 31, 32, 33, 63, 64, 65, 100, 128, 129, 256, 257, 300];

/// Pairs of large operands: every pair of the given lengths in 14 relative positions.
pub fn grid(lens: &[usize]) -> Vec<(Vec<u16>, Vec<u16>)> {
    let mut out: Vec<(Vec<u16>, Vec<u16>)> = vec![];
    for &n in lens {
        for &m in lens {
            type F<'a> = &'a dyn Fn(usize) -> usize;
            let mut add = |a: F, b: F| {
                let f = |n: usize, g: F| (0..n).map(|i| 2 * g(i) as u16 + 2).collect::<Vec<_>>();
                out.push((f(n, a), f(m, b)))
            };
            let id: F = &|i| i;
            add(id, id); // same start
            add(id, &|j| n + j); // A before B
            add(&|i| m + i, id); // B before A
            add(&|i| 2 * i, &|j| 2 * j + 1); // alternating
            add(id, &|j| n / 2 + j); // overlapping
            add(&|i| m / 2 + i, id);
            add(id, &|j| 3 * j); // dense, sparse
            add(&|i| 3 * i, id);
            add(&|i| 2 * i, &|j| 3 * j);
            add(&|i| m / 2 + i, &|j| if j < m / 2 { j } else { n + j }); // B around A
            add(&|i| if i < n / 2 { i } else { m + i }, &|j| n / 2 + j); // A around B
            add(&|i| i + m.saturating_sub(n), &|j| j + n.saturating_sub(m)); // same end
            if m > 0 && n >= m { add(id, &|j| j * n / m); add(&|i| 2 * i, &|j| 2 * (j * n / m) + 1) } // B spread over A
            if n > 0 && m > n { add(&|i| i * m / n, id); add(&|i| 2 * (i * m / n) + 1, &|j| 2 * j) }
        }
    }
    out.sort();
    out.dedup();
    out
}
/// Operands differing at exactly one place, for every place of a set of each given size.
pub fn sweep(sizes: &[usize]) -> Vec<(Vec<u16>, Vec<u16>)> {
    let mut out = vec![];
    for &n in sizes {
        let a: Vec<u16> = (0..n as u16).map(|i| 4 * i + 4).collect();
        for j in 0..=n {
            let with = |x: u16| { let mut v = a.clone(); v.insert(a.partition_point(|y| *y < x), x); v };
            let x = 4 * j as u16 + 2;
            out.push((a.clone(), vec![x]));
            out.push((a.clone(), with(x)));
            out.push((a[..j].to_vec(), a[j..].to_vec()));
            if j < n {
                let mut w = a.clone();
                w.remove(j);
                out.push((a.clone(), vec![a[j]]));
                out.push((a.clone(), w.clone()));
                w.insert(j, a[j] + 1);
                out.push((a.clone(), w));
                let mut w = a.clone();
                w[j] -= 1;
                out.push((a.clone(), w));
            }
        }
    }
    let flipped: Vec<_> = out.iter().map(|(a, b): &(Vec<u16>, Vec<u16>)| (b.clone(), a.clone())).collect();
    out.extend(flipped);
    out.sort();
    out.dedup();
    out
}
/// short description of a long operand: its runs
pub fn runs(a: &[u16]) -> String {
    if a.len() <= 12 { return format!("{a:?}") }
    let step = a[1] - a[0];
    if a.windows(2).all(|w| w[1] - w[0] == step) { return format!("[{}, {}, .. {}; {} elements]", a[0], a[1], a[a.len() - 1], a.len()) }
    let breaks: Vec<String> = (1..a.len()).filter(|i| a[*i] - a[i - 1] != step).take(6).map(|i| format!("{}|{}", a[i - 1], a[i])).collect();
    format!("[{} .. {}; {} elements, step {step} except at {}]", a[0], a[a.len() - 1], a.len(), breaks.join(" "))
}
/// membership table
pub fn member(a: &[u16]) -> impl Fn(u16) -> bool {
    let mut t = vec![false; a.iter().max().map_or(0, |m| *m as usize + 1)];
    for k in a { t[*k as usize] = true }
    move |k| t.get(k as usize).copied().unwrap_or(false)
}
