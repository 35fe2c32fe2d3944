use std::collections::{HashMap, HashSet};
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------------------------------------
// failures

pub struct Viol(pub String);
/// payload of a panic injected by the harness into a user callback
pub struct Injected;

#[macro_export]
macro_rules! fail { ($($t:tt)*) => { std::panic::panic_any($crate::Viol(format!($($t)*))) } }
#[macro_export]
macro_rules! ensure { ($c:expr, $($t:tt)*) => { if !($c) { $crate::fail!($($t)*) } } }
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($t:tt)*) => {{
        match (&$a, &$b) { (a, b) => if !(a == b) { $crate::fail!("{}: got {:?}, expected {:?}", format!($($t)*), a, b) } }
    }}
}

thread_local! { static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let p = info.payload();
        if p.is::<Viol>() || p.is::<Injected>() {
            return;
        }
        let msg = p
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| p.downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "non-string panic".into());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = LAST_PANIC.try_with(|c| *c.borrow_mut() = format!("panic: {msg} at {loc}"));
    }));
}

/// run `f`, turning a failed check or any panic into an error message
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(v) = e.downcast_ref::<Viol>() {
            v.0.clone()
        } else if e.is::<Injected>() {
            "an injected panic escaped the harness".into()
        } else {
            LAST_PANIC.with(|c| c.borrow().clone())
        }
    })
}

/// run `f`; Ok(value), Err(true) if an injected panic unwound out of it; any other panic is resumed
pub fn catch_injected<T>(f: impl FnOnce() -> T) -> Option<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => Some(x),
        Err(e) if e.is::<Injected>() => None,
        Err(e) => std::panic::resume_unwind(e),
    }
}

// ---------------------------------------------------------------------------------------------
// counters of one thread

#[derive(Default)]
pub struct Cx {
    pub tier_thorough: bool,
    pub ops: u64,
    pub nontrivial: bool,
    pub traces: u64,
    /// nodes of a tree of schedules, and steps between them
    pub states: u64,
    pub transitions: u64,
    outcomes: HashSet<u64, BuildHasherDefault<IdHasher>>,
    /// set while a single case is replayed for a human
    pub verbose: bool,
}
#[derive(Default, Clone)]
pub struct IdHasher(u64);
impl Hasher for IdHasher {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for x in b { self.0 = self.0.rotate_left(8) ^ *x as u64 } }
    fn write_u64(&mut self, x: u64) { self.0 = x }
}
impl Cx {
    /// one operation of the implementation was executed and compared with the reference
    #[inline] pub fn op(&mut self) { self.ops += 1 }
    #[inline] pub fn ops(&mut self, n: u64) { self.ops += n }
    /// this case is non-trivial by the space's rule
    #[inline] pub fn nontrivial_if(&mut self, c: bool) { if c { self.nontrivial = true } }
    /// record an observed outcome, to count distinct ones
    pub fn outcome(&mut self, h: impl Hash) {
        if self.outcomes.len() < 200_000 {
            self.outcomes.insert(hash64(&h, 7));
        }
    }
}
pub fn hash64(h: &impl Hash, salt: u64) -> u64 {
    let mut s = Fx(salt ^ 0x9E37_79B9_7F4A_7C15);
    h.hash(&mut s);
    s.finish()
}
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        let mut x = self.0;
        x ^= x >> 32; x = x.wrapping_mul(0xd6e8_feb8_6659_fd93);
        x ^= x >> 32; x = x.wrapping_mul(0xd6e8_feb8_6659_fd93);
        x ^ (x >> 32)
    }
    fn write(&mut self, b: &[u8]) { for x in b { self.write_u64(*x as u64 + 1) } }
    fn write_u64(&mut self, x: u64) { self.0 = (self.0.rotate_left(23) ^ x).wrapping_mul(0xA24B_AED4_963E_E407) }
    fn write_u8(&mut self, x: u8) { self.write_u64((x as u64).wrapping_add(1)) }
    fn write_u32(&mut self, x: u32) { self.write_u64((x as u64).wrapping_add(1)) }
    fn write_usize(&mut self, x: usize) { self.write_u64((x as u64).wrapping_add(1)) }
}

// ---------------------------------------------------------------------------------------------
// spaces

pub trait Space: Send + Sync {
    fn name(&self) -> String;
    fn about(&self) -> String;
    fn explore(&self, e: &Engine, id: usize) -> SpaceStats;
    fn single(&self, case: &[u64], cx: &mut Cx);
    fn describe(&self, case: &[u64]) -> String;
}

#[derive(Default, Clone)]
pub struct SpaceStats {
    pub kind: &'static str,
    pub cases: u64,
    pub ops: u64,
    pub nontrivial: u64,
    pub outcomes: u64,
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub depth: u64,
    pub complete: bool,
    pub closed: bool,
    pub wall: f64,
    pub samples: Vec<String>,
    pub violation: Option<(Vec<u64>, String)>,
    pub known: Vec<(Vec<u64>, String)>,
}

type CaseFn = dyn Fn(u64, &mut Cx) + Send + Sync;
type DescFn = dyn Fn(u64) -> String + Send + Sync;

/// A finite space enumerated by index 0..size, simplest cases first.
pub struct Idx {
    pub name: String,
    pub about: String,
    pub size: u64,
    pub case: Box<CaseFn>,
    pub desc: Box<DescFn>,
}
pub fn idx(
    name: impl Into<String>,
    about: impl Into<String>,
    size: u64,
    case: impl Fn(u64, &mut Cx) + Send + Sync + 'static,
    desc: impl Fn(u64) -> String + Send + Sync + 'static,
) -> Box<dyn Space> {
    Box::new(Idx { name: name.into(), about: about.into(), size, case: Box::new(case), desc: Box::new(desc) })
}

impl Space for Idx {
    fn name(&self) -> String { self.name.clone() }
    fn about(&self) -> String { self.about.clone() }
    fn single(&self, case: &[u64], cx: &mut Cx) { (self.case)(case[0], cx) }
    fn describe(&self, case: &[u64]) -> String { (self.desc)(case[0]) }
    fn explore(&self, e: &Engine, id: usize) -> SpaceStats {
        let t0 = Instant::now();
        let chunk = (self.size / (e.threads as u64 * 64)).clamp(1, 4096);
        let next = AtomicU64::new(0);
        let stop_at = AtomicU64::new(u64::MAX);
        let timed_out = AtomicBool::new(false);
        let total = Mutex::new(SpaceStats { kind: "inputs", ..Default::default() });
        let outcomes = Mutex::new(HashSet::<u64, BuildHasherDefault<IdHasher>>::default());
        std::thread::scope(|s| {
            for t in 0..e.threads {
                let (next, stop_at, total, outcomes, timed_out) = (&next, &stop_at, &total, &outcomes, &timed_out);
                s.spawn(move || {
                    let mut cx = Cx { tier_thorough: e.thorough, ..Default::default() };
                    let mut st = SpaceStats::default();
                    let mut best: Option<(u64, String)> = None;
                    loop {
                        let lo = next.fetch_add(chunk, Relaxed);
                        if lo >= self.size || lo > stop_at.load(Relaxed) { break }
                        if e.out_of_time() { timed_out.store(true, Relaxed); break }
                        let hi = (lo + chunk).min(self.size);
                        for i in lo..hi {
                            if i > stop_at.load(Relaxed) { break }
                            e.slot(t).begin(id, &[i], lo);
                            cx.nontrivial = false;
                            match guarded(|| (self.case)(i, &mut cx)) {
                                Ok(()) => {
                                    st.cases += 1;
                                    if cx.nontrivial { st.nontrivial += 1 }
                                }
                                Err(m) => {
                                    if e.is_known(&self.name, &[i]) {
                                        st.cases += 1;
                                        st.known.push((vec![i], m));
                                    } else {
                                        stop_at.fetch_min(i, Relaxed);
                                        if best.as_ref().is_none_or(|b| b.0 > i) { best = Some((i, m)) }
                                    }
                                }
                            }
                        }
                    }
                    e.slot(t).end();
                    let mut tot = total.lock().unwrap();
                    tot.cases += st.cases;
                    tot.nontrivial += st.nontrivial;
                    tot.ops += cx.ops;
                    tot.traces += cx.traces;
                    tot.states += cx.states;
                    tot.transitions += cx.transitions;
                    tot.known.extend(st.known);
                    if let Some((i, m)) = best {
                        if tot.violation.as_ref().is_none_or(|v| v.0[0] > i) { tot.violation = Some((vec![i], m)) }
                    }
                    outcomes.lock().unwrap().extend(cx.outcomes);
                });
            }
        });
        let mut st = total.into_inner().unwrap();
        st.outcomes = outcomes.into_inner().unwrap().len() as u64;
        st.complete = !timed_out.load(Relaxed) && st.violation.is_none();
        st.wall = t0.elapsed().as_secs_f64();
        for i in [0, self.size / 3, self.size / 2, self.size.saturating_sub(1)] {
            if i < self.size { st.samples.push((self.desc)(i)) }
        }
        st.samples.dedup();
        st
    }
}

/// A transition system over the real code; a state is reached by replaying an action path on fresh objects.
pub trait System: Send + Sync {
    fn name(&self) -> String;
    fn about(&self) -> String;
    fn inits(&self) -> usize { 1 }
    fn actions(&self) -> usize;
    fn max_depth(&self) -> usize;
    /// `path[0]` selects the initial state, the rest are actions. Executes all of them on the real
    /// objects in lock step with the reference model, checks, and returns the canonical state key, or
    /// None if the last action is not enabled.
    fn replay(&self, path: &[u16], cx: &mut Cx) -> Option<Vec<u8>>;
    fn describe(&self, path: &[u16]) -> String;
}
pub struct Bfs<S: System>(pub S);
pub fn bfs<S: System + 'static>(s: S) -> Box<dyn Space> { Box::new(Bfs(s)) }

fn to_path(c: &[u64]) -> Vec<u16> { c.iter().map(|x| *x as u16).collect() }
fn to_case(p: &[u16]) -> Vec<u64> { p.iter().map(|x| *x as u64).collect() }

impl<S: System> Space for Bfs<S> {
    fn name(&self) -> String { self.0.name() }
    fn about(&self) -> String { self.0.about() }
    fn single(&self, case: &[u64], cx: &mut Cx) { self.0.replay(&to_path(case), cx); }
    fn describe(&self, case: &[u64]) -> String { self.0.describe(&to_path(case)) }
    fn explore(&self, e: &Engine, id: usize) -> SpaceStats {
        let t0 = Instant::now();
        let sys = &self.0;
        let mut st = SpaceStats { kind: "states", complete: true, ..Default::default() };
        let mut seen: HashSet<(u64, u64)> = HashSet::new();
        let mut frontier: Vec<Vec<u16>> = Vec::new();
        let mut todo: Vec<Vec<u16>> = (0..sys.inits()).map(|i| vec![i as u16]).collect();
        let mut outcomes = HashSet::<u64, BuildHasherDefault<IdHasher>>::default();
        let mut depth = 0;
        loop {
            // execute everything in `todo` in parallel
            type Res = (usize, Result<Option<(u64, u64)>, String>);
            let n = todo.len();
            let chunk = (n / (e.threads * 16)).clamp(1, 1024);
            let next = AtomicU64::new(0);
            let abort = AtomicBool::new(false);
            let results: Mutex<Vec<Res>> = Mutex::new(Vec::with_capacity(n));
            let ops = Mutex::new((0u64, 0u64));
            std::thread::scope(|s| {
                for t in 0..e.threads {
                    let (next, abort, results, todo, ops) = (&next, &abort, &results, &todo, &ops);
                    s.spawn(move || {
                        let mut cx = Cx { tier_thorough: e.thorough, ..Default::default() };
                        let mut loc: Vec<Res> = Vec::new();
                        let mut nt = 0;
                        loop {
                            let lo = next.fetch_add(chunk as u64, Relaxed) as usize;
                            if lo >= n || abort.load(Relaxed) { break }
                            if e.out_of_time() { abort.store(true, Relaxed); break }
                            for i in lo..(lo + chunk).min(n) {
                                e.slot(t).begin(id, &to_case(&todo[i]), 0);
                                cx.nontrivial = false;
                                let r = guarded(|| sys.replay(&todo[i], &mut cx));
                                if cx.nontrivial { nt += 1 }
                                loc.push((i, r.map(|o| o.map(|k| (hash64(&k, 1), hash64(&k, 2))))));
                            }
                        }
                        e.slot(t).end();
                        results.lock().unwrap().append(&mut loc);
                        let mut o = ops.lock().unwrap();
                        o.0 += cx.ops;
                        o.1 += nt;
                    });
                }
            });
            let o = ops.into_inner().unwrap();
            st.ops += o.0;
            st.nontrivial += o.1;
            let mut res = results.into_inner().unwrap();
            res.sort_by_key(|r| r.0);
            frontier.clear();
            for (i, r) in res {
                st.cases += 1;
                match r {
                    Ok(Some(k)) => {
                        st.traces += 1;
                        if depth > 0 { st.transitions += 1 }
                        outcomes.insert(k.0);
                        if seen.insert(k) { frontier.push(todo[i].clone()) }
                    }
                    Ok(None) => {}
                    Err(m) => {
                        let case = to_case(&todo[i]);
                        if e.is_known(&self.name(), &case) { st.known.push((case, m)) }
                        else if st.violation.is_none() { st.violation = Some((case, m)) }
                    }
                }
            }
            st.depth = depth;
            if st.violation.is_some() { st.complete = false; break }
            if abort.load(Relaxed) { st.complete = false; break }
            if frontier.is_empty() { st.closed = true; break }
            if depth as usize >= sys.max_depth() { break }
            depth += 1;
            let acts = sys.actions();
            todo = Vec::with_capacity(frontier.len() * acts);
            for p in &frontier {
                for a in 0..acts {
                    let mut q = p.clone();
                    q.push(a as u16);
                    todo.push(q);
                }
            }
            if let Some(p) = frontier.get(frontier.len() / 2) {
                if st.samples.len() < 5 { st.samples.push(sys.describe(p)) }
            }
        }
        st.states = seen.len() as u64;
        st.outcomes = outcomes.len() as u64;
        st.wall = t0.elapsed().as_secs_f64();
        st
    }
}

// ---------------------------------------------------------------------------------------------
// shared memory slots: what every thread is doing, visible to the supervisor after a crash

const SLOT_DATA: usize = 96;
#[repr(C)]
pub struct Slot {
    seq: AtomicU64,
    busy: AtomicU64,
    space: AtomicU64,
    lo: AtomicU64,
    len: AtomicU64,
    data: [AtomicU64; SLOT_DATA],
}
impl Slot {
    #[inline]
    fn begin(&self, space: usize, case: &[u64], lo: u64) {
        self.space.store(space as u64, Relaxed);
        self.lo.store(lo, Relaxed);
        self.len.store(case.len().min(SLOT_DATA) as u64, Relaxed);
        for (d, c) in self.data.iter().zip(case) { d.store(*c, Relaxed) }
        self.busy.store(1, Release);
        self.seq.store(self.seq.load(Relaxed) + 1, Release);
    }
    #[inline]
    fn end(&self) { self.busy.store(0, Release) }
    fn case(&self) -> Vec<u64> {
        (0..self.len.load(Acquire) as usize).map(|i| self.data[i].load(Acquire)).collect()
    }
}
fn map_slots(path: &Path, create: bool) -> &'static [Slot] {
    use std::os::fd::AsRawFd;
    let sz = std::mem::size_of::<Slot>() * MAX_THREADS;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(create).truncate(false).open(path).expect("slot file");
    f.set_len(sz as u64).unwrap();
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), sz, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0);
        assert!(p != libc::MAP_FAILED);
        std::slice::from_raw_parts(p as *const Slot, MAX_THREADS)
    }
}
const MAX_THREADS: usize = 64;

// ---------------------------------------------------------------------------------------------
// engine

pub struct Engine {
    pub threads: usize,
    pub thorough: bool,
    deadline: Instant,
    slots: &'static [Slot],
    known: HashSet<(String, Vec<u64>)>,
}
impl Engine {
    fn slot(&self, t: usize) -> &Slot { &self.slots[t] }
    pub fn out_of_time(&self) -> bool { Instant::now() > self.deadline }
    fn is_known(&self, space: &str, case: &[u64]) -> bool {
        !self.known.is_empty() && self.known.contains(&(space.to_string(), case.to_vec()))
    }
}

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub spaces: fn(thorough: bool) -> Vec<Box<dyn Space>>,
}

struct Known { space: String, case: Vec<u64>, what: String }

fn verif_dir() -> PathBuf {
    std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}
fn load_known(id: &str) -> Vec<Known> {
    // lines:  known: property=C11 space=<name> case=<n,n,..> what=<text>
    let mut v = Vec::new();
    let Ok(s) = std::fs::read_to_string(verif_dir().join("known-findings.txt")) else { return v };
    for l in s.lines() {
        let Some(r) = l.strip_prefix("known: ") else { continue };
        let get = |k: &str| {
            let pat = format!("{k}=");
            r.find(&pat).map(|i| &r[i + pat.len()..])
        };
        let word = |k: &str| get(k).and_then(|x| x.split_whitespace().next()).unwrap_or("").to_string();
        if word("property") != id { continue }
        v.push(Known {
            space: word("space"),
            case: word("case").split(',').filter_map(|x| x.parse().ok()).collect(),
            what: get("what").unwrap_or("").to_string(),
        });
    }
    v
}

fn esc(s: &str) -> String { serde_json::to_string(s).unwrap() }
fn case_str(c: &[u64]) -> String { c.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",") }
fn parse_case(s: &str) -> Vec<u64> { s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect() }

pub fn limit_memory(bytes: u64) {
    unsafe {
        // a sanitizer's shadow memory counts as data
        if std::env::var_os("MC_NO_RLIMIT").is_none() {
            let l = libc::rlimit { rlim_cur: bytes, rlim_max: bytes };
            libc::setrlimit(libc::RLIMIT_DATA, &l);
        }
        let c = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &c);
    }
}

const HANG_SECS: u64 = 30;
fn hang_secs() -> u64 { std::env::var("MC_HANG_S").ok().and_then(|s| s.parse().ok()).unwrap_or(HANG_SECS) }

pub fn run_main(p: Prop) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let mut thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let mut i = 1;
    let mut mode = "supervise".to_string();
    let mut rest: Vec<String> = vec![];
    while i < args.len() {
        match args[i].as_str() {
            "--tier" => { i += 1; thorough = args[i] == "thorough" }
            "--worker" | "--single" | "--range" | "--replay" | "--list" => mode = args[i][2..].to_string(),
            x => rest.push(x.to_string()),
        }
        i += 1;
    }
    match mode.as_str() {
        "list" => {
            for s in (p.spaces)(thorough) { println!("{}: {}", s.name(), s.about()) }
            std::process::exit(0)
        }
        "worker" => worker(&p, thorough, &rest[0], rest[1].parse().unwrap()),
        "single" => {
            limit_memory(8 << 30);
            install_hook();
            let case = parse_case(&rest[1]);
            std::process::exit(run_single(&p, thorough, &rest[0], &case, false))
        }
        "range" => {
            limit_memory(8 << 30);
            install_hook();
            let (lo, hi): (u64, u64) = (rest[1].parse().unwrap(), rest[2].parse().unwrap());
            let spaces = (p.spaces)(thorough);
            let s = spaces.iter().find(|s| s.name() == rest[0]).expect("space");
            let mut cx = Cx { tier_thorough: thorough, ..Default::default() };
            for i in lo..=hi {
                if guarded(|| s.single(&[i], &mut cx)).is_err() { std::process::exit(1) }
            }
            std::process::exit(0)
        }
        "replay" => {
            install_hook();
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&rest[0]).expect("replay file")).unwrap();
            let case: Vec<u64> = v["case"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
            std::process::exit(run_single(&p, v["tier"] == "thorough", v["space"].as_str().unwrap(), &case, true))
        }
        _ => supervise(&p, thorough),
    }
}

fn run_single(p: &Prop, thorough: bool, space: &str, case: &[u64], verbose: bool) -> i32 {
    let spaces = (p.spaces)(thorough);
    let s = spaces.iter().find(|s| s.name() == space).expect("space");
    let mut cx = Cx { tier_thorough: thorough, verbose, ..Default::default() };
    if verbose { println!("{} {} {:?}: {}", p.id, space, case, s.describe(case)) }
    match guarded(|| s.single(case, &mut cx)) {
        Ok(()) => { if verbose { println!("holds") } 0 }
        Err(m) => { println!("FAIL {m}"); 1 }
    }
}

fn worker(p: &Prop, thorough: bool, dir: &str, secs: u64) -> ! {
    limit_memory(16 << 30);
    unsafe {
        // keep freed memory: the cases allocate and free the same small blocks over and over
        libc::mallopt(libc::M_TRIM_THRESHOLD, 1 << 30);
        libc::mallopt(libc::M_TOP_PAD, 16 << 20);
        libc::mallopt(libc::M_MMAP_THRESHOLD, 1 << 30);
    }
    install_hook();
    let dir = PathBuf::from(dir);
    let e = Engine {
        threads: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(MAX_THREADS),
        thorough,
        deadline: Instant::now() + Duration::from_secs(secs),
        slots: map_slots(&dir.join("slots"), false),
        known: load_known(p.id).into_iter().map(|k| (k.space, k.case)).collect(),
    };
    let only = std::env::var("MC_ONLY").ok();
    let mut out = String::new();
    for (id, s) in (p.spaces)(thorough).iter().enumerate() {
        if let Some(o) = &only { if !s.name().contains(o.as_str()) { continue } }
        let st = s.explore(&e, id);
        let j = serde_json::json!({
            "space": s.name(), "about": s.about(), "kind": st.kind, "cases": st.cases, "ops": st.ops,
            "nontrivial": st.nontrivial, "outcomes": st.outcomes, "states": st.states, "transitions": st.transitions,
            "traces": st.traces, "depth": st.depth, "complete": st.complete, "closed": st.closed, "wall": st.wall,
            "samples": st.samples,
            "violation": st.violation.as_ref().map(|(c, m)| serde_json::json!({"case": c, "msg": m, "desc": s.describe(c)})),
            "known": st.known.iter().map(|(c, m)| serde_json::json!({"case": c, "msg": m})).collect::<Vec<_>>(),
        });
        out.push_str(&j.to_string());
        out.push('\n');
        std::fs::write(dir.join("result"), &out).unwrap();
    }
    std::fs::write(dir.join("done"), "1").unwrap();
    std::process::exit(0)
}

fn spawn_self(args: &[&str], thorough: bool) -> std::process::Child {
    std::process::Command::new(std::env::current_exe().unwrap())
        .args(args)
        .args(["--tier", if thorough { "thorough" } else { "quick" }])
        .stdin(std::process::Stdio::null())
        .stdout(std::process::Stdio::piped())
        .spawn()
        .expect("spawn worker")
}
enum End { Code(i32, String), Signal(i32), Hang }
fn wait_bounded(mut c: std::process::Child, secs: u64) -> End {
    use std::os::unix::process::ExitStatusExt;
    let t0 = Instant::now();
    loop {
        if let Some(s) = c.try_wait().unwrap() {
            let mut o = String::new();
            use std::io::Read;
            if let Some(mut so) = c.stdout.take() { let _ = so.read_to_string(&mut o); }
            return match s.code() { Some(x) => End::Code(x, o), None => End::Signal(s.signal().unwrap_or(0)) };
        }
        if t0.elapsed().as_secs() > secs {
            let _ = c.kill();
            let _ = c.wait();
            return End::Hang;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

#[derive(Clone)]
struct Violation { space: String, case: Vec<u64>, msg: String, desc: String }

fn supervise(p: &Prop, thorough: bool) -> ! {
    let t0 = Instant::now();
    let vd = verif_dir();
    let dir = std::env::temp_dir().join(format!("mc-{}-{}", p.id, std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let slots = map_slots(&dir.join("slots"), true);
    let budget: u64 = std::env::var("MC_BUDGET_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 6 * 3600 } else { 780 });
    let mut child = spawn_self(&["--worker", dir.to_str().unwrap(), &budget.to_string()], thorough);
    // watch
    let mut last: HashMap<usize, (u64, Instant)> = HashMap::new();
    let mut hung: Option<usize> = None;
    let status = loop {
        if let Some(s) = child.try_wait().unwrap() { break Some(s) }
        for (t, s) in slots.iter().enumerate() {
            if s.busy.load(Acquire) == 0 { last.remove(&t); continue }
            let q = s.seq.load(Acquire);
            let ent = last.entry(t).or_insert((q, Instant::now()));
            if ent.0 != q { *ent = (q, Instant::now()) }
            if ent.1.elapsed().as_secs() > hang_secs() { hung = Some(t) }
        }
        if hung.is_some() {
            let _ = child.kill();
            let _ = child.wait();
            break None;
        }
        std::thread::sleep(Duration::from_millis(50));
    };
    let finished = dir.join("done").exists() && status.map(|s| s.success()).unwrap_or(false);
    let result = std::fs::read_to_string(dir.join("result")).unwrap_or_default();
    let rows: Vec<serde_json::Value> = result.lines().filter_map(|l| serde_json::from_str(l).ok()).collect();
    let mut viols: Vec<Violation> = Vec::new();
    let mut error: Option<String> = None;
    for r in &rows {
        if r["violation"].is_object() {
            let v = &r["violation"];
            viols.push(Violation {
                space: r["space"].as_str().unwrap().into(),
                case: v["case"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect(),
                msg: v["msg"].as_str().unwrap().into(),
                desc: v["desc"].as_str().unwrap().into(),
            });
        }
    }
    if !finished {
        // the worker crashed, hung or was killed: find the case that does it, in a fresh process
        let spaces = (p.spaces)(thorough);
        let mut cands: Vec<(usize, Vec<u64>, u64)> = slots
            .iter()
            .enumerate()
            .filter(|(t, s)| s.busy.load(Acquire) == 1 && hung.is_none_or(|h| h == *t))
            .map(|(_, s)| (s.space.load(Acquire) as usize, s.case(), s.lo.load(Acquire)))
            .collect();
        cands.sort_by_key(|c| (c.0, c.1.len(), c.1.clone()));
        let how = match (&status, hung) {
            (_, Some(_)) => "a case did not terminate".to_string(),
            (Some(s), _) => format!("worker ended with {s}"),
            _ => "worker ended".into(),
        };
        for (sp, case, _) in &cands {
            let Some(s) = spaces.get(*sp) else { continue };
            let end = wait_bounded(spawn_self(&["--single", &s.name(), &case_str(case)], thorough), hang_secs());
            let msg = match end {
                End::Code(0, _) => continue,
                End::Code(66, _) => "ThreadSanitizer reports a data race".into(),
                End::Code(_, o) => o.trim().to_string(),
                End::Signal(n) => format!("the process died with signal {n}"),
                End::Hang => format!("no termination within {} s", hang_secs()),
            };
            viols.push(Violation { space: s.name(), case: case.clone(), msg, desc: s.describe(case) });
            break;
        }
        if viols.is_empty() {
            // state corrupted by an earlier case of the same chunk?
            for (sp, case, lo) in &cands {
                let Some(s) = spaces.get(*sp) else { continue };
                if case.len() != 1 || *lo >= case[0] { continue }
                let end = wait_bounded(
                    spawn_self(&["--range", &s.name(), &lo.to_string(), &case[0].to_string()], thorough), 4 * hang_secs());
                if !matches!(end, End::Code(0, _)) {
                    viols.push(Violation {
                        space: s.name(), case: case.clone(), desc: s.describe(case),
                        msg: format!("the process dies when the cases {lo}..={} run one after another", case[0]),
                    });
                    break;
                }
            }
        }
        if viols.is_empty() { error = Some(format!("{how}; not reproduced by any single case")) }
    }
    // evidence; the spaces of an earlier part of the same check are included
    let own = rows.len();
    let mut rows = rows;
    if let Some(f) = std::env::var_os("MC_MERGE") {
        if let Some(v) = std::fs::read_to_string(f).ok().and_then(|s| serde_json::from_str::<serde_json::Value>(&s).ok()) {
            for r in v["coverage"]["spaces"].as_array().cloned().unwrap_or_default() { rows.push(r) }
        }
    }
    let sum = |k: &str| rows.iter().map(|r| r[k].as_u64().unwrap_or(0)).sum::<u64>();
    let sum_kind = |kind: &str, k: &str| rows.iter().filter(|r| r["kind"] == kind).map(|r| r[k].as_u64().unwrap_or(0)).sum::<u64>();
    let mut cov = serde_json::Map::new();
    let has_states = rows.iter().any(|r| r["kind"] == "states");
    let has_inputs = rows.iter().any(|r| r["kind"] == "inputs");
    if has_states || p.level == "model_checking" {
        cov.insert("states".into(), sum("states").into());
        cov.insert("transitions".into(), sum("transitions").into());
        cov.insert("traces_validated_against_impl".into(), sum("traces").into());
    }
    if has_inputs || p.level != "model_checking" {
        cov.insert("evaluations".into(), sum_kind("inputs", "ops").into());
        cov.insert("input_cases".into(), sum_kind("inputs", "cases").into());
        cov.insert("distinct_nontrivial".into(), sum("nontrivial").into());
    }
    cov.insert("rule".into(), p.rule.into());
    cov.insert("exhaustive".into(), serde_json::Value::Bool(finished && rows.iter().all(|r| r["complete"] == true)));
    let samples: Vec<serde_json::Value> = rows.iter().flat_map(|r| {
        let n = r["space"].as_str().unwrap_or("").to_string();
        r["samples"].as_array().cloned().unwrap_or_default().into_iter().take(3)
            .map(move |s| serde_json::Value::String(format!("[{n}] {}", s.as_str().unwrap_or(""))))
    }).collect();
    cov.insert("samples".into(), samples.into());
    cov.insert("spaces".into(), rows.iter().map(|r| {
        let mut o = r.clone();
        o.as_object_mut().unwrap().remove("samples");
        o
    }).collect::<Vec<_>>().into());
    if let Some(e) = &error { cov.insert("explanation".into(), format!("run failed: {e}").into()); }
    let ev = serde_json::json!({
        "property": p.id, "tier": if thorough { "thorough" } else { "quick" },
        "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1),
        "level": p.level, "coverage": cov, "assumptions": p.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(), "violations": viols.len(),
    });
    let _ = std::fs::create_dir_all(vd.join("evidence"));
    let mut name = p.id.to_string();
    if std::env::var("MC_EVIDENCE_SUFFIX").is_ok() { name += &std::env::var("MC_EVIDENCE_SUFFIX").unwrap() }
    std::fs::write(vd.join("evidence").join(format!("{name}.json")), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
    // report
    for k in load_known(p.id) {
        for r in rows.iter().filter(|r| r["space"] == k.space.as_str()) {
            for c in r["known"].as_array().unwrap() {
                let cc: Vec<u64> = c["case"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
                if cc == k.case { println!("KNOWN-FINDING: property={} {} (space {} case {})", p.id, k.what, k.space, case_str(&k.case)) }
            }
        }
    }
    for r in &rows[..own] {
        println!(
            "{} {:<34} {:>10} cases {:>11} ops {:>9} nontrivial {:>8} outcomes {:>8} states {:>9} transitions{}{} {:.1}s",
            p.id, r["space"].as_str().unwrap(), r["cases"].as_u64().unwrap(), r["ops"].as_u64().unwrap(),
            r["nontrivial"].as_u64().unwrap(), r["outcomes"].as_u64().unwrap(), r["states"].as_u64().unwrap(),
            r["transitions"].as_u64().unwrap(),
            if r["kind"] == "states" { format!(" depth {}{}", r["depth"], if r["closed"] == true { " closed" } else { "" }) } else { String::new() },
            if r["complete"] == true { "" } else { " INCOMPLETE" }, r["wall"].as_f64().unwrap()
        );
    }
    let _ = std::fs::remove_dir_all(&dir);
    if !viols.is_empty() {
        let rd = vd.join("replays");
        let _ = std::fs::create_dir_all(&rd);
        for (n, v) in viols.iter().enumerate() {
            let path = rd.join(format!("{}-{}.json", p.id, n));
            let cut = |s: &str| if s.len() <= 6000 { s.to_string() } else { format!("{} ... ({} characters)", s.chars().take(5000).collect::<String>(), s.len()) };
            let v = Violation { desc: cut(&v.desc), msg: cut(&v.msg), ..v.clone() };
            let j = format!(
                "{{\"property\":{},\"tier\":{},\"space\":{},\"case\":{:?},\"description\":{},\"failure\":{},\"how\":{}}}\n",
                esc(p.id), esc(if thorough { "thorough" } else { "quick" }), esc(&v.space), v.case, esc(&v.desc), esc(&v.msg),
                esc("bash /verif/check.sh replay <this file>")
            );
            let _ = std::fs::write(&path, j);
            println!("  {} case {}: {}\n    {}", v.space, case_str(&v.case), v.desc, v.msg);
            println!("VIOLATION property={} replay={}", p.id, path.display());
        }
        let _ = std::io::stdout().flush();
        std::process::exit(1)
    }
    if let Some(e) = error {
        println!("ERROR property={} {e}", p.id);
        std::process::exit(2)
    }
    println!("OK property={} {:.1}s", p.id, t0.elapsed().as_secs_f64());
    std::process::exit(0)
}
