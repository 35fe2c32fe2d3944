//! C22: every selection of features builds on its own and behaves the same.
use mc::{ensure_eq, fail, idx, Cx, Prop, Space};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::{Mutex, OnceLock};
use std::time::{Duration, Instant};

const FREE: [&str; 6] = ["inplace", "serde", "total", "std_support", "radixtree", "lazy_radixtree"];
const ARCHIVES: [&str; 3] = ["", "archives", "validation"];
const N: usize = 64 * 3;

#[derive(Clone, Debug)]
struct Selection { features: Vec<&'static str>, release: bool }
fn selection(i: usize, release: bool) -> Selection {
    let mut features: Vec<_> = FREE.iter().enumerate().filter(|(b, _)| i >> b & 1 == 1).map(|(_, f)| *f).collect();
    if i / 64 > 0 { features.push(ARCHIVES[i / 64]) }
    Selection { features, release }
}
/// the names the features have in the crate itself
fn show(s: &Selection) -> String {
    let names: Vec<_> = s.features.iter().map(|f| match *f {
        "archives" => "rkyv",
        "validation" => "rkyv_validated (with rkyv/validation)",
        "validation_alone" => "rkyv_validated",
        x => x,
    }).collect();
    format!("features [{}], {}", names.join(", "), if s.release { "release" } else { "debug" })
}

fn base() -> PathBuf { Path::new(&std::env::var("CARGO_TARGET_DIR").expect("CARGO_TARGET_DIR")).join("feat") }
fn source() -> PathBuf { Path::new(&std::env::var("VERIF_DIR").expect("VERIF_DIR")).join("mc-feat") }

/// builds the program with this selection and returns the lines it prints
fn build(dir: &Path, s: &Selection) -> Result<Vec<String>, String> {
    let out = dir.join(if s.release { "release" } else { "debug" });
    let exe = out.join("mc-feat");
    let _ = std::fs::remove_file(&exe);
    let mut c = Command::new("cargo");
    c.current_dir(source()).env("CARGO_TARGET_DIR", dir).env_remove("RUSTFLAGS").env("CARGO_INCREMENTAL", "0");
    c.args(["build", "--offline", "--locked", "--quiet", "--message-format", "short", "--features", &s.features.join(",")]);
    if s.release { c.arg("--release"); }
    let r = c.stdin(Stdio::null()).output().map_err(|e| panic!("cannot run cargo: {e}")).unwrap();
    if !r.status.success() {
        let text = String::from_utf8_lossy(&r.stderr).into_owned();
        let errors: Vec<_> = text.lines().filter(|l| l.contains("error")).take(3).collect();
        return Err(format!("does not build: {}", if errors.is_empty() { text.trim().to_string() } else { errors.join(" | ") }));
    }
    let mut child = Command::new(&exe).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().unwrap_or_else(|e| panic!("cannot run {exe:?}: {e}"));
    let t = Instant::now();
    let status = loop {
        match child.try_wait().unwrap() {
            Some(s) => break s,
            None if t.elapsed() > Duration::from_secs(200) => { let _ = child.kill(); let _ = child.wait(); return Err("the program does not end".into()) }
            None => std::thread::sleep(Duration::from_millis(20)),
        }
    };
    let r = child.wait_with_output().unwrap();
    // keep the dependencies, but not what belongs to this selection only
    for (sub, prefixes) in [("deps", ["libvec_collections-", "vec_collections-", "mc_feat-"]), (".fingerprint", ["vec-collections-", "mc-feat-", "mc-feat-"])] {
        for e in std::fs::read_dir(out.join(sub)).into_iter().flatten().flatten() {
            let name = e.file_name().to_string_lossy().into_owned();
            if prefixes.iter().any(|p| name.starts_with(p)) {
                let _ = if e.path().is_dir() { std::fs::remove_dir_all(e.path()) } else { std::fs::remove_file(e.path()) };
            }
        }
    }
    if !status.success() {
        let text = String::from_utf8_lossy(&r.stderr).into_owned();
        return Err(format!("the program fails ({status}): {}", text.lines().filter(|l| !l.is_empty()).take(3).collect::<Vec<_>>().join(" | ")));
    }
    Ok(String::from_utf8_lossy(&r.stdout).lines().map(|l| l.to_string()).collect())
}

/// build directories, one per thread: the first is prepared with all dependencies, the others are copies of it
static DIRS: Mutex<(usize, Vec<PathBuf>)> = Mutex::new((0, vec![]));
fn with_dir<T>(f: impl FnOnce(&Path) -> T) -> T {
    let dir = {
        let mut d = DIRS.lock().unwrap_or_else(|e| e.into_inner());
        match d.1.pop() {
            Some(x) => x,
            None => {
                d.0 += 1;
                let x = base().join(format!("w{}", d.0));
                if !x.exists() {
                    let _ = std::fs::create_dir_all(base());
                    if !Command::new("cp").arg("-a").arg(base().join("w0")).arg(&x).status().is_ok_and(|s| s.success()) { panic!("cannot copy the build directory") }
                }
                x
            }
        }
    };
    let r = f(&dir);
    DIRS.lock().unwrap_or_else(|e| e.into_inner()).1.push(dir);
    r
}
/// what the crate with all features, in a debug build, prints
fn reference() -> &'static Result<Vec<String>, String> {
    static R: OnceLock<Result<Vec<String>, String>> = OnceLock::new();
    R.get_or_init(|| {
        let _ = std::fs::remove_dir_all(base());
        let w0 = base().join("w0");
        for i in [0, 2, 66, 130] { let _ = build(&w0, &selection(i, false)); }
        build(&w0, &selection(N - 1, false))
    })
}

/// the parts that a selection has to offer
fn parts(s: &Selection) -> Vec<&'static str> {
    let f = |x: &str| s.features.contains(&x);
    let valid = f("validation");
    let rkyv = f("archives") || valid;
    let mut v = vec!["sets", "building", "maps"];
    let mut add = |on: bool, names: &[&'static str]| if on { v.extend(names) };
    add(f("total"), &["total-sets", "total-maps"]);
    add(f("std_support"), &["std-maps"]);
    add(f("radixtree"), &["trees"]);
    add(f("radixtree") && rkyv, &["shared-and-archived-trees"]);
    add(f("radixtree") && rkyv && f("lazy_radixtree"), &["lazy-trees"]);
    add(rkyv, &["archived-sets", "archived-maps"]);
    add(rkyv && f("std_support"), &["archived-std-maps"]);
    add(valid, &["validated-sets", "validated-maps"]);
    add(valid && f("radixtree"), &["validated-trees"]);
    add(f("serde"), &["documents"]);
    add(f("serde") && f("total"), &["total-documents"]);
    v
}

fn check(s: &Selection, cx: &mut Cx) {
    let want = match reference() { Ok(x) => x, Err(e) => fail!("with all features: {e}") };
    let got = match with_dir(|d| build(d, s)) { Ok(x) => x, Err(e) => fail!("{}: {e}", show(s)) };
    let name = |l: &str| l.split(' ').next().unwrap_or("").to_string();
    ensure_eq!(got.iter().map(|l| name(l)).collect::<Vec<_>>(), parts(s), "{}: parts of the program that ran", show(s));
    cx.nontrivial_if(s.features.len() < 7);
    for l in &got {
        let n: u64 = l.split(' ').nth(1).and_then(|n| n.parse().ok()).unwrap_or(0);
        cx.ops(n);
        cx.outcome(&l);
        let w = want.iter().find(|w| name(w) == name(l));
        let Some(w) = w else { fail!("with all features, part {:?} is missing", name(l)) };
        if w != l { fail!("{}: part {:?} gives other results than with all features in a debug build ({l:?} instead of {w:?})", show(s), name(l)) }
    }
}

fn space(name: &str, about: &str, list: Vec<Selection>) -> Box<dyn Space> {
    let l2 = list.clone();
    idx(name, about, list.len() as u64, move |i, cx| check(&list[i as usize], cx), move |i| show(&l2[i as usize]))
}
fn spaces(th: bool) -> Vec<Box<dyn Space>> {
    let mut v = vec![];
    if th {
        v.push(space("debug", "every selection of features, built as a dependency in a debug build, then run", (0..N).map(|i| selection(i, false)).collect()));
        v.push(space("release", "the same with optimisations and without debug assertions", (0..N).map(|i| selection(i, true)).collect()));
    } else {
        // "inplace" is on in every other selection
        let half = |release: bool| (0..N).filter(move |i| (i % 2 == 1) == (i.count_ones() % 2 == 0)).map(move |i| selection(i, release));
        v.push(space("debug", "every selection of features but `inplace`, which is on in every other one, built as a dependency in a debug build, then run", half(false).collect()));
        v.push(space("release", "no feature and all features, with optimisations and without debug assertions", [0, N - 1].map(|i| selection(i, true)).into()));
    }
    v.push(space("validated-alone", "`rkyv_validated` without anything else that turns on rkyv's validation", vec![Selection { features: vec!["validation_alone"], release: false }]));
    v
}
fn main() {
    mc::run_main(Prop {
        id: "C22",
        level: "exploration",
        rule: "a case is one selection of the crate's features: a program that uses everything the selection offers is built with the crate as its dependency and run; it enumerates small inputs for every part and prints a digest of all results per part. Non-trivial: some feature is off",
        assumptions: &["with rkyv_validated the user turns on rkyv's own `validation` (the crate does not, see known-findings.txt)", "results are compared with those of the crate with all features, which the other checks compare with reference models", "no default features of the dependencies are turned off"],
        spaces,
    })
}
