//! lt run ID | replay ID FILE | list
//!
//! `run` explores in a child process, so that a crash of the code under test
//! (abort, stack overflow, bad memory access) is seen, reduced to one case and
//! confirmed in a process of its own before it is called a violation.

use lt::case::Case;
use lt::engine::{self, *};
use lt::props;
use serde_json::{Value, json};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::Instant;

fn root() -> String {
    std::env::var("LT_ROOT").unwrap_or_else(|_| {
        let d = Path::new(env!("CARGO_MANIFEST_DIR")).parent().unwrap();
        d.to_str().unwrap().to_string()
    })
}

fn seed() -> u64 {
    match std::env::var("VERIF_SEED") {
        Ok(s) => s.trim().parse().unwrap_or_else(|_| engine::mix(&[s.len() as u64, s.bytes().map(u64::from).sum()])),
        Err(_) => 1,
    }
}

fn thorough() -> bool {
    std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough")
}

fn property(id: &str) -> &'static Property {
    props::all()
        .into_iter()
        .find(|p| p.id == id)
        .unwrap_or_else(|| harness_error(&format!("no property {id}")))
}

fn write(path: &Path, v: &Value) {
    if let Some(d) = path.parent() {
        let _ = std::fs::create_dir_all(d);
    }
    if let Err(e) = std::fs::write(path, serde_json::to_string_pretty(v).unwrap() + "\n") {
        harness_error(&format!("{}: {e}", path.display()));
    }
}

fn save_replay(id: &str, case: &Case, msg: &str) -> PathBuf {
    let path = PathBuf::from(root()).join(format!("replays/{id}-{:016x}.json", case.hash64()));
    write(&path, &json!({"property": id, "case": case, "message": msg, "seed": seed()}));
    path
}

fn violation(id: &str, case: &Case, msg: &str) -> ! {
    let path = save_replay(id, case, msg);
    println!("{id}: {msg}");
    println!("VIOLATION property={id} replay={}", path.display());
    std::process::exit(1)
}

fn samples(st: &mut Stats, n: usize) -> Vec<Value> {
    st.samples.sort_by_key(|(h, _)| *h);
    st.samples.dedup_by_key(|(h, _)| *h);
    let step = (st.samples.len() / n).max(1);
    st.samples.iter().step_by(step).take(n).map(|(_, c)| serde_json::to_value(c).unwrap()).collect()
}

fn evidence(p: &Property, mut r: Report, wall: f64, known: usize) {
    let samples = samples(&mut r.stats, 24);
    let st = &r.stats;
    let v = json!({
        "property": p.id,
        "tier": if thorough() { "thorough" } else { "quick" },
        "seed": seed(),
        "level": "exploration",
        "coverage": {
            "evaluations": st.evaluations,
            "distinct_nontrivial": st.nontrivial.len(),
            "rule": p.rule,
            "samples": samples,
            "classes": st.classes,
            "skipped": st.skipped,
            "campaigns": r.per_campaign,
            "largest_case_bytes": st.max_len,
            "known_findings_met": known,
        },
        "assumptions": p.assumptions,
        "wall_s": wall,
        "violations": r.failure.is_some() as u64,
    });
    write(&PathBuf::from(root()).join(format!("evidence/{}.json", p.id)), &v);
}

/// The exploring child.
fn child(id: &str) -> ! {
    let p = property(id);
    silence_panics();
    let hung = std::env::var("LT_HUNG").ok();
    watchdog(p, move |case| {
        // the parent confirms and reduces it
        if let Some(f) = hung {
            write(Path::new(&f), &json!({"property": p.id, "case": case}));
        }
        std::process::exit(HUNG)
    });
    let t = Instant::now();
    let known = known_findings(&root(), id);
    let mut met = 0;
    for k in &known {
        match run_check(p, &k.case) {
            Verdict::Fail(_) => {
                println!("KNOWN-FINDING: property={id} {}", k.what);
                met += 1;
            }
            _ => eprintln!("[{id}] listed finding no longer fails: {}", k.what),
        }
    }
    // saved regression cases first
    let dir = PathBuf::from(root()).join(format!("regressions/{id}"));
    let mut files: Vec<_> = std::fs::read_dir(&dir).map(|d| d.flatten().map(|e| e.path()).collect()).unwrap_or_default();
    files.sort();
    for f in files {
        let case = load(&f);
        if known.iter().any(|k| k.case == case) {
            continue;
        }
        if let Verdict::Fail(m) = run_check(p, &case) {
            violation(id, &case, &m);
        }
    }
    let r = explore(p, seed(), thorough(), &known);
    if r.failure.is_none() && r.stats.nontrivial.len() < 2 {
        harness_error(&format!("{id}: the generators produced no non-trivial case"));
    }
    let fail = r.failure.clone();
    evidence(p, r, t.elapsed().as_secs_f64(), met);
    match fail {
        Some((case, m)) => violation(id, &case, &m),
        None => {
            println!("{id}: held on everything explored ({:.1}s)", t.elapsed().as_secs_f64());
            std::process::exit(0)
        }
    }
}

fn load(f: &Path) -> Case {
    let text = std::fs::read_to_string(f).unwrap_or_else(|e| harness_error(&format!("{}: {e}", f.display())));
    let v: Value = serde_json::from_str(&text).unwrap_or_else(|e| harness_error(&format!("{}: {e}", f.display())));
    serde_json::from_value(v["case"].clone()).unwrap_or_else(|e| harness_error(&format!("{}: {e}", f.display())))
}

fn replay(id: &str, file: &str) -> ! {
    let p = property(id);
    silence_panics();
    let case = load(Path::new(file));
    let (name, f) = (p.id, file.to_string());
    watchdog(p, move |_| {
        println!("{name}: {NEVER_ENDS}");
        println!("VIOLATION property={name} replay={f}");
        std::process::exit(HUNG_REPLAY)
    });
    // the same stack as an exploring worker
    let v = std::thread::Builder::new()
        .stack_size(STACK)
        .spawn(move || match run_check(p, &case) {
            Verdict::Fail(m) => Some((case, m)),
            _ => None,
        })
        .unwrap()
        .join()
        .unwrap_or_else(|_| harness_error("replay panicked"));
    match v {
        Some((_, m)) => {
            println!("{id}: {m}");
            println!("VIOLATION property={id} replay={file}");
            std::process::exit(1)
        }
        None => {
            println!("{id}: replay holds");
            std::process::exit(0)
        }
    }
}

fn me() -> PathBuf {
    std::env::current_exe().unwrap_or_else(|e| harness_error(&format!("own path: {e}")))
}

/// Did replaying this case end the process abnormally? Some(stderr) if so.
fn crashes(id: &str, file: &Path) -> Option<String> {
    let o = Command::new(me())
        .args(["replay", id, file.to_str().unwrap()])
        .env("LT_ROOT", root())
        .stdin(Stdio::null())
        .output()
        .unwrap_or_else(|e| harness_error(&format!("replay: {e}")));
    let err = String::from_utf8_lossy(&o.stderr).to_string();
    (o.status.code().is_none() && !err.contains("memory allocation of")).then_some(err)
}

/// Exit status of an exploring child whose check does not end.
const HUNG: i32 = 40;
/// A replay ends with 1 whatever kind of violation it shows; see `shows`.
const HUNG_REPLAY: i32 = 1;
const NEVER_ENDS: &str = "the operation does not end";

/// What replaying this case shows, if anything; an operation that takes more than
/// `limit` half-seconds never ends.
fn shows(id: &str, file: &Path, limit: Option<u32>) -> Option<String> {
    let mut c = Command::new(me());
    c.args(["replay", id, file.to_str().unwrap()]).env("LT_ROOT", root()).stdin(Stdio::null());
    if let Some(n) = limit {
        c.env("LT_HANG", n.to_string());
    }
    let o = c.output().unwrap_or_else(|e| harness_error(&format!("replay: {e}")));
    let out = String::from_utf8_lossy(&o.stdout).to_string();
    let first = out.lines().next().unwrap_or("");
    (o.status.code() == Some(HUNG_REPLAY)).then(|| first.strip_prefix(&format!("{id}: ")).unwrap_or(first).to_string())
}

fn parent(id: &str) -> ! {
    property(id);
    let hung = PathBuf::from(root()).join(format!("replays/hung-{id}-{}.json", std::process::id()));
    let run_with = |crumbs: Option<&Path>, patience: Option<u32>| {
        let mut c = Command::new(me());
        c.args(["explore", id]).env("LT_ROOT", root()).env("LT_HUNG", &hung).stdin(Stdio::null());
        if let Some(d) = crumbs {
            c.env("LT_CRUMBS", d);
        }
        if let Some(n) = patience {
            c.env("LT_HANG", n.to_string());
        }
        c.status().unwrap_or_else(|e| harness_error(&format!("explore: {e}")))
    };
    let mut st = run_with(None, None);
    if st.code() == Some(HUNG) {
        let original = load(&hung);
        let mut case = original.clone();
        // reduce with a short limit, then confirm with the full one
        let stop = Instant::now() + std::time::Duration::from_secs(90);
        'reduce: loop {
            for c in candidates(&case) {
                if Instant::now() > stop {
                    break 'reduce;
                }
                write(&hung, &json!({"property": id, "case": c}));
                if shows(id, &hung, Some(4)).is_some() {
                    case = c;
                    continue 'reduce;
                }
            }
            break;
        }
        for case in [case, original] {
            write(&hung, &json!({"property": id, "case": case}));
            // it never ends, or it does and fails
            if let Some(m) = shows(id, &hung, None) {
                let _ = std::fs::remove_file(&hung);
                violation(id, &case, &m);
            }
        }
        let _ = std::fs::remove_file(&hung);
        // the machine was slow, then: once more, with patience
        eprintln!("[{id}] a check did not end, and did when repeated alone; exploring again");
        st = run_with(None, Some(1200));
        if st.code() == Some(HUNG) {
            harness_error("a check did not end, and did when repeated alone");
        }
    }
    if let Some(code) = st.code() {
        std::process::exit(code)
    }
    eprintln!("[{id}] exploration ended by {st}; repeating with breadcrumbs");
    let dir = PathBuf::from(root()).join(format!("replays/crumbs-{id}-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    let st2 = run_with(Some(&dir), None);
    let mut found = None;
    if st2.code().is_none() {
        let mut fs: Vec<_> = std::fs::read_dir(&dir).map(|d| d.flatten().map(|e| e.path()).collect()).unwrap_or_default();
        fs.sort();
        for f in fs {
            if let Some(err) = crashes(id, &f) {
                let mut case = load(&f);
                // reduce, each candidate in its own process
                let probe = dir.join("probe.json");
                let mut budget = 300;
                'outer: loop {
                    for c in candidates(&case) {
                        if budget == 0 {
                            break 'outer;
                        }
                        budget -= 1;
                        write(&probe, &json!({"property": id, "case": c}));
                        if crashes(id, &probe).is_some() {
                            case = c;
                            continue 'outer;
                        }
                    }
                    break;
                }
                let line = err.lines().last().unwrap_or("").to_string();
                found = Some((case, format!("the process was ended abnormally ({st2}) {line}")));
                break;
            }
        }
    }
    for f in std::fs::read_dir(&dir).into_iter().flatten().flatten() {
        let _ = std::fs::remove_file(f.path());
    }
    let _ = std::fs::remove_dir(&dir);
    match found {
        Some((case, m)) => violation(id, &case, &m),
        None => harness_error(&format!("exploration ended by {st}, not reproduced from a single case")),
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.iter().map(|s| s.as_str()).collect::<Vec<_>>()[1..] {
        ["run", id] => parent(id),
        ["explore", id] => child(id),
        ["replay", id, file] => replay(id, file),
        ["forks"] => props::history::serve(),
        ["list"] => props::all().iter().for_each(|p| println!("{}", p.id)),
        _ => harness_error("usage: lt run ID | replay ID FILE | list"),
    }
}
