//! Campaign driver: sharded deterministic generation, statistics, shrinking,
//! replay files and evidence.

use crate::case::Case;
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use std::collections::{BTreeMap, HashSet};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Instant;

pub const SHARDS: usize = 8;
/// Stack of an exploring worker.
pub const STACK: usize = 8 << 20;

/// Outcome of one check of one case.
pub enum Verdict {
    /// The property held; is the case non-trivial by the property's rule, and its class.
    Pass { nontrivial: bool, class: &'static str },
    /// A case made of many items, each counted.
    Many(Many),
    /// The case is outside the property's domain on this tree.
    Skip(&'static str),
    Fail(String),
}

#[derive(Default)]
pub struct Many {
    pub evaluations: u64,
    pub nontrivial: Vec<u64>,
    pub classes: BTreeMap<&'static str, u64>,
}
impl Many {
    /// One item; the hash of its content if non-trivial.
    pub fn put(&mut self, nontrivial: Option<u64>, class: &'static str) {
        self.evaluations += 1;
        self.nontrivial.extend(nontrivial);
        *self.classes.entry(class).or_insert(0) += 1;
    }
}

pub fn pass(nontrivial: bool, class: &'static str) -> Verdict {
    Verdict::Pass { nontrivial, class }
}

impl From<Result<Verdict, String>> for Verdict {
    fn from(r: Result<Verdict, String>) -> Self {
        match r {
            Ok(v) => v,
            Err(m) => Verdict::Fail(m),
        }
    }
}

pub type Sink<'a> = dyn FnMut(Case) -> bool + 'a;

/// Texts that enumerations compared without making cases of them.
static SCREENED: AtomicU64 = AtomicU64::new(0);

pub fn screened() {
    thread_local!(static N: std::cell::Cell<u64> = const { std::cell::Cell::new(0) });
    // in batches: the counter is shared
    N.with(|n| {
        n.set(n.get() + 1);
        if n.get() == 1024 {
            n.set(0);
            SCREENED.fetch_add(1024, Ordering::Relaxed);
        }
    })
}

pub struct EnumArgs {
    pub shard: usize,
    pub shards: usize,
    pub seed: u64,
    pub thorough: bool,
}

impl EnumArgs {
    pub fn mine(&self, i: usize) -> bool {
        i % self.shards == self.shard
    }
}

pub enum Gen {
    /// proptest strategy and total number of cases
    Random(fn() -> BoxedStrategy<Case>, u64),
    /// deterministic enumeration; the sink returns false to stop
    Enum(fn(&EnumArgs, &mut Sink)),
}

pub struct Campaign {
    pub name: &'static str,
    pub r#gen: Gen,
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub check: fn(&Case) -> Verdict,
    /// half-seconds before a check counts as never ending
    pub hang: u32,
    pub campaigns: fn(thorough: bool) -> Vec<Campaign>,
    pub assumptions: &'static [&'static str],
}

/// An error of the machinery itself (never a violation).
pub fn harness_error(msg: &str) -> ! {
    eprintln!("HARNESS-ERROR: {msg}");
    std::process::exit(2)
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn silence_panics() {
    std::panic::set_hook(Box::new(|info| {
        LAST_PANIC.with(|p| *p.borrow_mut() = info.to_string().replace('\n', " "));
    }));
}

/// What the workers are doing now, for the watchdog.
mod watch {
    use super::*;
    use std::sync::atomic::{AtomicBool, AtomicPtr, AtomicU64, AtomicUsize, Ordering::SeqCst};

    const N: usize = 4096;
    struct Slot {
        case: AtomicPtr<Case>,
        /// odd while a check is running
        seq: AtomicU64,
    }
    static SLOTS: [Slot; N] = [const { Slot { case: AtomicPtr::new(std::ptr::null_mut()), seq: AtomicU64::new(0) } }; N];
    static USED: AtomicUsize = AtomicUsize::new(0);
    static HALT: AtomicBool = AtomicBool::new(false);

    thread_local! {
        static MINE: usize = USED.fetch_add(1, SeqCst);
    }

    pub struct Running(usize);

    pub fn enter(c: &Case) -> Running {
        let i = MINE.with(|m| *m);
        if i < N {
            SLOTS[i].case.store(c as *const Case as *mut Case, SeqCst);
            SLOTS[i].seq.fetch_add(1, SeqCst);
        }
        Running(i)
    }

    impl Drop for Running {
        fn drop(&mut self) {
            if self.0 < N {
                SLOTS[self.0].seq.fetch_add(1, SeqCst);
                // the watchdog may be reading the case
                while HALT.load(SeqCst) {
                    std::thread::sleep(std::time::Duration::from_millis(5));
                }
            }
        }
    }

    /// Wait until one check has been running for `limit` of this thread's ticks.
    /// Ticks are counted, not timed: a suspended process does not age.
    pub fn wait(limit: u32) -> Case {
        let mut seen = vec![(0u64, 0u32); N];
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            for i in 0..USED.load(SeqCst).min(N) {
                let q = SLOTS[i].seq.load(SeqCst);
                if q % 2 == 0 || q != seen[i].0 {
                    seen[i] = (q, 0);
                    continue;
                }
                seen[i].1 += 1;
                if seen[i].1 > limit {
                    HALT.store(true, SeqCst);
                    if SLOTS[i].seq.load(SeqCst) == q {
                        // still inside the check, and unable to leave it: the case is alive
                        let c = unsafe { (*SLOTS[i].case.load(SeqCst)).clone() };
                        HALT.store(false, SeqCst);
                        return c;
                    }
                    HALT.store(false, SeqCst);
                }
            }
        }
    }
}

/// Half-seconds one check may take before it counts as never ending. Nothing in
/// the library takes a millisecond; L18 and L19 run compilers inside a check.
pub fn hang_limit(p: &Property) -> u32 {
    match std::env::var("LT_HANG").ok().and_then(|s| s.parse().ok()) {
        Some(n) => n,
        None => p.hang,
    }
}

/// Call `f` with the case of the first check that does not end.
pub fn watchdog(p: &'static Property, f: impl FnOnce(Case) + Send + 'static) {
    let limit = hang_limit(p);
    std::thread::spawn(move || f(watch::wait(limit)));
}

pub fn run_check(p: &Property, c: &Case) -> Verdict {
    let _running = watch::enter(c);
    match catch_unwind(AssertUnwindSafe(|| (p.check)(c))) {
        Ok(v) => v,
        Err(_) => panicked(last_panic(), c),
    }
}

/// The message of this thread's last panic.
pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

pub fn panicked(m: String, c: &Case) -> Verdict {
    if m.contains("/harness/src/") || m.contains("panicked at src/") && !m.contains("/repo/") {
        // the harness's own code panicked: an error of the check
        harness_error(&format!("{m} on {}", serde_json::to_string(c).unwrap()));
    }
    Verdict::Fail(format!("panic: {m}"))
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub skipped: BTreeMap<&'static str, u64>,
    pub classes: BTreeMap<&'static str, u64>,
    pub nontrivial: HashSet<u64>,
    pub samples: Vec<(u64, Case)>,
    pub max_len: usize,
}

impl Stats {
    fn record(&mut self, c: &Case, v: &Verdict) {
        if !matches!(v, Verdict::Many(_)) {
            self.evaluations += 1;
        }
        self.max_len = self.max_len.max(c.size());
        match v {
            Verdict::Pass { nontrivial, class } => {
                let n = self.classes.entry(class).or_insert(0);
                *n += 1;
                if *nontrivial {
                    let h = c.hash64();
                    self.nontrivial.insert(h);
                    // spread samples over the run: powers of two per class
                    if n.is_power_of_two() && self.samples.len() < 400 && c.size() < 200 {
                        self.samples.push((h, c.clone()));
                    }
                }
            }
            Verdict::Many(m) => {
                self.evaluations += m.evaluations;
                self.nontrivial.extend(&m.nontrivial);
                for (k, n) in &m.classes {
                    *self.classes.entry(k).or_insert(0) += n;
                }
                // a sample of the items stands for the batch
                for (i, item) in c.items.iter().enumerate().step_by(97) {
                    if self.samples.len() < 400 && item.len() < 200 {
                        let one = Case { items: vec![item.clone()], ..c.clone() };
                        self.samples.push((one.hash64() ^ i as u64, one));
                    }
                }
            }
            Verdict::Skip(r) => *self.skipped.entry(r).or_insert(0) += 1,
            Verdict::Fail(_) => {}
        }
    }
    fn merge(&mut self, o: Stats) {
        self.evaluations += o.evaluations;
        self.max_len = self.max_len.max(o.max_len);
        for (k, v) in o.classes {
            *self.classes.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.skipped {
            *self.skipped.entry(k).or_insert(0) += v;
        }
        self.nontrivial.extend(o.nontrivial);
        self.samples.extend(o.samples);
    }
}

pub fn mix(parts: &[u64]) -> u64 {
    let mut x = 0x9e3779b97f4a7c15u64;
    for p in parts {
        x = (x ^ p).wrapping_mul(0xbf58476d1ce4e5b9);
        x ^= x >> 27;
        x = x.wrapping_mul(0x94d049bb133111eb);
        x ^= x >> 31;
    }
    x
}

fn strhash(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

pub fn runner(seed: u64) -> TestRunner {
    let mut bytes = [0u8; 32];
    for i in 0..4 {
        bytes[i * 8..i * 8 + 8].copy_from_slice(&mix(&[seed, i as u64]).to_le_bytes());
    }
    let cfg = Config { failure_persistence: None, ..Config::default() };
    TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &bytes))
}

/// Run one shard of a campaign; the first failure (shrunk by proptest when random).
fn shard(
    p: &Property,
    c: &Campaign,
    sh: usize,
    seed: u64,
    thorough: bool,
    known: &[KnownFinding],
) -> (Stats, Option<(Case, String)>) {
    let mut st = Stats::default();
    let crumb = std::env::var("LT_CRUMBS").ok().map(|d| format!("{d}/{sh}.json"));
    let leave = |case: &Case| {
        if let Some(f) = &crumb {
            let _ = std::fs::write(f, serde_json::json!({"property": p.id, "case": case}).to_string());
        }
    };
    // a listed finding is reported once by the caller and passed over here
    let run_check = |p: &Property, case: &Case| -> Verdict {
        leave(case);
        match run_check(p, case) {
            Verdict::Fail(_) if known.iter().any(|k| k.case == *case) => Verdict::Skip("known finding"),
            v => v,
        }
    };
    let s = mix(&[seed, strhash(p.id), strhash(c.name), sh as u64]);
    match c.r#gen {
        Gen::Enum(f) => {
            let mut fail = None;
            let args = EnumArgs { shard: sh, shards: SHARDS, seed, thorough };
            f(&args, &mut |case: Case| {
                let v = run_check(p, &case);
                st.record(&case, &v);
                if let Verdict::Fail(m) = v {
                    fail = Some((case, m));
                    return false;
                }
                true
            });
            (st, fail)
        }
        Gen::Random(strategy, cases) => {
            let n = cases.div_ceil(SHARDS as u64);
            let strategy = strategy();
            let mut r = runner(s);
            for _ in 0..n {
                let mut tree = match strategy.new_tree(&mut r) {
                    Ok(t) => t,
                    Err(e) => harness_error(&format!("generator {}: {e}", c.name)),
                };
                let case = tree.current();
                let v = run_check(p, &case);
                st.record(&case, &v);
                if let Verdict::Fail(mut m) = v {
                    // proptest's own shrinking
                    let mut best = case;
                    let mut steps = 0;
                    let mut go = tree.simplify();
                    while go && steps < 5000 {
                        steps += 1;
                        let cur = tree.current();
                        if let Verdict::Fail(m2) = run_check(p, &cur) {
                            best = cur;
                            m = m2;
                            go = tree.simplify();
                        } else {
                            go = tree.complicate();
                        }
                    }
                    return (st, Some((best, m)));
                }
            }
            (st, None)
        }
    }
}

/// Greedy structural shrinking on the case itself.
pub fn shrink(p: &Property, mut best: Case, mut msg: String) -> (Case, String) {
    let mut budget = 20_000;
    let deadline = Instant::now() + std::time::Duration::from_secs(90);
    loop {
        let mut improved = false;
        for cand in candidates(&best) {
            if budget == 0 || Instant::now() > deadline {
                return (best, msg);
            }
            budget -= 1;
            if let Verdict::Fail(m) = run_check(p, &cand) {
                best = cand;
                msg = m;
                improved = true;
                break;
            }
        }
        if !improved {
            return (best, msg);
        }
    }
}

fn shrink_bytes(v: &[u8]) -> Vec<Vec<u8>> {
    let mut out: Vec<Vec<u8>> = Vec::new();
    let n = v.len();
    let mut step = n / 2;
    while step >= 1 {
        let mut i = 0;
        while i + step <= n {
            let mut w = v[..i].to_vec();
            w.extend_from_slice(&v[i + step..]);
            out.push(w);
            i += step;
        }
        step /= 2;
    }
    // drop whole segments
    let segs: Vec<&[u8]> = v.split(|b| *b == b'-').collect();
    if segs.len() > 1 && segs.len() < 64 {
        for i in 0..segs.len() {
            let mut s = segs.clone();
            s.remove(i);
            out.push(s.join(&b'-'));
        }
    }
    if n <= 200 {
        for i in 0..n {
            let to = match v[i] {
                b'b'..=b'z' => b'a',
                b'A'..=b'Z' => v[i] + 32,
                b'1'..=b'9' => b'0',
                _ => continue,
            };
            let mut w = v.to_vec();
            w[i] = to;
            out.push(w);
        }
    }
    out
}

pub fn candidates(c: &Case) -> Vec<Case> {
    let mut out = Vec::new();
    for w in shrink_bytes(&c.a) {
        out.push(Case { a: w.into(), ..c.clone() });
    }
    // the same deletion in both, keeping pairs related
    if c.a.len() == c.b.len() {
        for (x, y) in shrink_bytes(&c.a).into_iter().zip(shrink_bytes(&c.b)) {
            if x.len() == y.len() && x.len() < c.a.len() {
                out.push(Case { a: x.into(), b: y.into(), ..c.clone() });
            }
        }
    }
    for w in shrink_bytes(&c.b) {
        out.push(Case { b: w.into(), ..c.clone() });
    }
    for w in shrink_bytes(&c.c) {
        out.push(Case { c: w.into(), ..c.clone() });
    }
    let n = c.items.len();
    let mut step = n / 2;
    while step >= 1 {
        for i in (0..n).step_by(step) {
            let mut d = c.clone();
            d.items.drain(i..(i + step).min(n));
            out.push(d);
        }
        step /= 2;
    }
    if n == 1 {
        let mut d = c.clone();
        d.items.remove(0);
        out.push(d);
    }
    for i in 0..c.items.len().min(20) {
        for w in shrink_bytes(&c.items[i]) {
            let mut d = c.clone();
            d.items[i] = w.into();
            out.push(d);
        }
    }
    for w in 0..c.ops.len() {
        let mut d = c.clone();
        d.ops.remove(w);
        out.push(d);
    }
    for w in 0..c.ops.len() {
        if c.ops[w] != 0 {
            let mut d = c.clone();
            d.ops[w] = 0;
            out.push(d);
        }
    }
    if c.n > 0 {
        out.push(Case { n: 0, ..c.clone() });
        out.push(Case { n: c.n / 2, ..c.clone() });
        out.push(Case { n: c.n - 1, ..c.clone() });
    }
    out
}

/// Merge known-size `items` order: used by checks that need a PRNG-free choice.
pub fn pick<T: Copy>(v: &[T], n: u64) -> T {
    v[(n % v.len() as u64) as usize]
}

pub struct KnownFinding {
    pub property: String,
    pub case: Case,
    pub what: String,
}

/// `known_findings.txt`: a JSON line {"property","case","what"} lists a finding,
/// identified by its exact case; a line "fixed: property=<id> <commit> <what>"
/// records a repair and suppresses nothing.
pub fn known_findings(root: &str, id: &str) -> Vec<KnownFinding> {
    let text = std::fs::read_to_string(format!("{root}/known_findings.txt")).unwrap_or_default();
    let mut out = Vec::new();
    for l in text.lines().map(str::trim) {
        if l.is_empty() || l.starts_with('#') || l.starts_with("fixed:") {
            continue;
        }
        let v: serde_json::Value = match serde_json::from_str(l) {
            Ok(v) => v,
            Err(e) => harness_error(&format!("known_findings.txt: {e}")),
        };
        if v["property"] == id && v.get("case").is_some() {
            out.push(KnownFinding {
                property: id.into(),
                case: serde_json::from_value(v["case"].clone())
                    .unwrap_or_else(|e| harness_error(&format!("known_findings.txt: {e}"))),
                what: v["what"].as_str().unwrap_or("").into(),
            });
        }
    }
    out
}

pub struct Report {
    pub stats: Stats,
    pub per_campaign: Vec<serde_json::Value>,
    pub failure: Option<(Case, String)>,
}

pub fn explore(p: &'static Property, seed: u64, thorough: bool, known: &[KnownFinding]) -> Report {
    let mut total = Stats::default();
    let mut per = Vec::new();
    // a divisor of the budgets, for evaluating the checks themselves
    let scale: u64 = std::env::var("LT_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1).max(1);
    for mut c in (p.campaigns)(thorough) {
        if scale > 1 && c.name.contains("long ") {
            continue;
        }
        if let Gen::Random(_, n) = &mut c.r#gen {
            *n /= scale;
        }
        let t = Instant::now();
        let results: Vec<(Stats, Option<(Case, String)>)> = std::thread::scope(|s| {
            let c = &c;
            let hs: Vec<_> = (0..SHARDS)
                .map(|i| {
                    std::thread::Builder::new()
                        .stack_size(STACK)
                        .spawn_scoped(s, move || shard(p, c, i, seed, thorough, known))
                        .unwrap()
                })
                .collect();
            hs.into_iter()
                .map(|h| h.join().unwrap_or_else(|_| harness_error("worker panicked outside a check (a generator)")))
                .collect()
        });
        let mut fail: Option<(Case, String)> = None;
        let (mut ev, mut nt) = (0, 0);
        for (st, f) in results {
            ev += st.evaluations;
            nt += st.nontrivial.len();
            total.merge(st);
            if fail.is_none() {
                fail = f;
            }
        }
        per.push(serde_json::json!({
            "campaign": c.name, "evaluations": ev, "distinct_nontrivial_per_shard_sum": nt,
            "wall_s": (t.elapsed().as_millis() as f64) / 1000.0,
        }));
        let n = SCREENED.swap(0, Ordering::Relaxed);
        if n > 0 {
            per.last_mut().unwrap()["screened_without_making_a_case"] = n.into();
        }
        eprintln!("[{}] {}: {} cases in {:.1}s", p.id, c.name, ev, t.elapsed().as_secs_f64());
        if let Some((case, m)) = fail {
            let (case, m) = shrink(p, case, m);
            return Report { stats: total, per_campaign: per, failure: Some((case, m)) };
        }
    }
    Report { stats: total, per_campaign: per, failure: None }
}
