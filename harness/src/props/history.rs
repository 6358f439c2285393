//! L23: answers depend on the text alone, not on what happened before, on where
//! the text lies, or on what other threads do.
//!
//! The oracle is a process that has done nothing else: a small single-threaded
//! server forks for every question. Every history runs in a fork of its own too,
//! so a case is reproducible whatever was explored before it.

#[path = "../../../confdiff/src/trace.rs"]
pub mod trace;

use super::pairs::reletter;
use crate::case::{Bytes, Case};
use crate::engine::*;
use crate::r#gen::*;
use crate::rfc::{self, Prod};
use crate::types::*;
use langtag::*;
use proptest::prelude::*;
use std::cell::RefCell;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::io::{Read, Write};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::process::{Child, Command, Stdio};
use std::sync::Barrier;

unsafe extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn alarm(seconds: u32) -> u32;
}

/// Everything the crate says about a text and a comparand, owned types included.
fn tell(a: &[u8], b: &[u8]) -> String {
    let mut t = trace::trace(a, b);
    let (Ok(s), Ok(u)) = (std::str::from_utf8(a), std::str::from_utf8(b)) else { return t };
    for p in rfc::ALL {
        crate::per_type!(p, T, B, {
            if let Ok(v) = B::new(s.to_string()) {
                let _ = write!(t, "\nowned {}: {}{:?};", type_name(p), v.as_str(), v);
                let mut h = trace::Fnv(0);
                v.hash(&mut h);
                let _ = write!(t, "{:x};", h.0);
                if let Ok(w) = B::new(u.to_string()) {
                    let _ = write!(t, "{}{:?};", v == w, v.cmp(&w));
                }
            }
        });
    }
    t
}

fn told(a: &[u8], b: &[u8]) -> String {
    catch_unwind(AssertUnwindSafe(|| tell(a, b))).unwrap_or_else(|_| "panicked".into())
}

fn hash(t: &str) -> u64 {
    let mut h = trace::Fnv(0);
    h.write(t.as_bytes());
    h.0
}

/// The comparand of text `i`.
fn other(c: &Case, i: usize) -> &[u8] {
    &c.items[(i + 1) % c.items.len()]
}

/// A few operations; a digest of the answers, which lie within `a` or have no place.
fn touch(a: &[u8], b: &[u8], which: u8) -> u64 {
    let mut h = trace::Fnv(0);
    fn part(h: &mut trace::Fnv, a: &[u8], p: Option<&[u8]>) {
        match p {
            Some(p) => h.write_usize(p.as_ptr() as usize - a.as_ptr() as usize + (p.len() << 32)),
            None => h.write_usize(1),
        }
    }
    let r = catch_unwind(AssertUnwindSafe(|| match which % 4 {
        0 => {
            if let Ok(t) = LangTag::new(a) {
                h.write_u8(t.kind() as u8);
                if !t.is_grandfathered() {
                    part(&mut h, a, t.language().map(|p| p.as_bytes()));
                }
                part(&mut h, a, t.script().map(|p| p.as_bytes()));
                part(&mut h, a, t.region().map(|p| p.as_bytes()));
                part(&mut h, a, t.private_use().map(|p| p.as_bytes()));
            }
        }
        1 => {
            if let Ok(t) = NormalLangTag::new(a) {
                part(&mut h, a, t.script().map(|p| p.as_bytes()));
                part(&mut h, a, t.variants().last().map(|p| p.as_bytes()));
                h.write_usize(t.extensions().iter().take(a.len() + 8).count());
                if let Some(s) = b.first().and_then(|b| Singleton::new(*b).ok()) {
                    part(&mut h, a, t.extensions().get(s).map(|p| p.as_bytes()));
                    part(&mut h, a, t.extensions().iter_extension(s).next().map(|p| p.as_bytes()));
                }
            }
        }
        2 => {
            for p in rfc::ALL {
                crate::per_type!(p, T, B, {
                    if let (Ok(x), Ok(y)) = (T::new(a), T::new(b)) {
                        x.hash(&mut h);
                        h.write_i8(x.cmp(y) as i8);
                        h.write_u8((x == y) as u8);
                    }
                });
            }
        }
        _ => {
            if let Ok(t) = LangTag::new(a) {
                // iterators left in the middle
                let mut v = t.variants().iter();
                part(&mut h, a, v.next().map(|p| p.as_bytes()));
                part(&mut h, a, v.next_back().map(|p| p.as_bytes()));
                part(&mut h, a, t.extensions().iter().next().and_then(|e| e.iter().nth(1)).map(|p| p.as_bytes()));
                part(&mut h, a, t.private_use_subtags().next().map(|p| p.as_bytes()));
                h.write_u8(GrandfatheredLangTag::new(a).is_ok() as u8);
            }
        }
    }));
    h.0 ^ r.is_err() as u64
}

const MODES: [&str; 8] = [
    "in a fresh allocation",
    "at the address of the text before it",
    "at another place of the same buffer",
    "in a thread of its own",
    "in memory never used again",
    "after operations on it and others were left unfinished",
    "after many repetitions",
    "inside an owned value",
];

/// Run the history; the text, the circumstances and the answers that are wrong, if any.
fn history(c: &Case, base: &[u64]) -> Option<(usize, String, String)> {
    let longest = c.items.iter().map(|i| i.len()).max()?;
    let mut buffer = vec![b'-'; longest * 2 + 64];
    let mut second = vec![b'-'; longest + 1];
    for (k, op) in c.ops.chunks(2).enumerate() {
        let [x, m] = *op else { break };
        let i = x as usize % c.items.len();
        let (a, b) = (&c.items[i][..], other(c, i));
        let mut place = |at: usize, f: &mut dyn FnMut(&[u8], &[u8]) -> String| {
            buffer[at..at + a.len()].copy_from_slice(a);
            second[..b.len()].copy_from_slice(b);
            f(&buffer[at..at + a.len()], &second[..b.len()])
        };
        let got = match m % 8 {
            0 => told(&a.to_vec(), &b.to_vec()),
            1 => place(0, &mut |a, b| told(a, b)),
            2 => place((m as usize >> 3) + 1, &mut |a, b| told(a, b)),
            3 => std::thread::scope(|s| s.spawn(|| told(a, b)).join()).unwrap_or_default(),
            4 => told(a.to_vec().leak(), b.to_vec().leak()),
            5 => place(0, &mut |a, b| {
                touch(a, b, m >> 3);
                touch(b, a, m >> 4);
                told(a, b)
            }),
            6 => place(0, &mut |a, b| {
                let first = touch(a, b, m >> 3);
                for r in 1..1u32 << (m >> 3).min(17) {
                    if touch(a, b, m >> 3) != first {
                        return format!("another answer at repetition {r}");
                    }
                }
                told(a, b)
            }),
            _ => match std::str::from_utf8(a).ok().and_then(|s| LangTagBuf::new(s.to_string()).ok()) {
                Some(o) => told(o.as_bytes(), b),
                None => told(a, &b.to_vec()),
            },
        };
        if hash(&got) != base[i] {
            return Some((i, format!("step {} of the history, {}", k + 1, MODES[m as usize % 8]), got));
        }
    }
    // the same texts, from several threads at once
    let threads = (c.n % 5) as usize;
    if threads >= 2 {
        let start = Barrier::new(threads);
        let start = &start;
        let wrong = std::thread::scope(|s| {
            let hs: Vec<_> = (0..threads)
                .map(|t| {
                    s.spawn(move || {
                        let n = c.items.len();
                        let mut own = vec![b'-'; longest];
                        start.wait();
                        for r in 0..12 * n {
                            let i = (r * (t + 1) + t) % n;
                            let (a, b) = (&c.items[i][..], other(c, i));
                            let got = if r % 2 == 0 {
                                told(a, b)
                            } else {
                                own[..a.len()].copy_from_slice(a);
                                told(&own[..a.len()], b)
                            };
                            if hash(&got) != base[i] {
                                return Some((i, got));
                            }
                        }
                        // short operations meet more often
                        for r in 0..40 * n {
                            let i = (r + t) % n;
                            let (a, b) = (&c.items[i][..], other(c, i));
                            for which in 0..4 {
                                let first = touch(a, b, which);
                                if (0..8).any(|_| touch(a, b, which) != first) {
                                    return Some((i, "another answer at a repetition".to_string()));
                                }
                            }
                        }
                        None
                    })
                })
                .collect();
            hs.into_iter().filter_map(|h| h.join().unwrap_or(None)).next()
        });
        if let Some((i, got)) = wrong {
            return Some((i, format!("{threads} threads at once"), got));
        }
    }
    None
}

// ------------------------------------------------------------ the server

fn read_frame(r: &mut impl Read) -> Option<Vec<u8>> {
    let mut n = [0; 4];
    r.read_exact(&mut n).ok()?;
    let mut v = vec![0; u32::from_le_bytes(n) as usize];
    r.read_exact(&mut v).ok()?;
    Some(v)
}
fn write_frame(w: &mut impl Write, v: &[u8]) -> Option<()> {
    w.write_all(&(v.len() as u32).to_le_bytes()).ok()?;
    w.write_all(v).ok()?;
    w.flush().ok()
}

fn answer(q: &serde_json::Value) -> serde_json::Value {
    let c: Case = serde_json::from_value(q["case"].clone()).unwrap();
    match q["q"].as_str() {
        Some("digests") => {
            // only ever one text per fork
            serde_json::json!(hash(&told(&c.a, &c.b)))
        }
        Some("text") => serde_json::json!(told(&c.a, &c.b)),
        _ => {
            let base: Vec<u64> = serde_json::from_value(q["base"].clone()).unwrap();
            match history(&c, &base) {
                Some(w) => serde_json::json!([w.0, w.1, w.2]),
                None => serde_json::Value::Null,
            }
        }
    }
}

/// `lt forks`: every request is answered by a fork of this process.
pub fn serve() -> ! {
    std::panic::set_hook(Box::new(|_| {}));
    let (mut i, mut o) = (std::io::stdin(), std::io::stdout());
    while let Some(q) = read_frame(&mut i) {
        match unsafe { fork() } {
            0 => {
                unsafe { alarm(60) };
                let q: serde_json::Value = serde_json::from_slice(&q).unwrap();
                let a = answer(&q).to_string();
                let ok = write_frame(&mut o, a.as_bytes()).is_some();
                unsafe { _exit(if ok { 0 } else { 3 }) }
            }
            -1 => std::process::exit(2),
            pid => {
                let mut status = 0;
                unsafe { waitpid(pid, &mut status, 0) };
                if status != 0 {
                    let _ = write_frame(&mut o, serde_json::json!({ "died": status }).to_string().as_bytes());
                }
            }
        }
    }
    std::process::exit(0)
}

struct Server(Child);
impl Server {
    fn new() -> Server {
        let me = std::env::current_exe().unwrap_or_else(|e| harness_error(&format!("own path: {e}")));
        let c = Command::new(me)
            .arg("forks")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .unwrap_or_else(|e| harness_error(&format!("forks: {e}")));
        Server(c)
    }
    fn ask(&mut self, q: serde_json::Value) -> Result<serde_json::Value, String> {
        let r = write_frame(self.0.stdin.as_mut().unwrap(), q.to_string().as_bytes())
            .and_then(|_| read_frame(self.0.stdout.as_mut().unwrap()));
        let Some(r) = r else { harness_error("the fork server ended") };
        let v: serde_json::Value =
            serde_json::from_slice(&r).unwrap_or_else(|e| harness_error(&format!("fork server: {e}")));
        match v["died"].as_i64() {
            Some(14) => Err("the operations do not end".into()),
            Some(n) => Err(format!("the process was ended abnormally (status {n})")),
            None => Ok(v),
        }
    }
}
impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.0.kill();
        let _ = self.0.wait();
    }
}

thread_local! {
    static SERVER: RefCell<Option<(Server, HashMap<(Bytes, Bytes), u64>)>> = const { RefCell::new(None) };
}

fn l23(c: &Case) -> Result<Verdict, String> {
    if c.items.is_empty() {
        return Ok(Verdict::Skip("no text"));
    }
    SERVER.with_borrow_mut(|s| {
        let (server, known) = s.get_or_insert_with(|| (Server::new(), HashMap::new()));
        let mut base = vec![];
        let alone = |a: &[u8], b: &[u8]| Case::new(a.to_vec()).b(b.to_vec());
        for i in 0..c.items.len() {
            let (a, b) = (&c.items[i], other(c, i));
            let key = (a.clone(), Bytes::from(b.to_vec()));
            base.push(match known.get(&key) {
                Some(d) => *d,
                None => {
                    let d = server
                        .ask(serde_json::json!({"q": "digests", "case": alone(a, b)}))
                        .map_err(|e| format!("{:?} alone: {e}", show(a)))?;
                    let d = d.as_u64().unwrap_or_else(|| harness_error("fork server: no digest"));
                    if known.len() < 200_000 {
                        known.insert(key, d);
                    }
                    d
                }
            });
        }
        let r = server.ask(serde_json::json!({"case": c, "base": base}))?;
        if let (Some(i), Some(how), Some(now)) = (r[0].as_u64(), r[1].as_str(), r[2].as_str()) {
            let (a, b) = (&c.items[i as usize], other(c, i as usize));
            let fresh = server.ask(serde_json::json!({"q": "text", "case": alone(a, b)}))?;
            let fresh = fresh.as_str().unwrap_or("");
            let at = fresh.bytes().zip(now.bytes()).take_while(|(x, y)| x == y).count();
            let cut = |s: &str| {
                let from = s[..at.min(s.len())].rfind([';', '\n', '|']).map_or(0, |i| i + 1);
                s[from..].chars().take(60).collect::<String>()
            };
            return Err(format!(
                "{:?}, {how}: the answers differ from those of a fresh process (\"{}\" against \"{}\")",
                show(a),
                cut(now),
                cut(fresh)
            ));
        }
        let repeated = c.ops.chunks(2).any(|o| o.len() == 2 && o[1] % 8 == 6);
        let distinct = c.items.iter().collect::<std::collections::HashSet<_>>().len();
        let live = c.items.iter().filter(|i| rfc::ALL.iter().any(|p| rfc::matches(*p, i))).count();
        Ok(pass(
            live >= 1 && (distinct >= 2 || repeated),
            match (c.n % 5 >= 2, repeated) {
                (true, _) => "history and threads",
                (false, true) => "history with repetitions",
                (false, false) => "history",
            },
        ))
    })
}

fn check_l23(c: &Case) -> Verdict {
    l23(c).into()
}

// ------------------------------------------------------------ generators

/// Texts of the same length as `a`, one of them re-spelled, others relettered or edited.
fn cousins(p: Prod, a: &[u8], salt: u64, n: usize) -> Vec<Vec<u8>> {
    (0..n as u64)
        .map(|k| {
            let m = mix(&[salt, k]);
            let mut t = match m % 4 {
                0 => recase(a, m >> 8),
                1 | 2 => reletter(p, a, m >> 8),
                _ => a.to_vec(),
            };
            if m % 4 == 3 && !t.is_empty() {
                let i = (m >> 8) as usize % t.len();
                t[i] = b"ax1-z"[(m >> 40) as usize % 5];
            }
            t
        })
        .collect()
}

fn random() -> BoxedStrategy<Case> {
    let text = prop_oneof![
        4 => prod().prop_flat_map(|p| prop_oneof![5 => valid(p), 2 => near(p), 1 => input(p)].prop_map(move |s| (p, s))),
        2 => grandfathered().prop_map(|s| (Prod::LanguageTag, s)),
        2 => normal_tag().prop_map(|s| (Prod::Langtag, s)),
    ];
    (
        prop::collection::vec((text, any::<u64>(), 0usize..4), 1..4),
        prop::collection::vec((any::<u8>(), prop_oneof![6 => Just(1u8), 5 => any::<u8>()]), 2..24),
        prop_oneof![5 => Just(0u64), 1 => 2u64..5],
    )
        .prop_map(|(families, ops, n)| {
            let mut items: Vec<Bytes> = vec![];
            for ((p, a), salt, k) in families {
                items.extend(cousins(p, &a, salt, k).into_iter().map(Bytes::from));
                items.push(a.into());
            }
            items.retain(|i| i.len() < 3000);
            let mut budget = 1u32 << 10;
            let ops = ops
                .into_iter()
                .flat_map(|(x, m)| {
                    // many repetitions are rare: they cost
                    let reps = 1u32 << (m >> 3).min(17);
                    let m = if m % 8 == 6 && reps > budget { 8 * (m >> 3 & 7) + 6 } else { m };
                    budget = budget.saturating_sub(if m % 8 == 6 { reps } else { 0 });
                    [x, m]
                })
                .collect();
            Case { items, ops, n, ..Case::new("") }
        })
        .boxed()
}

/// Grandfathered tags and their same-length neighbours, one after another at one address.
fn grandfathered_turns(a: &EnumArgs, sink: &mut Sink) {
    let mut n = 0;
    for (i, (t, _)) in rfc::GRANDFATHERED.iter().enumerate() {
        for (u, _) in rfc::GRANDFATHERED.iter().skip(i) {
            n += 1;
            if !a.mine(n) {
                continue;
            }
            let mut items: Vec<Bytes> = vec![t.to_string().into_bytes().into(), u.to_string().into_bytes().into()];
            for k in 0..3 {
                for s in [t, u] {
                    items.push(cousins(Prod::LanguageTag, s.as_bytes(), mix(&[a.seed, n as u64, k]), 1).remove(0).into());
                }
            }
            // there and back, so that each follows each of the others
            let mut ops = vec![];
            for x in 0..items.len() as u8 {
                for y in 0..items.len() as u8 {
                    ops.extend([x, 1, y, 1]);
                }
            }
            if !sink(Case { items, ops, n: (n as u64 / 8) % 8, ..Case::new("") }) {
                return;
            }
        }
    }
}

/// The same operation up to 131,072 times before the question.
fn repetitions(a: &EnumArgs, sink: &mut Sink) {
    let texts: [&[u8]; 8] = [
        b"en",
        b"zh-min-nan",
        b"x-private-use",
        b"de-latn-de-1901-a-bb-cc-b-dd-x-yy-zz",
        b"zh-cmn-yue-nan-hans-cn-variant1-variant2-u-co-phonebk",
        b"sgn-BE-FR",
        b"a-bb-cc",
        b"a1b2c3d4-1a2b",
    ];
    let mut n = 0;
    for (i, t) in texts.iter().enumerate() {
        for which in 0..4u8 {
            n += 1;
            if !a.mine(n) {
                continue;
            }
            let items: Vec<Bytes> = vec![t.to_vec().into(), recase(t, u64::MAX).into(), texts[(i + 1) % 8].to_vec().into()];
            // 2^17 when the count allows, the operation chosen by its low bits
            let many = if a.thorough { 20 } else { 16 } + which;
            let ops = vec![0, 1, 0, 8 * many + 6, 1, 1, 2, 0, 0, 0];
            if !sink(Case { items, ops, ..Case::new("") }) {
                return;
            }
        }
    }
}

/// Every mode after every mode, on texts of every type.
fn mode_pairs(a: &EnumArgs, sink: &mut Sink) {
    let mut r = runner(mix(&[a.seed, a.shard as u64, 23]));
    let mut n = 0;
    for p in rfc::ALL {
        let strategy = valid(p);
        for x in 0..8u8 {
            for y in 0..8u8 {
                n += 1;
                if !a.mine(n) {
                    continue;
                }
                let mut new = || loop {
                    let s = tree(&strategy, &mut r);
                    if s.len() < 3000 {
                        return s;
                    }
                };
                let (s, t) = (new(), new());
                let mut items: Vec<Bytes> = vec![s.clone().into(), t.into()];
                items.extend(cousins(p, &s, mix(&[n as u64, a.seed]), 2).into_iter().map(Bytes::from));
                let ops = vec![0, x, 1, y, 2, x, 3, y, 0, y, 2, y, 3, x, 1, x, 0, 8 + y, 2, 16 + x];
                if !sink(Case { items, ops, n: n as u64 % 5, ..Case::new("") }) {
                    return;
                }
            }
        }
    }
}

fn tree(s: &BoxedStrategy<Seg>, r: &mut proptest::test_runner::TestRunner) -> Vec<u8> {
    use proptest::strategy::ValueTree;
    s.new_tree(r).unwrap_or_else(|e| harness_error(&e.to_string())).current()
}

fn campaigns(t: bool) -> Vec<Campaign> {
    let k = if t { 20 } else { 1 };
    vec![
        Campaign { name: "grandfathered tags and neighbours, in turns at one address", r#gen: Gen::Enum(grandfathered_turns) },
        Campaign { name: "repetitions", r#gen: Gen::Enum(repetitions) },
        Campaign { name: "every way of placing a text after every other", r#gen: Gen::Enum(mode_pairs) },
        Campaign { name: "random histories", r#gen: Gen::Random(random, 20_000 * k) },
    ]
}

pub static L23: Property = Property {
    hang: 240,
    id: "L23",
    rule: "histories: up to 24 questions (everything the API says about a text and a comparand) on up to 12 texts, many of the same length, placed at one reused address, elsewhere, in fresh memory, in other threads, inside owned values, after unfinished iterations and after up to 131,072 repetitions, then from up to four threads at once; each history in a process of its own, each answer compared with that of a process that did nothing before. Non-trivial: at least one text some type accepts, and two different texts or repetitions; distinct by the whole history.",
    check: check_l23,
    campaigns,
    assumptions: &["thread interleavings are those the scheduler produces", "a fresh process's answers are judged by the other properties"],
};
