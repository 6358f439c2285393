//! L18: the borrowed API behaves identically with and without std and serde, in debug
//! and in release builds.
//!
//! `confdiff` is one program, built against the crate under each of the four
//! feature combinations, and in debug and release builds; every worker keeps one
//! process of each running, sends every case to all and compares what they answer.

use super::pairs::*;
use crate::case::Case;
use crate::engine::*;
use crate::r#gen::*;
use crate::rfc::{self, Prod};
use crate::types::*;
use proptest::prelude::*;
use std::cell::RefCell;
use std::io::{Read, Write};
use std::path::PathBuf;
use std::process::{Child, Command, Stdio};
use std::sync::OnceLock;

/// The first lines two traces differ in.
pub fn difference(x: &str, y: &str) -> (String, String) {
    let k = x.bytes().zip(y.bytes()).take_while(|(a, b)| a == b).count();
    let from = x.as_bytes()[..k].iter().rposition(|b| *b == b'\n').map_or(0, |n| n + 1);
    let part = |t: &str| t.get(from..).unwrap_or("").lines().next().unwrap_or("").chars().take(400).collect::<String>();
    (part(x), part(y))
}

/// Directory, features, cargo profile: the release builds have neither debug assertions
/// nor overflow checks, the debug builds have both.
const COMBOS: [(&str, &str, &str); 6] = [
    ("none", "", "release"),
    ("std", "std", "release"),
    ("serde", "serde", "release"),
    ("std-serde", "std serde", "release"),
    ("none-debug", "", "dev"),
    ("std-serde-debug", "std serde", "dev"),
];

fn combo(i: usize) -> String {
    format!("features [{}]{}", COMBOS[i].1, if COMBOS[i].2 == "dev" { " in a debug build" } else { "" })
}

pub fn root() -> String {
    std::env::var("LT_ROOT").unwrap_or_else(|_| {
        let d = std::path::Path::new(env!("CARGO_MANIFEST_DIR")).parent().unwrap();
        d.to_str().unwrap().to_string()
    })
}

fn build(i: usize) -> Result<PathBuf, String> {
    let (name, features, profile) = COMBOS[i];
    let target = PathBuf::from(root()).join("target/conf-".to_string() + name);
    let o = Command::new("cargo")
        .args(["build", "--offline", "--profile", profile, "--locked", "--message-format=short", "--features", features])
        .arg("--manifest-path")
        .arg(PathBuf::from(root()).join("confdiff/Cargo.toml"))
        .env("CARGO_TARGET_DIR", &target)
        .stdin(Stdio::null())
        .output()
        .unwrap_or_else(|e| harness_error(&format!("cargo: {e}")));
    if o.status.success() {
        return Ok(target.join(if profile == "dev" { "debug" } else { "release" }).join("confdiff"));
    }
    let err = String::from_utf8_lossy(&o.stderr).to_string();
    let line = err.lines().find(|l| l.contains("error")).unwrap_or("unknown error").to_string();
    Err(line)
}

fn programs() -> &'static Vec<Result<PathBuf, String>> {
    static P: OnceLock<Vec<Result<PathBuf, String>>> = OnceLock::new();
    P.get_or_init(|| {
        let v: Vec<_> = std::thread::scope(|s| {
            let h: Vec<_> = (0..COMBOS.len()).map(|i| s.spawn(move || build(i))).collect();
            h.into_iter().map(|h| h.join().unwrap()).collect()
        });
        if v.iter().all(|r: &Result<PathBuf, String>| r.is_err()) {
            harness_error(&format!("confdiff builds in no configuration: {}", v[0].as_ref().unwrap_err()));
        }
        v
    })
}

/// A process answering requests (`confdiff`), and how to start it.
pub struct Proc {
    command: Box<dyn Fn() -> Command>,
    child: Child,
}

impl Proc {
    pub fn spawn(command: impl Fn() -> Command + 'static) -> Proc {
        let command: Box<dyn Fn() -> Command> = Box::new(command);
        let child = Self::start(&*command);
        Proc { command, child }
    }
    fn start(command: &dyn Fn() -> Command) -> Child {
        let mut c = command();
        c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
        c.spawn().unwrap_or_else(|e| harness_error(&format!("{c:?}: {e}")))
    }
    pub fn send(&mut self, mode: u8, a: &[u8], b: &[u8]) -> std::io::Result<()> {
        let mut m = vec![mode];
        m.extend_from_slice(&(a.len() as u32).to_le_bytes());
        m.extend_from_slice(&(b.len() as u32).to_le_bytes());
        m.extend_from_slice(a);
        m.extend_from_slice(b);
        self.child.stdin.as_mut().unwrap().write_all(&m)
    }
    pub fn digest(&mut self) -> std::io::Result<u64> {
        let mut d = [0; 8];
        self.child.stdout.as_mut().unwrap().read_exact(&mut d)?;
        Ok(u64::from_le_bytes(d))
    }
    pub fn text(&mut self) -> std::io::Result<String> {
        let mut d = [0; 4];
        let o = self.child.stdout.as_mut().unwrap();
        o.read_exact(&mut d)?;
        let mut t = vec![0; u32::from_le_bytes(d) as usize];
        o.read_exact(&mut t)?;
        Ok(String::from_utf8_lossy(&t).to_string())
    }
    /// The process is gone: start another.
    pub fn again(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
        self.child = Self::start(&*self.command);
    }
}

impl Drop for Proc {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

thread_local! {
    static PROCS: RefCell<Vec<(usize, Proc)>> = const { RefCell::new(Vec::new()) };
}

fn l18(c: &Case) -> Result<Verdict, String> {
    let programs = programs();
    if c.sub == "build" {
        let i = (c.n as usize) % COMBOS.len();
        return match &programs[i] {
            Ok(_) => Ok(pass(true, "feature combination builds")),
            Err(e) => Err(format!("{}: the borrowed API does not build: {e}", combo(i))),
        };
    }
    PROCS.with_borrow_mut(|ps| {
        if ps.is_empty() {
            for (i, p) in programs.iter().enumerate() {
                if let Ok(p) = p {
                    let p = p.clone();
                    ps.push((i, Proc::spawn(move || Command::new(&p))));
                }
            }
        }
        // all of them work at the same time
        let sent: Vec<bool> = ps.iter_mut().map(|(_, p)| p.send(0, &c.a, &c.b).is_ok()).collect();
        let got: Vec<Option<u64>> = ps
            .iter_mut()
            .zip(sent)
            .map(|((_, p), ok)| {
                let r = if ok { p.digest().ok() } else { None };
                if r.is_none() {
                    p.again();
                }
                r
            })
            .collect();
        if got.iter().any(|g| *g != got[0]) {
            let texts: Vec<String> = ps
                .iter_mut()
                .map(|(_, p)| match p.send(1, &c.a, &c.b).and_then(|_| p.text()) {
                    Ok(t) => t,
                    Err(_) => {
                        p.again();
                        "the process was ended abnormally".into()
                    }
                })
                .collect();
            let j = (1..texts.len()).find(|j| texts[*j] != texts[0]).unwrap_or(0);
            let (x, y) = difference(&texts[0], &texts[j]);
            return Err(format!(
                "{:?} (with {:?}): {} say {x:?}, {} say {y:?}",
                show(&c.a),
                show(&c.b),
                combo(ps[0].0),
                combo(ps[j].0),
            ));
        }
        let ok = rfc::ALL.iter().any(|p| accepts(*p, &c.a));
        Ok(pass(
            ok && !c.a.is_empty(),
            match (got[0].is_some(), ok) {
                (false, _) => "ends every configuration alike",
                (_, true) => "accepted by some type",
                (_, false) => "rejected by every type",
            },
        ))
    })
}

fn check_l18(c: &Case) -> Verdict {
    l18(c).into()
}

fn builds(a: &EnumArgs, sink: &mut Sink) {
    for i in 0..COMBOS.len() {
        if a.mine(i) && !sink(Case { n: i as u64, ..Case::new("") }.sub("build")) {
            return;
        }
    }
}

fn shaped(a: &EnumArgs, sink: &mut Sink) {
    let mut n = 0u64;
    let mut prev: Vec<u8> = b"en".to_vec();
    shapes(a, 1, &mut |p| {
        n += 1;
        if !a.thorough && mix(&[n, a.seed]) % 4 != 0 {
            return true;
        }
        let s = glue(&p);
        let b = if n % 3 == 0 { recase(&s, mix(&[n])) } else { std::mem::replace(&mut prev, s.clone()) };
        sink(Case::new(s).b(b).ty(Prod::Langtag))
    });
}

fn conformance(a: &EnumArgs, sink: &mut Sink) {
    for p in rfc::ALL {
        let mut n = 0u64;
        let mut prev: Vec<u8> = Vec::new();
        wmethod(p, 0, a, &mut |s| {
            n += 1;
            let composite = matches!(p, Prod::LanguageTag | Prod::Langtag);
            if composite && !a.thorough && mix(&[n, a.seed]) % 24 != 0 {
                return true;
            }
            let b = std::mem::replace(&mut prev, s.clone());
            sink(Case::new(s).b(b).ty(p))
        });
    }
}

fn grandfathered_all(a: &EnumArgs, sink: &mut Sink) {
    let mut idx = 0;
    for (t, _) in rfc::GRANDFATHERED {
        for s in spellings(t.as_bytes()) {
            idx += 1;
            if a.mine(idx) && !sink(Case::new(s).b(t).ty(Prod::LanguageTag)) {
                return;
            }
        }
    }
}

fn long(a: &EnumArgs, sink: &mut Sink) {
    super::construct::long_values(a, &mut |c: Case| {
        if c.a.len() > if a.thorough { 100_000 } else { 5_000 } {
            return true;
        }
        let b = recase(&c.a, 0x5a5a_5a5a);
        sink(Case { b: b.into(), ..c })
    });
}

fn random() -> BoxedStrategy<Case> {
    prod().prop_flat_map(|p| (input(p), input(p)).prop_map(move |(a, b)| Case::new(a).b(b).ty(p))).boxed()
}

fn campaigns(t: bool) -> Vec<Campaign> {
    let k = if t { 30 } else { 1 };
    vec![
        Campaign { name: "every feature combination builds", r#gen: Gen::Enum(builds) },
        Campaign { name: "singleton pairs", r#gen: Gen::Enum(singletons) },
        Campaign { name: "every spelling of the grandfathered tags", r#gen: Gen::Enum(grandfathered_all) },
        Campaign { name: "component shapes", r#gen: Gen::Enum(shaped) },
        Campaign { name: "conformance suites", r#gen: Gen::Enum(conformance) },
        Campaign { name: "related pairs", r#gen: Gen::Random(any_pair, 250_000 * k) },
        Campaign { name: "random inputs", r#gen: Gen::Random(random, 250_000 * k) },
        Campaign { name: "long values", r#gen: Gen::Enum(long) },
    ]
}

pub static L18: Property = Property {
    hang: 600,
    id: "L18",
    rule: "(a, b) cases given to the same program built under each of the 4 feature combinations, and in debug and release builds; the traces of parsing, classifying, decomposing, iterating, looking up, comparing and hashing both are compared. Non-trivial: some type accepts the non-empty first text (or the case is a feature combination that builds); distinct by both texts.",
    check: check_l18,
    campaigns,
    assumptions: &[
        "a feature combination is exercised on the host target, so what a freestanding target would lack is seen only as a failure of the crate's own no_std build",
    ],
};
