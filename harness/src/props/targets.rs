//! L26: the same answers on 32-bit and on big-endian targets, and where there is no
//! standard library.
//!
//! `freestanding` runs natively on the 32-bit x86, built from `core` and `alloc` alone;
//! `confdiff` runs on the big-endian s390x, interpreted by Miri. Every case is given to
//! one of them, and its answers are compared with those on the host.

use super::configs::{Proc, difference, root};
use super::history::trace::{Fnv, TYPES, portable};
use super::pairs::*;
use crate::case::Case;
use crate::engine::*;
use crate::r#gen::*;
use crate::rfc::{self, Prod};
use crate::types::*;
use proptest::prelude::*;
use std::cell::RefCell;
use std::hash::Hasher;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::OnceLock;

const BARE: &str = "i686-unknown-linux-gnu";
const BIG: &str = "s390x-unknown-linux-gnu";

fn at(p: &str) -> PathBuf {
    PathBuf::from(root()).join(p)
}

fn run(mut c: Command) -> Result<String, String> {
    let o = c.stdin(Stdio::null()).output().unwrap_or_else(|e| harness_error(&format!("{c:?}: {e}")));
    let (out, err) = (String::from_utf8_lossy(&o.stdout), String::from_utf8_lossy(&o.stderr));
    if o.status.success() { Ok(out.into()) } else { Err(err.into()) }
}

fn error_line(e: &str) -> String {
    e.lines().find(|l| l.contains("error") && !l.contains("could not compile")).unwrap_or("unknown error").to_string()
}

fn copy(from: &Path, to: &Path) -> std::io::Result<()> {
    std::fs::create_dir_all(to)?;
    for e in std::fs::read_dir(from)? {
        let e = e?;
        if e.file_type()?.is_dir() {
            copy(&e.path(), &to.join(e.file_name()))?
        } else {
            std::fs::write(to.join(e.file_name()), std::fs::read(e.path())?)?
        }
    }
    Ok(())
}

/// A copy of str-newtype that has no std unless it is asked for.
fn dependency() -> Result<(), String> {
    let mut c = Command::new("cargo");
    c.args(["metadata", "--offline", "--locked", "--format-version", "1", "--manifest-path"]).arg(at("confdiff/Cargo.toml"));
    let meta: serde_json::Value = serde_json::from_str(&run(c)?).map_err(|e| e.to_string())?;
    let manifest = meta["packages"]
        .as_array()
        .and_then(|v| v.iter().find(|p| p["name"] == "str-newtype"))
        .and_then(|p| p["manifest_path"].as_str())
        .ok_or("no str-newtype")?;
    let to = at("target/freestanding/str-newtype");
    let done = || -> std::io::Result<()> {
        copy(Path::new(manifest).parent().unwrap(), &to)?;
        let m = std::fs::read_to_string(manifest)?;
        std::fs::write(to.join("Cargo.toml"), m.replace("default = [\"std\"]", "default = []"))
    };
    done().map_err(|e| e.to_string())
}

/// Build for the 32-bit x86 with nothing but `core` and `alloc`.
fn bare(manifest: &Path, target: &Path) -> Result<PathBuf, String> {
    let mut c = Command::new("cargo");
    c.args(["+nightly", "build", "--offline", "--locked", "--release", "--message-format=short"])
        .args(["-Zbuild-std=core,alloc", "-Zbuild-std-features=compiler-builtins-mem", "--target", BARE, "--manifest-path"])
        .arg(manifest)
        .env("CARGO_TARGET_DIR", target)
        .env("RUSTFLAGS", "-Clinker=rust-lld -Clinker-flavor=ld.lld -Crelocation-model=static");
    run(c).map(|_| target.join(BARE).join("release/freestanding"))
}

fn freestanding() -> &'static Result<PathBuf, String> {
    static P: OnceLock<Result<PathBuf, String>> = OnceLock::new();
    P.get_or_init(|| {
        dependency().unwrap_or_else(|e| harness_error(&format!("str-newtype: {e}")));
        bare(&at("freestanding/Cargo.toml"), &at("target/freestanding/build"))
    })
}

/// The same program with the crate's dependencies as they are published.
fn as_published() -> Result<(), String> {
    let dir = at("target/freestanding/published");
    let made = || -> std::io::Result<()> {
        copy(&at("freestanding"), &dir)?;
        let m = std::fs::read_to_string(at("freestanding/Cargo.toml"))?;
        let repo = std::fs::canonicalize(at("../repo"))?;
        let (head, tail) = (m.split("[patch.").next().unwrap_or(""), m.split("[profile").nth(1).unwrap_or(""));
        std::fs::write(dir.join("Cargo.toml"), format!("{head}[profile{tail}").replace("../../repo", &repo.to_string_lossy()))?;
        let main = std::fs::read_to_string(at("freestanding/src/main.rs"))?;
        let trace = at("confdiff/src/trace.rs").to_string_lossy().to_string();
        std::fs::write(dir.join("src/main.rs"), main.replace("../../confdiff/src/trace.rs", &trace))?;
        // a copy has no source in the lock file
        let host = std::fs::read_to_string(at("confdiff/Cargo.lock"))?;
        let name = "name = \"str-newtype\"";
        let package = |l: &str| l.split("[[package]]").find(|p| p.contains(name)).unwrap_or("").trim_end().to_string();
        let lock = std::fs::read_to_string(at("freestanding/Cargo.lock"))?;
        std::fs::write(dir.join("Cargo.lock"), lock.replace(&package(&lock), &package(&host)))
    };
    made().unwrap_or_else(|e| harness_error(&format!("{}: {e}", dir.display())));
    match bare(&dir.join("Cargo.toml"), &at("target/freestanding/build")) {
        // anything else is said of the first build
        Err(e) if e.contains("str-newtype") && !e.contains("could not compile `langtag`") => Err(e),
        _ => Ok(()),
    }
}

fn miri() -> Command {
    let mut c = Command::new("cargo");
    c.args(["+nightly", "miri", "run", "--offline", "--locked", "--quiet", "--release", "--target", BIG])
        .args(["--features", "std serde", "--manifest-path"])
        .arg(at("confdiff/Cargo.toml"))
        .env("CARGO_TARGET_DIR", at("target/conf-miri"))
        .env("MIRIFLAGS", "-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-disable-validation")
        .env_remove("RUSTFLAGS");
    c
}

fn big_endian() -> &'static Result<(), String> {
    static P: OnceLock<Result<(), String>> = OnceLock::new();
    P.get_or_init(|| run(miri()).map(|_| ()))
}

thread_local! {
    /// One process of each kind.
    static PROCS: RefCell<[Option<Proc>; 2]> = const { RefCell::new([None, None]) };
}

fn builds_for(i: u64) -> (&'static str, Result<(), String>) {
    match i {
        0 => ("the 32-bit x86 without a standard library", freestanding().clone().map(|_| ())),
        1 => ("the big-endian s390x", big_endian().clone()),
        _ => ("a target without a standard library, with its dependencies as published", as_published()),
    }
}

fn l26(c: &Case) -> Result<Verdict, String> {
    if c.sub == "build" {
        return match builds_for(c.n) {
            (_, Ok(())) => Ok(pass(true, "builds for another target")),
            (what, Err(e)) => Err(format!("does not build for {what}: {}", error_line(&e))),
        };
    }
    let big = c.sub == "big-endian";
    let program = match big {
        true => big_endian().as_ref().err(),
        false => freestanding().as_ref().err(),
    };
    if program.is_some() {
        return Ok(Verdict::Skip("the target has no build"));
    }
    // the interpreter takes its time: it is asked about one type
    let ty = match big {
        true => TYPES.iter().position(|t| type_name(c.prod()).rsplit("::").next() == Some(t)).map_or(0, |i| i as u8 + 1),
        false => 0,
    };
    let here = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| portable(&c.a, &c.b, ty)));
    let here = here.unwrap_or_else(|_| "panicked".into());
    let mut h = Fnv(0);
    h.write(here.as_bytes());
    PROCS.with_borrow_mut(|ps| {
        let p = ps[big as usize].get_or_insert_with(|| match big {
            true => Proc::spawn(miri),
            false => Proc::spawn(|| Command::new(freestanding().as_ref().unwrap())),
        });
        let same = p.send(2 | ty << 4, &c.a, &c.b).and_then(|_| p.digest()).map(|d| d == h.0);
        if same.is_err() {
            p.again();
        }
        if !same.unwrap_or(here == "panicked") {
            let there = p.send(3 | ty << 4, &c.a, &c.b).and_then(|_| p.text()).unwrap_or_else(|_| {
                p.again();
                "the process was ended".into()
            });
            let (x, y) = difference(&here, &there);
            let on = if big { "the big-endian s390x" } else { "the 32-bit x86" };
            return Err(format!("{:?} (with {:?}): on the host {x:?}, on {on} {y:?}", show(&c.a), show(&c.b)));
        }
        let ok = rfc::ALL.iter().any(|p| accepts(*p, &c.a));
        Ok(pass(
            ok && !c.a.is_empty(),
            match (big, ok) {
                (false, true) => "32-bit, accepted by some type",
                (false, false) => "32-bit, rejected by every type",
                (true, true) => "big-endian, accepted by some type",
                (true, false) => "big-endian, rejected by every type",
            },
        ))
    })
}

fn check_l26(c: &Case) -> Verdict {
    l26(c).into()
}

fn builds(a: &EnumArgs, sink: &mut Sink) {
    for i in 0..3 {
        if a.mine(i) && !sink(Case { n: i as u64, ..Case::new("") }.sub("build")) {
            return;
        }
    }
}

fn shaped(a: &EnumArgs, sink: &mut Sink) {
    let mut n = 0u64;
    let mut prev: Vec<u8> = b"en".to_vec();
    shapes(a, 1, &mut |p| {
        n += 1;
        if !a.thorough && mix(&[n, a.seed]) % 4 != 0 {
            return true;
        }
        let s = glue(&p);
        let b = if n % 3 == 0 { recase(&s, mix(&[n])) } else { std::mem::replace(&mut prev, s.clone()) };
        sink(Case::new(s).b(b).ty(Prod::Langtag))
    });
}

/// Cases of `f`, about one in `keep` of them, for the interpreter.
fn some(f: fn(&EnumArgs, &mut Sink), keep: u64, deeper: u64, a: &EnumArgs, sink: &mut Sink) {
    let (mut n, keep) = (0u64, if a.thorough { keep.div_ceil(deeper) } else { keep });
    f(a, &mut |c: Case| {
        n += 1;
        if mix(&[n, a.seed, 26]) % keep != 0 || c.a.len() + c.b.len() > 200 {
            return true;
        }
        sink(c.sub("big-endian"))
    });
}

fn conformance(a: &EnumArgs, sink: &mut Sink) {
    for p in rfc::ALL {
        let mut n = 0u64;
        let mut prev: Vec<u8> = Vec::new();
        wmethod(p, 0, a, &mut |s| {
            n += 1;
            let composite = matches!(p, Prod::LanguageTag | Prod::Langtag);
            if composite && !a.thorough && mix(&[n, a.seed]) % 24 != 0 {
                return true;
            }
            let b = std::mem::replace(&mut prev, s.clone());
            sink(Case::new(s).b(b).ty(p))
        });
    }
}

fn grandfathered_all(a: &EnumArgs, sink: &mut Sink) {
    let mut idx = 0;
    for (t, _) in rfc::GRANDFATHERED {
        for s in spellings(t.as_bytes()) {
            idx += 1;
            if a.mine(idx) && !sink(Case::new(s).b(t).ty(Prod::LanguageTag)) {
                return;
            }
        }
    }
}
fn grandfathered_some(a: &EnumArgs, sink: &mut Sink) {
    for (i, (t, _)) in rfc::GRANDFATHERED.iter().enumerate() {
        let s = recase(t.as_bytes(), mix(&[i as u64, a.seed]));
        if a.mine(i) && !sink(Case::new(s).b(*t).ty(Prod::LanguageTag).sub("big-endian")) {
            return;
        }
    }
}

/// Texts of every length about the widths of machine words, with the last hyphen at
/// every place of the last words.
fn words_wide(a: &EnumArgs, sink: &mut Sink) {
    let mut idx = 0;
    for len in 2..=if a.thorough { 80 } else { 36 } {
        for gap in [2, 3, 4, 5, 6, 7, 8, 9] {
            for start in ["x", "en", "a", "abcde"] {
                let mut s = start.as_bytes().to_vec();
                let mut i = 0u64;
                while s.len() + 1 < len {
                    s.push(b'-');
                    let n = (gap - 1 - (i as usize % 2) * (gap > 4) as usize).min(len - s.len());
                    s.extend(std::iter::repeat_n(b'a' + (i % 26) as u8, n));
                    i += 1;
                }
                idx += 1;
                if !a.mine(idx) {
                    continue;
                }
                let other = idx % 2 == 0;
                let mut b = recase(&s, 0x3333_3333_cccc_5555);
                if idx % 3 == 0 {
                    let k = b.len() - 1;
                    b[k] = if b[k] == b'b' { b'c' } else { b'b' };
                }
                if other && !a.thorough && mix(&[idx as u64, a.seed]) % 3 != 0 {
                    continue;
                }
                if !sink(Case::new(s).b(b)) {
                    return;
                }
            }
        }
    }
}

fn long(a: &EnumArgs, sink: &mut Sink) {
    super::construct::long_values(a, &mut |c: Case| {
        if c.a.len() > if a.thorough { 100_000 } else { 5_000 } {
            return true;
        }
        let b = recase(&c.a, 0x5a5a_5a5a);
        sink(Case { b: b.into(), ..c })
    });
}

fn random() -> BoxedStrategy<Case> {
    prod().prop_flat_map(|p| (input(p), input(p)).prop_map(move |(a, b)| Case::new(a).b(b).ty(p))).boxed()
}

fn short(c: Case) -> Case {
    let cut = |b: &[u8]| b[..b.len().min(90)].to_vec();
    Case { a: cut(&c.a).into(), b: cut(&c.b).into(), ..c }.sub("big-endian")
}
fn big_pairs() -> BoxedStrategy<Case> {
    any_pair().prop_map(short).boxed()
}
fn big_random() -> BoxedStrategy<Case> {
    random().prop_map(short).boxed()
}

fn campaigns(t: bool) -> Vec<Campaign> {
    let k = if t { 12 } else { 1 };
    vec![
        Campaign { name: "it builds for every target", r#gen: Gen::Enum(builds) },
        Campaign { name: "32-bit: singleton pairs", r#gen: Gen::Enum(singletons) },
        Campaign { name: "32-bit: every spelling of the grandfathered tags", r#gen: Gen::Enum(grandfathered_all) },
        Campaign { name: "32-bit: component shapes", r#gen: Gen::Enum(shaped) },
        Campaign { name: "32-bit: conformance suites", r#gen: Gen::Enum(conformance) },
        Campaign { name: "32-bit: lengths about machine words", r#gen: Gen::Enum(words_wide) },
        Campaign { name: "32-bit: related pairs", r#gen: Gen::Random(any_pair, 200_000 * k) },
        Campaign { name: "32-bit: random inputs", r#gen: Gen::Random(random, 200_000 * k) },
        Campaign { name: "32-bit: long values", r#gen: Gen::Enum(long) },
        Campaign { name: "big-endian: the grandfathered tags", r#gen: Gen::Enum(grandfathered_some) },
        Campaign { name: "big-endian: lengths about machine words", r#gen: Gen::Enum(|a, s| some(words_wide, 2, 1, a, s)) },
        Campaign { name: "big-endian: singleton pairs", r#gen: Gen::Enum(|a, s| some(singletons, 200, 10, a, s)) },
        Campaign { name: "big-endian: component shapes", r#gen: Gen::Enum(|a, s| some(shaped, 60, 1, a, s)) },
        Campaign { name: "big-endian: conformance suites", r#gen: Gen::Enum(|a, s| some(conformance, 120, 4, a, s)) },
        Campaign { name: "big-endian: related pairs", r#gen: Gen::Random(big_pairs, 400 * if t { 4 } else { 1 }) },
        Campaign { name: "big-endian: random inputs", r#gen: Gen::Random(big_random, 200 * if t { 4 } else { 1 }) },
    ]
}

pub static L26: Property = Property {
    hang: 900,
    id: "L26",
    rule: "(a, b) cases answered by the same program on the host and on another target: the 32-bit x86 (native, built from core and alloc alone) or the big-endian s390x (interpreted by Miri, with std and serde); the traces of parsing, classifying, decomposing, iterating, looking up and comparing both are compared, hash values apart. Non-trivial: some type accepts the non-empty first text (or the case is a target it builds for); distinct by both texts and target.",
    check: check_l26,
    campaigns,
    assumptions: &[
        "Miri gives a program the meaning it has on a big-endian machine, optimizations apart",
        "the 32-bit x86 stands for 32-bit targets, s390x for big-endian ones; the owned types need std and are exercised on the host only",
    ],
};
