//! L19: compile-time parsing agrees with run-time parsing.
//!
//! Generated programs: a batch of literals, each on a line of its own, given to
//! the macro or to a constructor in a constant expression. The compiler must
//! report an error on exactly the lines whose literal is rejected at run time,
//! and the accepted ones, compiled and run, must equal the run-time values.

use crate::case::{Bytes, Case, Fnv};
use crate::engine::*;
use crate::r#gen::*;
use crate::rfc::{self, Prod};
use crate::types::*;
use proptest::prelude::*;
use proptest::strategy::ValueTree;
use std::collections::BTreeSet;
use std::fmt::Write as _;
use std::hash::Hasher;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::OnceLock;
use std::sync::atomic::{AtomicU64, Ordering};

pub(crate) fn root() -> String {
    std::env::var("LT_ROOT").unwrap_or_else(|_| {
        let d = Path::new(env!("CARGO_MANIFEST_DIR")).parent().unwrap();
        d.to_str().unwrap().to_string()
    })
}

/// The compiled crate this program itself was linked with.
pub(crate) fn library() -> &'static (String, String) {
    static L: OnceLock<(String, String)> = OnceLock::new();
    L.get_or_init(|| {
        let target = PathBuf::from(root()).join("target/harness");
        let o = Command::new("cargo")
            .args(["build", "--offline", "--release", "--locked", "--message-format=json", "--lib"])
            .arg("--manifest-path")
            .arg(PathBuf::from(root()).join("harness/Cargo.toml"))
            .env("CARGO_TARGET_DIR", &target)
            .stdin(Stdio::null())
            .output()
            .unwrap_or_else(|e| harness_error(&format!("cargo: {e}")));
        for l in String::from_utf8_lossy(&o.stdout).lines() {
            let Ok(v) = serde_json::from_str::<serde_json::Value>(l) else { continue };
            if v["reason"] == "compiler-artifact" && v["target"]["name"] == "langtag" {
                for f in v["filenames"].as_array().into_iter().flatten().filter_map(|f| f.as_str()) {
                    if f.ends_with(".rlib") {
                        let d = Path::new(f).parent().unwrap().join("deps");
                        let d = if d.exists() { d } else { Path::new(f).parent().unwrap().into() };
                        return (f.to_string(), d.to_str().unwrap().to_string());
                    }
                }
            }
        }
        harness_error("the compiled crate was not found")
    })
}

/// A scratch directory, removed at the end of one check.
pub(crate) struct Scratch(pub(crate) PathBuf);
impl Scratch {
    pub(crate) fn new() -> Scratch {
        static N: AtomicU64 = AtomicU64::new(0);
        let d = PathBuf::from(root()).join(format!(
            "target/consteval/{}-{}",
            std::process::id(),
            N.fetch_add(1, Ordering::Relaxed)
        ));
        std::fs::create_dir_all(&d).unwrap_or_else(|e| harness_error(&format!("{}: {e}", d.display())));
        Scratch(d)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        for f in std::fs::read_dir(&self.0).into_iter().flatten().flatten() {
            let _ = std::fs::remove_file(f.path());
        }
        let _ = std::fs::remove_dir(&self.0);
    }
}

pub(crate) fn rustc(src: &Path, kind: &str, emit: &str, out: &Path) -> (bool, String) {
    let (lib, deps) = library();
    let o = Command::new("rustc")
        .args(["--edition", "2024", "--crate-name", "generated", "--crate-type", kind])
        .arg(format!("--emit={emit}"))
        .args(["--error-format=json", "--cap-lints=warn", "-Copt-level=0", "-Cdebuginfo=0", "-Ccodegen-units=1"])
        .args(["-L", &format!("dependency={deps}"), "--extern", &format!("langtag={lib}"), "-o"])
        .arg(out)
        .arg(src)
        .stdin(Stdio::null())
        .output()
        .unwrap_or_else(|e| harness_error(&format!("rustc: {e}")));
    (o.status.success(), String::from_utf8_lossy(&o.stderr).to_string())
}

/// Lines of `main` that errors are attributed to, and errors attributed to none.
pub(crate) fn error_lines(json: &str, main: &str) -> (BTreeSet<usize>, Vec<String>) {
    fn spans(v: &serde_json::Value, main: &str, out: &mut BTreeSet<usize>) {
        for s in v.as_array().into_iter().flatten() {
            let mut s = s;
            loop {
                if s["file_name"].as_str().is_some_and(|f| f.ends_with(main)) {
                    for l in s["line_start"].as_u64().unwrap_or(0)..=s["line_end"].as_u64().unwrap_or(0) {
                        out.insert(l as usize);
                    }
                }
                if s["expansion"].is_null() {
                    break;
                }
                s = &s["expansion"]["span"];
            }
        }
    }
    let mut lines = BTreeSet::new();
    let mut lost = Vec::new();
    for l in json.lines() {
        let Ok(v) = serde_json::from_str::<serde_json::Value>(l) else { continue };
        let msg = v["message"].as_str().unwrap_or("").to_string();
        if v["level"] != "error" && v["level"] != "error: internal compiler error" || msg.starts_with("aborting due to") {
            continue;
        }
        let mut here = BTreeSet::new();
        spans(&v["spans"], main, &mut here);
        if here.is_empty() {
            for c in v["children"].as_array().into_iter().flatten() {
                spans(&c["spans"], main, &mut here);
            }
        }
        if here.is_empty() {
            lost.push(msg);
        }
        lines.extend(here);
    }
    (lines, lost)
}

const FORMS: u8 = 13;

/// The forms that use the macro.
fn is_macro(f: u8) -> bool {
    !(3..=6).contains(&f)
}
/// The forms where it stands in a function body, which is compiled only as code.
fn in_body(f: u8) -> bool {
    matches!(f, 2 | 9 | 11)
}

fn form_name(f: u8) -> &'static str {
    [
        "langtag! in a constant",
        "langtag! in a static",
        "langtag! as an expression in a function",
        "from_str in a constant",
        "from_bytes in a constant",
        "validate_str in a constant",
        "validate_bytes in a constant",
        "langtag! in a module without a prelude",
        "langtag! where the names it uses mean something else",
        "langtag! in a generic function",
        "langtag! through another macro",
        "langtag! in a closure, a match and an array",
        "langtag! in a constant function",
    ][f as usize]
}

struct Item {
    form: u8,
    ty: Prod,
    lit: Vec<u8>,
}

impl Item {
    fn decode(b: &[u8]) -> Option<Item> {
        let (form, ty) = (*b.first()? % FORMS, *b.get(1)?);
        let lit = b[2..].to_vec();
        let ty = if is_macro(form) { Prod::LanguageTag } else { rfc::ALL[ty as usize % 15] };
        if !matches!(form, 4 | 6) && std::str::from_utf8(&lit).is_err() {
            return None;
        }
        Some(Item { form, ty, lit })
    }
    fn literal(&self) -> String {
        if matches!(self.form, 4 | 6) {
            return format!("b\"{}\"", self.lit.escape_ascii());
        }
        let s = std::str::from_utf8(&self.lit).unwrap();
        // several spellings of literals
        match mix(&[self.lit.len() as u64, self.lit.iter().map(|b| *b as u64).sum()]) % 4 {
            0 if s.bytes().all(|b| b.is_ascii_graphic() && b != b'"') => format!("r#\"{s}\"#"),
            1 => {
                let mut o = String::from("\"");
                for c in s.chars() {
                    let _ = write!(o, "\\u{{{:x}}}", c as u32);
                }
                o + "\""
            }
            _ => format!("\"{}\"", s.escape_default()),
        }
    }
    fn ty_name(&self) -> &'static str {
        type_name(self.ty).rsplit("::").next().unwrap()
    }
    /// What run time says.
    fn runtime(&self) -> bool {
        crate::per_type!(self.ty, T, B, {
            match self.form {
                f if f == 3 || is_macro(f) => T::from_str(std::str::from_utf8(&self.lit).unwrap()).is_ok(),
                4 => T::from_bytes(&self.lit).is_ok(),
                5 => T::validate_str(std::str::from_utf8(&self.lit).unwrap()),
                _ => T::validate_bytes(&self.lit),
            }
        })
    }
    fn boolean(&self) -> bool {
        matches!(self.form, 5 | 6)
    }
    /// The one-line item that evaluates the literal.
    fn line(&self, i: usize) -> String {
        let (t, l) = (self.ty_name(), self.literal());
        match self.form {
            0 => format!("pub const C{i}: &LangTag = langtag!({l});"),
            1 => format!("pub static C{i}: &LangTag = langtag!({l});"),
            2 => format!("pub fn c{i}() -> &'static LangTag {{ let t = langtag!({l}); t }}"),
            3 => format!("pub const C{i}: &{t} = match {t}::from_str({l}) {{ Ok(v) => v, Err(_) => panic!() }};"),
            4 => format!("pub const C{i}: &{t} = match {t}::from_bytes({l}) {{ Ok(v) => v, Err(_) => panic!() }};"),
            5 => format!("pub const C{i}: bool = {t}::validate_str({l});"),
            6 => format!("pub const C{i}: bool = {t}::validate_bytes({l});"),
            7 => format!("pub mod m{i} {{ #![no_implicit_prelude] pub const C: &::langtag::LangTag = ::langtag::langtag!({l}); }} pub use m{i}::C as C{i};"),
            8 => format!("pub mod m{i} {{ use crate::decoys::*; pub static C: &::langtag::LangTag = ::langtag::langtag!({l}); }} pub use m{i}::C as C{i};"),
            9 => format!("pub fn g{i}<T>() -> &'static LangTag {{ langtag!({l}) }} pub fn c{i}() -> &'static LangTag {{ g{i}::<u8>() }}"),
            10 => format!("wrap!(C{i}, {l});"),
            11 => format!("pub fn c{i}() -> &'static LangTag {{ let f = |n: usize| match n {{ 0 => langtag!({l}), _ => [langtag!({l}); 2][1] }}; f(1) }}"),
            _ => format!("pub const C{i}: &LangTag = {{ const fn f() -> &'static LangTag {{ langtag!({l}) }} f() }};"),
        }
    }
    /// An expression comparing constant and run-time value: a list of what differs.
    fn compare(&self, i: usize) -> String {
        let b = self.lit.escape_ascii();
        if self.boolean() {
            return format!("same_bool({i}, C{i}, {});", self.runtime());
        }
        let c = if in_body(self.form) { format!("c{i}()") } else { format!("C{i}") };
        let t = self.ty_name();
        format!("same({i}, {c}, {t}::new(b\"{b}\").ok(), {c}.as_str(), {c}.as_bytes(), b\"{b}\");")
    }
    fn describe(&self) -> String {
        let t = if is_macro(self.form) { String::new() } else { format!("{}::", self.ty_name()) };
        format!("{t}{} of {:?}", form_name(self.form), show(&self.lit))
    }
}

const PRELUDE: &str = "#![allow(dead_code, unused, clippy::all, long_running_const_eval)]
use langtag::*;
macro_rules! wrap { ($name:ident, $value:literal) => { pub const $name: &::langtag::LangTag = ::langtag::langtag!($value); } }
pub mod decoys {
    pub enum Answer { Ok(u8), Err(u8), Some(u8), None }
    pub use Answer::*;
    pub struct LangTag;
    pub struct Result;
    pub struct str;
    pub mod langtag {}
    pub mod core {}
    pub mod std {}
    macro_rules! panic_decoy { ($($t:tt)*) => { compile_error!(\"not this one\") } }
    pub(crate) use {panic_decoy as panic, panic_decoy as unreachable, panic_decoy as unimplemented, panic_decoy as todo, panic_decoy as matches};
}
";
const SUPPORT: &str = "
fn same<T: ?Sized + PartialEq>(i: usize, c: &T, r: Option<&T>, s: &str, b: &[u8], want: &[u8]) {
    if s.as_bytes() != want || b != want { println!(\"{i} the constant holds {:?}\", s); }
    match r {
        Some(r) => if !(c == r) { println!(\"{i} the constant is unequal to the run-time value\"); },
        None => println!(\"{i} the run-time constructor rejects it\"),
    }
}
fn same_bool(i: usize, c: bool, r: bool) { if c != r { println!(\"{i} constant {c}, run time {r}\"); } }
";

fn l19(c: &Case) -> Result<Verdict, String> {
    let items: Vec<Item> = c.items.iter().filter_map(|b| Item::decode(b)).collect();
    if items.is_empty() {
        return Ok(Verdict::Skip("no literal"));
    }
    let dir = Scratch::new();
    let file = |n: &str| dir.0.join(n);
    let put = |n: &str, t: &str| {
        std::fs::write(file(n), t).unwrap_or_else(|e| harness_error(&format!("{n}: {e}")));
    };
    // 1 and 2: which lines does the compiler reject
    let agree = |name: &str, chosen: &dyn Fn(&Item) -> bool, emit: &str| -> Result<(), String> {
        let mut text = PRELUDE.to_string();
        let mut at: Vec<(usize, usize)> = Vec::new();
        let mut line = text.lines().count();
        for (i, it) in items.iter().enumerate().filter(|(_, it)| chosen(it)) {
            let _ = writeln!(text, "{}", it.line(i));
            line += 1;
            at.push((line, i));
        }
        if at.is_empty() {
            return Ok(());
        }
        put(name, &text);
        let (ok, err) = rustc(&file(name), "lib", emit, &file("out"));
        let (bad, lost) = error_lines(&err, name);
        for (l, i) in at {
            let it = &items[i];
            let want = it.boolean() || it.runtime();
            if want == bad.contains(&l) {
                let msg = err
                    .lines()
                    .filter_map(|l| serde_json::from_str::<serde_json::Value>(l).ok())
                    .find(|v| want && error_lines(&v.to_string(), name).0.contains(&l))
                    .map(|v| format!(": {}", v["message"].as_str().unwrap_or("")))
                    .unwrap_or_default();
                if want && lost.is_empty() && msg.contains("internal compiler") {
                    harness_error(&msg);
                }
                return Err(format!(
                    "{}: {} at run time, {} at compile time{msg}",
                    it.describe(),
                    if it.runtime() { "accepted" } else { "rejected" },
                    if want { "does not compile" } else { "compiles" }
                ));
            }
        }
        if !lost.is_empty() || ok != bad.is_empty() {
            harness_error(&format!("generated program: {} {}", lost.join("; "), &err[..err.len().min(2000)]));
        }
        Ok(())
    };
    agree("items.rs", &|it| !in_body(it.form), "metadata")?;
    agree("bodies.rs", &|it| in_body(it.form) && it.form != 9, "obj")?;
    agree("generics.rs", &|it| it.form == 9, "obj")?;
    // 3: the accepted ones, compiled and run
    let mut text = PRELUDE.to_string() + SUPPORT;
    let mut main = String::new();
    let mut chunk = 0;
    let good: Vec<(usize, &Item)> = items.iter().enumerate().filter(|(_, it)| it.boolean() || it.runtime()).collect();
    for part in good.chunks(50) {
        let _ = writeln!(main, "    part{chunk}();");
        let mut body = String::new();
        for (i, it) in part {
            let _ = writeln!(text, "{}", it.line(*i));
            let _ = writeln!(body, "    {}", it.compare(*i));
        }
        let _ = writeln!(text, "fn part{chunk}() {{\n{body}}}");
        chunk += 1;
    }
    if !good.is_empty() {
        let _ = writeln!(text, "fn main() {{\n{main}    println!(\"done\");\n}}");
        put("main.rs", &text);
        let (ok, err) = rustc(&file("main.rs"), "bin", "link", &file("main"));
        if !ok {
            harness_error(&format!("generated program: {}", err.lines().next().unwrap_or("")));
        }
        let o = Command::new(file("main"))
            .stdin(Stdio::null())
            .output()
            .unwrap_or_else(|e| harness_error(&format!("generated program: {e}")));
        let out = String::from_utf8_lossy(&o.stdout).to_string();
        let first = out.lines().next().unwrap_or("");
        if first != "done" {
            if let Some((i, what)) = first.split_once(' ') {
                if let Some(it) = i.parse().ok().and_then(|i: usize| items.get(i)) {
                    return Err(format!("{}: {what}", it.describe()));
                }
            }
            return Err(format!(
                "a program of compile-time tags ends with {}: {}",
                o.status,
                String::from_utf8_lossy(&o.stderr).lines().take(3).collect::<Vec<_>>().join(" ")
            ));
        }
    }
    let mut many = Many::default();
    for it in &items {
        let ok = it.runtime();
        let mut h = Fnv(it.form as u64 + 16 * it.ty as u64);
        h.write(&it.lit);
        let live = ok || crate::dfa::get(it.ty).live_prefix(&it.lit) > 0;
        many.put(
            live.then(|| mix(&[h.0])),
            match (it.form, ok) {
                (0..=2, true) => "macro, accepted",
                (0..=2, false) => "macro, rejected",
                (7.., true) => "macro in other surroundings, accepted",
                (7.., false) => "macro in other surroundings, rejected",
                (3 | 4, true) => "constant constructor, accepted",
                (3 | 4, false) => "constant constructor, rejected",
                (_, true) => "constant validation, accepted",
                (_, false) => "constant validation, rejected",
            },
        );
    }
    Ok(Verdict::Many(many))
}

fn check_l19(c: &Case) -> Verdict {
    l19(c).into()
}

const BATCH: usize = 300;

fn batch(items: Vec<Vec<u8>>) -> Case {
    Case { items: items.into_iter().map(Bytes::from).collect(), ..Case::new("") }
}

struct Batcher<'a, 'b> {
    items: Vec<Vec<u8>>,
    sink: &'a mut Sink<'b>,
}
impl Batcher<'_, '_> {
    fn put(&mut self, form: u8, p: Prod, lit: &[u8]) -> bool {
        let mut v = vec![form, p as u8];
        v.extend_from_slice(lit);
        self.items.push(v);
        self.items.len() < BATCH || self.flush()
    }
    fn flush(&mut self) -> bool {
        let items = std::mem::take(&mut self.items);
        items.is_empty() || (self.sink)(batch(items))
    }
}

fn random(a: &EnumArgs, sink: &mut Sink) {
    let mut r = runner(mix(&[a.seed, a.shard as u64, 19]));
    let mut b = Batcher { items: vec![], sink };
    let strategy = (0..FORMS, prod())
        .prop_flat_map(|(f, p)| {
            let p = if is_macro(f) { Prod::LanguageTag } else { p };
            (Just(f), Just(p), prop_oneof![3 => valid(p), 3 => near(p), 1 => input(p)])
        })
        .boxed();
    for _ in 0..BATCH * if a.thorough { 100 } else { 8 } {
        let (f, p, s) = strategy.new_tree(&mut r).unwrap_or_else(|e| harness_error(&e.to_string())).current();
        if s.len() > 600 {
            continue;
        }
        if !b.put(f, p, &s) {
            return;
        }
    }
    b.flush();
}

/// A sample of the conformance suite of every type.
fn conformance(a: &EnumArgs, sink: &mut Sink) {
    let mut b = Batcher { items: vec![], sink };
    for p in rfc::ALL {
        let mut n = 0u64;
        let composite = matches!(p, Prod::LanguageTag | Prod::Langtag);
        let every = match (composite, a.thorough) {
            (true, true) => 40,
            (true, false) => 1200,
            (false, true) => 10,
            (false, false) => 250,
        };
        wmethod(p, 0, a, &mut |s| {
            n += 1;
            let m = mix(&[n, a.seed, p as u64]);
            if m % every != 0 && !(rfc::matches(p, &s) && m % (every / 8) == 0) {
                return true;
            }
            let f = if p == Prod::LanguageTag { (m >> 32) as u8 % FORMS } else { 3 + (m >> 32) as u8 % 4 };
            b.put(f, p, &s)
        });
    }
    b.flush();
}

fn grandfathered_all(a: &EnumArgs, sink: &mut Sink) {
    let mut b = Batcher { items: vec![], sink };
    let mut n = 0usize;
    for (t, _) in rfc::GRANDFATHERED {
        let t = t.as_bytes();
        for f in 0..FORMS {
            n += 1;
            if !a.mine(n) {
                continue;
            }
            let m = mix(&[n as u64, a.seed]);
            for s in [t.to_vec(), t.to_ascii_uppercase(), t.to_ascii_lowercase(), recase(t, m), t[..t.len() - 1].to_vec()] {
                if !b.put(f, Prod::LanguageTag, &s) {
                    return;
                }
            }
        }
    }
    b.flush();
}

fn long(a: &EnumArgs, sink: &mut Sink) {
    let mut b = Batcher { items: vec![], sink };
    let mut n = 0u64;
    let (upto, every) = if a.thorough { (5_000, 4) } else { (1_200, 40) };
    super::construct::long_values(a, &mut |c: Case| {
        n += 1;
        if c.a.len() > upto || mix(&[n, a.seed]) % every != 0 {
            return true;
        }
        let f = if c.prod() == Prod::LanguageTag { n as u8 % FORMS } else { 3 + n as u8 % 4 };
        b.put(f, c.prod(), &c.a)
    });
    b.flush();
}

fn campaigns(_t: bool) -> Vec<Campaign> {
    vec![
        Campaign { name: "grandfathered tags", r#gen: Gen::Enum(grandfathered_all) },
        Campaign { name: "conformance suites, sampled", r#gen: Gen::Enum(conformance) },
        Campaign { name: "random literals", r#gen: Gen::Enum(random) },
        Campaign { name: "long literals", r#gen: Gen::Enum(long) },
    ]
}

pub static L19: Property = Property {
    hang: 600,
    id: "L19",
    rule: "(form, type, literal) items in generated programs, 300 to a program: the macro in a constant, a static, a function body, a generic and a constant function, a closure, another macro and modules where the prelude is absent or shadowed, and the constructors and validation functions in constants. The lines the compiler rejects must be exactly those whose literal is rejected at run time, and the accepted ones are compiled, run and compared. Non-trivial: accepted, or rejected with at least one live character; distinct by (form, type, literal).",
    check: check_l19,
    campaigns,
    assumptions: &["literals of up to 1,200 bytes (5,000 in the thorough tier): the compiler's own limits on constant evaluation are not the crate's"],
};
