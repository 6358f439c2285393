//! L24: no safe use of the crate is undefined behaviour.
//!
//! `ubcheck` walks through the whole API on each generated text, once built
//! with AddressSanitizer (many texts) and once under Miri (fewer); and generated
//! programs that keep a part longer than the text it points into must not compile.

use super::consteval::{Scratch, error_lines, root, rustc};
use crate::case::Case;
use crate::engine::*;
use crate::r#gen::*;
use crate::rfc::{self, Prod};
use crate::types::*;
use proptest::prelude::*;
use proptest::strategy::ValueTree;
use std::cell::RefCell;
use std::fmt::Write as _;
use std::io::{Read, Write};
use std::path::PathBuf;
use std::process::{Child, Command, Output, Stdio};
use std::sync::OnceLock;

fn cargo(args: &[&str]) -> Command {
    let mut c = Command::new("cargo");
    c.arg("+nightly").args(args).args(["--offline", "--locked", "--quiet"]);
    c.arg("--manifest-path").arg(PathBuf::from(root()).join("ubcheck/Cargo.toml"));
    c.env_remove("RUSTFLAGS").env("RUST_BACKTRACE", "0");
    c
}

fn sanitized() -> &'static PathBuf {
    static P: OnceLock<PathBuf> = OnceLock::new();
    P.get_or_init(|| {
        let target = PathBuf::from(root()).join("target/ub-asan");
        let o = cargo(&["build", "--release", "--target", "x86_64-unknown-linux-gnu"])
            .env("CARGO_TARGET_DIR", &target)
            .env("RUSTFLAGS", "-Zsanitizer=address")
            .stdin(Stdio::null())
            .output()
            .unwrap_or_else(|e| harness_error(&format!("cargo: {e}")));
        if !o.status.success() {
            harness_error(&format!("ubcheck does not build: {}", String::from_utf8_lossy(&o.stderr)));
        }
        target.join("x86_64-unknown-linux-gnu/release/ubcheck")
    })
}

fn request(ty: u8, form: u8, a: &[u8], b: &[u8]) -> Vec<u8> {
    let mut m = vec![ty, form];
    m.extend_from_slice(&(a.len() as u32).to_le_bytes());
    m.extend_from_slice(&(b.len() as u32).to_le_bytes());
    m.extend_from_slice(a);
    m.extend_from_slice(b);
    m
}

struct Proc(Child);
impl Proc {
    fn spawn() -> Proc {
        let child = Command::new(sanitized())
            .env("ASAN_OPTIONS", "detect_leaks=0:symbolize=0:exitcode=99")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::piped())
            .spawn()
            .unwrap_or_else(|e| harness_error(&format!("ubcheck: {e}")));
        Proc(child)
    }
    /// `Ok(None)`: walked. `Ok(Some)`: a complaint. `Err`: the process has ended.
    fn ask(&mut self, m: &[u8]) -> std::io::Result<Option<String>> {
        let i = self.0.stdin.as_mut().unwrap();
        i.write_all(m)?;
        i.flush()?;
        let o = self.0.stdout.as_mut().unwrap();
        let mut k = [0];
        o.read_exact(&mut k)?;
        match k[0] {
            b'V' => {
                let mut n = [0; 4];
                o.read_exact(&mut n)?;
                let mut t = vec![0; u32::from_le_bytes(n) as usize];
                o.read_exact(&mut t)?;
                Ok(Some(String::from_utf8_lossy(&t).to_string()))
            }
            b'P' => Ok(Some(String::new())),
            _ => Ok(None),
        }
    }
    fn last_words(&mut self) -> String {
        drop(self.0.stdin.take());
        let mut t = String::new();
        if let Some(e) = self.0.stderr.as_mut() {
            let mut v = Vec::new();
            let _ = e.read_to_end(&mut v);
            t = String::from_utf8_lossy(&v).to_string();
        }
        let st = self.0.wait().map(|s| s.to_string()).unwrap_or_default();
        let line = t
            .lines()
            .find(|l| l.contains("ERROR: AddressSanitizer") || l.contains("unsafe precondition") || l.contains("overflowed its stack"))
            .or(t.lines().next())
            .unwrap_or("");
        let line = line.split("ERROR: ").last().unwrap_or("");
        // addresses differ from run to run
        let words: Vec<&str> = line.split(' ').filter(|w| !w.contains("0x")).collect();
        format!("{} ({st})", words.join(" "))
    }
}
impl Drop for Proc {
    fn drop(&mut self) {
        let _ = self.0.kill();
        let _ = self.0.wait();
    }
}

thread_local! {
    static PROC: RefCell<Option<Proc>> = const { RefCell::new(None) };
}

fn asan(c: &Case) -> Result<Verdict, String> {
    let m = request(c.ty, c.n as u8, &c.a, &c.b);
    let name = type_name(c.prod());
    PROC.with_borrow_mut(|p| {
        let r = p.get_or_insert_with(Proc::spawn).ask(&m);
        match r {
            Ok(Some(e)) if e.is_empty() => Ok(Verdict::Skip("a panic, which is defined")),
            Ok(Some(e)) => Err(format!("{name} of {:?} (with {:?}): {e}", show(&c.a), show(&c.b))),
            Ok(None) => {
                let ok = accepts(c.prod(), &c.a);
                Ok(pass(ok && !c.a.is_empty(), if ok { "sanitized, accepted" } else { "sanitized, rejected" }))
            }
            Err(_) => {
                let words = p.take().unwrap().last_words();
                // once more in a process of its own
                let alone = Proc::spawn().ask(&m).is_err();
                if !alone {
                    return Err(format!(
                        "{name} of {:?} (with {:?}), after other texts: {words}",
                        show(&c.a),
                        show(&c.b)
                    ));
                }
                Err(format!("{name} of {:?} (with {:?}): {words}", show(&c.a), show(&c.b)))
            }
        }
    })
}

fn comparand(form: u8, a: &[u8]) -> Vec<u8> {
    if form & 4 == 0 {
        recase(a, form as u64 * 0x9e37)
    } else {
        a[..a.iter().rposition(|b| *b == b'-').unwrap_or(0)].to_vec()
    }
}

/// Run under the interpreter; `trees` selects the more permissive aliasing model.
fn interpret(items: &[(u8, u8, &[u8])], seed: u64, trees: bool) -> Output {
    let target = PathBuf::from(root()).join("target/ub-miri");
    let flags = format!("-Zmiri-disable-isolation -Zmiri-seed={}{}", seed % 1000, if trees { " -Zmiri-tree-borrows" } else { "" });
    let mut child = cargo(&["miri", "run"])
        .env("CARGO_TARGET_DIR", &target)
        .env("MIRIFLAGS", flags)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .unwrap_or_else(|e| harness_error(&format!("cargo: {e}")));
    let mut all = Vec::new();
    for (ty, form, a) in items {
        all.extend(request(*ty, *form, a, &comparand(*form, a)));
    }
    // less than a pipe holds; what is left unread is not needed
    let _ = child.stdin.take().unwrap().write_all(&all);
    child.wait_with_output().unwrap_or_else(|e| harness_error(&format!("cargo: {e}")))
}

/// What the interpreter found, if it is of this property's kind.
fn finding(err: &str) -> Option<String> {
    let mut it = err.lines();
    let head = it.find(|l| {
        l.starts_with("error: Undefined Behavior") || l.starts_with("error: memory leaked") || l.contains("unsafe precondition")
    })?;
    let place = err.lines().find(|l| l.trim_start().starts_with("--> ")).map(|l| l.trim().to_string()).unwrap_or_default();
    let place = place.rsplit_once("/src/").map(|(_, f)| format!(" at src/{f}")).unwrap_or_default();
    Some(format!("{}{place}", head.trim_start_matches("error: ")))
}

fn miri(c: &Case) -> Result<Verdict, String> {
    let items: Vec<(u8, u8, &[u8])> =
        c.items.iter().filter(|i| i.len() >= 2).map(|i| (i[0] % 15, i[1], &i[2..])).take(2000).collect();
    if items.is_empty() {
        return Ok(Verdict::Skip("no text"));
    }
    let o = interpret(&items, c.n, false);
    let err = String::from_utf8_lossy(&o.stderr).to_string();
    let done = o.stdout.iter().take_while(|b| **b == b'.' || **b == b'P').count();
    let at = |i: usize| match items.get(i) {
        Some((ty, _, a)) => format!("{} of {:?}", type_name(rfc::ALL[*ty as usize]), show(a)),
        None => "at the end".to_string(),
    };
    if let Some(m) = finding(&err) {
        // a matter of aliasing is one only if the permissive model agrees
        if err.contains("Stacked Borrows") {
            let o = interpret(&items, c.n, true);
            if finding(&String::from_utf8_lossy(&o.stderr)).is_none() {
                return Ok(Verdict::Skip("rejected by one aliasing model only"));
            }
        }
        return Err(format!("interpreted, {}: {m}", at(done)));
    }
    if err.contains("unsupported operation") {
        return Ok(Verdict::Skip("needs what the interpreter lacks"));
    }
    if o.stdout.get(done) == Some(&b'V') {
        return Err(format!("interpreted, {}: {}", at(done), String::from_utf8_lossy(o.stdout.get(done + 5..).unwrap_or(b""))));
    }
    if !o.status.success() || done != items.len() {
        harness_error(&format!("interpreter: {} after {done} of {}: {}", o.status, items.len(), &err[..err.len().min(3000)]));
    }
    let mut many = Many::default();
    for (k, (ty, form, a)) in items.iter().enumerate() {
        if o.stdout[k] == b'P' {
            continue;
        }
        let ok = accepts(rfc::ALL[*ty as usize], a);
        let h = mix(&[*ty as u64, *form as u64, a.iter().fold(7, |h, b| mix(&[h, *b as u64]))]);
        many.put((ok && !a.is_empty()).then_some(h), if ok { "interpreted, accepted" } else { "interpreted, rejected" });
    }
    Ok(Verdict::Many(many))
}

// ------------------------------------------------------------ outliving

const TAG: &str = "en-aaa-Latn-US-abcde-a-bb-x-y";

/// Ways to read something that points into the text of `t`.
const READS: [(Prod, &str, &[&str]); 15] = [
    (
        Prod::LanguageTag,
        TAG,
        &[
            "t.language()",
            "t.language().unwrap().primary()",
            "t.language().unwrap().extension()",
            "t.language().unwrap().extension_subtags()",
            "t.script()",
            "t.region()",
            "t.variants()",
            "t.variants().iter()",
            "t.variants().first()",
            "t.variants().last()",
            "t.extensions()",
            "t.extensions().iter()",
            "t.extensions().iter().next().unwrap().iter()",
            "t.extensions().get(Singleton::new(b'a').ok().unwrap())",
            "t.extensions().iter_extension(Singleton::new(b'a').ok().unwrap())",
            "t.private_use()",
            "t.private_use().unwrap().iter()",
            "t.private_use_subtags()",
            "t.as_normal()",
            "t.as_private_use()",
            "t.as_typed()",
            "t.as_typed().language()",
            "t.as_typed().as_normal()",
            "t.as_typed().as_private_use()",
            "{ let y = t.as_typed(); y.as_normal().unwrap() }",
        ],
    ),
    (
        Prod::Langtag,
        TAG,
        &[
            "t.language()",
            "t.script()",
            "t.region()",
            "t.variants()",
            "t.variants().iter().next_back()",
            "t.extensions()",
            "t.extensions().iter().next()",
            "t.private_use()",
            "t.private_use_subtags()",
            "t.private_use_subtags().next()",
        ],
    ),
    (Prod::Privateuse, "x-a-b", &["t.iter()", "t.iter().next()"]),
    (
        Prod::Language,
        "en-aaa-bbb",
        &["t.primary()", "t.extension()", "t.extension().unwrap().iter()", "t.extension_subtags()", "t.extension_subtags().next()"],
    ),
    (Prod::Primary, "en", &[]),
    (Prod::Extlang, "aaa-bbb", &["t.iter()", "t.iter().next()"]),
    (Prod::ExtlangTag, "aaa", &[]),
    (Prod::Script, "Latn", &[]),
    (Prod::Region, "US", &[]),
    (Prod::Variant, "abcde", &[]),
    (Prod::Variants, "abcde-1234", &["t.iter()", "t.iter().next()", "t.iter().next_back()", "t.iter().rev()", "t.first()", "t.last()"]),
    (Prod::Extension, "a-bb-cc", &["t.iter()", "t.iter().next()"]),
    (
        Prod::Extensions,
        "a-bb-b-cc",
        &[
            "t.iter()",
            "t.iter().next()",
            "t.get(Singleton::new(b'a').ok().unwrap())",
            "t.iter_extension(Singleton::new(b'a').ok().unwrap())",
            "t.iter_extension(Singleton::new(b'a').ok().unwrap()).next()",
        ],
    ),
    (Prod::ExtensionSubtag, "aa", &[]),
    (Prod::PrivateuseSubtag, "a", &[]),
];

/// What every type has.
const VIEWS: [&str; 10] = [
    "t",
    "t.as_str()",
    "t.as_bytes()",
    "AsRef::<str>::as_ref(t)",
    "AsRef::<[u8]>::as_ref(t)",
    "std::borrow::Borrow::<str>::borrow(t)",
    "<&str>::from(t)",
    "<&[u8]>::from(t)",
    "AsRef::<T>::as_ref(t)",
    "std::iter::once(t)",
];
/// Constructors, of a text `s`.
const MAKES: [&str; 8] = [
    "T::new(s).unwrap()",
    "T::from_str(s).unwrap()",
    "T::from_bytes(s.as_bytes()).unwrap()",
    "<&T>::try_from(s).unwrap()",
    "<&T>::try_from(s.as_bytes()).unwrap()",
    "T::new(s)",
    "T::from_bytes(s.as_bytes()).err()",
    "unsafe { T::new_unchecked(s) }",
];

fn outlive(c: &Case) -> Result<Verdict, String> {
    let Ok(expr) = std::str::from_utf8(&c.c) else { return Ok(Verdict::Skip("no such use")) };
    let (p, text, reads) = READS[c.ty as usize % 15];
    let make = MAKES.contains(&expr);
    if !make && !reads.contains(&expr) && !VIEWS.contains(&expr) {
        return Ok(Verdict::Skip("no such use"));
    }
    let name = type_name(p).rsplit("::").next().unwrap();
    let head = format!(
        "#![allow(unused, clippy::all)] use langtag::*; fn hold<X>(_: &X) {{}} fn need<X: 'static>(_: X) {{}} type T = {name}; type B = {name}Buf; const S: &str = {text:?};\n"
    );
    // what must compile, and what must not
    let (good, bad): (Vec<String>, Vec<(&str, String)>) = if make {
        (
            vec![format!("pub fn a() {{ let o = String::from(S); let s: &str = &o; let r = {expr}; hold(&r); }}")],
            vec![
                ("the text is gone", format!("pub fn w() {{ let r; {{ let o = String::from(S); let s: &str = &o; r = {expr}; }} hold(&r); }}")),
                ("it is kept for ever", format!("pub fn x(s: &str) {{ need({expr}) }}")),
            ],
        )
    } else {
        let make = "let s = String::from(S); let t: &T = T::new(s.as_str()).ok().unwrap();";
        let own = "let mut o: B = B::new(String::from(S)).ok().unwrap();";
        (
            vec![
                format!("pub fn a() {{ {make} let r = {expr}; hold(&r); }}"),
                format!("pub fn b() {{ {own} let r = {{ let t: &T = &o; {expr} }}; hold(&r); drop(o); }}"),
            ],
            vec![
                ("the text is gone", format!("pub fn w() {{ let r; {{ {make} r = {expr}; }} hold(&r); }}")),
                ("the owned value is gone", format!("pub fn x() {{ {own} let r = {{ let t: &T = &o; {expr} }}; drop(o); hold(&r); }}")),
                ("the owned value is replaced", format!("pub fn y() {{ {own} let r = {{ let t: &T = &o; {expr} }}; o = B::new(String::from(S)).ok().unwrap(); hold(&r); }}")),
                ("it is kept for ever", format!("pub fn z(t: &T) {{ need({expr}) }}")),
            ],
        )
    };
    let dir = Scratch::new();
    let put = |n: &str, t: &str| {
        std::fs::write(dir.0.join(n), t).unwrap_or_else(|e| harness_error(&format!("{n}: {e}")));
    };
    put("good.rs", &format!("{head}{}\n", good.join("\n")));
    if !rustc(&dir.0.join("good.rs"), "lib", "metadata", &dir.0.join("out")).0 {
        return Ok(Verdict::Skip("the ordinary use does not compile"));
    }
    let mut t = head;
    for (_, l) in &bad {
        let _ = writeln!(t, "{l}");
    }
    put("bad.rs", &t);
    let (_, err) = rustc(&dir.0.join("bad.rs"), "lib", "metadata", &dir.0.join("out"));
    let (lines, lost) = error_lines(&err, "bad.rs");
    if !lost.is_empty() {
        harness_error(&format!("generated program: {}", lost.join("; ")));
    }
    for (i, (why, _)) in bad.iter().enumerate() {
        if !lines.contains(&(i + 2)) {
            return Err(format!("{name}: `{expr}` may still be used when {why}, the compiler allows it"));
        }
    }
    Ok(pass(true, "outliving use refused"))
}

fn check_l24(c: &Case) -> Verdict {
    match c.sub.as_str() {
        "outlive" => outlive(c).into(),
        "miri" => miri(c).into(),
        _ => asan(c).into(),
    }
}

fn outlives(a: &EnumArgs, sink: &mut Sink) {
    let mut i = 0;
    for (p, text, reads) in READS {
        for e in reads.iter().chain(&VIEWS).chain(&MAKES) {
            i += 1;
            if a.mine(i) && !sink(Case::new(text).ty(p).c(*e).sub("outlive")) {
                return;
            }
        }
    }
}

fn shaped(a: &EnumArgs, sink: &mut Sink) {
    let mut n = 0u64;
    let mut prev: Vec<u8> = b"en".to_vec();
    shapes(a, if a.thorough { 3 } else { 1 }, &mut |p| {
        n += 1;
        let s = glue(&p);
        let b = if n % 3 == 0 { recase(&s, mix(&[n])) } else { std::mem::replace(&mut prev, s.clone()) };
        let form = mix(&[n, a.seed]) & 0x35 | if n % 64 == 0 { 2 } else { 0 };
        let whole = if n % 2 == 0 { Prod::Langtag } else { Prod::LanguageTag };
        let cased = [s.to_ascii_lowercase(), s.to_ascii_uppercase()];
        sink(Case { n: form, ..Case::new(s).b(b).ty(whole) })
            && cased.into_iter().all(|s| sink(Case { n: form & 0x31, ..Case::new(s).b("en-us").ty(whole) }))
            && [(0, Prod::Language), (3, Prod::Variants), (4, Prod::Extensions), (5, Prod::Privateuse)]
                .into_iter()
                .filter(|(i, _)| !p[*i].is_empty() && mix(&[n, *i as u64]) % 4 == 0)
                .all(|(i, ty)| {
                    [p[i].to_ascii_lowercase(), p[i].to_ascii_uppercase(), p[i].clone()]
                        .into_iter()
                        .all(|s| sink(Case { n: form & 0x31, ..Case::new(s).b("aaa").ty(ty) }))
                })
    });
}

fn conformance(a: &EnumArgs, sink: &mut Sink) {
    for p in rfc::ALL {
        let mut n = 0u64;
        let mut prev: Vec<u8> = Vec::new();
        wmethod(p, 0, a, &mut |s| {
            n += 1;
            if matches!(p, Prod::LanguageTag | Prod::Langtag) && !a.thorough && mix(&[n, a.seed]) % 16 != 0 {
                return true;
            }
            let b = std::mem::replace(&mut prev, s.clone());
            sink(Case { n: mix(&[n, 3]) & 0x31, ..Case::new(s).b(b).ty(p) })
        });
    }
}

fn grandfathered_all(a: &EnumArgs, sink: &mut Sink) {
    let mut i = 0;
    for (t, _) in rfc::GRANDFATHERED {
        for s in spellings(t.as_bytes()) {
            for cut in [s.len(), s.len() - 1] {
                i += 1;
                if a.mine(i) && !sink(Case { n: (i % 2) as u64, ..Case::new(&s[..cut]).b(t).ty(Prod::LanguageTag) }) {
                    return;
                }
            }
        }
    }
}

fn long(a: &EnumArgs, sink: &mut Sink) {
    super::construct::long_values(a, &mut |c: Case| {
        if c.a.len() > if a.thorough { 4_000 } else { 1_200 } {
            return true;
        }
        let b = recase(&c.a, 0x5a5a_5a5a);
        sink(Case { b: b.into(), ..c })
    });
}

fn random() -> BoxedStrategy<Case> {
    let form = prop_oneof![12 => (0u64..64).prop_map(|f| f & 0x31), 1 => Just(2u64)];
    prod()
        .prop_flat_map(move |p| {
            let b = prop_oneof![input(p), valid(p)];
            (prop_oneof![2 => valid(p), 1 => input(p)], b, any::<bool>(), any::<u64>(), form.clone())
                .prop_map(move |(a, b, same, m, n)| {
                    let b = if same { recase(&a, m) } else { b };
                    Case { n, ..Case::new(a).b(b).ty(p) }
                })
        })
        .boxed()
}

/// Batches for the interpreter: short texts, most of them accepted.
fn batches(a: &EnumArgs, sink: &mut Sink) {
    let (batches, size) = if a.thorough { (16, 40) } else { (5, 24) };
    let mut r = runner(mix(&[a.seed, 24, a.shard as u64]));
    let one = prod().prop_flat_map(|p| (Just(p), prop_oneof![5 => valid(p), 1 => near(p), 1 => odd(p)], any::<u8>())).boxed();
    for n in 0..batches {
        let mut items = Vec::new();
        while items.len() < size {
            let (p, s, form) = match one.new_tree(&mut r) {
                Ok(t) => t.current(),
                Err(e) => harness_error(&format!("generator: {e}")),
            };
            if s.len() > 40 || s.len() < 12 && matches!(p, Prod::LanguageTag | Prod::Langtag) && form % 4 != 0 {
                continue;
            }
            // threads cost the most
            let form = form & 0x35 | if form % 16 == 7 { 2 } else { 0 };
            let mut i = vec![p as u8, form];
            i.extend(s);
            items.push(i.into());
        }
        if !sink(Case { items, n: a.seed.wrapping_add((n * a.shards + a.shard) as u64), ..Case::new("") }.sub("miri")) {
            return;
        }
    }
}

fn campaigns(t: bool) -> Vec<Campaign> {
    let k = if t { 5 } else { 1 };
    vec![
        Campaign { name: "sanitized: grandfathered tags", r#gen: Gen::Enum(grandfathered_all) },
        Campaign { name: "sanitized: component shapes", r#gen: Gen::Enum(shaped) },
        Campaign { name: "sanitized: conformance suites", r#gen: Gen::Enum(conformance) },
        Campaign { name: "sanitized: random texts", r#gen: Gen::Random(random, 120_000 * k) },
        Campaign { name: "sanitized: long values", r#gen: Gen::Enum(long) },
        Campaign { name: "uses that outlive the text", r#gen: Gen::Enum(outlives) },
        Campaign { name: "interpreted: random texts", r#gen: Gen::Enum(batches) },
    ]
}

pub static L24: Property = Property {
    hang: 600,
    id: "L24",
    rule: "Texts of every type walked through the whole safe API, borrowed and owned, alone and shared by two threads, in memory of exactly the text's size, under AddressSanitizer and (fewer) under Miri; generated programs that keep what each accessor returns longer than its text. Non-trivial: a non-empty accepted text, or a program; distinct by (type, form, texts).",
    check: check_l24,
    campaigns,
    assumptions: &[
        "AddressSanitizer sees accesses outside live allocations; Miri additionally sees invalid values, aliasing violations, races and lost memory, on the texts it is given",
        "an aliasing violation counts only if both of Miri's models report it; a panic is defined behaviour and left to L06",
    ],
};
