//! L25: the grammar file shipped with the crate describes exactly what it accepts.

use crate::abnf;
use crate::case::Case;
use crate::dfa::{self, Dfa};
use crate::engine::*;
use crate::r#gen::*;
use crate::per_type;
use crate::rfc::{self, Prod};
use crate::types::*;
use proptest::prelude::*;
use std::collections::{HashMap, VecDeque};
use std::path::{Path, PathBuf};
use std::sync::LazyLock;

fn find(dir: &Path, out: &mut Vec<PathBuf>) {
    let mut v: Vec<_> = std::fs::read_dir(dir).into_iter().flatten().flatten().map(|e| e.path()).collect();
    v.sort();
    for p in v {
        let name = p.file_name().and_then(|n| n.to_str()).unwrap_or("");
        if p.is_dir() {
            if name != "target" && !name.starts_with('.') {
                find(&p, out)
            }
        } else if name.ends_with(".abnf") {
            out.push(p)
        }
    }
}

enum File {
    Absent,
    Bad(String),
    /// an automaton for each type whose rule is there
    Good(Vec<Option<Dfa>>),
}

static FILE: LazyLock<File> = LazyLock::new(|| {
    let mut files = Vec::new();
    find(Path::new(concat!(env!("CARGO_MANIFEST_DIR"), "/../../repo")), &mut files);
    let texts: Vec<String> = files.iter().filter_map(|f| std::fs::read_to_string(f).ok()).collect();
    let Some(t) = texts.into_iter().find(|t| t.to_ascii_lowercase().contains("language-tag")) else { return File::Absent };
    match abnf::parse(&t) {
        Err(e) => File::Bad(e),
        Ok(rules) => File::Good(
            rfc::ALL
                .into_iter()
                .map(|p| {
                    let n = dfa::rule_name(p).to_ascii_lowercase();
                    rules.contains_key(&n).then(|| Dfa::compile(&rules, &n))
                })
                .collect(),
        ),
    }
});

fn file(p: Prod) -> Option<&'static Dfa> {
    match &*FILE {
        File::Good(v) => v[p as usize].as_ref(),
        _ => None,
    }
}

fn check(c: &Case) -> Verdict {
    let (p, s) = (c.prod(), &c.a[..]);
    if let File::Bad(e) = &*FILE {
        return Verdict::Fail(format!("the grammar file is not ABNF: {e}"));
    }
    let Some(d) = file(p) else { return Verdict::Skip("the grammar file has no such rule") };
    let want = d.matches(s);
    let got = per_type!(p, T, B, T::new(s).is_ok());
    if got != want {
        return Verdict::Fail(format!(
            "{} {} {:?}, which rule {} of the grammar file {}",
            type_name(p),
            if got { "accepts" } else { "rejects" },
            show(s),
            dfa::rule_name(p),
            if want { "accepts" } else { "rejects" }
        ));
    }
    let live = d.live_prefix(s);
    pass(
        want || live >= 2,
        if want {
            "accepted by both"
        } else if live == s.len() {
            "rejected by both, incomplete"
        } else {
            "rejected by both, dead"
        },
    )
}

fn of_file(a: &EnumArgs, sink: &mut Sink) {
    for p in rfc::ALL {
        let Some(d) = file(p) else {
            // reported once per type
            if a.mine(p as usize) && !sink(Case::new("en").ty(p)) {
                return;
            }
            continue;
        };
        let mut go = true;
        wmethod_of(d, if a.thorough { 2 } else { 1 }, a, &mut |s| {
            go = sink(Case::new(s).ty(p));
            go
        });
        if !go {
            return;
        }
    }
}

fn of_rfc(a: &EnumArgs, sink: &mut Sink) {
    for p in rfc::ALL {
        let mut go = true;
        wmethod(p, a.thorough as usize, a, &mut |s| {
            go = sink(Case::new(s).ty(p));
            go
        });
        if !go {
            return;
        }
    }
}

/// Every pair of states that the two automata reach together, with every suffix
/// that tells either state from others.
fn product(a: &EnumArgs, sink: &mut Sink) {
    for p in rfc::ALL {
        let Some(d) = file(p) else { continue };
        let r = dfa::get(p);
        let mut seen: HashMap<(usize, usize), Vec<u8>> = HashMap::from([((0, 0), vec![])]);
        let mut todo = VecDeque::from([(0, 0)]);
        let mut n = 0;
        while let Some((x, y)) = todo.pop_front() {
            let w = seen[&(x, y)].clone();
            n += 1;
            if a.mine(n) {
                let ends = d.idset[x].iter().chain(&r.idset[y]).chain(&d.finish[x]).chain(&r.finish[y]);
                for e in ends {
                    if !sink(Case::new([&w[..], e].concat()).ty(p)) {
                        return;
                    }
                }
            }
            for b in (b'a'..=b'z').chain(0..128) {
                let t = (d.next[x][b as usize] as usize, r.next[y][b as usize] as usize);
                seen.entry(t).or_insert_with(|| {
                    todo.push_back(t);
                    [&w[..], &[b]].concat()
                });
            }
        }
    }
}

fn campaigns(t: bool) -> Vec<Campaign> {
    let k = if t { 8 } else { 1 };
    vec![
        Campaign { name: "conformance suites of the file's automata", r#gen: Gen::Enum(of_file) },
        Campaign { name: "conformance suites of the RFC's automata", r#gen: Gen::Enum(of_rfc) },
        Campaign { name: "states both automata reach together", r#gen: Gen::Enum(product) },
        Campaign {
            name: "random values, edited values, segment soup, raw bytes",
            r#gen: Gen::Random(
                || prod().prop_flat_map(|p| input(p).prop_map(move |s| Case::new(s).ty(p))).boxed(),
                2_000_000 * k,
            ),
        },
    ]
}

pub static L25: Property = Property {
    hang: 60,
    id: "L25",
    rule: "(type, byte string) from the conformance suites of the automata compiled from the grammar file and from the RFC, all pairs of their states, and random structured input. Non-trivial: accepted by the file's rule, or rejected only after two characters of live prefix; distinct by (type, content).",
    check,
    campaigns,
    assumptions: &["the file is read as RFC 5234 ABNF; rules are matched with types by the names under which lib.rs exports them; the generator of the automata itself cannot be run here"],
};
