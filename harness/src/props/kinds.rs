//! L09 (one kind, all classifiers agree), L10 (the 26 grandfathered tags).

use crate::case::Case;
use crate::engine::*;
use crate::ensure;
use crate::r#gen::*;
use crate::props::decompose::{all_grandfathered, tag_cases};
use crate::rfc::{self, Prod, RefKind};
use crate::types::*;
use langtag::*;
use proptest::prelude::*;

fn l09_tag(t: &LangTag, a: &[u8], kind: RefKind, how: &str) -> Result<(), String> {
    let k = match kind {
        RefKind::Normal => Kind::Normal,
        RefKind::PrivateUse => Kind::PrivateUse,
        RefKind::Grandfathered(_) => Kind::Grandfathered,
    };
    let (n, p, g) = (k == Kind::Normal, k == Kind::PrivateUse, k == Kind::Grandfathered);
    macro_rules! is {
        ($($name:literal : $e:expr => $w:expr),* $(,)?) => { $(
            ensure!($e == $w, "{how}: {} of {:?} (a {k:?} tag) is {:?}", $name, show(a), $e);
        )* };
    }
    let ty = t.as_typed();
    is! {
        "kind()": t.kind() => k,
        "is_normal()": t.is_normal() => n,
        "is_private_use()": t.is_private_use() => p,
        "is_grandfathered()": t.is_grandfathered() => g,
        "as_normal().is_some()": t.as_normal().is_some() => n,
        "as_private_use().is_some()": t.as_private_use().is_some() => p,
        "as_grandfathered().is_some()": t.as_grandfathered().is_some() => g,
        "as_typed().kind()": ty.kind() => k,
        "as_typed().is_normal()": ty.is_normal() => n,
        "as_typed().is_private_use()": ty.is_private_use() => p,
        "as_typed().is_grandfathered()": ty.is_grandfathered() => g,
        "as_typed().as_normal().is_some()": ty.as_normal().is_some() => n,
        "as_typed().as_private_use().is_some()": ty.as_private_use().is_some() => p,
        "as_typed().as_grandfathered().is_some()": ty.as_grandfathered().is_some() => g,
        "kind().is_normal()": t.kind().is_normal() => n,
        "kind().is_private_use()": t.kind().is_private_use() => p,
        "kind().is_grandfathered()": t.kind().is_grandfathered() => g,
    }
    let (variant, text) = match ty {
        TypedLangTag::Normal(v) => (Kind::Normal, v.as_bytes().to_vec()),
        TypedLangTag::PrivateUse(v) => (Kind::PrivateUse, v.as_bytes().to_vec()),
        TypedLangTag::Grandfathered(v) => (Kind::Grandfathered, v.as_bytes().to_vec()),
    };
    ensure!(variant == k, "{how}: the typed view of {:?} (a {k:?} tag) is the {variant:?} variant", show(a));
    ensure!(rfc::fold(&text) == rfc::fold(a), "{how}: the typed view of {:?} holds {:?}", show(a), show(&text));
    for v in [t.as_normal(), ty.as_normal()].into_iter().flatten() {
        ensure!(v.as_bytes() == a, "{how}: as_normal of {:?} gives {:?}", show(a), show(v.as_bytes()));
    }
    for v in [t.as_private_use(), ty.as_private_use()].into_iter().flatten() {
        ensure!(v.as_bytes() == a, "{how}: as_private_use of {:?} gives {:?}", show(a), show(v.as_bytes()));
    }
    for v in [t.as_grandfathered(), ty.as_grandfathered()].into_iter().flatten() {
        ensure!(rfc::fold(v.as_bytes()) == rfc::fold(a), "{how}: as_grandfathered of {:?} gives {:?}", show(a), show(v.as_bytes()));
    }
    Ok(())
}

fn l09(a: &[u8]) -> Result<Verdict, String> {
    let Some(kind) = rfc::kind(a) else { return Ok(Verdict::Skip("not a tag")) };
    let Ok(t) = LangTag::new(a) else { return Ok(Verdict::Skip("tag rejected by the crate")) };
    l09_tag(t, a, kind, "borrowed")?;
    l09_tag(&t.to_owned(), a, kind, "owned")?;
    let class = match kind {
        RefKind::Normal => {
            let f = rfc::fold(&a[..a.len().min(12)]);
            let beside = |g: &str| f.starts_with(&rfc::fold(&g.as_bytes()[..g.len() - 1]));
            if rfc::GRANDFATHERED.iter().any(|(g, _)| beside(g)) { "normal, next to a grandfathered tag" } else { "normal" }
        }
        RefKind::PrivateUse => "private use",
        RefKind::Grandfathered(i) if rfc::GRANDFATHERED[i].1.is_some() => "grandfathered, regular",
        RefKind::Grandfathered(_) => "grandfathered, irregular",
    };
    Ok(pass(class != "normal" || a.contains(&b'-'), class))
}

fn check_l09(c: &Case) -> Verdict {
    l09(&c.a).into()
}

fn conformance(a: &EnumArgs, sink: &mut Sink) {
    for p in [Prod::LanguageTag, Prod::Langtag, Prod::Privateuse] {
        let mut go = true;
        wmethod(p, 1, a, &mut |s| {
            if rfc::kind(&s).is_some() {
                go = sink(Case::new(s));
            }
            go
        });
        if !go {
            return;
        }
    }
}

fn l09_campaigns(th: bool) -> Vec<Campaign> {
    let k = if th { 6 } else { 1 };
    vec![
        Campaign { name: "grandfathered tags in every spelling, and well-formed neighbours", r#gen: Gen::Enum(all_grandfathered) },
        Campaign { name: "accepted strings of the conformance suites", r#gen: Gen::Enum(conformance) },
        Campaign {
            name: "component shapes",
            r#gen: Gen::Enum(|a, sink| {
                shapes(a, if a.thorough { 6 } else { 1 }, &mut |p| sink(Case::new(glue(&p))))
            }),
        },
        Campaign { name: "random tags of every kind", r#gen: Gen::Random(tag_cases, 6_000_000 * k) },
        Campaign {
            name: "long tags",
            r#gen: Gen::Enum(|a, sink| {
                long_parts(a, 150, if a.thorough { usize::MAX } else { 140_000 }, &mut |p| {
                    sink(Case::new(glue(&p))) && (p[5].len() < 20 || sink(Case::new(p[5].clone())))
                });
            }),
        },
    ]
}

pub static L09: Property = Property {
    hang: 60,
    id: "L09",
    rule: "Well-formed tags, kind decided by the reference; 17 classifier queries on the borrowed and owned tag, its typed view and its kind are compared with it. Non-trivial: not a bare language; distinct by content.",
    check: check_l09,
    campaigns: l09_campaigns,
    assumptions: &["a regular grandfathered tag is grandfathered, not normal (RFC 5646 2.2.8, and the crate's own GrandfatheredLangTag::language)"],
};

// ------------------------------------------------------------------- L10

use GrandfatheredLangTag as G;
/// The enumeration's constants, in the order of `rfc::GRANDFATHERED`.
const VALUES: [GrandfatheredLangTag; 26] = [
    G::EnGbOed, G::IAmi, G::IBnn, G::IDefault, G::IEnochian, G::IHak, G::IKlingon, G::ILux, G::IMingo, G::INavajo,
    G::IPwn, G::ITao, G::ITay, G::ITsu, G::SgnBeFr, G::SgnBeNl, G::SgnChDe, G::ArtLojban, G::CelGaulish, G::NoBok,
    G::NoNyn, G::ZhGuoyu, G::ZhHakka, G::ZhMin, G::ZhMinNan, G::ZhXiang,
];

fn l10_table(i: usize) -> Result<Verdict, String> {
    let (text, lang) = rfc::GRANDFATHERED[i];
    let v = VALUES[i];
    ensure!(v.as_str() == text, "the value for {text:?} reads {:?}", v.as_str());
    ensure!(v.as_bytes() == text.as_bytes(), "the value for {text:?} has bytes {:?}", show(v.as_bytes()));
    ensure!(v.to_string() == text, "the value for {text:?} displays {:?}", v.to_string());
    let listed = GRANDFATHERED.iter().filter(|g| **g == v).count();
    ensure!(listed == 1, "{text:?} is listed {listed} times in the table");
    ensure!(GRANDFATHERED.len() == 26, "the table has {} entries", GRANDFATHERED.len());
    for (j, w) in VALUES.iter().enumerate() {
        ensure!((v == *w) == (i == j), "the values for {text:?} and {:?} are not told apart", rfc::GRANDFATHERED[j].0);
    }
    let l = v.language().map(|l| l.as_str().to_ascii_lowercase());
    ensure!(l.as_deref() == lang, "the language of {text:?} is {l:?}, expected {lang:?}");
    Ok(pass(true, "table entry"))
}

fn l10(c: &Case) -> Result<Verdict, String> {
    if c.sub == "table" {
        return l10_table(c.n as usize % 26);
    }
    let a = &c.a[..];
    let want = rfc::grandfathered(a);
    let route = |name: &str, got: Option<G>| -> Result<(), String> {
        match (got, want) {
            (Some(v), Some(i)) => {
                let text = rfc::GRANDFATHERED[i].0;
                ensure!(v == VALUES[i], "{name} of {:?} gives the value {:?}, expected {text:?}", show(a), v.as_str());
                ensure!(v.as_str() == text, "{name} of {:?} reads {:?}, not the registered {text:?}", show(a), v.as_str());
                ensure!(v.to_string() == text, "{name} of {:?} displays {:?}, not the registered {text:?}", show(a), v.to_string());
                ensure!(G::new(v.as_str()) == Ok(v), "the text of {:?} does not parse back to the same value", show(a));
                let lang = rfc::GRANDFATHERED[i].1;
                let l = v.language().map(|l| l.as_str().to_ascii_lowercase());
                ensure!(l.as_deref() == lang, "the language of {:?} is {l:?}, expected {lang:?}", show(a));
                Ok(())
            }
            (None, None) => Ok(()),
            (Some(v), None) => Err(format!("{name} recognises {:?} as {:?}", show(a), v.as_str())),
            (None, Some(i)) => Err(format!("{name} does not recognise {:?} (registered as {:?})", show(a), rfc::GRANDFATHERED[i].0)),
        }
    };
    route("GrandfatheredLangTag::new", G::new(a).ok())?;
    route("GrandfatheredLangTag::new(Vec)", G::new(a.to_vec()).ok())?;
    route("GrandfatheredLangTag::try_from", G::try_from(a).ok())?;
    if let Ok(s) = std::str::from_utf8(a) {
        route("GrandfatheredLangTag::new(str)", G::new(s).ok())?;
        route("GrandfatheredLangTag::new(String)", G::new(s.to_string()).ok())?;
    }
    if let Ok(t) = LangTag::new(a) {
        route("LangTag::as_grandfathered", t.as_grandfathered())?;
        route("LangTag::as_typed", t.as_typed().as_grandfathered())?;
    }
    if want.is_some() {
        return Ok(pass(true, "grandfathered spelling"));
    }
    // sharing most of a registered tag
    let near = (4..=13).contains(&a.len())
        && rfc::GRANDFATHERED.iter().any(|(g, _)| {
            let g = g.as_bytes();
            let common = g.iter().zip(a).take_while(|(x, y)| x.eq_ignore_ascii_case(y)).count();
            common + 2 >= g.len().min(a.len()) || common >= 3
        });
    Ok(pass(near, if near { "near a grandfathered tag" } else { "other" }))
}

fn check_l10(c: &Case) -> Verdict {
    l10(c).into()
}

fn l10_edits(a: &EnumArgs, sink: &mut Sink) {
    let bytes: Vec<u8> = (0..=255).collect();
    for (i, (t, _)) in rfc::GRANDFATHERED.iter().enumerate() {
        if !a.mine(i) {
            continue;
        }
        for s in spellings(t.as_bytes()) {
            if !sink(Case::new(s)) {
                return;
            }
        }
        for m in [0, u64::MAX, a.seed.wrapping_mul(0x9e3779b97f4a7c15), 0x5555] {
            let s = recase(t.as_bytes(), m);
            if !neighbours(&s, &bytes, &mut |v| sink(Case::new(v))) {
                return;
            }
        }
    }
}

fn l10_splices(a: &EnumArgs, sink: &mut Sink) {
    let ab = b"aAzZ09-@[`{_iIkKsS\x1a\x0d";
    for (i, (t, _)) in rfc::GRANDFATHERED.iter().enumerate() {
        if !a.mine(i) {
            continue;
        }
        let t = t.as_bytes();
        let mut out: Vec<Vec<u8>> = vec![];
        for x in 0..t.len() {
            for y in 0..t.len() {
                for b in ab {
                    let mut v = t.to_vec();
                    v[x] = *b;
                    v.swap(x, y);
                    out.push(v);
                }
                for bit in 0..8 {
                    let mut v = t.to_vec();
                    v[x] ^= 1 << bit;
                    v[y] ^= 0x20;
                    out.push(v);
                }
            }
        }
        for (u, _) in rfc::GRANDFATHERED {
            let u = u.as_bytes();
            out.push([t, b"-", u].concat());
            out.push([t, u].concat());
            for cut in 0..=t.len() {
                out.push([&t[..cut], &u[cut.min(u.len())..]].concat());
            }
        }
        for v in out {
            if !sink(Case::new(v)) {
                return;
            }
        }
    }
}

fn l10_random() -> BoxedStrategy<Case> {
    let edited = (grandfathered(), edits(1, 3)).prop_map(|(mut s, es)| {
        for e in &es {
            edit(&mut s, e)
        }
        s
    });
    prop_oneof![3 => near_grandfathered(), 4 => edited, 1 => input(Prod::LanguageTag)].prop_map(Case::new).boxed()
}

fn l10_campaigns(th: bool) -> Vec<Campaign> {
    let k = if th { 6 } else { 1 };
    vec![
        Campaign {
            name: "the table",
            r#gen: Gen::Enum(|a, sink| {
                for n in 0..26 {
                    if a.mine(n) && !sink(Case { n: n as u64, sub: "table".into(), ..Default::default() }) {
                        return;
                    }
                }
            }),
        },
        Campaign { name: "every spelling of each tag, and every single-byte edit of several spellings", r#gen: Gen::Enum(l10_edits) },
        Campaign { name: "two-place edits, splices and concatenations of registered tags", r#gen: Gen::Enum(l10_splices) },
        Campaign { name: "random near-grandfathered text and other input", r#gen: Gen::Random(l10_random, 10_000_000 * k) },
    ]
}

pub static L10: Property = Property {
    hang: 60,
    id: "L10",
    rule: "Every letter-case spelling of the 26 registered tags, every single-byte edit of several spellings, two-place edits, splices and concatenations, random edits, and the enumeration's constants themselves. Non-trivial: a spelling of a registered tag, a table entry, or text sharing most of one; distinct by content.",
    check: check_l10,
    campaigns: l10_campaigns,
    assumptions: &["the list of 26 tags and the nine regular languages as transcribed from RFC 5646"],
};
