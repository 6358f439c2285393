//! L05 (exact decomposition), L20 (whole-tag accessors agree with the kind-specific view).

use crate::case::Case;
use crate::engine::*;
use crate::ensure;
use crate::r#gen::*;
use crate::rfc::{self, Decomp, Prod, RefKind};
use crate::types::*;
use langtag::*;
use proptest::prelude::*;

pub type R = std::ops::Range<usize>;

pub fn sub<'a>(s: &'a [u8], r: &R) -> &'a [u8] {
    &s[r.clone()]
}

/// Compare an iterator with the expected pieces, byte for byte.
pub fn same_list<'a>(what: &str, s: &[u8], got: impl Iterator<Item = &'a [u8]>, want: &[R]) -> Result<(), String> {
    let mut n = 0;
    for g in got.take(want.len() + 2) {
        ensure!(n < want.len(), "{what} of {:?}: an extra element {:?} after {n}", show(s), show(g));
        ensure!(
            g == sub(s, &want[n]),
            "{what} of {:?}: element {n} is {:?}, RFC 5646 says {:?}",
            show(s),
            show(g),
            show(sub(s, &want[n]))
        );
        n += 1;
    }
    ensure!(n == want.len(), "{what} of {:?}: {n} elements, RFC 5646 says {}", show(s), want.len());
    Ok(())
}

fn same_opt(what: &str, s: &[u8], got: Option<&[u8]>, want: &Option<R>) -> Result<(), String> {
    let w = want.as_ref().map(|r| sub(s, r));
    ensure!(
        got == w,
        "{what} of {:?} is {:?}, RFC 5646 says {:?}",
        show(s),
        got.map(show),
        w.map(show)
    );
    Ok(())
}

/// All components of a normal tag against the reference decomposition.
pub fn same_components(t: &NormalLangTag, s: &[u8], d: &Decomp) -> Result<(), String> {
    let lang = t.language();
    same_opt("language", s, Some(lang.as_bytes()), &Some(d.language.clone()))?;
    same_opt("primary language", s, Some(lang.primary().as_bytes()), &Some(d.primary.clone()))?;
    same_opt("extended language list", s, lang.extension().map(|e| e.as_bytes()), &d.extlang_range())?;
    same_list("extended languages", s, lang.extension_subtags().map(|e| e.as_bytes()), &d.extlangs)?;
    same_opt("script", s, t.script().map(|e| e.as_bytes()), &d.script)?;
    same_opt("region", s, t.region().map(|e| e.as_bytes()), &d.region)?;
    same_opt("variant list", s, Some(t.variants().as_bytes()), &Some(d.variants_range().unwrap_or(0..0)))?;
    same_list("variants", s, t.variants().iter().map(|e| e.as_bytes()), &d.variants)?;
    same_opt("extension list", s, Some(t.extensions().as_bytes()), &Some(d.extensions_range().unwrap_or(0..0)))?;
    let exts: Vec<R> = d.extensions.iter().map(|e| e.range.clone()).collect();
    same_list("extensions", s, t.extensions().iter().map(|e| e.as_bytes()), &exts)?;
    same_opt("private-use part", s, t.private_use().map(|e| e.as_bytes()), &d.private)?;
    same_list("private-use subtags", s, t.private_use_subtags().map(|e| e.as_bytes()), &d.private_subtags)?;
    // the components rebuild the tag
    let built = glue(&[
        t.language().as_bytes().to_vec(),
        t.script().map(|v| v.as_bytes().to_vec()).unwrap_or_default(),
        t.region().map(|v| v.as_bytes().to_vec()).unwrap_or_default(),
        t.variants().as_bytes().to_vec(),
        t.extensions().as_bytes().to_vec(),
        t.private_use().map(|v| v.as_bytes().to_vec()).unwrap_or_default(),
    ]);
    ensure!(built == s, "the components of {:?} join to {:?}", show(s), show(&built));
    Ok(())
}

fn l05(s: &[u8]) -> Result<Verdict, String> {
    let Some(d) = rfc::parse_langtag(s) else { return Ok(Verdict::Skip("not a normal tag")) };
    let Ok(t) = NormalLangTag::new(s) else { return Ok(Verdict::Skip("normal tag rejected by the crate")) };
    same_components(t, s, &d)?;
    let o = t.to_owned();
    same_components(&o, s, &d)?;
    let class = match d.weight() {
        0 => "language only",
        1 => "one further component",
        2 => "two further components",
        3 => "three further components",
        4 => "four further components",
        5 => "five further components",
        _ => "all components",
    };
    Ok(pass(d.weight() >= 1, class))
}

fn check_l05(c: &Case) -> Verdict {
    l05(&c.a).into()
}

fn shape_tags(a: &EnumArgs, sink: &mut Sink) {
    shapes(a, if a.thorough { 40 } else { 5 }, &mut |p| sink(Case::new(glue(&p))));
}

/// All short sequences of telling segments after a language: every way the pieces can be read.
pub fn segment_words(a: &EnumArgs, sink: &mut Sink) {
    const PIECES: [&str; 17] = [
        "en", "abc", "Latn", "12ab", "a1b2", "x9", "us", "419", "12345", "variant", "variant8", "a", "B", "0", "x",
        "X", "extlang",
    ];
    let depth = if a.thorough { 6 } else { 5 };
    let mut idx = 0;
    for len in 0..=depth {
        let total = PIECES.len().pow(len as u32);
        for i in 0..total {
            idx += 1;
            if !a.mine(idx) {
                continue;
            }
            let mut s =
                ["en", "abc", "abcd", "Abcdefgh"][mix(&[i as u64, len as u64, a.seed]) as usize % 4].to_string();
            let mut x = i;
            for _ in 0..len {
                s.push('-');
                s.push_str(PIECES[x % PIECES.len()]);
                x /= PIECES.len();
            }
            if rfc::parse_langtag(s.as_bytes()).is_some() && !sink(Case::new(s.as_str())) {
                return;
            }
        }
    }
}

pub fn long_tags(a: &EnumArgs, sink: &mut Sink) {
    long_parts(a, 280, if a.thorough { usize::MAX } else { 140_000 }, &mut |p| sink(Case::new(glue(&p))));
}

fn normal_or_near() -> BoxedStrategy<Case> {
    prop_oneof![9 => valid(Prod::Langtag), 1 => near(Prod::Langtag)].prop_map(Case::new).boxed()
}

fn l05_campaigns(th: bool) -> Vec<Campaign> {
    let k = if th { 6 } else { 1 };
    vec![
        Campaign { name: "component shapes", r#gen: Gen::Enum(shape_tags) },
        Campaign { name: "all short sequences of telling segments", r#gen: Gen::Enum(segment_words) },
        Campaign { name: "random normal tags", r#gen: Gen::Random(normal_or_near, 4_500_000 * k) },
        Campaign { name: "long tags", r#gen: Gen::Enum(long_tags) },
    ]
}

pub static L05: Property = Property {
    hang: 60,
    id: "L05",
    rule: "Normal tags from every combination of component shapes (presence, counts, neighbour lengths), all short sequences of telling segments, random structured tags, and long tags; every component compared byte for byte with the independent decomposition, and rejoined. Non-trivial: at least one optional component present; distinct by content.",
    check: check_l05,
    campaigns: l05_campaigns,
    assumptions: &["the reference decomposer (segment-based, deterministic by the grammar's disjoint segment classes)"],
};

// ------------------------------------------------------------------- L20

fn l20(a: &[u8]) -> Result<Verdict, String> {
    let Some(kind) = rfc::kind(a) else { return Ok(Verdict::Skip("not a tag")) };
    let Ok(t) = LangTag::new(a) else { return Ok(Verdict::Skip("tag rejected by the crate")) };
    let got_lang = t.language().map(|l| l.as_bytes());
    let typed = t.as_typed();
    let typed_lang = typed.language().map(|l| l.as_bytes());
    match kind {
        RefKind::Normal => {
            let Ok(n) = NormalLangTag::new(a) else { return Ok(Verdict::Skip("normal tag rejected by the crate")) };
            macro_rules! same {
                ($name:literal, $x:expr, $y:expr) => {{
                    let (x, y): (Option<&[u8]>, Option<&[u8]>) = ($x, $y);
                    ensure!(x == y, "{} of {:?}: the tag says {:?}, its normal view {:?}", $name, show(a), x.map(show), y.map(show));
                }};
            }
            same!("language", got_lang, Some(n.language().as_bytes()));
            same!("language of the typed view", typed_lang, Some(n.language().as_bytes()));
            same!("script", t.script().map(|v| v.as_bytes()), n.script().map(|v| v.as_bytes()));
            same!("region", t.region().map(|v| v.as_bytes()), n.region().map(|v| v.as_bytes()));
            same!("variants", Some(t.variants().as_bytes()), Some(n.variants().as_bytes()));
            same!("extensions", Some(t.extensions().as_bytes()), Some(n.extensions().as_bytes()));
            same!("private-use part", t.private_use().map(|v| v.as_bytes()), n.private_use().map(|v| v.as_bytes()));
            let cap = a.len() + 2;
            let x: Vec<&[u8]> = t.private_use_subtags().take(cap).map(|v| v.as_bytes()).collect();
            let y: Vec<&[u8]> = n.private_use_subtags().take(cap).map(|v| v.as_bytes()).collect();
            ensure!(x == y, "private-use subtags of {:?}: the tag and its normal view differ", show(a));
            let w = rfc::parse_langtag(a).map(|d| d.weight()).unwrap_or(0);
            Ok(pass(w > 0, if w == 0 { "normal, language only" } else { "normal" }))
        }
        RefKind::PrivateUse | RefKind::Grandfathered(_) => {
            let want = match kind {
                RefKind::Grandfathered(i) => rfc::GRANDFATHERED[i].1,
                _ => None,
            };
            for (who, l) in [("tag", got_lang), ("typed view", typed_lang)] {
                ensure!(
                    l.map(rfc::fold) == want.map(|w| w.as_bytes().to_vec()),
                    "language of the {who} {:?} is {:?}, expected {:?}",
                    show(a),
                    l.map(show),
                    want
                );
            }
            macro_rules! none {
                ($name:literal, $e:expr) => {{
                    let e = $e;
                    ensure!(e.is_none(), "{:?} is not normal but has {} {:?}", show(a), $name, e);
                }};
            }
            none!("a script", t.script());
            none!("a region", t.region());
            none!("variants", Some(t.variants()).filter(|v| !v.as_bytes().is_empty()));
            none!("a variant", t.variants().iter().next());
            none!("extensions", Some(t.extensions()).filter(|v| !v.as_bytes().is_empty()));
            none!("an extension", t.extensions().iter().next());
            none!("a private-use part", t.private_use());
            none!("a private-use subtag", t.private_use_subtags().next());
            Ok(pass(
                true,
                if kind == RefKind::PrivateUse {
                    "private use"
                } else if want.is_some() {
                    "grandfathered, regular"
                } else {
                    "grandfathered, irregular"
                },
            ))
        }
    }
}

fn check_l20(c: &Case) -> Verdict {
    l20(&c.a).into()
}

fn l20_campaigns(th: bool) -> Vec<Campaign> {
    let k = if th { 6 } else { 1 };
    vec![
        Campaign { name: "grandfathered tags in every spelling", r#gen: Gen::Enum(all_grandfathered) },
        Campaign {
            name: "component shapes",
            r#gen: Gen::Enum(|a, sink| {
                shapes(a, if a.thorough { 20 } else { 2 }, &mut |p| sink(Case::new(glue(&p))))
            }),
        },
        Campaign { name: "random tags of every kind", r#gen: Gen::Random(tag_cases, 5_000_000 * k) },
        Campaign { name: "long tags", r#gen: Gen::Enum(long_tags) },
    ]
}

pub fn tag_cases() -> BoxedStrategy<Case> {
    prop_oneof![
        6 => any_tag(),
        1 => grandfathered(),
        2 => near_grandfathered(),
        2 => privateuse(),
        2 => near(Prod::LanguageTag),
    ]
    .prop_map(Case::new)
    .boxed()
}

/// Every spelling of each grandfathered tag, and its well-formed neighbours.
pub fn all_grandfathered(a: &EnumArgs, sink: &mut Sink) {
    let ab: Vec<u8> = (b'a'..=b'z').chain(b'A'..=b'Z').chain(b'0'..=b'9').chain([b'-']).collect();
    for (i, (t, _)) in rfc::GRANDFATHERED.iter().enumerate() {
        if !a.mine(i) {
            continue;
        }
        for s in spellings(t.as_bytes()) {
            if !sink(Case::new(s)) {
                return;
            }
        }
        if !neighbours(t.as_bytes(), &ab, &mut |v| rfc::kind(&v).is_none() || sink(Case::new(v))) {
            return;
        }
        for tail in ["x-a", "latn", "us", "variant", "a-bc", "1994", "abc", "u-co-phonebk-x-y"] {
            let s = format!("{t}-{tail}");
            if rfc::kind(s.as_bytes()).is_some() && !sink(Case::new(s.as_str())) {
                return;
            }
        }
    }
}

pub static L20: Property = Property {
    hang: 60,
    id: "L20",
    rule: "Well-formed tags of every kind (kind decided by the reference): every whole-tag accessor compared with the normal view, or with the absence RFC 5646 gives other kinds. Non-trivial: not a bare language; distinct by content.",
    check: check_l20,
    campaigns: l20_campaigns,
    assumptions: &["for normal tags the normal view itself is the oracle (its correctness is L05)"],
};
