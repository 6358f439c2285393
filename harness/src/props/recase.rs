//! L15: changing letter case never changes how a tag is understood.

use crate::case::Case;
use crate::engine::*;
use crate::r#gen::*;
use crate::rfc::{self, Prod};
use crate::types::*;
use crate::{ensure, per_type};
use langtag::*;
use proptest::prelude::*;

/// Byte offsets of a part within the whole.
fn at(whole: &[u8], part: &[u8]) -> (isize, usize) {
    (part.as_ptr() as isize - whole.as_ptr() as isize, part.len())
}

/// Everything a tag says about itself, with text as positions (or folded).
#[derive(Default, PartialEq, Debug)]
struct View {
    facts: Vec<(&'static str, String)>,
}
impl View {
    fn put(&mut self, k: &'static str, v: impl std::fmt::Debug) {
        self.facts.push((k, format!("{v:?}")));
    }
}

fn language(v: &mut View, w: &[u8], l: &Language) {
    v.put("language", at(w, l.as_bytes()));
    v.put("primary language", at(w, l.primary().as_bytes()));
    v.put("extended language", l.extension().map(|e| at(w, e.as_bytes())));
    v.put("extended subtags", l.extension_subtags().take(w.len() + 8).map(|e| at(w, e.as_bytes())).collect::<Vec<_>>());
}
fn variants(v: &mut View, w: &[u8], l: &Variants) {
    v.put("variants", at(w, l.as_bytes()));
    v.put("variant list", l.iter().take(w.len() + 8).map(|e| at(w, e.as_bytes())).collect::<Vec<_>>());
    v.put("variant list, reversed", l.iter().rev().take(w.len() + 8).map(|e| at(w, e.as_bytes())).collect::<Vec<_>>());
    v.put("first variant", l.first().map(|e| at(w, e.as_bytes())));
    v.put("last variant", l.last().map(|e| at(w, e.as_bytes())));
}
fn extensions(v: &mut View, w: &[u8], l: &Extensions) {
    v.put("extensions", at(w, l.as_bytes()));
    for e in l.iter().take(w.len() + 8) {
        v.put("extension", at(w, e.as_bytes()));
        v.put("singleton", rfc::fold(&[e.singleton().unwrap()]));
        v.put("extension subtags", e.iter().take(w.len() + 8).map(|e| at(w, e.as_bytes())).collect::<Vec<_>>());
    }
    for s in (0..128u8).filter_map(|b| Singleton::new(b).ok()) {
        if let Some(e) = l.get(s) {
            v.put("lookup", (s.unwrap(), at(w, e.as_bytes())));
        }
        let it: Vec<_> = l.iter_extension(s).take(w.len() + 8).map(|e| at(w, e.as_bytes())).collect();
        if !it.is_empty() {
            v.put("iteration by singleton", (s.unwrap(), it));
        }
    }
}
fn private(v: &mut View, w: &[u8], p: &PrivateUse) {
    v.put("private use", at(w, p.as_bytes()));
    v.put("private-use subtags", p.iter().take(w.len() + 8).map(|e| at(w, e.as_bytes())).collect::<Vec<_>>());
}
fn normal(v: &mut View, w: &[u8], t: &NormalLangTag) {
    language(v, w, t.language());
    v.put("script", t.script().map(|e| at(w, e.as_bytes())));
    v.put("region", t.region().map(|e| at(w, e.as_bytes())));
    // an empty list has no position
    if !t.variants().as_bytes().is_empty() {
        variants(v, w, t.variants());
    }
    if !t.extensions().as_bytes().is_empty() {
        extensions(v, w, t.extensions());
    }
    match t.private_use() {
        Some(p) => private(v, w, p),
        None => v.put("private use", "none"),
    }
    v.put("private-use subtags of the tag", t.private_use_subtags().take(w.len() + 8).map(|e| at(w, e.as_bytes())).collect::<Vec<_>>());
}

fn view(p: Prod, a: &[u8]) -> Option<View> {
    let mut v = View::default();
    let w = a;
    match p {
        Prod::LanguageTag => {
            let t = LangTag::new(a).ok()?;
            v.put("kind", (t.kind(), t.is_normal(), t.is_private_use(), t.is_grandfathered()));
            v.put("grandfathered", t.as_grandfathered().map(|g| g.as_str().to_string()));
            match t.as_typed() {
                TypedLangTag::Normal(n) => {
                    v.put("typed", "normal");
                    normal(&mut v, w, n)
                }
                TypedLangTag::PrivateUse(p) => {
                    v.put("typed", "private use");
                    private(&mut v, w, p)
                }
                TypedLangTag::Grandfathered(g) => v.put("typed", g.as_str()),
            }
            if t.as_grandfathered().is_some() {
                v.put("language of the tag", t.language().map(|l| l.as_str().to_string()));
            } else {
                v.put("language of the tag", t.language().map(|l| at(w, l.as_bytes())));
            }
            v.put("script of the tag", t.script().map(|l| at(w, l.as_bytes())));
            v.put("region of the tag", t.region().map(|l| at(w, l.as_bytes())));
            v.put("variants of the tag", t.variants().iter().take(w.len() + 8).map(|l| at(w, l.as_bytes())).collect::<Vec<_>>());
            v.put("extensions of the tag", t.extensions().iter().take(w.len() + 8).map(|l| at(w, l.as_bytes())).collect::<Vec<_>>());
            v.put("private use of the tag", t.private_use().map(|l| at(w, l.as_bytes())));
        }
        Prod::Langtag => normal(&mut v, w, NormalLangTag::new(a).ok()?),
        Prod::Privateuse => private(&mut v, w, PrivateUse::new(a).ok()?),
        Prod::Language => language(&mut v, w, Language::new(a).ok()?),
        Prod::Extlang => {
            let l = LanguageExtension::new(a).ok()?;
            v.put("subtags", l.iter().take(w.len() + 8).map(|e| at(w, e.as_bytes())).collect::<Vec<_>>());
        }
        Prod::Variants => variants(&mut v, w, Variants::new(a).ok()?),
        Prod::Extensions => extensions(&mut v, w, Extensions::new(a).ok()?),
        Prod::Extension => {
            let e = Extension::new(a).ok()?;
            v.put("singleton", rfc::fold(&[e.singleton().unwrap()]));
            v.put("subtags", e.iter().take(w.len() + 8).map(|e| at(w, e.as_bytes())).collect::<Vec<_>>());
        }
        _ => {
            if !accepts(p, a) {
                return None;
            }
        }
    }
    Some(v)
}

fn l15(c: &Case) -> Result<Verdict, String> {
    let (a, b) = (&c.a[..], &c.b[..]);
    if rfc::fold(a) != rfc::fold(b) {
        return Ok(Verdict::Skip("not a re-spelling"));
    }
    let p = c.prod();
    let mut accepted = false;
    for q in rfc::ALL {
        let (x, y) = (accepts(q, a), accepts(q, b));
        accepted |= x;
        ensure!(
            x == y,
            "{} {} {:?} but {} its re-spelling {:?}",
            type_name(q),
            if x { "accepts" } else { "rejects" },
            show(a),
            if y { "accepts" } else { "rejects" },
            show(b)
        );
        if x {
            per_type!(q, T, B, {
                let (Ok(va), Ok(vb)) = (T::new(a), T::new(b)) else { return Ok(Verdict::Skip("unstable acceptance")) };
                ensure!(va == vb, "{}: {:?} and its re-spelling {:?} are unequal", type_name(q), show(a), show(b));
            });
        }
    }
    let gx = GrandfatheredLangTag::new(a).ok().map(|g| g.as_str().to_string());
    let gy = GrandfatheredLangTag::new(b).ok().map(|g| g.as_str().to_string());
    ensure!(gx == gy, "grandfathered: {:?} is {gx:?} but {:?} is {gy:?}", show(a), show(b));
    if let ([x], [y]) = (a, b) {
        ensure!(Singleton::new(*x).is_ok() == Singleton::new(*y).is_ok(), "singleton: {x} and {y} are accepted differently");
    }
    // the views of the types the case is about
    let mut seen = 0;
    for q in [p, Prod::LanguageTag] {
        match (view(q, a), view(q, b)) {
            (Some(x), Some(y)) => {
                seen += 1;
                if x != y {
                    let (k, l, r) = x
                        .facts
                        .iter()
                        .zip(&y.facts)
                        .find(|(x, y)| x != y)
                        .map(|(x, y)| (x.0, x.1.clone(), y.1.clone()))
                        .unwrap_or(("number of facts", x.facts.len().to_string(), y.facts.len().to_string()));
                    return Err(format!(
                        "{}: {k} (offset, length) of {:?} is {l}, of its re-spelling {:?} {r}",
                        type_name(q),
                        show(a),
                        show(b)
                    ));
                }
            }
            (None, None) => {}
            _ => return Err(format!("{}: {:?} and {:?} are accepted differently", type_name(q), show(a), show(b))),
        }
    }
    // components of a normal tag are equal, not only at the same place
    if let (Ok(x), Ok(y)) = (NormalLangTag::new(a), NormalLangTag::new(b)) {
        ensure!(
            x.language() == y.language()
                && x.script() == y.script()
                && x.region() == y.region()
                && x.variants() == y.variants()
                && x.extensions() == y.extensions()
                && x.private_use() == y.private_use(),
            "components of {:?} and its re-spelling {:?} are unequal",
            show(a),
            show(b)
        );
    }
    Ok(pass(
        a != b && accepted,
        match (accepted, seen) {
            (false, _) => "rejected in both spellings",
            (true, 0) => "accepted by another type",
            _ => "accepted in both spellings",
        },
    ))
}

fn check_l15(c: &Case) -> Verdict {
    l15(c).into()
}

fn random() -> BoxedStrategy<Case> {
    prod()
        .prop_flat_map(|p| {
            (prop_oneof![5 => valid(p), 2 => input(p)], any::<u64>(), 0u8..6).prop_map(move |(a, m, how)| {
                let b = match how {
                    0 => a.to_ascii_uppercase(),
                    1 => a.to_ascii_lowercase(),
                    _ => recase(&a, m),
                };
                Case::new(a).b(b).ty(p)
            })
        })
        .boxed()
}

/// Every accepted conformance string: each single letter flipped, all flipped.
fn conformance(a: &EnumArgs, sink: &mut Sink) {
    for p in rfc::ALL {
        let mut n = 0u64;
        wmethod(p, 0, a, &mut |s| {
            n += 1;
            let composite = matches!(p, Prod::LanguageTag | Prod::Langtag);
            let take = if a.thorough { 1 } else if composite { 16 } else { 1 };
            if !rfc::matches(p, &s) || mix(&[n, a.seed]) % take != 0 {
                return true;
            }
            if !sink(Case::new(s.clone()).b(recase(&s, u64::MAX)).ty(p)) {
                return false;
            }
            for i in 0..s.len() {
                if s[i].is_ascii_alphabetic() {
                    let mut t = s.clone();
                    t[i] ^= 0x20;
                    if !sink(Case::new(s.clone()).b(t).ty(p)) {
                        return false;
                    }
                }
            }
            true
        });
    }
}

/// Each single letter of tags with every shape of components.
fn shaped(a: &EnumArgs, sink: &mut Sink) {
    let mut n = 0u64;
    shapes(a, 1, &mut |p| {
        n += 1;
        if !a.thorough && mix(&[n, a.seed]) % 8 != 0 {
            return true;
        }
        let s = glue(&p);
        for i in 0..s.len() {
            if s[i].is_ascii_alphabetic() && (a.thorough || mix(&[n, i as u64]) % 4 == 0) {
                let mut t = s.clone();
                t[i] ^= 0x20;
                if !sink(Case::new(s.clone()).b(t).ty(Prod::Langtag)) {
                    return false;
                }
            }
        }
        sink(Case::new(s.clone()).b(recase(&s, u64::MAX)).ty(Prod::Langtag))
    });
}

fn grandfathered_all(a: &EnumArgs, sink: &mut Sink) {
    let mut idx = 0;
    for (t, _) in rfc::GRANDFATHERED {
        for s in spellings(t.as_bytes()) {
            idx += 1;
            if a.mine(idx) && !sink(Case::new(t).b(s).ty(Prod::LanguageTag)) {
                return;
            }
        }
    }
}

fn long(a: &EnumArgs, sink: &mut Sink) {
    super::construct::long_values(a, &mut |c: Case| {
        if !a.thorough && c.a.len() > 1500 && mix(&[c.a.len() as u64, c.ty as u64]) % 4 != 0 {
            return true;
        }
        let b = recase(&c.a, u64::MAX);
        sink(Case { b: b.into(), ..c })
    });
}

fn campaigns(t: bool) -> Vec<Campaign> {
    let k = if t { 10 } else { 1 };
    vec![
        Campaign { name: "every spelling of the grandfathered tags", r#gen: Gen::Enum(grandfathered_all) },
        Campaign { name: "accepted strings of the conformance suites, each letter flipped", r#gen: Gen::Enum(conformance) },
        Campaign { name: "component shapes, single letters and all letters flipped", r#gen: Gen::Enum(shaped) },
        Campaign { name: "random input and random re-spelling", r#gen: Gen::Random(random, 1_000_000 * k) },
        Campaign { name: "long values", r#gen: Gen::Enum(long) },
    ]
}

pub static L15: Property = Property {
    hang: 60,
    id: "L15",
    rule: "(text, re-spelling) pairs: acceptance by all 15 types, recognition as grandfathered and as singleton, equality, kind, and the offset and length of every component, list element and lookup result are compared between the two. Non-trivial: the two texts differ and some type accepts them; distinct by both texts.",
    check: check_l15,
    campaigns,
    assumptions: &[],
};
