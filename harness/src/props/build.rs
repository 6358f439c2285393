//! L21: joining accepted components gives an accepted tag with those components.

use super::decompose::sub;
use super::lists::list_of;
use crate::case::{Bytes, Case};
use crate::ensure;
use crate::engine::*;
use crate::r#gen::*;
use crate::rfc::Prod;
use crate::types::*;
use langtag::*;
use proptest::collection::vec;
use proptest::prelude::*;

fn opt<'a>(v: Option<&'a [u8]>) -> Option<String> {
    v.map(show)
}

fn l21_tag(c: &Case) -> Result<Verdict, String> {
    let [lang, script, region, variants, extensions, private] = &c.items[..] else {
        return Ok(Verdict::Skip("malformed case"));
    };
    // every part accepted by its own type on this tree
    let part = |p: Prod, s: &[u8]| s.is_empty() || accepts(p, s);
    if !accepts(Prod::Language, lang)
        || !part(Prod::Script, script)
        || !part(Prod::Region, region)
        || !accepts(Prod::Variants, variants)
        || !accepts(Prod::Extensions, extensions)
        || !part(Prod::Privateuse, private)
    {
        return Ok(Verdict::Skip("a part is rejected by its own type"));
    }
    let parts: Vec<&[u8]> = c.items.iter().map(|i| &i[..]).filter(|i| !i.is_empty()).collect();
    let s = parts.join(&b'-');
    let Ok(t) = NormalLangTag::new(&s) else {
        return Err(format!("{:?}, made of accepted components, is rejected as a normal tag", show(&s)));
    };
    let Ok(whole) = LangTag::new(&s) else {
        return Err(format!("{:?}, made of accepted components, is rejected as a language tag", show(&s)));
    };
    let want = |v: &Bytes| (!v.is_empty()).then(|| v.to_vec());
    macro_rules! comp {
        ($what:expr, $got:expr, $want:expr) => {{
            let got: Option<&[u8]> = $got;
            let w: Option<Vec<u8>> = $want;
            ensure!(
                got == w.as_deref(),
                "{} of {:?} is {:?}, joined from {:?}",
                $what,
                show(&s),
                opt(got),
                opt(w.as_deref())
            );
        }};
    }
    comp!("language", Some(t.language().as_bytes()), want(lang));
    comp!("script", t.script().map(|v| v.as_bytes()), want(script));
    comp!("region", t.region().map(|v| v.as_bytes()), want(region));
    comp!("variants", Some(t.variants().as_bytes()), Some(variants.to_vec()));
    comp!("extensions", Some(t.extensions().as_bytes()), Some(extensions.to_vec()));
    comp!("private use", t.private_use().map(|v| v.as_bytes()), want(private));
    if !whole.is_grandfathered() {
        comp!("language (general view)", whole.language().map(|v| v.as_bytes()), want(lang));
        comp!("script (general view)", whole.script().map(|v| v.as_bytes()), want(script));
        comp!("region (general view)", whole.region().map(|v| v.as_bytes()), want(region));
        comp!("variants (general view)", Some(whole.variants().as_bytes()), Some(variants.to_vec()));
        comp!("extensions (general view)", Some(whole.extensions().as_bytes()), Some(extensions.to_vec()));
        comp!("private use (general view)", whole.private_use().map(|v| v.as_bytes()), want(private));
    }
    Ok(pass(
        parts.len() > 1,
        ["", "language alone", "two components", "three components", "four components", "five components", "six components"][parts.len()],
    ))
}

/// Elements of a list value as the crate reports them.
fn elements(p: Prod, s: &[u8]) -> Option<Vec<Vec<u8>>> {
    let cap = s.len() + 4;
    Some(match p {
        Prod::Extlang => LanguageExtension::new(s).ok()?.iter().take(cap).map(|e| e.as_bytes().to_vec()).collect(),
        Prod::Variants => Variants::new(s).ok()?.iter().take(cap).map(|e| e.as_bytes().to_vec()).collect(),
        Prod::Extensions => Extensions::new(s).ok()?.iter().take(cap).map(|e| e.as_bytes().to_vec()).collect(),
        Prod::Extension => Extension::new(s).ok()?.iter().take(cap).map(|e| e.as_bytes().to_vec()).collect(),
        Prod::Privateuse => PrivateUse::new(s).ok()?.iter().take(cap).map(|e| e.as_bytes().to_vec()).collect(),
        Prod::Language => Language::new(s).ok()?.extension_subtags().take(cap).map(|e| e.as_bytes().to_vec()).collect(),
        _ => return None,
    })
}

/// a: head (primary language, singleton, x) or empty; items: the elements.
fn l21_list(c: &Case) -> Result<Verdict, String> {
    let p = c.prod();
    let elem = match p {
        Prod::Extlang | Prod::Language => Prod::ExtlangTag,
        Prod::Variants => Prod::Variant,
        Prod::Extensions => Prod::Extension,
        Prod::Extension => Prod::ExtensionSubtag,
        Prod::Privateuse => Prod::PrivateuseSubtag,
        _ => return Ok(Verdict::Skip("not a list type")),
    };
    if c.items.is_empty() || c.items.iter().any(|i| !accepts(elem, i)) {
        return Ok(Verdict::Skip("an element is rejected by its own type"));
    }
    match p {
        Prod::Extlang if c.items.len() > 3 => return Ok(Verdict::Skip("more than three extended languages")),
        Prod::Language if c.items.len() > 3 || !(2..=3).contains(&c.a.len()) || !accepts(Prod::Primary, &c.a) => {
            return Ok(Verdict::Skip("not an extensible primary language"));
        }
        Prod::Extension if c.a.len() != 1 || Singleton::new(c.a[0]).is_err() => return Ok(Verdict::Skip("not a singleton")),
        Prod::Privateuse if &c.a[..] != b"x" && &c.a[..] != b"X" => return Ok(Verdict::Skip("not x")),
        _ => {}
    }
    let mut parts: Vec<&[u8]> = c.items.iter().map(|i| &i[..]).collect();
    if !c.a.is_empty() {
        parts.insert(0, &c.a);
    }
    let s = parts.join(&b'-');
    let Some(got) = elements(p, &s) else {
        return Err(format!("{:?}, joined from accepted elements, is rejected as {}", show(&s), type_name(p)));
    };
    ensure!(
        got.len() == c.items.len() && got.iter().zip(&c.items).all(|(g, i)| g[..] == i[..]),
        "{} {:?} has {} elements starting {:?}; it was joined from {}",
        type_name(p),
        show(&s),
        got.len(),
        got.iter().zip(&c.items).find(|(g, i)| g[..] != i[..]).map(|(g, _)| show(g)),
        c.items.len()
    );
    match p {
        Prod::Extension => {
            let e = Extension::new(&s).map_err(|_| "unstable acceptance".to_string())?;
            ensure!(e.singleton().unwrap() == c.a[0], "singleton of {:?} is {:?}", show(&s), e.singleton());
        }
        Prod::Language => {
            let l = Language::new(&s).map_err(|_| "unstable acceptance".to_string())?;
            ensure!(l.primary().as_bytes() == &c.a[..], "primary language of {:?} is {:?}", show(&s), l.primary().as_str());
            let joined = c.items.iter().map(|i| &i[..]).collect::<Vec<_>>().join(&b'-');
            ensure!(
                l.extension().map(|e| e.as_bytes()) == Some(&joined[..]),
                "extended language of {:?} is {:?}",
                show(&s),
                l.extension().map(|e| e.as_str())
            );
        }
        _ => {}
    }
    Ok(pass(true, "list of elements"))
}

/// a, b: two lists, joined with a hyphen.
fn l21_concat(c: &Case) -> Result<Verdict, String> {
    let p = c.prod();
    let (a, b) = (&c.a[..], &c.b[..]);
    if a.is_empty() || b.is_empty() {
        return Ok(Verdict::Skip("an empty list"));
    }
    let b_type = match p {
        // what may follow is further subtags, not another whole
        Prod::Extension | Prod::Privateuse => return Ok(Verdict::Skip("not closed under joining")),
        p => p,
    };
    let (Some(mut x), Some(y)) = (elements(p, a), elements(b_type, b)) else {
        return Ok(Verdict::Skip("a list is rejected by its own type"));
    };
    if p == Prod::Extlang && x.len() + y.len() > 3 {
        return Ok(Verdict::Skip("more than three extended languages"));
    }
    let s = [a, b].join(&b'-');
    let Some(got) = elements(p, &s) else {
        return Err(format!("{:?}, two accepted lists joined, is rejected as {}", show(&s), type_name(p)));
    };
    x.extend(y);
    ensure!(
        got == x,
        "{}: the elements of {:?} are not those of {:?} followed by those of {:?}",
        type_name(p),
        show(&s),
        show(sub(&s, &(0..a.len()))),
        show(b)
    );
    Ok(pass(true, "two lists joined"))
}

fn check_l21(c: &Case) -> Verdict {
    match c.sub.as_str() {
        "list" => l21_list(c),
        "concat" => l21_concat(c),
        _ => l21_tag(c),
    }
    .into()
}

fn tag(parts: Vec<Seg>) -> Case {
    Case { items: parts.into_iter().map(Bytes::from).collect(), ..Case::default() }
}

fn shaped(a: &EnumArgs, sink: &mut Sink) {
    shapes(a, if a.thorough { 20 } else { 4 }, &mut |p| sink(tag(p)));
}

fn long(a: &EnumArgs, sink: &mut Sink) {
    long_parts(a, 260, if a.thorough { usize::MAX } else { 70_000 }, &mut |p| sink(tag(p)));
}

fn lists(a: &EnumArgs, sink: &mut Sink) {
    let mut idx = 0;
    for p in [Prod::Extlang, Prod::Variants, Prod::Extensions, Prod::Extension, Prod::Privateuse, Prod::Language] {
        for n in (1..40usize).chain([63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 9000]) {
            if matches!(p, Prod::Extlang | Prod::Language) && n > 3 {
                continue;
            }
            for r in 0..if a.thorough { 200u64 } else { 20 } {
                idx += 1;
                if !a.mine(idx) || (n > 500 && r > 1) {
                    continue;
                }
                let head: Vec<u8> = match p {
                    Prod::Language => chars(K::Alpha, 2 + (r % 2) as usize, mix(&[r, a.seed])),
                    Prod::Extension => vec![b"a0Zu9B"[(r % 6) as usize]],
                    Prod::Privateuse => vec![if r % 2 == 0 { b'x' } else { b'X' }],
                    _ => vec![],
                };
                let items: Vec<Bytes> = (0..n)
                    .map(|i| {
                        let h = mix(&[a.seed, r, i as u64]);
                        let q = if p == Prod::Language { Prod::Extlang } else { p };
                        let t = list_of(q, &[(h % 9) as usize], h >> 8);
                        match p {
                            Prod::Extension | Prod::Privateuse => t[2..].to_vec().into(),
                            _ => t.into(),
                        }
                    })
                    .collect();
                if !sink(Case { items, ..Case::new(head).ty(p).sub("list") }) {
                    return;
                }
            }
        }
    }
}

fn random_parts() -> BoxedStrategy<Case> {
    // near-valid parts as well: what a type accepts, a tag must accept
    fn maybe(p: Prod, s: BoxedStrategy<Seg>) -> BoxedStrategy<Seg> {
        prop_oneof![30 => s, 1 => near(p)].boxed()
    }
    parts()
        .prop_flat_map(|ps| {
            let types = [Prod::Language, Prod::Script, Prod::Region, Prod::Variants, Prod::Extensions, Prod::Privateuse];
            let v: Vec<BoxedStrategy<Seg>> = ps.into_iter().zip(types).map(|(s, p)| maybe(p, Just(s).boxed())).collect();
            v
        })
        .prop_map(tag)
        .boxed()
}

fn random_lists() -> BoxedStrategy<Case> {
    let one = |p: Prod, head: BoxedStrategy<Seg>, e: Prod, max: usize| {
        (head, vec(prop_oneof![20 => valid(e), 1 => near(e)], 1..=max))
            .prop_map(move |(h, v)| Case { items: v.into_iter().map(Bytes::from).collect(), ..Case::new(h).ty(p).sub("list") })
            .boxed()
    };
    let none = || Just(Vec::new()).boxed();
    prop_oneof![
        one(Prod::Language, seg(K::Alpha, 2, 3), Prod::ExtlangTag, 3),
        one(Prod::Extlang, none(), Prod::ExtlangTag, 3),
        one(Prod::Variants, none(), Prod::Variant, 8),
        one(Prod::Extensions, none(), Prod::Extension, 6),
        one(Prod::Extension, singleton(), Prod::ExtensionSubtag, 8),
        one(Prod::Privateuse, (0usize..2).prop_map(|i| vec![b"xX"[i]]).boxed(), Prod::PrivateuseSubtag, 8),
    ]
    .boxed()
}

fn random_concat() -> BoxedStrategy<Case> {
    (0usize..5)
        .prop_flat_map(|i| {
            let p = [Prod::Variants, Prod::Variants, Prod::Extensions, Prod::Extensions, Prod::Extlang][i];
            (valid(p), valid(p)).prop_map(move |(a, b)| Case::new(a).b(b).ty(p).sub("concat"))
        })
        .boxed()
}

fn campaigns(t: bool) -> Vec<Campaign> {
    let k = if t { 8 } else { 1 };
    vec![
        Campaign { name: "component shapes", r#gen: Gen::Enum(shaped) },
        Campaign { name: "lists of every length", r#gen: Gen::Enum(lists) },
        Campaign { name: "random components", r#gen: Gen::Random(random_parts, 2_000_000 * k) },
        Campaign { name: "random list elements", r#gen: Gen::Random(random_lists, 1_500_000 * k) },
        Campaign { name: "pairs of lists", r#gen: Gen::Random(random_concat, 1_000_000 * k) },
        Campaign { name: "long components", r#gen: Gen::Enum(long) },
    ]
}

pub static L21: Property = Property {
    hang: 60,
    id: "L21",
    rule: "A case is a list of components (or list elements, or two lists), each accepted by its own type on this tree, joined with hyphens and parsed again by the composite type. Non-trivial: at least two components, or a list; distinct by content.",
    check: check_l21,
    campaigns,
    assumptions: &["components rejected by their own type are outside the property (their acceptance is L02)"],
};
