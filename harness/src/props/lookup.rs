//! L08: extension lookup finds the first extension with that singleton.

use crate::case::Case;
use crate::engine::*;
use crate::ensure;
use crate::r#gen::*;
use crate::rfc;
use crate::types::*;
use langtag::*;
use proptest::collection::vec;
use proptest::prelude::*;

fn singletons() -> impl Iterator<Item = u8> {
    (0..128u8).filter(|b| rfc::is_singleton_byte(*b))
}

fn lower(b: u8) -> u8 {
    rfc::fold(&[b])[0]
}

fn l08_list(list: &Extensions, a: &[u8], d: &[rfc::Ext]) -> Result<(), String> {
    // first extension of each singleton, in one pass over the reference
    let mut first: [Option<usize>; 128] = [None; 128];
    for (i, e) in d.iter().enumerate() {
        first[lower(e.singleton) as usize].get_or_insert(i);
    }
    for b in singletons() {
        let want = first[lower(b) as usize].map(|i| &d[i]);
        let Ok(s) = Singleton::new(b) else { continue };
        let found = list.get(s);
        let got = found.map(|e| e.as_bytes());
        let exp = want.map(|e| &a[e.range.clone()]);
        ensure!(
            got == exp,
            "looking up {:?} in {:?} gives {:?}, expected {:?}",
            b as char,
            show(a),
            got.map(show),
            exp.map(show)
        );
        if let Some(e) = found {
            let z = e.singleton().unwrap();
            ensure!(lower(z) == lower(b), "the extension found for {:?} in {:?} has singleton {:?}", b as char, show(a), z as char);
        }
        let cap = want.map_or(0, |w| w.subtags.len()) + 2;
        let subs: Vec<&[u8]> = list.iter_extension(s).take(cap).map(|e| e.as_bytes()).collect();
        let exp: Vec<&[u8]> = want.map(|e| e.subtags.iter().map(|r| &a[r.clone()]).collect()).unwrap_or_default();
        ensure!(
            subs == exp,
            "iter_extension({:?}) of {:?} gives {:?}, expected {:?}",
            b as char,
            show(a),
            subs.iter().map(|v| show(v)).collect::<Vec<_>>(),
            exp.iter().map(|v| show(v)).collect::<Vec<_>>()
        );
    }
    // each extension met while iterating reports its own singleton
    for (e, w) in list.iter().zip(d) {
        let z = e.singleton().unwrap();
        ensure!(lower(z) == lower(w.singleton), "the singleton of {:?} is {:?}", show(&a[w.range.clone()]), z as char);
    }
    Ok(())
}

fn l08(c: &Case) -> Result<Verdict, String> {
    let a = &c.a[..];
    match c.sub.as_str() {
        "extension" => {
            let Some(d) = rfc::parse_extensions(a).filter(|v| v.len() == 1) else { return Ok(Verdict::Skip("not an extension")) };
            let Ok(e) = Extension::new(a) else { return Ok(Verdict::Skip("extension rejected by the crate")) };
            let z = e.singleton().unwrap();
            ensure!(lower(z) == lower(d[0].singleton), "the singleton of {:?} is {:?}", show(a), z as char);
            return Ok(pass(true, "single extension"));
        }
        "in-tag" => {
            let Some(d) = rfc::parse_langtag(a) else { return Ok(Verdict::Skip("not a normal tag")) };
            let Ok(t) = LangTag::new(a) else { return Ok(Verdict::Skip("tag rejected by the crate")) };
            let text = &a[d.extensions_range().unwrap_or(0..0)];
            let list: Vec<rfc::Ext> = rfc::parse_extensions(text).unwrap_or_default();
            l08_list(t.extensions(), text, &list)?;
            return Ok(pass(!list.is_empty(), if list.is_empty() { "tag without extensions" } else { "lookup in a tag" }));
        }
        _ => {}
    }
    let Some(d) = rfc::parse_extensions(a) else { return Ok(Verdict::Skip("not an extension list")) };
    let Ok(list) = Extensions::new(a) else { return Ok(Verdict::Skip("list rejected by the crate")) };
    l08_list(list, a, &d)?;
    if a.is_empty() {
        l08_list(Extensions::EMPTY, a, &d)?;
    }
    let keys: Vec<u8> = d.iter().map(|e| lower(e.singleton)).collect();
    let mut uniq = keys.clone();
    uniq.sort_unstable();
    uniq.dedup();
    Ok(pass(
        d.len() > 1 || d.iter().any(|e| e.subtags.len() > 1),
        if uniq.len() < keys.len() {
            "repeated singleton"
        } else if d.len() > 1 {
            "several extensions"
        } else {
            "at most one extension"
        },
    ))
}

fn check_l08(c: &Case) -> Verdict {
    l08(c).into()
}

/// Extensions whose subtags contain or start with singletons of the list.
fn decoys() -> BoxedStrategy<Vec<u8>> {
    vec((0u8..60, 1usize..4, any::<u64>()), 1..6)
        .prop_map(|v| {
            let all: Vec<u8> = singletons().collect();
            // few different singletons, in both cases
            let pool: Vec<u8> = v.iter().map(|(s, _, _)| all[*s as usize % all.len()]).collect();
            let mut out: Vec<Vec<u8>> = vec![];
            for (s, n, bits) in v {
                let mut k = pool[s as usize % pool.len().min(3)];
                if bits & 1 == 1 && k.is_ascii_alphabetic() {
                    k ^= 0x20;
                }
                out.push(vec![k]);
                for i in 0..n {
                    let d = pool[(bits >> (8 + i)) as usize % pool.len()];
                    let b = mix(&[bits, i as u64]);
                    let mut t = chars(K::Alnum, 2 + (b % 7) as usize, b);
                    match b % 5 {
                        0 => t[0] = d,
                        1 => {
                            let n = t.len();
                            t[n - 1] = d
                        }
                        2 => t = vec![d; 2 + (b % 7) as usize],
                        _ => {}
                    }
                    out.push(t);
                }
            }
            out.join(&b'-')
        })
        .boxed()
}

/// Every singleton against every singleton in telling positions.
fn pairs(a: &EnumArgs, sink: &mut Sink) {
    let all: Vec<u8> = singletons().collect();
    let mut idx = 0;
    for x in &all {
        let x = *x as char;
        idx += 1;
        if a.mine(idx) {
            for t in [format!("{x}-ab"), format!("{x}-{x}{x}-{x}1"), format!("{x}-abcdefgh-12345678")] {
                if !sink(Case::new(t.as_str())) || !sink(Case::new(t.as_str()).sub("extension")) {
                    return;
                }
            }
        }
        for y in &all {
            idx += 1;
            if !a.mine(idx) {
                continue;
            }
            let y = *y as char;
            for t in [
                format!("{x}-aa-{y}-bb"),
                format!("{x}-{y}{y}-{y}{x}-{y}-{x}{x}"),
                format!("{x}-aa-bb-{y}-cc-dd-{x}-ee-{y}-ff"),
                format!("0-{x}{y}-b{x}-{y}-a{x}-{x}-ab"),
            ] {
                if !sink(Case::new(t.as_str())) {
                    return;
                }
            }
        }
    }
    // the list of all singletons, both directions
    if a.shard == 0 {
        let all: Vec<String> = all.iter().map(|b| format!("{0}-{0}{0}", *b as char)).collect();
        let back: Vec<String> = all.iter().rev().cloned().collect();
        for t in [all.join("-"), back.join("-"), String::new()] {
            if !sink(Case::new(t.as_str())) {
                return;
            }
        }
    }
}

fn random_lists() -> BoxedStrategy<Case> {
    prop_oneof![
        4 => decoys().prop_map(Case::new),
        3 => extensions().prop_map(Case::new),
        1 => extension().prop_map(|s| Case::new(s).sub("extension")),
        2 => normal_tag().prop_map(|s| Case::new(s).sub("in-tag")),
        1 => (language(), decoys(), privateuse()).prop_map(|(l, e, p)| Case::new(glue(&[l, e, p])).sub("in-tag")),
    ]
    .boxed()
}

fn long_lists(a: &EnumArgs, sink: &mut Sink) {
    long_parts(a, 120, if a.thorough { 300_000 } else { 70_000 }, &mut |p| {
        p[4].len() < 20
            || (p[4].len() > 2000 && mix(&[p[4].len() as u64, a.seed]) % 3 != 0)
            || (sink(Case::new(p[4].clone())) && sink(Case::new(glue(&p)).sub("in-tag")))
    });
}

fn l08_campaigns(th: bool) -> Vec<Campaign> {
    let k = if th { 5 } else { 1 };
    vec![
        Campaign { name: "every ordered pair of singletons in telling positions", r#gen: Gen::Enum(pairs) },
        Campaign { name: "random lists with repeats, case variants and decoys", r#gen: Gen::Random(random_lists, 4_000_000 * k) },
        Campaign { name: "long lists", r#gen: Gen::Enum(long_lists) },
    ]
}

pub static L08: Property = Property {
    hang: 60,
    id: "L08",
    rule: "Extension lists (standalone and inside tags) with repeated singletons, case variants and subtags that look like singletons; every one of the 60 singleton characters is looked up in each. Non-trivial: several extensions or several subtags; distinct by content.",
    check: check_l08,
    campaigns: l08_campaigns,
    assumptions: &[],
};
