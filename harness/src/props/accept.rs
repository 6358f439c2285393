//! L01, L02: acceptance is exactly the RFC 5646 production.

use crate::case::Case;
use crate::dfa;
use crate::engine::*;
use crate::r#gen::*;
use crate::{ensure, per_type};
use crate::rfc::{self, Prod};
use crate::types::*;
use langtag::Singleton;
use proptest::prelude::*;
use std::panic::{AssertUnwindSafe, catch_unwind};

/// Crate's answer through its parsing constructor, from bytes and from text.
fn crate_accepts(p: Prod, s: &[u8]) -> Result<bool, String> {
    let by_bytes = per_type!(p, T, B, T::new(s).is_ok());
    if let Ok(t) = std::str::from_utf8(s) {
        let by_text = per_type!(p, T, B, T::new(t).is_ok());
        if by_text != by_bytes {
            return Err(format!(
                "{}: {:?} accepted as bytes: {by_bytes}, as text: {by_text}",
                type_name(p),
                show(s)
            ));
        }
    }
    Ok(by_bytes)
}

/// Both reference recognisers; they must agree with each other.
pub fn reference(p: Prod, s: &[u8]) -> bool {
    let r = rfc::matches(p, s);
    if r != dfa::get(p).matches(s) {
        harness_error(&format!("reference recognisers disagree on {p:?} {}", show(s)));
    }
    r
}

/// Compares the crate with the automaton on a text without making a case of it, for
/// enumerations of many millions; a text is looked at when they differ, when the crate
/// panics, and now and then anyway.
fn screen(p: Prod, s: &[u8], n: usize) -> bool {
    screened();
    mix(&[n as u64, s.len() as u64]) % 2048 == 0
        || catch_unwind(AssertUnwindSafe(|| {
            per_type!(p, T, B, T::new(s).is_ok()) != dfa::get(p).matches(s)
        }))
        .unwrap_or(true)
}

fn check_prod(p: Prod, s: &[u8]) -> Result<bool, String> {
    let want = reference(p, s);
    let got = crate_accepts(p, s)?;
    if got != want {
        return Err(format!(
            "{} {} {:?}, which RFC 5646 {}",
            type_name(p),
            if got { "accepts" } else { "rejects" },
            show(s),
            if want { "accepts" } else { "rejects" }
        ));
    }
    Ok(want)
}

fn check_l01(c: &Case) -> Verdict {
    let s = &c.a[..];
    let mut acc = false;
    for p in [Prod::LanguageTag, Prod::Langtag, Prod::Privateuse] {
        match check_prod(p, s) {
            Ok(a) => acc |= a,
            Err(m) => return Verdict::Fail(m),
        }
    }
    let live = dfa::get(Prod::LanguageTag).live_prefix(s);
    let class = if acc {
        match rfc::kind(s) {
            Some(rfc::RefKind::Normal) => "accepted normal",
            Some(rfc::RefKind::PrivateUse) => "accepted private use",
            _ => "accepted grandfathered",
        }
    } else if std::str::from_utf8(s).is_err() {
        "rejected, invalid UTF-8"
    } else if !s.is_ascii() {
        "rejected, non-ASCII"
    } else if live >= s.len() {
        "rejected, incomplete"
    } else {
        "rejected, dead after a live prefix"
    };
    pass(acc || live >= 2, class)
}

fn l01_campaigns(th: bool) -> Vec<Campaign> {
    let k = if th { 8 } else { 1 };
    vec![
        Campaign {
            name: "conformance suite (W-method) of the three tag automata",
            r#gen: Gen::Enum(|a, sink| {
                for p in [Prod::LanguageTag, Prod::Langtag, Prod::Privateuse] {
                    let mut go = true;
                    wmethod(p, if a.thorough { 2 } else { 1 }, a, &mut |s| {
                        go = sink(Case::new(s));
                        go
                    });
                    if !go {
                        return;
                    }
                }
            }),
        },
        Campaign {
            name: "screened: every three characters after every state",
            r#gen: Gen::Enum(|a, sink| {
                for p in [Prod::LanguageTag, Prod::Langtag, Prod::Privateuse] {
                    let mut go = true;
                    let n = 3;
                    tails(dfa::get(p), n, a, &mut |s, n| screen(p, s, n), &mut |s| {
                        go = sink(Case::new(s));
                        go
                    });
                    if !go {
                        return;
                    }
                }
            }),
        },
        Campaign {
            name: "screened: every text of up to 5 (thorough: 6) letters, digits and hyphens",
            r#gen: Gen::Enum(|a, sink| {
                let n = if a.thorough { 6 } else { 5 };
                all_texts(n, a, &mut |s, n| screen(Prod::LanguageTag, s, n), &mut |s| sink(Case::new(s)));
            }),
        },
        Campaign {
            name: "all words over {a,x,1,-} and {a,-}",
            r#gen: Gen::Enum(|a, sink| {
                let mut go = true;
                words(b"ax1-", if a.thorough { 11 } else { 9 }, a, &mut |s| {
                    go = sink(Case::new(s));
                    go
                });
                if go {
                    words(b"a-", if a.thorough { 20 } else { 17 }, a, &mut |s| sink(Case::new(s)));
                }
            }),
        },
        Campaign {
            name: "every spelling of every grandfathered tag and every single-byte edit",
            r#gen: Gen::Enum(|a, sink| {
                let bytes: Vec<u8> = (0..=255).collect();
                for (i, (t, _)) in rfc::GRANDFATHERED.iter().enumerate() {
                    if !a.mine(i) {
                        continue;
                    }
                    for s in spellings(t.as_bytes()) {
                        if !sink(Case::new(s)) {
                            return;
                        }
                    }
                    for m in [0, u64::MAX, 0x5555, 0xaaaa, 0x33] {
                        let s = recase(t.as_bytes(), m);
                        if !neighbours(&s, &bytes, &mut |v| sink(Case::new(v))) {
                            return;
                        }
                    }
                }
            }),
        },
        Campaign {
            name: "component shapes",
            r#gen: Gen::Enum(|a, sink| {
                shapes(a, if a.thorough { 40 } else { 4 }, &mut |p| {
                    let whole = glue(&p);
                    sink(Case::new(whole))
                });
            }),
        },
        Campaign {
            name: "long tags, whole and damaged near the end",
            r#gen: Gen::Enum(|a, sink| {
                long_parts(a, 300, if a.thorough { usize::MAX } else { 140_000 }, &mut |p| {
                    let s = glue(&p);
                    let mut t = s.clone();
                    t.push(b'-');
                    let mut u = s.clone();
                    u.extend_from_slice(b"-123456789");
                    let mut v = s.clone();
                    let n = v.len();
                    v[n - 1] = b'_';
                    let mut w = s.clone();
                    w.extend_from_slice(b"\xc3\xa9");
                    sink(Case::new(s)) && sink(Case::new(t)) && sink(Case::new(u)) && sink(Case::new(v)) && sink(Case::new(w))
                });
            }),
        },
        Campaign {
            name: "random tags, edited tags, segment soup, raw bytes",
            r#gen: Gen::Random(|| input(Prod::LanguageTag).prop_map(Case::new).boxed(), 5_000_000 * k),
        },
        Campaign {
            name: "random, around the private-use production",
            r#gen: Gen::Random(|| input(Prod::Privateuse).prop_map(Case::new).boxed(), 800_000 * k),
        },
    ]
}

pub static L01: Property = Property {
    hang: 60,
    id: "L01",
    rule: "Byte strings from: the W-method conformance suite of the minimal RFC automata (every state x every byte x identifying suffixes, with extra states), every three characters after every state and every text of up to five letters, digits and hyphens (screened: compared without making a case, which the counts leave out), all short words, every spelling and single-byte edit of the 26 grandfathered tags, every combination of component shapes, long tags around power-of-two lengths, random structured tags with edits, segment soup and raw bytes. Non-trivial: accepted by the RFC grammar, or rejected only after at least two characters of live prefix; counted distinct by content.",
    check: check_l01,
    campaigns: l01_campaigns,
    assumptions: &["RFC 5646 grammar as transcribed twice (hand-written recogniser and ABNF-compiled automaton, cross-checked on every case)"],
};

// ------------------------------------------------------------------- L02

const L02_TYPES: [Prod; 12] = [
    Prod::Language, Prod::Primary, Prod::Extlang, Prod::ExtlangTag, Prod::Script, Prod::Region,
    Prod::Variant, Prod::Variants, Prod::Extension, Prod::Extensions, Prod::ExtensionSubtag,
    Prod::PrivateuseSubtag,
];

fn check_singleton(c: &Case) -> Result<Verdict, String> {
    // c.n is a code point; also used as a byte when below 256
    let n = c.n as u32;
    if n < 256 {
        let b = n as u8;
        let want = rfc::is_singleton_byte(b);
        ensure!(Singleton::new(b).is_ok() == want, "Singleton::new({b:#x}): expected accept={want}");
        ensure!(Singleton::try_from(b).is_ok() == want, "Singleton::try_from({b:#x}u8): expected accept={want}");
        if let Ok(s) = Singleton::new(b) {
            ensure!(s.unwrap() == b, "Singleton::new({b:#x}).unwrap() = {:#x}", s.unwrap());
        }
    }
    if let Some(ch) = char::from_u32(n) {
        let want = n < 128 && rfc::is_singleton_byte(n as u8);
        let mut buf = [0; 4];
        let t: &str = ch.encode_utf8(&mut buf);
        ensure!(Singleton::try_from(ch).is_ok() == want, "Singleton::try_from(U+{n:04X}): expected accept={want}");
        ensure!(Singleton::from_string(t).is_ok() == want, "Singleton::from_string(U+{n:04X}): expected accept={want}");
        ensure!(t.parse::<Singleton>().is_ok() == want, "parse::<Singleton>(U+{n:04X}): expected accept={want}");
        if want {
            for s in [Singleton::try_from(ch).ok(), Singleton::from_string(t).ok(), t.parse().ok()] {
                ensure!(s.map(|s| s.unwrap()) == Some(n as u8), "singleton of U+{n:04X} holds {s:?}");
                ensure!(s.unwrap().to_string() == t, "singleton of U+{n:04X} displays {:?}", s.unwrap().to_string());
            }
        }
    }
    Ok(pass(true, "singleton code point"))
}

fn check_singleton_text(c: &Case) -> Result<Verdict, String> {
    let Ok(t) = std::str::from_utf8(&c.a) else { return Ok(Verdict::Skip("not text")) };
    let want = rfc::is_singleton(&c.a);
    ensure!(Singleton::from_string(t).is_ok() == want, "Singleton::from_string({t:?}): expected accept={want}");
    ensure!(t.parse::<Singleton>().is_ok() == want, "parse::<Singleton>({t:?}): expected accept={want}");
    Ok(pass(c.a.len() <= 3, "singleton text"))
}

fn check_l02(c: &Case) -> Verdict {
    match c.sub.as_str() {
        "singleton" => return check_singleton(c).into(),
        "singleton-text" => return check_singleton_text(c).into(),
        _ => {}
    }
    let p = c.prod();
    match check_prod(p, &c.a) {
        Err(m) => Verdict::Fail(m),
        Ok(true) => pass(true, "accepted"),
        Ok(false) => {
            let live = dfa::get(p).live_prefix(&c.a);
            pass(live >= 2 || c.a.len() <= 2, if live == c.a.len() { "rejected, incomplete" } else { "rejected, dead" })
        }
    }
}

fn l02_campaigns(th: bool) -> Vec<Campaign> {
    let k = if th { 8 } else { 1 };
    vec![
        Campaign {
            name: "conformance suite (W-method, 2 extra states) of the 12 component automata",
            r#gen: Gen::Enum(|a, sink| {
                for p in L02_TYPES {
                    let mut go = true;
                    wmethod(p, 2, a, &mut |s| {
                        go = sink(Case::new(s).ty(p));
                        go
                    });
                    if !go {
                        return;
                    }
                }
            }),
        },
        Campaign {
            name: "screened: every three (thorough: four) characters after every state",
            r#gen: Gen::Enum(|a, sink| {
                for p in L02_TYPES {
                    let mut go = true;
                    let n = if a.thorough { 4 } else { 3 };
                    tails(dfa::get(p), n, a, &mut |s, n| screen(p, s, n), &mut |s| {
                        go = sink(Case::new(s).ty(p));
                        go
                    });
                    if !go {
                        return;
                    }
                }
            }),
        },
        Campaign {
            name: "all words over {a,x,1,-}",
            r#gen: Gen::Enum(|a, sink| {
                words(b"ax1-", if a.thorough { 9 } else { 7 }, a, &mut |s| {
                    L02_TYPES.iter().all(|p| sink(Case::new(s.clone()).ty(*p)))
                });
            }),
        },
        Campaign {
            name: "all one- and two-byte strings",
            r#gen: Gen::Enum(|a, sink| {
                for x in 0..=256usize {
                    if !a.mine(x) {
                        continue;
                    }
                    for y in 0..=256usize {
                        let mut s = vec![];
                        if x < 256 { s.push(x as u8) }
                        if y < 256 { s.push(y as u8) }
                        for p in L02_TYPES {
                            if !sink(Case::new(s.clone()).ty(p)) {
                                return;
                            }
                        }
                        if !sink(Case::new(s).sub("singleton-text")) {
                            return;
                        }
                    }
                }
            }),
        },
        Campaign {
            name: "every Unicode scalar value as a singleton",
            r#gen: Gen::Enum(|a, sink| {
                for n in 0..=0x10ffffu64 {
                    if a.mine(n as usize) && !sink(Case { n, sub: "singleton".into(), ..Default::default() }) {
                        return;
                    }
                }
            }),
        },
        Campaign {
            name: "long lists, whole and damaged near the end",
            r#gen: Gen::Enum(|a, sink| {
                long_parts(a, 300, if a.thorough { usize::MAX } else { 140_000 }, &mut |p| {
                    for (i, ty) in [(3, Prod::Variants), (4, Prod::Extensions), (4, Prod::Extension)] {
                        let s = &p[i];
                        if s.len() < 20 {
                            continue;
                        }
                        let mut t = s.clone();
                        t.push(b'-');
                        let mut u = s.clone();
                        u.extend_from_slice(b"-1");
                        if !(sink(Case::new(s.clone()).ty(ty)) && sink(Case::new(t).ty(ty)) && sink(Case::new(u).ty(ty))) {
                            return false;
                        }
                    }
                    true
                });
            }),
        },
        Campaign {
            name: "random values, edited values, segment soup, raw bytes",
            r#gen: Gen::Random(
                || {
                    (0usize..12)
                        .prop_flat_map(|i| (Just(L02_TYPES[i]), input(L02_TYPES[i])))
                        .prop_map(|(p, s)| Case::new(s).ty(p))
                        .boxed()
                },
                5_000_000 * k,
            ),
        },
        Campaign {
            name: "values of one type offered to another",
            r#gen: Gen::Random(
                || {
                    (0usize..15)
                        .prop_flat_map(|i| (0usize..12, valid(rfc::ALL[i])))
                        .prop_map(|(j, s)| Case::new(s).ty(L02_TYPES[j]))
                        .boxed()
                },
                1_500_000 * k,
            ),
        },
    ]
}

pub static L02: Property = Property {
    hang: 60,
    id: "L02",
    rule: "(type, byte string) from: the W-method conformance suite of each component's minimal RFC automaton, every three characters after every state (screened), all short words, all one/two-byte strings, long lists, random values with edits, values of other types; every Unicode scalar value for singletons. Non-trivial: accepted, at most two bytes long, or rejected only after two characters of live prefix; distinct by (type, content).",
    check: check_l02,
    campaigns: l02_campaigns,
    assumptions: &["RFC 5646 productions as transcribed twice (cross-checked on every case); primary language = first subtag of the language production (2*8ALPHA)"],
};
