//! L03 (constructors agree), L04 (text preserved in every view), L17 (serde).

use crate::case::Case;
use crate::dfa;
use crate::engine::*;
use crate::r#gen::*;
use crate::rfc::{self, Prod};
use crate::types::*;
use crate::{ensure, per_type, serde_standins};
use langtag::{GrandfatheredLangTag, Singleton};
use proptest::prelude::*;
use std::collections::BTreeMap;
use std::borrow::Borrow;

fn l03_type(p: Prod, a: &[u8]) -> Result<bool, String> {
    let n = type_name(p);
    per_type!(p, T, B, {
        let base = T::validate_bytes(a);
        macro_rules! route {
            ($name:expr, $r:expr, $orig:expr) => {
                match $r {
                    Ok(v) => {
                        ensure!(base, "{n}: {} accepts {:?} but the checked validation rejects it", $name, show(a));
                        ensure!(v.as_bytes() == a, "{n}: {} of {:?} holds {:?}", $name, show(a), show(v.as_bytes()));
                    }
                    Err(e) => {
                        ensure!(!base, "{n}: {} rejects {:?} but the checked validation accepts it", $name, show(a));
                        let back: &[u8] = e.0.as_ref();
                        ensure!(back == a, "{n}: {} rejecting {:?} hands back {:?}", $name, show(a), show(back));
                    }
                }
            };
        }
        route!("from_bytes", T::from_bytes(a), a);
        route!("new(&[u8])", T::new(a), a);
        route!("TryFrom<&[u8]>", <&T>::try_from(a), a);
        let v = a.to_vec();
        route!("new(&Vec<u8>)", T::new(&v), a);
        route!("Buf::new(Vec<u8>)", B::new(v.clone()), a);
        route!("Buf::from_bytes", B::from_bytes(v.clone()), a);
        route!("Buf TryFrom<Vec<u8>>", B::try_from(v.clone()), a);
        match std::str::from_utf8(a) {
            Ok(s) => {
                ensure!(T::validate_str(s) == base, "{n}: validate_str({:?}) != validate_bytes", show(a));
                route!("from_str", T::from_str(s), a);
                route!("new(&str)", T::new(s), a);
                route!("TryFrom<&str>", <&T>::try_from(s), a);
                let t = s.to_string();
                route!("new(&String)", T::new(&t), a);
                route!("Buf::new(String)", B::new(t.clone()), a);
                route!("Buf::from_string", B::from_string(t.clone()), a);
                route!("Buf TryFrom<String>", B::try_from(t.clone()), a);
                route!("FromStr", s.parse::<B>(), a);
            }
            Err(_) => ensure!(!base, "{n} accepts {:?}, which is not UTF-8", show(a)),
        }
        Ok(base)
    })
}

fn l03_grandfathered(a: &[u8]) -> Result<bool, String> {
    let base = GrandfatheredLangTag::try_from(a);
    let ok = base.as_ref().ok().copied();
    if let Err(e) = base {
        ensure!(e.0 == a, "grandfathered: rejecting {:?} hands back {:?}", show(a), show(e.0));
    }
    match GrandfatheredLangTag::new(a) {
        Ok(t) => ensure!(Some(t) == ok, "grandfathered new(&[u8]) and try_from disagree on {:?}", show(a)),
        Err(b) => ensure!(ok.is_none() && b == a, "grandfathered new(&[u8]) and try_from disagree on {:?}", show(a)),
    }
    match GrandfatheredLangTag::new(a.to_vec()) {
        Ok(t) => ensure!(Some(t) == ok, "grandfathered new(Vec) and try_from disagree on {:?}", show(a)),
        Err(b) => ensure!(ok.is_none() && b == a, "grandfathered new(Vec) rejecting {:?} hands back {:?}", show(a), show(&b)),
    }
    if let Ok(s) = std::str::from_utf8(a) {
        match GrandfatheredLangTag::new(s) {
            Ok(t) => ensure!(Some(t) == ok, "grandfathered new(&str) and try_from disagree on {:?}", show(a)),
            Err(b) => ensure!(ok.is_none() && b == s, "grandfathered new(&str) rejecting {:?} hands back {:?}", show(a), b),
        }
        match GrandfatheredLangTag::new(s.to_string()) {
            Ok(t) => ensure!(Some(t) == ok, "grandfathered new(String) and try_from disagree on {:?}", show(a)),
            Err(b) => ensure!(ok.is_none() && b == s, "grandfathered new(String) rejecting {:?} hands back {:?}", show(a), b),
        }
    }
    Ok(ok.is_some())
}

fn l03_singleton(a: &[u8]) -> Result<bool, String> {
    let Ok(s) = std::str::from_utf8(a) else { return Ok(false) };
    let text = Singleton::from_string(s);
    let ok = text.as_ref().ok().map(|s| s.unwrap());
    if let Err(e) = &text {
        ensure!(e.0 == s, "singleton: rejecting {s:?} hands back {:?}", e.0);
    }
    match s.parse::<Singleton>() {
        Ok(t) => ensure!(ok == Some(t.unwrap()), "singleton FromStr and from_string disagree on {s:?}"),
        Err(e) => ensure!(ok.is_none() && e.0 == s, "singleton FromStr and from_string disagree on {s:?}"),
    }
    let mut it = s.chars();
    if let (Some(c), None) = (it.next(), it.next()) {
        match Singleton::try_from(c) {
            Ok(t) => ensure!(ok == Some(t.unwrap()), "singleton TryFrom<char> and from_string disagree on {s:?}"),
            Err(e) => ensure!(ok.is_none() && e.0 == c, "singleton TryFrom<char> and from_string disagree on {s:?}"),
        }
    } else {
        ensure!(ok.is_none(), "singleton from_string accepts {s:?}, which is not one character");
    }
    if let [b] = a {
        for r in [Singleton::new(*b), Singleton::try_from(*b)] {
            match r {
                Ok(t) => ensure!(ok == Some(t.unwrap()) && t.unwrap() == *b, "singleton from a byte and from_string disagree on {s:?}"),
                Err(e) => ensure!(ok.is_none() && e.0 == *b, "singleton from a byte and from_string disagree on {s:?}"),
            }
        }
    }
    Ok(ok.is_some())
}

fn check_l03(c: &Case) -> Verdict {
    let r = match c.sub.as_str() {
        "grandfathered" => l03_grandfathered(&c.a),
        "singleton" => l03_singleton(&c.a),
        _ => l03_type(c.prod(), &c.a),
    };
    match r {
        Err(m) => Verdict::Fail(m),
        Ok(true) => pass(true, "accepted by all routes"),
        Ok(false) => {
            let live = if c.sub.is_empty() { dfa::get(c.prod()).live_prefix(&c.a) } else { 2 };
            pass(live >= 1, "rejected by all routes")
        }
    }
}

fn typed_input() -> BoxedStrategy<Case> {
    prod().prop_flat_map(|p| (Just(p), input(p))).prop_map(|(p, s)| Case::new(s).ty(p)).boxed()
}

fn l03_campaigns(th: bool) -> Vec<Campaign> {
    let k = if th { 8 } else { 1 };
    vec![
        Campaign {
            name: "conformance suite (W-method) of all 15 automata, through every constructor",
            r#gen: Gen::Enum(|a, sink| {
                for p in rfc::ALL {
                    let mut go = true;
                    wmethod(p, 0, a, &mut |s| {
                        go = sink(Case::new(s).ty(p));
                        go
                    });
                    if !go {
                        return;
                    }
                }
            }),
        },
        Campaign {
            name: "grandfathered spellings and edits, singletons",
            r#gen: Gen::Enum(|a, sink| {
                let bytes: Vec<u8> = (0..=255).collect();
                for (i, (t, _)) in rfc::GRANDFATHERED.iter().enumerate() {
                    if !a.mine(i) {
                        continue;
                    }
                    for s in spellings(t.as_bytes()) {
                        if !sink(Case::new(s).sub("grandfathered")) {
                            return;
                        }
                    }
                    if !neighbours(t.as_bytes(), &bytes, &mut |v| sink(Case::new(v).sub("grandfathered"))) {
                        return;
                    }
                }
                for n in 0..0x3000u32 {
                    if a.mine(n as usize) && let Some(ch) = char::from_u32(n) {
                        for t in [ch.to_string(), format!("{ch}a"), format!("a{ch}")] {
                            if !sink(Case::new(t.as_str()).sub("singleton")) {
                                return;
                            }
                        }
                    }
                }
            }),
        },
        Campaign { name: "random (type, input)", r#gen: Gen::Random(typed_input, 1_700_000 * k) },
        Campaign {
            name: "random inputs for grandfathered and singleton constructors",
            r#gen: Gen::Random(
                || {
                    (input(Prod::LanguageTag), any::<bool>())
                        .prop_map(|(s, g)| Case::new(s).sub(if g { "grandfathered" } else { "singleton" }))
                        .boxed()
                },
                100_000 * k,
            ),
        },
        Campaign { name: "long values", r#gen: Gen::Enum(long_values) },
    ]
}

/// Long values of the open-ended types.
pub fn long_values(a: &EnumArgs, sink: &mut Sink) {
    long_parts(a, 260, if a.thorough { usize::MAX } else { 70_000 }, &mut |p| {
        let whole = glue(&p);
        sink(Case::new(whole.clone()).ty(Prod::LanguageTag))
            && sink(Case::new(whole).ty(Prod::Langtag))
            && (p[3].len() < 30 || sink(Case::new(p[3].clone()).ty(Prod::Variants)))
            && (p[4].len() < 30 || (sink(Case::new(p[4].clone()).ty(Prod::Extensions)) && sink(Case::new(p[4].clone()).ty(Prod::Extension))))
            && (p[5].len() < 30 || sink(Case::new(p[5].clone()).ty(Prod::Privateuse)))
    });
}

pub static L03: Property = Property {
    hang: 60,
    id: "L03",
    rule: "(type, byte string) pairs driven through every public checked constructor and conversion of the type; same generators as L01/L02 for all 15 types, plus grandfathered tags and singletons. Non-trivial: accepted, or rejected with at least one live character; distinct by (type, content).",
    check: check_l03,
    campaigns: l03_campaigns,
    assumptions: &["agreement is measured against the type's checked validation function; whether that answer is right is L01/L02"],
};

// ------------------------------------------------------------------- L04

fn l04_type(p: Prod, a: &[u8]) -> Result<Verdict, String> {
    let n = type_name(p);
    let Ok(s) = std::str::from_utf8(a) else { return Ok(Verdict::Skip("not text")) };
    per_type!(p, T, B, {
        let Ok(v) = T::new(s) else { return Ok(Verdict::Skip("rejected input")) };
        macro_rules! same {
            ($name:expr, $e:expr) => {{
                let e = $e;
                let got: &[u8] = e.as_ref();
                ensure!(got == a, "{n} parsed from {:?}: {} gives {:?}", show(a), $name, show(got));
            }};
        }
        same!("as_str", v.as_str());
        same!("as_bytes", v.as_bytes());
        same!("to_string", v.to_string());
        same!("Display", format!("{v}"));
        same!("Debug", format!("{v:?}"));
        same!("AsRef<str>", AsRef::<str>::as_ref(v));
        same!("AsRef<[u8]>", AsRef::<[u8]>::as_ref(v));
        same!("AsRef<Self>", AsRef::<T>::as_ref(v).as_bytes());
        same!("Borrow<str>", Borrow::<str>::borrow(v));
        same!("Into<&str>", <&str>::from(v));
        same!("Into<&[u8]>", <&[u8]>::from(v));
        let o: B = v.to_owned();
        let o2 = B::new(s.to_string()).map_err(|_| format!("{n}: owned constructor rejects {:?}", show(a)))?;
        let o3 = o.clone();
        for (k, o) in [("to_owned", o), ("owned parse", o2), ("clone", o3)] {
            macro_rules! same {
                ($name:expr, $e:expr) => {{
                    let e = $e;
                    let got: &[u8] = e.as_ref();
                    ensure!(got == a, "{n} parsed from {:?}: {k} then {} gives {:?}", show(a), $name, show(got));
                }};
            }
            same!("as_str", o.as_str());
            same!("as_bytes", o.as_bytes());
            same!("Display", format!("{o}"));
            same!("Debug", format!("{o:?}"));
            same!("deref", (*o).as_bytes());
            same!("AsRef<str>", AsRef::<str>::as_ref(&o));
            same!("AsRef<[u8]>", AsRef::<[u8]>::as_ref(&o));
            same!("AsRef<T>", AsRef::<T>::as_ref(&o).as_bytes());
            same!("Borrow<T>", Borrow::<T>::borrow(&o).as_bytes());
            same!("clone", o.clone().as_bytes().to_vec());
            same!("into_string", o.clone().into_string());
            same!("into_bytes", o.clone().into_bytes());
            same!("Into<String>", String::from(o.clone()));
            same!("Into<Vec<u8>>", Vec::<u8>::from(o.clone()));
            // and parsing again gives an equal value
            let again = B::new(o.clone().into_string());
            ensure!(again.is_ok_and(|w| w == o), "{n}: re-parsing the text of {:?} is not an equal value", show(a));
        }
        let again = T::new(v.as_str());
        ensure!(again.is_ok_and(|w| w == v), "{n}: re-parsing {:?} is not an equal value", show(a));
    });
    let mixed = a.iter().any(|b| b.is_ascii_uppercase()) && a.iter().any(|b| b.is_ascii_lowercase());
    Ok(pass(
        true,
        if a.is_empty() { "empty list" } else if mixed { "mixed case" } else { "single case" },
    ))
}

/// A singleton shows the character it was made from.
fn l04_singleton(b: u8) -> Result<Verdict, String> {
    let ch = b as char;
    let mut values = Vec::new();
    if let Ok(s) = Singleton::new(b) {
        values.push(("new", s));
        values.push(("a copy", { s }));
        values.push(("a clone", Clone::clone(&s)));
    }
    let text = ch.to_string();
    values.extend(Singleton::try_from(ch).ok().map(|s| ("TryFrom<char>", s)));
    values.extend(Singleton::try_from(b).ok().map(|s| ("TryFrom<u8>", s)));
    values.extend(Singleton::from_string(&text).ok().map(|s| ("from_string", s)));
    values.extend(text.parse::<Singleton>().ok().map(|s| ("FromStr", s)));
    let ext = format!("{ch}-aa");
    values.extend(langtag::Extension::new(&ext).ok().map(|e| ("Extension::singleton", e.singleton())));
    if values.is_empty() {
        return Ok(Verdict::Skip("rejected input"));
    }
    for (how, s) in values {
        ensure!(s.unwrap() == b, "the singleton made from {ch:?} by {how} holds {:?}", s.unwrap() as char);
        ensure!(s.to_string() == text, "the singleton made from {ch:?} by {how} displays as {s}");
        let d = format!("{s:?}");
        ensure!(d.trim_matches('\'') == text, "the singleton made from {ch:?} by {how} has the debug form {d}");
    }
    Ok(pass(true, "singleton"))
}

fn check_l04(c: &Case) -> Verdict {
    match c.sub.as_str() {
        "singleton" => l04_singleton(c.a.first().copied().unwrap_or(0)).into(),
        _ => l04_type(c.prod(), &c.a).into(),
    }
}

fn typed_valid() -> BoxedStrategy<Case> {
    prod().prop_flat_map(|p| (Just(p), valid(p))).prop_map(|(p, s)| Case::new(s).ty(p)).boxed()
}

fn short_valid(a: &EnumArgs, sink: &mut Sink, extra: usize) {
    for p in rfc::ALL {
        let mut go = true;
        let d = dfa::get(p);
        wmethod(p, extra, a, &mut |s| {
            if d.matches(&s) {
                go = sink(Case::new(s).ty(p));
            }
            go
        });
        if !go {
            return;
        }
    }
}

fn l04_campaigns(th: bool) -> Vec<Campaign> {
    let k = if th { 8 } else { 1 };
    vec![
        Campaign {
            name: "every singleton",
            r#gen: Gen::Enum(|a, sink| {
                for b in 0..=255u8 {
                    if a.mine(b as usize) && !sink(Case::new(vec![b]).sub("singleton")) {
                        return;
                    }
                }
            }),
        },
        Campaign { name: "accepted strings of the conformance suites", r#gen: Gen::Enum(|a, s| short_valid(a, s, 0)) },
        Campaign { name: "random valid values of every type", r#gen: Gen::Random(typed_valid, 4_000_000 * k) },
        Campaign { name: "long values", r#gen: Gen::Enum(long_values) },
    ]
}

pub static L04: Property = Property {
    hang: 60,
    id: "L04",
    rule: "Accepted values of each of the 15 types; every textual view of the borrowed value, its owned copy, an owned parse and a clone is compared byte for byte with the input. Non-trivial: every accepted value; distinct by (type, content).",
    check: check_l04,
    campaigns: l04_campaigns,
    assumptions: &["Debug output of a value is its bare text (the documented derive behaviour on the current tree)"],
};

// ------------------------------------------------------------------- L17

/// Between them, a value of every type.
const OTHER: [&str; 9] = ["en", "aaa", "latn", "12345", "1abc", "a-aa", "x-a", "aa", "x"];

fn l17_type(p: Prod, a: &[u8]) -> Result<Verdict, String> {
    use serde::de::IntoDeserializer;
    use serde::de::value::{
        BorrowedBytesDeserializer, BorrowedStrDeserializer, BytesDeserializer, CharDeserializer, Error as VErr, StrDeserializer,
        StringDeserializer,
    };
    use serde::Deserialize;
    let n = type_name(p);
    let text = std::str::from_utf8(a).ok();
    per_type!(p, T, B, {
        serde_standins!(T, B);
        let valid = T::from_bytes(a).is_ok();
        let Some(s) = text else {
            // no string format can carry it; byte formats must not admit it
            let d = BorrowedBytesDeserializer::<VErr>::new(a);
            ensure!(Ref::deserialize(d).is_err(), "{n}: non-UTF-8 bytes {:?} deserialise", show(a));
            let d = BorrowedBytesDeserializer::<VErr>::new(a);
            ensure!(Own::deserialize(d).is_err(), "{n}: non-UTF-8 bytes {:?} deserialise (owned)", show(a));
            return Ok(pass(true, "not text, refused"));
        };
        let json = serde_json::to_string(s).map_err(|e| e.to_string())?;
        let mut cbor = Vec::new();
        ciborium::into_writer(s, &mut cbor).map_err(|e| e.to_string())?;
        // every JSON character escaped
        let escaped: String = std::iter::once("\"".to_string())
            .chain(s.encode_utf16().map(|u| format!("\\u{u:04x}")))
            .chain(std::iter::once("\"".to_string()))
            .collect();
        macro_rules! de {
            ($name:expr, $e:expr) => {
                match $e {
                    Ok(v) => {
                        ensure!(valid, "{n}: {} admits {:?}, which the constructor rejects", $name, show(a));
                        ensure!(v.0.as_bytes() == a, "{n}: {} of {:?} gives {:?}", $name, show(a), show(v.0.as_bytes()));
                    }
                    Err(e) => ensure!(!valid, "{n}: {} refuses the valid {:?}: {}", $name, show(a), e),
                }
            };
        }
        de!("owned from JSON", serde_json::from_str::<Own>(&json));
        de!("owned from JSON bytes", serde_json::from_slice::<Own>(json.as_bytes()));
        de!("owned from JSON reader", serde_json::from_reader::<_, Own>(json.as_bytes()));
        de!("owned from escaped JSON", serde_json::from_str::<Own>(&escaped));
        de!("owned from JSON value", serde_json::from_value::<Own>(serde_json::Value::String(s.to_string())));
        de!("owned from CBOR", ciborium::from_reader::<Own, _>(&cbor[..]));
        let d: StrDeserializer<VErr> = s.into_deserializer();
        de!("owned from str deserializer", Own::deserialize(d));
        let d: StringDeserializer<VErr> = s.to_string().into_deserializer();
        de!("owned from String deserializer", Own::deserialize(d));
        let d = BorrowedStrDeserializer::<VErr>::new(s);
        de!("owned from borrowed str deserializer", Own::deserialize(d));
        let d = BorrowedStrDeserializer::<VErr>::new(s);
        de!("borrowed from borrowed str deserializer", Ref::deserialize(d));
        if !json.contains('\\') {
            de!("borrowed from JSON", serde_json::from_str::<Ref>(&json));
            de!("borrowed from JSON bytes", serde_json::from_slice::<Ref>(json.as_bytes()));
        }
        de!("owned inside a JSON array", serde_json::from_str::<Vec<Own>>(&format!("[{json}]")).map(|mut v| v.remove(0)));
        de!("owned as a JSON map key", serde_json::from_str::<BTreeMap<Own, u8>>(&format!("{{{json}:1}}")).map(|m| m.into_keys().next().expect("one key")));
        de!("owned in place of another value", {
            let start = if valid { B::new(s.to_string()).ok() } else { OTHER.iter().find_map(|t| B::new(t.to_string()).ok()) };
            let mut v = Own(start.expect("some value of each type"));
            let mut d = serde_json::Deserializer::from_str(&json);
            Own::deserialize_in_place(&mut d, &mut v).map(|()| v)
        });
        if s.chars().count() == 1 {
            let d: CharDeserializer<VErr> = s.chars().next().unwrap_or('?').into_deserializer();
            let r = Own::deserialize(d);
            ensure!(valid || r.is_err(), "{n}: the character {s:?} deserialises");
        }
        // formats without text may carry the bytes; whether they may is left open, but never invalid ones
        let by: Vec<(&str, Result<Vec<u8>, String>)> = vec![
            ("borrowed bytes", Own::deserialize(BorrowedBytesDeserializer::<VErr>::new(a)).map(|v| v.0.as_bytes().to_vec()).map_err(|e| e.to_string())),
            ("bytes", Own::deserialize(BytesDeserializer::<VErr>::new(a)).map(|v| v.0.as_bytes().to_vec()).map_err(|e| e.to_string())),
            ("borrowed bytes, borrowed", Ref::deserialize(BorrowedBytesDeserializer::<VErr>::new(a)).map(|v| v.0.as_bytes().to_vec()).map_err(|e| e.to_string())),
        ];
        for (how, r) in by {
            if let Ok(v) = r {
                ensure!(valid && v == a, "{n}: deserialising {:?} from {how} gives {:?}", show(a), show(&v));
            }
        }
        de!("owned as an optional", serde_json::from_str::<Option<Own>>(&json).map(|v| v.expect("present")));
        // non-strings never deserialise
        for other in ["null", "1", "[]", "{}", "true", "[\"fr\"]", "{\"a\":1}"] {
            ensure!(serde_json::from_str::<Own>(other).is_err(), "{n}: JSON {other} deserialises");
        }
        if valid {
            let v = T::new(s).map_err(|_| format!("{n}: new and from_bytes disagree"))?;
            let o = Own(v.to_owned());
            macro_rules! ser {
                ($name:expr, $v:expr) => {{
                    let j = serde_json::to_string($v).map_err(|e| format!("{n}: {} of {:?} fails: {e}", $name, show(a)))?;
                    ensure!(j == json, "{n}: {} of {:?} to JSON gives {j}", $name, show(a));
                    let mut c = Vec::new();
                    ciborium::into_writer($v, &mut c).map_err(|e| e.to_string())?;
                    ensure!(c == cbor, "{n}: {} of {:?} to CBOR is not the plain text string", $name, show(a));
                    let jv = serde_json::to_value($v).map_err(|e| e.to_string())?;
                    ensure!(jv == serde_json::Value::String(s.to_string()), "{n}: {} of {:?} to a value gives {jv}", $name, show(a));
                }};
            }
            ser!("serialising the borrowed value", &OutRef(v));
            ser!("serialising the owned value", &o);
            let m = serde_json::to_string(&BTreeMap::from([(&o, 1u8)])).map_err(|e| format!("{n}: {:?} as a map key: {e}", show(a)))?;
            ensure!(m == format!("{{{json}:1}}"), "{n}: {:?} as a JSON map key gives {m}", show(a));
            let back: Own = serde_json::from_str(&serde_json::to_string(&o).unwrap_or_default())
                .map_err(|e| format!("{n}: {:?} does not round-trip: {e}", show(a)))?;
            ensure!(back == o && back.0.as_bytes() == a, "{n}: {:?} round-trips to {:?}", show(a), show(back.0.as_bytes()));
        }
        Ok(pass(true, if valid { "valid, round-tripped" } else { "invalid, refused" }))
    })
}

fn check_l17(c: &Case) -> Verdict {
    l17_type(c.prod(), &c.a).into()
}

fn l17_campaigns(th: bool) -> Vec<Campaign> {
    let k = if th { 8 } else { 1 };
    vec![
        Campaign {
            name: "conformance suite (W-method) of all 15 automata",
            r#gen: Gen::Enum(|a, sink| {
                for p in rfc::ALL {
                    let (mut go, mut i) = (true, 0u32);
                    let d = dfa::get(p);
                    wmethod(p, 0, a, &mut |s| {
                        i += 1;
                        // all accepted strings, a thinned set of rejected ones
                        if a.thorough || d.matches(&s) || i % 4 == 0 {
                            go = sink(Case::new(s).ty(p));
                        }
                        go
                    });
                    if !go {
                        return;
                    }
                }
            }),
        },
        Campaign { name: "random (type, input)", r#gen: Gen::Random(typed_input, 1_500_000 * k) },
        Campaign { name: "long values", r#gen: Gen::Enum(long_values) },
    ]
}

pub static L17: Property = Property {
    hang: 60,
    id: "L17",
    rule: "(type, string) pairs, valid and invalid, deserialised owned and borrowed through JSON (plain, fully escaped, value, reader, in containers), CBOR and the serde value deserialisers, and serialised to JSON, JSON value and CBOR. Non-trivial: every pair (each either round-trips or must be refused); distinct by (type, content).",
    check: check_l17,
    campaigns: l17_campaigns,
    assumptions: &["serde_json and ciborium carry strings faithfully"],
};
