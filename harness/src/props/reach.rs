//! L06: every component a value exposes is itself a valid value of its type.

use crate::case::Case;
use crate::engine::*;
use crate::ensure;
use crate::r#gen::*;
use crate::per_type;
use crate::props::construct::long_values;
use crate::rfc::{self, Prod};
use crate::types::*;
use langtag::*;
use proptest::prelude::*;

/// Re-parse one value, then follow everything reachable from it.
macro_rules! go {
    ($T:ty, $v:expr, $from:expr, $n:expr) => {{
        let v: &$T = $v;
        *$n += 1;
        let b: &[u8] = v.as_bytes();
        ensure!(std::str::from_utf8(b).is_ok(), "{}: the value {:?} is not UTF-8", $from, show(b));
        match <$T>::new(b) {
            Ok(w) => ensure!(w == v, "{}: {:?} is not equal to its own re-parse", $from, show(b)),
            Err(_) => return Err(format!("{}: the value {:?} is rejected by {}::new", $from, show(b), stringify!($T))),
        }
        match <$T>::from_str(v.as_str()) {
            Ok(w) => ensure!(w == v, "{}: {:?} is not equal to its own re-parse", $from, show(b)),
            Err(_) => return Err(format!("{}: the value {:?} is rejected by {}::from_str", $from, show(b), stringify!($T))),
        }
        Walk::walk(v, $n)?;
    }};
}

trait Walk {
    fn walk(&self, n: &mut usize) -> Result<(), String>;
}

macro_rules! leaf {
    ($($T:ty),*) => { $(impl Walk for $T {
        fn walk(&self, _: &mut usize) -> Result<(), String> { Ok(()) }
    })* };
}
leaf!(PrimaryLanguage, ExtendedLangTag, Script, Region, Variant, ExtensionSubtag, PrivateUseSubtag);

macro_rules! cap {
    ($s:expr) => {
        $s.as_bytes().len() + 2
    };
}

impl Walk for LanguageExtension {
    fn walk(&self, n: &mut usize) -> Result<(), String> {
        for e in self.iter().take(cap!(self)) {
            go!(ExtendedLangTag, e, "LanguageExtension::iter", n);
        }
        Ok(())
    }
}
impl Walk for Language {
    fn walk(&self, n: &mut usize) -> Result<(), String> {
        go!(PrimaryLanguage, self.primary(), "Language::primary", n);
        if let Some(e) = self.extension() {
            go!(LanguageExtension, e, "Language::extension", n);
        }
        for e in self.extension_subtags().take(cap!(self)) {
            go!(ExtendedLangTag, e, "Language::extension_subtags", n);
        }
        Ok(())
    }
}
impl Walk for Variants {
    fn walk(&self, n: &mut usize) -> Result<(), String> {
        for v in self.iter().take(cap!(self)) {
            go!(Variant, v, "Variants::iter", n);
        }
        for v in self.iter().rev().take(cap!(self)) {
            go!(Variant, v, "Variants::iter, reversed", n);
        }
        for start in 0..2 {
            // meeting in the middle
            let mut it = self.iter();
            for i in 0..cap!(self) {
                let Some(v) = (if i % 2 == start { it.next() } else { it.next_back() }) else { break };
                go!(Variant, v, "Variants::iter, alternating", n);
            }
        }
        if let Some(v) = self.first() {
            go!(Variant, v, "Variants::first", n);
        }
        if let Some(v) = self.last() {
            go!(Variant, v, "Variants::last", n);
        }
        Ok(())
    }
}
impl Walk for Extension {
    fn walk(&self, n: &mut usize) -> Result<(), String> {
        let s = self.singleton();
        ensure!(Singleton::new(s.unwrap()).is_ok(), "the singleton of {:?} is the invalid {:#x}", show(self.as_bytes()), s.unwrap());
        ensure!(
            Singleton::from_string(&s.to_string()).is_ok_and(|z| z == s),
            "the singleton of {:?} does not re-parse",
            show(self.as_bytes())
        );
        for e in self.iter().take(cap!(self)) {
            go!(ExtensionSubtag, e, "Extension::iter", n);
        }
        Ok(())
    }
}
impl Walk for Extensions {
    fn walk(&self, n: &mut usize) -> Result<(), String> {
        for e in self.iter().take(cap!(self)) {
            go!(Extension, e, "Extensions::iter", n);
        }
        for b in (0..128u8).filter(|b| rfc::is_singleton_byte(*b)) {
            let Ok(s) = Singleton::new(b) else { continue };
            if let Some(e) = self.get(s) {
                go!(Extension, e, "Extensions::get", n);
            }
            for e in self.iter_extension(s).take(cap!(self)) {
                go!(ExtensionSubtag, e, "Extensions::iter_extension", n);
            }
        }
        Ok(())
    }
}
impl Walk for PrivateUse {
    fn walk(&self, n: &mut usize) -> Result<(), String> {
        for e in self.iter().take(cap!(self)) {
            go!(PrivateUseSubtag, e, "PrivateUse::iter", n);
        }
        Ok(())
    }
}
impl Walk for NormalLangTag {
    fn walk(&self, n: &mut usize) -> Result<(), String> {
        go!(Language, self.language(), "NormalLangTag::language", n);
        if let Some(v) = self.script() {
            go!(Script, v, "NormalLangTag::script", n);
        }
        if let Some(v) = self.region() {
            go!(Region, v, "NormalLangTag::region", n);
        }
        go!(Variants, self.variants(), "NormalLangTag::variants", n);
        go!(Extensions, self.extensions(), "NormalLangTag::extensions", n);
        if let Some(v) = self.private_use() {
            go!(PrivateUse, v, "NormalLangTag::private_use", n);
        }
        for e in self.private_use_subtags().take(cap!(self)) {
            go!(PrivateUseSubtag, e, "NormalLangTag::private_use_subtags", n);
        }
        Ok(())
    }
}
fn walk_grandfathered(g: GrandfatheredLangTag, n: &mut usize) -> Result<(), String> {
    *n += 1;
    ensure!(std::str::from_utf8(g.as_bytes()).is_ok(), "the grandfathered text {:?} is not UTF-8", show(g.as_bytes()));
    ensure!(GrandfatheredLangTag::new(g.as_bytes()) == Ok(g), "grandfathered {:?} does not re-parse to itself", g.as_str());
    ensure!(LangTag::new(g.as_str()).is_ok(), "grandfathered {:?} is not accepted as a tag", g.as_str());
    if let Some(l) = g.language() {
        go!(Language, l, "GrandfatheredLangTag::language", n);
    }
    Ok(())
}
impl Walk for LangTag {
    fn walk(&self, n: &mut usize) -> Result<(), String> {
        if let Some(v) = self.language() {
            go!(Language, v, "LangTag::language", n);
        }
        if let Some(v) = self.script() {
            go!(Script, v, "LangTag::script", n);
        }
        if let Some(v) = self.region() {
            go!(Region, v, "LangTag::region", n);
        }
        go!(Variants, self.variants(), "LangTag::variants", n);
        go!(Extensions, self.extensions(), "LangTag::extensions", n);
        if let Some(v) = self.private_use() {
            go!(PrivateUse, v, "LangTag::private_use", n);
        }
        for e in self.private_use_subtags().take(cap!(self)) {
            go!(PrivateUseSubtag, e, "LangTag::private_use_subtags", n);
        }
        if let Some(v) = self.as_normal() {
            go!(NormalLangTag, v, "LangTag::as_normal", n);
        }
        if let Some(v) = self.as_private_use() {
            go!(PrivateUseLangTag, v, "LangTag::as_private_use", n);
        }
        if let Some(g) = self.as_grandfathered() {
            walk_grandfathered(g, n)?;
        }
        let _ = (self.kind(), self.is_normal(), self.is_private_use(), self.is_grandfathered());
        let t = self.as_typed();
        if let Some(v) = t.language() {
            go!(Language, v, "TypedLangTag::language", n);
        }
        if let Some(v) = t.as_normal() {
            go!(NormalLangTag, v, "TypedLangTag::as_normal", n);
        }
        if let Some(v) = t.as_private_use() {
            go!(PrivateUseLangTag, v, "TypedLangTag::as_private_use", n);
        }
        if let Some(g) = t.as_grandfathered() {
            walk_grandfathered(g, n)?;
        }
        Ok(())
    }
}

fn l06_type(p: Prod, a: &[u8]) -> Result<Verdict, String> {
    let mut n = 0;
    per_type!(p, T, B, {
        let Ok(v) = T::from_bytes(a) else { return Ok(Verdict::Skip("rejected input")) };
        go!(T, v, "parsed value", &mut n);
        if a.len() < 2000 {
            if let Ok(o) = B::new(a.to_vec()) {
                go!(T, &o, "owned value", &mut n);
            }
        }
    });
    let class = match n {
        0..=2 => "no components",
        3..=9 => "up to 9 values reached",
        10..=49 => "up to 49 values reached",
        _ => "50 or more values reached",
    };
    Ok(pass(n > 2, class))
}

fn check_l06(c: &Case) -> Verdict {
    l06_type(c.prod(), &c.a).into()
}

/// The types from which further values can be reached, heavier.
pub fn structured() -> BoxedStrategy<Prod> {
    (0usize..12)
        .prop_map(|i| {
            [
                Prod::LanguageTag,
                Prod::LanguageTag,
                Prod::LanguageTag,
                Prod::Langtag,
                Prod::Privateuse,
                Prod::Language,
                Prod::Extlang,
                Prod::Variants,
                Prod::Extension,
                Prod::Extensions,
                Prod::Extensions,
                Prod::Langtag,
            ][i]
        })
        .boxed()
}

fn structured_inputs() -> BoxedStrategy<Case> {
    structured()
        .prop_flat_map(|p| (Just(p), prop_oneof![10 => valid(p), 2 => near(p), 1 => odd(p)]))
        .prop_map(|(p, s)| Case::new(s).ty(p))
        .boxed()
}

fn long_values_some(a: &EnumArgs, sink: &mut Sink) {
    let mut i = 0u32;
    long_values(a, &mut |c| {
        i += 1;
        if !a.thorough && c.a.len() > 3000 && i % 7 != 0 {
            return true;
        }
        sink(c)
    });
}

fn l06_campaigns(th: bool) -> Vec<Campaign> {
    let k = if th { 8 } else { 1 };
    vec![
        Campaign {
            name: "accepted strings of the conformance suites",
            r#gen: Gen::Enum(|a, sink| {
                for p in rfc::ALL {
                    let mut go = true;
                    wmethod(p, 0, a, &mut |s| {
                        // whatever the crate accepts is a starting value
                        if accepts(p, &s) {
                            go = sink(Case::new(s).ty(p));
                        }
                        go
                    });
                    if !go {
                        return;
                    }
                }
            }),
        },
        Campaign {
            name: "component shapes",
            r#gen: Gen::Enum(|a, sink| {
                shapes(a, if a.thorough { 15 } else { 1 }, &mut |p| sink(Case::new(glue(&p)).ty(Prod::LanguageTag)));
            }),
        },
        Campaign { name: "random values of the structured types", r#gen: Gen::Random(structured_inputs, 1_300_000 * k) },
        Campaign { name: "long values", r#gen: Gen::Enum(long_values_some) },
    ]
}

pub static L06: Property = Property {
    hang: 60,
    id: "L06",
    rule: "Whatever the crate accepts of the generated inputs, for each starting type; every chain of accessors and iterators is followed to its end and each value reached is re-parsed with its own constructor, compared with itself and checked to be UTF-8. Non-trivial: more than the starting value is reached; distinct by (type, content).",
    check: check_l06,
    campaigns: l06_campaigns,
    assumptions: &[],
};
