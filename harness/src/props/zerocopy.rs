//! L16: parsing and component access borrow from the input without copying.

use crate::case::Case;
use crate::engine::*;
use crate::ensure;
use crate::r#gen::*;
use crate::per_type;
use crate::props::construct::long_values;
use crate::props::decompose::R;
use crate::props::reach::structured;
use crate::rfc::{self, Decomp, Prod, RefKind};
use crate::types::*;
use langtag::*;
use proptest::prelude::*;

struct Mem<'a> {
    s: &'a [u8],
}

impl Mem<'_> {
    /// Offset of a component inside the input, or why it is not inside.
    fn at(&self, what: &str, v: &[u8]) -> Result<R, String> {
        let base = self.s.as_ptr() as usize;
        let p = v.as_ptr() as usize;
        ensure!(
            p >= base && p + v.len() <= base + self.s.len(),
            "{what} of {:?} is {:?}, outside the tag's own memory",
            show(self.s),
            show(v)
        );
        Ok(p - base..p - base + v.len())
    }
    fn is(&self, what: &str, v: &[u8], want: &R) -> Result<(), String> {
        if v.is_empty() && want.is_empty() {
            return Ok(());
        }
        let r = self.at(what, v)?;
        ensure!(r == *want, "{what} of {:?} lies at {r:?}, its text belongs at {want:?}", show(self.s));
        Ok(())
    }
    fn list<'b>(&self, what: &str, it: impl Iterator<Item = &'b [u8]>, want: &[R]) -> Result<(), String> {
        let mut last = None;
        for (n, v) in it.take(want.len() + 2).enumerate() {
            let r = self.at(what, v)?;
            ensure!(
                last.is_none_or(|l| r.start > l),
                "{what} of {:?}: element {n} at {r:?} overlaps the previous one",
                show(self.s)
            );
            last = Some(r.end);
            if let Some(w) = want.get(n) {
                ensure!(r == *w, "{what} of {:?}: element {n} lies at {r:?}, its text belongs at {w:?}", show(self.s));
            }
        }
        Ok(())
    }
    fn opt(&self, what: &str, v: Option<&[u8]>, want: Option<&R>) -> Result<(), String> {
        match (v, want) {
            (Some(v), Some(w)) => self.is(what, v, w),
            (Some(v), None) => self.at(what, v).map(|_| ()),
            _ => Ok(()),
        }
    }
}

/// Looked-up extensions, by both cases of the singleton.
fn lookups(m: &Mem, es: &Extensions, want: &[rfc::Ext]) -> Result<(), String> {
    for (i, w) in want.iter().enumerate().take(20) {
        let same = |e: &rfc::Ext| rfc::fold(&[e.singleton]) == rfc::fold(&[w.singleton]);
        if want.iter().position(same) != Some(i) {
            continue;
        }
        for c in [w.singleton, w.singleton.to_ascii_lowercase(), w.singleton.to_ascii_uppercase()] {
            if let Ok(k) = Singleton::new(c) {
                m.opt("looked-up extension", es.get(k).map(|e| e.as_bytes()), Some(&w.range))?;
                if let Some(e) = es.get(k) {
                    m.list("subtags of the looked-up extension", e.iter().map(|e| e.as_bytes()), &w.subtags)?;
                }
                m.list("looked-up extension subtags", es.iter_extension(k).map(|e| e.as_bytes()), &w.subtags)?;
            }
        }
    }
    Ok(())
}

fn normal(t: &NormalLangTag, s: &[u8], d: &Decomp) -> Result<(), String> {
    let m = Mem { s };
    let l = t.language();
    m.is("language", l.as_bytes(), &d.language)?;
    m.is("primary language", l.primary().as_bytes(), &d.primary)?;
    m.opt("extended language list", l.extension().map(|e| e.as_bytes()), d.extlang_range().as_ref())?;
    m.list("extended languages", l.extension_subtags().map(|e| e.as_bytes()), &d.extlangs)?;
    m.opt("script", t.script().map(|e| e.as_bytes()), d.script.as_ref())?;
    m.opt("region", t.region().map(|e| e.as_bytes()), d.region.as_ref())?;
    let vs = t.variants();
    m.is("variant list", vs.as_bytes(), &d.variants_range().unwrap_or(0..0))?;
    m.list("variants", vs.iter().map(|e| e.as_bytes()), &d.variants)?;
    m.opt("first variant", vs.first().map(|e| e.as_bytes()), d.variants.first())?;
    m.opt("last variant", vs.last().map(|e| e.as_bytes()), d.variants.last())?;
    if let Some(e) = l.extension() {
        m.list("subtags of the extended language list", e.iter().map(|e| e.as_bytes()), &d.extlangs)?;
    }
    let mut rev: Vec<&[u8]> = vs.iter().rev().map(|e| e.as_bytes()).take(d.variants.len() + 2).collect();
    rev.reverse();
    m.list("reversed variants", rev.into_iter(), &d.variants)?;
    let es = t.extensions();
    m.is("extension list", es.as_bytes(), &d.extensions_range().unwrap_or(0..0))?;
    let exts: Vec<R> = d.extensions.iter().map(|e| e.range.clone()).collect();
    m.list("extensions", es.iter().map(|e| e.as_bytes()), &exts)?;
    for (e, w) in es.iter().zip(&d.extensions) {
        m.list("extension subtags", e.iter().map(|e| e.as_bytes()), &w.subtags)?;
    }
    lookups(&m, es, &d.extensions)?;
    m.opt("private-use part", t.private_use().map(|e| e.as_bytes()), d.private.as_ref())?;
    if let Some(v) = t.private_use() {
        m.list("subtags of the private-use part", v.iter().map(|e| e.as_bytes()), &d.private_subtags)?;
    }
    m.list("private-use subtags", t.private_use_subtags().map(|e| e.as_bytes()), &d.private_subtags)
}

fn whole_tag(t: &LangTag, a: &[u8]) -> Result<bool, String> {
    let m = Mem { s: a };
    let whole = 0..a.len();
    match rfc::kind(a) {
        Some(RefKind::Normal) => {
            let d = rfc::parse_langtag(a).unwrap_or_default();
            if let Some(n) = t.as_normal() {
                m.is("as_normal", n.as_bytes(), &whole)?;
                normal(n, a, &d)?;
            }
            m.opt("as_typed().as_normal", t.as_typed().as_normal().map(|e| e.as_bytes()), Some(&whole))?;
            m.opt("LangTag::language", t.language().map(|e| e.as_bytes()), Some(&d.language))?;
            m.opt("TypedLangTag::language", t.as_typed().language().map(|e| e.as_bytes()), Some(&d.language))?;
            m.opt("LangTag::script", t.script().map(|e| e.as_bytes()), d.script.as_ref())?;
            m.opt("LangTag::region", t.region().map(|e| e.as_bytes()), d.region.as_ref())?;
            m.is("LangTag::variants", t.variants().as_bytes(), &d.variants_range().unwrap_or(0..0))?;
            m.is("LangTag::extensions", t.extensions().as_bytes(), &d.extensions_range().unwrap_or(0..0))?;
            m.opt("LangTag::private_use", t.private_use().map(|e| e.as_bytes()), d.private.as_ref())?;
            m.list("LangTag::private_use_subtags", t.private_use_subtags().map(|e| e.as_bytes()), &d.private_subtags)?;
            Ok(true)
        }
        Some(RefKind::PrivateUse) => {
            if let Some(v) = t.as_private_use() {
                m.is("as_private_use", v.as_bytes(), &whole)?;
                m.list("private-use subtags", v.iter().map(|e| e.as_bytes()), &rfc::segments(a)[1..])?;
            }
            m.opt("as_typed().as_private_use", t.as_typed().as_private_use().map(|e| e.as_bytes()), Some(&whole))?;
            Ok(true)
        }
        _ => Ok(false),
    }
}

fn l16(p: Prod, a: &[u8]) -> Result<Verdict, String> {
    let whole = 0..a.len();
    let m = Mem { s: a };
    per_type!(p, T, B, {
        let Ok(v) = T::from_bytes(a) else { return Ok(Verdict::Skip("rejected input")) };
        let Ok(t) = std::str::from_utf8(a) else { return Ok(Verdict::Skip("accepted, not UTF-8")) };
        m.is("from_bytes", v.as_bytes(), &whole)?;
        m.opt("new(bytes)", T::new(a).ok().map(|e| e.as_bytes()), Some(&whole))?;
        m.opt("new(text)", T::new(t).ok().map(|e| e.as_bytes()), Some(&whole))?;
        m.opt("from_str", T::from_str(t).ok().map(|e| e.as_bytes()), Some(&whole))?;
        m.opt("TryFrom<&str>", <&T>::try_from(t).ok().map(|e| e.as_bytes()), Some(&whole))?;
        m.opt("TryFrom<&[u8]>", <&T>::try_from(a).ok().map(|e| e.as_bytes()), Some(&whole))?;
        m.is("as_str", v.as_str().as_bytes(), &whole)?;
        m.is("AsRef<str>", AsRef::<str>::as_ref(v).as_bytes(), &whole)?;
        m.is("AsRef<[u8]>", AsRef::<[u8]>::as_ref(v), &whole)?;
        m.is("AsRef<Self>", AsRef::<T>::as_ref(v).as_bytes(), &whole)?;
        m.is("Into<&str>", <&str>::from(v).as_bytes(), &whole)?;
        m.is("Into<&[u8]>", <&[u8]>::from(v), &whole)?;
        // an owned value's borrowed forms all look at its one buffer
        let o = v.to_owned();
        let om = Mem { s: o.as_bytes() };
        om.is("owned deref", (*o).as_bytes(), &whole)?;
        om.is("owned AsRef", AsRef::<T>::as_ref(&o).as_bytes(), &whole)?;
        om.is("owned Borrow", std::borrow::Borrow::<T>::borrow(&o).as_bytes(), &whole)?;
    });
    let mut rich = false;
    match p {
        Prod::LanguageTag => {
            if let Ok(t) = LangTag::from_bytes(a) {
                rich = whole_tag(t, a)?;
                let o = t.to_owned();
                whole_tag(&o, o.as_bytes())?;
            }
        }
        Prod::Langtag => {
            if let (Ok(t), Some(d)) = (NormalLangTag::from_bytes(a), rfc::parse_langtag(a)) {
                rich = true;
                normal(t, a, &d)?;
                let o = t.to_owned();
                normal(&o, o.as_bytes(), &d)?;
            }
        }
        Prod::Privateuse => {
            if let (Ok(t), true) = (PrivateUse::from_bytes(a), rfc::is_privateuse(a)) {
                rich = true;
                m.list("private-use subtags", t.iter().map(|e| e.as_bytes()), &rfc::segments(a)[1..])?;
            }
        }
        Prod::Extensions => {
            if let (Ok(t), Some(d)) = (Extensions::from_bytes(a), rfc::parse_extensions(a)) {
                rich = d.len() > 1;
                let exts: Vec<R> = d.iter().map(|e| e.range.clone()).collect();
                m.list("extensions", t.iter().map(|e| e.as_bytes()), &exts)?;
                for (e, w) in t.iter().zip(&d) {
                    m.list("extension subtags", e.iter().map(|e| e.as_bytes()), &w.subtags)?;
                }
                lookups(&m, t, &d)?;
            }
        }
        Prod::Variants => {
            if let Ok(t) = Variants::from_bytes(a) {
                let segs = if a.is_empty() { vec![] } else { rfc::segments(a) };
                rich = segs.len() > 1;
                m.list("variants", t.iter().map(|e| e.as_bytes()), &segs)?;
                m.opt("first variant", t.first().map(|e| e.as_bytes()), segs.first())?;
                m.opt("last variant", t.last().map(|e| e.as_bytes()), segs.last())?;
                m.opt("the iterator's last variant", t.iter().last().map(|e| e.as_bytes()), segs.last())?;
                for (n, r) in segs.iter().enumerate() {
                    m.opt("nth variant", t.iter().nth(n).map(|e| e.as_bytes()), Some(r))?;
                    let back = segs.len() - 1 - n;
                    m.opt("nth variant from the back", t.iter().nth_back(back).map(|e| e.as_bytes()), Some(r))?;
                    if n >= 12 {
                        break;
                    }
                }
            }
        }
        Prod::Language => {
            if let (Ok(t), true) = (Language::from_bytes(a), rfc::matches(p, a)) {
                let segs = rfc::segments(a);
                rich = segs.len() > 1;
                m.is("primary language", t.primary().as_bytes(), &segs[0])?;
                let rest = (rich).then(|| segs[1].start..a.len());
                m.opt("extended language list", t.extension().map(|e| e.as_bytes()), rest.as_ref())?;
                if let Some(e) = t.extension() {
                    m.list("subtags of the extended language list", e.iter().map(|e| e.as_bytes()), &segs[1..])?;
                }
                m.list("extended languages", t.extension_subtags().map(|e| e.as_bytes()), &segs[1..])?;
            }
        }
        Prod::Extlang => {
            if let (Ok(t), true) = (LanguageExtension::from_bytes(a), rfc::matches(p, a)) {
                rich = a.len() > 3;
                m.list("extended languages", t.iter().map(|e| e.as_bytes()), &rfc::segments(a))?;
            }
        }
        Prod::Extension => {
            if let (Ok(t), true) = (Extension::from_bytes(a), rfc::matches(p, a)) {
                rich = true;
                m.list("extension subtags", t.iter().map(|e| e.as_bytes()), &rfc::segments(a)[1..])?;
            }
        }
        _ => {}
    }
    Ok(pass(rich || !a.is_empty(), if rich { "with components" } else { "plain value" }))
}

fn check_l16(c: &Case) -> Verdict {
    // the input sits inside a larger buffer, at an offset given by the case
    let pad = (c.n % 17) as usize;
    let mut buf = vec![b'-'; pad];
    buf.extend_from_slice(&c.a);
    buf.extend_from_slice(b"-zz");
    l16(c.prod(), &buf[pad..pad + c.a.len()]).into()
}

fn l16_campaigns(th: bool) -> Vec<Campaign> {
    let k = if th { 8 } else { 1 };
    vec![
        Campaign {
            name: "component shapes",
            r#gen: Gen::Enum(|a, sink| {
                let mut i = 0;
                shapes(a, if a.thorough { 20 } else { 1 }, &mut |p| {
                    i += 1;
                    let ty = if i % 2 == 0 { Prod::Langtag } else { Prod::LanguageTag };
                    sink(Case { n: i % 17, ..Case::new(glue(&p)).ty(ty) })
                });
            }),
        },
        Campaign {
            name: "random values of every type",
            r#gen: Gen::Random(
                || {
                    prop_oneof![prod(), structured()]
                        .prop_flat_map(|p| (Just(p), valid(p), 0u64..17))
                        .prop_map(|(p, s, n)| Case { n, ..Case::new(s).ty(p) })
                        .boxed()
                },
                2_000_000 * k,
            ),
        },
        Campaign { name: "long values", r#gen: Gen::Enum(long_values) },
    ]
}

pub static L16: Property = Property {
    hang: 60,
    id: "L16",
    rule: "Accepted inputs placed inside a larger buffer; address and length of the parsed value, of every view and of every component compared with where the text lies. Non-trivial: non-empty value; distinct by (type, content, placement).",
    check: check_l16,
    campaigns: l16_campaigns,
    assumptions: &["positions expected from the reference decomposer; empty values carry no position"],
};
