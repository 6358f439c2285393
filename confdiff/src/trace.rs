//! The trace of everything the borrowed API says about a text and a comparand.
//! Shared with the harness (L23, L26) and `freestanding`, which has no std.

extern crate alloc;

use self::alloc::{format, string::{String, ToString}};
use core::fmt::Write as _;
use core::hash::{Hash, Hasher};
use langtag::*;

pub struct Fnv(pub u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, bytes: &[u8]) {
        self.0 = (self.0 ^ 0x100 ^ bytes.len() as u64).wrapping_mul(0x100000001b3);
        for b in bytes {
            self.0 = (self.0 ^ *b as u64).wrapping_mul(0x100000001b3);
        }
    }
}
fn fnv<T: Hash + ?Sized>(v: &T) -> u64 {
    let mut h = Fnv(0xcbf29ce484222325);
    v.hash(&mut h);
    h.finish()
}

/// Position of a part in the whole, or its text when it lies elsewhere
/// (empty parts have no position worth comparing).
fn at(w: &[u8], p: &[u8]) -> String {
    if p.is_empty() {
        return "empty".into();
    }
    let (ws, ps) = (w.as_ptr() as usize, p.as_ptr() as usize);
    if ps >= ws && ps + p.len() <= ws + w.len() {
        format!("{}+{}", ps - ws, p.len())
    } else {
        format!("{:?}", p.escape_ascii().to_string())
    }
}

fn each<'a>(o: &mut String, w: &[u8], name: &str, it: impl Iterator<Item = &'a [u8]>) {
    let _ = write!(o, "{name}=[");
    for e in it.take(w.len() + 8) {
        let _ = write!(o, "{},", at(w, e));
    }
    o.push_str("];");
}

fn language(o: &mut String, w: &[u8], l: &Language) {
    let _ = write!(
        o,
        "language={};primary={};",
        at(w, l.as_bytes()),
        at(w, l.primary().as_bytes())
    );
    let _ = write!(
        o,
        "extlang={:?};",
        l.extension().map(|e| at(w, e.as_bytes()))
    );
    each(
        o,
        w,
        "extlangs",
        l.extension_subtags().map(|e| e.as_bytes()),
    );
}
fn variants(o: &mut String, w: &[u8], v: &Variants) {
    let _ = write!(o, "variants={};", at(w, v.as_bytes()));
    each(o, w, "variant", v.iter().map(|e| e.as_bytes()));
    each(o, w, "back", v.iter().rev().map(|e| e.as_bytes()));
    let mut it = v.iter();
    for i in 0..8 {
        let e = if i % 3 == 1 {
            it.next_back()
        } else {
            it.next()
        };
        let _ = write!(o, "{:?},", e.map(|e| at(w, e.as_bytes())));
    }
    let _ = write!(
        o,
        "first={:?};last={:?};",
        v.first().map(|e| at(w, e.as_bytes())),
        v.last().map(|e| at(w, e.as_bytes()))
    );
}
fn extensions(o: &mut String, w: &[u8], v: &Extensions) {
    let _ = write!(o, "extensions={};", at(w, v.as_bytes()));
    for e in v.iter().take(w.len() + 8) {
        let _ = write!(
            o,
            "extension={};singleton={};",
            at(w, e.as_bytes()),
            e.singleton()
        );
        each(o, w, "subtags", e.iter().map(|e| e.as_bytes()));
    }
    for s in (0..128u8).filter_map(|b| Singleton::new(b).ok()) {
        if let Some(e) = v.get(s) {
            let _ = write!(o, "{s}={};", at(w, e.as_bytes()));
        }
        let mut it = v.iter_extension(s).peekable();
        if it.peek().is_some() {
            each(o, w, "iter", it.map(|e| e.as_bytes()));
        }
    }
}
fn private(o: &mut String, w: &[u8], p: Option<&PrivateUse>) {
    let _ = write!(o, "private={:?};", p.map(|p| at(w, p.as_bytes())));
    if let Some(p) = p {
        each(o, w, "subtags", p.iter().map(|e| e.as_bytes()));
    }
}
fn normal(o: &mut String, w: &[u8], t: &NormalLangTag) {
    language(o, w, t.language());
    let _ = write!(
        o,
        "script={:?};region={:?};",
        t.script().map(|e| at(w, e.as_bytes())),
        t.region().map(|e| at(w, e.as_bytes()))
    );
    variants(o, w, t.variants());
    extensions(o, w, t.extensions());
    private(o, w, t.private_use());
    each(
        o,
        w,
        "private subtags",
        t.private_use_subtags().map(|e| e.as_bytes()),
    );
}

macro_rules! common {
    ($only:ident, $h:ident, $o:ident, $a:ident, $b:ident, $($T:ident),*) => {$(
        if $only.is_empty() || $only == stringify!($T) {
        let _ = write!($o, "\n{}: ", stringify!($T));
        let _ = write!($o, "{}{};", $T::validate_bytes($a) as u8, $T::from_bytes($a).is_ok() as u8);
        if let Ok(s) = core::str::from_utf8($a) {
            let _ = write!($o, "{}{}{};", $T::new(s).is_ok() as u8, $T::from_str(s).is_ok() as u8, $T::validate_str(s) as u8);
        }
        match $T::new($a) {
            Ok(v) => {
                let _ = write!($o, "{v}|{v:?}|{}|{}|", v.as_str(), at($a, v.as_bytes()));
                if $h {
                    let _ = write!($o, "{:x};", fnv(v));
                }
                let _ = write!($o, "{}{:?};", v == $b, v.partial_cmp($b));
                if let Ok(s) = core::str::from_utf8($b) {
                    let _ = write!($o, "{}{:?};", v == s, v.partial_cmp(s));
                }
                if let Ok(u) = $T::new($b) {
                    let _ = write!($o, "{}{:?}{:?}{};", v == u, v.cmp(u), v.partial_cmp(u), fnv(v) == fnv(u));
                }
            }
            Err(e) => {
                let _ = write!($o, "rejected {}", at($a, e.0));
            }
        }
        }
    )*};
}

#[allow(dead_code)]
pub fn trace(a: &[u8], b: &[u8]) -> String {
    tell(a, b, "", true)
}

/// Without the hash values, which need not be the same on every target; only what
/// one type says, unless it is 0 (the interpreter takes its time).
#[allow(dead_code)]
pub fn portable(a: &[u8], b: &[u8], ty: u8) -> String {
    let only = if ty == 0 { "" } else { TYPES.get(ty as usize - 1).copied().unwrap_or("") };
    tell(a, b, only, false)
}

pub const TYPES: [&str; 15] = [
    "LangTag",
    "NormalLangTag",
    "PrivateUse",
    "Language",
    "PrimaryLanguage",
    "LanguageExtension",
    "ExtendedLangTag",
    "Script",
    "Region",
    "Variant",
    "Variants",
    "Extension",
    "Extensions",
    "ExtensionSubtag",
    "PrivateUseSubtag",
];

fn tell(a: &[u8], b: &[u8], only: &str, hashes: bool) -> String {
    let asked = |ty| only.is_empty() || only == ty;
    let mut out = String::new();
    let o = &mut out;
    common!(
        only,
        hashes,
        o,
        a,
        b,
        LangTag,
        NormalLangTag,
        PrivateUse,
        Language,
        PrimaryLanguage,
        LanguageExtension,
        ExtendedLangTag,
        Script,
        Region,
        Variant,
        Variants,
        Extension,
        Extensions,
        ExtensionSubtag,
        PrivateUseSubtag
    );
    o.push('\n');
    if let Some(t) = asked("LangTag").then(|| LangTag::new(a).ok()).flatten() {
        let _ = write!(
            o,
            "{:?}{}{}{};",
            t.kind(),
            t.is_normal(),
            t.is_private_use(),
            t.is_grandfathered()
        );
        match t.as_typed() {
            TypedLangTag::Normal(n) => normal(o, a, n),
            TypedLangTag::PrivateUse(p) => private(o, a, Some(p)),
            TypedLangTag::Grandfathered(g) => {
                let _ = write!(o, "{}", g.as_str());
            }
        }
        let _ = write!(
            o,
            "{:?};",
            t.as_typed().language().map(|l| l.as_str().to_string())
        );
        let _ = write!(o, "{:?};", t.language().map(|l| at(a, l.as_bytes())));
        let _ = write!(
            o,
            "{:?}{:?};",
            t.script().map(|l| at(a, l.as_bytes())),
            t.region().map(|l| at(a, l.as_bytes()))
        );
        each(o, a, "variants", t.variants().iter().map(|e| e.as_bytes()));
        each(
            o,
            a,
            "extensions",
            t.extensions().iter().map(|e| e.as_bytes()),
        );
        private(o, a, t.private_use());
        each(
            o,
            a,
            "private subtags",
            t.private_use_subtags().map(|e| e.as_bytes()),
        );
    }
    if let Some(t) = asked("NormalLangTag").then(|| NormalLangTag::new(a).ok()).flatten() {
        normal(o, a, t)
    }
    if let Some(t) = asked("PrivateUse").then(|| PrivateUse::new(a).ok()).flatten() {
        private(o, a, Some(t))
    }
    if let Some(t) = asked("Language").then(|| Language::new(a).ok()).flatten() {
        language(o, a, t)
    }
    if let Some(t) = asked("LanguageExtension").then(|| LanguageExtension::new(a).ok()).flatten() {
        each(o, a, "extlang", t.iter().map(|e| e.as_bytes()))
    }
    if let Some(t) = asked("Variants").then(|| Variants::new(a).ok()).flatten() {
        variants(o, a, t)
    }
    if let Some(t) = asked("Extensions").then(|| Extensions::new(a).ok()).flatten() {
        extensions(o, a, t)
    }
    if let Some(t) = asked("Extension").then(|| Extension::new(a).ok()).flatten() {
        let _ = write!(o, "{}", t.singleton());
        each(o, a, "subtags", t.iter().map(|e| e.as_bytes()))
    }
    if let Some(g) = asked("LangTag").then(|| GrandfatheredLangTag::new(a).ok()).flatten() {
        let _ = write!(
            o,
            "{}{:?};",
            g.as_str(),
            g.language().map(|l| l.as_str().to_string())
        );
        if let Ok(h) = GrandfatheredLangTag::new(b) {
            let _ = write!(o, "{}{:?}{};", g == h, g.cmp(&h), fnv(&g) == fnv(&h));
        }
    }
    if !asked("LangTag") && !asked("Extension") {
        return out;
    }
    if let (Some(x), Some(y)) = (a.first(), b.first()) {
        let s = Singleton::new(*x);
        let _ = write!(o, "{:?}", s.as_ref().map(|s| s.unwrap()).ok());
        if let (Ok(s), Ok(t)) = (s, Singleton::new(*y)) {
            let _ = write!(
                o,
                "{s}{s:?}{}{:?}{};",
                s == t,
                s.cmp(&t),
                fnv(&s) == fnv(&t)
            );
        }
    }
    if let Ok(s) = core::str::from_utf8(a) {
        let _ = write!(
            o,
            "{:?};",
            Singleton::from_string(s).map(|s| s.unwrap()).ok()
        );
    }
    out
}

