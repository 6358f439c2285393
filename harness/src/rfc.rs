//! Reference model: a segment-based recogniser and decomposer written from the
//! text of RFC 5646 section 2.1, independent of the crate under test.

use std::ops::Range;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
#[repr(u8)]
pub enum Prod {
    LanguageTag,
    Langtag,
    Privateuse,
    Language,
    Primary,
    Extlang,
    ExtlangTag,
    Script,
    Region,
    Variant,
    Variants,
    Extension,
    Extensions,
    ExtensionSubtag,
    PrivateuseSubtag,
}
use Prod::*;

pub const ALL: [Prod; 15] = [
    LanguageTag, Langtag, Privateuse, Language, Primary, Extlang, ExtlangTag, Script, Region,
    Variant, Variants, Extension, Extensions, ExtensionSubtag, PrivateuseSubtag,
];

/// (canonical spelling, language subtag when regular)
pub const GRANDFATHERED: [(&str, Option<&str>); 26] = [
    ("en-GB-oed", None),
    ("i-ami", None),
    ("i-bnn", None),
    ("i-default", None),
    ("i-enochian", None),
    ("i-hak", None),
    ("i-klingon", None),
    ("i-lux", None),
    ("i-mingo", None),
    ("i-navajo", None),
    ("i-pwn", None),
    ("i-tao", None),
    ("i-tay", None),
    ("i-tsu", None),
    ("sgn-BE-FR", None),
    ("sgn-BE-NL", None),
    ("sgn-CH-DE", None),
    ("art-lojban", Some("art")),
    ("cel-gaulish", Some("cel")),
    ("no-bok", Some("no")),
    ("no-nyn", Some("no")),
    ("zh-guoyu", Some("zh")),
    ("zh-hakka", Some("zh")),
    ("zh-min", Some("zh")),
    ("zh-min-nan", Some("zh")),
    ("zh-xiang", Some("zh")),
];

pub fn fold(s: &[u8]) -> Vec<u8> {
    s.iter().map(|b| if (b'A'..=b'Z').contains(b) { b + 32 } else { *b }).collect()
}

/// Index in `GRANDFATHERED`, ignoring ASCII case.
pub fn grandfathered(s: &[u8]) -> Option<usize> {
    if s.len() < 5 || s.len() > 11 {
        return None;
    }
    let f = fold(s);
    GRANDFATHERED.iter().position(|(t, _)| fold(t.as_bytes()) == f)
}

pub fn is_alpha(b: u8) -> bool {
    (b'a'..=b'z').contains(&b) || (b'A'..=b'Z').contains(&b)
}
pub fn is_digit(b: u8) -> bool {
    (b'0'..=b'9').contains(&b)
}
pub fn is_alnum(b: u8) -> bool {
    is_alpha(b) || is_digit(b)
}
fn alpha(s: &[u8], lo: usize, hi: usize) -> bool {
    s.len() >= lo && s.len() <= hi && s.iter().all(|b| is_alpha(*b))
}
fn alnum(s: &[u8], lo: usize, hi: usize) -> bool {
    s.len() >= lo && s.len() <= hi && s.iter().all(|b| is_alnum(*b))
}
pub fn is_script(s: &[u8]) -> bool {
    alpha(s, 4, 4)
}
pub fn is_region(s: &[u8]) -> bool {
    alpha(s, 2, 2) || (s.len() == 3 && s.iter().all(|b| is_digit(*b)))
}
pub fn is_variant(s: &[u8]) -> bool {
    alnum(s, 5, 8) || (alnum(s, 4, 4) && is_digit(s[0]))
}
pub fn is_extlang_tag(s: &[u8]) -> bool {
    alpha(s, 3, 3)
}
pub fn is_singleton_byte(b: u8) -> bool {
    is_alnum(b) && b != b'x' && b != b'X'
}
pub fn is_singleton(s: &[u8]) -> bool {
    s.len() == 1 && is_singleton_byte(s[0])
}
pub fn is_x(s: &[u8]) -> bool {
    s == b"x" || s == b"X"
}

pub type R = Range<usize>;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Ext {
    pub range: R,
    pub singleton: u8,
    pub subtags: Vec<R>,
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Decomp {
    pub language: R,
    pub primary: R,
    pub extlangs: Vec<R>,
    pub script: Option<R>,
    pub region: Option<R>,
    pub variants: Vec<R>,
    pub extensions: Vec<Ext>,
    pub private: Option<R>,
    pub private_subtags: Vec<R>,
}

fn cover(v: &[R]) -> Option<R> {
    match (v.first(), v.last()) {
        (Some(a), Some(b)) => Some(a.start..b.end),
        _ => None,
    }
}

impl Decomp {
    pub fn extlang_range(&self) -> Option<R> {
        cover(&self.extlangs)
    }
    pub fn variants_range(&self) -> Option<R> {
        cover(&self.variants)
    }
    pub fn extensions_range(&self) -> Option<R> {
        match (self.extensions.first(), self.extensions.last()) {
            (Some(a), Some(b)) => Some(a.range.start..b.range.end),
            _ => None,
        }
    }
    /// Number of optional component kinds present.
    pub fn weight(&self) -> usize {
        (!self.extlangs.is_empty()) as usize
            + self.script.is_some() as usize
            + self.region.is_some() as usize
            + (!self.variants.is_empty()) as usize
            + (!self.extensions.is_empty()) as usize
            + self.private.is_some() as usize
    }
}

/// Hyphen-separated segments as ranges; `""` has one empty segment.
pub fn segments(s: &[u8]) -> Vec<R> {
    let mut out = Vec::new();
    let mut start = 0;
    for (i, b) in s.iter().enumerate() {
        if *b == b'-' {
            out.push(start..i);
            start = i + 1;
        }
    }
    out.push(start..s.len());
    out
}

/// Parse `*("-" variant)`-like list of extensions starting at segment `k`.
fn take_extensions(s: &[u8], segs: &[R], mut k: usize, out: &mut Vec<Ext>) -> usize {
    while k + 1 < segs.len() && is_singleton(&s[segs[k].clone()]) {
        let mut j = k + 1;
        let mut subtags = Vec::new();
        while j < segs.len() && alnum(&s[segs[j].clone()], 2, 8) {
            subtags.push(segs[j].clone());
            j += 1;
        }
        if subtags.is_empty() {
            break;
        }
        out.push(Ext {
            range: segs[k].start..subtags.last().unwrap().end,
            singleton: s[segs[k].start],
            subtags,
        });
        k = j;
    }
    k
}

/// Decompose `s` as a `langtag`; `None` when it is not one.
pub fn parse_langtag(s: &[u8]) -> Option<Decomp> {
    let segs = segments(s);
    let seg = |i: usize| segs.get(i).map(|r| &s[r.clone()]);
    let mut d = Decomp::default();
    let first = seg(0)?;
    if !alpha(first, 2, 8) {
        return None;
    }
    d.primary = segs[0].clone();
    let mut k = 1;
    if first.len() <= 3 {
        while k <= 3 && seg(k).is_some_and(is_extlang_tag) {
            d.extlangs.push(segs[k].clone());
            k += 1;
        }
    }
    d.language = 0..segs[k - 1].end;
    if seg(k).is_some_and(is_script) {
        d.script = Some(segs[k].clone());
        k += 1;
    }
    if seg(k).is_some_and(is_region) {
        d.region = Some(segs[k].clone());
        k += 1;
    }
    while seg(k).is_some_and(is_variant) {
        d.variants.push(segs[k].clone());
        k += 1;
    }
    k = take_extensions(s, &segs, k, &mut d.extensions);
    if seg(k).is_some_and(is_x) {
        let mut j = k + 1;
        while j < segs.len() && alnum(&s[segs[j].clone()], 1, 8) {
            d.private_subtags.push(segs[j].clone());
            j += 1;
        }
        if d.private_subtags.is_empty() {
            return None;
        }
        d.private = Some(segs[k].start..segs[j - 1].end);
        k = j;
    }
    (k == segs.len()).then_some(d)
}

pub fn parse_extensions(s: &[u8]) -> Option<Vec<Ext>> {
    if s.is_empty() {
        return Some(Vec::new());
    }
    let segs = segments(s);
    let mut v = Vec::new();
    let k = take_extensions(s, &segs, 0, &mut v);
    (k == segs.len()).then_some(v)
}

pub fn is_privateuse(s: &[u8]) -> bool {
    let segs = segments(s);
    segs.len() >= 2
        && is_x(&s[segs[0].clone()])
        && segs[1..].iter().all(|r| alnum(&s[r.clone()], 1, 8))
}

pub fn matches(p: Prod, s: &[u8]) -> bool {
    let segs = || segments(s);
    match p {
        LanguageTag => parse_langtag(s).is_some() || is_privateuse(s) || grandfathered(s).is_some(),
        Langtag => parse_langtag(s).is_some(),
        Privateuse => is_privateuse(s),
        Language => {
            let v = segs();
            let f = &s[v[0].clone()];
            match v.len() {
                1 => alpha(f, 2, 8),
                2..=4 => {
                    alpha(f, 2, 3) && v[1..].iter().all(|r| is_extlang_tag(&s[r.clone()]))
                }
                _ => false,
            }
        }
        Primary => alpha(s, 2, 8),
        Extlang => {
            let v = segs();
            v.len() <= 3 && v.iter().all(|r| is_extlang_tag(&s[r.clone()]))
        }
        ExtlangTag => is_extlang_tag(s),
        Script => is_script(s),
        Region => is_region(s),
        Variant => is_variant(s),
        Variants => s.is_empty() || segs().iter().all(|r| is_variant(&s[r.clone()])),
        Extension => parse_extensions(s).is_some_and(|v| v.len() == 1),
        Extensions => parse_extensions(s).is_some(),
        ExtensionSubtag => alnum(s, 2, 8),
        PrivateuseSubtag => alnum(s, 1, 8),
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum RefKind {
    Normal,
    PrivateUse,
    Grandfathered(usize),
}

pub fn kind(s: &[u8]) -> Option<RefKind> {
    if let Some(i) = grandfathered(s) {
        Some(RefKind::Grandfathered(i))
    } else if is_privateuse(s) {
        Some(RefKind::PrivateUse)
    } else if parse_langtag(s).is_some() {
        Some(RefKind::Normal)
    } else {
        None
    }
}
