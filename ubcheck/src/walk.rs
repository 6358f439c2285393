//! Everything the safe API offers, with every byte read.

use langtag::*;
use std::borrow::Borrow;
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::hint::black_box;

type R = Result<(), String>;

/// Reads every byte, and insists on text.
fn see(what: &str, b: &[u8]) -> R {
    let mut sum = 0u8;
    for x in b {
        sum = sum.wrapping_add(*x);
    }
    black_box(sum);
    match b.is_ascii() {
        true => Ok(()),
        false => Err(format!("{what} is not ASCII text: {:?}", b.escape_ascii().to_string())),
    }
}
fn see_text(what: &str, s: &str) -> R {
    std::str::from_utf8(black_box(s.as_bytes())).map_err(|_| format!("{what} is not UTF-8"))?;
    see(what, s.as_bytes())
}

/// A sink that reads what is shown and keeps nothing.
struct Show(bool);
impl std::fmt::Write for Show {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 &= see_text("", s).is_ok();
        Ok(())
    }
}

struct Sum(u64);
impl Hasher for Sum {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = self.0.wrapping_mul(31).wrapping_add(*x as u64);
        }
    }
}
fn hash<T: Hash + ?Sized>(v: &T) {
    let mut h = Sum(7);
    v.hash(&mut h);
    black_box(h.finish());
}

/// An iterator: some elements, then the rest; all read after it has ended.
fn list<'a>(what: &str, cap: usize, form: u8, mut it: impl Iterator<Item = &'a [u8]>) -> R {
    let mut kept: Vec<&[u8]> = Vec::new();
    black_box(it.size_hint());
    if form & 0x10 != 0 {
        // left unfinished
        kept.extend(it.next());
        drop(it);
    } else {
        if form & 0x20 != 0 {
            kept.extend(it.nth(1));
        }
        for _ in 0..cap + 2 {
            match it.next() {
                Some(e) => kept.push(e),
                None => break,
            }
        }
        for _ in 0..2 {
            kept.extend(it.next());
        }
    }
    for k in kept.iter().rev() {
        see(what, k)?;
    }
    Ok(())
}

/// One iterator asked by two threads, if it may be.
struct Shared<'a, T>(&'a T);
trait MayShare {
    fn ask(&self);
}
impl<T: Iterator + Sync> MayShare for Shared<'_, T> {
    fn ask(&self) {
        std::thread::scope(|s| {
            for _ in 0..2 {
                s.spawn(|| black_box(self.0.size_hint()));
            }
        })
    }
}
#[allow(dead_code)]
trait MayNotShare {
    fn ask(&self) {}
}
impl<T> MayNotShare for &Shared<'_, T> {}
macro_rules! share {
    ($form:expr, $it:expr) => {
        if $form & 2 != 0 {
            let mut it = $it;
            (&Shared(&it)).ask();
            it.next();
            (&Shared(&it)).ask();
        }
    };
}

fn language(l: &Language, form: u8, n: usize) -> R {
    share!(form, l.extension_subtags());
    see("language", l.as_bytes())?;
    see_text("primary language", l.primary().as_str())?;
    if let Some(e) = l.extension() {
        see_text("extended language list", e.as_str())?;
        list("extended language", n, form, e.iter().map(|e| e.as_bytes()))?;
    }
    list("extended language", n, form, l.extension_subtags().map(|e| e.as_bytes()))
}
fn variants(v: &Variants, form: u8, n: usize) -> R {
    share!(form, v.iter());
    see_text("variant list", v.as_str())?;
    list("variant", n, form, v.iter().map(|e| e.as_str().as_bytes()))?;
    list("variant from the back", n, form, v.iter().rev().map(|e| e.as_bytes()))?;
    let mut it = v.iter();
    let mut kept = Vec::new();
    for i in 0..n + 4 {
        let e = match (i + form as usize) % 3 {
            0 => it.next_back(),
            _ => it.next(),
        };
        match e {
            Some(e) => kept.push(e),
            None if i > n => break,
            None => {}
        }
        if kept.len() > n + 2 {
            break;
        }
    }
    for k in kept {
        see_text("variant from either end", k.as_str())?;
    }
    for v in [v.first(), v.last()].into_iter().flatten() {
        see_text("first or last variant", v.as_str())?;
    }
    Ok(())
}
fn extension(e: &Extension, form: u8, n: usize) -> R {
    share!(form, e.iter());
    see_text("extension", e.as_str())?;
    singleton(e.singleton())?;
    list("extension subtag", n, form, e.iter().map(|e| e.as_str().as_bytes()))
}
fn extensions(v: &Extensions, form: u8, n: usize, keys: &[u8]) -> R {
    share!(form, v.iter());
    see_text("extension list", v.as_str())?;
    list("extension", n, form, v.iter().map(|e| e.as_bytes()))?;
    for e in v.iter().take(n + 2) {
        extension(e, form, n)?;
    }
    // the letters that occur, and one that need not
    let mut seen = [false; 256];
    for k in keys.iter().chain(b"q").filter(|k| k.is_ascii_alphanumeric()) {
        if std::mem::replace(&mut seen[*k as usize], true) {
            continue;
        }
        if let Ok(s) = Singleton::new(*k) {
            if let Some(e) = v.get(s) {
                extension(e, form, n)?;
            }
            list("looked-up subtag", n, form, v.iter_extension(s).map(|e| e.as_bytes()))?;
        }
    }
    Ok(())
}
fn private(p: &PrivateUse, form: u8, n: usize) -> R {
    share!(form, p.iter());
    see_text("private use part", p.as_str())?;
    list("private use subtag", n, form, p.iter().map(|e| e.as_str().as_bytes()))
}
fn normal(t: &NormalLangTag, form: u8, n: usize) -> R {
    see_text("normal tag", t.as_str())?;
    // every part taken first, read afterwards
    let (l, s, r, v, e, p) = (t.language(), t.script(), t.region(), t.variants(), t.extensions(), t.private_use());
    if let Some(s) = s {
        see_text("script", s.as_str())?;
    }
    if let Some(r) = r {
        see_text("region", r.as_str())?;
    }
    extensions(e, form, n, &t.as_bytes()[..n.min(64)])?;
    variants(v, form, n)?;
    language(l, form, n)?;
    if let Some(p) = p {
        private(p, form, n)?;
    }
    list("private use subtag", n, form, t.private_use_subtags().map(|e| e.as_bytes()))
}
fn grandfathered(g: GrandfatheredLangTag) -> R {
    see("grandfathered tag", g.as_bytes())?;
    see_text("grandfathered tag", g.as_str())?;
    if let Some(l) = g.language() {
        see_text("its language", l.as_str())?;
    }
    hash(&g);
    let mut s = Show(true);
    let _ = write!(s, "{g}");
    black_box(g == g.clone());
    Ok(())
}
fn singleton(s: Singleton) -> R {
    let mut o = Show(true);
    let _ = write!(o, "{s}{s:?}");
    hash(&s);
    black_box((s == s, s.cmp(&s), s == 'a', s == b'a', s.unwrap()));
    if o.0 { Ok(()) } else { Err("a singleton shows something else than ASCII text".into()) }
}
fn tag(t: &LangTag, form: u8, n: usize) -> R {
    see_text("tag", t.as_str())?;
    let k = t.kind();
    black_box((k, k.is_normal(), k.is_private_use(), k.is_grandfathered()));
    black_box((t.is_normal(), t.is_private_use(), t.is_grandfathered()));
    for l in [t.language(), t.as_typed().language()].into_iter().flatten() {
        language(l, form, n)?;
    }
    // the typed view is gone when its parts are read
    let typed = t.as_typed();
    black_box((typed.kind(), typed.is_normal(), typed.is_private_use(), typed.is_grandfathered()));
    let (a, b, c) = (typed.as_normal(), typed.as_private_use(), typed.as_grandfathered());
    if let Some(v) = a {
        normal(v, form, n)?;
    }
    if let Some(v) = b {
        private(v, form, n)?;
    }
    if let Some(v) = c {
        grandfathered(v)?;
    }
    if let Some(v) = t.as_normal() {
        see_text("normal view", v.as_str())?;
    }
    if let Some(v) = t.as_private_use() {
        private(v, form, n)?;
    }
    if let Some(v) = t.as_grandfathered() {
        grandfathered(v)?;
    }
    if let Some(v) = t.script() {
        see_text("script", v.as_str())?;
    }
    if let Some(v) = t.region() {
        see_text("region", v.as_str())?;
    }
    variants(t.variants(), form, n)?;
    extensions(t.extensions(), form, n, &t.as_bytes()[..n.min(64)])?;
    if let Some(v) = t.private_use() {
        private(v, form, n)?;
    }
    list("private use subtag", n, form, t.private_use_subtags().map(|e| e.as_bytes()))
}

/// What is particular to each type.
trait Parts {
    fn parts(&self, _form: u8, _n: usize) -> R {
        Ok(())
    }
}
macro_rules! parts {
    ($($T:ty => $f:expr;)*) => {$(
        impl Parts for $T {
            fn parts(&self, form: u8, n: usize) -> R {
                ($f)(self, form, n)
            }
        }
    )*};
}
parts! {
    LangTag => tag;
    NormalLangTag => normal;
    PrivateUse => private;
    Language => language;
    LanguageExtension => |v: &LanguageExtension, form, n| list("extended language", n, form, v.iter().map(|e| e.as_bytes()));
    Variants => variants;
    Extension => extension;
    Extensions => |v: &Extensions, form, n: usize| extensions(v, form, n, &v.as_bytes()[..n.min(64)]);
}
impl Parts for PrimaryLanguage {}
impl Parts for ExtendedLangTag {}
impl Parts for Script {}
impl Parts for Region {}
impl Parts for Variant {}
impl Parts for ExtensionSubtag {}
impl Parts for PrivateUseSubtag {}

macro_rules! walk_type {
    ($T:ident, $B:ident, $form:expr, $a:expr, $b:expr) => {{
        let (form, a, b): (u8, &[u8], &[u8]) = ($form, $a, $b);
        let shared = form & 2 != 0;
        let n = a.len();
        let text = std::str::from_utf8(a).ok();
        black_box($T::validate_bytes(a));
        if let Some(s) = text {
            black_box($T::validate_str(s));
            for e in [$T::new(s).err().map(|e| e.0), $T::from_str(s).err().map(|e| e.0)].into_iter().flatten() {
                black_box(e.len());
            }
            if let Err(e) = <&$T>::try_from(s) {
                black_box(e.0.len());
            }
            match $B::new(s.to_string()) {
                Ok(o) => drop(o),
                Err(e) => {
                    let mut o = Show(true);
                    let _ = write!(o, "{e}");
                    drop(e.0);
                }
            }
        }
        match $T::from_bytes(a) {
            Err(e) => {
                if e.0 != a {
                    return Err("the error shows other bytes".into());
                }
            }
            Ok(v) => {
                see_text("as_str", v.as_str())?;
                see("as_bytes", v.as_bytes())?;
                see_text("AsRef<str>", AsRef::<str>::as_ref(v))?;
                see("AsRef<[u8]>", AsRef::<[u8]>::as_ref(v))?;
                see_text("Into<&str>", <&str>::from(v))?;
                see("Into<&[u8]>", <&[u8]>::from(v))?;
                see_text("Borrow<str>", Borrow::<str>::borrow(v))?;
                let mut o = Show(true);
                let _ = write!(o, "{v}{v:?}");
                if !o.0 {
                    return Err("it shows something else than ASCII text".into());
                }
                hash(v);
                black_box((v == b, v.partial_cmp(b)));
                if let Ok(s) = std::str::from_utf8(b) {
                    black_box((v == s, v.partial_cmp(s)));
                }
                if let Ok(u) = $T::from_bytes(b) {
                    black_box((v == u, v.cmp(u), u.partial_cmp(v)));
                }
                v.parts(form, n)?;
                let form = form & !2;
                if shared {
                    // two threads share the value
                    std::thread::scope(|s| {
                        let h: Vec<_> = (0..2u8).map(|i| s.spawn(move || v.parts(form ^ (i << 4), n))).collect();
                        for h in h {
                            match h.join() {
                                Ok(r) => r?,
                                Err(p) => std::panic::resume_unwind(p),
                            }
                        }
                        Ok::<(), String>(())
                    })?;
                }
                // owned values
                let o: $B = v.to_owned();
                let c = o.clone();
                let spare = c.clone();
                black_box((o == c, o == *v, *v == o, o.cmp(&c)));
                if !cfg!(miri) {
                    o.parts(form, n)?;
                }
                drop(o);
                c.parts(form, n)?;
                see_text("owned as_str", c.as_str())?;
                if c.as_bytes() != a || v.as_bytes() != a {
                    return Err("reading its parts has changed it".into());
                }
                let s = c.into_string();
                see_text("into_string", &s)?;
                // capacity to spare, text at the front
                let mut roomy = s.into_bytes();
                roomy.reserve(17);
                let r = $B::new(String::from_utf8(roomy).unwrap());
                let (moved, d) = match r {
                    Ok(e) => {
                        if !cfg!(miri) {
                            e.parts(form, n)?;
                        }
                        let mut d = spare;
                        d.clone_from(&e);
                        let moved = Box::new(e);
                        see_text("a moved value", moved.as_str())?;
                        hash(&*moved);
                        (*moved, d)
                    }
                    Err(e) => return Err(format!("the owned constructor rejects {:?}", e.0)),
                };
                see("into_bytes", &moved.into_bytes())?;
                see_text("Into<String>", &String::from(d.clone()))?;
                see("Into<Vec<u8>>", &Vec::<u8>::from(d.clone()))?;
                let t: &$T = d.borrow();
                see_text("Borrow", t.as_str())?;
                let t: &$T = d.as_ref();
                see_text("AsRef", t.as_str())?;
                drop(d);
                // the owned values are gone, the borrowed one is not
                see("as_bytes", v.as_bytes())?;
            }
        }
        Ok(())
    }};
}

pub fn walk(ty: u8, form: u8, a: &[u8], b: &[u8]) -> R {
    if form & 1 != 0 && !a.is_empty() {
        // inside a larger text
        let mut big = vec![b'-'; 3];
        big.extend_from_slice(a);
        big.extend_from_slice(b"-zz");
        let r = walk(ty, form & !1, &big[3..3 + a.len()], b);
        return match &big[3..3 + a.len()] == a && big.starts_with(b"---") && big.ends_with(b"-zz") {
            true => r,
            false => Err("the text it was given, or its surroundings, have changed".into()),
        };
    }
    if let Some(c) = a.first() {
        if let Ok(s) = Singleton::new(*c) {
            singleton(s)?;
        }
        if let Ok(s) = Singleton::try_from(*c as char) {
            singleton(s)?;
        }
    }
    if let Ok(s) = std::str::from_utf8(a) {
        if let Ok(s) = Singleton::from_string(s) {
            singleton(s)?;
        }
        if let Ok(s) = s.parse::<Singleton>() {
            singleton(s)?;
        }
        if let Some(s) = s.chars().next().and_then(|c| Singleton::try_from(c).ok()) {
            singleton(s)?;
        }
    }
    match GrandfatheredLangTag::new(a) {
        Ok(g) => grandfathered(g)?,
        Err(e) => {
            black_box(e.len());
        }
    }
    match ty % 15 {
        0 => walk_type!(LangTag, LangTagBuf, form, a, b),
        1 => walk_type!(NormalLangTag, NormalLangTagBuf, form, a, b),
        2 => walk_type!(PrivateUse, PrivateUseBuf, form, a, b),
        3 => walk_type!(Language, LanguageBuf, form, a, b),
        4 => walk_type!(PrimaryLanguage, PrimaryLanguageBuf, form, a, b),
        5 => walk_type!(LanguageExtension, LanguageExtensionBuf, form, a, b),
        6 => walk_type!(ExtendedLangTag, ExtendedLangTagBuf, form, a, b),
        7 => walk_type!(Script, ScriptBuf, form, a, b),
        8 => walk_type!(Region, RegionBuf, form, a, b),
        9 => walk_type!(Variant, VariantBuf, form, a, b),
        10 => walk_type!(Variants, VariantsBuf, form, a, b),
        11 => walk_type!(Extension, ExtensionBuf, form, a, b),
        12 => walk_type!(Extensions, ExtensionsBuf, form, a, b),
        13 => walk_type!(ExtensionSubtag, ExtensionSubtagBuf, form, a, b),
        _ => walk_type!(PrivateUseSubtag, PrivateUseSubtagBuf, form, a, b),
    }
}
