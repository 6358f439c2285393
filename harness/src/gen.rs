//! Structured generators (proptest strategies) and deterministic enumerations.
//!
//! A segment's characters are a pure function of a generated (length, bits)
//! pair, so proptest shrinks both and every random choice stays inside it.

use crate::dfa::{self, ODD};
use crate::dict::DICT;
use crate::engine::{EnumArgs, mix};
use crate::rfc::{self, Prod};
use proptest::collection::vec;
use proptest::prelude::*;

const LOWER: &[u8] = b"abcdefghijklmnopqrstuvwxyz";
const DIGITS: &[u8] = b"0123456789";
const EDGE_A: &[u8] = b"azAZxXmMnkK";
const EDGE_AN: &[u8] = b"azAZ09xX19";

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum K {
    Alpha,
    Digit,
    Alnum,
    /// alphanumerics, the first one a digit
    Lead,
}

/// A dictionary word of that kind and length.
fn word(k: K, len: usize, x: u64) -> Option<&'static Vec<u8>> {
    let d = &*DICT;
    let v = match k {
        K::Alpha => &d.alpha,
        K::Digit => &d.digit,
        K::Alnum => &d.alnum,
        K::Lead => &d.lead,
    };
    let v = v.get(len)?;
    (!v.is_empty()).then(|| &v[(x % v.len() as u64) as usize])
}

/// The characters of one segment. `bits == 0` is the simplest: all `a` (or `0`).
pub fn chars(k: K, len: usize, bits: u64) -> Vec<u8> {
    let mut out = Vec::with_capacity(len);
    let style = bits % 8; // 0,1 lower  2 upper  3,4 mixed  5 edge  6 alternating 7 mixed
    let mut x = bits >> 3;
    if x % 4 == 1 {
        // from the dictionary, re-spelled by the style
        if let Some(w) = word(k, len, x >> 2) {
            return w
                .iter()
                .enumerate()
                .map(|(i, c)| match style {
                    2 => c.to_ascii_uppercase(),
                    3 | 4 if c.is_ascii_alphabetic() && x >> (20 + i) & 1 == 1 => c ^ 0x20,
                    6 if i == 0 => c.to_ascii_uppercase(),
                    7 => c.to_ascii_lowercase(),
                    _ => *c,
                })
                .collect();
        }
    }
    for i in 0..len {
        if i % 6 == 5 {
            x = mix(&[bits, i as u64]);
        }
        let r = (x & 0x3ff) as usize;
        x >>= 10;
        let digit = match k {
            K::Alpha => false,
            K::Digit => true,
            K::Lead => i == 0 || r % 3 == 1,
            K::Alnum => r % 3 == 1,
        };
        let c = if digit {
            DIGITS[(r / 3) % 10]
        } else if style == 5 {
            match k {
                K::Alnum | K::Lead => EDGE_AN[r % EDGE_AN.len()],
                _ => EDGE_A[r % EDGE_A.len()],
            }
        } else {
            let c = LOWER[(r / 3) % 26];
            let up = match style {
                2 => true,
                3 | 4 | 7 => (r / 128) & 1 == 1,
                6 => i % 2 == 1,
                _ => false,
            };
            if up { c - 32 } else { c }
        };
        out.push(c);
    }
    out
}

pub type Seg = Vec<u8>;

pub fn seg(k: K, lo: usize, hi: usize) -> BoxedStrategy<Seg> {
    (lo..=hi, any::<u64>()).prop_map(move |(l, b)| chars(k, l, b)).boxed()
}

fn join(v: Vec<Seg>) -> Seg {
    v.join(&b'-')
}

fn list_len(max_common: usize, long: usize) -> BoxedStrategy<usize> {
    prop_oneof![12 => 0..=max_common, 2 => 0..=(max_common * 3), 1 => 0..=long].boxed()
}

/// Text of a language: (primary, extlangs)
pub fn language() -> BoxedStrategy<Seg> {
    prop_oneof![
        6 => (seg(K::Alpha, 2, 3), vec(seg(K::Alpha, 3, 3), 0..=3))
            .prop_map(|(p, e)| { let mut v = vec![p]; v.extend(e); join(v) }),
        1 => seg(K::Alpha, 4, 4),
        2 => seg(K::Alpha, 5, 8),
    ]
    .boxed()
}

pub fn variant() -> BoxedStrategy<Seg> {
    prop_oneof![
        2 => seg(K::Lead, 4, 4),
        2 => seg(K::Alnum, 5, 8),
        1 => seg(K::Alpha, 5, 8),
        1 => seg(K::Digit, 4, 8),
    ]
    .boxed()
}

pub fn region() -> BoxedStrategy<Seg> {
    prop_oneof![seg(K::Alpha, 2, 2), seg(K::Digit, 3, 3)].boxed()
}

pub fn script() -> BoxedStrategy<Seg> {
    seg(K::Alpha, 4, 4)
}

/// Extension subtag, often looking like something else.
pub fn ext_subtag() -> BoxedStrategy<Seg> {
    prop_oneof![
        3 => seg(K::Alnum, 2, 8),
        1 => seg(K::Alpha, 3, 3),
        1 => seg(K::Alpha, 2, 4),
        1 => seg(K::Digit, 2, 8),
        1 => variant(),
        1 => (0usize..8).prop_map(|i| [&b"xx"[..], b"x1", b"xyz", b"aa", b"a1", b"latn", b"us", b"x0x0x0x0"][i].to_vec()),
    ]
    .boxed()
}

pub fn singleton() -> BoxedStrategy<Seg> {
    prop_oneof![
        // a small pool, so that repeats and case-variants of one singleton are common
        3 => (0usize..6).prop_map(|i| vec![b"aAbuU0"[i]]),
        2 => (0usize..60).prop_map(|i| {
            let all: Vec<u8> = (0..128u8).filter(|b| rfc::is_singleton_byte(*b)).collect();
            vec![all[i % all.len()]]
        }),
    ]
    .boxed()
}

pub fn extension() -> BoxedStrategy<Seg> {
    (singleton(), prop_oneof![8 => vec(ext_subtag(), 1..=4), 1 => vec(ext_subtag(), 1..=12)])
        .prop_map(|(s, t)| {
            let mut v = vec![s];
            v.extend(t);
            join(v)
        })
        .boxed()
}

pub fn private_subtag() -> BoxedStrategy<Seg> {
    prop_oneof![
        4 => seg(K::Alnum, 1, 8),
        2 => seg(K::Alnum, 1, 1),
        1 => (0usize..6).prop_map(|i| [&b"x"[..], b"X", b"a", b"0", b"xx", b"i"][i].to_vec()),
        1 => ext_subtag(),
    ]
    .boxed()
}

pub fn privateuse() -> BoxedStrategy<Seg> {
    (any::<bool>(), prop_oneof![8 => vec(private_subtag(), 1..=5), 1 => vec(private_subtag(), 1..=20)])
        .prop_map(|(up, t)| {
            let mut v = vec![if up { b"X".to_vec() } else { b"x".to_vec() }];
            v.extend(t);
            join(v)
        })
        .boxed()
}

pub fn variants() -> BoxedStrategy<Seg> {
    list_len(4, 40).prop_flat_map(|n| vec(variant(), n)).prop_map(join).boxed()
}
pub fn extensions() -> BoxedStrategy<Seg> {
    list_len(3, 20).prop_flat_map(|n| vec(extension(), n)).prop_map(join).boxed()
}
pub fn extlang() -> BoxedStrategy<Seg> {
    vec(seg(K::Alpha, 3, 3), 1..=3).prop_map(join).boxed()
}

/// A tag made from parts; empty parts are left out.
pub fn glue(parts: &[Seg]) -> Seg {
    join(parts.iter().filter(|p| !p.is_empty()).cloned().collect())
}

fn opt(s: BoxedStrategy<Seg>) -> BoxedStrategy<Seg> {
    prop_oneof![Just(Vec::new()), s].boxed()
}

/// [language, script?, region?, variants, extensions, private?]
pub fn parts() -> BoxedStrategy<Vec<Seg>> {
    (language(), opt(script()), opt(region()), opt(variants()), opt(extensions()), opt(privateuse()))
        .prop_map(|(a, b, c, d, e, f)| vec![a, b, c, d, e, f])
        .boxed()
}

pub fn normal_tag() -> BoxedStrategy<Seg> {
    prop_oneof![
        12 => parts().prop_map(|p| glue(&p)),
        // a known tag, alone or continued
        1 => (known_tag(), opt(variants()), opt(extensions()), opt(privateuse())).prop_map(|(k, v, e, p)| {
            let normal = |s: &[u8]| rfc::matches(Prod::Langtag, s);
            let all = glue(&[k.clone(), v, e, p]);
            if normal(&all) { all } else if normal(&k) { k } else { b"en".to_vec() }
        }),
    ]
    .boxed()
}

/// A well-known tag or a literal of the source tree, in some letter case; not
/// necessarily well-formed.
pub fn known_tag() -> BoxedStrategy<Seg> {
    (any::<u32>(), prop_oneof![3 => Just(0u64), 1 => any::<u64>()])
        .prop_map(|(i, m)| recase(&DICT.whole[i as usize % DICT.whole.len()], m))
        .boxed()
}

/// A grandfathered tag in some letter case.
pub fn grandfathered() -> BoxedStrategy<Seg> {
    (0usize..26, any::<u64>()).prop_map(|(i, m)| recase(rfc::GRANDFATHERED[i].0.as_bytes(), m)).boxed()
}

/// Normal tags that sit next to a grandfathered one.
pub fn near_grandfathered() -> BoxedStrategy<Seg> {
    (grandfathered(), 0usize..6, prop_oneof![variant(), extlang(), region(), extension(), privateuse()])
        .prop_map(|(g, how, tail)| match how {
            0..=2 => glue(&[g, tail]),
            3 => {
                let mut g = g;
                g.extend_from_slice(&tail[..1]);
                g
            }
            4 => g[..g.len() - 1].to_vec(),
            _ => {
                let cut = g.iter().position(|b| *b == b'-').unwrap();
                glue(&[g[..cut].to_vec(), tail])
            }
        })
        .boxed()
}

pub fn any_tag() -> BoxedStrategy<Seg> {
    prop_oneof![
        10 => normal_tag(),
        2 => privateuse(),
        2 => grandfathered(),
        1 => near_grandfathered(),
    ]
    .boxed()
}

/// Flip the case of letter number i when bit i of `m` is set (bits recycled by
/// hashing); `0` is the identity.
pub fn recase(s: &[u8], m: u64) -> Seg {
    let mut x = m;
    let mut i = 0;
    s.iter()
        .map(|b| {
            if !b.is_ascii_alphabetic() {
                return *b;
            }
            if i == 64 {
                x = if m == 0 { 0 } else { mix(&[m, x, 7]) };
                i = 0;
            }
            let f = (x >> i) & 1 == 1;
            i += 1;
            if f { b ^ 0x20 } else { *b }
        })
        .collect()
}

/// Text valid for a production.
pub fn valid(p: Prod) -> BoxedStrategy<Seg> {
    match p {
        Prod::LanguageTag => any_tag(),
        Prod::Langtag => prop_oneof![12 => normal_tag(), 1 => regular(), 1 => near_grandfathered()].boxed(),
        Prod::Privateuse => privateuse(),
        Prod::Language => language(),
        Prod::Primary => seg(K::Alpha, 2, 8),
        Prod::Extlang => extlang(),
        Prod::ExtlangTag => seg(K::Alpha, 3, 3),
        Prod::Script => script(),
        Prod::Region => region(),
        Prod::Variant => variant(),
        Prod::Variants => variants(),
        Prod::Extension => extension(),
        Prod::Extensions => extensions(),
        Prod::ExtensionSubtag => ext_subtag(),
        Prod::PrivateuseSubtag => private_subtag(),
    }
}

fn regular() -> BoxedStrategy<Seg> {
    (17usize..26, any::<u64>()).prop_map(|(i, m)| recase(rfc::GRANDFATHERED[i].0.as_bytes(), m)).boxed()
}

#[derive(Clone, Debug)]
pub struct Edit {
    kind: u8,
    at: u32,
    byte: u8,
}

const EDIT_BYTES: &[u8] = b"-aAxX019zZ_@[`{/: \0\x7fs.~";

/// Apply one edit.
pub fn edit(s: &mut Vec<u8>, e: &Edit) {
    let n = s.len();
    let at = if n == 0 { 0 } else { e.at as usize % n };
    let by = EDIT_BYTES[e.byte as usize % EDIT_BYTES.len()];
    let mut segs: Vec<Vec<u8>> = s.split(|b| *b == b'-').map(|v| v.to_vec()).collect();
    let k = e.at as usize % segs.len();
    match e.kind % 14 {
        0 | 1 if n > 0 => {
            s.remove(at);
        }
        2 | 3 => s.insert(if n == 0 { 0 } else { e.at as usize % (n + 1) }, by),
        4 if n > 0 => s[at] = by,
        5 if n > 0 => s[at] = e.byte & 0x7f,
        6 => {
            segs.remove(k);
            *s = segs.join(&b'-');
        }
        7 => {
            let d = segs[k].clone();
            segs.insert(k, d);
            *s = segs.join(&b'-');
        }
        8 => {
            let j = e.byte as usize % segs.len();
            segs.swap(k, j);
            *s = segs.join(&b'-');
        }
        9 => {
            let extra = chars([K::Alpha, K::Digit, K::Alnum][e.byte as usize % 3], 1 + (e.byte as usize / 3) % 9, e.at as u64 * 2654435761);
            segs.insert(k, extra);
            *s = segs.join(&b'-');
        }
        10 => {
            let extra = chars([K::Alpha, K::Digit, K::Alnum][e.byte as usize % 3], 1 + (e.byte as usize / 3) % 9, e.at as u64 * 2654435761);
            segs[k] = extra;
            *s = segs.join(&b'-');
        }
        11 if n > 0 => {
            let o = ODD[e.byte as usize % ODD.len()];
            s.splice(at..at + 1, o.iter().copied());
        }
        12 => s.truncate(at),
        _ => {
            if n > 0 {
                s[at] ^= 0x20
            }
        }
    }
}

pub fn edits(lo: usize, hi: usize) -> BoxedStrategy<Vec<Edit>> {
    vec((any::<u8>(), any::<u32>(), any::<u8>()).prop_map(|(kind, at, byte)| Edit { kind, at, byte }), lo..=hi).boxed()
}

/// Valid text with a few edits.
pub fn near(p: Prod) -> BoxedStrategy<Seg> {
    (valid(p), edits(1, 3))
        .prop_map(|(mut s, es)| {
            for e in &es {
                edit(&mut s, e)
            }
            s
        })
        .boxed()
}

/// Sequences of segments of plausible shapes, mostly ill-formed.
pub fn soup() -> BoxedStrategy<Seg> {
    vec(
        prop_oneof![
            4 => seg(K::Alpha, 1, 9),
            2 => seg(K::Alnum, 1, 9),
            1 => seg(K::Digit, 1, 9),
            2 => (0usize..8).prop_map(|i| [&b"x"[..], b"X", b"a", b"i", b"0", b"", b"en", b"zh"][i].to_vec()),
        ],
        0..=8,
    )
    .prop_map(join)
    .boxed()
}

pub fn raw() -> BoxedStrategy<Seg> {
    prop_oneof![
        vec(any::<u8>(), 0..24),
        any::<String>().prop_map(|s| s.into_bytes()),
        vec((0usize..EDIT_BYTES.len()).prop_map(|i| EDIT_BYTES[i]), 0..16),
    ]
    .boxed()
}

/// A non-ASCII sequence spliced into valid text, in place of a character or between two.
pub fn odd(p: Prod) -> BoxedStrategy<Seg> {
    (valid(p), 0..ODD.len(), any::<u16>(), any::<bool>())
        .prop_map(|(mut s, o, at, replace)| {
            let at = at as usize % (s.len() + 1);
            let end = if replace { (at + 1).min(s.len()) } else { at };
            s.splice(at..end, ODD[o].iter().copied());
            s
        })
        .boxed()
}

/// Anything that may or may not belong to production `p`.
pub fn input(p: Prod) -> BoxedStrategy<Seg> {
    prop_oneof![
        8 => valid(p),
        8 => near(p),
        2 => soup(),
        1 => raw(),
        1 => odd(p),
        1 => known_tag(),
    ]
    .boxed()
}

pub fn prod() -> BoxedStrategy<Prod> {
    // list-like and composite types are drawn more often
    prop_oneof![
        2 => (0usize..15).prop_map(|i| rfc::ALL[i]),
        1 => (0usize..3).prop_map(|i| [Prod::LanguageTag, Prod::Langtag, Prod::Extensions][i]),
    ]
    .boxed()
}

// ---------------------------------------------------------------- enumerations

/// W-method conformance strings for production `p`: every state's access string,
/// every byte (or odd sequence), `extra` further symbols (class representatives),
/// every identifying suffix of the state reached.
pub fn wmethod(p: Prod, extra: usize, a: &EnumArgs, sink: &mut dyn FnMut(Vec<u8>) -> bool) {
    wmethod_of(dfa::get(p), extra, a, sink)
}

/// The conformance suite of any automaton.
pub fn wmethod_of(d: &dfa::Dfa, extra: usize, a: &EnumArgs, sink: &mut dyn FnMut(Vec<u8>) -> bool) {
    fn put(d: &dfa::Dfa, mut s: Vec<u8>, q: usize, sink: &mut dyn FnMut(Vec<u8>) -> bool) -> bool {
        let n = s.len();
        for w in &d.idset[q] {
            s.truncate(n);
            s.extend_from_slice(w);
            if !sink(s.clone()) {
                return false;
            }
        }
        true
    }
    let rep = |c: usize, salt: u64| -> u8 {
        let v = &d.classes[c];
        // mostly characters that occur in tags
        let nice: Vec<u8> = v.iter().copied().filter(|b| b.is_ascii_alphanumeric() || *b == b'-').collect();
        let v = if nice.is_empty() { v } else { &nice };
        v[(mix(&[a.seed, salt, c as u64]) % v.len() as u64) as usize]
    };
    let mut idx = 0;
    // an implementation need not be minimal: cover the transitions of every state
    // of the unminimised reference too, in both letter cases
    for o in &d.others {
        idx += 1;
        if !a.mine(idx) {
            continue;
        }
        for m in [0, u64::MAX] {
            let o = recase(o, m);
            let q = d.run_from(0, &o);
            if !put(d, o.clone(), q, sink) {
                return;
            }
            for b in 0..128u8 {
                let mut s = o.clone();
                s.push(b);
                if !put(d, s, d.next[q][b as usize] as usize, sink) {
                    return;
                }
            }
        }
    }
    for q in 0..d.access.len() {
        idx += 1;
        if !a.mine(idx) {
            continue;
        }
        if !put(d, d.access[q].clone(), q, sink) {
            return;
        }
        for b in 0..128u8 {
            let mut s = d.access[q].clone();
            s.push(b);
            let t = d.next[q][b as usize] as usize;
            if !put(d, s.clone(), t, sink) {
                return;
            }
            if extra >= 1 {
                for c in 0..d.classes.len() {
                    let x = rep(c, (q * 131 + b as usize) as u64);
                    let mut s2 = s.clone();
                    s2.push(x);
                    let t2 = d.next[t][x as usize] as usize;
                    if !put(d, s2.clone(), t2, sink) {
                        return;
                    }
                    if extra >= 2 && Some(t2) != d.sink {
                        for c in 0..d.classes.len() {
                            let x = rep(c, (q * 131 + b as usize + 7 * x as usize) as u64);
                            let mut s3 = s2.clone();
                            s3.push(x);
                            if !put(d, s3, d.next[t2][x as usize] as usize, sink) {
                                return;
                            }
                        }
                    }
                }
            }
        }
        for o in ODD {
            for fin in [true, false] {
                let mut s = d.access[q].clone();
                s.extend_from_slice(o);
                // continue as if the odd sequence had stood for each possible symbol
                if fin {
                    for c in 0..d.classes.len() {
                        let t = d.next[q][rep(c, 3) as usize] as usize;
                        if let Some(f) = &d.finish[t] {
                            let mut s2 = s.clone();
                            s2.extend_from_slice(f);
                            if !sink(s2) {
                                return;
                            }
                        }
                    }
                } else if !sink(s) {
                    return;
                }
            }
        }
    }
}

/// The characters of tags, one letter case.
const SYMBOLS: &[u8; 37] = b"abcdefghijklmnopqrstuvwxyz0123456789-";

/// Another text that takes the automaton through the same states.
fn respell(d: &dfa::Dfa, s: &[u8], salt: u64) -> Seg {
    s.iter()
        .enumerate()
        .map(|(i, b)| {
            let v = &d.classes[d.class_of[*b as usize] as usize];
            let x = v[(mix(&[salt, i as u64]) % v.len() as u64) as usize];
            if x.is_ascii_graphic() { x } else { *b }
        })
        .collect()
}

/// Screens every text made of the access string of a state (also before
/// minimisation), every `letters` characters, and the suffixes that identify the
/// state reached: whatever splits a state of an implementation by the letters it
/// was entered with. `screen` returns true for a text to be looked at.
pub fn tails(
    d: &dfa::Dfa,
    letters: usize,
    a: &EnumArgs,
    screen: &mut dyn FnMut(&[u8], usize) -> bool,
    sink: &mut dyn FnMut(Vec<u8>) -> bool,
) {
    let mut s: Vec<u8> = Vec::new();
    let total = 37usize.pow(letters as u32);
    for (i, o) in d.access.iter().chain(&d.others).enumerate() {
        for n in 0..total {
            if !a.mine(i + n) {
                continue;
            }
            let salt = mix(&[a.seed, i as u64, n as u64]);
            s.clear();
            if salt % 3 == 0 {
                s.extend_from_slice(o);
            } else {
                s.extend(respell(d, o, salt));
            }
            let mut x = n;
            for j in 0..letters {
                let b = SYMBOLS[x % 37];
                x /= 37;
                s.push(if salt >> (8 + j) & 1 == 0 { b } else { b.to_ascii_uppercase() });
            }
            let q = d.run_from(0, &s);
            let len = s.len();
            for w in &d.idset[q] {
                s.truncate(len);
                s.extend_from_slice(w);
                if screen(&s, n) && !sink(s.clone()) {
                    return;
                }
            }
        }
    }
}

/// Screens every text over the characters of tags up to a length, in a letter case
/// that varies.
pub fn all_texts(
    max: usize,
    a: &EnumArgs,
    screen: &mut dyn FnMut(&[u8], usize) -> bool,
    sink: &mut dyn FnMut(Vec<u8>) -> bool,
) {
    let mut s: Vec<u8> = Vec::new();
    for len in 0..=max {
        for n in (a.shard..37usize.pow(len as u32)).step_by(a.shards) {
            let salt = mix(&[a.seed, n as u64]);
            s.clear();
            let mut x = n;
            for j in 0..len {
                let b = SYMBOLS[x % 37];
                x /= 37;
                s.push(if salt >> (8 + j) & 1 == 0 { b } else { b.to_ascii_uppercase() });
            }
            if screen(&s, n) && !sink(s.clone()) {
                return;
            }
        }
    }
}

/// All strings over a reduced alphabet up to a length.
pub fn words(alpha: &[u8], max: usize, a: &EnumArgs, sink: &mut dyn FnMut(Vec<u8>) -> bool) {
    for len in 0..=max {
        let total = (alpha.len() as u64).pow(len as u32);
        let mut i = a.shard as u64;
        while i < total {
            let mut x = i;
            let mut s = Vec::with_capacity(len);
            for _ in 0..len {
                s.push(alpha[(x % alpha.len() as u64) as usize]);
                x /= alpha.len() as u64;
            }
            if !sink(s) {
                return;
            }
            i += a.shards as u64;
        }
    }
}

/// Language shapes: (primary length, number of extlangs)
pub const LANG_SHAPES: [(usize, usize); 13] = [
    (2, 0), (2, 1), (2, 2), (2, 3), (3, 0), (3, 1), (3, 2), (3, 3), (4, 0), (5, 0), (6, 0), (7, 0), (8, 0),
];

fn bits(a: &EnumArgs, salt: &[u64]) -> u64 {
    let mut v = vec![a.seed];
    v.extend_from_slice(salt);
    mix(&v)
}

/// Every combination of component shapes (presence, counts, lengths of the
/// neighbours), with characters drawn by hashing: about 13*2*3*6*7*5 shapes.
pub fn shapes(a: &EnumArgs, rounds: u64, sink: &mut dyn FnMut(Vec<Seg>) -> bool) {
    let variant_shapes: [&[usize]; 8] = [&[], &[4], &[5], &[8], &[4, 5], &[8, 4], &[5, 6, 7], &[4, 4, 4, 8, 5]];
    let ext_shapes: [&[&[usize]]; 8] = [
        &[],
        &[&[2]],
        &[&[8]],
        &[&[3, 4]],
        &[&[2], &[8]],
        &[&[2, 3, 4, 5, 6, 7, 8]],
        &[&[4], &[2, 2], &[3]],
        &[&[3], &[5, 8], &[4, 4], &[2]],
    ];
    let priv_shapes: [&[usize]; 7] = [&[], &[1], &[8], &[1, 1], &[2, 1, 3], &[4, 5], &[1, 2, 3, 4, 5, 6, 7, 8]];
    let mut idx = 0u64;
    for round in 0..rounds {
        for (pl, ne) in LANG_SHAPES {
            for sc in 0..2 {
                for rg in 0..3 {
                    for vs in variant_shapes {
                        for es in ext_shapes {
                            for ps in priv_shapes {
                                idx += 1;
                                if !a.mine(idx as usize) {
                                    continue;
                                }
                                let mut c = 0u64;
                                let mut s = |k: K, l: usize| {
                                    c += 1;
                                    chars(k, l, bits(a, &[idx, round, c]))
                                };
                                let mut lang = vec![s(K::Alpha, pl)];
                                for _ in 0..ne {
                                    lang.push(s(K::Alpha, 3));
                                }
                                let script = if sc == 1 { s(K::Alpha, 4) } else { vec![] };
                                let region = match rg {
                                    0 => vec![],
                                    1 => s(K::Alpha, 2),
                                    _ => s(K::Digit, 3),
                                };
                                let vars: Vec<Seg> = vs
                                    .iter()
                                    .map(|l| {
                                        s(match *l {
                                            4 => K::Lead,
                                            l if l % 2 == 0 => K::Alnum,
                                            _ => K::Alpha,
                                        }, *l)
                                    })
                                    .collect();
                                let mut exts: Vec<Seg> = vec![];
                                for e in es {
                                    let mut x = s(K::Alnum, 1);
                                    if x[0] | 0x20 == b'x' {
                                        x[0] = b'0';
                                    }
                                    let mut v = vec![x];
                                    for l in *e {
                                        v.push(s(K::Alnum, *l));
                                    }
                                    exts.push(join(v));
                                }
                                let mut pr: Vec<Seg> = vec![];
                                if !ps.is_empty() {
                                    pr.push(if idx % 2 == 0 { b"x".to_vec() } else { b"X".to_vec() });
                                    for l in ps {
                                        pr.push(s(K::Alnum, *l));
                                    }
                                }
                                if !sink(vec![join(lang), script, region, join(vars), join(exts), join(pr)]) {
                                    return;
                                }
                            }
                        }
                    }
                }
            }
        }
    }
}

/// Long tags: total lengths around every power of two boundary that matters to
/// offset arithmetic, with each open-ended component in turn being the long one.
/// `upto` bounds the length.
pub fn long_parts(a: &EnumArgs, dense: usize, upto: usize, sink: &mut dyn FnMut(Vec<Seg>) -> bool) {
    let mut lens: Vec<usize> = (8..dense).collect();
    for p in [255usize, 256, 511, 512, 1023, 1024, 4095, 4096, 32767, 32768, 65535, 65536] {
        for d in 0..12 {
            lens.push((p + d).saturating_sub(5));
        }
    }
    lens.extend([100_000, 131_080, 1_000_003]);
    for n in &DICT.ints {
        lens.extend(n.saturating_sub(6)..n + 7);
        for k in [2usize, 9] {
            lens.extend([n * k, n * k + 1]);
        }
    }
    lens.sort();
    lens.dedup();
    lens.retain(|l| *l >= 8);
    let mut idx = 0usize;
    for len in lens.into_iter().filter(|l| *l <= upto) {
        for which in 0..4u64 {
            for tail in 0..4u64 {
                idx += 1;
                if !a.mine(idx) {
                    continue;
                }
                let b = |n: u64| bits(a, &[len as u64, which, tail, n]);
                let filler = |min: usize, total: usize, lead: &str| -> Seg {
                    // lead, then segments of varying length up to exactly about `total`
                    let mut v = lead.as_bytes().to_vec();
                    let mut n = 0;
                    while v.len() + 10 <= total {
                        if !v.is_empty() {
                            v.push(b'-');
                        }
                        n += 1;
                        let l = min + (b(n) % (9 - min as u64)) as usize;
                        let s = chars(if min == 4 && l == 4 { K::Lead } else { K::Alnum }, l, b(n + 1_000_000));
                        v.extend_from_slice(&s);
                    }
                    if v.len() > lead.len() || !lead.is_empty() && v.len() == lead.len() {
                        // pad the end with one segment of the right size
                        let room = total.saturating_sub(v.len() + 1);
                        if room >= 5.max(min) && room <= 8 || v.len() == lead.len() {
                            v.push(b'-');
                            v.extend(chars(K::Alnum, room.clamp(5.max(min), 8), b(2_000_000)));
                        }
                    }
                    v
                };
                let lang = chars(K::Alpha, 2 + (b(1) % 2) as usize, b(2));
                let script = if b(3) % 2 == 0 { chars(K::Alpha, 4, b(4)) } else { vec![] };
                let region = if b(5) % 2 == 0 { chars(K::Alpha, 2, b(6)) } else { vec![] };
                let mut p = vec![lang, script, region, vec![], vec![], vec![]];
                match which {
                    0 => p[3] = filler(4, len, ""),
                    1 => p[4] = filler(2, len, "a"),
                    2 => p[5] = filler(1, len, "x"),
                    _ => {
                        // many short extensions
                        let mut v = Vec::new();
                        let mut n = 0u64;
                        while v.len() + 8 <= len || v.is_empty() {
                            if !v.is_empty() {
                                v.push(b'-');
                            }
                            n += 1;
                            let mut s = chars(K::Alnum, 1, b(n));
                            if s[0] | 0x20 == b'x' {
                                s[0] = b'7';
                            }
                            v.extend_from_slice(&s);
                            v.push(b'-');
                            v.extend(chars(K::Alnum, 2 + (b(n + 5) % 4) as usize, b(n + 9)));
                        }
                        p[4] = v;
                    }
                }
                if tail & 1 == 1 && which != 2 {
                    p[5] = b"x-p-q1".to_vec();
                }
                if tail & 2 == 2 && which == 0 {
                    p[4] = b"u-co-phonebk".to_vec();
                }
                if !sink(p) {
                    return;
                }
            }
        }
    }
}

/// Every single-byte edit (deletion, insertion, replacement) of `s`.
pub fn neighbours(s: &[u8], alphabet: &[u8], sink: &mut dyn FnMut(Vec<u8>) -> bool) -> bool {
    for i in 0..=s.len() {
        if i < s.len() {
            let mut v = s.to_vec();
            v.remove(i);
            if !sink(v) {
                return false;
            }
        }
        for b in alphabet {
            let mut v = s.to_vec();
            v.insert(i, *b);
            if !sink(v) {
                return false;
            }
            if i < s.len() && s[i] != *b {
                let mut v = s.to_vec();
                v[i] = *b;
                if !sink(v) {
                    return false;
                }
            }
        }
    }
    true
}

/// Every letter-case spelling of `s`.
pub fn spellings(s: &[u8]) -> Vec<Vec<u8>> {
    let letters: Vec<usize> = (0..s.len()).filter(|i| s[*i].is_ascii_alphabetic()).collect();
    (0..1u32 << letters.len())
        .map(|m| {
            let mut v = s.to_vec();
            for (k, i) in letters.iter().enumerate() {
                v[*i] = if m >> k & 1 == 1 { v[*i].to_ascii_uppercase() } else { v[*i].to_ascii_lowercase() };
            }
            v
        })
        .collect()
}
