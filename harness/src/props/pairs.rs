//! Generators of related values: pairs and triples one small step apart.

use crate::case::Case;
use crate::dfa;
use crate::engine::*;
use crate::r#gen::*;
use crate::rfc::{self, Prod};
use proptest::prelude::*;

/// Characters that differ from `c` in a way a sloppy comparison may miss.
fn near_chars(c: u8) -> Vec<u8> {
    let mut v = vec![c ^ 0x20, c ^ 0x10, c ^ 0x40, c ^ 1, c.wrapping_add(1), c.wrapping_sub(1), b'-', b'a', b'Z', b'0', b'9', b'z', b'A'];
    v.extend([c ^ 0x30, c ^ 0x60, c | 0x20, c & !0x20]);
    v.sort();
    v.dedup();
    v.retain(|b| *b != c && *b < 128);
    v
}

/// A few texts of production `p`, of many lengths.
fn stock(p: Prod, a: &EnumArgs) -> Vec<Vec<u8>> {
    let d = dfa::get(p);
    let mut v: Vec<Vec<u8>> = Vec::new();
    for q in 0..d.access.len() {
        if let Some(f) = &d.finish[q] {
            let mut s = d.access[q].clone();
            s.extend_from_slice(f);
            v.push(s);
        }
    }
    // repeat list elements to reach longer texts
    let elem: Option<&[u8]> = match p {
        Prod::Variants => Some(b"a1b2c3d4-1xyz-qwert"),
        Prod::Extensions | Prod::Extension => Some(b"u-co-phonebk-x1-ab3"),
        Prod::Privateuse => Some(b"x-a-B2-whatever-3-z"),
        Prod::LanguageTag | Prod::Langtag => Some(b"de-Latn-CH-1996-a-extend1-x-wadegile-private1"),
        _ => None,
    };
    if let Some(e) = elem {
        v.push(e.to_vec());
        let tail: &[u8] = match p {
            Prod::Variants => b"-a1b2c3d4",
            Prod::Privateuse | Prod::LanguageTag | Prod::Langtag => b"-q7",
            _ => b"-k9z",
        };
        let mut s = e.to_vec();
        while s.len() < 140 {
            s.extend_from_slice(tail);
            if s.len() < 48 || s.len() % 3 == 0 {
                v.push(s.clone());
            }
        }
        while s.len() < 300 {
            s.extend_from_slice(tail);
        }
        v.push(s);
    }
    if p == Prod::LanguageTag || p == Prod::Langtag {
        for (t, l) in rfc::GRANDFATHERED {
            if p == Prod::LanguageTag || l.is_some() {
                v.push(t.as_bytes().to_vec());
            }
        }
    }
    if p == Prod::LanguageTag {
        v.push(b"x-whatever-1".to_vec());
    }
    // vary the letters, keeping the shape
    let n = v.len();
    for i in 0..n {
        let s = v[i].clone();
        v.push(reletter(p, &s, mix(&[a.seed, i as u64])));
    }
    v.retain(|s| rfc::matches(p, s));
    v.sort();
    v.dedup();
    v
}

/// Other letters and digits in place of those of `s`, staying in production `p`.
pub fn reletter(p: Prod, s: &[u8], salt: u64) -> Vec<u8> {
    let mut v = s.to_vec();
    for i in 0..v.len() {
        let old = v[i];
        let r = mix(&[salt, i as u64]);
        v[i] = match old {
            b'0'..=b'9' => b'0' + (r % 10) as u8,
            b'a'..=b'z' | b'A'..=b'Z' => (if r & 64 == 0 { b'a' } else { b'A' }) + ((r >> 8) % 26) as u8,
            c => c,
        };
        if !(v[i] | 0x20 != b'x' && old | 0x20 != b'x') {
            v[i] = old;
        }
    }
    if rfc::matches(p, &v) { v } else { s.to_vec() }
}

/// Texts one position apart, prefixes, and re-spellings, for every type and position.
pub fn neighbours_of_stock(a: &EnumArgs, sink: &mut Sink) {
    let mut idx = 0usize;
    for p in rfc::ALL {
        for s in stock(p, a) {
            let step = if s.len() > 150 { 7 } else { 1 };
            let mut put = |x: &[u8], y: Vec<u8>| -> bool {
                idx += 1;
                !a.mine(idx) || sink(Case::new(x).b(y).ty(p))
            };
            for i in 0..s.len() {
                if i % step != 0 && i + 3 < s.len() {
                    continue;
                }
                for c in near_chars(s[i]) {
                    let mut t = s.clone();
                    t[i] = c;
                    if rfc::matches(p, &t) || (i + c as usize) % 5 == 0 {
                        // plain, and with the case of everything else changed
                        if !put(&s, t.clone()) || !put(&s, flip_others(&t, i)) {
                            return;
                        }
                    }
                }
                // prefixes, also as the second operand
                let t = s[..i].to_vec();
                if (rfc::matches(p, &t) || i + 3 >= s.len()) && !put(&s, t) {
                    return;
                }
                if s[i].is_ascii_alphabetic() {
                    let mut t = s.clone();
                    t[i] ^= 0x20;
                    if !put(&s, t) {
                        return;
                    }
                }
            }
            for t in [s.to_ascii_uppercase(), s.to_ascii_lowercase(), [&s[..], b"-"].concat(), [&s[..], b"\0"].concat(), vec![]] {
                if !put(&s, t) {
                    return;
                }
            }
        }
    }
}

fn flip_others(s: &[u8], i: usize) -> Vec<u8> {
    s.iter().enumerate().map(|(j, b)| if j != i && b.is_ascii_alphabetic() { b ^ 0x20 } else { *b }).collect()
}

/// Long values that differ in one place, at and around powers of two.
pub fn long_pairs(a: &EnumArgs, sink: &mut Sink) {
    let mut idx = 0usize;
    let lens: &[usize] = if a.thorough { &[100, 260, 600, 1100, 5000, 33_000, 66_000, 140_000] } else { &[100, 260, 600, 1100, 5000, 66_000] };
    for p in [Prod::LanguageTag, Prod::Langtag, Prod::Privateuse, Prod::Variants, Prod::Extension, Prod::Extensions] {
        for len in lens {
            let s = long_text(p, *len, a.seed);
            let mut at: Vec<usize> = vec![0, 1, 2, s.len() - 1, s.len() - 2, s.len() / 2];
            let mut k = 4;
            while k < s.len() + 2 {
                at.extend([k - 2, k - 1, k, k + 1]);
                k *= 2;
            }
            at.extend([s.len() & !7, s.len() & !15, s.len() & !31]);
            at.sort();
            at.dedup();
            for i in at.into_iter().filter(|i| *i < s.len()) {
                let mut cs = near_chars(s[i]);
                if s.len() > 2000 && !a.thorough {
                    // two of them
                    let by = mix(&[a.seed, i as u64]) as usize % cs.len();
                    cs.rotate_left(by);
                    cs.truncate(2);
                }
                for c in cs {
                    let mut t = s.clone();
                    t[i] = c;
                    idx += 1;
                    if !a.mine(idx) || (!rfc::matches(p, &t) && idx % 16 != a.shard) {
                        continue;
                    }
                    let y = if idx % 16 < 8 { flip_others(&t, i) } else { t };
                    if !sink(Case::new(s.clone()).b(y).ty(p)) {
                        return;
                    }
                }
            }
            idx += 1;
            if a.mine(idx) && !sink(Case::new(s.clone()).b(s[..s.len() - 4].to_vec()).ty(p)) {
                return;
            }
        }
    }
}

/// One text of production `p` of about `len` bytes.
pub fn long_text(p: Prod, len: usize, salt: u64) -> Vec<u8> {
    let mut s: Vec<u8> = match p {
        Prod::LanguageTag | Prod::Langtag if len % 200 == 100 => b"de-a".to_vec(),
        Prod::LanguageTag | Prod::Langtag => b"de-Latn".to_vec(),
        Prod::Privateuse => b"x".to_vec(),
        Prod::Extension | Prod::Extensions => b"t".to_vec(),
        _ => vec![],
    };
    let mut n = 0;
    while s.len() < len {
        if !s.is_empty() {
            s.push(b'-');
        }
        n += 1;
        let b = mix(&[salt, n, 99]);
        s.extend(chars(K::Alnum, 5 + (b % 4) as usize, b));
    }
    s
}

/// A value and something close to it (or not).
pub fn pair(p: Prod) -> BoxedStrategy<Case> {
    (valid(p), valid(p), any::<u64>(), any::<u64>(), 0u8..12, edits(1, 2))
        .prop_map(move |(a, other, m, salt, how, es)| {
            let b = relate(p, &a, &other, m, salt, how, &es);
            Case::new(a).b(b).ty(p)
        })
        .boxed()
}

fn relate(p: Prod, a: &[u8], other: &[u8], m: u64, salt: u64, how: u8, es: &[Edit]) -> Vec<u8> {
    match how {
        0..=2 => recase(a, m),
        3 => other.to_vec(),
        4..=6 => {
            // one position, kept valid when possible
            let mut t = a.to_vec();
            if !t.is_empty() {
                let i = (salt % t.len() as u64) as usize;
                let cs = near_chars(t[i]);
                t[i] = cs[(salt >> 32) as usize % cs.len()];
                if !rfc::matches(p, &t) {
                    t = a.to_vec();
                    t[i] = match t[i] {
                        b'z' | b'Z' => b'a',
                        b'9' => b'0',
                        c => c.wrapping_add(1),
                    };
                }
            }
            recase(&t, if how == 6 { m } else { 0 })
        }
        7 => {
            // a valid proper prefix, by segments
            let segs = rfc::segments(a);
            let n = (salt % segs.len() as u64) as usize;
            recase(&a[..segs[n].end], m)
        }
        8 => {
            // splice: the head of one, the tail of the other
            let (x, y) = (rfc::segments(a), rfc::segments(other));
            let i = (salt % x.len() as u64) as usize;
            let j = ((salt >> 20) % y.len() as u64) as usize;
            let mut t = a[..x[i].end].to_vec();
            t.extend_from_slice(&other[y[j].end..]);
            recase(&t, m)
        }
        9 => reletter(p, a, salt),
        10 => recase(&reletter(p, a, salt), m),
        _ => {
            let mut t = a.to_vec();
            for e in es {
                edit(&mut t, e);
            }
            t
        }
    }
}

/// Three related values.
pub fn triple(p: Prod) -> BoxedStrategy<Case> {
    (pair(p), valid(p), any::<u64>(), any::<u64>(), 0u8..12, edits(1, 2), any::<bool>())
        .prop_map(move |(c, other, m, salt, how, es, from_b)| {
            let from = if from_b { c.b.to_vec() } else { c.a.to_vec() };
            let third = relate(p, &from, &other, m, salt, how, &es);
            c.c(third)
        })
        .boxed()
}

pub fn any_pair() -> BoxedStrategy<Case> {
    prod().prop_flat_map(pair).boxed()
}
pub fn any_triple() -> BoxedStrategy<Case> {
    prod().prop_flat_map(triple).boxed()
}

/// Every pair of singletons (as `n`), and each with every byte and many characters.
pub fn singletons(a: &EnumArgs, sink: &mut Sink) {
    let mut idx = 0;
    for s in (0..128u8).filter(|b| rfc::is_singleton_byte(*b)) {
        for c in (0..0x300u64).chain([0x130, 0x131, 0x17f, 0x212a, 0xff21, 0xff41, 0x10061, 0x10041, 0x1f431]) {
            idx += 1;
            if a.mine(idx) && !sink(Case { n: c, ..Case::new(vec![s]).sub("singleton") }) {
                return;
            }
        }
    }
}

/// Every pair of registered grandfathered tags.
pub fn grandfathered_pairs(a: &EnumArgs, sink: &mut Sink) {
    let mut idx = 0;
    for (x, _) in rfc::GRANDFATHERED {
        for (y, _) in rfc::GRANDFATHERED {
            for m in [0u64, u64::MAX, 0x5555] {
                idx += 1;
                if a.mine(idx) && !sink(Case::new(recase(x.as_bytes(), m)).b(recase(y.as_bytes(), m >> 1)).sub("grandfathered")) {
                    return;
                }
            }
        }
    }
}
