//! L07: iteration yields each element once, in order, from either end.

use crate::case::Case;
use crate::engine::*;
use crate::ensure;
use crate::r#gen::*;
use crate::rfc::{self, Prod};
use crate::types::*;
use langtag::*;
use proptest::collection::vec;
use proptest::prelude::*;
use std::collections::VecDeque;

const LISTS: [Prod; 5] = [Prod::Extlang, Prod::Variants, Prod::Extensions, Prod::Extension, Prod::Privateuse];

/// Elements of a list value by the reference; `None` when it is not of that type.
fn elements(p: Prod, a: &[u8]) -> Option<Vec<&[u8]>> {
    if !rfc::matches(p, a) {
        return None;
    }
    let segs = || rfc::segments(a).into_iter().map(|r| &a[r]);
    Some(match p {
        Prod::Variants if a.is_empty() => vec![],
        Prod::Extlang | Prod::Variants => segs().collect(),
        Prod::Extension | Prod::Privateuse => segs().skip(1).collect(),
        Prod::Extensions => rfc::parse_extensions(a)?.into_iter().map(|e| &a[e.range]).collect(),
        _ => return None,
    })
}

fn eq(what: &str, a: &[u8], got: Option<&[u8]>, want: Option<&[u8]>) -> Result<(), String> {
    ensure!(
        got == want,
        "{what} of the list {:?} gives {:?}, expected {:?}",
        show(a),
        got.map(show),
        want.map(show)
    );
    Ok(())
}

/// An element of a list of the crate. The iterators are used as they are, without an
/// adapter around them, which would not call the methods they may override.
pub trait Element<'a> {
    fn text(self) -> &'a [u8];
}
macro_rules! element {
    ($($T:ty),*) => { $(impl<'a> Element<'a> for &'a $T {
        fn text(self) -> &'a [u8] {
            self.as_bytes()
        }
    })* };
}
element!(Variant, Extension, ExtensionSubtag, ExtendedLangTag, PrivateUseSubtag);

const FINISHES: u8 = 18;

/// Uses up an iterator with `rest` left by one of the provided methods of `Iterator`,
/// whether or not it is overridden.
fn finish<'a, I: Iterator>(what: &str, a: &[u8], mut it: I, rest: &[&[u8]], which: u8) -> Result<(), String>
where
    I::Item: Element<'a>,
{
    let n = rest.len();
    let mid = rest.get(n / 2).copied();
    let texts = |v: Vec<I::Item>| -> Vec<&'a [u8]> { v.into_iter().map(Element::text).collect() };
    let same = |how: &str, got: Vec<&[u8]>, want: &[&[u8]]| -> Result<(), String> {
        ensure!(
            got == want,
            "{what} of {:?} with {n} left: {how} gives {:?}, expected {:?}",
            show(a),
            got.iter().take(50).map(|e| show(e)).collect::<Vec<_>>(),
            want.iter().take(50).map(|e| show(e)).collect::<Vec<_>>()
        );
        Ok(())
    };
    let one = |how: &str, got: Option<&[u8]>, want: Option<&[u8]>| eq(&format!("{what} with {n} left: {how}"), a, got, want);
    let lim = n + 3;
    match which % FINISHES {
        0 => {
            let c = it.count();
            ensure!(c == n, "{what} of {:?}: count() is {c}, expected {n}", show(a));
        }
        1 => one("last()", it.last().map(Element::text), rest.last().copied())?,
        2 => same("collect()", texts(it.collect()), rest)?,
        3 => {
            let v = it.fold(Vec::new(), |mut v, e| {
                v.push(e.text());
                v
            });
            same("fold()", v, rest)?
        }
        4 => {
            let mut v = Vec::new();
            it.for_each(|e| v.push(e.text()));
            same("for_each()", v, rest)?
        }
        5 => {
            one("nth() of the middle", it.nth(n / 2).map(Element::text), mid)?;
            let next = rest.get(n / 2 + 1).copied();
            one("next() after nth() of the middle", it.next().map(Element::text), next)?;
        }
        6 => {
            one("nth() past the end", it.nth(n).map(Element::text), None)?;
            one("next() after nth() past the end", it.next().map(Element::text), None)?;
        }
        7 => {
            let want: Vec<&[u8]> = rest.iter().step_by(2).copied().collect();
            same("step_by(2)", texts(it.step_by(2).take(lim).collect()), &want)?
        }
        8 => same("skip(1)", texts(it.skip(1).take(lim).collect()), rest.get(1..).unwrap_or(&[]))?,
        9 => {
            let k = n / 2;
            same("by_ref().take()", texts(it.by_ref().take(k).collect()), &rest[..k])?;
            same("collect() after by_ref().take()", texts(it.take(lim).collect()), &rest[k..])?;
        }
        10 => {
            let p = it.position(|e| Some(e.text()) == mid);
            let want = mid.and_then(|m| rest.iter().position(|e| *e == m));
            ensure!(p == want, "{what} of {:?}: position() is {p:?}, expected {want:?}", show(a));
            let next = want.and_then(|i| rest.get(i + 1).copied());
            one("next() after position()", it.next().map(Element::text), next)?;
        }
        11 => {
            // a closure that is no Copy bound on the items: by the text's address
            let mut seen = 0;
            let f = it.find(|_| {
                seen += 1;
                seen > n / 2
            });
            one("find()", f.map(Element::text), mid)?;
            one("next() after find()", it.next().map(Element::text), rest.get(n / 2 + 1).copied())?;
        }
        12 => {
            let mut left = n / 2;
            let r = it.try_fold(Vec::new(), |mut v, e| {
                v.push(e.text());
                if left == 0 {
                    return Err(v);
                }
                left -= 1;
                Ok(v)
            });
            let (Ok(v) | Err(v)) = r;
            same("try_fold()", v, &rest[..(n / 2 + 1).min(n)])?;
            one("next() after try_fold()", it.next().map(Element::text), rest.get(n / 2 + 1).copied())?;
        }
        13 => {
            let m = it.max_by(|_, _| std::cmp::Ordering::Equal);
            one("max_by()", m.map(Element::text), rest.last().copied())?
        }
        14 => {
            let m = it.min_by(|_, _| std::cmp::Ordering::Equal);
            one("min_by()", m.map(Element::text), rest.first().copied())?
        }
        15 => {
            let mut odd = false;
            let (x, y): (Vec<I::Item>, Vec<I::Item>) = it.partition(|_| {
                odd = !odd;
                odd
            });
            let want: Vec<&[u8]> = rest.iter().step_by(2).copied().collect();
            same("partition(), one side", texts(x), &want)?;
            let want: Vec<&[u8]> = rest.iter().skip(1).step_by(2).copied().collect();
            same("partition(), the other side", texts(y), &want)?;
        }
        16 => {
            let mut p = it.peekable();
            p.peek();
            let (lo, hi) = p.size_hint();
            ensure!(
                lo <= n && hi.is_none_or(|h| h >= n),
                "{what} of {:?} with {n} left: size_hint() {lo}..{hi:?}",
                show(a)
            );
            same("collect() after peek()", texts(p.collect()), rest)?
        }
        _ => {
            let k = n / 3;
            same("nth(0) repeatedly", (0..k).map_while(|_| it.nth(0).map(Element::text)).collect(), &rest[..k])?;
            let r = it.reduce(|_, y| y);
            one("reduce() after nth(0)", r.map(Element::text), rest[k..].last().copied())?
        }
    }
    Ok(())
}

const BACK_FINISHES: u8 = 7;

/// The same for `DoubleEndedIterator`.
fn finish_back<'a, I: DoubleEndedIterator>(a: &[u8], mut it: I, rest: &[&[u8]], which: u8) -> Result<(), String>
where
    I::Item: Element<'a>,
{
    let what = "variants";
    let n = rest.len();
    let back: Vec<&[u8]> = rest.iter().rev().copied().collect();
    let texts = |v: Vec<I::Item>| -> Vec<&'a [u8]> { v.into_iter().map(Element::text).collect() };
    let same = |how: &str, got: Vec<&[u8]>, want: &[&[u8]]| -> Result<(), String> {
        ensure!(
            got == want,
            "{what} of {:?} with {n} left: {how} gives {:?}, expected {:?}",
            show(a),
            got.iter().take(50).map(|e| show(e)).collect::<Vec<_>>(),
            want.iter().take(50).map(|e| show(e)).collect::<Vec<_>>()
        );
        Ok(())
    };
    let one = |how: &str, got: Option<&[u8]>, want: Option<&[u8]>| eq(&format!("{what} with {n} left: {how}"), a, got, want);
    let mid = back.get(n / 2).copied();
    let lim = n + 3;
    match which % BACK_FINISHES {
        0 => same("rev()", texts(it.rev().take(lim).collect()), &back)?,
        1 => {
            let v = it.rfold(Vec::new(), |mut v, e| {
                v.push(e.text());
                v
            });
            same("rfold()", v, &back)?
        }
        2 => {
            one("nth_back() of the middle", it.nth_back(n / 2).map(Element::text), mid)?;
            one("next() after nth_back()", it.next().map(Element::text), (n / 2 + 1 < n).then(|| rest[0]))?;
        }
        3 => {
            one("nth_back() past the end", it.nth_back(n).map(Element::text), None)?;
            one("next() after nth_back() past the end", it.next().map(Element::text), None)?;
            one("next_back() after nth_back() past the end", it.next_back().map(Element::text), None)?;
        }
        4 => {
            let mut seen = 0;
            let f = it.rfind(|_| {
                seen += 1;
                seen > n / 2
            });
            one("rfind()", f.map(Element::text), mid)?;
            one("next_back() after rfind()", it.next_back().map(Element::text), back.get(n / 2 + 1).copied())?;
        }
        5 => {
            let mut left = n / 2;
            let r = it.try_rfold(Vec::new(), |mut v, e| {
                v.push(e.text());
                if left == 0 {
                    return Err(v);
                }
                left -= 1;
                Ok(v)
            });
            let (Ok(v) | Err(v)) = r;
            same("try_rfold()", v, &back[..(n / 2 + 1).min(n)])?;
            one("next_back() after try_rfold()", it.next_back().map(Element::text), back.get(n / 2 + 1).copied())?;
        }
        _ => {
            let want: Vec<&[u8]> = back.iter().step_by(2).copied().collect();
            same("rev().step_by(2)", texts(it.rev().step_by(2).take(lim).collect()), &want)?
        }
    }
    Ok(())
}

/// Forward-only checks of an iterator, by way of a fresh-iterator maker.
fn forward<'a, I: Iterator>(
    what: &str,
    a: &[u8],
    want: &[&[u8]],
    ops: &[u8],
    mk: impl Fn() -> I,
) -> Result<(), String>
where
    I::Item: Element<'a>,
{
    let mut it = mk();
    for w in want {
        let got = it.next().map(Element::text);
        if got != Some(*w) {
            eq(&format!("{what}: next()"), a, got, Some(w))?;
        }
    }
    for _ in 0..3 {
        eq(&format!("{what}: next() after the end"), a, it.next().map(Element::text), None)?;
    }
    // from here on the iterator is known to be finite
    let (lo, hi) = mk().size_hint();
    ensure!(
        lo <= want.len() && hi.is_none_or(|h| h >= want.len()),
        "{what} of {:?}: size_hint() {lo}..{hi:?} excludes {}",
        show(a),
        want.len()
    );
    let salt = ops.iter().fold(want.len() as u8, |x, o| x.wrapping_mul(31).wrapping_add(*o));
    if want.len() <= 300 {
        for which in 0..FINISHES {
            // all of them on short histories, some on the others
            if ops.len() < 3 || (which ^ salt) % 4 == 0 {
                finish(what, a, mk(), want, which)?;
            }
        }
    } else {
        finish(what, a, mk(), want, salt)?;
    }
    // a walk of next() and nth(k), then one of the other methods
    let mut it = mk();
    let mut pos = 0usize;
    for op in ops {
        let skip = op % 4 == 3;
        let k = if skip { (op / 4) as usize % 4 } else { 0 };
        let got = if skip { it.nth(k) } else { it.next() }.map(Element::text);
        if got != want.get(pos + k).copied() {
            eq(&format!("{what}: nth({k}) from position {pos}"), a, got, want.get(pos + k).copied())?;
        }
        pos = (pos + k + 1).min(want.len());
        let (lo, hi) = it.size_hint();
        let left = want.len() - pos;
        ensure!(
            lo <= left && hi.is_none_or(|h| h >= left),
            "{what} of {:?}: size_hint() {lo}..{hi:?} with {left} left",
            show(a)
        );
    }
    finish(what, a, it, &want[pos..], salt.wrapping_add(7))
}

fn both_ends<'a, I: DoubleEndedIterator>(
    a: &[u8],
    want: &[&[u8]],
    ops: &[u8],
    mk: impl Fn() -> I,
) -> Result<(), String>
where
    I::Item: Element<'a>,
{
    let mut model: VecDeque<&[u8]> = want.iter().copied().collect();
    let fail = |i: usize, got: Option<&[u8]>, exp: Option<&[u8]>| {
        let t: String = ops.iter().take(i + 1).take(60).map(|o| if o & 1 == 1 { 'B' } else { 'F' }).collect();
        format!(
            "variants of {:?}: call {} of the front/back history {t} (then alternating) gives {:?}, expected {:?}",
            show(a),
            i + 1,
            got.map(show),
            exp.map(show)
        )
    };
    let walk = |it: &mut I, model: &mut VecDeque<&'_ [u8]>| -> Result<(), String> {
        for (i, op) in ops.iter().enumerate() {
            let k = if (op >> 1) % 8 == 7 { (op >> 4) as usize % 3 } else { 0 };
            let mut exp = None;
            let got = if op & 1 == 1 {
                for _ in 0..=k {
                    exp = model.pop_back();
                }
                if k == 0 { it.next_back() } else { it.nth_back(k) }
            } else {
                for _ in 0..=k {
                    exp = model.pop_front();
                }
                if k == 0 { it.next() } else { it.nth(k) }
            };
            let got = got.map(Element::text);
            if got != exp {
                return Err(fail(i, got, exp));
            }
            let (lo, hi) = it.size_hint();
            let left = model.len();
            ensure!(
                lo <= left && hi.is_none_or(|h| h >= left),
                "variants of {:?}: size_hint() {lo}..{hi:?} with {left} left",
                show(a)
            );
        }
        Ok(())
    };
    let mut it = mk();
    walk(&mut it, &mut model)?;
    let rest: Vec<&[u8]> = model.iter().copied().collect();
    // drain what is left, alternating by the parity of the history
    for i in 0..model.len() + 3 {
        let back = (i + ops.len()) % 2 == 1;
        let (got, exp) = if back { (it.next_back(), model.pop_back()) } else { (it.next(), model.pop_front()) };
        let got = got.map(Element::text);
        if got != exp {
            return Err(fail(i + ops.len(), got, exp));
        }
    }
    let salt = ops.iter().fold(want.len() as u8, |x, o| x.wrapping_mul(29).wrapping_add(*o));
    for which in 0..BACK_FINISHES {
        if ops.len() < 3 || which == salt % BACK_FINISHES {
            finish_back(a, mk(), want, which)?;
        }
    }
    // or by one of the other methods
    for n in 0..2 {
        let mut it = mk();
        let mut model = want.iter().copied().collect();
        walk(&mut it, &mut model)?;
        if n == 0 {
            finish(&format!("variants after {} calls from either end", ops.len()), a, it, &rest, salt / 8)?;
        } else {
            finish_back(a, it, &rest, salt / 8)?;
        }
    }
    Ok(())
}

fn l07(c: &Case) -> Result<Verdict, String> {
    if c.sub == "in-tag" {
        return l07_in_tag(c);
    }
    let p = c.prod();
    let a = &c.a[..];
    let Some(want) = elements(p, a) else { return Ok(Verdict::Skip("not a value of the list type")) };
    let w = &want[..];
    let ops = &c.ops[..];
    let none: &[&[u8]] = &[];
    macro_rules! parse {
        ($T:ty) => {
            match <$T>::new(a) {
                Ok(v) => v,
                Err(_) => return Ok(Verdict::Skip("list rejected by the crate")),
            }
        };
    }
    match p {
        Prod::Extlang => {
            let v = parse!(LanguageExtension);
            forward("LanguageExtension::iter", a, w, ops, || v.iter())?;
            // and through a language holding it
            let text = [b"zh-", a].concat();
            if let Ok(l) = Language::new(&text) {
                forward("Language::extension_subtags", a, w, ops, || l.extension_subtags())?;
            }
            forward("LanguageExtensionIter::empty", b"", none, &[0, 3], || LanguageExtensionIter::empty())?;
            forward("LanguageExtensionIter::default", b"", none, &[0, 3], || LanguageExtensionIter::default())?;
        }
        Prod::Variants => {
            let v = parse!(Variants);
            forward("Variants::iter", a, w, ops, || v.iter())?;
            both_ends(a, w, ops, || v.iter())?;
            eq("Variants::first", a, v.first().map(|e| e.as_bytes()), w.first().copied())?;
            eq("Variants::last", a, v.last().map(|e| e.as_bytes()), w.last().copied())?;
            both_ends(b"", none, &[0, 1, 1, 0], || VariantsIter::empty())?;
            both_ends(b"", none, &[1, 0, 0, 1], || VariantsIter::default())?;
            both_ends(b"", none, &[1, 0, 0, 1], || Variants::EMPTY.iter())?;
            ensure!(
                Variants::EMPTY.first().is_none() && Variants::EMPTY.last().is_none(),
                "Variants::EMPTY has a first or last element"
            );
        }
        Prod::Extensions => {
            let v = parse!(Extensions);
            forward("Extensions::iter", a, w, ops, || v.iter())?;
            for (e, r) in v.iter().zip(w) {
                let parts: Vec<&[u8]> = r.split(|b| *b == b'-').skip(1).collect();
                forward("Extension::iter", r, &parts, &ops[..ops.len().min(8)], || e.iter())?;
            }
            forward("Extensions::EMPTY", b"", none, &[0, 3], || Extensions::EMPTY.iter())?;
        }
        Prod::Extension => {
            let v = parse!(Extension);
            forward("Extension::iter", a, w, ops, || v.iter())?;
            forward("ExtensionIter::empty", b"", none, &[0, 3], || ExtensionIter::empty())?;
            forward("ExtensionIter::default", b"", none, &[0, 3], || ExtensionIter::default())?;
        }
        Prod::Privateuse => {
            let v = parse!(PrivateUse);
            forward("PrivateUse::iter", a, w, ops, || v.iter())?;
            forward("PrivateUseIter::empty", b"", none, &[0, 3], || PrivateUseIter::empty())?;
            forward("PrivateUseIter::default", b"", none, &[0, 3], || PrivateUseIter::default())?;
        }
        _ => return Ok(Verdict::Skip("not a list type")),
    }
    let class = match want.len() {
        0 => "empty list",
        1 => "one element",
        2..=5 => "two to five elements",
        6..=50 => "six to fifty elements",
        _ => "more than fifty elements",
    };
    Ok(pass(want.len() >= 2 || !ops.is_empty(), class))
}

/// The same lists as a tag hands them out.
fn l07_in_tag(c: &Case) -> Result<Verdict, String> {
    let a = &c.a[..];
    let Some(d) = rfc::parse_langtag(a) else { return Ok(Verdict::Skip("not a normal tag")) };
    let Ok(t) = NormalLangTag::new(a) else { return Ok(Verdict::Skip("tag rejected by the crate")) };
    let pick = |v: &[std::ops::Range<usize>]| -> Vec<&[u8]> { v.iter().map(|r| &a[r.clone()]).collect() };
    let vs = pick(&d.variants);
    both_ends(a, &vs, &c.ops, || t.variants().iter())?;
    eq("first variant", a, t.variants().first().map(|e| e.as_bytes()), vs.first().copied())?;
    eq("last variant", a, t.variants().last().map(|e| e.as_bytes()), vs.last().copied())?;
    forward("extended languages", a, &pick(&d.extlangs), &c.ops, || {
        t.language().extension_subtags()
    })?;
    let ex: Vec<std::ops::Range<usize>> = d.extensions.iter().map(|e| e.range.clone()).collect();
    forward("extensions", a, &pick(&ex), &c.ops, || t.extensions().iter())?;
    forward("private-use subtags", a, &pick(&d.private_subtags), &c.ops, || t.private_use_subtags())?;
    Ok(pass(d.weight() > 0, "lists of a tag"))
}

fn check_l07(c: &Case) -> Verdict {
    l07(c).into()
}

/// A list of type `p` with elements shaped by `lens`.
pub fn list_of(p: Prod, lens: &[usize], salt: u64) -> Vec<u8> {
    let mut out: Vec<Vec<u8>> = vec![];
    match p {
        Prod::Extension => out.push(vec![b'a' + (salt % 20) as u8]),
        Prod::Privateuse => out.push(vec![if salt % 2 == 0 { b'x' } else { b'X' }]),
        _ => {}
    }
    for (i, l) in lens.iter().enumerate() {
        let b = mix(&[salt, i as u64, 17]);
        match p {
            Prod::Extlang => out.push(chars(K::Alpha, 3, b)),
            Prod::Variants => {
                let l = 4 + l % 5;
                out.push(chars(if l == 4 { K::Lead } else { K::Alnum }, l, b))
            }
            Prod::Extensions => {
                let mut s = chars(K::Alnum, 1, b);
                if s[0] | 0x20 == b'x' {
                    s[0] = b'3';
                }
                out.push(s);
                out.push(chars(K::Alnum, 2 + l % 7, b ^ 1));
                if l % 3 == 0 {
                    out.push(chars(K::Alnum, 2 + l % 5, b ^ 2));
                }
            }
            Prod::Extension => out.push(chars(K::Alnum, 2 + l % 7, b)),
            _ => out.push(chars(K::Alnum, 1 + l % 8, b)),
        }
    }
    out.join(&b'-')
}

/// Every interleaving of front and back calls for every short list, past exhaustion.
fn interleavings(a: &EnumArgs, sink: &mut Sink) {
    let max = if a.thorough { 8 } else { 6 };
    let mut idx = 0;
    for n in 0..=max {
        for pat in 0..if a.thorough { 12 } else { 4u64 } {
            let lens: Vec<usize> =
                (0..n).map(|i| if pat > 0 { mix(&[a.seed, pat, i as u64]) as usize % 9 } else { 0 }).collect();
            let list = list_of(Prod::Variants, &lens, mix(&[a.seed, pat]));
            for calls in 0..=n + 3 {
                for m in 0..1u32 << calls {
                    idx += 1;
                    if !a.mine(idx) {
                        continue;
                    }
                    let ops: Vec<u8> = (0..calls).map(|i| (m >> i & 1) as u8).collect();
                    if !sink(Case { ops, ..Case::new(list.clone()).ty(Prod::Variants) }) {
                        return;
                    }
                }
            }
        }
    }
}

/// Every combination of element lengths for short lists of every type.
fn length_combinations(a: &EnumArgs, sink: &mut Sink) {
    let mut idx = 0;
    for p in LISTS {
        for n in 1..=if a.thorough { 4usize } else { 3 } {
            if p == Prod::Extlang && n > 3 {
                continue;
            }
            for i in 0..8usize.pow(n as u32) {
                idx += 1;
                if !a.mine(idx) {
                    continue;
                }
                let lens: Vec<usize> = (0..n).map(|j| i >> (3 * j) & 7).collect();
                let list = list_of(p, &lens, mix(&[a.seed, i as u64, 3]));
                if !sink(Case::new(list).ty(p)) {
                    return;
                }
            }
        }
    }
}

fn long_lists(a: &EnumArgs, sink: &mut Sink) {
    let mut ns: Vec<usize> = (4..80).collect();
    ns.extend([100, 127, 128, 129, 255, 256, 257, 1000, 4096, 10_000, 20_000, 66_000]);
    for n in &crate::dict::DICT.ints {
        if *n > 3 {
            ns.extend([n - 1, *n, n + 1]);
        }
    }
    if a.thorough {
        ns.extend([33_000, 140_000, 200_000]);
    }
    ns.retain(|n| *n <= if a.thorough { 200_000 } else { 70_000 });
    ns.sort();
    ns.dedup();
    let mut idx = 0;
    for n in ns {
        for p in LISTS {
            if p == Prod::Extlang || (p == Prod::Extensions && n > 4096) {
                continue;
            }
            for pat in 0..3u64 {
                idx += 1;
                if !a.mine(idx) {
                    continue;
                }
                let lens: Vec<usize> =
                    (0..n).map(|i| if pat > 0 { mix(&[pat, i as u64, n as u64]) as usize % 8 } else { 0 }).collect();
                let list = list_of(p, &lens, mix(&[a.seed, n as u64, pat]));
                let ops: Vec<u8> = (0..(n + 5).min(3000)).map(|i| mix(&[i as u64, a.seed, pat, 5]) as u8).collect();
                if !sink(Case { ops, ..Case::new(list).ty(p) }) {
                    return;
                }
            }
        }
    }
}

fn random_lists() -> BoxedStrategy<Case> {
    let ops = || vec(any::<u8>(), 0..30);
    let which = (0usize..8).prop_map(|i| {
        [
            Prod::Variants,
            Prod::Variants,
            Prod::Variants,
            Prod::Extlang,
            Prod::Extensions,
            Prod::Extensions,
            Prod::Extension,
            Prod::Privateuse,
        ][i]
    });
    prop_oneof![
        5 => which
            .prop_flat_map(move |p| (Just(p), valid(p), ops()))
            .prop_map(|(p, s, ops)| Case { ops, ..Case::new(s).ty(p) }),
        2 => (normal_tag(), ops()).prop_map(|(s, ops)| Case { ops, ..Case::new(s).sub("in-tag") }),
    ]
    .boxed()
}

fn l07_campaigns(th: bool) -> Vec<Campaign> {
    let k = if th { 5 } else { 1 };
    vec![
        Campaign { name: "every front/back interleaving on short variant lists", r#gen: Gen::Enum(interleavings) },
        Campaign { name: "every combination of element lengths in short lists", r#gen: Gen::Enum(length_combinations) },
        Campaign { name: "random lists and call histories", r#gen: Gen::Random(random_lists, 5_000_000 * k) },
        Campaign { name: "long lists", r#gen: Gen::Enum(long_lists) },
    ]
}

pub static L07: Property = Property {
    hang: 60,
    id: "L07",
    rule: "List values of the five list types with a history of iterator calls (front, back, skipping, past the end), compared call by call with a double-ended queue of the hyphen-separated elements; the crate's iterators themselves, so that overridden provided methods (count, last, fold, nth, find, ...) are met, also halfway through a history; standalone lists and lists handed out by a tag; every interleaving on variant lists of up to 6 elements. Non-trivial: at least two elements or a non-empty call history; distinct by (type, list, history).",
    check: check_l07,
    campaigns: l07_campaigns,
    assumptions: &[],
};
