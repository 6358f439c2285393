//! L11 (equality), L12 (hashing), L13 (ordering).

use super::pairs::*;
use crate::case::{Case, Fnv};
use crate::engine::*;
use crate::rfc::{self, Prod};
use crate::types::*;
use crate::{ensure, per_type};
use langtag::{GrandfatheredLangTag, Kind, LangTag, Singleton};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

// ------------------------------------------------------------------- L11

fn l11_type(p: Prod, a: &[u8], b: &[u8]) -> Result<Verdict, String> {
    let n = type_name(p);
    let same = rfc::fold(a) == rfc::fold(b);
    per_type!(p, T, B, {
        let (Ok(sa), text_b) = (std::str::from_utf8(a), std::str::from_utf8(b).ok()) else {
            return Ok(Verdict::Skip("not text"));
        };
        let Ok(va) = T::new(sa) else { return Ok(Verdict::Skip("first value rejected")) };
        let oa: B = match B::new(sa.to_string()) {
            Ok(o) => o,
            Err(_) => return Ok(Verdict::Skip("owned constructor disagrees (L03)")),
        };
        macro_rules! eq {
            ($name:expr, $x:expr, $y:expr, $want:expr) => {{
                let (e1, n1, e2, n2) = ($x == $y, $x != $y, $y == $x, $y != $x);
                ensure!(
                    e1 == $want && n1 != $want && e2 == $want && n2 != $want,
                    "{n}, {}: {:?} and {:?}: ==/!= give {e1}/{n1}, reversed {e2}/{n2}; the texts are {} up to letter case",
                    $name,
                    show(a),
                    show(b),
                    if $want { "the same valid text" } else { "not the same valid text" }
                );
            }};
        }
        let vb = T::new(b).ok();
        if let Some(vb) = vb {
            let ob: B = vb.to_owned();
            eq!("borrowed with borrowed", *va, *vb, same);
            eq!("reference with reference", va, vb, same);
            eq!("owned with owned", oa, ob, same);
            eq!("owned with borrowed", oa, *vb, same);
            eq!("owned with reference", oa, vb, same);
            eq!("borrowed with owned", *va, ob, same);
            eq!("reference with owned", va, ob, same);
        }
        let want = same && vb.is_some();
        let bytes: Vec<u8> = b.to_vec();
        eq!("borrowed with [u8]", *va, *b, want);
        eq!("borrowed with &[u8]", *va, b, want);
        eq!("borrowed with Vec<u8>", *va, bytes, want);
        eq!("owned with [u8]", oa, *b, want);
        eq!("owned with &[u8]", oa, b, want);
        eq!("owned with Vec<u8>", oa, bytes, want);
        if let Some(t) = text_b {
            let s = t.to_string();
            eq!("borrowed with str", *va, *t, want);
            eq!("borrowed with &str", *va, t, want);
            eq!("borrowed with String", *va, s, want);
            eq!("owned with str", oa, *t, want);
            eq!("owned with &str", oa, t, want);
            eq!("owned with String", oa, s, want);
        }
        // reflexive
        eq!("value with itself", *va, *va, true);
        eq!("owned value with itself", oa, oa, true);
        Ok(match (vb.is_some(), same) {
            (true, true) => pass(a != b, if a == b { "identical" } else { "equal, spelled differently" }),
            (true, false) if a.len() == b.len() => pass(true, "different values of one length"),
            (true, false) => pass(true, "values of different lengths"),
            (false, _) => pass(!b.is_empty(), "compared with invalid text"),
        })
    })
}

/// The part of `a` that reads like `b`.
pub fn within<'a>(a: &'a [u8], b: &[u8]) -> Option<&'a [u8]> {
    if b.is_empty() || b.len() > a.len() {
        return None;
    }
    if a.starts_with(b) {
        return Some(&a[..b.len()]);
    }
    if a.ends_with(b) {
        return Some(&a[a.len() - b.len()..]);
    }
    None
}

/// The kinds of two tags, and whether they ought to be the same.
fn kinds_of(c: &Case) -> Option<(Kind, Kind, bool)> {
    let k = |s: &[u8]| LangTag::from_bytes(s).ok().map(|t| t.kind());
    let r = |s: &[u8]| rfc::kind(s).map(|k| std::mem::discriminant(&k));
    Some((k(&c.a)?, k(&c.b)?, r(&c.a) == r(&c.b)))
}

/// Tags of each kind, in pairs.
fn kind_pairs(a: &EnumArgs, sink: &mut Sink) {
    let tags = ["en", "x-a", "i-ami", "de-Latn-x-y", "X-Y", "zh-min-nan"];
    for (i, x) in tags.iter().enumerate() {
        for y in tags {
            if a.mine(i) && !sink(Case::new(*x).b(y).sub("kind")) {
                return;
            }
        }
    }
}

fn gf(s: &[u8]) -> Option<GrandfatheredLangTag> {
    GrandfatheredLangTag::new(s).ok()
}

fn check_l11(c: &Case) -> Verdict {
    match c.sub.as_str() {
        "singleton" => (|| {
            let Ok(s) = Singleton::new(c.a[0]) else { return Ok(Verdict::Skip("not a singleton")) };
            let n = c.n as u32;
            let (me, fold) = (c.a[0] as char, |x: u32| if (65..=90).contains(&x) { x + 32 } else { x });
            let want = fold(c.a[0] as u32) == fold(n);
            if n < 256 {
                let b = n as u8;
                ensure!((s == b) == want && (s != b) != want, "singleton {me:?} == byte {b:#x} is {}", s == b);
                if let Ok(t) = Singleton::new(b) {
                    ensure!(
                        (s == t) == want && (t == s) == want && (s != t) != want,
                        "singletons {me:?} == {:?} is {}",
                        b as char,
                        s == t
                    );
                }
            }
            if let Some(ch) = char::from_u32(n) {
                ensure!((s == ch) == want && (s != ch) != want, "singleton {me:?} == char {ch:?} is {}", s == ch);
            }
            Ok(pass(true, "singleton"))
        })()
        .into(),
        "kind" => (|| {
            let Some((x, y, same)) = kinds_of(c) else { return Ok(Verdict::Skip("no tags (L01)")) };
            ensure!((x == y) == same && (x != y) != same, "kinds {x:?} of {} and {y:?} of {}: == is {}", show(&c.a), show(&c.b), x == y);
            Ok(pass(true, "kind"))
        })()
        .into(),
        "grandfathered" => (|| {
            let (Some(x), Some(y)) = (gf(&c.a), gf(&c.b)) else { return Ok(Verdict::Skip("not recognised (L10)")) };
            let want = rfc::grandfathered(&c.a) == rfc::grandfathered(&c.b);
            ensure!((x == y) == want && (x != y) != want, "grandfathered {} == {} is {}", show(&c.a), show(&c.b), x == y);
            Ok(pass(true, "grandfathered"))
        })()
        .into(),
        _ => match l11_type(c.prod(), &c.a, &c.b) {
            Ok(v) => {
                // the same two values, where one begins inside the other
                let r = [within(&c.a, &c.b).map(|b| (&c.a[..], b)), within(&c.b, &c.a).map(|a| (a, &c.b[..]))]
                    .into_iter()
                    .flatten()
                    .try_for_each(|(a, b)| l11_type(c.prod(), a, b).map(drop));
                match r {
                    Ok(()) => v,
                    Err(m) => Verdict::Fail(format!("{m} (in the same memory)")),
                }
            }
            Err(m) => Verdict::Fail(m),
        },
    }
}

fn campaigns_pairs(t: bool) -> Vec<Campaign> {
    let k = if t { 10 } else { 1 };
    vec![
        Campaign { name: "singletons with every byte and look-alike characters", r#gen: Gen::Enum(singletons) },
        Campaign { name: "pairs of grandfathered tags", r#gen: Gen::Enum(grandfathered_pairs) },
        Campaign { name: "pairs of kinds", r#gen: Gen::Enum(kind_pairs) },
        Campaign { name: "values one position, one letter case or one prefix apart, every type", r#gen: Gen::Enum(neighbours_of_stock) },
        Campaign { name: "long values differing at one position", r#gen: Gen::Enum(long_pairs) },
        Campaign { name: "random related pairs", r#gen: Gen::Random(any_pair, 1_800_000 * k) },
    ]
}



pub static L11: Property = Property {
    hang: 60,
    id: "L11",
    rule: "Cases are (type, text, text) pairs: a stock per type against every single-position substitution, prefix and re-spelling, long texts differing at one position, random related pairs, all singleton and grandfathered pairs. Non-trivial: the second operand is non-empty and not byte-identical to the first; distinct by (type, both texts).",
    check: check_l11,
    campaigns: campaigns_pairs,
    assumptions: &["ASCII case folding as defined by RFC 5646 section 2.1.1"],
};

// ------------------------------------------------------------------- L12

/// Records every call made on it.
#[derive(Default, PartialEq, Eq, Clone)]
struct Log(Vec<u8>);
impl Hasher for Log {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.push(b'w');
        self.0.extend((b.len() as u32).to_le_bytes());
        self.0.extend_from_slice(b);
    }
    fn write_u8(&mut self, i: u8) {
        self.0.extend([b'1', i]);
    }
    fn write_u16(&mut self, i: u16) {
        self.0.push(b'2');
        self.0.extend(i.to_le_bytes());
    }
    fn write_u32(&mut self, i: u32) {
        self.0.push(b'4');
        self.0.extend(i.to_le_bytes());
    }
    fn write_u64(&mut self, i: u64) {
        self.0.push(b'8');
        self.0.extend(i.to_le_bytes());
    }
    fn write_u128(&mut self, i: u128) {
        self.0.push(b'x');
        self.0.extend(i.to_le_bytes());
    }
    fn write_usize(&mut self, i: usize) {
        self.0.push(b'z');
        self.0.extend(i.to_le_bytes());
    }
}

fn log<T: Hash + ?Sized>(v: &T) -> Vec<u8> {
    let mut l = Log::default();
    v.hash(&mut l);
    l.0
}
fn sip<T: Hash + ?Sized>(v: &T) -> u64 {
    let mut h = DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}
fn fnv<T: Hash + ?Sized>(v: &T) -> u64 {
    let mut h = Fnv(0);
    v.hash(&mut h);
    h.finish()
}

fn l12_type(p: Prod, a: &[u8], b: &[u8]) -> Result<Verdict, String> {
    let n = type_name(p);
    per_type!(p, T, B, {
        let Ok(sa) = std::str::from_utf8(a) else { return Ok(Verdict::Skip("not text")) };
        let Ok(va) = T::new(sa) else { return Ok(Verdict::Skip("first value rejected")) };
        let oa: B = va.to_owned();
        let base = log(va);
        macro_rules! same {
            ($name:expr, $t:expr, $x:expr, $y:expr) => {
                ensure!($x == $y, "{n}: {} hashes {:?} and {:?} differently, though they compare equal", $name, show(a), show($t));
            };
        }
        same!("owned copy (recording hasher)", a, base, log(&oa));
        same!("reference (recording hasher)", a, base, log(&va));
        same!("owned copy (default hasher)", a, sip(va), sip(&oa));
        same!("owned copy (FNV)", a, fnv(va), fnv(&oa));
        let Ok(vb) = T::new(b) else { return Ok(pass(false, "second text invalid")) };
        if !(va == vb) {
            return Ok(pass(false, "unequal"));
        }
        let ob: B = vb.to_owned();
        same!("borrowed (recording hasher)", b, base, log(vb));
        same!("owned (recording hasher)", b, base, log(&ob));
        same!("borrowed (default hasher)", b, sip(va), sip(vb));
        same!("owned (default hasher)", b, sip(va), sip(&ob));
        same!("borrowed (FNV)", b, fnv(va), fnv(vb));
        same!("sequence (recording hasher)", b, log(&[&oa, &ob][..]), log(&[&ob, &oa][..]));
        same!("sequence of owned values (recording hasher)", b, log(&[oa.clone(), ob.clone()][..]), log(&[ob, oa][..]));
        Ok(pass(a != b, if a == b { "identical" } else { "equal, spelled differently" }))
    })
}

fn check_l12(c: &Case) -> Verdict {
    match c.sub.as_str() {
        "singleton" => (|| {
            let (Ok(s), Ok(t)) = (Singleton::new(c.a[0]), Singleton::new((c.n & 0xff) as u8)) else {
                return Ok(Verdict::Skip("not a singleton"));
            };
            let boxed = Box::new(t);
            for t in [&t, &*boxed] {
                if s != *t {
                    continue;
                }
                ensure!(
                    log(&s) == log(t) && sip(&s) == sip(t) && log(&[s, s, s][..]) == log(&[*t, s, *t][..]),
                    "equal singletons {:?} and {:?} hash differently",
                    s.unwrap() as char,
                    t.unwrap() as char
                );
            }
            Ok(pass(s == t, "singleton"))
        })()
        .into(),
        "kind" => (|| {
            let Some((x, y, _)) = kinds_of(c) else { return Ok(Verdict::Skip("no tags (L01)")) };
            let boxed = Box::new(y);
            for y in [&y, &*boxed] {
                ensure!(x != *y || log(&x) == log(y) && sip(&x) == sip(y) && log(&[x, x][..]) == log(&[*y, x][..]), "equal kinds {x:?} of {} and {} hash differently", show(&c.a), show(&c.b));
            }
            Ok(pass(x == y, "kind"))
        })()
        .into(),
        "grandfathered" => (|| {
            let (Some(x), Some(y)) = (gf(&c.a), gf(&c.b)) else { return Ok(Verdict::Skip("not recognised (L10)")) };
            // the values, copies of them elsewhere and those of the public list
            let boxed = Box::new(y);
            for y in langtag::GRANDFATHERED.iter().chain([&y, &*boxed]) {
                if x == *y {
                    ensure!(log(&x) == log(y) && sip(&x) == sip(y) && log(&[x, x][..]) == log(&[*y, x][..]), "equal grandfathered values hash differently: {}", show(&c.a));
                }
            }
            Ok(pass(x == y, "grandfathered"))
        })()
        .into(),
        _ => (|| {
            let v = l12_type(c.prod(), &c.a, &c.b)?;
            if let Some(b) = within(&c.a, &c.b) {
                l12_type(c.prod(), &c.a, b)?;
            }
            Ok(v)
        })()
        .into(),
    }
}

fn respelled() -> proptest::strategy::BoxedStrategy<Case> {
    use crate::r#gen::*;
    use proptest::prelude::*;
    prod()
        .prop_flat_map(|p| (valid(p), any::<u64>()).prop_map(move |(a, m)| Case::new(a.clone()).b(recase(&a, m)).ty(p)))
        .boxed()
}

/// Every way of re-spelling a few positions of long values, and whole flips.
fn long_respelled(a: &EnumArgs, sink: &mut Sink) {
    super::construct::long_values(a, &mut |c: Case| {
        let up = c.a.to_ascii_uppercase();
        let mut alt = c.a.to_vec();
        if let Some(i) = alt.iter().rposition(|b| b.is_ascii_alphabetic()) {
            alt[i] ^= 0x20;
        }
        sink(Case { b: up.into(), ..c.clone() }) && sink(Case { b: alt.into(), ..c })
    });
}

fn campaigns_l12(t: bool) -> Vec<Campaign> {
    let k = if t { 10 } else { 1 };
    vec![
        Campaign { name: "singletons", r#gen: Gen::Enum(singletons) },
        Campaign { name: "pairs of grandfathered tags", r#gen: Gen::Enum(grandfathered_pairs) },
        Campaign { name: "pairs of kinds", r#gen: Gen::Enum(kind_pairs) },
        Campaign { name: "every single-letter re-spelling and near value of a stock per type", r#gen: Gen::Enum(neighbours_of_stock) },
        Campaign { name: "long values re-spelled", r#gen: Gen::Enum(long_respelled) },
        Campaign { name: "random value and random re-spelling", r#gen: Gen::Random(respelled, 4_000_000 * k) },
    ]
}

pub static L12: Property = Property {
    hang: 60,
    id: "L12",
    rule: "(type, text, text) pairs as for L11, weighted to re-spellings; for every pair the crate calls equal, the calls a recording hasher receives are compared across borrowed/owned/reference forms, and DefaultHasher and FNV values as well. Non-trivial: the texts differ and the values compare equal; distinct by (type, both texts).",
    check: check_l12,
    campaigns: campaigns_l12,
    assumptions: &["equality is the crate's own (its correctness is L11)", "a hasher sees the stable Hasher methods only"],
};

// ------------------------------------------------------------------- L13

fn first_difference(a: &[u8], b: &[u8]) -> Option<Ordering> {
    let (x, y) = (rfc::fold(a), rfc::fold(b));
    x.iter().zip(&y).find(|(p, q)| p != q).map(|(p, q)| p.cmp(q))
}

/// The laws for one ordered pair; the borrowed comparison.
fn pair_laws<T: Ord + ?Sized>(n: &str, x: &T, y: &T, a: &[u8], b: &[u8]) -> Result<Ordering, String> {
    let o = x.cmp(y);
    let r = y.cmp(x);
    ensure!(r == o.reverse(), "{n}: cmp({:?}, {:?}) = {o:?} but reversed {r:?}", show(a), show(b));
    ensure!(
        (o == Ordering::Equal) == (x == y),
        "{n}: cmp({:?}, {:?}) = {o:?} but == is {}",
        show(a),
        show(b),
        x == y
    );
    ops(n, "borrowed", Some(o), x, y, a, b)?;
    Ok(o)
}

/// The provided methods of `Ord`, for the small types.
fn chosen<T: Ord + Copy>(n: &str, x: T, y: T, a: &[u8], b: &[u8]) -> Result<(), String> {
    let o = x.cmp(&y);
    let (lo, hi) = if o == Ordering::Greater { (y, x) } else { (x, y) };
    ensure!(x.max(y) == hi && y.max(x) == hi, "{n}: max of {:?} and {:?} is not the greater one", show(a), show(b));
    ensure!(x.min(y) == lo && y.min(x) == lo, "{n}: min of {:?} and {:?} is not the lesser one", show(a), show(b));
    for v in [x, y] {
        ensure!(v.clamp(lo, hi) == v, "{n}: clamping {:?} or {:?} between the two changes it", show(a), show(b));
        ensure!(v.clamp(lo, lo) == lo && v.clamp(hi, hi) == hi, "{n}: clamp() with {:?} and {:?} misses the bound", show(a), show(b));
    }
    Ok(())
}

/// partial_cmp and the four operators, against the expected order.
fn ops<X: PartialOrd<Y> + ?Sized, Y: ?Sized>(
    n: &str,
    what: &str,
    want: Option<Ordering>,
    x: &X,
    y: &Y,
    a: &[u8],
    b: &[u8],
) -> Result<(), String> {
    use Ordering::*;
    let pc = x.partial_cmp(y);
    ensure!(pc == want, "{n}, {what}: partial_cmp({:?}, {:?}) = {pc:?}, expected {want:?}", show(a), show(b));
    let got = (x < y, x <= y, x > y, x >= y);
    let exp = (
        want == Some(Less),
        matches!(want, Some(Less | Equal)),
        want == Some(Greater),
        matches!(want, Some(Greater | Equal)),
    );
    ensure!(
        got == exp,
        "{n}, {what}: (<, <=, >, >=) of {:?} and {:?} are {got:?} but the order is {want:?}",
        show(a),
        show(b)
    );
    Ok(())
}

fn l13_type(p: Prod, a: &[u8], b: &[u8], c: &[u8]) -> Result<Verdict, String> {
    let n = type_name(p);
    per_type!(p, T, B, {
        let Ok(sa) = std::str::from_utf8(a) else { return Ok(Verdict::Skip("not text")) };
        let Ok(va) = T::new(sa) else { return Ok(Verdict::Skip("first value rejected")) };
        let oa: B = va.to_owned();
        let mut orders = [None; 3];
        for (k, t) in [b, c].into_iter().enumerate() {
            let vt = T::new(t).ok();
            let want = match vt {
                Some(vt) => {
                    let o = pair_laws(n, va, vt, a, t)?;
                    if let Some(d) = first_difference(a, t) {
                        ensure!(
                            o == d,
                            "{n}: cmp({:?}, {:?}) = {o:?}, but the first differing character says {d:?}",
                            show(a),
                            show(t)
                        );
                    }
                    let ot: B = vt.to_owned();
                    let oo = oa.cmp(&ot);
                    ensure!(oo == o, "{n}: owned cmp({:?}, {:?}) = {oo:?}, borrowed {o:?}", show(a), show(t));
                    ops(n, "owned with owned", Some(o), &oa, &ot, a, t)?;
                    ops(n, "owned with borrowed", Some(o), &oa, vt, a, t)?;
                    ops(n, "owned with reference", Some(o), &oa, &vt, a, t)?;
                    ops(n, "borrowed with owned", Some(o), va, &ot, a, t)?;
                    ops(n, "reference with owned", Some(o), &va, &ot, a, t)?;
                    ops(n, "owned, reversed", Some(o.reverse()), &ot, &oa, t, a)?;
                    orders[k] = Some(o);
                    Some(o)
                }
                None => None,
            };
            let rev = want.map(Ordering::reverse);
            let bytes = t.to_vec();
            ops(n, "borrowed with [u8]", want, va, t, a, t)?;
            ops(n, "[u8] with borrowed", rev, t, va, t, a)?;
            ops(n, "borrowed with &[u8]", want, va, &t, a, t)?;
            ops(n, "&[u8] with borrowed", rev, &t, va, t, a)?;
            ops(n, "borrowed with Vec<u8>", want, va, &bytes, a, t)?;
            ops(n, "Vec<u8> with borrowed", rev, &bytes, va, t, a)?;
            ops(n, "owned with [u8]", want, &oa, t, a, t)?;
            ops(n, "[u8] with owned", rev, t, &oa, t, a)?;
            ops(n, "owned with &[u8]", want, &oa, &t, a, t)?;
            ops(n, "&[u8] with owned", rev, &t, &oa, t, a)?;
            ops(n, "owned with Vec<u8>", want, &oa, &bytes, a, t)?;
            ops(n, "Vec<u8> with owned", rev, &bytes, &oa, t, a)?;
            if let Ok(s) = std::str::from_utf8(t) {
                let owned = s.to_string();
                ops(n, "borrowed with str", want, va, s, a, t)?;
                ops(n, "str with borrowed", rev, s, va, t, a)?;
                ops(n, "borrowed with &str", want, va, &s, a, t)?;
                ops(n, "&str with borrowed", rev, &s, va, t, a)?;
                ops(n, "borrowed with String", want, va, &owned, a, t)?;
                ops(n, "String with borrowed", rev, &owned, va, t, a)?;
                ops(n, "owned with str", want, &oa, s, a, t)?;
                ops(n, "str with owned", rev, s, &oa, t, a)?;
                ops(n, "owned with &str", want, &oa, &s, a, t)?;
                ops(n, "&str with owned", rev, &s, &oa, t, a)?;
                ops(n, "owned with String", want, &oa, &owned, a, t)?;
                ops(n, "String with owned", rev, &owned, &oa, t, a)?;
            }
        }
        if let (Ok(vb), Ok(vc)) = (T::new(b), T::new(c)) {
            let bc = pair_laws(n, vb, vc, b, c)?;
            transitive(n, orders[0].unwrap(), bc, orders[1].unwrap(), a, b, c)?;
            let distinct = orders[0] != Some(Ordering::Equal) && bc != Ordering::Equal && orders[1] != Some(Ordering::Equal);
            return Ok(pass(true, if distinct { "three distinct values" } else { "three values, some equal" }));
        }
        Ok(match orders {
            [None, None, _] => pass(!b.is_empty(), "compared with invalid text"),
            _ => pass(true, "two values"),
        })
    })
}

/// ab, bc, ac: the orders of a triple.
fn transitive(n: &str, ab: Ordering, bc: Ordering, ac: Ordering, a: &[u8], b: &[u8], c: &[u8]) -> Result<(), String> {
    use Ordering::*;
    let ok = match (ab, bc) {
        (Equal, o) => ac == o,
        (o, Equal) => ac == o,
        (Less, Less) => ac == Less,
        (Greater, Greater) => ac == Greater,
        _ => true,
    };
    ensure!(
        ok,
        "{n}: not transitive: {:?} vs {:?} is {ab:?}, {:?} vs {:?} is {bc:?}, but {:?} vs {:?} is {ac:?}",
        show(a),
        show(b),
        show(b),
        show(c),
        show(a),
        show(c)
    );
    Ok(())
}

fn check_l13(c: &Case) -> Verdict {
    match c.sub.as_str() {
        "singleton" => (|| {
            let (Ok(s), Ok(t)) = (Singleton::new(c.a[0]), Singleton::new((c.n & 0xff) as u8)) else {
                return Ok(Verdict::Skip("not a singleton"));
            };
            let (x, y) = ([s.unwrap()], [t.unwrap()]);
            let o = pair_laws("Singleton", &s, &t, &x, &y)?;
            chosen("Singleton", s, t, &x, &y)?;
            let d = rfc::fold(&x).cmp(&rfc::fold(&y));
            ensure!(o == d, "Singleton: cmp({:?}, {:?}) = {o:?}, expected {d:?}", x[0] as char, y[0] as char);
            for u in (0..128u8).filter_map(|b| Singleton::new(b).ok()) {
                transitive("Singleton", o, t.cmp(&u), s.cmp(&u), &x, &y, &[u.unwrap()])?;
            }
            Ok(pass(true, "singleton"))
        })()
        .into(),
        "kind" => (|| {
            let Some((x, y, _)) = kinds_of(c) else { return Ok(Verdict::Skip("no tags (L01)")) };
            let o = pair_laws("Kind", &x, &y, &c.a, &c.b)?;
            chosen("Kind", x, y, &c.a, &c.b)?;
            for t in ["en", "x-a", "i-ami"] {
                if let Ok(z) = LangTag::new(t).map(|t| t.kind()) {
                    transitive("Kind", o, y.cmp(&z), x.cmp(&z), &c.a, &c.b, t.as_bytes())?;
                }
            }
            Ok(pass(true, "kind"))
        })()
        .into(),
        "grandfathered" => (|| {
            let (Some(x), Some(y)) = (gf(&c.a), gf(&c.b)) else { return Ok(Verdict::Skip("not recognised (L10)")) };
            let o = pair_laws("GrandfatheredLangTag", &x, &y, &c.a, &c.b)?;
            chosen("GrandfatheredLangTag", x, y, &c.a, &c.b)?;
            for (t, _) in rfc::GRANDFATHERED {
                if let Some(z) = gf(t.as_bytes()) {
                    transitive("GrandfatheredLangTag", o, y.cmp(&z), x.cmp(&z), &c.a, &c.b, t.as_bytes())?;
                }
            }
            Ok(pass(true, "grandfathered"))
        })()
        .into(),
        _ => (|| {
            let v = l13_type(c.prod(), &c.a, &c.b, &c.c)?;
            if let Some(b) = within(&c.a, &c.b) {
                l13_type(c.prod(), &c.a, b, within(b, &c.c).unwrap_or(&c.c))?;
            }
            if let Some(a) = within(&c.b, &c.a) {
                l13_type(c.prod(), a, &c.b, &c.c)?;
            }
            Ok(v)
        })()
        .into(),
    }
}

fn campaigns_l13(t: bool) -> Vec<Campaign> {
    let k = if t { 10 } else { 1 };
    vec![
        Campaign { name: "singletons", r#gen: Gen::Enum(singletons) },
        Campaign { name: "pairs of grandfathered tags", r#gen: Gen::Enum(grandfathered_pairs) },
        Campaign { name: "pairs of kinds", r#gen: Gen::Enum(kind_pairs) },
        Campaign { name: "values one position, one letter case or one prefix apart, every type", r#gen: Gen::Enum(neighbours_of_stock) },
        Campaign { name: "long values differing at one position", r#gen: Gen::Enum(long_pairs) },
        Campaign { name: "random related triples", r#gen: Gen::Random(any_triple, 1_000_000 * k) },
    ]
}

pub static L13: Property = Property {
    hang: 60,
    id: "L13",
    rule: "(type, text, text, text) triples of related values (re-spellings, one-position changes, prefixes, splices, unrelated values, invalid text), all singleton and grandfathered triples, long texts differing at one position. Checked: antisymmetry, totality, transitivity, Equal iff ==, partial_cmp and the four operators over every operand combination, and the first-difference rule. Non-trivial: at least one comparison of two accepted values, or with non-empty invalid text; distinct by content.",
    check: check_l13,
    campaigns: campaigns_l13,
    assumptions: &["which of two texts comes first when one is a prefix of the other is left to the crate (only the order axioms are required of it)"],
};
