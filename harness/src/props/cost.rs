//! L22: parsing and reading take linear time, bounded stack and no heap memory.

use crate::case::Case;
use crate::engine::*;
use crate::per_type;
use crate::rfc::{self, Prod};
use crate::types::*;
use langtag::*;
use proptest::collection::vec;
use proptest::prelude::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::hash::Hash;
use std::hint::black_box;

thread_local! {
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
}

/// The system allocator, counting this thread's requests.
pub struct Counting;

fn count() {
    let _ = ALLOCS.try_with(|a| a.set(a.get() + 1));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count();
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        count();
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        count();
        unsafe { System.realloc(p, l, n) }
    }
}

#[global_allocator]
static ALLOCATOR: Counting = Counting;

#[repr(C)]
struct Timespec {
    s: i64,
    ns: i64,
}
unsafe extern "C" {
    fn clock_gettime(id: i32, t: *mut Timespec) -> i32;
}

/// Processor time of this thread: not affected by other processes having the cores.
fn cpu() -> u64 {
    let mut t = Timespec { s: 0, ns: 0 };
    // 3 = CLOCK_THREAD_CPUTIME_ID
    if unsafe { clock_gettime(3, &mut t) } != 0 {
        harness_error("no thread clock");
    }
    t.s as u64 * 1_000_000_000 + t.ns as u64
}

/// Nanoseconds allowed: forty times what one pass over the text takes in a debug
/// build (the slowest single operation makes four), and for the longer lengths used here one to
/// three orders of magnitude below what a pass per subtag takes.
const PER_BYTE: u64 = 1000;
const FIXED: u64 = 5_000_000;
/// Stack of the measured thread; a frame per subtag would need megabytes.
const SMALL_STACK: usize = 256 << 10;

struct Meter {
    budget: u64,
    what: Prod,
    worst: u64,
}

impl Meter {
    fn run<R>(&mut self, op: &str, mut f: impl FnMut() -> R) -> Result<(), String> {
        let mut best = u64::MAX;
        for i in 0..6 {
            let a = ALLOCS.with(|a| a.get());
            let t = cpu();
            let r = black_box(f());
            let t = cpu() - t;
            let a = ALLOCS.with(|x| x.get()) - a;
            drop(r);
            if a != 0 {
                return Err(format!("{op} on {:?} allocates ({a} requests)", self.what));
            }
            best = best.min(t);
            // far beyond: nothing of the machine's doing
            if best <= self.budget || i > 0 && best > self.budget.saturating_mul(10) {
                break;
            }
        }
        self.worst = self.worst.max(best);
        if best > self.budget {
            return Err(format!(
                "{op} on {:?} takes {} ms of processor time on a text where linear work needs less than {} ms",
                self.what,
                best / 1_000_000,
                self.budget / 1_000_000
            ));
        }
        Ok(())
    }
}

struct Sum(u64);
impl std::hash::Hasher for Sum {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = self.0.wrapping_mul(31) + *x as u64;
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.0 = self.0.wrapping_mul(31) ^ x as u64;
    }
}

fn len<'a>(it: impl Iterator<Item = &'a [u8]>) -> usize {
    it.map(|e| e.len() + 1).sum()
}

fn variants(m: &mut Meter, v: &Variants) -> Result<(), String> {
    m.run("Variants::iter", || len(v.iter().map(|e| e.as_bytes())))?;
    m.run("Variants::iter, reversed", || len(v.iter().rev().map(|e| e.as_bytes())))?;
    m.run("Variants::iter, from both ends", || {
        let mut it = v.iter();
        let mut n = 0;
        while let (Some(a), Some(b)) = (it.next(), it.next_back()) {
            n += a.as_bytes().len() + b.as_bytes().len();
        }
        n
    })?;
    m.run("Variants::first", || v.first().map(|e| e.as_bytes().len()))?;
    m.run("Variants::last", || v.last().map(|e| e.as_bytes().len()))
}

fn extension(m: &mut Meter, e: &Extension) -> Result<(), String> {
    m.run("Extension::singleton", || e.singleton())?;
    m.run("Extension::iter", || len(e.iter().map(|e| e.as_bytes())))
}

fn extensions(m: &mut Meter, x: &Extensions) -> Result<(), String> {
    m.run("Extensions::iter", || len(x.iter().map(|e| e.as_bytes())))?;
    m.run("Extensions::iter, with every subtag", || {
        x.iter().map(|e| len(e.iter().map(|s| s.as_bytes())) + e.singleton().unwrap() as usize).sum::<usize>()
    })?;
    for b in *b"a0yzMqkA9" {
        let Ok(s) = Singleton::new(b) else { continue };
        m.run("Extensions::get", || x.get(s).map(|e| e.as_bytes().len()))?;
        m.run("Extensions::iter_extension", || len(x.iter_extension(s).map(|e| e.as_bytes())))?;
    }
    if let Some(e) = x.iter().next() {
        extension(m, e)?;
    }
    Ok(())
}

fn language(m: &mut Meter, l: &Language) -> Result<(), String> {
    m.run("Language::primary", || l.primary().as_bytes().len())?;
    m.run("Language::extension", || l.extension().map(|e| e.as_bytes().len()))?;
    m.run("Language::extension_subtags", || len(l.extension_subtags().map(|e| e.as_bytes())))
}

fn private(m: &mut Meter, p: &PrivateUse) -> Result<(), String> {
    m.run("PrivateUse::iter", || len(p.iter().map(|e| e.as_bytes())))
}

fn normal(m: &mut Meter, t: &NormalLangTag) -> Result<(), String> {
    m.run("NormalLangTag::language", || t.language().as_bytes().len())?;
    m.run("NormalLangTag::script", || t.script().map(|e| e.as_bytes().len()))?;
    m.run("NormalLangTag::region", || t.region().map(|e| e.as_bytes().len()))?;
    m.run("NormalLangTag::variants", || t.variants().as_bytes().len())?;
    m.run("NormalLangTag::extensions", || t.extensions().as_bytes().len())?;
    m.run("NormalLangTag::private_use", || t.private_use().map(|e| e.as_bytes().len()))?;
    m.run("NormalLangTag::private_use_subtags", || len(t.private_use_subtags().map(|e| e.as_bytes())))?;
    language(m, t.language())?;
    variants(m, t.variants())?;
    extensions(m, t.extensions())?;
    t.private_use().map_or(Ok(()), |p| private(m, p))
}

fn tag(m: &mut Meter, t: &LangTag) -> Result<(), String> {
    m.run("LangTag::kind", || t.kind())?;
    m.run("LangTag::is_*", || (t.is_normal(), t.is_private_use(), t.is_grandfathered()))?;
    m.run("LangTag::as_*", || (t.as_normal().is_some(), t.as_private_use().is_some(), t.as_grandfathered().is_some()))?;
    m.run("LangTag::as_typed", || (t.as_typed().kind(), t.as_typed().language().map(|l| l.as_bytes().len())))?;
    m.run("LangTag::language", || t.language().map(|e| e.as_bytes().len()))?;
    m.run("LangTag::script", || t.script().map(|e| e.as_bytes().len()))?;
    m.run("LangTag::region", || t.region().map(|e| e.as_bytes().len()))?;
    m.run("LangTag::variants", || len(t.variants().iter().map(|e| e.as_bytes())))?;
    m.run("LangTag::extensions", || len(t.extensions().iter().map(|e| e.as_bytes())))?;
    m.run("LangTag::private_use", || t.private_use().map(|e| e.as_bytes().len()))?;
    m.run("LangTag::private_use_subtags", || len(t.private_use_subtags().map(|e| e.as_bytes())))?;
    if let Some(n) = t.as_normal() {
        normal(m, n)?;
    }
    t.as_private_use().map_or(Ok(()), |p| private(m, p))
}

fn measure(p: Prod, s: &[u8], m: &mut Meter) -> Result<bool, String> {
    let accepted = per_type!(p, T, B, {
        m.run("new", || T::new(s).is_ok())?;
        m.run("from_bytes", || T::from_bytes(s).is_ok())?;
        m.run("validate_bytes", || T::validate_bytes(s))?;
        let text = std::str::from_utf8(s).ok();
        if let Some(t) = text {
            m.run("from_str", || T::from_str(t).is_ok())?;
            m.run("TryFrom<&str>", || <&T>::try_from(t).is_ok())?;
        }
        m.run("GrandfatheredLangTag::new", || GrandfatheredLangTag::new(s).is_ok())?;
        match T::new(s) {
            Ok(v) => {
                let w: Vec<u8> = s.iter().map(|b| if b.is_ascii_alphabetic() { b ^ 0x20 } else { *b }).collect();
                let o = v.to_owned();
                if let Ok(w) = T::new(&w[..]) {
                    m.run("==", || v == w)?;
                    m.run("cmp", || v.cmp(w))?;
                    m.run("partial_cmp", || v.partial_cmp(w))?;
                    m.run("== owned", || *w == *o)?;
                    m.run("owned cmp", || AsRef::<T>::as_ref(&o).cmp(w))?;
                }
                m.run("== bytes", || *v == w[..])?;
                m.run("partial_cmp bytes", || v.partial_cmp(&w[..]))?;
                if let Ok(w) = std::str::from_utf8(&w) {
                    m.run("== str", || *v == *w)?;
                    m.run("partial_cmp str", || v.partial_cmp(w))?;
                }
                m.run("hash", || {
                    let mut h = Sum(0);
                    v.hash(&mut h);
                    h.0
                })?;
                m.run("as_str", || v.as_str().len())?;
                true
            }
            Err(_) => false,
        }
    });
    if accepted {
        match p {
            Prod::LanguageTag => LangTag::new(s).map_or(Ok(()), |t| tag(m, t))?,
            Prod::Langtag => NormalLangTag::new(s).map_or(Ok(()), |t| normal(m, t))?,
            Prod::Privateuse => PrivateUse::new(s).map_or(Ok(()), |t| private(m, t))?,
            Prod::Language => Language::new(s).map_or(Ok(()), |t| language(m, t))?,
            Prod::Variants => Variants::new(s).map_or(Ok(()), |t| variants(m, t))?,
            Prod::Extension => Extension::new(s).map_or(Ok(()), |t| extension(m, t))?,
            Prod::Extensions => Extensions::new(s).map_or(Ok(()), |t| extensions(m, t))?,
            _ => {}
        }
    }
    Ok(accepted)
}

/// The text of a case: `a`, then `n` pieces taken round-robin from `items`, then `c`.
fn text(c: &Case) -> Vec<u8> {
    let mut s = c.a.to_vec();
    if !c.items.is_empty() {
        for i in 0..c.n as usize {
            s.extend_from_slice(&c.items[i % c.items.len()]);
        }
    }
    s.extend_from_slice(&c.c);
    s
}

fn check_l22(c: &Case) -> Verdict {
    let s = text(c);
    let p = c.prod();
    let run = || {
        // the clock and the message formatting work without the heap being warm
        let mut m = Meter { budget: FIXED + PER_BYTE * s.len() as u64, what: p, worst: 0 };
        let r = measure(p, &s, &mut m);
        (r, m.worst)
    };
    let guarded = || std::panic::catch_unwind(run).map_err(|_| last_panic());
    let r = if s.len() < 1000 { Ok(guarded()) } else { std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(SMALL_STACK)
            .spawn_scoped(sc, guarded)
            .unwrap_or_else(|e| harness_error(&format!("thread: {e}")))
            .join()
    }) };
    let (r, worst) = match r {
        Ok(Ok(r)) => r,
        Ok(Err(m)) => {
            return panicked(m, c);
        }
        Err(_) => harness_error("measuring thread"),
    };
    if std::env::var_os("LT_COST").is_some() {
        eprintln!("{p:?} {} bytes worst {} us = {} ns/byte {}", s.len(), worst / 1000, worst / s.len().max(1) as u64, show(&s[..s.len().min(30)]));
    }
    match r {
        Ok(acc) => {
            let long = s.len() >= 10_000;
            pass(
                long || acc,
                match (acc, long) {
                    (true, true) => "accepted, long",
                    (false, true) => "rejected, long",
                    (true, false) => "accepted, short",
                    _ => "rejected, short",
                },
            )
        }
        Err(e) => Verdict::Fail(e),
    }
}

/// Repeated pieces for lists of each sort, each starting with its hyphen.
fn pieces(sort: u8) -> BoxedStrategy<Vec<String>> {
    let one = match sort {
        0 => "-[a-zA-Z]{5,8}|-[0-9][a-z0-9]{3}|-[a-z0-9]{5,8}", // variants
        1 => "-[0-9a-wyzA-WYZ]-[a-z0-9]{2,8}",                  // extensions
        2 => "-[0-9a-wy](-[a-z0-9]{2,8}){2,5}",                 // extensions
        3 => "-[a-zA-Z0-9]{2,8}",                               // extension subtags
        4 => "-[a-zA-Z0-9]{1,8}",                               // private-use subtags
        5 => "-x-[a-z]{1,3}|-a-bb|-x",
        6 => "[a-z]{1,5}|-|[0-9]{1,3}|[-a-zA-Z0-9]{1,12}",
        _ => "\\PC{1,4}|[ -~]{1,4}",
    };
    vec(one, 1..5).boxed()
}

/// Texts whose length comes from one repeated section.
fn repeated(bytes: u64) -> BoxedStrategy<Case> {
    let head = prop_oneof![
        3 => "[a-z]{2,3}(-[a-z]{3}){0,3}(-[A-Z][a-z]{3})?(-[A-Z]{2}|-[0-9]{3})?",
        1 => "[a-z]{4,8}(-[A-Z][a-z]{3})?(-[A-Z]{2})?",
        1 => proptest::sample::select(rfc::GRANDFATHERED.iter().map(|g| g.0.to_string()).collect::<Vec<_>>()),
        1 => Just(String::new()),
    ];
    (head, 0u8..8, 0..2u8, any::<bool>(), 0u8..12, 0usize..15, bytes / 4..bytes)
        .prop_flat_map(|(head, sort, private, only, junk, ty, bytes)| {
            pieces(sort).prop_map(move |ps| {
                let mut a = match (sort, only) {
                    // a list on its own
                    (0, true) => "abcde".to_string(),
                    (1 | 2, true) => "a-bc".to_string(),
                    (3, true) => "a".to_string(),
                    (4, true) => "x".to_string(),
                    (3, false) => format!("{head}-a"),
                    (4, false) => format!("{head}-x"),
                    _ => head.clone(),
                };
                if sort < 3 && !only && junk & 4 == 4 {
                    a += "-rozaj";
                }
                let mut c = if private == 1 && sort < 4 && !only { "-x-a-b1".to_string() } else { String::new() };
                match junk {
                    0 => c += "-",
                    1 => c += "-x",
                    2 => c += "-abcdefghi",
                    3 => c += "é",
                    _ => {}
                }
                // the type the text belongs to, mostly
                let p = match (only, sort, ty) {
                    (_, _, 0..3) => rfc::ALL[ty * 5 % 15],
                    (true, 0, _) => Prod::Variants,
                    (true, 1 | 2, _) => Prod::Extensions,
                    (true, 3, 3..9) => Prod::Extension,
                    (true, 3, _) => Prod::Extensions,
                    (true, 4, 3..10) => Prod::Privateuse,
                    (true, 4, _) => Prod::LanguageTag,
                    (_, _, 3..6) => Prod::Langtag,
                    (_, 5.., _) => rfc::ALL[ty],
                    _ => Prod::LanguageTag,
                };
                let unit: usize = ps.iter().map(|p| p.len()).sum::<usize>().max(1);
                Case {
                    items: ps.iter().map(|s| s.as_bytes().into()).collect(),
                    n: (bytes as usize * ps.len() / unit) as u64,
                    c: c.as_str().into(),
                    ..Case::new(a.as_str()).ty(p)
                }
            })
        })
        .boxed()
}

/// Short values: no allocation whatever the content.
fn short() -> BoxedStrategy<Case> {
    use crate::r#gen::*;
    prod().prop_flat_map(|p| prop_oneof![4 => valid(p), 1 => near(p)].prop_map(move |s| Case::new(s).ty(p))).boxed()
}

fn l22_campaigns(th: bool) -> Vec<Campaign> {
    let k = if th { 8 } else { 1 };
    vec![
        Campaign {
            name: "every grandfathered tag and its case variants",
            r#gen: Gen::Enum(|a, sink| {
                for (i, (g, _)) in rfc::GRANDFATHERED.iter().enumerate() {
                    if a.mine(i) {
                        for s in [g.to_string(), g.to_uppercase(), g.to_lowercase(), format!("{g}-x-a"), g[1..].to_string()] {
                            sink(Case::new(s.as_str()).ty(Prod::LanguageTag));
                        }
                    }
                }
            }),
        },
        Campaign { name: "short values of every type", r#gen: Gen::Random(short, 400_000 * k) },
        Campaign { name: "lists of about 100 KB", r#gen: Gen::Random(|| repeated(200_000), 2_000 * k) },
        Campaign { name: "long lists of about 500 KB", r#gen: Gen::Random(|| repeated(1_000_000), 240 * k) },
        Campaign { name: "long lists of about 2 MB", r#gen: Gen::Random(|| repeated(4_000_000), 32 * k) },
    ]
}

pub static L22: Property = Property {
    hang: 60,
    id: "L22",
    rule: "Texts whose length (up to 4 MB) comes from one repeated section (variants, extensions, extension subtags, private-use subtags, unstructured pieces), valid or spoiled at the end, and short values of every type; every parser, comparison, accessor and complete iteration is measured on its own: processor time of the thread against a generous linear budget (best of six), number of heap requests, and a 256 KiB stack. Non-trivial: accepted, or at least 10,000 bytes long; distinct by content.",
    check: check_l22,
    campaigns: l22_campaigns,
    assumptions: &["processor time of a thread is not inflated more than tenfold by load", "5 ms + 1 µs per byte is far above linear work and, at these lengths, far below quadratic work"],
};
