//! Second, independent reference: RFC 5646's ABNF compiled to minimal DFAs, and
//! conformance-suite generation (W-method) from them.

use crate::rfc::Prod;
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::sync::OnceLock;

/// RFC 5646 section 2.1, with the lists that the crate has types for named.
pub const ABNF: &str = r#"
Language-Tag = langtag / privateuse / grandfathered
langtag = language ["-" script] ["-" region] *("-" variant) *("-" extension) ["-" privateuse]
language = 2*3ALPHA ["-" extlang] / 4ALPHA / 5*8ALPHA
primary = 2*3ALPHA / 4ALPHA / 5*8ALPHA
extlang = 3ALPHA *2("-" 3ALPHA)
extlang-tag = 3ALPHA
script = 4ALPHA
region = 2ALPHA / 3DIGIT
variant = 5*8alphanum / (DIGIT 3alphanum)
variants = [ variant *("-" variant) ]
extension = singleton 1*("-" (2*8alphanum))
extension-subtag = 2*8alphanum
extensions = [ extension *("-" extension) ]
singleton = DIGIT / %x41-57 / %x59-5A / %x61-77 / %x79-7A
privateuse = "x" 1*("-" (1*8alphanum))
privateuse-subtag = 1*8alphanum
grandfathered = irregular / regular
irregular = "en-GB-oed" / "i-ami" / "i-bnn" / "i-default" / "i-enochian" / "i-hak" / "i-klingon" / "i-lux" / "i-mingo" / "i-navajo" / "i-pwn" / "i-tao" / "i-tay" / "i-tsu" / "sgn-BE-FR" / "sgn-BE-NL" / "sgn-CH-DE"
regular = "art-lojban" / "cel-gaulish" / "no-bok" / "no-nyn" / "zh-guoyu" / "zh-hakka" / "zh-min" / "zh-min-nan" / "zh-xiang"
alphanum = ALPHA / DIGIT
ALPHA = %x41-5A / %x61-7A
DIGIT = %x30-39
"#;

pub fn rule_name(p: Prod) -> &'static str {
    match p {
        Prod::LanguageTag => "Language-Tag",
        Prod::Langtag => "langtag",
        Prod::Privateuse => "privateuse",
        Prod::Language => "language",
        Prod::Primary => "primary",
        Prod::Extlang => "extlang",
        Prod::ExtlangTag => "extlang-tag",
        Prod::Script => "script",
        Prod::Region => "region",
        Prod::Variant => "variant",
        Prod::Variants => "variants",
        Prod::Extension => "extension",
        Prod::Extensions => "extensions",
        Prod::ExtensionSubtag => "extension-subtag",
        Prod::PrivateuseSubtag => "privateuse-subtag",
    }
}

#[derive(Clone, Debug)]
pub enum Re {
    Set(Vec<(u8, u8)>),
    Rule(String),
    Cat(Vec<Re>),
    Alt(Vec<Re>),
    Rep(Box<Re>, usize, Option<usize>),
}

struct P<'a> {
    s: &'a [u8],
    i: usize,
}

impl P<'_> {
    fn ws(&mut self) {
        while self.i < self.s.len() && self.s[self.i] == b' ' {
            self.i += 1
        }
    }
    fn peek(&self) -> u8 {
        *self.s.get(self.i).unwrap_or(&0)
    }
    fn num(&mut self, radix: u32) -> Option<usize> {
        let st = self.i;
        while (self.peek() as char).is_digit(radix) {
            self.i += 1
        }
        (self.i > st).then(|| {
            usize::from_str_radix(std::str::from_utf8(&self.s[st..self.i]).unwrap(), radix).unwrap()
        })
    }
    fn alt(&mut self) -> Re {
        let mut v = vec![self.cat()];
        loop {
            self.ws();
            if self.peek() == b'/' {
                self.i += 1;
                v.push(self.cat());
            } else {
                return Re::Alt(v);
            }
        }
    }
    fn cat(&mut self) -> Re {
        let mut v = Vec::new();
        loop {
            self.ws();
            match self.peek() {
                0 | b'/' | b')' | b']' => return Re::Cat(v),
                _ => v.push(self.rep()),
            }
        }
    }
    fn rep(&mut self) -> Re {
        let lo = self.num(10);
        if self.peek() == b'*' {
            self.i += 1;
            let hi = self.num(10);
            return Re::Rep(Box::new(self.el()), lo.unwrap_or(0), hi);
        }
        let e = self.el();
        match lo {
            Some(n) => Re::Rep(Box::new(e), n, Some(n)),
            None => e,
        }
    }
    fn el(&mut self) -> Re {
        match self.peek() {
            b'(' => {
                self.i += 1;
                let r = self.alt();
                self.ws();
                assert_eq!(self.peek(), b')');
                self.i += 1;
                r
            }
            b'[' => {
                self.i += 1;
                let r = self.alt();
                self.ws();
                assert_eq!(self.peek(), b']');
                self.i += 1;
                Re::Rep(Box::new(r), 0, Some(1))
            }
            b'"' => {
                self.i += 1;
                let mut v = Vec::new();
                while self.peek() != b'"' {
                    let c = self.peek();
                    let (l, u) = (c.to_ascii_lowercase(), c.to_ascii_uppercase());
                    v.push(Re::Set(vec![(l, l), (u, u)]));
                    self.i += 1;
                }
                self.i += 1;
                Re::Cat(v)
            }
            b'%' => {
                self.i += 2;
                let a = self.num(16).unwrap() as u8;
                self.i += 1;
                let b = self.num(16).unwrap() as u8;
                Re::Set(vec![(a, b)])
            }
            _ => {
                let st = self.i;
                while self.peek().is_ascii_alphanumeric() || self.peek() == b'-' {
                    self.i += 1
                }
                assert!(self.i > st, "ABNF syntax at {}", self.i);
                Re::Rule(String::from_utf8(self.s[st..self.i].to_vec()).unwrap())
            }
        }
    }
}

fn rules() -> BTreeMap<String, Re> {
    ABNF.lines()
        .filter(|l| !l.trim().is_empty())
        .map(|l| {
            let (n, b) = l.split_once('=').unwrap();
            let mut p = P { s: b.as_bytes(), i: 0 };
            let r = p.alt();
            assert_eq!(p.i, b.len());
            (n.trim().to_string(), r)
        })
        .collect()
}

#[derive(Default)]
struct Nfa {
    eps: Vec<Vec<usize>>,
    on: Vec<Vec<(u8, u8, usize)>>,
}

impl Nfa {
    fn st(&mut self) -> usize {
        self.eps.push(vec![]);
        self.on.push(vec![]);
        self.eps.len() - 1
    }
    fn build(&mut self, r: &Re, rules: &BTreeMap<String, Re>, from: usize) -> usize {
        match r {
            Re::Set(v) => {
                let t = self.st();
                for (a, b) in v {
                    self.on[from].push((*a, *b, t));
                }
                t
            }
            Re::Rule(n) => self.build(rules.get(n).expect("rule"), rules, from),
            Re::Cat(v) => v.iter().fold(from, |f, r| self.build(r, rules, f)),
            Re::Alt(v) => {
                let t = self.st();
                for r in v {
                    let s = self.st();
                    self.eps[from].push(s);
                    let e = self.build(r, rules, s);
                    self.eps[e].push(t);
                }
                t
            }
            Re::Rep(r, lo, hi) => {
                let mut f = from;
                for _ in 0..*lo {
                    f = self.build(r, rules, f);
                }
                match hi {
                    Some(hi) => {
                        let t = self.st();
                        self.eps[f].push(t);
                        for _ in *lo..*hi {
                            f = self.build(r, rules, f);
                            self.eps[f].push(t);
                        }
                        t
                    }
                    None => {
                        let s = self.st();
                        self.eps[f].push(s);
                        let e = self.build(r, rules, s);
                        self.eps[e].push(s);
                        let t = self.st();
                        self.eps[s].push(t);
                        t
                    }
                }
            }
        }
    }
    fn closure(&self, set: &mut BTreeSet<usize>) {
        let mut todo: Vec<usize> = set.iter().copied().collect();
        while let Some(s) = todo.pop() {
            for t in &self.eps[s] {
                if set.insert(*t) {
                    todo.push(*t)
                }
            }
        }
    }
}

/// Complete minimal DFA over ASCII bytes.
pub struct Dfa {
    pub next: Vec<[u16; 128]>,
    pub accept: Vec<bool>,
    pub sink: Option<usize>,
    /// shortest access string of each state
    pub access: Vec<Vec<u8>>,
    /// access strings of the states before minimisation, where they differ
    pub others: Vec<Vec<u8>>,
    /// suffixes telling state apart from every other state
    pub idset: Vec<Vec<Vec<u8>>>,
    /// byte classes: one representative byte list per class
    pub classes: Vec<Vec<u8>>,
    pub class_of: [u16; 128],
    /// shortest string from each state to acceptance
    pub finish: Vec<Option<Vec<u8>>>,
}

impl Dfa {
    pub fn run_from(&self, mut q: usize, s: &[u8]) -> usize {
        for b in s {
            q = if *b < 128 {
                self.next[q][*b as usize] as usize
            } else {
                return self.sink.expect("non-ASCII has a sink");
            };
        }
        q
    }
    pub fn matches(&self, s: &[u8]) -> bool {
        s.is_ascii() && self.accept[self.run_from(0, s)]
    }
    /// How many bytes are consumed before the sink is entered.
    pub fn live_prefix(&self, s: &[u8]) -> usize {
        let mut q = 0;
        for (i, b) in s.iter().enumerate() {
            if *b >= 128 {
                return i;
            }
            q = self.next[q][*b as usize] as usize;
            if Some(q) == self.sink {
                return i;
            }
        }
        s.len()
    }

    pub fn compile(rules: &BTreeMap<String, Re>, name: &str) -> Dfa {
        let mut n = Nfa::default();
        let s0 = n.st();
        let acc = n.build(&Re::Rule(name.into()), rules, s0);
        let mut start = BTreeSet::from([s0]);
        n.closure(&mut start);
        let mut ids: HashMap<BTreeSet<usize>, usize> = HashMap::from([(start.clone(), 0)]);
        let mut sets = vec![start];
        let mut first: Vec<Vec<u8>> = vec![vec![]];
        let mut next: Vec<[u16; 128]> = Vec::new();
        let mut i = 0;
        while i < sets.len() {
            let mut row = [0u16; 128];
            for b in 0..128u8 {
                let mut t: BTreeSet<usize> = sets[i]
                    .iter()
                    .flat_map(|s| n.on[*s].iter())
                    .filter(|(a, z, _)| *a <= b && b <= *z)
                    .map(|(_, _, t)| *t)
                    .collect();
                n.closure(&mut t);
                let id = *ids.entry(t.clone()).or_insert_with(|| {
                    sets.push(t);
                    first.push([&first[i][..], &[if b.is_ascii_uppercase() { b + 32 } else { b }]].concat());
                    sets.len() - 1
                });
                row[b as usize] = id as u16;
            }
            next.push(row);
            i += 1;
        }
        let accept: Vec<bool> = sets.iter().map(|s| s.contains(&acc)).collect();
        // Moore minimisation.
        let mut cls: Vec<usize> = accept.iter().map(|a| *a as usize).collect();
        loop {
            let mut m: BTreeMap<(usize, Vec<usize>), usize> = BTreeMap::new();
            let new: Vec<usize> = (0..next.len())
                .map(|s| {
                    let key = (cls[s], next[s].iter().map(|t| cls[*t as usize]).collect());
                    let l = m.len();
                    *m.entry(key).or_insert(l)
                })
                .collect();
            let done = new.iter().collect::<BTreeSet<_>>().len()
                == cls.iter().collect::<BTreeSet<_>>().len();
            cls = new;
            if done {
                break;
            }
        }
        // Renumber breadth first from the start, recording access strings.
        let mut num: HashMap<usize, usize> = HashMap::from([(cls[0], 0)]);
        let mut rep = vec![0usize];
        let mut access = vec![vec![]];
        let mut mnext: Vec<[u16; 128]> = Vec::new();
        let mut i = 0;
        while i < rep.len() {
            let mut row = [0u16; 128];
            // prefer lower-case letters, then digits and hyphen, in access strings
            let mut order: Vec<u8> = (b'a'..=b'z').chain(b'0'..=b'9').chain([b'-']).collect();
            order.extend((0..128u8).filter(|b| !order.contains(b)).collect::<Vec<_>>());
            for b in order {
                let t = next[rep[i]][b as usize] as usize;
                let id = match num.get(&cls[t]) {
                    Some(id) => *id,
                    None => {
                        rep.push(t);
                        let mut a: Vec<u8> = access[i].clone();
                        a.push(b);
                        access.push(a);
                        num.insert(cls[t], rep.len() - 1);
                        rep.len() - 1
                    }
                };
                row[b as usize] = id as u16;
            }
            mnext.push(row);
            i += 1;
        }
        let accept: Vec<bool> = rep.iter().map(|r| accept[*r]).collect();
        let k = rep.len();
        let sink = (0..k).find(|s| !accept[*s] && mnext[*s].iter().all(|t| *t as usize == *s));
        // Byte classes.
        let mut cm: BTreeMap<Vec<u16>, Vec<u8>> = BTreeMap::new();
        for b in 0..128u8 {
            cm.entry(mnext.iter().map(|r| r[b as usize]).collect()).or_default().push(b);
        }
        let classes: Vec<Vec<u8>> = cm.into_values().collect();
        let mut class_of = [0u16; 128];
        for (i, c) in classes.iter().enumerate() {
            for b in c {
                class_of[*b as usize] = i as u16;
            }
        }
        // Shortest distinguishing suffixes by backward propagation.
        let letter = |c: usize| -> u8 {
            let v = &classes[c];
            *v.iter().find(|b| b.is_ascii_lowercase()).or(v.iter().find(|b| b.is_ascii_alphanumeric())).unwrap_or(&v[0])
        };
        let mut dist: Vec<Vec<Option<Vec<u8>>>> = vec![vec![None; k]; k];
        for s in 0..k {
            for t in 0..k {
                if accept[s] != accept[t] {
                    dist[s][t] = Some(vec![]);
                }
            }
        }
        loop {
            let mut changed = false;
            let snapshot = dist.clone();
            for s in 0..k {
                for t in 0..k {
                    if s == t || dist[s][t].is_some() {
                        continue;
                    }
                    for c in 0..classes.len() {
                        let b = letter(c);
                        let (ns, nt) =
                            (mnext[s][b as usize] as usize, mnext[t][b as usize] as usize);
                        if let Some(w) = &snapshot[ns][nt] {
                            let mut v = vec![b];
                            v.extend_from_slice(w);
                            dist[s][t] = Some(v);
                            changed = true;
                            break;
                        }
                    }
                }
            }
            if !changed {
                break;
            }
        }
        first.retain(|s| !access.contains(s));
        first.sort();
        first.dedup();
        let mut d = Dfa {
            next: mnext,
            accept,
            sink,
            access,
            others: first,
            idset: vec![],
            classes,
            class_of,
            finish: vec![None; k],
        };
        for s in 0..k {
            let mut set: Vec<Vec<u8>> = vec![vec![]];
            for t in 0..k {
                if s == t {
                    continue;
                }
                let told = |w: &Vec<u8>| d.accept[d.run_from(s, w)] != d.accept[d.run_from(t, w)];
                if !set.iter().any(told) {
                    set.push(dist[s][t].clone().expect("minimal DFA states are distinguishable"));
                }
            }
            d.idset.push(set);
        }
        for s in 0..k {
            let mut seen = vec![false; k];
            let mut q = VecDeque::from([(s, vec![])]);
            while let Some((x, w)) = q.pop_front() {
                if seen[x] {
                    continue;
                }
                seen[x] = true;
                if d.accept[x] {
                    d.finish[s] = Some(w);
                    break;
                }
                for c in 0..d.classes.len() {
                    let b = letter2(&d.classes[c]);
                    let mut v: Vec<u8> = w.clone();
                    v.push(b);
                    q.push_back((d.next[x][b as usize] as usize, v));
                }
            }
        }
        d
    }
}

fn letter2(v: &[u8]) -> u8 {
    *v.iter().find(|b| b.is_ascii_lowercase()).unwrap_or(&v[0])
}

pub fn get(p: Prod) -> &'static Dfa {
    static T: OnceLock<Vec<OnceLock<Dfa>>> = OnceLock::new();
    let t = T.get_or_init(|| (0..15).map(|_| OnceLock::new()).collect());
    t[p as usize].get_or_init(|| Dfa::compile(&rules(), rule_name(p)))
}

/// Byte sequences outside ASCII that a sloppy recogniser may confuse with
/// letters, digits or hyphens: overlong encodings, case-folding look-alikes,
/// full-width forms, truncated and stray bytes.
pub const ODD: [&[u8]; 30] = [
    b"\xc1\xa1",         // overlong 'a'
    b"\xc1\xb8",         // overlong 'x'
    b"\xc0\xad",         // overlong '-'
    b"\xc0\xb1",         // overlong '1'
    b"\xc1\x81",         // overlong 'A'
    b"\xe0\x81\xa1",     // overlong 'a', 3 bytes
    b"\xe0\x80\xad",     // overlong '-', 3 bytes
    b"\xf0\x80\x81\xa1", // overlong 'a', 4 bytes
    b"\xf0\x80\x80\xb1", // overlong '1', 4 bytes
    b"\xc4\xb0",         // dotted capital I
    b"\xc4\xb1",         // dotless i
    b"\xc5\xbf",         // long s
    b"\xe2\x84\xaa",     // Kelvin sign
    b"\xc3\xa9",         // e acute
    b"\xef\xbd\x81",     // full-width a
    b"\xef\xbc\x91",     // full-width 1
    b"\xe2\x80\x90",     // Unicode hyphen
    b"\xe2\x88\x92",     // minus sign
    b"\xd9\xa1",         // Arabic-Indic digit one
    b"\xc5\xa1",         // s caron: U+0161 = 'a' + 0x100
    b"\xc4\xad",         // U+012D = '-' + 0x100
    b"\xc4\xb1\xcc\x87", // combining
    b"\xf0\x90\x81\xa1", // U+10061
    b"\xed\xa0\x80",     // surrogate
    b"\xf4\x90\x80\x80", // > U+10FFFF
    b"\xff",
    b"\x80",
    b"\xc1",
    b"\xe1\x80",
    b"\xe1",             // 'a' with the top bit set
];
