//! A reader of ABNF (RFC 5234, RFC 7405), for the grammar file of the crate.

use crate::dfa::Re;
use std::collections::BTreeMap;

/// The rules of Appendix B.1 that a file may leave out.
const CORE: [(&str, &str); 6] = [
    ("alpha", "%x41-5A / %x61-7A"),
    ("digit", "%x30-39"),
    ("hexdig", "digit / \"A\" / \"B\" / \"C\" / \"D\" / \"E\" / \"F\""),
    ("bit", "\"0\" / \"1\""),
    ("sp", "%x20"),
    ("vchar", "%x21-7E"),
];

struct P<'a> {
    s: &'a [u8],
    i: usize,
}

type R<T> = Result<T, String>;

impl P<'_> {
    fn peek(&self) -> u8 {
        *self.s.get(self.i).unwrap_or(&0)
    }
    fn err<T>(&self, m: &str) -> R<T> {
        let from = self.i.saturating_sub(20);
        let around = String::from_utf8_lossy(&self.s[from..(self.i + 20).min(self.s.len())]).to_string();
        Err(format!("{m} near {around:?}"))
    }
    fn ws(&mut self) {
        while matches!(self.peek(), b' ' | b'\t') {
            self.i += 1
        }
    }
    fn num(&mut self, radix: u32) -> R<Option<usize>> {
        let st = self.i;
        while (self.peek() as char).is_digit(radix) {
            self.i += 1
        }
        if self.i == st {
            return Ok(None);
        }
        let t = std::str::from_utf8(&self.s[st..self.i]).map_err(|e| e.to_string())?;
        match usize::from_str_radix(t, radix) {
            Ok(n) if n <= 10_000 => Ok(Some(n)),
            _ => self.err("a number too large"),
        }
    }
    fn alt(&mut self) -> R<Re> {
        let mut v = vec![self.cat()?];
        loop {
            self.ws();
            if self.peek() == b'/' {
                self.i += 1;
                v.push(self.cat()?);
            } else {
                return Ok(Re::Alt(v));
            }
        }
    }
    fn cat(&mut self) -> R<Re> {
        let mut v = Vec::new();
        loop {
            self.ws();
            match self.peek() {
                0 | b'/' | b')' | b']' if !v.is_empty() => return Ok(Re::Cat(v)),
                0 | b'/' | b')' | b']' => return self.err("something is missing"),
                _ => v.push(self.rep()?),
            }
        }
    }
    fn rep(&mut self) -> R<Re> {
        let lo = self.num(10)?;
        if self.peek() == b'*' {
            self.i += 1;
            let hi = self.num(10)?;
            if hi.is_some_and(|h| h < lo.unwrap_or(0)) {
                return self.err("an empty repetition");
            }
            return Ok(Re::Rep(Box::new(self.el()?), lo.unwrap_or(0), hi));
        }
        let e = self.el()?;
        Ok(match lo {
            Some(n) => Re::Rep(Box::new(e), n, Some(n)),
            None => e,
        })
    }
    fn group(&mut self, end: u8) -> R<Re> {
        self.i += 1;
        let r = self.alt()?;
        self.ws();
        if self.peek() != end {
            return self.err("an unclosed group");
        }
        self.i += 1;
        Ok(r)
    }
    fn quoted(&mut self, exact: bool) -> R<Re> {
        self.i += 1;
        let mut v = Vec::new();
        while self.peek() != b'"' {
            let c = self.peek();
            if c == 0 {
                return self.err("an unclosed string");
            }
            let (l, u) = (c.to_ascii_lowercase(), c.to_ascii_uppercase());
            v.push(Re::Set(if exact { vec![(c, c)] } else { vec![(l, l), (u, u)] }));
            self.i += 1;
        }
        self.i += 1;
        Ok(Re::Cat(v))
    }
    fn el(&mut self) -> R<Re> {
        match self.peek() {
            b'(' => self.group(b')'),
            b'[' => Ok(Re::Rep(Box::new(self.group(b']')?), 0, Some(1))),
            b'"' => self.quoted(false),
            b'%' => {
                self.i += 1;
                let kind = self.peek().to_ascii_lowercase();
                self.i += 1;
                let radix = match kind {
                    b'x' => 16,
                    b'd' => 10,
                    b'b' => 2,
                    b's' | b'i' if self.peek() == b'"' => return self.quoted(kind == b's'),
                    _ => return self.err("an unknown terminal"),
                };
                let one = |p: &mut Self| match p.num(radix)? {
                    // bytes outside ASCII are in no tag
                    Some(n) => Ok(n.min(255) as u8),
                    None => p.err("a number is missing"),
                };
                let a = one(self)?;
                if self.peek() == b'-' {
                    self.i += 1;
                    let b = one(self)?;
                    return Ok(Re::Set(vec![(a, b)]));
                }
                let mut v = vec![Re::Set(vec![(a, a)])];
                while self.peek() == b'.' {
                    self.i += 1;
                    let b = one(self)?;
                    v.push(Re::Set(vec![(b, b)]));
                }
                Ok(Re::Cat(v))
            }
            c if c.is_ascii_alphabetic() || c == b'<' => {
                let angle = c == b'<';
                self.i += angle as usize;
                let st = self.i;
                while self.peek().is_ascii_alphanumeric() || self.peek() == b'-' {
                    self.i += 1
                }
                let n = String::from_utf8_lossy(&self.s[st..self.i]).to_ascii_lowercase();
                if angle {
                    if self.peek() != b'>' {
                        return self.err("prose");
                    }
                    self.i += 1;
                }
                Ok(Re::Rule(n))
            }
            _ => self.err("what is no element"),
        }
    }
}

/// Comments removed, outside strings.
fn bare(l: &str) -> &str {
    let mut quoted = false;
    for (i, c) in l.char_indices() {
        match c {
            '"' => quoted = !quoted,
            ';' if !quoted => return &l[..i],
            _ => {}
        }
    }
    l
}

fn names(r: &Re, out: &mut Vec<String>) {
    match r {
        Re::Set(_) => {}
        Re::Rule(n) => out.push(n.clone()),
        Re::Cat(v) | Re::Alt(v) => v.iter().for_each(|r| names(r, out)),
        Re::Rep(r, ..) => names(r, out),
    }
}

/// The rules, by name in small letters.
pub fn parse(text: &str) -> R<BTreeMap<String, Re>> {
    // a line that starts further right than the first rule continues the one before
    let lines: Vec<&str> = text.lines().map(|l| bare(l).trim_end()).filter(|l| !l.trim().is_empty()).collect();
    let margin = |l: &str| l.len() - l.trim_start().len();
    let first = lines.first().map_or(0, |l| margin(l));
    let mut bodies: Vec<(String, bool, String)> = Vec::new();
    for l in lines {
        if margin(l) > first {
            let Some(last) = bodies.last_mut() else { return Err(format!("{l:?} continues no rule")) };
            last.2.push(' ');
            last.2.push_str(l.trim());
            continue;
        }
        let Some((n, b)) = l.split_once('=') else { return Err(format!("{l:?} is no rule")) };
        let (more, b) = match b.strip_prefix('/') {
            Some(b) => (true, b),
            None => (false, b),
        };
        let n = n.trim().trim_matches(['<', '>']).to_ascii_lowercase();
        if n.is_empty() || !n.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'-') {
            return Err(format!("{l:?} is no rule"));
        }
        bodies.push((n, more, b.to_string()));
    }
    let mut rules: BTreeMap<String, Re> = BTreeMap::new();
    let mut add = |n: &str, more: bool, b: &str| -> R<()> {
        let mut p = P { s: b.as_bytes(), i: 0 };
        let r = p.alt().map_err(|e| format!("rule {n}: {e}"))?;
        if p.i != b.len() {
            return p.err(&format!("rule {n}: something is left over"));
        }
        match (rules.remove(n), more) {
            (None, _) => rules.insert(n.to_string(), r),
            (Some(o), true) => rules.insert(n.to_string(), Re::Alt(vec![o, r])),
            (Some(_), false) => return Err(format!("rule {n} is given twice")),
        };
        Ok(())
    };
    for (n, more, b) in &bodies {
        add(n, *more, b)?;
    }
    for (n, b) in CORE {
        if !bodies.iter().any(|(m, ..)| m == n) {
            add(n, false, b)?;
        }
    }
    // every name is defined, and none by itself
    let mut depth: BTreeMap<&str, u8> = BTreeMap::new();
    fn visit<'a>(n: &'a str, rules: &'a BTreeMap<String, Re>, depth: &mut BTreeMap<&'a str, u8>) -> R<()> {
        match depth.get(n) {
            Some(2) => return Ok(()),
            Some(_) => return Err(format!("rule {n} is defined by itself")),
            None => {}
        }
        depth.insert(n, 1);
        let Some(r) = rules.get(n) else { return Err(format!("rule {n} is not defined")) };
        let mut v = Vec::new();
        names(r, &mut v);
        for m in v {
            match rules.get_key_value(&m) {
                Some((k, _)) => visit(k, rules, depth)?,
                None => return Err(format!("rule {m} is not defined")),
            }
        }
        depth.insert(n, 2);
        Ok(())
    }
    for (n, ..) in &bodies {
        visit(n, &rules, &mut depth)?;
    }
    Ok(rules)
}
