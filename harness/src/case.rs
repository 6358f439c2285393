//! A generated case: everything a check needs, serialisable as its replay file.

use crate::rfc::Prod;
use serde::{Deserialize, Serialize};
use std::hash::{Hash, Hasher};

/// Text of a case. It begins at an address that is anything modulo 16, depending on the
/// content: no answer of the crate may depend on where a text is.
#[derive(Clone, Default)]
pub struct Bytes {
    off: usize,
    store: Vec<u8>,
}

impl From<&[u8]> for Bytes {
    fn from(v: &[u8]) -> Self {
        let mut h = Fnv(v.len() as u64);
        h.write(&v[..v.len().min(24)]);
        h.write(&v[v.len().saturating_sub(24)..]);
        let off = (mix(h.0) % 16) as usize;
        let mut store = Vec::with_capacity(off + v.len());
        // what is there is no part of a tag
        store.resize(off, b'~');
        store.extend_from_slice(v);
        Bytes { off, store }
    }
}
impl From<Vec<u8>> for Bytes {
    fn from(v: Vec<u8>) -> Self {
        v[..].into()
    }
}
impl From<&str> for Bytes {
    fn from(v: &str) -> Self {
        v.as_bytes().into()
    }
}
impl std::ops::Deref for Bytes {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.store[self.off..]
    }
}
impl PartialEq for Bytes {
    fn eq(&self, o: &Self) -> bool {
        **self == **o
    }
}
impl Eq for Bytes {}
impl Hash for Bytes {
    fn hash<H: Hasher>(&self, h: &mut H) {
        (**self).hash(h)
    }
}
impl std::fmt::Debug for Bytes {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "b\"{}\"", self.escape_ascii())
    }
}

fn mix(x: u64) -> u64 {
    (x ^ (x >> 29)).wrapping_mul(0xbf58476d1ce4e5b9) >> 20
}

impl Serialize for Bytes {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match std::str::from_utf8(self) {
            Ok(t) if !t.starts_with("hex:") => s.serialize_str(t),
            _ => {
                let h: String = self.iter().map(|b| format!("{b:02x}")).collect();
                s.serialize_str(&format!("hex:{h}"))
            }
        }
    }
}
impl<'de> Deserialize<'de> for Bytes {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        Ok(match s.strip_prefix("hex:") {
            Some(h) => (0..h.len() / 2)
                .map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap_or(0))
                .collect::<Vec<u8>>()
                .into(),
            None => s.into_bytes().into(),
        })
    }
}

#[derive(Clone, Debug, Default, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Case {
    /// which type (index into `rfc::ALL`), for checks quantified over types
    #[serde(default)]
    pub ty: u8,
    /// which sub-check
    #[serde(default, skip_serializing_if = "String::is_empty")]
    pub sub: String,
    #[serde(default)]
    pub a: Bytes,
    #[serde(default, skip_serializing_if = "<[u8]>::is_empty")]
    pub b: Bytes,
    #[serde(default, skip_serializing_if = "<[u8]>::is_empty")]
    pub c: Bytes,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub items: Vec<Bytes>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub ops: Vec<u8>,
    #[serde(default, skip_serializing_if = "is_zero")]
    pub n: u64,
}

fn is_zero(n: &u64) -> bool {
    *n == 0
}

impl Case {
    pub fn new(a: impl Into<Bytes>) -> Self {
        Case { a: a.into(), ..Default::default() }
    }
    pub fn ty(mut self, p: Prod) -> Self {
        self.ty = p as u8;
        self
    }
    pub fn b(mut self, b: impl Into<Bytes>) -> Self {
        self.b = b.into();
        self
    }
    pub fn c(mut self, c: impl Into<Bytes>) -> Self {
        self.c = c.into();
        self
    }
    pub fn sub(mut self, s: &str) -> Self {
        self.sub = s.into();
        self
    }
    pub fn prod(&self) -> Prod {
        crate::rfc::ALL[self.ty as usize % 15]
    }
    pub fn hash64(&self) -> u64 {
        let mut h = Fnv(0xcbf29ce484222325);
        self.hash(&mut h);
        let x = h.0;
        (x ^ (x >> 29)).wrapping_mul(0xbf58476d1ce4e5b9)
    }
    /// Rough size, for shrinking.
    pub fn size(&self) -> usize {
        self.a.len() + self.b.len() + self.c.len() + self.ops.len()
            + self.items.iter().map(|i| i.len() + 1).sum::<usize>()
    }
}

pub struct Fnv(pub u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.0 = (self.0 ^ *b as u64).wrapping_mul(0x100000001b3);
        }
    }
}
