//! L14: values as keys of hashed, ordered and sorted collections, over random
//! histories, against a model keyed by the case-folded text.

use super::pairs::*;
use crate::case::{Bytes, Case, Fnv};
use crate::engine::*;
use crate::r#gen::*;
use crate::rfc;
use crate::types::*;
use crate::{ensure, per_type};
use proptest::collection::vec;
use proptest::prelude::*;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::hash::{BuildHasherDefault, Hasher};
use std::ops::Bound::{Excluded, Included, Unbounded};

/// Sends every key to one of four buckets, so that equality decides.
#[derive(Default)]
struct Weak(Option<Fnv>);
impl Hasher for Weak {
    fn finish(&self) -> u64 {
        self.0.as_ref().map_or(0, |f| (f.0 >> 13) & 3)
    }
    fn write(&mut self, b: &[u8]) {
        self.0.get_or_insert(Fnv(77)).write(b)
    }
}

type Sip = BuildHasherDefault<DefaultHasher>;
type WeakB = BuildHasherDefault<Weak>;

fn l14(c: &Case) -> Result<Verdict, String> {
    let p = c.prod();
    let n = type_name(p);
    if c.items.is_empty() || c.ops.len() < 3 {
        return Ok(Verdict::Skip("no operations"));
    }
    per_type!(p, T, B, {
        // keys usable on this tree
        let keys: Vec<&[u8]> = c.items.iter().map(|i| &i[..]).filter(|i| std::str::from_utf8(i).is_ok_and(|s| T::new(s).is_ok())).collect();
        if keys.is_empty() {
            return Ok(Verdict::Skip("no valid key"));
        }
        let spell = |k: u8, m: u8| -> Bytes {
            let base = keys[k as usize % keys.len()];
            let mask = match m % 4 {
                0 => 0,
                1 => u64::MAX,
                _ => mix(&[m as u64, base.len() as u64]),
            };
            recase(base, mask).into()
        };
        let mut model: BTreeMap<Vec<u8>, u32> = BTreeMap::new();
        let mut hash: HashMap<B, u32, Sip> = HashMap::default();
        let mut weak: HashMap<B, u32, WeakB> = HashMap::default();
        let mut tree: BTreeMap<B, u32> = BTreeMap::new();
        let mut hset: HashSet<B, Sip> = HashSet::default();
        let mut tset: BTreeSet<B> = BTreeSet::new();
        let mut sorted: Vec<B> = Vec::new();
        let mut everything: Vec<B> = Vec::new();
        let (mut hits, mut respelled) = (0, 0);
        let steps = c.ops.len() / 3;
        for (i, op) in c.ops.chunks_exact(3).enumerate() {
            let text = spell(op[1], op[2]);
            let s = std::str::from_utf8(&text).unwrap();
            // a re-spelling this tree does not accept is L15's business
            let (Ok(key), Ok(owned)) = (T::new(s), B::new(s.to_string())) else { continue };
            let f = rfc::fold(&text);
            let at = |what: &str| format!("{n}, step {} of {steps}, key {:?}: {what}", i + 1, show(&text));
            macro_rules! same {
                ($what:expr, $got:expr, $want:expr) => {{
                    let (g, w) = ($got, $want);
                    ensure!(g == w, "{}", at(&format!("{} gives {g:?}, the model {w:?}", $what)));
                }};
            }
            let known = model.contains_key(&f);
            if known {
                hits += 1;
                if !keys.contains(&&text[..]) {
                    respelled += 1;
                }
            }
            match op[0] % 8 {
                0 | 1 | 2 => {
                    let v = i as u32;
                    let old = model.insert(f.clone(), v);
                    same!("HashMap::insert", hash.insert(owned.clone(), v), old);
                    same!("HashMap::insert (weak hasher)", weak.insert(owned.clone(), v), old);
                    same!("BTreeMap::insert", tree.insert(owned.clone(), v), old);
                    same!("HashSet::insert", hset.insert(owned.clone()), old.is_none());
                    same!("BTreeSet::insert", tset.insert(owned.clone()), old.is_none());
                    let pos = sorted.binary_search(&owned);
                    same!("binary_search on the sorted list", pos.is_ok(), old.is_some());
                    if let Err(k) = pos {
                        sorted.insert(k, owned.clone());
                    }
                    everything.push(owned.clone());
                }
                3 => {
                    let old = model.remove(&f);
                    if op[2] & 64 == 0 {
                        same!("HashMap::remove(borrowed)", hash.remove(key), old);
                        same!("HashMap::remove(borrowed, weak hasher)", weak.remove(key), old);
                        same!("BTreeMap::remove(borrowed)", tree.remove(key), old);
                        same!("HashSet::remove(borrowed)", hset.remove(key), old.is_some());
                        same!("BTreeSet::remove(borrowed)", tset.remove(key), old.is_some());
                    } else {
                        same!("HashMap::remove(owned)", hash.remove(&owned), old);
                        same!("HashMap::remove(owned, weak hasher)", weak.remove(&owned), old);
                        same!("BTreeMap::remove(owned)", tree.remove(&owned), old);
                        same!("HashSet::take(owned)", hset.take(&owned).is_some(), old.is_some());
                        same!("BTreeSet::take(owned)", tset.take(&owned).is_some(), old.is_some());
                    }
                    let pos = sorted.binary_search_by(|k| (**k).cmp(key));
                    same!("binary_search_by on the sorted list", pos.is_ok(), old.is_some());
                    if let Ok(k) = pos {
                        sorted.remove(k);
                    }
                }
                4 => {
                    let v = *model.entry(f.clone()).and_modify(|v| *v += 1).or_insert(7);
                    same!("HashMap entry", *hash.entry(owned.clone()).and_modify(|v| *v += 1).or_insert(7), v);
                    same!("HashMap entry (weak hasher)", *weak.entry(owned.clone()).and_modify(|v| *v += 1).or_insert(7), v);
                    same!("BTreeMap entry", *tree.entry(owned.clone()).and_modify(|v| *v += 1).or_insert(7), v);
                    hset.replace(owned.clone());
                    tset.replace(owned.clone());
                    let k = sorted.partition_point(|k| *k < owned);
                    let there = sorted.get(k).is_some_and(|k| *k == *key);
                    same!("partition_point on the sorted list", there, known);
                    if !there {
                        sorted.insert(k, owned.clone());
                    }
                    everything.push(owned.clone());
                }
                5 => {
                    // ranges of the ordered collections, by borrowed bounds
                    let mut want: (usize, usize) = (0, 0);
                    for k in tree.keys() {
                        match (**k).cmp(key) {
                            std::cmp::Ordering::Less => want.0 += 1,
                            std::cmp::Ordering::Greater => want.1 += 1,
                            _ => {}
                        }
                    }
                    let below = tree.range::<T, _>((Unbounded, Excluded(key))).count();
                    let above = tree.range::<T, _>((Excluded(key), Unbounded)).count();
                    let from = tree.range::<T, _>((Included(key), Unbounded)).count();
                    same!("BTreeMap::range below/above/from", (below, above, from), (want.0, want.1, want.1 + known as usize));
                    same!(
                        "BTreeMap::range and the total",
                        below + above + known as usize,
                        model.len()
                    );
                    let upto = tset.range::<T, _>((Unbounded, Included(key))).next_back().map(|k| rfc::fold(k.as_bytes()) == f);
                    same!("last of BTreeSet::range(..=key)", upto == Some(true), known);
                }
                _ => {
                    let want = model.get(&f).copied();
                    same!("HashMap::get(borrowed)", hash.get(key).copied(), want);
                    same!("HashMap::get(owned)", hash.get(&owned).copied(), want);
                    same!("HashMap::get(borrowed, weak hasher)", weak.get(key).copied(), want);
                    same!("HashMap::get(owned, weak hasher)", weak.get(&owned).copied(), want);
                    same!("BTreeMap::get(borrowed)", tree.get(key).copied(), want);
                    same!("BTreeMap::get(owned)", tree.get(&owned).copied(), want);
                    same!("HashSet::contains(borrowed)", hset.contains(key), want.is_some());
                    same!("BTreeSet::contains(borrowed)", tset.contains(key), want.is_some());
                    same!("BTreeSet::contains(owned)", tset.contains(&owned), want.is_some());
                    same!("binary_search", sorted.binary_search(&owned).is_ok(), want.is_some());
                    let stored = hash.get_key_value(key).map(|(k, _)| rfc::fold(k.as_bytes()) == f);
                    same!("text of the key found", stored, want.map(|_| true));
                }
            }
            same!("size of the HashMap", hash.len(), model.len());
            same!("size of the HashMap with the weak hasher", weak.len(), model.len());
            same!("size of the BTreeMap", tree.len(), model.len());
            same!("size of the HashSet", hset.len(), model.len());
            same!("size of the BTreeSet", tset.len(), model.len());
        }
        // the whole contents
        let want: BTreeSet<&[u8]> = model.keys().map(|k| &k[..]).collect();
        macro_rules! contents {
            ($what:expr, $it:expr, $ordered:expr) => {{
                let ks: Vec<&B> = $it.collect();
                let f: Vec<Vec<u8>> = ks.iter().map(|k| rfc::fold(k.as_bytes())).collect();
                ensure!(
                    f.len() == want.len() && f.iter().all(|k| want.contains(&k[..])),
                    "{n}: {} holds {} keys, the model {}",
                    $what,
                    f.len(),
                    want.len()
                );
                if $ordered {
                    for w in ks.windows(2) {
                        ensure!(
                            w[0] < w[1],
                            "{n}: {} visits {:?} before {:?}, which is not their comparison order",
                            $what,
                            w[0].as_str(),
                            w[1].as_str()
                        );
                    }
                }
            }};
        }
        contents!("HashMap", hash.keys(), false);
        contents!("HashMap with the weak hasher", weak.keys(), false);
        contents!("BTreeMap", tree.keys(), true);
        contents!("HashSet", hset.iter(), false);
        contents!("BTreeSet", tset.iter(), true);
        contents!("sorted list", sorted.iter(), true);
        for (k, v) in &tree {
            ensure!(
                model.get(&rfc::fold(k.as_bytes())) == Some(v),
                "{n}: BTreeMap holds {v} under {:?}, the model {:?}",
                k.as_str(),
                model.get(&rfc::fold(k.as_bytes()))
            );
        }
        // sort and dedup of everything ever inserted
        let distinct: BTreeSet<Vec<u8>> = everything.iter().map(|k| rfc::fold(k.as_bytes())).collect();
        let mut v = everything.clone();
        v.sort();
        v.dedup();
        ensure!(v.len() == distinct.len(), "{n}: sort+dedup leaves {} of {} distinct keys", v.len(), distinct.len());
        let mut u = everything.clone();
        u.sort_unstable();
        u.dedup();
        ensure!(u == v, "{n}: sort_unstable+dedup and sort+dedup disagree");
        let s: BTreeSet<B> = everything.iter().cloned().collect();
        ensure!(s.len() == distinct.len(), "{n}: a set made of all keys has {} members, expected {}", s.len(), distinct.len());
        ensure!(
            s.iter().zip(&v).all(|(x, y)| x == y),
            "{n}: BTreeSet and sort order differ"
        );
        let h: HashSet<&T, Sip> = everything.iter().map(|k| &**k).collect();
        ensure!(h.len() == distinct.len(), "{n}: a set of borrowed keys has {} members, expected {}", h.len(), distinct.len());
        Ok(pass(
            hits > 0,
            match (hits, respelled) {
                (0, _) => "no operation met a known key",
                (_, 0) => "known keys met in one spelling",
                _ if model.len() > 20 => "more than twenty keys, met by other spellings",
                _ => "known keys met by other spellings",
            },
        ))
    })
}

fn check_l14(c: &Case) -> Verdict {
    l14(c).into()
}

fn histories(lo: usize, hi: usize, ops: usize) -> BoxedStrategy<Case> {
    prod()
        .prop_flat_map(move |p| (vec(triple(p), lo..=hi), vec((any::<u8>(), any::<u8>(), any::<u8>()), 1..=ops)))
        .prop_map(|(ts, ops)| {
            let ty = ts[0].ty;
            let items: Vec<Bytes> = ts.into_iter().flat_map(|t| [t.a, t.b, t.c]).collect();
            let ops: Vec<u8> = ops.into_iter().flat_map(|(a, b, c)| [a, b, c]).collect();
            Case { ty, items, ops, ..Case::default() }
        })
        .boxed()
}

fn small() -> BoxedStrategy<Case> {
    histories(1, 2, 40)
}
fn large() -> BoxedStrategy<Case> {
    histories(20, 60, 600)
}

/// For every type: insert one spelling, look up every other (all masks).
fn spelled(a: &EnumArgs, sink: &mut Sink) {
    let mut idx = 0u64;
    for p in rfc::ALL {
        let d = crate::dfa::get(p);
        for q in 0..d.access.len() {
            let Some(f) = &d.finish[q] else { continue };
            let base = [&d.access[q][..], f].concat();
            for r in 0..4u64 {
                idx += 1;
                if !a.mine(idx as usize) {
                    continue;
                }
                let s = reletter(p, &base, mix(&[a.seed, r, idx]));
                let other = reletter(p, &base, mix(&[a.seed, r, idx, 1]));
                let mut ops = Vec::new();
                for m in 0..12u8 {
                    for op in [0u8, 6, 5, 4, 3, 6, 4, 5, 3] {
                        ops.extend([op, m & 1, m.wrapping_mul(37).wrapping_add(op)]);
                    }
                }
                if !sink(Case { ty: p as u8, items: vec![s.into(), other.into()], ops, ..Case::default() }) {
                    return;
                }
            }
        }
    }
}

fn campaigns(t: bool) -> Vec<Campaign> {
    let k = if t { 10 } else { 1 };
    vec![
        Campaign { name: "insert, find, remove by other spellings, every automaton state of every type", r#gen: Gen::Enum(spelled) },
        Campaign { name: "short random histories over a few related keys", r#gen: Gen::Random(small, 700_000 * k) },
        Campaign { name: "long random histories over many keys", r#gen: Gen::Random(large, 15_000 * k) },
    ]
}

pub static L14: Property = Property {
    hang: 60,
    id: "L14",
    rule: "A case is a type, a pool of related keys (re-spellings, one-position changes, prefixes, unrelated) and a history of insert/remove/entry/get/range operations, each naming a key in a random spelling; applied in step to HashMap (two hashers), BTreeMap, HashSet, BTreeSet and a sorted Vec and to a model map keyed by folded text, compared after every step and at the end. Non-trivial: some operation met a key already present; distinct by content.",
    check: check_l14,
    campaigns,
    assumptions: &["std's collections are correct for keys that satisfy their trait contracts"],
};
