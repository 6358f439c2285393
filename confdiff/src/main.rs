//! Answers requests on stdin with what the borrowed API of langtag says.
//!
//! Request: mode (0 = digest, 1 = text; plus 2 = without hash values,
//! plus 16 times the only type asked), two length-prefixed byte strings.
//! Answer: the 8-byte digest of the trace, or the length-prefixed trace.
//! The same source is built against langtag under every feature combination.

mod trace;

use std::hash::Hasher;
use std::io::{Read, Write};
use std::panic::{AssertUnwindSafe, catch_unwind};
use trace::{Fnv, portable, trace};

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let (mut i, mut o) = (std::io::stdin().lock(), std::io::stdout().lock());
    let mut head = [0u8; 9];
    while i.read_exact(&mut head).is_ok() {
        let n = |k: usize| u32::from_le_bytes(head[k..k + 4].try_into().unwrap()) as usize;
        let mut a = vec![0; n(1)];
        let mut b = vec![0; n(5)];
        if i.read_exact(&mut a).is_err() || i.read_exact(&mut b).is_err() {
            break;
        }
        let tell = || match head[0] & 2 {
            0 => trace(&a, &b),
            _ => portable(&a, &b, head[0] >> 4),
        };
        let t =
            catch_unwind(AssertUnwindSafe(tell)).unwrap_or_else(|_| "panicked".into());
        let r = if head[0] & 1 == 0 {
            let mut h = Fnv(0);
            h.write(t.as_bytes());
            o.write_all(&h.0.to_le_bytes())
        } else {
            o.write_all(&(t.len() as u32).to_le_bytes())
                .and_then(|_| o.write_all(t.as_bytes()))
        };
        if r.and_then(|_| o.flush()).is_err() {
            break;
        }
    }
}
