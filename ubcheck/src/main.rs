//! Walks through everything the API of langtag offers on the texts it is sent,
//! reading every byte it is shown. Run under AddressSanitizer and under Miri,
//! which see what the walk itself cannot: memory read outside the text,
//! dangling or aliased references, invalid values, races, lost memory.
//!
//! Request on stdin: type, form, two length-prefixed byte strings.
//! Answer: `.` walked, `P` a panic (another property's business), or `V` and a
//! length-prefixed complaint.

mod walk;

use std::io::{Read, Write};
use std::panic::{AssertUnwindSafe, catch_unwind};

/// Allocations alive in this process.
#[cfg(not(miri))]
mod count {
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
    pub static LIVE: AtomicI64 = AtomicI64::new(0);
    struct Counting;
    unsafe impl GlobalAlloc for Counting {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            LIVE.fetch_add(1, SeqCst);
            unsafe { System.alloc(l) }
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            LIVE.fetch_sub(1, SeqCst);
            unsafe { System.dealloc(p, l) }
        }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
            unsafe { System.realloc(p, l, n) }
        }
    }
    #[global_allocator]
    static A: Counting = Counting;
    pub fn live() -> i64 {
        LIVE.load(SeqCst)
    }
}
#[cfg(miri)]
mod count {
    // the interpreter reports lost memory itself
    pub fn live() -> i64 {
        0
    }
}

/// One text, in memory of exactly its size (or in the middle of a larger piece).
fn request(ty: u8, form: u8, a: &[u8], b: &[u8]) -> Result<bool, String> {
    let once = || -> Result<bool, String> {
        let (x, y): (Box<[u8]>, Box<[u8]>) = (a.into(), b.into());
        let r = catch_unwind(AssertUnwindSafe(|| walk::walk(ty, form, &x, &y)));
        if *x != *a || *y != *b {
            return Err("the text it was given has changed".into());
        }
        match r {
            Ok(r) => r.map(|_| true),
            Err(_) => Ok(false),
        }
    };
    let calm = once()?;
    let tries = if cfg!(miri) { 0 } else { 2 };
    let mut lost = tries > 0 && calm;
    for _ in 0..tries {
        let before = count::live();
        once()?;
        lost &= count::live() > before;
    }
    // memory kept on first use is not lost; memory kept on every use is
    if lost {
        return Err("memory is lost each time".into());
    }
    Ok(calm)
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    // the panic machinery allocates on its first use
    let _ = catch_unwind(|| panic!("first"));
    let (mut i, mut o) = (std::io::stdin().lock(), std::io::stdout().lock());
    let mut head = [0u8; 10];
    while i.read_exact(&mut head).is_ok() {
        let n = |k: usize| u32::from_le_bytes(head[k..k + 4].try_into().unwrap()) as usize;
        let mut a = vec![0; n(2)];
        let mut b = vec![0; n(6)];
        if i.read_exact(&mut a).is_err() || i.read_exact(&mut b).is_err() {
            break;
        }
        let r = match request(head[0], head[1], &a, &b) {
            Ok(true) => o.write_all(b"."),
            Ok(false) => o.write_all(b"P"),
            Err(m) => {
                let mut v = b"V".to_vec();
                v.extend_from_slice(&(m.len() as u32).to_le_bytes());
                v.extend_from_slice(m.as_bytes());
                o.write_all(&v)
            }
        };
        if r.and_then(|_| o.flush()).is_err() {
            break;
        }
    }
}
