//! Operations whose cost is counted by valgrind (callgrind) from outside.
//!
//! Usage: treena-cost GROUP N [u32]
//! Prints a line `M <class> <label>` for every measured stretch; the counted
//! instructions are those within `measured_op`. The bytes asked of the
//! allocator in it follow in a line `A <bytes>`.

use std::alloc::{GlobalAlloc, Layout, System};
use std::fmt::Write as _;
use std::hint::black_box;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

use treena::dynamic::{AdoptAs, ChainTreeBuilder, Forest, InsertAs, NestTreeBuilder};
use treena_base::trees::{self, NONE};

struct Meter;
static BYTES: AtomicU64 = AtomicU64::new(0);
unsafe impl GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        BYTES.fetch_add(l.size() as u64, Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        BYTES.fetch_add(n as u64, Relaxed);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static METER: Meter = Meter;

#[no_mangle]
#[inline(never)]
pub extern "C" fn measured_op(f: &mut &mut dyn FnMut()) {
    f();
    black_box(());
}

fn m(class: &str, label: &str, mut f: impl FnMut()) {
    println!("M {class} {label}");
    let mut g: &mut dyn FnMut() = &mut f;
    let before = BYTES.load(Relaxed);
    measured_op(&mut g);
    println!("A {}", BYTES.load(Relaxed) - before);
}

struct Sink(usize);
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 += s.len();
        Ok(())
    }
}

mod on_usize {
    use super::*;
    type I = treena::dynamic::NodeIdUsize;
    include!("cost_groups.rs");
}
mod on_u32 {
    use super::*;
    type I = treena::dynamic::NodeIdU32;
    include!("cost_groups.rs");
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let n: usize = a[2].parse().unwrap_or(1000);
    let narrow = a.get(3).is_some_and(|x| x == "u32");
    let f = match (a[1].as_str(), narrow) {
        ("traversals", false) => on_usize::traversals,
        ("traversals", true) => on_u32::traversals,
        ("lists", false) => on_usize::lists,
        ("lists", true) => on_u32::lists,
        ("changes", false) => on_usize::changes,
        ("changes", true) => on_u32::changes,
        ("bulk", false) => on_usize::bulk,
        ("bulk", true) => on_u32::bulk,
        ("batch", false) => on_usize::batch,
        ("batch", true) => on_u32::batch,
        ("bft", false) => on_usize::bft,
        ("bft", true) => on_u32::bft,
        _ => std::process::exit(2),
    };
    f(n);
}
