//! Hostile histories for memory checkers: misuse, panics of user code
//! everywhere, foreign IDs, drops in any order. Nothing is compared; the
//! judges are Miri, AddressSanitizer and the balance of the allocator.
//!
//! Usage: treena-hostile SEED CASES FIRST STEP MAXOPS OUT

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::fmt;
use std::fmt::Write as _;
use std::hint::black_box;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::process::ExitCode;

use treena::dynamic::{
    AdoptAs, ChainTreeBuilder, Forest, InsertAs, NestTreeBuilder, NodeId, NodeIdU16, NodeIdU32, NodeIdU64, NodeIdU8, NodeIdUsize,
};
use treena_base::kinds::{StructId, TupleId};
use treena_base::rng::{hash2, Rng};
use treena_base::trees;

struct Balance;
thread_local! {
    static BYTES: Cell<i64> = const { Cell::new(0) };
    static BLOCKS: Cell<i64> = const { Cell::new(0) };
    /// The n-th call of user code from now panics.
    static FUSE: Cell<u32> = const { Cell::new(u32::MAX) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
}
fn count(bytes: i64, blocks: i64) {
    let _ = BYTES.try_with(|c| c.set(c.get() + bytes));
    let _ = BLOCKS.try_with(|c| c.set(c.get() + blocks));
}
// SAFETY: forwards to the system allocator.
unsafe impl GlobalAlloc for Balance {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count(l.size() as i64, 1);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        count(l.size() as i64, 1);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        count(n as i64 - l.size() as i64, 0);
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        count(-(l.size() as i64), -1);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Balance = Balance;

/// User code was called; does it panic now?
fn user() {
    FUSE.with(|f| match f.get() {
        u32::MAX => {}
        0 => {
            f.set(u32::MAX);
            if !std::thread::panicking() {
                resume_unwind(Box::new(()));
            }
        }
        n => f.set(n - 1),
    });
}

struct P(Box<u32>);
impl Clone for P {
    fn clone(&self) -> P {
        user();
        P(self.0.clone())
    }
}
impl Drop for P {
    fn drop(&mut self) {
        black_box(*self.0);
        // Only some of the drops panic.
        if *self.0 % 8 == 0 && !QUIET.with(|q| q.get()) {
            user();
        }
    }
}
impl fmt::Display for P {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if *self.0 % 16 == 0 {
            user();
        }
        write!(f, "{}\n\nx", self.0)
    }
}
impl fmt::Debug for P {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}

struct Slot<I: NodeId> {
    f: Forest<I, P>,
    ids: Vec<I>,
}

/// Steps of one traversal at most.
const LOOK: usize = if cfg!(miri) { 40 } else { 1500 };

fn walk<T>(mut it: impl DoubleEndedIterator<Item = T>, mut pat: u64) {
    for _ in 0..LOOK {
        let x = if pat & 1 == 0 { it.next() } else { it.next_back() };
        pat = pat.rotate_right(1);
        if black_box(x).is_none() {
            break;
        }
    }
}

#[derive(Default)]
struct Out {
    by: BTreeMap<(&'static str, bool), u64>,
    histories: u64,
    max: usize,
}

fn history<I: NodeId + 'static>(seed: u64, maxops: usize, out: &mut Out) {
    let mut r = Rng::new(seed);
    let mut sl: Vec<Slot<I>> = (0..3).map(|_| Slot { f: Forest::new(), ids: vec![] }).collect();
    let steps = 4 + r.below(maxops);
    let mut val = r.below(100) as u32;
    let small = std::mem::size_of::<I>() == 1;
    let cap = if small { 230 } else { 400 };
    if !cfg!(miri) && r.chance(1, 12) {
        // Wide and deep.
        let family = trees::FAMILIES[r.below(trees::FAMILIES.len())];
        let n = 40 + r.below(if small { 140 } else { 600 });
        let t = &mut sl[0];
        t.ids = trees::build(&mut t.f, &trees::family(family, n, seed), |i| P(Box::new(i as u32)));
    }
    for _ in 0..steps {
        let w = r.below(3);
        let mut t = std::mem::replace(&mut sl[w], Slot { f: Forest::new(), ids: vec![] });
        let other = &mut sl[(w + 1 + r.below(2)) % 3];
        val += 1;
        // IDs of this forest, or (often beyond the end) of another one.
        let pick = |r: &mut Rng, t: &Slot<I>, o: &Slot<I>| -> Option<I> {
            match r.below(12) {
                0 => r.pick(&o.ids),
                1 => o.ids.get(t.ids.len()).copied().or_else(|| r.pick(&o.ids)),
                2 => t.ids.last().copied(),
                _ => r.pick(&t.ids),
            }
        };
        let (Some(a), Some(b)) = (pick(&mut r, &t, other), pick(&mut r, &t, other)) else {
            t.ids.push(t.f.create_root(P(Box::new(val))));
            sl[w] = t;
            continue;
        };
        let d = r.below(4);
        let dest = [InsertAs::FirstChildOf(b), InsertAs::LastChildOf(b), InsertAs::PreviousSiblingOf(b), InsertAs::NextSiblingOf(b)][d];
        let adopt = [AdoptAs::FirstChild, AdoptAs::LastChild, AdoptAs::PreviousSibling, AdoptAs::NextSibling][d];
        let full = t.ids.len() > cap / 4;
        let fuse = if r.chance(1, 4) { r.below(6) as u32 } else { u32::MAX };
        let (kind, pat, lim) = (r.below(40), r.next(), r.below(6));
        let mut name = "look";
        let mut lost = false;
        FUSE.with(|f| f.set(fuse));
        let res = catch_unwind(AssertUnwindSafe(|| match kind {
            0..=2 if !full => {
                name = "create_root";
                t.ids.push(t.f.create_root(P(Box::new(val))));
            }
            3..=8 if !full => {
                name = "create_insert";
                let i = t.f.create_insert(P(Box::new(val)), dest);
                t.ids.push(i);
            }
            9 if !full => {
                name = "NodeMut::create";
                if let Some(i) = t.f.node_mut(b).map(|mut n| n.create(P(Box::new(val)), adopt)) {
                    t.ids.push(i);
                }
            }
            10..=13 => {
                name = "insert";
                let _ = black_box(t.f.insert(a, dest).is_ok());
            }
            14 => {
                name = "adopt";
                if let Some(mut n) = t.f.node_mut(b) {
                    n.adopt(a, adopt);
                }
            }
            15 => {
                name = "detach";
                t.f.detach(a);
            }
            16 | 17 => {
                name = "detach_single";
                let _ = black_box(t.f.detach_single(a).is_ok());
            }
            18 => {
                name = "remove";
                lost = true;
                t.f.remove(a);
            }
            19 => {
                name = "remove_hooked";
                lost = true;
                t.f.remove_hooked(a, |x| {
                    black_box(&x.0);
                    user();
                });
            }
            20 | 21 => {
                name = "remove_hooked_panic_safe";
                t.f.remove_hooked_panic_safe(a, |x| {
                    black_box(&x.0);
                    user();
                });
            }
            22 if t.ids.len() < cap / 8 => {
                name = "clone_local";
                let i = t.f.clone_local_tree_with_id_mapping(a, |p, q| {
                    black_box((p, q));
                    user();
                });
                t.ids.push(i);
                let v: Vec<I> = t.f.breadth_first_traverse(i).take(20).map(|(n, _)| n.id()).collect();
                t.ids.extend(v);
            }
            23 if other.ids.len() < cap / 8 => {
                name = "clone_foreign";
                if let Some(n) = t.f.node(a) {
                    let i = other.f.clone_foreign_tree_with_id_mapping(n, |p, q| {
                        black_box((p, q));
                        user();
                    });
                    other.ids.push(i);
                }
            }
            24 => {
                name = "forest clone";
                let g = t.f.clone();
                if lim < 3 {
                    t.f = g;
                } else {
                    other.f = g;
                    other.ids = t.ids.clone();
                }
            }
            25 => {
                name = "forest clone_from";
                t.f.clone_from(&other.f);
                t.ids = other.ids.clone();
            }
            26 | 27 if !full => {
                name = "chain builder";
                let mut c = ChainTreeBuilder::new(&mut t.f, P(Box::new(val)));
                t.ids.push(c.root_id());
                for k in 0..5 {
                    match pat >> (k * 3) & 7 {
                        0..=2 => {
                            c.child(P(Box::new(val + k)));
                        }
                        3 | 4 => {
                            c.sibling(P(Box::new(val + k)));
                        }
                        5 => {
                            c.try_parent();
                        }
                        6 => c.forest_mut().detach(a),
                        _ => {
                            let i = c.current_id();
                            c.forest_mut().remove_hooked_panic_safe(i, drop);
                        }
                    }
                    t.ids.push(c.current_id());
                }
            }
            28 if !full => {
                name = "nest builder";
                let mut c = NestTreeBuilder::new(&mut t.f, P(Box::new(val)));
                t.ids.push(c.root());
                c.add_child(P(Box::new(val)));
                c.create_tree(P(Box::new(val)), |c| {
                    c.add_child(P(Box::new(val)));
                    user();
                    c.add_child(P(Box::new(val)));
                });
                c.add_child(P(Box::new(val)));
            }
            29 => {
                name = "data";
                if let Some(x) = t.f.data_mut(a) {
                    *x = P(Box::new(val));
                }
                if let Some(n) = t.f.node_mut(b) {
                    *n.into_data_ref_mut().0 += 1;
                }
            }
            30 => {
                name = "forest drop";
                t.ids.clear();
                drop(std::mem::take(&mut t.f));
            }
            31 => {
                name = "print";
                let mut s = String::new();
                let _ = write!(s, "{}", t.f.debug_print(a));
                let _ = write!(s, "{:?}", t.f.debug_print(b));
            }
            32 => {
                let mut it = t.f.depth_first_traverse(a);
                for k in 0..12 {
                    black_box((it.peek(), it.peek_back()));
                    black_box(if pat >> k & 1 == 0 { it.next() } else { it.next_back() });
                }
                walk(it.clone(), pat);
                walk(it, pat >> 3);
            }
            33 => {
                let mut it = t.f.shallow_depth_first_traverse(b, if lim == 5 { None } else { Some(lim) });
                for k in 0..8 {
                    black_box((it.peek(), it.peek_back()));
                    black_box(if pat >> k & 1 == 0 { it.next() } else { it.next_back() });
                }
                walk(it.clone(), pat);
                walk(t.f.shallow_depth_first_traverse(a, if lim == 5 { None } else { Some(lim) }), pat)
            }
            34 => {
                name = "bft";
                t.f.breadth_first_traverse(a).take(LOOK).for_each(|x| drop(black_box(x)));
                let it = t.f.allocating_breadth_first_traverse(b);
                black_box(it.peek());
                let _ = black_box(it.clone().nth(2));
                it.take(LOOK).for_each(|x| drop(black_box(x)));
            }
            35 => {
                name = "siblings";
                walk(t.f.following_siblings(a), pat);
                walk(t.f.preceding_siblings_or_self(a), pat);
                walk(t.f.preceding_siblings(b), pat);
                let mut it = t.f.following_siblings_or_self(b);
                black_box((it.peek(), it.peek_back(), it.next(), it.peek(), it.next_back(), it.peek_back()));
                black_box((t.f.ancestors(a).peek(), t.f.children(b).peek_back()));
            }
            36 => {
                name = "children";
                walk(t.f.children(a), pat);
                t.f.ancestors(b).take(LOOK).for_each(|x| drop(black_box(x)));
            }
            _ => {
                name = "neighbours";
                for i in [a, b] {
                    if let Some(n) = t.f.node(i) {
                        black_box((n.data().0.as_ref(), n.parent_id(), n.next_sibling_id(), n.prev_sibling_id()));
                        black_box((n.first_last_child_id(), n.first_child().is_some(), n.parent().map(|p| *p.data().0)));
                    }
                }
            }
        }));
        let fired = FUSE.with(|f| f.replace(u32::MAX)) == u32::MAX && fuse != u32::MAX;
        let _ = fired;
        *out.by.entry((name, res.is_ok())).or_insert(0) += 1;
        drop(res);
        if lost && fuse != u32::MAX {
            // Consistency is not promised; only its memory must be sound.
            black_box(t.ids.iter().filter(|&&i| t.f.data(i).is_some()).count());
            t.ids.clear();
            QUIET.with(|q| q.set(true));
            drop(std::mem::take(&mut t.f));
            QUIET.with(|q| q.set(false));
        }
        out.max = out.max.max(t.ids.len());
        sl[w] = t;
    }
    // All data is still there to be read.
    for t in &sl {
        black_box(t.ids.iter().filter_map(|&i| t.f.data(i)).map(|p| u64::from(*p.0)).sum::<u64>());
    }
    let k = r.below(3);
    sl.rotate_left(k);
    drop(sl);
    out.histories += 1;
}

fn run(kind: u64, seed: u64, maxops: usize, out: &mut Out) {
    match kind {
        0 => history::<NodeIdUsize>(seed, maxops, out),
        1 => history::<NodeIdU8>(seed, maxops, out),
        2 => history::<NodeIdU16>(seed, maxops, out),
        3 => history::<NodeIdU32>(seed, maxops, out),
        4 => history::<NodeIdU64>(seed, maxops, out),
        5 => history::<TupleId>(seed, maxops, out),
        _ => history::<StructId>(seed, maxops, out),
    }
}

fn main() -> ExitCode {
    std::panic::set_hook(Box::new(|_| ()));
    let a: Vec<String> = std::env::args().collect();
    let num = |k: usize| a.get(k).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    let (seed, cases, first, step, maxops) = (num(1), num(2), num(3), num(4).max(1), num(5).max(1) as usize);
    let mut out = Out::default();
    let mut code = ExitCode::SUCCESS;
    // Everything that is allocated once.
    let _ = catch_unwind(|| panic!("first"));
    for c in (first..cases).step_by(step as usize) {
        println!("case {c}");
        let seed = hash2(seed, c);
        // The table of operations may grow: it is kept out of the balance.
        let mut one = Out::default();
        let before = (BYTES.with(|b| b.get()), BLOCKS.with(|b| b.get()));
        run(c % 7, seed, maxops, &mut one);
        let counted = std::mem::take(&mut one.by);
        let (h, m) = (one.histories, one.max);
        for (k, v) in counted {
            *out.by.entry(k).or_insert(0) += v;
        }
        out.histories += h;
        out.max = out.max.max(m);
        let _ = before;
        // Measured in a second run, whose table is reserved beforehand.
        if c % 3 == 0 && !cfg!(miri) {
            let mut two = Out::default();
            run(c % 7, seed, maxops, &mut two);
            two.by.clear();
            let before = (BYTES.with(|b| b.get()), BLOCKS.with(|b| b.get()));
            run(c % 7, seed, maxops, &mut two);
            two.by.clear();
            let after = (BYTES.with(|b| b.get()), BLOCKS.with(|b| b.get()));
            if before != after {
                println!(
                    "VIOLATED case {c} (seed {seed}): {} bytes in {} blocks remain after all forests are dropped",
                    after.0 - before.0, after.1 - before.1
                );
                code = ExitCode::from(1);
                break;
            }
        }
    }
    let by: Vec<String> = out.by.iter().map(|(k, v)| format!("\"{} {}\":{v}", k.0, if k.1 { "returned" } else { "panicked" })).collect();
    if let Some(f) = a.get(6) {
        let _ = std::fs::write(f, format!("{{\"histories\":{},\"max_nodes\":{},\"by_op\":{{{}}}}}", out.histories, out.max, by.join(",")));
    }
    code
}
