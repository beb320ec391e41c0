//! Counts heap allocations during operations that must not allocate.
//!
//! Usage: treena-alloc SEED ROUNDS OUT

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};

use treena::dynamic::{
    AdoptAs, ChainTreeBuilder, DftEvent, Forest, InsertAs, Node, NodeId, NodeIdU16, NodeIdU32, NodeIdU64, NodeIdU8, NodeIdUsize,
};
use treena_base::adapt::{backward, forward};
use treena_base::kinds::{StructId, TupleId};
use treena_base::rng::{hash2, Rng};
use treena_base::trees;

struct Counting;
thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
}
fn note() {
    let _ = ON.try_with(|on| {
        if on.get() {
            COUNT.with(|c| c.set(c.get() + 1));
        }
    });
}
// SAFETY: forwards to the system allocator.
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note();
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note();
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note();
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Counting = Counting;

/// Number of allocations in `f`; `None` if it panicked.
fn count<R>(f: impl FnOnce() -> R) -> (u64, Option<R>) {
    let r = catch_unwind(AssertUnwindSafe(|| {
        COUNT.with(|c| c.set(0));
        ON.with(|c| c.set(true));
        let r = f();
        ON.with(|c| c.set(false));
        r
    }));
    ON.with(|c| c.set(false));
    (COUNT.with(|c| c.get()), r.ok())
}

#[derive(Default)]
struct Out {
    by_op: BTreeMap<&'static str, u64>,
    seen: HashSet<u64>,
    panics: u64,
    steps: u64,
    trees: u64,
    bad: Option<String>,
    samples: Vec<String>,
}

struct Ctx<'o> {
    out: &'o mut Out,
    what: String,
    shape: u64,
}
impl Ctx<'_> {
    fn run<R>(&mut self, name: &'static str, key: u64, f: impl FnOnce() -> R) -> Option<R> {
        let (n, r) = count(f);
        *self.out.by_op.entry(name).or_insert(0) += 1;
        if r.is_none() {
            self.out.panics += 1;
            return None;
        }
        self.out.seen.insert(hash2(hash2(self.shape, key), name.len() as u64 * 31 + name.as_bytes()[0] as u64));
        if n > 0 && self.out.bad.is_none() {
            self.out.bad = Some(format!("{name} allocates {n} times on {}", self.what));
        }
        r
    }
}

/// Drives an iterator from both ends by a bit pattern, without allocating.
fn drive<T>(mut it: impl DoubleEndedIterator<Item = T>, mut pat: u64, max: usize) -> u64 {
    let mut n = 0;
    for _ in 0..max {
        let x = if pat & 1 == 0 { it.next() } else { it.next_back() };
        pat = pat.rotate_right(1);
        if x.is_none() {
            break;
        }
        n += 1;
    }
    let _ = it.size_hint();
    n
}

/// Payloads of several sizes, with and without heap memory.
trait Pay: Clone {
    fn of(i: usize) -> Self;
    fn get(&self) -> u64;
    fn bump(&mut self);
}
impl Pay for u32 {
    fn of(i: usize) -> u32 {
        i as u32
    }
    fn get(&self) -> u64 {
        u64::from(*self)
    }
    fn bump(&mut self) {
        *self += 1;
    }
}
impl Pay for () {
    fn of(_: usize) {}
    fn get(&self) -> u64 {
        0
    }
    fn bump(&mut self) {}
}
impl Pay for String {
    fn of(i: usize) -> String {
        format!("n{i}")
    }
    fn get(&self) -> u64 {
        self.len() as u64
    }
    fn bump(&mut self) {
        self.make_ascii_uppercase();
    }
}
impl Pay for [u64; 40] {
    fn of(i: usize) -> Self {
        [i as u64; 40]
    }
    fn get(&self) -> u64 {
        self[39]
    }
    fn bump(&mut self) {
        self[39] += 1;
    }
}
impl Pay for Vec<Box<u8>> {
    fn of(i: usize) -> Self {
        vec![Box::new(i as u8); i % 3]
    }
    fn get(&self) -> u64 {
        self.first().map_or(0, |x| u64::from(**x))
    }
    fn bump(&mut self) {
        self.pop();
    }
}

fn tree<I: NodeId + 'static, T: Pay>(family: &str, n: usize, seed: u64, out: &mut Out) {
    let mut r = Rng::new(seed);
    let p = trees::family(family, n, seed);
    let mut f: Forest<I, T> = Forest::new();
    let ids = trees::build(&mut f, &p, T::of);
    let mut m = Vec::new();
    // Some changes, so that the links have a history.
    for _ in 0..r.below(6) {
        let (a, b) = (ids[r.below(n)], ids[r.below(n)]);
        let _ = catch_unwind(AssertUnwindSafe(|| match r.below(4) {
            0 => f.insert(a, InsertAs::LastChildOf(b)).is_ok(),
            1 => f.detach_single(a).is_ok(),
            2 if n > 3 && a != ids[0] && r.chance(1, 3) => {
                f.remove(a);
                true
            }
            _ => f.insert(a, InsertAs::NextSiblingOf(b)).is_ok(),
        }));
    }
    let root = ids[0];
    m.extend(ids.iter().copied().filter(|&i| f.node(i).is_some()));
    if m.is_empty() {
        return;
    }
    let root = if f.node(root).is_some() { root } else { m[0] };
    let what = format!("a {family} of {n} nodes (seed {seed}, {} live)", m.len());
    out.trees += 1;
    if out.samples.len() < 6 && seed % 17 == 0 {
        out.samples.push(what.clone());
    }
    let mut c = Ctx { out, what, shape: hash2(n as u64, seed) };
    for k in 0..m.len().min(12) {
        let x = if k == 0 { root } else { m[r.below(m.len())] };
        let Some(node) = f.node(x) else { continue };
        let pat = r.next();
        let some = if n > 5000 { 6000 } else if r.chance(1, 2) { usize::MAX } else { 1 + r.below(2 * n) };
        let key = hash2(k as u64, pat);
        let mut steps = 0;
        c.run("node and data", key, || {
            let n = f.node(x)?;
            Some((n.data().get(), f.data(x)?.get(), n.id()))
        });
        for &i in ids.iter().rev().take(3) {
            c.run("lookup of any ID", key, || (f.node(i).is_some(), f.data(i).is_some()));
        }
        c.run("neighbours", key, || {
            (
                node.parent_id().is_some(), node.next_sibling_id().is_some(), node.prev_sibling_id().is_some(),
                node.first_child_id().is_some(), node.last_child_id().is_some(), node.first_last_child_id().is_some(),
                node.parent().is_some(), node.next_sibling().is_some(), node.prev_sibling().is_some(),
                node.first_child().is_some(), node.last_child().is_some(), node.first_last_child().is_some(),
            )
        });
        let data = |e: DftEvent<Node<'_, I, T>>| match e {
            DftEvent::Open(n) => n.data().get(),
            DftEvent::Close(n) => n.data().get(),
        };
        let mut sum = 0u64;
        c.run("depth-first", key, || steps += drive(f.depth_first_traverse(x).map(|e| sum += data(e)), pat, some));
        c.run("depth-first of the node", key, || steps += drive(node.depth_first_traverse(), pat, some));
        c.run("depth-first with peeks", key, || {
            let mut it = f.depth_first_traverse(x);
            let mut pat = pat;
            for _ in 0..some {
                let _ = (it.peek(), it.peek_back());
                let e = if pat & 2 == 0 { it.next() } else { it.next_back() };
                pat = pat.rotate_right(1);
                if e.is_none() {
                    break;
                }
            }
            let _ = (it.peek(), it.peek_back(), it.clone().next());
        });
        for lim in [None, Some(r.below(4)), Some(r.below(n + 1))] {
            c.run("shallow depth-first", hash2(key, lim.map_or(99, |x| x as u64)), || {
                steps += drive(f.shallow_depth_first_traverse(x, lim), pat, some)
            });
            c.run("shallow depth-first of the node, with peeks", hash2(key, lim.map_or(99, |x| x as u64)), || {
                let mut it = node.shallow_depth_first_traverse(lim);
                let mut pat = pat;
                for _ in 0..some {
                    let _ = (it.peek(), it.peek_back(), it.max_depth());
                    let e = if pat & 4 == 0 { it.next() } else { it.next_back() };
                    pat = pat.rotate_right(1);
                    if e.is_none() {
                        break;
                    }
                }
                let _ = (it.peek(), it.peek_back(), it.clone().next());
            });
        }
        c.run("breadth-first", key, || {
            let mut it = f.breadth_first_traverse(x);
            let mut k = 0;
            while k < some && it.next().is_some() {
                k += 1;
            }
            let _ = it.clone().next();
            k
        });
        c.run("breadth-first of the node", key, || node.breadth_first_traverse().take(some).map(|x| x.1).max());
        c.run("ancestors", key, || {
            let mut it = f.ancestors(x);
            let _ = it.peek();
            let a = it.next().is_some();
            let _ = it.peek();
            (a, it.count(), f.ancestors_or_self(x).last().is_some(), node.ancestors().count(), node.ancestors_or_self().count())
        });
        c.run("children", key, || {
            steps += drive(f.children(x), pat, some) + drive(node.children(), !pat, some);
            let mut it = node.children();
            let _ = (it.peek(), it.peek_back(), it.next_back().is_some(), it.peek(), it.peek_back(), it.clone().next());
        });
        c.run("following siblings", key, || {
            steps += drive(f.following_siblings(x), pat, some) + drive(f.following_siblings_or_self(x), pat, some);
            steps += drive(node.following_siblings(), !pat, some) + drive(node.following_siblings_or_self(), !pat, some);
        });
        c.run("preceding siblings", key, || {
            steps += drive(f.preceding_siblings(x), pat, some) + drive(f.preceding_siblings_or_self(x), pat, some);
            steps += drive(node.preceding_siblings(), !pat, some) + drive(node.preceding_siblings_or_self(), !pat, some);
            let mut it = node.preceding_siblings();
            let _ = (it.peek(), it.peek_back());
        });
        c.run("iterator adaptors", key, || {
            (
                f.depth_first_traverse(x).count(), f.depth_first_traverse(x).nth(3).is_some(), f.depth_first_traverse(x).last().is_some(),
                f.children(x).nth_back(1).is_some(), node.children().rev().skip(1).step_by(2).count(),
                f.shallow_depth_first_traverse(x, Some(2)).rfold(0, |a, _| a + 1), f.depth_first_traverse(x).rev().nth(2).is_some(),
            )
        });
        // The derived methods of all iterators.
        let at = |n: Node<'_, I, T>| n.data().get();
        for _ in 0..if n > 5000 { 2 } else { 4 } {
            let (how, back, which) = (r.below(64), r.chance(1, 2), r.below(10));
            let lim = Some(r.below(5)).filter(|&l| l < 4);
            if n > 1500 && which == 2 {
                continue;
            }
            let key = hash2(key, (how * 32 + which * 2) as u64 + u64::from(back));
            c.run("derived methods of iterators", key, || match (which, back) {
                (0, false) => forward(f.depth_first_traverse(x), how, data),
                (0, true) => backward(f.depth_first_traverse(x), how, data),
                (1, false) => forward(f.shallow_depth_first_traverse(x, lim), how, |e| data(e.0)),
                (1, true) => backward(f.shallow_depth_first_traverse(x, lim), how, |e| data(e.0)),
                (2, _) => forward(f.breadth_first_traverse(x), how, |e| at(e.0)),
                (3, _) => forward(f.ancestors(x), how, at),
                (4, _) => forward(f.ancestors_or_self(x), how, at),
                (5, false) => forward(f.children(x), how, at),
                (5, true) => backward(f.children(x), how, at),
                (6, false) => forward(f.following_siblings(x), how, at),
                (6, true) => backward(f.following_siblings(x), how, at),
                (7, false) => forward(f.following_siblings_or_self(x), how, at),
                (7, true) => backward(f.following_siblings_or_self(x), how, at),
                (8, false) => forward(f.preceding_siblings(x), how, at),
                (8, true) => backward(f.preceding_siblings(x), how, at),
                (_, false) => forward(f.preceding_siblings_or_self(x), how, at),
                (_, true) => backward(f.preceding_siblings_or_self(x), how, at),
            });
        }
        c.out.steps += steps;
    }
    // Changes: detaching and moving.
    for k in 0..24 {
        let (a, b) = (m[r.below(m.len())], m[r.below(m.len())]);
        let key = hash2(k, r.next());
        let w = r.below(4);
        let ins = [InsertAs::FirstChildOf(b), InsertAs::LastChildOf(b), InsertAs::PreviousSiblingOf(b), InsertAs::NextSiblingOf(b)][w];
        let ad = [AdoptAs::FirstChild, AdoptAs::LastChild, AdoptAs::PreviousSibling, AdoptAs::NextSibling][w];
        match r.below(9) {
            0 => {
                c.run("Forest::detach", key, || f.detach(a));
            }
            1 => {
                c.run("Forest::detach_single", key, || f.detach_single(a).is_ok());
            }
            2 => {
                c.run("NodeMut::detach", key, || f.node_mut(a).map(|mut n| n.detach()));
            }
            3 => {
                c.run("NodeMut::detach_single", key, || f.node_mut(a).map(|mut n| n.detach_single().is_ok()));
            }
            4 => {
                c.run("NodeMut::try_adopt", key, || f.node_mut(b).map(|mut n| n.try_adopt(a, ad).is_ok()));
            }
            5 => {
                c.run("data_mut", key, || {
                    f.data_mut(a)?.bump();
                    let mut n = f.node_mut(a)?;
                    n.data_mut().bump();
                    let _ = (n.id(), n.data().get(), n.node().id(), n.forest().data(b).is_some());
                    n.into_data_ref_mut().bump();
                    f.node_mut(a).map(|n| n.into_node().parent_id().is_some())
                });
            }
            _ => {
                c.run("Forest::insert", key, || f.insert(a, ins).is_ok());
            }
        }
    }
    c.run("chain builder, looking", 1, || ());
    let mut b = ChainTreeBuilder::new(&mut f, T::of(0));
    b.child(T::of(1)).child(T::of(2));
    c.run("chain builder, looking", 2, || {
        let _ = (b.root_id(), b.current_id(), b.forest().node(root).is_some());
        b.parent().try_parent().is_some()
    });
}

fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = a.get(1).and_then(|x| x.parse().ok()).unwrap_or(1);
    let rounds: u64 = a.get(2).and_then(|x| x.parse().ok()).unwrap_or(10);
    let file = a.get(3).cloned().unwrap_or("/dev/null".into());
    let mut out = Out::default();
    for k in 0..rounds {
        let mut r = Rng::new(hash2(seed, k));
        let fam = trees::FAMILIES[k as usize % trees::FAMILIES.len()];
        let small = 1 + r.below(40);
        let n = if r.chance(1, 300) { 20_000 + r.below(20_000) } else if r.chance(1, 6) { 1 + r.below(1500) } else { small };
        let s = r.next();
        match r.below(11) {
            0 => tree::<NodeIdU8, u32>(fam, n.min(240), s, &mut out),
            1 => tree::<NodeIdU16, u32>(fam, n, s, &mut out),
            2 => tree::<NodeIdU32, u32>(fam, n, s, &mut out),
            3 => tree::<NodeIdU64, u32>(fam, n, s, &mut out),
            4 => tree::<TupleId, u32>(fam, n, s, &mut out),
            5 => tree::<StructId, String>(fam, n, s, &mut out),
            6 => tree::<NodeIdUsize, ()>(fam, n, s, &mut out),
            7 => tree::<NodeIdU32, [u64; 40]>(fam, n.min(2000), s, &mut out),
            8 => tree::<NodeIdUsize, Vec<Box<u8>>>(fam, n, s, &mut out),
            9 => tree::<NodeIdU64, String>(fam, n, s, &mut out),
            _ => tree::<NodeIdUsize, u32>(fam, n, s, &mut out),
        }
        if out.bad.is_some() {
            break;
        }
    }
    let by: Vec<String> = out.by_op.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect();
    let sm: Vec<String> = out.samples.iter().map(|v| format!("\"{v}\"")).collect();
    let _ = std::fs::write(file, format!(
        "{{\"trees\":{},\"steps\":{},\"panics\":{},\"distinct\":{},\"by_op\":{{{}}},\"samples\":[{}]}}",
        out.trees, out.steps, out.panics, out.seen.len(), by.join(","), sm.join(",")
    ));
    // The monitor itself must be able to see an allocation.
    let (n, _) = count(|| std::hint::black_box(vec![1u8]));
    if n != 1 {
        println!("the monitor does not see allocations");
        std::process::exit(3);
    }
    if let Some(m) = out.bad {
        println!("VIOLATED {m}");
        std::process::exit(1);
    }
}
