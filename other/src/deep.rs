//! Runs one operation on a degenerate tree, on a thread with a small stack.
//!
//! Usage: treena-deep OP FAMILY N STACK_KIB [IDS]
//! Prints `built`, `start` and `done` or `wrong ...`.

use std::fmt::Write as _;
use std::io::Write as _;

use treena::dynamic::{AdoptAs, ChainTreeBuilder, DftEvent, Forest, InsertAs, NestTreeBuilder, Node, NodeId, NodeIdU32, NodeIdUsize};
use treena_base::adapt::{backward, forward, BACKWARD, FORWARD};
use treena_base::trees::{self, NONE};

struct Tree<I: NodeId> {
    f: Forest<I, u64>,
    p: Vec<usize>,
    kids: Vec<Vec<usize>>,
    ids: Vec<I>,
    /// Outside of the tree, with a child.
    other: I,
}

fn say(s: &str) {
    println!("{s}");
    let _ = std::io::stdout().flush();
}

impl<I: NodeId> Tree<I> {
    fn new(family: &str, n: usize) -> Self {
        let p = trees::family(family, n, 7);
        let mut f = Forest::new();
        let ids = trees::build(&mut f, &p, |i| i as u64);
        let other = f.create_root(1 << 40);
        f.create_insert(1 << 41, InsertAs::LastChildOf(other));
        let kids = trees::children(&p);
        Tree { f, p, kids, ids, other }
    }
    /// Events (node, is open, depth) in order.
    fn events(&self, top: usize, limit: usize) -> Vec<(u64, bool, usize)> {
        let mut v = vec![];
        let mut st = vec![(top, false, 0)];
        while let Some((n, close, d)) = st.pop() {
            v.push((n as u64, !close, d));
            if !close {
                st.push((n, true, d));
                if d < limit {
                    st.extend(self.kids[n].iter().rev().map(|&k| (k, false, d + 1)));
                }
            }
        }
        v
    }
    fn levels(&self, top: usize) -> Vec<(u64, usize)> {
        let mut v = vec![(top, 0)];
        let mut k = 0;
        while k < v.len() {
            let (n, d) = v[k];
            v.extend(self.kids[n].iter().map(|&c| (c, d + 1)));
            k += 1;
        }
        v.into_iter().map(|(n, d)| (n as u64, d)).collect()
    }
    fn preorder(&self, f: &Forest<I, u64>, top: I) -> Vec<u64> {
        f.depth_first_traverse(top).filter_map(|e| if let DftEvent::Open(n) = e { Some(*n.data()) } else { None }).collect()
    }
    fn want_preorder(&self, top: usize) -> Vec<u64> {
        self.events(top, usize::MAX).into_iter().filter(|e| e.1).map(|e| e.0).collect()
    }
    fn deepest(&self) -> usize {
        self.levels(0).last().map_or(0, |x| x.0 as usize)
    }
    /// A node whose subtree holds about half of the nodes, if there is one.
    fn half(&self) -> usize {
        let n = self.p.len();
        let mut size = vec![1usize; n];
        for i in (1..n).rev() {
            let s = size[i];
            size[self.p[i]] += s;
        }
        (1..n).min_by_key(|&i| size[i].abs_diff(n / 2)).unwrap_or(0)
    }
    fn ancestors(&self, n: usize) -> Vec<u64> {
        let mut v = vec![];
        let mut a = self.p[n];
        while a != NONE {
            v.push(a as u64);
            a = self.p[a];
        }
        v
    }
}

struct Count(u64, u64);
impl std::fmt::Write for Count {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 += s.len() as u64;
        self.1 += s.bytes().filter(|&b| b == b'\n').count() as u64;
        Ok(())
    }
}

fn ev<I: NodeId>(e: DftEvent<Node<'_, I, u64>>) -> (u64, bool) {
    match e {
        DftEvent::Open(n) => (*n.data(), true),
        DftEvent::Close(n) => (*n.data(), false),
    }
}

/// Is the result as expected?
fn code((x, open): (u64, bool)) -> u64 {
    x * 2 + open as u64
}

/// All derived methods of an iterator, from both ends, against those of a list.
fn all_ways<It: DoubleEndedIterator + Clone>(it: It, want: &[u64], f: impl Fn(It::Item) -> u64 + Copy) -> bool
where
    It::Item: Clone,
{
    let ok = (0..BACKWARD).all(|k| backward(it.clone(), k, f) == backward(want.iter().copied(), k, |x| x));
    ok && forward_ways(it, want, f)
}
fn forward_ways<It: Iterator + Clone>(it: It, want: &[u64], f: impl Fn(It::Item) -> u64 + Copy) -> bool
where
    It::Item: Clone,
{
    (0..FORWARD).all(|k| forward(it.clone(), k, f) == forward(want.iter().copied(), k, |x| x))
}

fn op<I: NodeId>(name: &str, t: &mut Tree<I>) -> Option<bool> {
    let n = t.p.len();
    let root = t.ids[0];
    let half = t.half();
    let h = t.ids[half];
    let deep = t.deepest();
    let d = t.ids[deep];
    let all: Vec<(u64, bool)> = t.events(0, usize::MAX).into_iter().map(|e| (e.0, e.1)).collect();
    let want = t.want_preorder(0);
    let want_half = t.want_preorder(half);
    say("start");
    Some(match name {
        "build" => t.preorder(&t.f, root) == want,
        "dft" => t.f.depth_first_traverse(root).map(ev).eq(all.iter().copied()),
        "dft_back" => t.f.depth_first_traverse(root).rev().map(ev).eq(all.iter().rev().copied()),
        "dft_both" => {
            let mut it = t.f.depth_first_traverse(root);
            let (mut a, mut b) = (vec![], vec![]);
            loop {
                it.peek();
                it.peek_back();
                match it.next() {
                    Some(e) => a.push(ev(e)),
                    None => break,
                }
                match it.next_back() {
                    Some(e) => b.push(ev(e)),
                    None => break,
                }
            }
            b.reverse();
            a.extend(b);
            a == all
        }
        "shallow" | "shallow_back" | "shallow_both" | "shallow_unlimited" => {
            let lim = if name == "shallow_unlimited" { None } else { Some(t.ancestors(deep).len() * 2 / 3) };
            let want: Vec<_> = t.events(0, lim.unwrap_or(usize::MAX));
            let mut it = t.f.shallow_depth_first_traverse(root, lim);
            let conv = |(e, k): (DftEvent<Node<'_, I, u64>>, usize)| {
                let (a, b) = ev(e);
                (a, b, k)
            };
            match name {
                "shallow" | "shallow_unlimited" => it.map(conv).eq(want),
                "shallow_back" => it.rev().map(conv).eq(want.into_iter().rev()),
                _ => {
                    let (mut a, mut b) = (vec![], vec![]);
                    loop {
                        match it.next() {
                            Some(e) => a.push(conv(e)),
                            None => break,
                        }
                        match it.next_back() {
                            Some(e) => b.push(conv(e)),
                            None => break,
                        }
                    }
                    b.reverse();
                    a.extend(b);
                    a == want
                }
            }
        }
        "bft" => t.f.breadth_first_traverse(root).map(|(x, k)| (*x.data(), k)).eq(t.levels(0)),
        "abft" => {
            let mut it = t.f.allocating_breadth_first_traverse(root);
            let mut v = vec![];
            loop {
                it.peek();
                match it.next() {
                    Some((x, k)) => v.push((*x.data(), k)),
                    None => break,
                }
            }
            v == t.levels(0)
        }
        "ancestors" => {
            t.f.ancestors(d).map(|x| *x.data()).eq(t.ancestors(deep))
                && t.f.ancestors_or_self(d).count() == t.ancestors(deep).len() + 1
        }
        "siblings" => {
            let k = &t.kids[0];
            let f = &t.f;
            let want: Vec<u64> = k.iter().map(|&x| x as u64).collect();
            let (first, last) = (t.ids[k[0]], t.ids[k[k.len() - 1]]);
            f.children(root).map(|x| *x.data()).eq(want.iter().copied())
                && f.children(root).rev().map(|x| *x.data()).eq(want.iter().rev().copied())
                && f.following_siblings_or_self(first).count() == k.len()
                && f.preceding_siblings(last).count() == k.len() - 1
                && f.preceding_siblings_or_self(last).rev().count() == k.len()
                && f.following_siblings(first).rev().count() == k.len() - 1
        }
        "iter_dft" => {
            let want: Vec<u64> = all.iter().map(|&e| code(e)).collect();
            all_ways(t.f.depth_first_traverse(root), &want, |e| code(ev(e)))
        }
        "iter_shallow" => [None, Some(1), Some(t.ancestors(deep).len() / 2)].into_iter().all(|lim| {
            let want: Vec<u64> = t.events(0, lim.unwrap_or(usize::MAX)).into_iter().map(|e| code((e.0, e.1)) + ((e.2 as u64) << 32)).collect();
            all_ways(t.f.shallow_depth_first_traverse(root, lim), &want, |(e, k)| code(ev(e)) + ((k as u64) << 32))
        }),
        "iter_bft" => {
            let want: Vec<u64> = t.levels(0).iter().map(|e| e.0 + ((e.1 as u64) << 32)).collect();
            let f = |(x, k): (Node<'_, I, u64>, usize)| *x.data() + ((k as u64) << 32);
            forward_ways(t.f.breadth_first_traverse(root), &want, f)
        }
        "iter_abft" => {
            let want: Vec<u64> = t.levels(0).iter().map(|e| e.0 + ((e.1 as u64) << 32)).collect();
            // Not `Clone`.
            (0..FORWARD).all(|k| {
                let f = |(x, k): (Node<'_, I, u64>, usize)| *x.data() + ((k as u64) << 32);
                forward(t.f.allocating_breadth_first_traverse(root), k, f) == forward(want.iter().copied(), k, |x| x)
            })
        }
        "iter_up" => {
            let mut want = t.ancestors(deep);
            let ok = forward_ways(t.f.ancestors(d), &want, |x| *x.data());
            want.insert(0, deep as u64);
            ok && forward_ways(t.f.ancestors_or_self(d), &want, |x| *x.data())
        }
        "iter_lists" => {
            let k: Vec<u64> = t.kids[0].iter().map(|&x| x as u64).collect();
            let f = |x: Node<'_, I, u64>| *x.data();
            let mut ok = all_ways(t.f.children(root), &k, f);
            for at in [0, k.len() / 2, k.len() - 1] {
                let id = t.ids[t.kids[0][at]];
                ok = ok
                    && all_ways(t.f.following_siblings(id), &k[at + 1..], f)
                    && all_ways(t.f.following_siblings_or_self(id), &k[at..], f)
                    && all_ways(t.f.preceding_siblings(id), &k[..at], f)
                    && all_ways(t.f.preceding_siblings_or_self(id), &k[..=at], f);
            }
            ok
        }
        "debug_print" => {
            let mut c = Count(0, 0);
            write!(c, "{}", t.f.debug_print(root)).is_ok() && c.1 == n as u64 - 1
        }
        "debug_print_debug" => {
            let mut c = Count(0, 0);
            write!(c, "{:?}", t.f.debug_print(root)).is_ok() && c.1 == n as u64 - 1
        }
        "forest_debug" => {
            let mut c = Count(0, 0);
            write!(c, "{:?}", t.f).is_ok() && c.0 > n as u64
        }
        "node_debug" => {
            let mut c = Count(0, 0);
            write!(c, "{:?}", t.f.node(d)).is_ok()
        }
        "forest_clone" => {
            let g = t.f.clone();
            t.preorder(&g, root) == want
        }
        "clone_local" => {
            let r = t.f.clone_local_tree(root);
            t.preorder(&t.f, r) == want
        }
        "clone_local_map" => {
            let mut k = 0;
            let r = t.f.clone_local_tree_with_id_mapping(root, |_, _| k += 1);
            t.preorder(&t.f, r) == want && k == n
        }
        "clone_foreign" => {
            let mut g = Forest::new();
            let r = g.clone_foreign_tree(t.f.node(root)?);
            t.preorder(&g, r) == want
        }
        "clone_foreign_map" => {
            let mut g = Forest::new();
            let mut k = 0;
            let r = g.clone_foreign_tree_with_id_mapping(t.f.node(root)?, |_, _| k += 1);
            t.preorder(&g, r) == want && k == n
        }
        "remove" => {
            t.f.remove(root);
            t.ids.iter().all(|&i| t.f.node(i).is_none()) && t.f.node(t.other).is_some()
        }
        "remove_half" => {
            t.f.node_mut(h)?.remove();
            t.f.node(h).is_none() && t.preorder(&t.f, root).len() == n - want_half.len()
        }
        "remove_hooked" => {
            let mut k = 0;
            t.f.remove_hooked(root, |_| k += 1);
            k == n && t.f.node(d).is_none()
        }
        "remove_safe" => {
            let mut k = 0;
            t.f.remove_hooked_panic_safe(root, |_| k += 1);
            k == n && t.f.node(d).is_none()
        }
        "detach" => {
            t.f.detach(h);
            t.preorder(&t.f, h) == want_half && t.preorder(&t.f, root).len() == n - want_half.len()
        }
        "detach_single" => {
            let ok = t.f.detach_single(h).is_ok();
            ok && t.f.node(h)?.first_child_id().is_none() && t.preorder(&t.f, root).len() == n - 1
        }
        "detach_single_root" => {
            // Refused if the root has several children.
            let ok = t.f.detach_single(root).is_ok();
            ok == (t.kids[0].len() <= 1) && t.f.node(root)?.first_child_id().is_none() == ok
        }
        "move_under" => {
            let ok = t.f.insert(root, InsertAs::FirstChildOf(t.other)).is_ok();
            ok && t.preorder(&t.f, root) == want && t.f.ancestors(d).count() == t.ancestors(deep).len() + 1
        }
        "move_out" => {
            let o = t.f.node(t.other)?.first_child_id()?;
            let ok = t.f.insert(h, InsertAs::NextSiblingOf(o)).is_ok();
            ok && t.preorder(&t.f, h) == want_half && t.preorder(&t.f, root).len() == n - want_half.len()
        }
        "adopt_deep" => {
            t.f.node_mut(d)?.try_adopt(t.other, AdoptAs::LastChild).is_ok()
                && t.f.ancestors(t.other).count() == t.ancestors(deep).len() + 1
        }
        "loop_refused" => {
            t.f.insert(root, InsertAs::LastChildOf(d)).is_err() && t.preorder(&t.f, root) == want
        }
        "create_deep" => {
            let i = t.f.create_insert(5, InsertAs::FirstChildOf(d));
            let j = t.f.node_mut(d)?.create(6, AdoptAs::NextSibling);
            t.f.ancestors(i).count() == t.ancestors(deep).len() + 1 && t.f.node(d)?.next_sibling_id() == Some(j)
        }
        "drop" => {
            drop(std::mem::take(&mut t.f));
            true
        }
        "chain_builder" => {
            let mut g = Forest::<I, u64>::new();
            let mut b = ChainTreeBuilder::new(&mut g, 0);
            for k in 1..n {
                b.child(k as u64);
            }
            for _ in 0..n - 1 {
                b.parent();
            }
            let top = b.try_parent().is_none();
            let r = b.root_id();
            let mut b = ChainTreeBuilder::new(&mut g, 0);
            b.child(0);
            for k in 1..n {
                b.sibling(k as u64);
            }
            let r2 = b.root_id();
            top && t.preorder(&g, r).len() == n && g.children(r2).count() == n
        }
        "nest_builder" => {
            let mut g = Forest::<I, u64>::new();
            let mut b = NestTreeBuilder::new(&mut g, 0);
            for k in 0..n {
                if k % 2 == 0 {
                    b.add_child(k as u64);
                } else {
                    b.create_tree(k as u64, |b| b.add_child(1));
                }
            }
            let r = b.root();
            g.children(r).count() == n
        }
        _ => return None,
    })
}

fn go<I: NodeId>(name: &str, family: &str, n: usize) {
    let mut t: Tree<I> = Tree::new(family, n);
    say("built");
    match op(name, &mut t) {
        Some(true) => say("done"),
        Some(false) => say("wrong result"),
        None => say("wrong: lost"),
    }
    drop(t);
    say("dropped");
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (name, family) = (a[1].clone(), a[2].clone());
    let n: usize = a[3].parse().unwrap_or(100);
    let kib: usize = a[4].parse().unwrap_or(128);
    let ids = a.get(5).cloned().unwrap_or_default();
    std::panic::set_hook(Box::new(|i| {
        let m = i.to_string();
        println!("panic: {}", m.chars().take(300).collect::<String>().replace('\n', " "));
    }));
    let r = std::thread::Builder::new()
        .stack_size(kib << 10)
        .spawn(move || {
            match ids.as_str() {
                "u32" => go::<NodeIdU32>(&name, &family, n),
                _ => go::<NodeIdUsize>(&name, &family, n),
            }
        })
        .expect("thread")
        .join();
    if r.is_err() {
        say("wrong: panicked");
    }
}
