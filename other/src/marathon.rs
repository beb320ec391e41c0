//! Long histories on one forest, and histories on forests with hundreds of thousands of nodes.
//!
//! After each operation the nodes around the places that it has to do with are compared with the model, and
//! from time to time everything is.
//!
//! Usage: treena-marathon PROP SEED STEPS WORKER WORKERS OUT REPLAY   (PROP: a property, or ALL)

use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::ExitCode;

use treena::dynamic::{
    AdoptAs, ChainTreeBuilder, DftEvent, Forest, InsertAs, NestTreeBuilder, NodeId, NodeIdU32, NodeIdU64, NodeIdUsize, StructureError,
};
use treena_base::model::{Dest, Er, Model, DESTS};
use treena_base::rng::{hash2, Rng};

type Props = &'static [&'static str];
type Bad = (Props, String);

fn place<I: NodeId>(a: I, d: Dest) -> InsertAs<I> {
    match d {
        Dest::First => InsertAs::FirstChildOf(a),
        Dest::Last => InsertAs::LastChildOf(a),
        Dest::Prev => InsertAs::PreviousSiblingOf(a),
        Dest::Next => InsertAs::NextSiblingOf(a),
    }
}
fn role(d: Dest) -> AdoptAs {
    match d {
        Dest::First => AdoptAs::FirstChild,
        Dest::Last => AdoptAs::LastChild,
        Dest::Prev => AdoptAs::PreviousSibling,
        Dest::Next => AdoptAs::NextSibling,
    }
}
#[allow(unreachable_patterns)]
fn er(e: StructureError) -> Er {
    match e {
        StructureError::AncestorDescendantLoop => Er::Loop,
        StructureError::UnorderableSiblings => Er::Unorderable,
        StructureError::SiblingsWithoutParent => Er::NoParent,
        _ => Er::Text,
    }
}

/// What the forest looks like.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Mode {
    /// Few nodes, very many operations.
    Few,
    /// Hundreds of thousands of nodes; operations on nodes whose IDs are powers of two apart.
    Many,
    /// Long lists.
    Wide,
    /// Deep trees.
    Deep,
}

struct Run<I: NodeId> {
    f: Forest<I, u64>,
    m: Model,
    ids: Vec<I>,
    used: HashSet<I>,
    live: Vec<usize>,
    at: Vec<usize>,
    /// The source of clones from another forest.
    src: Forest<I, u64>,
    src_m: Model,
    src_ids: Vec<I>,
    r: Rng,
    next: u64,
    mode: Mode,
    max: usize,
    checked: u64,
}

const OPS: [(&str, u32, Props); 20] = [
    ("create_root", 2, &["P02", "P01"]),
    ("create_insert", 9, &["P02", "P01"]),
    ("insert", 9, &["P02", "P01"]),
    ("NodeMut::try_adopt", 5, &["P02", "P01"]),
    ("NodeMut::create", 3, &["P02", "P01"]),
    ("detach", 3, &["P04", "P01"]),
    ("NodeMut::detach", 1, &["P04", "P01"]),
    ("detach_single", 3, &["P04", "P01"]),
    ("NodeMut::detach_single", 1, &["P04", "P01"]),
    ("remove", 2, &["P05", "P01"]),
    ("remove_hooked", 2, &["P05", "P01"]),
    ("remove_hooked_panic_safe", 2, &["P05", "P01"]),
    ("clone_local_tree", 2, &["P14"]),
    ("clone_foreign_tree", 2, &["P14"]),
    ("data_mut", 2, &["P08"]),
    ("ChainTreeBuilder", 2, &["P16"]),
    ("NestTreeBuilder", 2, &["P16"]),
    ("depth-first", 2, &["P10", "P11"]),
    ("breadth-first", 2, &["P12"]),
    ("ancestors and lists", 2, &["P13"]),
];

impl<I: NodeId> Run<I> {
    fn new(seed: u64, mode: Mode) -> Self {
        let mut src: Forest<I, u64> = Forest::new();
        let mut src_m = Model::default();
        let mut src_ids = vec![];
        let mut r = Rng::new(seed);
        for i in 0..30usize {
            let id = if i == 0 {
                src.create_root(1 << 40)
            } else {
                let p = r.below(i);
                src.create_insert((1 << 40) + i as u64, InsertAs::LastChildOf(src_ids[p]))
            };
            src_ids.push(id);
            let n = src_m.add((1 << 40) + i as u64, 0);
            if i > 0 {
                let p = src.node(id).and_then(|n| n.parent_id()).and_then(|p| src_ids.iter().position(|&q| q == p)).unwrap_or(0);
                src_m.insert(n, p, Dest::Last);
            }
        }
        let max = match mode {
            Mode::Few => 40,
            Mode::Many => 290_000,
            Mode::Wide => 600,
            Mode::Deep => 500,
        };
        Run { f: Forest::new(), m: Model::default(), ids: vec![], used: HashSet::new(), live: vec![], at: vec![], src, src_m, src_ids, r, next: 0, mode, max, checked: 0 }
    }
    fn val(&mut self) -> u64 {
        self.next += 1;
        self.next
    }
    fn reg(&mut self, id: I, v: u64) -> Result<usize, Bad> {
        if !self.used.insert(id) {
            return Err((&["P07"], format!("{id:?} is given out again")));
        }
        self.ids.push(id);
        let i = self.m.add(v, 0);
        self.at.push(self.live.len());
        self.live.push(i);
        Ok(i)
    }
    fn kill(&mut self, n: usize) {
        self.m.kill(n);
        let k = self.at[n];
        self.live.swap_remove(k);
        if let Some(&o) = self.live.get(k) {
            self.at[o] = k;
        }
    }
    fn pick(&mut self) -> usize {
        let k = self.live.len();
        match self.mode {
            Mode::Deep if self.r.chance(1, 2) => self.live[k - 1 - self.r.below(k.min(3))],
            Mode::Wide if self.r.chance(1, 2) => self.live[self.r.below(k.min(3))],
            _ => self.live[self.r.below(k)],
        }
    }
    /// Another node: often one whose ID differs by a power of two, or is related.
    fn other(&mut self, x: usize) -> usize {
        match self.r.below(4) {
            0 | 1 if self.mode != Mode::Few => {
                let d = 1usize << self.r.below(19);
                let y = if self.r.chance(1, 2) { x.wrapping_sub(d) } else { x + d };
                if self.m.alive(y) { y } else { self.pick() }
            }
            2 => {
                let n = &self.m.nodes[x];
                match (n.parent, n.children.last()) {
                    (Some(p), _) if self.r.chance(1, 2) => self.m.nodes[p].children[self.r.below(self.m.nodes[p].children.len())],
                    (_, Some(&c)) => c,
                    (Some(p), _) => p,
                    _ => self.pick(),
                }
            }
            _ => self.pick(),
        }
    }

    fn around(&self, x: usize, out: &mut BTreeSet<usize>) {
        out.insert(x);
        if !self.m.alive(x) {
            return;
        }
        if let Some((p, k)) = self.m.pos(x) {
            let c = &self.m.nodes[p].children;
            out.extend([p, c[0], c[c.len() - 1]]);
            out.extend(k.checked_sub(1).map(|k| c[k]));
            out.extend(c.get(k + 1).copied());
        }
        let c = &self.m.nodes[x].children;
        if c.len() < 9 {
            out.extend(c.iter().copied());
        } else {
            out.extend([c[0], c[1], c[c.len() - 1], c[c.len() - 2]]);
        }
    }
    fn check(&mut self, x: usize, by: Props) -> Result<(), Bad> {
        self.checked += 1;
        let id = self.ids[x];
        let n = &self.m.nodes[x];
        let Some(h) = self.f.node(id) else {
            return if n.alive { Err((by, format!("node {x} is not alive"))) } else { Ok(()) };
        };
        if !n.alive {
            return Err((if by[0] == "P05" { by } else { &["P07"] }, format!("node {x} is still alive, or alive again")));
        }
        let (sp, sn) = match self.m.pos(x) {
            Some((p, k)) => {
                let c = &self.m.nodes[p].children;
                (k.checked_sub(1).map(|k| self.ids[c[k]]), c.get(k + 1).map(|&x| self.ids[x]))
            }
            None => (None, None),
        };
        let got = (h.parent_id(), h.prev_sibling_id(), h.next_sibling_id(), h.first_child_id(), h.last_child_id());
        let want = (n.parent.map(|p| self.ids[p]), sp, sn, n.children.first().map(|&c| self.ids[c]), n.children.last().map(|&c| self.ids[c]));
        if got != want {
            return Err((by, format!("(parent, previous, next, first, last) of node {x} is {got:?}, not {want:?}")));
        }
        if *h.data() != n.val || self.f.data(id) != Some(&n.val) {
            return Err((if by[0] == "P14" { by } else { &["P08"] }, format!("the data of node {x} is {:?}, not {}", h.data(), n.val)));
        }
        Ok(())
    }
    fn full(&mut self, by: Props) -> Result<(), Bad> {
        for x in 0..self.ids.len() {
            let id = self.ids[x];
            if !self.m.alive(x) {
                if self.f.node(id).is_some() || self.f.data(id).is_some() {
                    return Err((&["P07"], format!("node {x} is still alive, or alive again")));
                }
                continue;
            }
            let c = &self.m.nodes[x].children;
            if self.f.children(id).map(|n| n.id()).ne(c.iter().map(|&c| self.ids[c])) {
                return Err((by, format!("the children of node {x} are wrong")));
            }
            // pos() is linear; the backwards list shows the other links.
            if self.f.children(id).rev().map(|n| n.id()).ne(c.iter().rev().map(|&c| self.ids[c])) {
                return Err((by, format!("the children of node {x} are wrong from the back")));
            }
            let n = self.f.node(id);
            if n.as_ref().and_then(|n| n.parent_id()) != self.m.nodes[x].parent.map(|p| self.ids[p]) || n.map(|n| *n.data()) != Some(self.m.nodes[x].val) {
                return Err((by, format!("the parent or the data of node {x} is wrong")));
            }
        }
        Ok(())
    }
    /// Takes over the nodes of a new tree, which must look like the tree at `x` of `m`.
    fn take_copy(&mut self, root: I, m: Option<usize>) -> Result<Vec<usize>, Bad> {
        let new: Vec<(I, u64)> = self.f.depth_first_traverse(root).take(4000).filter_map(|e| if let DftEvent::Open(n) = e { Some((n.id(), *n.data())) } else { None }).collect();
        let model = if m.is_some() { &self.m } else { &self.src_m };
        let x = m.unwrap_or(self.src_m.nodes.len() - 1 - (self.next as usize % 25));
        let pre = model.preorder(x);
        let plan: Vec<(Option<usize>, u64)> = {
            let mut ix = BTreeMap::new();
            pre.iter().enumerate().map(|(k, &i)| {
                ix.insert(i, k);
                (if k == 0 { None } else { model.nodes[i].parent.map(|p| ix[&p]) }, model.nodes[i].val)
            }).collect()
        };
        if plan.len() != new.len() || plan.iter().zip(&new).any(|(p, n)| p.1 != n.1) {
            return Err((&["P14"], format!("the copy has {} nodes with {:?}.., instead of {} nodes with {:?}..", new.len(), new.get(..3), plan.len(), plan.get(..3))));
        }
        let mut made = vec![];
        for (&(id, _), &(p, v)) in new.iter().zip(&plan) {
            let i = self.reg(id, v)?;
            if let Some(p) = p {
                let p: usize = made[p];
                self.m.insert(i, p, Dest::Last);
            }
            made.push(i);
        }
        Ok(made)
    }

    fn step(&mut self, counts: &mut [u64], sigs: &mut HashSet<u64>) -> Result<(), Bad> {
        let w: Vec<u32> = OPS.iter().map(|o| o.1).collect();
        let mut op = self.r.weighted(&w);
        let n = self.live.len();
        if n < 4 {
            op = self.r.below(2);
        } else if n > self.max && matches!(op, 0 | 1 | 4 | 12 | 13 | 15 | 16) {
            op = 9 + self.r.below(3);
        }
        if n == 0 {
            op = 0;
        }
        let by = OPS[op].2;
        let x = if n == 0 { 0 } else { self.pick() };
        let a = if n == 0 { 0 } else { self.other(x) };
        let d = DESTS[self.r.below(4)];
        let mut seen = BTreeSet::new();
        if n > 0 {
            self.around(x, &mut seen);
            self.around(a, &mut seen);
        }
        let k0 = seen.len() as u64;
        let mut done = false;
        let res = catch_unwind(AssertUnwindSafe(|| self.exec(op, x, a, d, &mut seen, &mut done)));
        match res {
            Ok(r) => r.map_err(|(p, m)| (p, format!("{} (nodes {x} and {a}, {d:?}): {m}", OPS[op].0)))?,
            Err(e) => {
                let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                return Err((by, format!("{} (nodes {x} and {a}, {d:?}) panics: {m}", OPS[op].0)));
            }
        }
        if done {
            counts[op] += 1;
            let far = (x ^ a).leading_zeros() as u64;
            sigs.insert(hash2(op as u64 * 8 + d as u64, hash2(k0 * 64 + far, seen.len() as u64)));
        }
        if n > 0 {
            self.around(x, &mut seen);
            self.around(a, &mut seen);
        }
        let any = self.r.below(self.ids.len().max(1));
        if any < self.ids.len() {
            let id = self.ids[any];
            if self.f.node(id).is_some() != self.m.alive(any) {
                return Err((&["P07"], format!("after {}, node {any} is alive: {}", OPS[op].0, !self.m.alive(any))));
            }
        }
        for y in seen {
            self.check(y, by).map_err(|(p, m)| (p, format!("after {} (nodes {x} and {a}, {d:?}, node {} of the forest): {m}", OPS[op].0, self.ids.len())))?;
        }
        Ok(())
    }

    fn exec(&mut self, op: usize, x: usize, a: usize, d: Dest, seen: &mut BTreeSet<usize>, done: &mut bool) -> Result<(), Bad> {
        let outer = matches!(d, Dest::Prev | Dest::Next);
        let (xi, ai) = (self.ids.get(x).copied(), self.ids.get(a).copied());
        *done = true;
        match op {
            0 => {
                let v = self.val();
                let id = self.f.create_root(v);
                seen.insert(self.reg(id, v)?);
                return Ok(());
            }
            _ => {}
        }
        let (Some(xi), Some(ai)) = (xi, ai) else { return Ok(()) };
        match op {
            1 | 4 => {
                let d = if outer && self.m.nodes[a].parent.is_none() { Dest::Last } else { d };
                let v = self.val();
                let id = if op == 1 {
                    self.f.create_insert(v, place(ai, d))
                } else {
                    self.f.node_mut(ai).expect("[harness] alive").create(v, role(d))
                };
                let i = self.reg(id, v)?;
                self.m.insert(i, a, d);
                self.around(i, seen);
            }
            2 | 3 => {
                let want = self.m.insert_errors(Some(x), a, d);
                let got = if op == 2 { self.f.insert(xi, place(ai, d)) } else { self.f.node_mut(ai).expect("[harness] alive").try_adopt(xi, role(d)) };
                match got {
                    Ok(()) if want.is_empty() => self.m.insert(x, a, d),
                    Err(e) if want.contains(&er(e)) => *done = false,
                    other => return Err((if want.is_empty() { &["P02", "P03"] } else { &["P03"] }, format!("returns {other:?}, allowed are the errors {want:?}"))),
                }
            }
            5 | 6 => {
                *done = self.m.nodes[x].parent.is_some();
                if op == 5 {
                    self.f.detach(xi);
                } else {
                    self.f.node_mut(xi).expect("[harness] alive").detach();
                }
                self.m.unlink(x);
            }
            7 | 8 => {
                let got = if op == 7 { self.f.detach_single(xi) } else { self.f.node_mut(xi).expect("[harness] alive").detach_single() };
                let kids = self.m.nodes[x].children.clone();
                *done = self.m.detach_single(x);
                if got.is_ok() != *done {
                    return Err((&["P04"], format!("returns {got:?}")));
                }
                seen.extend(kids.into_iter().take(20));
            }
            9..=11 => {
                let mut post = self.m.postorder(x);
                // Large trees are removed only now and then.
                let (mut x, mut xi) = (x, xi);
                if post.len() > 60 && !self.r.chance(1, 200) {
                    x = post[0];
                    xi = self.ids[x];
                    post.truncate(1);
                }
                self.around(x, seen);
                let mut got = vec![];
                match op {
                    9 => self.f.remove(xi),
                    10 => self.f.remove_hooked(xi, |v| got.push(v)),
                    _ => self.f.remove_hooked_panic_safe(xi, |v| got.push(v)),
                }
                if op != 9 && post.iter().map(|&i| self.m.nodes[i].val).ne(got.iter().copied()) {
                    return Err((&["P05"], format!("{} values are handed out: {:?}..", got.len(), got.get(..5.min(got.len())))));
                }
                self.m.unlink(x);
                for i in post {
                    self.kill(i);
                    if seen.len() < 200 {
                        seen.insert(i);
                    }
                }
            }
            12 => {
                if self.m.events(x, 3).len() > 200 || self.m.preorder(x).len() > 200 {
                    *done = false;
                    return Ok(());
                }
                let root = if d == Dest::First {
                    self.f.clone_local_tree_with_id_mapping(xi, |_, _| {})
                } else {
                    self.f.clone_local_tree(xi)
                };
                let made = self.take_copy(root, Some(x))?;
                seen.extend(made);
            }
            13 => {
                let k = self.src_m.nodes.len() - 1 - (self.next as usize % 25);
                let n = self.src.node(self.src_ids[k]).expect("[harness] alive");
                let root = if d == Dest::First {
                    self.f.clone_foreign_tree_with_id_mapping(n, |_, _| {})
                } else {
                    self.f.clone_foreign_tree(n)
                };
                let made = self.take_copy(root, None)?;
                seen.extend(made);
            }
            14 => {
                let v = self.val();
                *self.f.data_mut(xi).expect("[harness] alive") = v;
                self.m.nodes[x].val = v;
            }
            15 => {
                let v: Vec<u64> = (0..4).map(|_| self.val()).collect();
                let ids = {
                    let mut b = ChainTreeBuilder::new(&mut self.f, v[0]);
                    let r = b.root_id();
                    let c = b.child(v[1]).current_id();
                    let s = b.sibling(v[2]).current_id();
                    let g = b.child(v[3]).current_id();
                    if b.parent().parent().current_id() != r || b.root_id() != r {
                        return Err((&["P16"], "the chain builder is at a wrong node".into()));
                    }
                    [r, c, s, g]
                };
                let mut ix = vec![];
                for (id, v) in ids.into_iter().zip(v) {
                    ix.push(self.reg(id, v)?);
                }
                for (c, p) in [(1, 0), (2, 0), (3, 2)] {
                    self.m.insert(ix[c], ix[p], Dest::Last);
                }
                seen.extend(ix);
            }
            16 => {
                let v: Vec<u64> = (0..4).map(|_| self.val()).collect();
                let root = {
                    let mut b = NestTreeBuilder::new(&mut self.f, v[0]);
                    b.create_tree(v[1], |b| b.add_child(v[2]));
                    b.add_child(v[3]);
                    b.root()
                };
                let ids: Vec<I> = self.f.depth_first_traverse(root).take(20).filter_map(|e| if let DftEvent::Open(n) = e { Some(n.id()) } else { None }).collect();
                if ids.len() != 4 {
                    return Err((&["P16"], format!("the nested builder makes {} nodes", ids.len())));
                }
                let mut ix = vec![];
                for (id, v) in ids.into_iter().zip(v) {
                    ix.push(self.reg(id, v)?);
                }
                for (c, p) in [(1, 0), (2, 1), (3, 0)] {
                    self.m.insert(ix[c], ix[p], Dest::Last);
                }
                seen.extend(ix);
            }
            17 => {
                let ev = self.m.events(x, usize::MAX);
                let ids = &self.ids;
                let conv = |e: DftEvent<treena::dynamic::Node<'_, I, u64>>| match e {
                    DftEvent::Open(n) => (true, n.id()),
                    DftEvent::Close(n) => (false, n.id()),
                };
                if ev.len() > 3000 && !self.r.chance(1, 50) {
                    let head = ev.iter().take(40).map(|e| (e.0, ids[e.1]));
                    let tail = ev.iter().rev().take(40).map(|e| (e.0, ids[e.1]));
                    if self.f.depth_first_traverse(xi).take(40).map(conv).ne(head) || self.f.depth_first_traverse(xi).rev().take(40).map(conv).ne(tail) {
                        return Err((&["P10"], "wrong events".into()));
                    }
                } else if self.f.depth_first_traverse(xi).map(conv).ne(ev.iter().map(|e| (e.0, ids[e.1])))
                    || self.f.depth_first_traverse(xi).rev().map(conv).ne(ev.iter().rev().map(|e| (e.0, ids[e.1])))
                {
                    return Err((&["P10"], "wrong events".into()));
                }
                let lim = 1 + d as usize;
                let ev = self.m.events(x, lim);
                if self.f.shallow_depth_first_traverse(xi, Some(lim)).map(|(e, k)| (conv(e), k)).ne(ev.iter().map(|e| ((e.0, ids[e.1]), e.2))) {
                    return Err((&["P11"], format!("wrong events with limit {lim}")));
                }
            }
            18 => {
                let b = self.m.bfs(x);
                let ids = &self.ids;
                let want = b.iter().map(|&(n, d)| (ids[n], d));
                if self.f.allocating_breadth_first_traverse(xi).map(|(n, d)| (n.id(), d)).ne(want.clone()) {
                    return Err((&["P12"], "the allocating traversal is wrong".into()));
                }
                if self.f.breadth_first_traverse(xi).map(|(n, d)| (n.id(), d)).take(60).ne(want.take(60)) {
                    return Err((&["P12"], "the traversal is wrong".into()));
                }
            }
            _ => {
                let ids = &self.ids;
                let mut up = vec![];
                let mut c = Some(x);
                while let Some(k) = c {
                    up.push(ids[k]);
                    c = self.m.nodes[k].parent;
                }
                if self.f.ancestors_or_self(xi).map(|n| n.id()).ne(up) {
                    return Err((&["P13"], "the ancestors are wrong".into()));
                }
                if let Some((p, k)) = self.m.pos(x) {
                    let c = &self.m.nodes[p].children;
                    if self.f.following_siblings(xi).map(|n| n.id()).ne(c[k + 1..].iter().map(|&c| ids[c]))
                        || self.f.preceding_siblings_or_self(xi).map(|n| n.id()).ne(c[..=k].iter().map(|&c| ids[c]))
                    {
                        return Err((&["P13"], "the siblings are wrong".into()));
                    }
                }
            }
        }
        Ok(())
    }
}

#[derive(Default)]
struct Out {
    by: BTreeMap<String, u64>,
    sigs: HashSet<u64>,
    steps: u64,
    checked: u64,
    created: usize,
    most: usize,
}

fn run<I: NodeId>(seed: u64, mode: Mode, steps: u64, out: &mut Out) -> Result<(), Bad> {
    let mut w: Run<I> = Run::new(seed, mode);
    let mut counts = [0; OPS.len()];
    if mode == Mode::Many {
        // Short lists over a large range of IDs.
        for _ in 0..280_000 {
            let v = w.val();
            let k = w.ids.len();
            let p = if k > 0 && w.r.chance(7, 8) {
                let p = if w.r.chance(1, 2) { w.r.below(k) } else { k - 1 - w.r.below(k.min(20)) };
                Some(p).filter(|&p| w.m.nodes[p].children.len() < 5)
            } else {
                None
            };
            let id = match p {
                Some(p) => w.f.create_insert(v, InsertAs::LastChildOf(w.ids[p])),
                None => w.f.create_root(v),
            };
            let i = w.reg(id, v)?;
            if let Some(p) = p {
                w.m.insert(i, p, Dest::Last);
            }
        }
        w.full(&["P01", "P02"])?;
    }
    let part = (steps / 5).max(1);
    let mut r = Ok(());
    for k in 0..steps {
        out.steps += 1;
        r = w.step(&mut counts, &mut out.sigs);
        if r.is_ok() && k % part == part - 1 {
            r = w.full(&["P01"]);
            if r.is_ok() && (k / part) % 2 == 0 {
                // Go on with a clone.
                let c = w.f.clone();
                w.f = c;
                r = w.full(&["P15"]);
            }
        }
        if r.is_err() {
            break;
        }
        out.most = out.most.max(w.live.len());
    }
    for (o, c) in OPS.iter().zip(counts) {
        *out.by.entry(o.0.to_string()).or_default() += c;
    }
    out.checked += w.checked;
    out.created += w.ids.len();
    r.map_err(|(p, m)| (p, format!("[{mode:?}, operation {}] {m}", out.steps)))
}

fn main() -> ExitCode {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 8 {
        eprintln!("usage: treena-marathon PROP SEED STEPS WORKER WORKERS OUT REPLAY");
        return ExitCode::from(3);
    }
    let num = |i: usize| a[i].parse::<u64>().unwrap_or(0);
    let (prop, seed, steps, worker, workers) = (a[1].as_str(), num(2), num(3), num(4), num(5).max(1));
    std::panic::set_hook(Box::new(|_| {}));
    let mut out = Out::default();
    let mut bad = None;
    let mut other = None;
    let mut k = worker;
    while k < 8 {
        let s = hash2(seed, k + 1);
        let r = match k {
            0 => run::<NodeIdUsize>(s, Mode::Few, steps, &mut out),
            1 => run::<NodeIdU32>(s, Mode::Few, steps, &mut out),
            2 => run::<NodeIdUsize>(s, Mode::Many, steps / 4, &mut out),
            3 => run::<NodeIdU32>(s, Mode::Many, steps / 4, &mut out),
            4 => run::<NodeIdU64>(s, Mode::Wide, steps / 2, &mut out),
            5 => run::<NodeIdUsize>(s, Mode::Deep, steps / 4, &mut out),
            6 => run::<NodeIdU64>(s, Mode::Few, steps, &mut out),
            _ => run::<NodeIdUsize>(s, Mode::Wide, steps / 2, &mut out),
        };
        if let Err((props, msg)) = r {
            if prop == "ALL" || props.contains(&prop) {
                bad = Some((k, msg));
                break;
            }
            other.get_or_insert(msg);
        }
        k += workers;
    }
    let esc = |s: &str| s.replace('\\', "/").replace('"', "'").replace('\n', " ");
    let by = out.by.iter().map(|(k, v)| format!("\"{k}\": {v}")).collect::<Vec<_>>().join(", ");
    let js = format!(
        "{{\"operations\": {}, \"nodes_created\": {}, \"most_alive_at_once\": {}, \"nodes_compared\": {}, \"distinct\": {}, \"effective_by_op\": {{{by}}}, \"other\": {}}}\n",
        out.steps, out.created, out.most, out.checked, out.sigs.len(), other.as_ref().map_or("null".into(), |o| format!("\"{}\"", esc(o)))
    );
    if std::fs::write(&a[6], js).is_err() {
        return ExitCode::from(3);
    }
    if let Some((k, msg)) = bad {
        let msg: String = msg.chars().take(1500).collect();
        let _ = std::fs::write(&a[7], format!("treena-marathon {prop} {seed} {steps} {k} 8 (long histories and large forests)\n{msg}\n"));
        println!("VIOLATED long history {k}: {}", esc(&msg));
        return ExitCode::from(1);
    }
    ExitCode::SUCCESS
}
