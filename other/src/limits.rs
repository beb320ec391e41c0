//! Monitors the node IDs up to and beyond the capacity of their types.
//!
//! Usage: treena-limits SEED ROUNDS8 ROUNDS16 BIG OUT

use std::collections::{BTreeSet, HashMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};
use std::panic::{catch_unwind, AssertUnwindSafe};

use treena::dynamic::{ChainTreeBuilder, Forest, NestTreeBuilder};
use treena::dynamic::{AdoptAs, DftEvent, InsertAs, NodeId, NodeIdU16, NodeIdU32, NodeIdU64, NodeIdU8, NodeIdUsize};
use treena::impl_dynamic_node_id;
use treena_base::rng::Rng;
use treena_base::rng::esc;
use treena_base::trees;

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct Tuple8(NodeIdU8);
impl_dynamic_node_id!(Tuple8, NodeIdU8, 0);
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct Named16 {
    inner: NodeIdU16,
}
impl_dynamic_node_id!(Named16, NodeIdU16, inner);
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct Tuple32(NodeIdU32);
impl_dynamic_node_id!(Tuple32, NodeIdU32, 0);

/// The values in existence.
static LIVE: AtomicI64 = AtomicI64::new(0);

/// A value that is counted.
#[derive(Debug, PartialEq)]
struct Val(u32);
fn val(x: u32) -> Val {
    LIVE.fetch_add(1, Relaxed);
    Val(x)
}
impl Clone for Val {
    fn clone(&self) -> Self {
        val(self.0)
    }
}
impl Drop for Val {
    fn drop(&mut self) {
        LIVE.fetch_sub(1, Relaxed);
    }
}
impl std::fmt::Display for Val {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}

const NIL: usize = usize::MAX;
/// All ways to create a node.
const WAYS: [&str; 13] = [
    "create_root", "create_insert first child", "create_insert last child", "create_insert previous sibling",
    "create_insert next sibling", "NodeMut::create first child", "NodeMut::create last child",
    "NodeMut::create previous sibling", "NodeMut::create next sibling", "chain child", "chain sibling", "nest add_child",
    "clone",
];

/// What the forest must look like.
#[derive(Clone, Default)]
struct Model {
    parent: Vec<usize>,
    kids: Vec<Vec<usize>>,
    data: Vec<u32>,
    dead: Vec<bool>,
}
impl Model {
    fn push(&mut self, parent: usize, at: usize, data: u32) -> usize {
        let n = self.data.len();
        self.parent.push(parent);
        self.kids.push(vec![]);
        self.data.push(data);
        self.dead.push(false);
        if parent != NIL {
            self.kids[parent].insert(at, n);
        }
        n
    }
    fn place(&self, n: usize) -> usize {
        let p = self.parent[n];
        if p == NIL { 0 } else { self.kids[p].iter().position(|&x| x == n).unwrap_or(0) }
    }
    fn unlink(&mut self, n: usize) {
        let p = self.parent[n];
        if p != NIL {
            self.kids[p].retain(|&x| x != n);
            self.parent[n] = NIL;
        }
    }
    fn subtree(&self, n: usize) -> Vec<usize> {
        let mut v = vec![];
        let mut st = vec![n];
        while let Some(x) = st.pop() {
            v.push(x);
            st.extend(self.kids[x].iter().rev());
        }
        v
    }
}

struct Out {
    rounds: u64,
    created: u64,
    refused: u64,
    checked: u64,
    moves: u64,
    seen: HashSet<String>,
    caps: BTreeSet<String>,
}

struct Run<'o, I: NodeId> {
    f: Forest<I, Val>,
    m: Model,
    ids: Vec<I>,
    index: HashMap<I, usize>,
    out: &'o mut Out,
}

/// Marks misbehaviour that might have nothing to do with the limits.
const BEHAVIOUR: &str = "~";

type Res<T> = Result<T, String>;

fn quiet<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
    })
}

impl<I: NodeId + Ord + 'static> Run<'_, I> {
    /// Creates one node in the given way: `Ok(None)` if that panicked.
    fn create(&mut self, way: usize, r: &mut Rng, limit: bool) -> Res<Option<usize>> {
        let data = r.next() as u32;
        let live: Vec<usize> = (0..self.ids.len()).filter(|&i| !self.m.dead[i]).collect();
        let mut a = match r.below(4) {
            0 => live.last().copied(),
            1 => live.first().copied(),
            _ => r.pick(&live),
        };
        let sibling = matches!(way, 3 | 4 | 7 | 8 | 10);
        if sibling && a.map_or(true, |a| self.m.parent[a] == NIL) {
            a = live.iter().rev().copied().find(|&i| self.m.parent[i] != NIL);
        }
        // Nothing to create at: a root then.
        let Some(a) = a else { return self.root(data) };
        let id = self.ids[a];
        let f = &mut self.f;
        let adopt = |w: usize| [AdoptAs::FirstChild, AdoptAs::LastChild, AdoptAs::PreviousSibling, AdoptAs::NextSibling][w];
        let before = self.m.data.len();
        let made = match way {
            0 => return self.root(data),
            1..=4 => {
                let d = match way {
                    1 => InsertAs::FirstChildOf(id),
                    2 => InsertAs::LastChildOf(id),
                    3 => InsertAs::PreviousSiblingOf(id),
                    _ => InsertAs::NextSiblingOf(id),
                };
                quiet(|| f.create_insert(val(data), d))
            }
            5..=8 => quiet(|| f.node_mut(id).map(|mut n| n.create(val(data), adopt(way - 5))).expect("alive")),
            9 | 10 => {
                // The builder first creates a root of its own.
                return self.chain(way, data, r, limit);
            }
            11 => return self.nest(data, r, limit),
            _ => {
                // A leaf or small tree.
                let s = live.iter().rev().copied().find(|&i| self.m.kids[i].is_empty()).unwrap_or(a);
                let src = self.ids[s];
                let d = self.m.data[s];
                let foreign = r.chance(1, 2).then(|| f.clone());
                let made = quiet(|| match &foreign {
                    None => f.clone_local_tree(src),
                    Some(g) => f.clone_foreign_tree(g.node(src).expect("alive")),
                });
                return match made {
                    Ok(id) => {
                        let n = self.m.push(NIL, 0, d);
                        self.learn(n, id).map(Some)
                    }
                    Err(_) => Ok(None),
                };
            }
        };
        match made {
            Ok(id) => {
                let (p, at) = match way {
                    1 | 5 => (a, 0),
                    2 | 6 => (a, self.m.kids[a].len()),
                    3 | 7 => (self.m.parent[a], self.m.place(a)),
                    _ => (self.m.parent[a], self.m.place(a) + 1),
                };
                let n = self.m.push(p, at, data);
                debug_assert_eq!(n, before);
                self.learn(n, id).map(Some)
            }
            Err(_) => Ok(None),
        }
    }

    fn root(&mut self, data: u32) -> Res<Option<usize>> {
        let f = &mut self.f;
        match quiet(|| f.create_root(val(data))) {
            Ok(id) => {
                let n = self.m.push(NIL, 0, data);
                self.learn(n, id).map(Some)
            }
            Err(_) => Ok(None),
        }
    }

    /// A chain of children or siblings, up to the limit.
    fn chain(&mut self, way: usize, data: u32, r: &mut Rng, limit: bool) -> Res<Option<usize>> {
        let mut got = vec![];
        let len = if limit { usize::MAX } else { 2 + r.below(6) };
        let f = &mut self.f;
        let end = quiet(|| {
            let mut b = ChainTreeBuilder::new(f, val(data));
            got.push(b.root_id());
            if len > 1 {
                b.child(val(data.wrapping_add(1)));
                got.push(b.current_id());
            }
            for k in 2..len {
                if way == 9 && k % 64 != 0 { b.child(val(data.wrapping_add(k as u32))) } else { b.sibling(val(data.wrapping_add(k as u32))) };
                got.push(b.current_id());
            }
        });
        let mut last = NIL;
        for (k, id) in got.into_iter().enumerate() {
            let p = match k {
                0 => NIL,
                1 => last,
                _ if way == 9 && k % 64 != 0 => last,
                _ => self.m.parent[last],
            };
            let at = if p == NIL { 0 } else { self.m.kids[p].len() };
            let n = self.m.push(p, at, data.wrapping_add(k as u32));
            last = self.learn(n, id)?;
        }
        Ok(if end.is_ok() && last != NIL { Some(last) } else { None })
    }

    fn nest(&mut self, data: u32, r: &mut Rng, limit: bool) -> Res<Option<usize>> {
        let len = if limit { usize::MAX } else { 2 + r.below(6) };
        let mut got = None;
        let f = &mut self.f;
        let end = quiet(|| {
            let mut b = NestTreeBuilder::new(f, val(data));
            got = Some(b.root());
            for k in 1..len {
                if k % 3 == 2 {
                    b.create_tree(val(data.wrapping_add(k as u32)), |_| ());
                } else {
                    b.add_child(val(data.wrapping_add(k as u32)));
                }
            }
        });
        let Some(root) = got else { return Ok(None) };
        let rn = self.m.push(NIL, 0, data);
        self.learn(rn, root)?;
        let kids: Vec<I> = self.f.children(root).map(|n| n.id()).collect();
        if !limit && kids.len() + 1 != len && end.is_ok() {
            return Err(format!("the nest builder made {} of {} nodes", kids.len() + 1, len));
        }
        let mut last = rn;
        for (k, id) in kids.into_iter().enumerate() {
            let n = self.m.push(rn, k, data.wrapping_add(k as u32 + 1));
            last = self.learn(n, id)?;
        }
        Ok(if end.is_ok() { Some(last) } else { None })
    }

    fn learn(&mut self, n: usize, id: I) -> Res<usize> {
        self.out.created += 1;
        if let Some(&o) = self.index.get(&id) {
            return Err(format!("the ID {id:?} of node {n} has been given to node {o} before"));
        }
        self.index.insert(id, n);
        self.ids.push(id);
        Ok(n)
    }

    /// The forest is as the model says, by all observers.
    fn look(&mut self, all: bool) -> Res<()> {
        match quiet(|| self.look_raw(all)) {
            Ok(r) => r.map_err(|e| format!("{BEHAVIOUR}{e}")),
            Err(e) => Err(format!("{BEHAVIOUR}an observation panics: {e}")),
        }
    }

    fn look_raw(&mut self, all: bool) -> Res<()> {
        self.out.checked += self.ids.len() as u64;
        let (f, m, ids) = (&self.f, &self.m, &self.ids);
        let at = |id: Option<I>| id.map(|i| self.index.get(&i).copied().unwrap_or(usize::MAX - 1)).unwrap_or(NIL);
        for n in 0..ids.len() {
            let Some(node) = f.node(ids[n]) else {
                if m.dead[n] {
                    continue;
                }
                return Err(format!("node {n} of {} is lost", ids.len()));
            };
            if m.dead[n] {
                return Err(format!("the removed node {n} is alive again"));
            }
            let p = m.parent[n];
            let (pos, sibs) = if p == NIL { (0, &[][..]) } else { (m.place(n).min(1 << 30), &m.kids[p][..]) };
            let want = [
                p,
                if p == NIL || pos == 0 { NIL } else { sibs[pos - 1] },
                if p == NIL { NIL } else { sibs.get(pos + 1).copied().unwrap_or(NIL) },
                m.kids[n].first().copied().unwrap_or(NIL),
                m.kids[n].last().copied().unwrap_or(NIL),
            ];
            let have = [
                at(node.parent_id()), at(node.prev_sibling_id()), at(node.next_sibling_id()),
                at(node.first_child_id()), at(node.last_child_id()),
            ];
            if want != have {
                return Err(format!("node {n}: parent, previous, next, first, last are {have:?}, must be {want:?}"));
            }
            if node.data().0 != m.data[n] || f.data(ids[n]).map(|d| d.0) != Some(m.data[n]) || node.id() != ids[n] {
                return Err(format!("node {n} has other data or another ID"));
            }
        }
        if all {
            for n in (0..ids.len()).filter(|&n| !m.dead[n] && m.parent[n] == NIL) {
                let want = m.subtree(n);
                let dft: Vec<usize> = f.depth_first_traverse(ids[n])
                    .filter_map(|e| if let DftEvent::Open(x) = e { Some(at(Some(x.id()))) } else { None }).collect();
                if dft != want {
                    return Err(format!("depth-first order of tree {n}: {} nodes, must be {}", dft.len(), want.len()));
                }
                let mut back: Vec<usize> = f.depth_first_traverse(ids[n]).rev()
                    .filter_map(|e| if let DftEvent::Open(x) = e { Some(at(Some(x.id()))) } else { None }).collect();
                back.reverse();
                let mut abf: Vec<usize> = f.allocating_breadth_first_traverse(ids[n]).map(|(x, _)| at(Some(x.id()))).collect();
                abf.sort_unstable();
                let mut sorted = want.clone();
                sorted.sort_unstable();
                if back != want || abf != sorted {
                    return Err(format!("traversals of tree {n} of {} nodes disagree", want.len()));
                }
                if want.len() < 600 {
                    let mut bf: Vec<usize> = f.breadth_first_traverse(ids[n]).map(|(x, _)| at(Some(x.id()))).collect();
                    bf.sort_unstable();
                    if bf != sorted || f.debug_print(ids[n]).to_string().lines().count() != want.len() {
                        return Err(format!("traversals or print of tree {n} disagree"));
                    }
                }
            }
        }
        Ok(())
    }

    /// Moves, removals and edits on whatever there is.
    fn churn(&mut self, r: &mut Rng, steps: usize) -> Res<()> {
        self.churn_raw(r, steps).map_err(|e| format!("{BEHAVIOUR}{e}"))
    }

    fn churn_raw(&mut self, r: &mut Rng, steps: usize) -> Res<()> {
        for _ in 0..steps {
            self.out.moves += 1;
            let live: Vec<usize> = (0..self.ids.len()).filter(|&i| !self.m.dead[i]).collect();
            if live.len() < 4 {
                break;
            }
            // The highest IDs often.
            let pick = |r: &mut Rng| if r.chance(1, 2) { live[live.len() - 1 - r.below(3)] } else { live[r.below(live.len())] };
            let (x, y) = (pick(r), pick(r));
            let (ix, iy) = (self.ids[x], self.ids[y]);
            match r.below(10) {
                0..=5 => {
                    let mut up = y;
                    let mut below = false;
                    while up != NIL {
                        below |= up == x;
                        up = self.m.parent[up];
                    }
                    if below {
                        continue;
                    }
                    let first = r.chance(1, 2);
                    let d = if first { InsertAs::FirstChildOf(iy) } else { InsertAs::LastChildOf(iy) };
                    let f = &mut self.f;
                    match quiet(|| f.insert(ix, d)) {
                        Ok(Ok(())) => {}
                        e => return Err(format!("insert of node {x} under node {y}: {e:?}")),
                    }
                    self.m.unlink(x);
                    self.m.parent[x] = y;
                    if first { self.m.kids[y].insert(0, x) } else { self.m.kids[y].push(x) }
                }
                6 | 7 => {
                    let f = &mut self.f;
                    quiet(|| f.detach(ix)).map_err(|e| format!("detach of node {x}: {e}"))?;
                    self.m.unlink(x);
                }
                8 => {
                    if let Some(d) = self.f.data_mut(ix) {
                        d.0 ^= 0x55;
                    }
                    self.m.data[x] ^= 0x55;
                }
                _ => {
                    let sub = self.m.subtree(x);
                    if sub.len() > 20 {
                        continue;
                    }
                    let f = &mut self.f;
                    quiet(|| f.remove(ix)).map_err(|e| format!("removal of node {x}: {e}"))?;
                    self.m.unlink(x);
                    for n in sub {
                        self.m.dead[n] = true;
                        self.m.kids[n].clear();
                        self.m.parent[n] = NIL;
                    }
                }
            }
        }
        Ok(())
    }
}

/// Does the like also go wrong far from all limits?
fn control(seed: u64) -> bool {
    let mut out = Out { rounds: 0, created: 0, refused: 0, checked: 0, moves: 0, seen: HashSet::new(), caps: BTreeSet::new() };
    for k in 0..400 {
        let mut r = Rng::new(seed ^ (k << 32) ^ 0xC0);
        let mut x = Run::<NodeIdUsize> { f: Forest::new(), m: Model::default(), ids: vec![], index: HashMap::new(), out: &mut out };
        let n = [40, 254, 254, 300][k as usize % 4];
        let mut go = || -> Res<()> {
            while x.ids.len() < n {
                let w = r.below(WAYS.len());
                if x.create(w, &mut r, false)?.is_none() {
                    return Err("refused".into());
                }
                if r.chance(1, 8) {
                    x.churn(&mut r, 3)?;
                }
            }
            x.look(true)?;
            for _ in 0..4 {
                x.churn(&mut r, 60)?;
                x.look(true)?;
            }
            let copy = x.f.clone();
            x.f = copy;
            x.look(true)
        };
        if go().is_err() {
            return true;
        }
    }
    false
}

fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// IDs of different nodes differ by every means, those of the same node do not.
fn relations<I: NodeId + Ord + Debug>(f: &Forest<I, Val>, ids: &[I], pairs: bool) -> Res<()> {
    let n = ids.len();
    let hs: HashSet<I> = ids.iter().copied().collect();
    let bs: BTreeSet<I> = ids.iter().copied().collect();
    let ds: HashSet<String> = ids.iter().map(|i| format!("{i:?}")).collect();
    let alt: HashSet<String> = ids.iter().map(|i| format!("{i:#?}")).collect();
    if hs.len() != n || bs.len() != n || ds.len() != n || alt.len() != n {
        return Err(format!(
            "{n} nodes have {} IDs by hashing, {} by ordering, {} by debug output", hs.len(), bs.len(), ds.len().min(alt.len())
        ));
    }
    for &i in ids {
        if let Some(x) = f.node(i) {
            let j = x.id();
            if i != j || hash(&i) != hash(&j) || i.cmp(&j).is_ne() || i.partial_cmp(&j) != Some(i.cmp(&j))
                || format!("{i:?}") != format!("{j:?}") || !hs.contains(&j) || !bs.contains(&j)
            {
                return Err(format!("the ID {i:?} and that of its node, {j:?}, differ"));
            }
        }
    }
    let mut sorted = ids.to_vec();
    sorted.sort();
    if sorted.windows(2).any(|w| !(w[0] < w[1]) || w[1] < w[0] || w[0] == w[1]) {
        return Err("the ordering of the IDs is not total".into());
    }
    if pairs {
        for (a, x) in sorted.iter().enumerate() {
            for (b, y) in sorted.iter().enumerate() {
                if x.cmp(y) != a.cmp(&b) || (x == y) != (a == b) || y.cmp(x) != b.cmp(&a) {
                    return Err(format!("the ordering of {x:?} and {y:?} is inconsistent"));
                }
            }
        }
    }
    Ok(())
}

/// Fills a forest to the brim; the given way of creation meets the limit.
fn brim<I: NodeId + Ord + 'static>(name: &str, max: usize, way: usize, mixed: bool, seed: u64, out: &mut Out) -> Res<()> {
    let mut r = Rng::new(seed);
    out.rounds += 1;
    let mut x = Run::<I> { f: Forest::new(), m: Model::default(), ids: vec![], index: HashMap::new(), out };
    let what = |e: String| format!("{name} IDs, limit met by {} (seed {seed}): {e}", WAYS[way]);
    let small = max < 1000;
    // The documented capacity is one below the maximum of the integer.
    let doc = max - 1;
    let stop = if matches!(way, 9..=11) { doc - 3 - r.below(max / 4) } else { doc - r.below(3) };
    while x.ids.len() < stop {
        let left = stop - x.ids.len();
        let w = if !mixed && x.ids.len() > 3 {
            0
        } else if !small && left > 200 {
            // Plain nodes in bulk.
            [0, 0, 0, 2][r.below(4)]
        } else {
            let w = r.below(WAYS.len());
            if left < 10 && matches!(w, 9..=11) { 0 } else { w }
        };
        let made = if !small && left > 200 {
            // Without the candidates' list of `create`.
            let data = r.next() as u32;
            if w == 2 && !x.ids.is_empty() {
                let a = x.ids.len() - 1 - r.below(x.ids.len().min(40));
                let id = x.ids[a];
                let f = &mut x.f;
                let made = quiet(|| f.create_insert(val(data), InsertAs::FirstChildOf(id)));
                match made {
                    Ok(id) => {
                        let n = x.m.push(a, 0, data);
                        x.learn(n, id).map(Some)
                    }
                    Err(_) => Ok(None),
                }
            } else {
                x.root(data)
            }
        } else {
            x.create(w, &mut r, false)
        };
        if made.map_err(what)?.is_none() {
            return Err(what(format!("only {} nodes can be created, by {}", x.ids.len(), WAYS[w])));
        }
        if mixed && small && r.chance(1, 8) {
            x.churn(&mut r, 3).map_err(what)?;
        }
    }
    // The clone must be of a single node, to see the exact limit.
    if way == 12 {
        while x.m.dead.iter().all(|d| *d) {
            x.root(1).map_err(what)?;
        }
    }
    let mut refused = false;
    for _ in 0..max {
        if x.create(way, &mut r, true).map_err(what)?.is_none() {
            refused = true;
            break;
        }
        if x.ids.len() > max {
            return Err(what(format!("{} nodes have been created", x.ids.len())));
        }
    }
    // Chains end with an orphan root of the builder; the capacity counts all.
    let n = x.ids.len();
    x.out.caps.insert(format!("{name}: {n}"));
    if !refused || n < doc || n > max {
        return Err(what(format!("{n} nodes could be created (then refused: {refused}); documented are {doc}")));
    }
    x.out.refused += 1;
    x.look(true).map_err(what)?;
    relations(&x.f, &x.ids, small).map_err(what)?;
    // Nothing can be created any more, in any way, and nothing changes.
    for w in 0..WAYS.len() {
        let before = x.ids.len();
        let values = LIVE.load(Relaxed);
        if x.create(w, &mut r, true).map_err(what)?.is_some() || x.ids.len() != before {
            return Err(what(format!("beyond the limit, {} still creates a node", WAYS[w])));
        }
        let kept = LIVE.load(Relaxed) - values;
        if kept != 0 {
            return Err(what(format!("beyond the limit, {} is refused and {kept} values more are kept than before", WAYS[w])));
        }
        x.out.refused += 1;
        x.out.seen.insert(format!("{name} filled by {} then {}", WAYS[way], WAYS[w]));
        if small || w % 6 == 5 {
            x.look(false).map_err(what)?;
        }
    }
    // A tree that does not fit.
    let big = (0..n).filter(|&i| !x.m.dead[i]).max_by_key(|&i| x.m.kids[i].len()).unwrap_or(0);
    let id = x.ids[big];
    let mut g: Forest<I, Val> = Forest::new();
    let gid = trees::build(&mut g, &trees::family("random", 20, seed), |k| val(k as u32))[0];
    let f = &mut x.f;
    if quiet(|| f.clone_local_tree(id)).is_ok() || quiet(|| f.clone_foreign_tree(g.node(gid).expect("alive"))).is_ok() {
        return Err(what("beyond the limit, a tree can be cloned".into()));
    }
    x.look(true).map_err(what)?;
    // All other operations still work, with the highest IDs too.
    for _ in 0..4 {
        x.churn(&mut r, if small { 60 } else { 25 }).map_err(what)?;
        x.look(true).map_err(what)?;
    }
    let copy = x.f.clone();
    let old = std::mem::replace(&mut x.f, copy);
    x.look(true).map_err(what)?;
    drop(old);
    // After removals: refused, or an ID that nothing has had before.
    let before = x.ids.len();
    if x.create(way, &mut r, false).map_err(what)?.is_some() && before >= max {
        return Err(what("after removals, more nodes than IDs".into()));
    }
    x.look(true).map_err(what)
}

/// Many nodes with a large ID type.
fn many<I: NodeId + Ord + 'static>(name: &str, n: usize, seed: u64, out: &mut Out) -> Res<()> {
    let what = |e: String| format!("{name} IDs, {n} nodes: {e}");
    out.rounds += 1;
    let mut x = Run::<I> { f: Forest::new(), m: Model::default(), ids: vec![], index: HashMap::new(), out };
    let p = trees::family(["random", "recent", "wide"][seed as usize % 3], n, seed);
    let f = &mut x.f;
    let ids = quiet(|| trees::build(f, &p, |i| val(i as u32))).map_err(|e| what(format!("creation panics: {e}")))?;
    let kids = trees::children(&p);
    x.m = Model { parent: p, kids, data: (0..n as u32).collect(), dead: vec![false; n] };
    for (k, id) in ids.into_iter().enumerate() {
        x.learn(k, id).map_err(what)?;
    }
    relations(&x.f, &x.ids, false).map_err(what)?;
    x.look(true).map_err(what)?;
    let mut r = Rng::new(seed);
    x.churn(&mut r, 20).map_err(what)?;
    x.look(true).map_err(what)?;
    x.out.seen.insert(format!("{name} with {n}"));
    Ok(())
}

fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let a: Vec<u64> = std::env::args().skip(1).take(4).map(|x| x.parse().unwrap_or(1)).collect();
    let out_file = std::env::args().nth(5).unwrap_or("/dev/null".into());
    let part = std::env::args().nth(6).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    let parts = std::env::args().nth(7).and_then(|x| x.parse::<u64>().ok()).unwrap_or(1);
    let mut out = Out { rounds: 0, created: 0, refused: 0, checked: 0, moves: 0, seen: HashSet::new(), caps: BTreeSet::new() };
    let (seed, r8, r16, big) = (a[0], a[1], a[2], a[3] as usize);
    let go = |out: &mut Out| -> Res<()> {
        let mut no = 0;
        let mut mine = || {
            no += 1;
            no % parts == part
        };
        for k in 0..r8 {
            for way in 0..WAYS.len() {
                let s = seed * 1_000_003 + k * 100 + way as u64;
                if mine() {
                    brim::<NodeIdU8>("u8", 255, way, k % 4 != 0, s, out)?;
                    brim::<Tuple8>("tuple(u8)", 255, way, k % 4 != 1, s + 7, out)?;
                }
            }
        }
        for k in 0..r16 {
            for way in 0..WAYS.len() {
                let s = seed * 1_000_003 + k * 100 + way as u64;
                if mine() {
                    if way % 2 == k as usize % 2 {
                        brim::<NodeIdU16>("u16", 65535, way, k % 3 != 2, s, out)?;
                    } else {
                        brim::<Named16>("struct(u16)", 65535, way, k % 3 != 2, s, out)?;
                    }
                }
            }
        }
        for (k, n) in [300, 66_000, big].into_iter().enumerate() {
            let s = seed + k as u64;
            if mine() {
                many::<NodeIdU32>("u32", n, s, out)?;
                many::<NodeIdU64>("u64", n, s, out)?;
            }
            if mine() {
                many::<NodeIdUsize>("usize", n, s, out)?;
                many::<Tuple32>("tuple(u32)", n, s, out)?;
            }
        }
        Ok(())
    };
    let res = quiet(|| go(&mut out));
    let list: Vec<String> = out.seen.iter().map(|s| format!("\"{}\"", esc(s))).collect();
    let caps: Vec<String> = out.caps.iter().map(|s| format!("\"{}\"", esc(s))).collect();
    let _ = std::fs::write(
        out_file,
        format!(
            "{{\"rounds\":{},\"created\":{},\"refused\":{},\"checked\":{},\"moves\":{},\"seen\":[{}],\"capacities\":[{}]}}",
            out.rounds, out.created, out.refused, out.checked, out.moves, list.join(","), caps.join(",")
        ),
    );
    match res {
        Ok(Ok(())) => {}
        Ok(Err(m)) if !m.contains("has been given") && control(seed) => {
            println!("ABANDONED, as it also happens far from all limits: {m}");
        }
        Ok(Err(m)) => {
            println!("VIOLATED {m}");
            std::process::exit(1);
        }
        Err(m) => {
            println!("the monitor panics: {m}");
            std::process::exit(3);
        }
    }
}
