//! Workload generators.

use crate::kinds::Kind;
use crate::model::{Dest, Model, DESTS};
use crate::ops::{ChainStep, Inj, NestStep, Op, RemKind, BEYOND};
use crate::rng::Rng;
use crate::world::World;

/// Weights of operations.
#[derive(Clone, Copy, Debug)]
pub struct Weights {
    pub root: u32,
    pub create: u32,
    pub insert: u32,
    pub detach: u32,
    pub detach1: u32,
    pub remove: u32,
    pub clone: u32,
    pub import: u32,
    pub cloneforest: u32,
    pub set: u32,
    pub chain: u32,
    pub nest: u32,
    pub drop: u32,
    pub query: u32,
}

pub const BASE: Weights = Weights {
    root: 6,
    create: 30,
    insert: 40,
    detach: 8,
    detach1: 8,
    remove: 8,
    clone: 4,
    import: 2,
    cloneforest: 1,
    set: 3,
    chain: 2,
    nest: 2,
    drop: 0,
    query: 0,
};

#[derive(Clone, Copy, Debug)]
pub struct Profile {
    pub w: Weights,
    /// Preferred number of live nodes per slot.
    pub target: usize,
    /// Percentage of user-code panics where possible.
    pub inject: usize,
    /// Percentage of references to nodes that are not alive.
    pub dead: usize,
    pub slots: usize,
}

pub struct Gen {
    pub rng: Rng,
    pub prof: Profile,
    recent: Vec<u32>,
    /// No deep trees: some observers are quadratic in the depth.
    pub flat: bool,
    /// The shape to begin with.
    pub style: Option<usize>,
}

impl Gen {
    pub fn new(rng: Rng, prof: Profile) -> Self {
        Gen { rng, prof, recent: vec![], flat: false, style: None }
    }

    fn live(&mut self, m: &Model) -> Option<usize> {
        if m.live == 0 {
            return None;
        }
        // Rejection sampling, then scanning.
        if m.nodes.len() > 256 && self.rng.chance(1, 2) {
            for _ in 0..12 {
                let i = m.nodes.len() - 1 - self.rng.below(64);
                if m.nodes[i].alive {
                    return Some(i);
                }
            }
        }
        for _ in 0..8 {
            let i = self.rng.below(m.nodes.len());
            if m.nodes[i].alive {
                return Some(i);
            }
        }
        let k = self.rng.below(m.nodes.len());
        (0..m.nodes.len()).map(|d| (k + d) % m.nodes.len()).find(|&i| m.nodes[i].alive)
    }

    fn node(&mut self, m: &Model) -> u32 {
        if self.rng.below(100) < self.prof.dead {
            if self.rng.chance(1, 4) {
                return BEYOND + self.rng.below(4) as u32;
            }
            let dead: Vec<usize> = (0..m.nodes.len()).filter(|&i| !m.nodes[i].alive).collect();
            if let Some(d) = self.rng.pick(&dead) {
                return d as u32;
            }
        }
        if self.rng.chance(1, 4) {
            if let Some(r) = self.rng.pick(&self.recent.clone()) {
                if m.alive(r as usize) {
                    return r;
                }
            }
        }
        let n = self.live(m).unwrap_or(0);
        if self.rng.chance(1, 6) && m.alive(n) {
            return m.root_of(n) as u32;
        }
        n as u32
    }

    /// A node related to the given one.
    fn related(&mut self, m: &Model, n: u32) -> u32 {
        let i = n as usize;
        if !m.alive(i) {
            return self.node(m);
        }
        let sibs = m.pos(i).map(|(p, k)| (m.nodes[p].children.clone(), k));
        for _ in 0..4 {
            let r = match self.rng.below(16) {
                0 => Some(i),
                1 | 2 => m.nodes[i].parent,
                3 => m.nodes[i].children.first().copied(),
                4 => m.nodes[i].children.last().copied(),
                5 | 6 => sibs.as_ref().and_then(|(c, k)| c.get(k + 1).copied()),
                7 | 8 => sibs.as_ref().and_then(|(c, k)| k.checked_sub(1).map(|k| c[k])),
                9 => sibs.as_ref().and_then(|(c, _)| c.first().copied()),
                10 => sibs.as_ref().and_then(|(c, _)| c.last().copied()),
                11 => Some(m.root_of(i)),
                12 => m.nodes[i].parent.and_then(|p| m.nodes[p].parent),
                13 => {
                    // Some descendant.
                    let mut x = i;
                    let depth = self.rng.below(4);
                    for _ in 0..depth {
                        match self.rng.pick(&m.nodes[x].children) {
                            Some(c) => x = c,
                            None => break,
                        }
                    }
                    Some(x)
                }
                14 => return self.node(m),
                _ => self.live(m),
            };
            if let Some(r) = r {
                return r as u32;
            }
        }
        self.node(m)
    }

    fn inj(&mut self, size: usize, map: bool) -> Inj {
        if self.rng.below(100) >= self.prof.inject {
            return Inj::None;
        }
        // Sometimes just past the end: then nothing panics.
        let k = self.rng.below(size + 1) as u32;
        if map && self.rng.chance(1, 2) {
            Inj::Map(k)
        } else {
            Inj::Clone(k)
        }
    }

    fn route(&mut self) -> u8 {
        self.rng.below(12) as u8
    }

    fn dest(&mut self) -> Dest {
        DESTS[self.rng.below(4)]
    }

    pub fn nest_steps(&mut self, n: usize) -> Vec<NestStep> {
        let mut v = vec![];
        let mut depth = 0;
        for _ in 0..n {
            match self.rng.below(3) {
                0 => v.push(NestStep::Add),
                1 => {
                    v.push(NestStep::Open);
                    depth += 1;
                }
                _ => {
                    if depth > 0 && self.rng.chance(2, 3) {
                        v.push(NestStep::Close);
                        depth -= 1;
                    } else {
                        v.push(NestStep::Add);
                    }
                }
            }
        }
        v
    }

    pub fn chain_steps(&mut self, n: usize, total: usize) -> Vec<ChainStep> {
        (0..n)
            .map(|_| match self.rng.below(30) {
                0..=8 => ChainStep::Child,
                9..=14 => ChainStep::Sibling,
                15..=17 => ChainStep::TryParent,
                18..=20 => ChainStep::Parent,
                21 => ChainStep::DetachCur,
                22 => {
                    if self.rng.below(100) < self.prof.dead.max(5) {
                        ChainStep::RemoveCur
                    } else {
                        ChainStep::TryParent
                    }
                }
                23 => ChainStep::MoveCur(self.rng.below(total + n) as u32, self.dest()),
                24..=26 => ChainStep::Extra(self.dest()),
                27 | 28 => ChainStep::Pull(self.rng.below(total + n) as u32, self.dest()),
                _ => ChainStep::Dissolve,
            })
            .collect()
    }

    /// Operations that build a big tree in the slot.
    pub fn seed_ops(&mut self, s: u8, n: usize) -> Vec<Op> {
        let mut v = vec![Op::CreateRoot { s }];
        let mut style = self.style.unwrap_or_else(|| self.rng.below(8));
        if self.flat {
            style = [1, 3, 4][self.rng.below(3)];
        }
        if n > 9000 && matches!(style, 0 | 2 | 7) {
            return self.deep_ops(s, n, style);
        }
        // Building a deep tree from its top takes quadratic time.
        let n = if matches!(style, 0 | 2 | 6 | 7) { n.min(9000) } else { n };
        for k in 1..n {
            let last = (k - 1) as u32;
            let (anchor, dest) = match style {
                // A chain.
                0 => (last, Dest::Last),
                // A star, in several orders.
                1 => (0, if self.rng.chance(1, 2) { Dest::First } else { Dest::Last }),
                // A comb.
                2 => {
                    if k % 2 == 1 {
                        (last.saturating_sub(u32::from(k > 1)), Dest::Last)
                    } else {
                        (last, Dest::Next)
                    }
                }
                // A complete binary or ternary tree.
                3 => (((k - 1) / 2) as u32, Dest::Last),
                4 => (((k - 1) / 3) as u32, Dest::First),
                // Random recursive trees.
                5 => (self.rng.below(k) as u32, self.dest()),
                // Deep random trees.
                6 => ((k - 1 - self.rng.below(k.min(4))) as u32, self.dest()),
                // A broom: a chain, then a star at its end.
                _ => {
                    if k < n / 2 {
                        (last, Dest::Last)
                    } else {
                        ((n / 2).saturating_sub(1) as u32, Dest::Last)
                    }
                }
            };
            // Siblings of the root are not possible.
            let dest = if anchor == 0 && matches!(dest, Dest::Prev | Dest::Next) {
                Dest::Last
            } else {
                dest
            };
            let route = (self.rng.below(2)) as u8;
            v.push(Op::CreateInsert { s, anchor, dest, route });
        }
        v
    }

    /// A chain, comb or broom with a long handle, built from its bottom.
    fn deep_ops(&mut self, s: u8, n: usize, style: usize) -> Vec<Op> {
        let mut v = vec![Op::CreateRoot { s }];
        let (mut top, mut next) = (0u32, 1u32);
        if style == 7 {
            let wide = if self.rng.chance(1, 4) { n / 8 } else { n * 2 / 3 };
            while (next as usize) < wide {
                v.push(Op::CreateInsert { s, anchor: 0, dest: self.dest(), route: 0 });
                if let Some(Op::CreateInsert { dest, .. }) = v.last_mut() {
                    if matches!(dest, Dest::Prev | Dest::Next) {
                        *dest = Dest::Last;
                    }
                }
                next += 1;
            }
        }
        while (next as usize) < n {
            v.push(Op::CreateRoot { s });
            let root = next;
            next += 1;
            if style == 2 {
                let (anchor, dest) = (root, Dest::Last);
                v.push(Op::CreateInsert { s, anchor, dest, route: 0 });
                next += 1;
            }
            let dest = if self.rng.chance(1, 2) { Dest::First } else { Dest::Last };
            v.push(Op::Insert { s, node: top, anchor: root, dest, route: self.rng.below(2) as u8 });
            top = root;
        }
        v
    }

    pub fn op<I: Kind>(&mut self, w: &World<I>) -> Op {
        let s = self.rng.below(self.prof.slots.max(1)) as u8;
        let slot = match w.slots[s as usize].as_ref() {
            Some(x) => x,
            None => {
                return match self.rng.below(4) {
                    0 => {
                        let n = 1 + self.rng.below(self.prof.target.max(2));
                        Op::Nest { s, steps: self.nest_steps(n), panic_at: None }
                    }
                    1 => {
                        let n = 1 + self.rng.below(self.prof.target.max(2));
                        Op::Chain { s, steps: self.chain_steps(n, n) }
                    }
                    _ => Op::CreateRoot { s },
                }
            }
        };
        let m = &slot.m;
        if m.live == 0 {
            if self.rng.below(100) < self.prof.dead && !m.nodes.is_empty() {
                let node = self.node(m);
                return Op::Query { s, node, which: self.route() };
            }
            return Op::CreateRoot { s };
        }
        let q = self.prof.w;
        let full = m.live >= self.prof.target;
        let grow = if full { 0 } else { 1 };
        let c = [
            q.root * (grow + u32::from(full && self.rng.chance(1, 20))),
            q.create * (grow + u32::from(full && self.rng.chance(1, 10))),
            q.insert,
            q.detach,
            q.detach1,
            q.remove * if full { 4 } else { 1 },
            q.clone * grow,
            q.import * grow,
            q.cloneforest,
            q.set,
            q.chain * grow,
            q.nest * grow,
            q.drop,
            q.query,
        ];
        let op = match self.rng.weighted(&c) {
            0 => Op::CreateRoot { s },
            1 => {
                let anchor = self.node(m);
                Op::CreateInsert { s, anchor, dest: self.dest(), route: self.route() }
            }
            2 => {
                let mut node = self.node(m);
                if m.nodes.len() > 5000 && self.rng.chance(1, 6) {
                    node = hub(m).unwrap_or(node);
                }
                let anchor = self.related(m, node);
                let dest = self.dest();
                // `adopt` panics if refused: less often.
                let route = [0u8, 0, 1, 1, 2][self.rng.below(5)];
                if self.rng.chance(1, 2) {
                    Op::Insert { s, node, anchor, dest, route }
                } else {
                    Op::Insert { s, node: anchor, anchor: node, dest, route }
                }
            }
            3 => {
                let node = self.node(m);
                Op::Detach { s, node, route: self.route() }
            }
            4 => {
                let mut node = self.node(m);
                if m.nodes.len() > 5000 && self.rng.chance(1, 3) {
                    node = hub(m).unwrap_or(node);
                }
                // Nodes with children, some of them with many.
                if self.rng.chance(1, 4) && m.alive(node as usize) {
                    if let Some(p) = m.nodes[node as usize].parent {
                        node = p as u32;
                    }
                }
                Op::DetachSingle { s, node, route: self.route() }
            }
            5 => {
                let mut node = self.node(m);
                // Prefer small subtrees, or the histories end early.
                for _ in 0..3 {
                    if m.alive(node as usize) && m.preorder(node as usize).len() * 3 > m.live * 2 {
                        node = self.node(m);
                    }
                }
                let kind = [RemKind::Plain, RemKind::Hooked, RemKind::Safe][self.rng.below(3)];
                let mut panic_at = None;
                let mut kind = kind;
                if self.rng.below(100) < self.prof.inject && m.alive(node as usize) {
                    let size = m.preorder(node as usize).len();
                    panic_at = Some(self.rng.below(size + 1) as u32);
                    // The panic-safe variant is the interesting one.
                    kind = if self.rng.chance(1, 8) { RemKind::Hooked } else { RemKind::Safe };
                }
                Op::Remove { s, node, kind, route: self.route(), panic_at }
            }
            6 => {
                let node = self.node(m);
                let size = if m.alive(node as usize) { m.preorder(node as usize).len() } else { 1 };
                if size > self.prof.target + 8 {
                    return Op::Detach { s, node, route: 0 };
                }
                let inj = self.inj(size, true);
                Op::CloneLocal { s, node, mapping: self.rng.chance(1, 2), inj }
            }
            7 => {
                let src = self.rng.below(self.prof.slots.max(1)) as u8;
                let (node, size) = match w.slots[src as usize].as_ref() {
                    Some(o) => {
                        let node = self.node(&o.m);
                        let size = if o.m.alive(node as usize) {
                            o.m.preorder(node as usize).len()
                        } else {
                            1
                        };
                        (node, size)
                    }
                    None => (0, 1),
                };
                let inj = self.inj(size, true);
                Op::CloneForeign { s, src, node, mapping: self.rng.chance(1, 2), inj }
            }
            8 => {
                let d = self.rng.below(self.prof.slots.max(1)) as u8;
                let inj = self.inj(m.live, false);
                Op::CloneForest { s, d, inj, route: self.route() }
            }
            9 => {
                let node = self.node(m);
                Op::SetData { s, node, route: self.route() }
            }
            10 => {
                let n = 1 + self.rng.below(self.prof.target.clamp(2, 24));
                Op::Chain { s, steps: self.chain_steps(n, m.nodes.len()) }
            }
            11 => {
                let n = 1 + self.rng.below(self.prof.target.clamp(2, 24));
                let steps = self.nest_steps(n);
                let panic_at = if self.rng.below(100) < self.prof.inject {
                    Some(self.rng.below(steps.len() + 1) as u32)
                } else {
                    None
                };
                Op::Nest { s, steps, panic_at }
            }
            12 => Op::Drop { s },
            _ => {
                let node = self.node(m);
                Op::Query { s, node, which: self.rng.below(13) as u8 }
            }
        };
        let r = match op {
            Op::Insert { node, .. } | Op::Detach { node, .. } | Op::DetachSingle { node, .. } => {
                Some(node)
            }
            Op::CreateInsert { anchor, .. } => Some(anchor),
            _ => None,
        };
        if let Some(r) = r {
            self.recent.push(r);
            if self.recent.len() > 6 {
                self.recent.remove(0);
            }
        }
        op
    }
}

/// The live node with most children.
fn hub(m: &Model) -> Option<u32> {
    (0..m.nodes.len()).filter(|&i| m.nodes[i].alive).max_by_key(|&i| m.nodes[i].children.len()).map(|i| i as u32)
}

/// All balanced sequences of `n` pairs: all ordered forests of `n` nodes.
pub fn all_shapes(n: usize) -> Vec<Vec<bool>> {
    fn go(open: usize, close: usize, cur: &mut Vec<bool>, out: &mut Vec<Vec<bool>>) {
        if open == 0 && close == 0 {
            out.push(cur.clone());
            return;
        }
        if open > 0 {
            cur.push(true);
            go(open - 1, close + 1, cur, out);
            cur.pop();
        }
        if close > 0 {
            cur.push(false);
            go(open, close - 1, cur, out);
            cur.pop();
        }
    }
    let mut out = vec![];
    go(n, 0, &mut vec![], &mut out);
    out
}

/// Operations that build the forest; node `k` in preorder (variant 0), or in
/// an order where later siblings are created first (variant 1), or created as
/// roots and then moved (variant 2).
pub fn build_shape(s: u8, shape: &[bool], variant: usize) -> Vec<Op> {
    let mut parent: Vec<Option<usize>> = vec![];
    let mut children: Vec<Vec<usize>> = vec![];
    let mut stack = vec![];
    let mut roots = vec![];
    for &open in shape {
        if open {
            let k = parent.len();
            parent.push(stack.last().copied());
            children.push(vec![]);
            match stack.last() {
                Some(&p) => {
                    let p: usize = p;
                    children[p].push(k);
                }
                None => roots.push(k),
            }
            stack.push(k);
        } else {
            stack.pop();
        }
    }
    let mut ops = vec![];
    match variant {
        0 => {
            for p in &parent {
                match p {
                    None => ops.push(Op::CreateRoot { s }),
                    Some(p) => ops.push(Op::CreateInsert {
                        s,
                        anchor: *p as u32,
                        dest: Dest::Last,
                        route: 0,
                    }),
                }
            }
        }
        1 => {
            // Reverse preorder of siblings, as first children.
            let mut id = vec![0u32; parent.len()];
            let mut next = 0u32;
            let mut st: Vec<usize> = roots.clone();
            while let Some(x) = st.pop() {
                id[x] = next;
                next += 1;
                match parent[x] {
                    None => ops.push(Op::CreateRoot { s }),
                    Some(p) => ops.push(Op::CreateInsert {
                        s,
                        anchor: id[p],
                        dest: Dest::First,
                        route: 1,
                    }),
                }
                st.extend(children[x].iter().copied());
            }
        }
        _ => {
            for _ in &parent {
                ops.push(Op::CreateRoot { s });
            }
            // Bottom up; siblings placed next to each other.
            for x in (0..parent.len()).rev() {
                for (k, &c) in children[x].iter().enumerate() {
                    let op = if k == 0 {
                        (x as u32, Dest::First)
                    } else {
                        (children[x][k - 1] as u32, Dest::Next)
                    };
                    ops.push(Op::Insert {
                        s,
                        node: c as u32,
                        anchor: op.0,
                        dest: op.1,
                        route: (k % 2) as u8,
                    });
                }
            }
        }
    }
    ops
}
