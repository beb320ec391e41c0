//! The executable specification: a forest as plain child lists.

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Dest {
    First,
    Last,
    Prev,
    Next,
}
pub const DESTS: [Dest; 4] = [Dest::First, Dest::Last, Dest::Prev, Dest::Next];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Er {
    Loop,
    Unorderable,
    NoParent,
    /// An error whose text is about something else.
    Text,
}

#[derive(Clone, Debug)]
pub struct MNode {
    pub alive: bool,
    pub parent: Option<usize>,
    pub children: Vec<usize>,
    pub val: u64,
    pub inst: u64,
}

#[derive(Clone, Debug, Default)]
pub struct Model {
    pub nodes: Vec<MNode>,
    pub live: usize,
}

impl Model {
    pub fn alive(&self, n: usize) -> bool {
        self.nodes.get(n).map_or(false, |x| x.alive)
    }
    pub fn add(&mut self, val: u64, inst: u64) -> usize {
        self.nodes.push(MNode {
            alive: true,
            parent: None,
            children: vec![],
            val,
            inst,
        });
        self.live += 1;
        self.nodes.len() - 1
    }
    pub fn live_nodes(&self) -> Vec<usize> {
        (0..self.nodes.len()).filter(|&i| self.nodes[i].alive).collect()
    }
    pub fn pos(&self, n: usize) -> Option<(usize, usize)> {
        let p = self.nodes[n].parent?;
        let i = self.nodes[p].children.iter().position(|&c| c == n).expect("model: in the list");
        Some((p, i))
    }
    pub fn is_ancestor_or_self(&self, a: usize, mut n: usize) -> bool {
        loop {
            if a == n {
                return true;
            }
            match self.nodes[n].parent {
                Some(p) => n = p,
                None => return false,
            }
        }
    }
    pub fn root_of(&self, mut n: usize) -> usize {
        while let Some(p) = self.nodes[n].parent {
            n = p;
        }
        n
    }
    pub fn depth(&self, mut n: usize) -> usize {
        let mut d = 0;
        while let Some(p) = self.nodes[n].parent {
            n = p;
            d += 1;
        }
        d
    }
    /// Errors allowed for the move; empty if the move is legal. All nodes must be alive.
    pub fn insert_errors(&self, node: Option<usize>, anchor: usize, dest: Dest) -> Vec<Er> {
        let mut e = vec![];
        match dest {
            Dest::First | Dest::Last => {
                if let Some(n) = node {
                    if self.is_ancestor_or_self(n, anchor) {
                        e.push(Er::Loop);
                    }
                }
            }
            Dest::Prev | Dest::Next => {
                if node == Some(anchor) {
                    e.push(Er::Unorderable);
                }
                if self.nodes[anchor].parent.is_none() {
                    e.push(Er::NoParent);
                }
                if let Some(n) = node {
                    if n != anchor && self.is_ancestor_or_self(n, anchor) {
                        // If the anchor has no parent, it has no other ancestors.
                        e.push(Er::Loop);
                    }
                }
            }
        }
        e
    }
    pub fn unlink(&mut self, n: usize) {
        if let Some((p, i)) = self.pos(n) {
            self.nodes[p].children.remove(i);
            self.nodes[n].parent = None;
        }
    }
    pub fn insert(&mut self, node: usize, anchor: usize, dest: Dest) {
        self.unlink(node);
        let (p, i) = match dest {
            Dest::First => (anchor, 0),
            Dest::Last => (anchor, self.nodes[anchor].children.len()),
            Dest::Prev => self.pos(anchor).expect("model: anchor has a parent"),
            Dest::Next => {
                let (p, i) = self.pos(anchor).expect("model: anchor has a parent");
                (p, i + 1)
            }
        };
        self.nodes[p].children.insert(i, node);
        self.nodes[node].parent = Some(p);
    }
    /// Returns false if it must fail with `NoParent`.
    pub fn detach_single(&mut self, n: usize) -> bool {
        match self.pos(n) {
            Some((p, i)) => {
                let ch = std::mem::take(&mut self.nodes[n].children);
                for &c in &ch {
                    self.nodes[c].parent = Some(p);
                }
                self.nodes[p].children.splice(i..=i, ch);
                self.nodes[n].parent = None;
                true
            }
            None => {
                if self.nodes[n].children.len() > 1 {
                    return false;
                }
                for c in std::mem::take(&mut self.nodes[n].children) {
                    self.nodes[c].parent = None;
                }
                true
            }
        }
    }
    pub fn postorder(&self, n: usize) -> Vec<usize> {
        self.events(n, usize::MAX)
            .into_iter()
            .filter(|e| !e.0)
            .map(|e| e.1)
            .collect()
    }
    pub fn preorder(&self, n: usize) -> Vec<usize> {
        self.events(n, usize::MAX)
            .into_iter()
            .filter(|e| e.0)
            .map(|e| e.1)
            .collect()
    }
    /// `(is_open, node, depth)` in depth-first order, not deeper than `max`.
    pub fn events(&self, n: usize, max: usize) -> Vec<(bool, usize, usize)> {
        let mut out = vec![];
        let mut stack = vec![(n, 0usize)];
        out.push((true, n, 0));
        while let Some(&mut (cur, ref mut i)) = stack.last_mut() {
            let ch = &self.nodes[cur].children;
            if *i < ch.len() {
                let c = ch[*i];
                *i += 1;
                let d = stack.len();
                if d <= max {
                    out.push((true, c, d));
                    stack.push((c, 0));
                }
            } else {
                out.push((false, cur, stack.len() - 1));
                stack.pop();
            }
        }
        out
    }
    pub fn bfs(&self, n: usize) -> Vec<(usize, usize)> {
        let mut out = vec![(n, 0)];
        let mut i = 0;
        while i < out.len() {
            let (x, d) = out[i];
            out.extend(self.nodes[x].children.iter().map(|&c| (c, d + 1)));
            i += 1;
        }
        out
    }
    pub fn kill(&mut self, n: usize) {
        debug_assert!(self.nodes[n].alive);
        self.nodes[n].alive = false;
        self.nodes[n].parent = None;
        self.nodes[n].children.clear();
        self.live -= 1;
    }
    /// Hash of the shape of the whole forest (as an unordered set of trees).
    pub fn shape_hash(&self) -> u64 {
        let mut acc = 0u64;
        for r in 0..self.nodes.len() {
            if self.nodes[r].alive && self.nodes[r].parent.is_none() {
                acc = acc.wrapping_add(self.tree_hash(r));
            }
        }
        acc
    }
    pub fn tree_hash(&self, r: usize) -> u64 {
        let mut h = 0x1234_5678u64;
        for (open, _, _) in self.events(r, usize::MAX) {
            h = crate::rng::hash2(h, u64::from(open));
        }
        h
    }
    /// Renders the expected debug print.  Whitespace at the end of lines without text is trimmed.
    pub fn render(&self, root: usize, debug: bool) -> Vec<String> {
        let mut out = vec![];
        // (node, prefix of the first line, prefix of the following lines)
        let mut stack = vec![(root, String::new(), String::new())];
        while let Some((n, p1, p2)) = stack.pop() {
            let text = crate::tok::label(self.nodes[n].val, debug);
            // A line break at the end of a text ends its last line.
            for (i, line) in text.strip_suffix('\n').unwrap_or(&text).split('\n').enumerate() {
                let p = if i == 0 { &p1 } else { &p2 };
                let line = format!("{p}{line}", line = if line.trim().is_empty() { "" } else { line });
                out.push(if line.len() == p.len() { line.trim_end().to_string() } else { line });
            }
            let ch = &self.nodes[n].children;
            for (i, &c) in ch.iter().enumerate().rev() {
                let (a, b) = if i + 1 == ch.len() {
                    ("`-- ", "    ")
                } else {
                    ("|-- ", "|   ")
                };
                stack.push((c, format!("{p2}{a}"), format!("{p2}{b}")));
            }
        }
        out
    }
}
