//! Executes operations on real forests and on the model in lockstep.

use std::cell::RefCell;
use std::collections::HashMap;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

use treena::dynamic::{
    AdoptAs, ChainTreeBuilder, Forest, InsertAs, NestTreeBuilder, StructureError,
};

use crate::kinds::Kind;
use crate::model::{Dest, Er, Model};
use crate::ops::{ChainStep, Inj, NestStep, Op, RemKind, BEYOND};
use crate::tok::{self, Injected, Tok};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Scope {
    /// Wrong result of the operation.
    Outcome,
    /// Unexpected panic.
    Panic,
    /// Misuse reported as something else than a precondition violation.
    Msg,
    /// The tree structure differs from the specified one.
    Struct,
    /// Links contradict each other.
    Integrity,
    /// An ID is reused.
    Fresh,
    /// Wrong liveness of an ID.
    Live,
    /// Wrong data for an ID.
    Data,
    /// Values lost, duplicated, leaked, or cloned wrongly.
    Conserve,
    /// Removed values passed wrongly.
    Hook,
    /// Mapping callback called wrongly.
    Map,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum OpKind {
    Create,
    Insert,
    Detach,
    Remove,
    CloneTree,
    CloneForest,
    Set,
    Chain,
    Nest,
    Drop,
    Query,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Class {
    Skip,
    Legal,
    /// Must be refused by an error or a panic (all nodes alive).
    Illegal,
    /// Some node is not alive.
    Dead,
    /// User code panicked.
    Injected,
}

#[derive(Clone, Debug)]
pub struct Mis {
    pub scope: Scope,
    pub msg: String,
}

pub struct Step {
    pub kind: OpKind,
    pub class: Class,
    pub mis: Option<Mis>,
    /// Slots whose contents the operation may change.
    pub touched: [Option<usize>; 2],
    /// Signature of what was exercised.
    pub sig: u64,
}

pub struct Slot<I: Kind> {
    pub f: Forest<I, Tok>,
    pub m: Model,
    pub ids: Vec<I>,
    pub idx: HashMap<I, usize>,
    /// Upper bound of the number of IDs the forest has given out.
    pub used: usize,
}

impl<I: Kind> Slot<I> {
    fn new() -> Self {
        Slot {
            f: Forest::new(),
            m: Model::default(),
            ids: vec![],
            idx: HashMap::new(),
            used: 0,
        }
    }
    /// Registers a new ID. Returns `None` if the ID is not new.
    fn register(&mut self, id: I, val: u64, inst: u64) -> Option<usize> {
        if self.idx.contains_key(&id) {
            return None;
        }
        let i = self.m.add(val, inst);
        self.ids.push(id);
        self.idx.insert(id, i);
        Some(i)
    }
    pub fn id_ix(&self, id: I) -> Option<usize> {
        self.idx.get(&id).copied()
    }
}

pub struct World<I: Kind> {
    pub slots: Vec<Option<Slot<I>>>,
    /// Source of IDs that a forest has not created.
    dummy: Forest<I, ()>,
    pub table: Vec<I>,
    pub next_val: u64,
    /// Removed values kept by the user.
    pub pocket: Vec<Tok>,
    /// Number of values that may be kept by unreachable nodes after misuse.
    pub slack: usize,
    /// Only building a state: no signatures are needed.
    pub quiet: bool,
    /// User code has panicked before.
    pub injured: bool,
    /// Hidden clone counter of the last operation.
    pub clones: u64,
}

pub enum Caught {
    Injected,
    Panic(String),
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Installs the silent panic hook, which keeps the message.
pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = info
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "<non-string payload>".into());
        let l = info
            .location()
            .map_or(String::new(), |l| format!(" at {}:{}", l.file(), l.line()));
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = format!("{m}{l}"));
    }));
}

pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, Caught> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(p) => {
            if p.is::<Injected>() {
                Err(Caught::Injected)
            } else {
                Err(Caught::Panic(LAST_PANIC.with(|p| p.borrow().clone())))
            }
        }
    }
}

fn mis(scope: Scope, msg: impl Into<String>) -> Option<Mis> {
    Some(Mis { scope, msg: msg.into() })
}

/// Is the forest a set of well-formed trees with data, whatever it holds, and does it work?
fn sound<I: Kind>(f: &mut Forest<I, Tok>, mut ids: Vec<I>) -> Result<(), String> {
    let mut seen = std::collections::HashSet::new();
    ids.retain(|i| seen.insert(*i));
    let alive: Vec<I> = ids.iter().copied().filter(|&i| f.node(i).is_some()).collect();
    let n = alive.len();
    let mut listed = 0;
    let mut roots = vec![];
    for &i in &ids {
        let Some(h) = f.node(i) else {
            if f.data(i).is_some() {
                return Err(format!("{i:?} has data, but is not alive"));
            }
            continue;
        };
        let _ = h.data().val();
        let c: Vec<I> = h.children().take(n + 1).map(|c| c.id()).collect();
        if c.len() > n || h.ancestors().take(n + 1).count() > n {
            return Err(format!("{i:?} has too many children or ancestors"));
        }
        listed += c.len();
        for (k, &x) in c.iter().enumerate() {
            let y = f.node(x).ok_or(format!("{i:?} lists {x:?}, which is not alive"))?;
            if y.parent_id() != Some(i) || y.prev_sibling_id() != k.checked_sub(1).map(|k| c[k]) || y.next_sibling_id() != c.get(k + 1).copied() {
                return Err(format!("the links of {x:?} contradict each other"));
            }
        }
        if (h.first_child_id(), h.last_child_id()) != (c.first().copied(), c.last().copied()) {
            return Err(format!("the first and last child of {i:?} contradict its list"));
        }
        if h.parent_id().is_none() {
            roots.push(i);
        }
    }
    if listed + roots.len() != n {
        return Err(format!("{n} nodes are alive, but {listed} are listed and {} are roots", roots.len()));
    }
    for &i in alive.iter().take(3) {
        let new = f.create_insert(Tok::new(7), InsertAs::FirstChildOf(i));
        if alive.contains(&new) || f.node(new).map(|x| x.data().val()) != Some(7) || f.node(i).and_then(|x| x.first_child_id()) != Some(new) {
            return Err(format!("a node created under {i:?} is not there"));
        }
    }
    let mut count = 0;
    for r in roots {
        f.remove_hooked_panic_safe(r, |_| count += 1);
    }
    if count != n + n.min(3) || alive.iter().any(|&i| f.node(i).is_some()) {
        return Err(format!("removing all trees hands out {count} values, instead of {}", n + n.min(3)));
    }
    Ok(())
}

pub fn insert_as<I>(d: Dest, a: I) -> InsertAs<I> {
    match d {
        Dest::First => InsertAs::FirstChildOf(a),
        Dest::Last => InsertAs::LastChildOf(a),
        Dest::Prev => InsertAs::PreviousSiblingOf(a),
        Dest::Next => InsertAs::NextSiblingOf(a),
    }
}

pub fn adopt_as(d: Dest) -> AdoptAs {
    match d {
        Dest::First => AdoptAs::FirstChild,
        Dest::Last => AdoptAs::LastChild,
        Dest::Prev => AdoptAs::PreviousSibling,
        Dest::Next => AdoptAs::NextSibling,
    }
}

fn er(e: StructureError) -> Er {
    let (r, words) = match e {
        StructureError::AncestorDescendantLoop => (Er::Loop, ["ancestor", "itself"]),
        StructureError::UnorderableSiblings => (Er::Unorderable, ["sibling", "itself"]),
        StructureError::SiblingsWithoutParent => (Er::NoParent, ["sibling", "parent"]),
    };
    // Does its text tell the same?
    let text = e.to_string();
    if words.iter().all(|w| text.contains(w)) {
        r
    } else {
        Er::Text
    }
}

/// Result of an operation at the API boundary.
#[derive(Debug)]
enum Got<R> {
    Ok(R),
    Err(Er),
    /// `node_mut()` returned `None`.
    NoNode,
}

/// What is specified.
enum Want {
    Ok,
    Err(Vec<Er>),
    Panic(Class),
    /// A panic or one of the errors.
    PanicOrErr(Vec<Er>),
    NoNode,
}

impl Want {
    fn class(&self) -> Class {
        match self {
            Want::Ok => Class::Legal,
            Want::Err(_) => Class::Illegal,
            Want::Panic(c) => *c,
            Want::PanicOrErr(_) | Want::NoNode => Class::Dead,
        }
    }
    /// Compares. `Ok(Some(r))` if succeeded as wanted, `Ok(None)` if refused as wanted.
    fn check<R>(&self, got: Result<Got<R>, Caught>) -> Result<Option<R>, Mis> {
        let bad = |scope, s: String| Err(Mis { scope, msg: s });
        match (self, got) {
            (_, Err(Caught::Injected)) => bad(Scope::Outcome, "stray injected panic".into()),
            (Want::Ok, Ok(Got::Ok(r))) => Ok(Some(r)),
            (Want::Ok, Err(Caught::Panic(p))) => {
                bad(Scope::Panic, format!("panicked on legal use: {p}"))
            }
            (Want::Ok, Ok(Got::Err(e))) => bad(Scope::Outcome, format!("legal, but got Err({e:?})")),
            (Want::Ok, Ok(Got::NoNode)) => bad(Scope::Live, "a live node is not found".into()),
            (Want::Err(es) | Want::PanicOrErr(es), Ok(Got::Err(e))) => {
                if es.contains(&e) {
                    Ok(None)
                } else {
                    bad(Scope::Outcome, format!("got Err({e:?}), specified: {es:?}"))
                }
            }
            (Want::Err(es), Ok(Got::Ok(_))) => {
                bad(Scope::Outcome, format!("succeeded, but must be refused with {es:?}"))
            }
            (Want::Err(es), Err(Caught::Panic(p))) => {
                bad(Scope::Panic, format!("panicked ({p}), but must return {es:?}"))
            }
            (Want::Err(_), Ok(Got::NoNode)) => {
                bad(Scope::Live, "a live node is not found".into())
            }
            (Want::Panic(_) | Want::PanicOrErr(_), Err(Caught::Panic(p))) => {
                if p.contains("[precondition]") {
                    Ok(None)
                } else {
                    bad(Scope::Msg, format!("misuse reported as: {p}"))
                }
            }
            (Want::Panic(_) | Want::PanicOrErr(_), Ok(Got::Ok(_))) => {
                bad(Scope::Outcome, "succeeded, but must panic".into())
            }
            (Want::Panic(_), Ok(Got::Err(e))) => {
                bad(Scope::Outcome, format!("got Err({e:?}), but must panic"))
            }
            (Want::Panic(_) | Want::PanicOrErr(_), Ok(Got::NoNode)) => {
                bad(Scope::Live, "the node is not found".into())
            }
            (Want::NoNode, Ok(Got::NoNode)) => Ok(None),
            (Want::NoNode, Ok(_)) => bad(Scope::Live, "a node that is not alive is found".into()),
            (Want::NoNode, Err(Caught::Panic(p))) => {
                bad(Scope::Panic, format!("panicked on lookup: {p}"))
            }
        }
    }
}

fn unit<R>(r: Result<R, StructureError>) -> Got<R> {
    match r {
        Ok(v) => Got::Ok(v),
        Err(e) => Got::Err(er(e)),
    }
}

impl<I: Kind> World<I> {
    pub fn new(start_val: u64) -> Self {
        World {
            slots: vec![None, None, None],
            dummy: Forest::new(),
            table: vec![],
            next_val: start_val,
            pocket: vec![],
            slack: 0,
            quiet: false,
            injured: false,
            clones: 0,
        }
    }

    pub fn table_id(&mut self, k: usize) -> Option<I> {
        while self.table.len() <= k {
            if self.table.len() >= I::CAP {
                return None;
            }
            let id = self.dummy.create_root(());
            self.table.push(id);
        }
        Some(self.table[k])
    }

    fn new_val(&mut self) -> u64 {
        self.next_val += 1;
        self.next_val
    }

    /// Resolves a reference to an ID, and its index if the forest created it.
    fn resolve(&mut self, s: usize, r: u32) -> Option<(I, Option<usize>)> {
        let len = self.slots[s].as_ref()?.ids.len();
        if r < BEYOND {
            if len == 0 {
                return None;
            }
            let i = r as usize % len;
            return Some((self.slots[s].as_ref()?.ids[i], Some(i)));
        }
        let used = self.slots[s].as_ref()?.used;
        let id = self.table_id(used + (r - BEYOND) as usize)?;
        Some((id, self.slots[s].as_ref()?.id_ix(id)))
    }

    /// Finds live nodes that appeared in an operation which did not return their IDs.
    fn discover(&mut self, s: usize, may: usize) -> Option<Mis> {
        let upto = match self.slots[s].as_mut() {
            Some(sl) => {
                sl.used += may;
                sl.used
            }
            None => return None,
        };
        if upto > 0 {
            let _ = self.table_id(upto - 1);
        }
        let sl = self.slots[s].as_mut().expect("exists");
        let first_new = sl.ids.len();
        for &id in self.table.iter().take(upto) {
            if sl.idx.contains_key(&id) {
                continue;
            }
            if sl.f.node(id).is_none() {
                continue;
            }
            match sl.f.data(id) {
                Some(t) => {
                    let (v, i) = (t.val(), t.inst());
                    sl.register(id, v, i);
                }
                None => {
                    return mis(Scope::Data, format!("node {id:?} is alive without data"));
                }
            }
        }
        let found = sl.ids.len() - first_new;
        self.slack += may.saturating_sub(found);
        let total = sl.ids.len();
        for p in first_new..total {
            let n = match sl.f.node(sl.ids[p]) {
                Some(n) => n,
                None => return mis(Scope::Live, "a node vanished"),
            };
            let mut c = n.first_child_id();
            let mut steps = 0;
            while let Some(cid) = c {
                steps += 1;
                let ci = match sl.idx.get(&cid) {
                    Some(&ci) if steps <= total => ci,
                    _ => return mis(Scope::Integrity, "broken child list after a panic"),
                };
                if ci < first_new || sl.m.nodes[ci].parent.is_some() {
                    return mis(
                        Scope::Struct,
                        format!("node #{ci} has moved to a new node though the operation panicked"),
                    );
                }
                sl.m.nodes[ci].parent = Some(p);
                sl.m.nodes[p].children.push(ci);
                c = sl.f.node(cid).and_then(|n| n.next_sibling_id());
            }
        }
        None
    }

    fn signature(&self, kind: OpKind, class: Class, extra: u64, nodes: &[(usize, Option<usize>)]) -> u64 {
        let mut h = crate::rng::hash2(kind as u64, class as u64 * 31 + extra);
        if self.quiet {
            return h;
        }
        for &(s, n) in nodes {
            let v = match (n, self.slots[s].as_ref()) {
                (Some(n), Some(sl)) if sl.m.alive(n) => {
                    let r = sl.m.root_of(n);
                    if sl.m.live <= 24 {
                        let pre = sl.m.preorder(r);
                        let p = pre.iter().position(|&x| x == n).unwrap_or(0);
                        crate::rng::hash2(sl.m.tree_hash(r), p as u64)
                    } else {
                        let k = sl.m.nodes[n].children.len().min(4);
                        let d = sl.m.depth(n).min(6);
                        let pos = sl.m.pos(n).map_or((9, 9), |(p, i)| {
                            (i.min(2), (sl.m.nodes[p].children.len() - 1 - i).min(2))
                        });
                        (1000 + k * 100 + d * 1000 + pos.0 * 10 + pos.1) as u64
                    }
                }
                _ => 7,
            };
            h = crate::rng::hash2(h, v);
        }
        // Relation between two nodes of one forest.
        if let [(s, Some(a)), (_, Some(b))] = *nodes {
            if let Some(sl) = &self.slots[s] {
                if sl.m.alive(a) && sl.m.alive(b) {
                    h = crate::rng::hash2(h, u64::from(sl.m.root_of(a) == sl.m.root_of(b)));
                }
            }
        }
        h
    }

    /// Adds nodes for the tree built at `root`, of which `shape` gives
    /// `(parent index in shape, value, wanted source instance)` in preorder.
    fn adopt_built(
        &mut self,
        s: usize,
        root: I,
        shape: &[(Option<usize>, u64)],
    ) -> Result<Vec<usize>, Mis> {
        let sl = self.slots[s].as_mut().expect("exists");
        let err = |scope, m: String| Mis { scope, msg: m };
        let first = sl.ids.len();
        let mut out: Vec<usize> = vec![];
        // Walk the real tree in preorder.
        let mut cur = Some(root);
        let mut stack: Vec<I> = vec![];
        let mut actual: Vec<(I, usize)> = vec![]; // (id, depth)
        while let Some(id) = cur {
            if actual.len() > shape.len() {
                return Err(err(Scope::Struct, "the new tree has too many nodes".into()));
            }
            actual.push((id, stack.len()));
            let n = sl
                .f
                .node(id)
                .ok_or_else(|| err(Scope::Live, "a new node is not alive".into()))?;
            if let Some(c) = n.first_child_id() {
                stack.push(id);
                cur = Some(c);
                continue;
            }
            let mut at = id;
            cur = None;
            // The new root must have no sibling; do not follow it.
            while !stack.is_empty() {
                let n = sl
                    .f
                    .node(at)
                    .ok_or_else(|| err(Scope::Live, "a new node is not alive".into()))?;
                if let Some(nx) = n.next_sibling_id() {
                    cur = Some(nx);
                    break;
                }
                at = match stack.pop() {
                    Some(v) => v,
                    None => break,
                };
            }
        }
        if actual.len() != shape.len() {
            return Err(err(
                Scope::Struct,
                format!("the new tree has {} nodes, specified {}", actual.len(), shape.len()),
            ));
        }
        let mut depth = vec![0usize; shape.len()];
        for (k, &(p, val)) in shape.iter().enumerate() {
            if let Some(p) = p {
                depth[k] = depth[p] + 1;
            }
            let (id, d) = actual[k];
            if d != depth[k] {
                return Err(err(Scope::Struct, "the new tree has a wrong shape".into()));
            }
            let t = sl
                .f
                .data(id)
                .ok_or_else(|| err(Scope::Data, "a new node has no data".into()))?;
            if t.val() != val {
                return Err(err(
                    Scope::Struct,
                    format!("the new tree has value {} where {} is specified", t.val(), val),
                ));
            }
            let inst = t.inst();
            let i = sl
                .register(id, val, inst)
                .ok_or_else(|| err(Scope::Fresh, format!("{id:?} is given to two nodes")))?;
            if let Some(p) = p {
                let p = first + p;
                sl.m.nodes[i].parent = Some(p);
                sl.m.nodes[p].children.push(i);
            }
            out.push(i);
        }
        sl.used += shape.len();
        Ok(out)
    }

    fn shape_of(m: &Model, n: usize) -> (Vec<usize>, Vec<(Option<usize>, u64)>) {
        let pre = m.preorder(n);
        let pos: HashMap<usize, usize> = pre.iter().enumerate().map(|(i, &x)| (x, i)).collect();
        let shape = pre
            .iter()
            .enumerate()
            .map(|(i, &x)| {
                let p = if i == 0 { None } else { m.nodes[x].parent.map(|p| pos[&p]) };
                (p, m.nodes[x].val)
            })
            .collect();
        (pre, shape)
    }

    /// Executes the operation. The caller then runs the observers.
    pub fn exec(&mut self, op: &Op) -> Step {
        let _ = tok::take_logs();
        self.clones = 0;
        let st = self.exec_inner(op);
        tok::set_clone_panic(None);
        st
    }

    fn exec_inner(&mut self, op: &Op) -> Step {
        let s = op.slot() as usize % self.slots.len();
        let kind = match op {
            Op::CreateRoot { .. } | Op::CreateInsert { .. } => OpKind::Create,
            Op::Insert { .. } => OpKind::Insert,
            Op::Detach { .. } | Op::DetachSingle { .. } => OpKind::Detach,
            Op::Remove { .. } => OpKind::Remove,
            Op::CloneLocal { .. } | Op::CloneForeign { .. } => OpKind::CloneTree,
            Op::CloneForest { .. } => OpKind::CloneForest,
            Op::SetData { .. } => OpKind::Set,
            Op::Chain { .. } => OpKind::Chain,
            Op::Nest { .. } => OpKind::Nest,
            Op::Drop { .. } => OpKind::Drop,
            Op::Query { .. } => OpKind::Query,
        };
        let skip = || Step {
            kind,
            class: Class::Skip,
            mis: None,
            touched: [None, None],
            sig: 0,
        };
        let creates = matches!(
            op,
            Op::CreateRoot { .. } | Op::Chain { .. } | Op::Nest { .. } | Op::CloneForeign { .. }
        );
        if self.slots[s].is_none() {
            if !creates {
                return skip();
            }
            if let Op::CloneForeign { src, .. } = op {
                let src = *src as usize % self.slots.len();
                if self.slots[src].is_none() {
                    return skip();
                }
            }
            self.slots[s] = Some(Slot::new());
        }
        let used = self.slots[s].as_ref().map_or(0, |x| x.used);
        let room = I::CAP.saturating_sub(used + 1);
        let mut step = Step {
            kind,
            class: Class::Legal,
            mis: None,
            touched: [Some(s), None],
            sig: 0,
        };
        macro_rules! slot {
            () => {
                self.slots[s].as_mut().expect("exists")
            };
        }
        macro_rules! fail {
            ($scope:expr, $($t:tt)*) => {{
                step.mis = mis($scope, format!($($t)*));
                return step;
            }};
        }
        macro_rules! check {
            ($want:expr, $got:expr) => {
                match $want.check($got) {
                    Ok(v) => v,
                    Err(m) => {
                        step.mis = Some(m);
                        return step;
                    }
                }
            };
        }
        match *op {
            Op::CreateRoot { .. } => {
                if room < 1 {
                    return skip();
                }
                step.sig = self.signature(kind, Class::Legal, 0, &[]);
                let val = self.new_val();
                let t = Tok::new(val);
                let inst = t.inst();
                let sl = slot!();
                let got = catch(|| Got::Ok(sl.f.create_root(t)));
                if let Some(id) = check!(Want::Ok, got) {
                    sl.used += 1;
                    if sl.register(id, val, inst).is_none() {
                        fail!(Scope::Fresh, "{id:?} has been used already");
                    }
                }
            }
            Op::CreateInsert { anchor, dest, route, .. } => {
                if room < 1 {
                    return skip();
                }
                let (aid, a) = match self.resolve(s, anchor) {
                    Some(v) => v,
                    None => return skip(),
                };
                let val = self.new_val();
                let alive = a.map_or(false, |a| slot!().m.alive(a));
                let via_node = route % 2 == 1;
                let want = if !alive {
                    if via_node {
                        Want::NoNode
                    } else {
                        Want::Panic(Class::Dead)
                    }
                } else if !slot!().m.insert_errors(None, a.unwrap_or(0), dest).is_empty() {
                    Want::Panic(Class::Illegal)
                } else {
                    Want::Ok
                };
                step.class = want.class();
                step.sig = self.signature(kind, step.class, 1 + dest as u64 * 2 + u64::from(via_node), &[(s, a)]);
                let t = Tok::new(val);
                let inst = t.inst();
                let sl = slot!();
                let f = &mut sl.f;
                let got = catch(move || {
                    if via_node {
                        match f.node_mut(aid) {
                            Some(mut n) => Got::Ok(n.create(t, adopt_as(dest))),
                            None => Got::NoNode,
                        }
                    } else {
                        Got::Ok(f.create_insert(t, insert_as(dest, aid)))
                    }
                });
                match check!(want, got) {
                    Some(id) => {
                        sl.used += 1;
                        match sl.register(id, val, inst) {
                            Some(i) => sl.m.insert(i, a.unwrap_or(0), dest),
                            None => fail!(Scope::Fresh, "{id:?} has been used already"),
                        }
                    }
                    None => {
                        if !matches!(want, Want::NoNode) {
                            step.mis = self.discover(s, 1);
                        }
                    }
                }
            }
            Op::Insert { node, anchor, dest, route, .. } => {
                let ((nid, n), (aid, a)) = match (self.resolve(s, node), self.resolve(s, anchor)) {
                    (Some(x), Some(y)) => (x, y),
                    _ => return skip(),
                };
                let m = &slot!().m;
                let route = route % 3;
                let na = n.map_or(false, |n| m.alive(n));
                let aa = a.map_or(false, |a| m.alive(a));
                let want = if route > 0 && !aa {
                    Want::NoNode
                } else if !na || !aa {
                    if nid == aid && matches!(dest, Dest::Prev | Dest::Next) {
                        Want::PanicOrErr(vec![Er::Unorderable])
                    } else {
                        Want::Panic(Class::Dead)
                    }
                } else {
                    let e = m.insert_errors(n, a.unwrap_or(0), dest);
                    if e.is_empty() {
                        Want::Ok
                    } else if route == 2 {
                        Want::Panic(Class::Illegal)
                    } else {
                        Want::Err(e)
                    }
                };
                step.class = want.class();
                step.sig = self.signature(
                    kind,
                    step.class,
                    dest as u64 * 3 + u64::from(route),
                    &[(s, n), (s, a)],
                );
                let sl = slot!();
                let f = &mut sl.f;
                let got = catch(move || match route {
                    0 => unit(f.insert(nid, insert_as(dest, aid))),
                    1 => match f.node_mut(aid) {
                        Some(mut x) => unit(x.try_adopt(nid, adopt_as(dest))),
                        None => Got::NoNode,
                    },
                    _ => match f.node_mut(aid) {
                        Some(mut x) => {
                            x.adopt(nid, adopt_as(dest));
                            Got::Ok(())
                        }
                        None => Got::NoNode,
                    },
                });
                if check!(want, got).is_some() {
                    sl.m.insert(n.unwrap_or(0), a.unwrap_or(0), dest);
                }
            }
            Op::Detach { node, route, .. } | Op::DetachSingle { node, route, .. } => {
                let single = matches!(op, Op::DetachSingle { .. });
                let (nid, n) = match self.resolve(s, node) {
                    Some(v) => v,
                    None => return skip(),
                };
                let via_node = route % 2 == 1;
                let m = &slot!().m;
                let want = match n {
                    Some(n) if m.alive(n) => {
                        if single && m.nodes[n].parent.is_none() && m.nodes[n].children.len() > 1 {
                            Want::Err(vec![Er::NoParent])
                        } else {
                            Want::Ok
                        }
                    }
                    _ if via_node => Want::NoNode,
                    _ => Want::Panic(Class::Dead),
                };
                step.class = want.class();
                step.sig = self.signature(kind, step.class, u64::from(single) * 2 + u64::from(via_node), &[(s, n)]);
                let sl = slot!();
                let f = &mut sl.f;
                let got = catch(move || match (single, via_node) {
                    (false, false) => {
                        f.detach(nid);
                        Got::Ok(())
                    }
                    (true, false) => unit(f.detach_single(nid)),
                    (_, true) => match f.node_mut(nid) {
                        None => Got::NoNode,
                        Some(mut x) => {
                            if single {
                                unit(x.detach_single())
                            } else {
                                x.detach();
                                Got::Ok(())
                            }
                        }
                    },
                });
                if check!(want, got).is_some() {
                    let n = n.unwrap_or(0);
                    if single {
                        sl.m.detach_single(n);
                    } else {
                        sl.m.unlink(n);
                    }
                }
            }
            Op::Remove { node, kind: rk, route, panic_at, .. } => {
                let (nid, n) = match self.resolve(s, node) {
                    Some(v) => v,
                    None => return skip(),
                };
                let via_node = route % 2 == 1;
                // Removed values are kept or dropped by the hook.
                let keep = route / 2 % 2 == 1;
                let sl = slot!();
                let post = match n {
                    Some(n) if sl.m.alive(n) => sl.m.postorder(n),
                    _ => vec![],
                };
                let alive = !post.is_empty();
                let want = if alive {
                    Want::Ok
                } else if via_node {
                    Want::NoNode
                } else {
                    Want::Panic(Class::Dead)
                };
                let panics = alive
                    && rk != RemKind::Plain
                    && panic_at.map_or(false, |k| (k as usize) < post.len());
                step.class = if panics { Class::Injected } else { want.class() };
                let extra = rk as u64 * 4 + u64::from(via_node) * 2
                    + if panics { 16 * (u64::from(panic_at.unwrap_or(0)) + 1) } else { 0 };
                step.sig = self.signature(kind, step.class, extra, &[(s, n)]);
                let mut log: Vec<(u64, u64)> = vec![];
                let mut kept: Vec<Tok> = vec![];
                let sl = slot!();
                let f = &mut sl.f;
                let got = catch(|| {
                    let mut calls = 0u32;
                    let hook = |t: Tok| {
                        log.push((t.val(), t.inst()));
                        calls += 1;
                        if panic_at == Some(calls - 1) {
                            resume_unwind(Box::new(Injected));
                        }
                        if keep {
                            kept.push(t);
                        }
                    };
                    if via_node {
                        match f.node_mut(nid) {
                            None => Got::NoNode,
                            Some(x) => {
                                match rk {
                                    RemKind::Plain => x.remove(),
                                    RemKind::Hooked => x.remove_hooked(hook),
                                    RemKind::Safe => x.remove_hooked_panic_safe(hook),
                                }
                                Got::Ok(())
                            }
                        }
                    } else {
                        match rk {
                            RemKind::Plain => f.remove(nid),
                            RemKind::Hooked => f.remove_hooked(nid, hook),
                            RemKind::Safe => f.remove_hooked_panic_safe(nid, hook),
                        }
                        Got::Ok(())
                    }
                });
                let _ = &kept;
                if panics {
                    let k = panic_at.unwrap_or(0) as usize + 1;
                    match got {
                        Err(Caught::Injected) => {}
                        Err(Caught::Panic(p)) => fail!(Scope::Panic, "panicked on legal use: {p}"),
                        Ok(_) => fail!(Scope::Outcome, "the panic of the hook is lost"),
                    }
                    let spec: Vec<(u64, u64)> = post
                        .iter()
                        .take(k)
                        .map(|&x| (sl.m.nodes[x].val, sl.m.nodes[x].inst))
                        .collect();
                    if log != spec {
                        fail!(Scope::Hook, "values passed before the panic: {log:?}, specified {spec:?}");
                    }
                    self.pocket.append(&mut kept);
                    let sl = slot!();
                    if rk == RemKind::Hooked {
                        // The forest has no guarantee anymore, but must be droppable.
                        let old = self.slots[s].take();
                        if let Err(Caught::Panic(p)) = catch(move || drop(old)) {
                            fail!(Scope::Panic, "panicked while dropping a forest: {p}");
                        }
                    } else {
                        let all = k == post.len();
                        for &x in post.iter().take(k) {
                            // Children precede parents in postorder.
                            sl.m.unlink(x);
                            sl.m.kill(x);
                        }
                        if !all {
                            let n = n.unwrap_or(0);
                            match sl.f.node(nid).map(|x| x.parent_id()) {
                                None => fail!(Scope::Live, "the removal was interrupted, but the root is lost"),
                                Some(None) => sl.m.unlink(n),
                                Some(Some(_)) => {}
                            }
                        }
                    }
                } else {
                    if check!(want, got).is_some() {
                        let spec: Vec<(u64, u64)> = post
                            .iter()
                            .map(|&x| (sl.m.nodes[x].val, sl.m.nodes[x].inst))
                            .collect();
                        if rk != RemKind::Plain && log != spec {
                            fail!(Scope::Hook, "values passed: {log:?}, specified (postorder): {spec:?}");
                        }
                        if rk == RemKind::Plain && tok::TRACKED {
                            let drops = tok::take_logs().1;
                            if drops.iter().ne(spec.iter().map(|(_, i)| i)) {
                                fail!(Scope::Hook, "values dropped: {drops:?}, specified (postorder): {spec:?}");
                            }
                        }
                        sl.m.unlink(n.unwrap_or(0));
                        for &x in &post {
                            sl.m.kill(x);
                        }
                    }
                    self.pocket.append(&mut kept);
                }
            }
            Op::CloneLocal { node, mapping, inj, .. } => {
                let (nid, n) = match self.resolve(s, node) {
                    Some(v) => v,
                    None => return skip(),
                };
                let alive = n.map_or(false, |n| slot!().m.alive(n));
                let (pre, shape) = if alive {
                    Self::shape_of(&slot!().m, n.unwrap_or(0))
                } else {
                    (vec![], vec![])
                };
                if pre.len() > room {
                    return skip();
                }
                let src_info: Vec<(I, u64)> = {
                    let sl = slot!();
                    pre.iter().map(|&x| (sl.ids[x], sl.m.nodes[x].inst)).collect()
                };
                let mapping = mapping || matches!(inj, Inj::Map(_));
                let panics = alive && inj_fires(inj, pre.len());
                let want = if alive { Want::Ok } else { Want::Panic(Class::Dead) };
                step.class = if panics { Class::Injected } else { want.class() };
                step.sig = self.signature(kind, step.class, inj_sig(inj) * 4 + u64::from(mapping), &[(s, n)]);
                arm(inj, panics);
                let mut log: Vec<(I, I)> = vec![];
                let f = &mut slot!().f;
                let got = catch(|| {
                    if mapping {
                        Got::Ok(f.clone_local_tree_with_id_mapping(nid, mapper(&mut log, inj)))
                    } else {
                        Got::Ok(f.clone_local_tree(nid))
                    }
                });
                if !alive && !log.is_empty() {
                    fail!(Scope::Map, "mapping is reported for a node that is not alive");
                }
                step.mis = self.finish_clone(s, got, want, panics, &shape, &src_info, mapping, &log);
            }
            Op::CloneForeign { src, node, mapping, inj, .. } => {
                let src = src as usize % self.slots.len();
                if src == s {
                    return skip();
                }
                let (nid, n) = match self.resolve(src, node) {
                    Some(v) => v,
                    None => return skip(),
                };
                step.touched = [Some(s), Some(src)];
                let ss = match self.slots[src].as_ref() {
                    Some(v) => v,
                    None => return skip(),
                };
                let alive = n.map_or(false, |n| ss.m.alive(n));
                let (pre, shape) = if alive {
                    Self::shape_of(&ss.m, n.unwrap_or(0))
                } else {
                    (vec![], vec![])
                };
                if pre.len() > room {
                    return skip();
                }
                let src_info: Vec<(I, u64)> =
                    pre.iter().map(|&x| (ss.ids[x], ss.m.nodes[x].inst)).collect();
                let mapping = mapping || matches!(inj, Inj::Map(_));
                let panics = alive && inj_fires(inj, pre.len());
                let want = if alive { Want::Ok } else { Want::NoNode };
                step.class = if panics { Class::Injected } else { want.class() };
                step.sig = self.signature(kind, step.class, 2 + inj_sig(inj) * 4 + u64::from(mapping), &[(src, n)]);
                arm(inj, panics);
                let mut log: Vec<(I, I)> = vec![];
                let sf = self.slots[src].take();
                let got = {
                    let f = &mut slot!().f;
                    let sfr = &sf.as_ref().expect("exists").f;
                    catch(|| match sfr.node(nid) {
                        None => Got::NoNode,
                        Some(r) => {
                            if mapping {
                                Got::Ok(f.clone_foreign_tree_with_id_mapping(r, mapper(&mut log, inj)))
                            } else {
                                Got::Ok(f.clone_foreign_tree(r))
                            }
                        }
                    })
                };
                self.slots[src] = sf;
                step.mis = self.finish_clone(s, got, want, panics, &shape, &src_info, mapping, &log);
            }
            Op::CloneForest { d, inj, route, .. } => {
                let d = d as usize % self.slots.len();
                if d == s {
                    return skip();
                }
                step.touched = [Some(s), Some(d)];
                let live = slot!().m.live;
                let onto = route % 2 == 1 && self.slots[d].is_some();
                let inj = match inj {
                    Inj::Map(_) => Inj::None,
                    x => x,
                };
                let panics = inj_fires(inj, live);
                step.class = if panics { Class::Injected } else { Class::Legal };
                let sh = slot!().m.shape_hash();
                step.sig = self.signature(kind, step.class, crate::rng::hash2(sh, inj_sig(inj)), &[]);
                if onto {
                    let dsh = self.slots[d].as_ref().map_or(0, |x| x.m.shape_hash());
                    step.sig = crate::rng::hash2(step.sig, dsh);
                }
                arm(inj, panics);
                let got = if onto {
                    match self.slots[d].take() {
                        Some(old) => {
                            let mut f = old.f;
                            match catch(|| f.clone_from(&slot!().f)) {
                                Ok(()) => Ok(f),
                                Err(e) => {
                                    // What the forest holds now is not specified, but it must be sound.
                                    let mut ids = old.ids;
                                    ids.extend(slot!().ids.iter().copied());
                                    match catch(|| sound(&mut f, ids)) {
                                        Ok(Ok(())) => {}
                                        Ok(Err(m)) => fail!(Scope::Integrity, "after a panic in clone_from(), {m}"),
                                        Err(Caught::Panic(m)) => fail!(Scope::Integrity, "use after a panic in clone_from() panics: {m}"),
                                        Err(Caught::Injected) => fail!(Scope::Outcome, "stray injected panic"),
                                    }
                                    Err(e)
                                }
                            }
                        }
                        None => return skip(),
                    }
                } else {
                    catch(|| slot!().f.clone())
                };
                match got {
                    Ok(f) => {
                        if panics {
                            fail!(Scope::Outcome, "the panic of `clone` is lost");
                        }
                        let sl = slot!();
                        let mut m = sl.m.clone();
                        let (clones, _) = tok::take_logs();
                        self.clones += clones.len() as u64;
                        let by_src: HashMap<u64, u64> = clones.iter().copied().collect();
                        if clones.len() != live || by_src.len() != live {
                            fail!(Scope::Conserve, "{} values cloned {} times", live, clones.len());
                        }
                        for n in m.nodes.iter_mut().filter(|n| n.alive) {
                            match by_src.get(&n.inst) {
                                Some(&i) => n.inst = i,
                                None => fail!(Scope::Conserve, "a value has not been cloned"),
                            }
                        }
                        let new = Slot {
                            f,
                            m,
                            ids: sl.ids.clone(),
                            idx: sl.idx.clone(),
                            used: sl.used,
                        };
                        self.slots[d] = Some(new);
                    }
                    Err(Caught::Injected) => {
                        if !panics {
                            fail!(Scope::Outcome, "stray injected panic");
                        }
                    }
                    Err(Caught::Panic(p)) => fail!(Scope::Panic, "panicked on legal use: {p}"),
                }
            }
            Op::SetData { node, route, .. } => {
                let (nid, n) = match self.resolve(s, node) {
                    Some(v) => v,
                    None => return skip(),
                };
                let alive = n.map_or(false, |n| slot!().m.alive(n));
                let want = if alive { Want::Ok } else { Want::NoNode };
                step.class = want.class();
                step.sig = self.signature(kind, step.class, u64::from(route % 3), &[(s, n)]);
                let val = self.new_val();
                let sl = slot!();
                let f = &mut sl.f;
                let got = catch(move || {
                    let r = match route % 3 {
                        0 => f.data_mut(nid).map(|t| t.set(val)),
                        1 => f.node_mut(nid).map(|mut x| x.data_mut().set(val)),
                        _ => f.node_mut(nid).map(|x| x.into_data_ref_mut().set(val)),
                    };
                    match r {
                        Some(()) => Got::Ok(()),
                        None => Got::NoNode,
                    }
                });
                if check!(want, got).is_some() {
                    sl.m.nodes[n.unwrap_or(0)].val = val;
                }
            }
            Op::Drop { .. } => {
                let old = self.slots[s].take();
                if let Err(Caught::Panic(p)) = catch(move || drop(old)) {
                    fail!(Scope::Panic, "panicked while dropping a forest: {p}");
                }
            }
            Op::Query { node, which, .. } => {
                let (nid, n) = match self.resolve(s, node) {
                    Some(v) => v,
                    None => return skip(),
                };
                let alive = n.map_or(false, |n| slot!().m.alive(n));
                let which = which % 13;
                let want = if alive { Want::Ok } else { Want::Panic(Class::Dead) };
                step.class = want.class();
                step.sig = self.signature(kind, step.class, u64::from(which), &[(s, n)]);
                let f = &slot!().f;
                let got = catch(|| {
                    match which {
                        0 => drop(f.depth_first_traverse(nid).next()),
                        1 => drop(f.shallow_depth_first_traverse(nid, Some(1)).next()),
                        2 => drop(f.breadth_first_traverse(nid).next()),
                        3 => drop(f.allocating_breadth_first_traverse(nid).next()),
                        4 => drop(f.ancestors(nid).next()),
                        5 => drop(f.ancestors_or_self(nid).next()),
                        6 => drop(f.children(nid).next()),
                        7 => drop(f.following_siblings(nid).next()),
                        8 => drop(f.following_siblings_or_self(nid).next()),
                        9 => drop(f.preceding_siblings(nid).next()),
                        10 => drop(f.preceding_siblings_or_self(nid).next()),
                        11 => drop(f.shallow_depth_first_traverse(nid, None).next_back()),
                        _ => drop(f.debug_print(nid)),
                    }
                    Got::Ok(())
                });
                let _ = check!(want, got);
            }
            Op::Chain { ref steps, .. } => return self.exec_chain(s, steps, room, step),
            Op::Nest { ref steps, panic_at, .. } => {
                return self.exec_nest(s, steps, panic_at, room, step)
            }
        }
        step
    }

    #[allow(clippy::too_many_arguments)]
    fn finish_clone(
        &mut self,
        s: usize,
        got: Result<Got<I>, Caught>,
        want: Want,
        panics: bool,
        shape: &[(Option<usize>, u64)],
        src: &[(I, u64)],
        mapping: bool,
        log: &[(I, I)],
    ) -> Option<Mis> {
        let (clones, _) = tok::take_logs();
        self.clones += clones.len() as u64;
        if panics {
            return match got {
                Err(Caught::Injected) => self.discover(s, shape.len()),
                Err(Caught::Panic(p)) => mis(Scope::Panic, format!("panicked on legal use: {p}")),
                Ok(_) => mis(Scope::Outcome, "the panic of user code is lost"),
            };
        }
        let root = match want.check(got) {
            Ok(Some(r)) => r,
            Ok(None) => return None,
            Err(m) => return Some(m),
        };
        let new = match self.adopt_built(s, root, shape) {
            Ok(v) => v,
            Err(m) => return Some(m),
        };
        let sl = self.slots[s].as_mut().expect("exists");
        if let Some(p) = sl.f.node(root).and_then(|n| n.parent_id()) {
            return mis(Scope::Struct, format!("the new tree has a parent {p:?}"));
        }
        // Values: each is cloned exactly once.
        let by_src: HashMap<u64, u64> = clones.iter().copied().collect();
        if clones.len() != src.len() || by_src.len() != src.len() {
            return mis(
                Scope::Conserve,
                format!("{} clones of values for {} nodes", clones.len(), src.len()),
            );
        }
        for (k, &i) in new.iter().enumerate() {
            if by_src.get(&src[k].1) != Some(&sl.m.nodes[i].inst) {
                return mis(Scope::Conserve, "a new node does not have the clone of its source");
            }
        }
        if mapping {
            let mut seen = std::collections::HashSet::new();
            let spec: HashMap<I, I> =
                new.iter().enumerate().map(|(k, &i)| (src[k].0, sl.ids[i])).collect();
            if log.len() != src.len() {
                return mis(
                    Scope::Map,
                    format!("mapping reported {} times for {} nodes", log.len(), src.len()),
                );
            }
            for &(a, b) in log {
                if spec.get(&a) != Some(&b) {
                    return mis(
                        Scope::Map,
                        format!("mapping {a:?} -> {b:?}, specified {:?}", spec.get(&a)),
                    );
                }
                if !seen.insert(a) {
                    return mis(Scope::Map, format!("mapping of {a:?} reported twice"));
                }
            }
        }
        None
    }

    fn exec_chain(&mut self, s: usize, steps: &[ChainStep], room: usize, mut step: Step) -> Step {
        let creates = 1 + steps
            .iter()
            .filter(|x| matches!(x, ChainStep::Child | ChainStep::Sibling | ChainStep::Extra(_)))
            .count();
        if creates > room {
            step.class = Class::Skip;
            return step;
        }
        let mut h = 0u64;
        for x in steps {
            let v = match x {
                ChainStep::Child => 1,
                ChainStep::Sibling => 2,
                ChainStep::TryParent => 3,
                ChainStep::Parent => 4,
                ChainStep::DetachCur => 5,
                ChainStep::RemoveCur => 6,
                ChainStep::MoveCur(_, d) => 7 + *d as u64,
                ChainStep::Extra(d) => 11 + *d as u64,
                ChainStep::Pull(_, d) => 15 + *d as u64,
                ChainStep::Dissolve => 19,
            };
            h = crate::rng::hash2(h, v);
        }
        step.sig = self.signature(step.kind, Class::Legal, h, &[]);
        let v0 = self.new_val();
        let sl = self.slots[s].as_mut().expect("exists");
        let t = Tok::new(v0);
        let inst = t.inst();
        let Slot { f, m, ids, idx, used } = &mut *sl;
        let mut leak = 0;
        let mut next_val = self.next_val;
        let r: Result<(), Mis> = (|| {
            let err = |scope, m: String| Err(Mis { scope, msg: m });
            let mut b = match Want::Ok.check(catch(|| Got::Ok(ChainTreeBuilder::new(f, t))))? {
                Some(b) => b,
                None => return Ok(()),
            };
            let root = reg(m, ids, idx, used, b.root_id(), v0, inst)?;
            let root_id = b.root_id();
            let mut cur = root;
            let mut cur_id = root_id;
            for st in steps {
                if b.root_id() != root_id {
                    return err(Scope::Outcome, "root_id() has changed".into());
                }
                if b.current_id() != cur_id {
                    return err(Scope::Outcome, "current_id() is not the specified node".into());
                }
                let alive = m.alive(cur);
                let parent = if alive { m.nodes[cur].parent } else { None };
                match *st {
                    ChainStep::Child | ChainStep::Sibling => {
                        let sib = matches!(st, ChainStep::Sibling);
                        let want = if !alive {
                            Want::Panic(Class::Dead)
                        } else if sib && parent.is_none() {
                            Want::Panic(Class::Illegal)
                        } else {
                            Want::Ok
                        };
                        next_val += 1;
                        let val = next_val;
                        let t = Tok::new(val);
                        let inst = t.inst();
                        let got = catch(|| {
                            if sib {
                                b.sibling(t);
                            } else {
                                b.child(t);
                            }
                            Got::Ok(())
                        });
                        if want.check(got)?.is_some() {
                            let id = b.current_id();
                            let i = reg(m, ids, idx, used, id, val, inst)?;
                            m.insert(i, cur, if sib { Dest::Next } else { Dest::Last });
                            cur = i;
                            cur_id = id;
                        } else {
                            leak += 1;
                            if b.current_id() != cur_id || b.root_id() != root_id {
                                return err(
                                    Scope::Outcome,
                                    "refused step has moved the builder".into(),
                                );
                            }
                        }
                    }
                    ChainStep::TryParent => {
                        let want = if alive { Want::Ok } else { Want::Panic(Class::Dead) };
                        let got = catch(|| Got::Ok(b.try_parent().is_some()));
                        if let Some(moved) = want.check(got)? {
                            if moved != parent.is_some() {
                                return err(
                                    Scope::Outcome,
                                    format!("try_parent() returned Some: {moved}"),
                                );
                            }
                            if let Some(p) = parent {
                                cur = p;
                                cur_id = b.current_id();
                                // Checked against the model by the caller's structure check.
                                if m.alive(cur) && f_id(&b, cur_id) != Some(m.nodes[cur].inst) {
                                    return err(
                                        Scope::Outcome,
                                        "try_parent() did not move to the parent".into(),
                                    );
                                }
                            }
                        }
                    }
                    ChainStep::Parent => {
                        let want = if !alive {
                            Want::Panic(Class::Dead)
                        } else if parent.is_none() {
                            Want::Panic(Class::Illegal)
                        } else {
                            Want::Ok
                        };
                        let got = catch(|| {
                            b.parent();
                            Got::Ok(())
                        });
                        if want.check(got)?.is_some() {
                            cur = parent.unwrap_or(0);
                            cur_id = b.current_id();
                            if f_id(&b, cur_id) != Some(m.nodes[cur].inst) {
                                return err(
                                    Scope::Outcome,
                                    "parent() did not move to the parent".into(),
                                );
                            }
                        }
                    }
                    ChainStep::DetachCur => {
                        if alive {
                            let got = catch(|| {
                                b.forest_mut().detach(cur_id);
                                Got::Ok(())
                            });
                            Want::Ok.check(got)?;
                            m.unlink(cur);
                        }
                    }
                    ChainStep::RemoveCur => {
                        if alive {
                            let got = catch(|| {
                                b.forest_mut().remove(cur_id);
                                Got::Ok(())
                            });
                            Want::Ok.check(got)?;
                            let post = m.postorder(cur);
                            m.unlink(cur);
                            for x in post {
                                m.kill(x);
                            }
                        }
                    }
                    ChainStep::MoveCur(n, d) => {
                        let a = n as usize % m.nodes.len();
                        if !alive || !m.alive(a) {
                            continue;
                        }
                        let aid = ids[a];
                        let e = m.insert_errors(Some(cur), a, d);
                        let want = if e.is_empty() { Want::Ok } else { Want::Err(e) };
                        let got = catch(|| unit(b.forest_mut().insert(cur_id, insert_as(d, aid))));
                        if want.check(got)?.is_some() {
                            m.insert(cur, a, d);
                        }
                    }
                    ChainStep::Pull(n, d) => {
                        let a = n as usize % m.nodes.len();
                        if !alive || !m.alive(a) {
                            continue;
                        }
                        let aid = ids[a];
                        let e = m.insert_errors(Some(a), cur, d);
                        let want = if e.is_empty() { Want::Ok } else { Want::Err(e) };
                        let got = catch(|| unit(b.forest_mut().insert(aid, insert_as(d, cur_id))));
                        if want.check(got)?.is_some() {
                            m.insert(a, cur, d);
                        }
                    }
                    ChainStep::Extra(d) => {
                        if !alive || !m.insert_errors(None, cur, d).is_empty() {
                            continue;
                        }
                        next_val += 1;
                        let val = next_val;
                        let t = Tok::new(val);
                        let inst = t.inst();
                        let got = catch(|| Got::Ok(b.forest_mut().create_insert(t, insert_as(d, cur_id))));
                        if let Some(id) = Want::Ok.check(got)? {
                            let i = reg(m, ids, idx, used, id, val, inst)?;
                            m.insert(i, cur, d);
                        }
                    }
                    ChainStep::Dissolve => {
                        if alive {
                            let ok = parent.is_some() || m.nodes[cur].children.len() <= 1;
                            let want = if ok { Want::Ok } else { Want::Err(vec![Er::NoParent]) };
                            let got = catch(|| unit(b.forest_mut().detach_single(cur_id)));
                            if want.check(got)?.is_some() {
                                m.detach_single(cur);
                            }
                        }
                    }
                }
            }
            if b.root_id() != root_id || b.current_id() != cur_id {
                return err(Scope::Outcome, "the builder points to an unspecified node".into());
            }
            Ok(())
        })();
        self.next_val = next_val;
        match r {
            Ok(()) => {
                if leak > 0 {
                    step.mis = self.discover(s, leak);
                }
            }
            Err(m) => step.mis = Some(m),
        }
        step
    }

    fn exec_nest(
        &mut self,
        s: usize,
        steps: &[NestStep],
        panic_at: Option<u32>,
        room: usize,
        mut step: Step,
    ) -> Step {
        // Normalize: every `Open` is closed.
        let mut toks = vec![];
        let mut shape: Vec<(Option<usize>, u64)> = vec![(None, self.new_val())];
        let mut stack = vec![0usize];
        let mut h = 1u64;
        for st in steps {
            match st {
                NestStep::Add | NestStep::Open => {
                    let v = self.new_val();
                    shape.push((stack.last().copied(), v));
                    toks.push((*st, v));
                    if *st == NestStep::Open {
                        stack.push(shape.len() - 1);
                    }
                }
                NestStep::Close => {
                    if stack.len() > 1 {
                        stack.pop();
                        toks.push((NestStep::Close, 0));
                    }
                }
            }
            h = crate::rng::hash2(h, *st as u64);
        }
        while stack.len() > 1 {
            stack.pop();
            toks.push((NestStep::Close, 0));
        }
        if shape.len() > room {
            step.class = Class::Skip;
            return step;
        }
        let panic_at = panic_at.filter(|&k| (k as usize) < toks.len());
        step.class = if panic_at.is_some() { Class::Injected } else { Class::Legal };
        h = crate::rng::hash2(h, panic_at.map_or(0, |k| u64::from(k) + 1));
        step.sig = self.signature(step.kind, step.class, h, &[]);
        let sl = self.slots[s].as_mut().expect("exists");
        let t0 = Tok::new(shape[0].1);
        let f = &mut sl.f;
        let mut bad: Option<String> = None;
        let mut opened: Vec<(u64, I)> = vec![];
        let got = catch(|| {
            let mut b = NestTreeBuilder::new(f, t0);
            let root = b.root();
            let mut i = 0;
            nest_run(&mut b, root, &toks, &mut i, panic_at, &mut bad, &mut opened);
            Got::Ok(root)
        });
        if let Some(b) = bad {
            step.mis = mis(Scope::Outcome, b);
            return step;
        }
        if panic_at.is_some() {
            step.mis = match got {
                Err(Caught::Injected) => self.discover(s, shape.len()),
                Err(Caught::Panic(p)) => mis(Scope::Panic, format!("panicked on legal use: {p}")),
                Ok(_) => mis(Scope::Outcome, "the panic of user code is lost"),
            };
            return step;
        }
        match Want::Ok.check(got) {
            Ok(Some(root)) => match self.adopt_built(s, root, &shape) {
                Ok(_) => {
                    let sl = self.slots[s].as_ref().expect("exists");
                    for (v, id) in opened {
                        let ok = sl.id_ix(id).map(|i| sl.m.nodes[i].val) == Some(v);
                        if !ok {
                            step.mis = mis(
                                Scope::Outcome,
                                "root() in the closure is not the root of the subtree being built",
                            );
                            return step;
                        }
                    }
                }
                Err(m) => step.mis = Some(m),
            },
            Ok(None) => {}
            Err(m) => step.mis = Some(m),
        }
        step
    }
}

fn reg<I: Kind>(
    m: &mut Model,
    ids: &mut Vec<I>,
    idx: &mut HashMap<I, usize>,
    used: &mut usize,
    id: I,
    val: u64,
    inst: u64,
) -> Result<usize, Mis> {
    if idx.contains_key(&id) {
        return Err(Mis {
            scope: Scope::Fresh,
            msg: format!("{id:?} has been used already"),
        });
    }
    let i = m.add(val, inst);
    ids.push(id);
    idx.insert(id, i);
    *used += 1;
    Ok(i)
}

fn f_id<I: Kind>(b: &ChainTreeBuilder<'_, I, Tok>, id: I) -> Option<u64> {
    b.forest().data(id).map(|t| t.inst())
}

#[allow(clippy::too_many_arguments)]
fn nest_run<I: Kind>(
    b: &mut NestTreeBuilder<'_, I, Tok>,
    root: I,
    toks: &[(NestStep, u64)],
    i: &mut usize,
    panic_at: Option<u32>,
    bad: &mut Option<String>,
    opened: &mut Vec<(u64, I)>,
) {
    while *i < toks.len() {
        let (st, v) = toks[*i];
        if panic_at == Some(*i as u32) {
            resume_unwind(Box::new(Injected));
        }
        *i += 1;
        match st {
            NestStep::Add => b.add_child(Tok::new(v)),
            NestStep::Open => {
                b.create_tree(Tok::new(v), |b| {
                    let r = b.root();
                    opened.push((v, r));
                    nest_run(b, r, toks, i, panic_at, bad, opened);
                });
            }
            NestStep::Close => {
                if b.root() != root {
                    *bad = Some("root() changed during the closure".into());
                }
                return;
            }
        }
        if b.root() != root {
            *bad = Some("root() is not the root of the subtree being built".into());
        }
    }
}

fn inj_fires(inj: Inj, n: usize) -> bool {
    match inj {
        Inj::None => false,
        Inj::Clone(k) | Inj::Map(k) => (k as usize) < n,
    }
}

fn inj_sig(inj: Inj) -> u64 {
    match inj {
        Inj::None => 0,
        Inj::Clone(k) => 1 + 2 * u64::from(k),
        Inj::Map(k) => 2 + 2 * u64::from(k),
    }
}

fn arm(inj: Inj, fires: bool) {
    if let (Inj::Clone(k), true) = (inj, fires) {
        tok::set_clone_panic(Some(k));
    }
}

fn mapper<I: Kind>(log: &mut Vec<(I, I)>, inj: Inj) -> impl FnMut(I, I) + '_ {
    move |a, b| {
        if let Inj::Map(k) = inj {
            if log.len() == k as usize {
                resume_unwind(Box::new(Injected));
            }
        }
        log.push((a, b));
    }
}
