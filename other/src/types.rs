//! Forests of all kinds of payloads (zero-sized, aligned, huge, with niches,
//! shared, nested forests), whose clones, drops, hooks, mappings and builder
//! closures use other forests while the operation is under way. Every forest
//! is compared with its model after every operation.
//!
//! Usage: treena-types PROP SEED CASES FIRST STEP OUT REPLAY

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::ExitCode;
use std::rc::Rc;

use treena::dynamic::{
    AdoptAs, ChainTreeBuilder, DftEvent, Forest, InsertAs, NestTreeBuilder, NodeId, NodeIdU16, NodeIdU32, NodeIdUsize, StructureError,
};
use treena_base::model::{Dest, Er, Model, DESTS};
use treena_base::rng::{hash2, Rng};

/// What is wrong, and the properties that it breaks.
type Bad = (&'static [&'static str], String);

trait Pay: Clone + fmt::Debug + 'static {
    const NAME: &'static str;
    fn make(v: u64) -> Self;
    fn val(&self) -> u64;
    /// The part of the value that can be read back.
    fn image(v: u64) -> u64;
    /// Number of instances of this type, if known.
    fn instances() -> Option<i64> {
        None
    }
}

macro_rules! simple {
    ($ty:ty, $name:literal, $make:expr, $val:expr, $image:expr) => {
        impl Pay for $ty {
            const NAME: &'static str = $name;
            fn make(v: u64) -> Self {
                ($make as fn(u64) -> $ty)(v)
            }
            fn val(&self) -> u64 {
                ($val as fn(&$ty) -> u64)(self)
            }
            fn image(v: u64) -> u64 {
                ($image as fn(u64) -> u64)(v)
            }
        }
    };
}
simple!((), "unit", |_| (), |_| 0, |_| 0);
simple!(u8, "u8", |v| v as u8, |x| u64::from(*x), |v| v & 255);
simple!(bool, "bool", |v| v % 2 == 1, |x| u64::from(*x), |v| v % 2);
simple!(Option<Option<bool>>, "nested options", |v| match v % 4 { 0 => None, 1 => Some(None), 2 => Some(Some(false)), _ => Some(Some(true)) },
    |x| match x { None => 0, Some(None) => 1, Some(Some(false)) => 2, Some(Some(true)) => 3 }, |v| v % 4);
simple!(String, "String", |v| format!("t{v}"), |x| x[1..].parse().unwrap_or(u64::MAX), |v| v);
simple!(Option<Box<u64>>, "Option<Box>", |v| if v % 3 == 0 { None } else { Some(Box::new(v)) }, |x| x.as_ref().map_or(0, |b| **b),
    |v| if v % 3 == 0 { 0 } else { v });
simple!(Cell<u64>, "Cell", Cell::new, |x| x.get(), |v| v);
simple!(char, "char", |v| char::from_u32((v % 0xd000) as u32).unwrap_or('x'), |x| u64::from(*x as u32), |v| v % 0xd000);
simple!(u128, "u128", |v| u128::from(v) << 64 | u128::from(!v), |x| if !(*x as u64) == (*x >> 64) as u64 { (*x >> 64) as u64 } else { u64::MAX }, |v| v);

/// A zero-sized payload whose instances are counted.
#[derive(Debug)]
struct Zst;
thread_local! { static ZSTS: Cell<i64> = const { Cell::new(0) }; }
impl Clone for Zst {
    fn clone(&self) -> Self {
        Zst::make(0)
    }
}
impl Drop for Zst {
    fn drop(&mut self) {
        ZSTS.with(|z| z.set(z.get() - 1));
        side();
    }
}
impl Pay for Zst {
    const NAME: &'static str = "zero-sized with drop";
    fn make(_: u64) -> Self {
        ZSTS.with(|z| z.set(z.get() + 1));
        side();
        Zst
    }
    fn val(&self) -> u64 {
        0
    }
    fn image(_: u64) -> u64 {
        0
    }
    fn instances() -> Option<i64> {
        Some(ZSTS.with(|z| z.get()))
    }
}

#[derive(Clone, Debug)]
#[repr(align(128))]
struct Aligned(u8);
impl Pay for Aligned {
    const NAME: &'static str = "aligned to 128";
    fn make(v: u64) -> Self {
        Aligned(v as u8)
    }
    fn val(&self) -> u64 {
        if (self as *const Self as usize) % 128 == 0 { u64::from(self.0) } else { u64::MAX }
    }
    fn image(v: u64) -> u64 {
        v & 255
    }
}

#[derive(Clone, Debug)]
struct Huge([u64; HUGE]);
const HUGE: usize = if cfg!(miri) { 32 } else { 256 };
impl Pay for Huge {
    const NAME: &'static str = "2 KiB";
    fn make(v: u64) -> Self {
        Huge([v; HUGE])
    }
    fn val(&self) -> u64 {
        if self.0.iter().all(|&x| x == self.0[0]) { self.0[0] } else { u64::MAX }
    }
    fn image(v: u64) -> u64 {
        v
    }
}

/// A shared value, whose number of owners is known.
struct Shared(Rc<u64>);
thread_local! { static SHARED: RefCell<Option<Rc<()>>> = const { RefCell::new(None) }; static OWN: Cell<i64> = const { Cell::new(0) }; }
impl fmt::Debug for Shared {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        side();
        write!(f, "s{}", self.0)
    }
}
impl Clone for Shared {
    fn clone(&self) -> Self {
        side();
        OWN.with(|o| o.set(o.get() + 1));
        Shared(self.0.clone())
    }
}
impl Drop for Shared {
    fn drop(&mut self) {
        OWN.with(|o| o.set(o.get() - 1));
        side();
    }
}
impl Pay for Shared {
    const NAME: &'static str = "Rc, with user code in clone, drop and print";
    fn make(v: u64) -> Self {
        OWN.with(|o| o.set(o.get() + 1));
        Shared(Rc::new(v))
    }
    fn val(&self) -> u64 {
        *self.0
    }
    fn image(v: u64) -> u64 {
        v
    }
    fn instances() -> Option<i64> {
        Some(OWN.with(|o| o.get()))
    }
}

/// A forest as the payload of a forest.
#[derive(Clone)]
struct Inner(Forest<NodeIdUsize, u64>, NodeIdUsize);
impl fmt::Debug for Inner {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        // The print of a forest is used by the print of another one.
        write!(f, "[{}]", self.0.debug_print(self.1).to_string().replace('\n', "/"))
    }
}
impl Pay for Inner {
    const NAME: &'static str = "nested forest";
    fn make(v: u64) -> Self {
        let mut f = Forest::new();
        let _ = f.create_root(0);
        let mut b = ChainTreeBuilder::new(&mut f, v);
        b.child(v + 1).child(v + 2).parent().sibling(v + 3);
        let r = b.root_id();
        Inner(f, r)
    }
    fn val(&self) -> u64 {
        let v = *self.0.data(self.1).unwrap_or(&u64::MAX);
        let got: Vec<u64> = self.0.allocating_breadth_first_traverse(self.1).map(|(n, _)| *n.data()).collect();
        if got == [v, v + 1, v + 3, v + 2] { v } else { u64::MAX }
    }
    fn image(v: u64) -> u64 {
        v
    }
}

// ---------------------------------------------------------------- other forests used from callbacks

thread_local! {
    /// Used by user code at depth 0, 1, ...
    static SIDES: RefCell<Vec<Option<World<NodeIdUsize, Shallow>>>> = const { RefCell::new(vec![]) };
    static SIDE_BAD: RefCell<Option<Bad>> = const { RefCell::new(None) };
    static SIDE_N: Cell<u64> = const { Cell::new(0) };
    static SIDE_ON: Cell<bool> = const { Cell::new(false) };
    static SIDE_RNG: Cell<u64> = const { Cell::new(1) };
}

/// The payload of the other forests; its clones call user code, too.
#[derive(Debug)]
struct Shallow(u64);
impl Clone for Shallow {
    fn clone(&self) -> Self {
        side();
        Shallow(self.0)
    }
}
impl Pay for Shallow {
    const NAME: &'static str = "u64, with user code in clone";
    fn make(v: u64) -> Self {
        Shallow(v)
    }
    fn val(&self) -> u64 {
        self.0
    }
    fn image(v: u64) -> u64 {
        v
    }
}

/// User code: may use another forest.
fn side() {
    if !SIDE_ON.with(|s| s.get()) || std::thread::panicking() {
        return;
    }
    let r = SIDE_RNG.with(|s| {
        let x = treena_base::rng::mix(s.get());
        s.set(x);
        x
    });
    if r % 3 != 0 {
        return;
    }
    let taken = SIDES.with(|s| {
        let mut s = s.borrow_mut();
        let k = s.iter().position(|x| x.is_some())?;
        s[k].take().map(|w| (k, w))
    });
    let Some((k, mut w)) = taken else { return };
    SIDE_N.with(|n| n.set(n.get() + 1));
    let mut sig = HashSet::new();
    let res = (0..1 + r / 8 % 2).try_for_each(|_| w.step(&mut sig, &mut BTreeMap::new()));
    if let Err((_, msg)) = res {
        SIDE_BAD.with(|b| {
            b.borrow_mut().get_or_insert((&["P15"], format!("a forest used inside a callback of another one: {msg}")));
        });
        SIDE_ON.with(|s| s.set(false));
    }
    SIDES.with(|s| s.borrow_mut()[k] = Some(w));
}

// ---------------------------------------------------------------- an ID type written by hand

/// Wider than the ID inside, and neither its size, its layout, its hash nor its debug output is that of the ID inside.
#[derive(Clone, Copy, PartialEq, Eq)]
struct Tagged {
    tag: [u16; 9],
    id: NodeIdU32,
}
const TAG: [u16; 9] = [0xA55A, 1, 2, 3, 4, 5, 6, 7, 8];
impl std::hash::Hash for Tagged {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        7u8.hash(h);
    }
}
impl fmt::Debug for Tagged {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("same")
    }
}
impl NodeId for Tagged {
    type Internal = NodeIdU32;
    fn from_internal(id: NodeIdU32) -> Self {
        Tagged { tag: TAG, id }
    }
    fn to_internal(self) -> NodeIdU32 {
        assert_eq!(self.tag, TAG, "an ID that the user has never seen");
        self.id
    }
}

// ---------------------------------------------------------------- lockstep

struct Slot<I: NodeId, T> {
    f: Forest<I, T>,
    m: Model,
    ids: Vec<I>,
}

struct World<I: NodeId + 'static, T: Pay> {
    r: Rng,
    sl: Vec<Slot<I, T>>,
    next: u64,
    max: usize,
}

fn fresh<I: NodeId, T>() -> Slot<I, T> {
    Slot { f: Forest::new(), m: Model::default(), ids: vec![] }
}

fn place<I: NodeId>(a: I, d: Dest) -> InsertAs<I> {
    match d {
        Dest::First => InsertAs::FirstChildOf(a),
        Dest::Last => InsertAs::LastChildOf(a),
        Dest::Prev => InsertAs::PreviousSiblingOf(a),
        Dest::Next => InsertAs::NextSiblingOf(a),
    }
}
fn role(d: Dest) -> AdoptAs {
    match d {
        Dest::First => AdoptAs::FirstChild,
        Dest::Last => AdoptAs::LastChild,
        Dest::Prev => AdoptAs::PreviousSibling,
        Dest::Next => AdoptAs::NextSibling,
    }
}
#[allow(unreachable_patterns)]
fn er(e: StructureError) -> Er {
    match e {
        StructureError::AncestorDescendantLoop => Er::Loop,
        StructureError::UnorderableSiblings => Er::Unorderable,
        StructureError::SiblingsWithoutParent => Er::NoParent,
        _ => Er::Text,
    }
}

impl<I: NodeId + 'static, T: Pay> World<I, T> {
    fn new(seed: u64, slots: usize, max: usize) -> Self {
        World { r: Rng::new(seed), sl: (0..slots).map(|_| fresh()).collect(), next: 0, max }
    }
    fn val(&mut self) -> u64 {
        self.next += 1;
        self.next
    }
    fn pick(&mut self, s: usize) -> Option<usize> {
        let live = self.sl[s].m.live_nodes();
        if live.is_empty() {
            return None;
        }
        // Often one of the newest.
        let k = live.len();
        Some(if self.r.chance(1, 2) { live[k - 1 - self.r.below(k.min(6))] } else { live[self.r.below(k)] })
    }

    /// Checks the whole slot.
    fn audit(&self, s: usize, what: &str, by: &'static [&'static str], data_by: &'static [&'static str]) -> Result<(), Bad> {
        if cfg!(miri) && self.next % 4 != 0 {
            // The judge is Miri.
            return Ok(());
        }
        let Slot { f, m, ids } = &self.sl[s];
        Self::compare(f, m, ids, what, by, data_by)
    }
    fn compare(f: &Forest<I, T>, m: &Model, ids: &[I], what: &str, by: &'static [&'static str], data_by: &'static [&'static str]) -> Result<(), Bad> {
        for (i, n) in m.nodes.iter().enumerate() {
            let id = ids[i];
            let Some(h) = f.node(id) else {
                if n.alive {
                    return Err((by, format!("after {what}: node {i} is not alive")));
                }
                if f.data(id).is_some() {
                    return Err((&["P07"], format!("after {what}: removed node {i} has data")));
                }
                continue;
            };
            if !n.alive {
                return Err((by, format!("after {what}: node {i} is still alive")));
            }
            let (sp, sn) = match m.pos(i) {
                Some((p, k)) => {
                    let c = &m.nodes[p].children;
                    (k.checked_sub(1).map(|k| ids[c[k]]), c.get(k + 1).map(|&x| ids[x]))
                }
                None => (None, None),
            };
            let got = (h.parent_id(), h.prev_sibling_id(), h.next_sibling_id(), h.first_child_id(), h.last_child_id());
            let want = (n.parent.map(|p| ids[p]), sp, sn, n.children.first().map(|&c| ids[c]), n.children.last().map(|&c| ids[c]));
            if got != want {
                return Err((by, format!("after {what}: (parent, previous, next, first, last) of node {i} is {got:?}, not {want:?}")));
            }
            let v = f.data(id).map(Pay::val);
            if v != Some(T::image(n.val)) || h.data().val() != T::image(n.val) {
                return Err((data_by, format!("after {what}: the data of node {i} is {v:?}, not {}", T::image(n.val))));
            }
        }
        Ok(())
    }
    fn count(&self, what: &str, extra: usize) -> Result<(), Bad> {
        let live: usize = self.sl.iter().map(|s| s.m.live).sum();
        match T::instances() {
            Some(n) if n != (live + extra) as i64 => Err((&["P09"], format!("after {what}: there are {n} instances of the payload, not {}", live + extra))),
            _ => Ok(()),
        }
    }

    fn step(&mut self, sigs: &mut HashSet<u64>, by: &mut BTreeMap<String, u64>) -> Result<(), Bad> {
        let s = self.r.below(self.sl.len());
        let mut op = self.r.weighted(&[3, 6, 5, 3, 3, 1, 1, 1, 2, 2, 1, 2, 2, 3, 2, 2, 1, 4, 2, 1, 1]);
        if self.sl[s].m.live == 0 || self.sl[s].ids.len() < 3 {
            op = self.r.below(2);
        }
        if self.sl[s].m.live > self.max && matches!(op, 0 | 1 | 8..=12) {
            op = 5 + self.r.below(3);
        }
        if self.sl[s].ids.len() > 12 * self.max {
            op = 16;
        }
        let x = match self.pick(s) {
            Some(x) => x,
            None => {
                if op != 16 {
                    op = 0;
                }
                0
            }
        };
        let a = self.pick(s).unwrap_or(0);
        let d = DESTS[self.r.below(4)];
        let handle = self.r.chance(1, 3);
        let rel = if self.sl[s].m.live == 0 { 0 } else {
            let m = &self.sl[s].m;
            let n = &m.nodes[x];
            let k = m.pos(x).map_or(3, |(p, k)| u64::from(k > 0) * 2 + u64::from(k + 1 < m.nodes[p].children.len()) + 4);
            hash2(k, (n.children.len().min(3) as u64) * 64 + u64::from(x == a) * 2 + u64::from(m.nodes[a].parent.is_some()))
        };
        sigs.insert(hash2(hash2(op as u64, d as u64 * 2 + u64::from(handle)), hash2(rel, hash2(T::NAME.len() as u64, T::NAME.as_bytes()[0].into()))));
        let mut name = String::new();
        let r = catch_unwind(AssertUnwindSafe(|| self.run(s, op, x, a, d, handle, &mut name)));
        *by.entry(name.clone()).or_default() += 1;
        if let Some(b) = SIDE_BAD.with(|b| b.borrow_mut().take()) {
            return Err(b);
        }
        match r {
            Ok(r) => r.map_err(|(p, m)| (p, format!("[{}] {m}", T::NAME))),
            Err(e) => {
                let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                Err((owner(&name), format!("[{}] {name} panics: {m}", T::NAME)))
            }
        }
    }

    fn run(&mut self, s: usize, op: usize, x: usize, a: usize, d: Dest, handle: bool, name: &mut String) -> Result<(), Bad> {
        macro_rules! is { ($n:expr) => {{ *name = $n.to_string(); owner(name) }}; }
        let by: &'static [&'static str];
        let mut data_by: &'static [&'static str] = &["P08"];
        match op {
            0 => {
                by = is!("create_root");
                let v = self.val();
                let id = self.sl[s].f.create_root(T::make(v));
                self.reg(s, id, v)?;
            }
            1 => {
                by = is!("create_insert");
                if self.sl[s].m.live == 0 {
                    return Ok(());
                }
                if matches!(d, Dest::Prev | Dest::Next) && self.sl[s].m.nodes[a].parent.is_none() {
                    return Ok(());
                }
                let v = self.val();
                let aid = self.sl[s].ids[a];
                let id = match self.sl[s].f.node_mut(aid) {
                    Some(mut n) if handle => n.create(T::make(v), role(d)),
                    _ => self.sl[s].f.create_insert(T::make(v), place(aid, d)),
                };
                let i = self.reg(s, id, v)?;
                self.sl[s].m.insert(i, a, d);
            }
            2 => {
                by = is!("insert");
                let sl = &mut self.sl[s];
                let want = sl.m.insert_errors(Some(x), a, d);
                let got = if handle {
                    sl.f.node_mut(sl.ids[a]).expect("alive").try_adopt(sl.ids[x], role(d))
                } else {
                    sl.f.insert(sl.ids[x], place(sl.ids[a], d))
                };
                match got {
                    Ok(()) if want.is_empty() => sl.m.insert(x, a, d),
                    Err(e) if want.contains(&er(e)) => {}
                    other => return Err((&["P03"], format!("insert returns {other:?}, allowed are the errors {want:?}"))),
                }
            }
            3 => {
                by = is!("detach");
                let sl = &mut self.sl[s];
                if handle {
                    sl.f.node_mut(sl.ids[x]).expect("alive").detach();
                } else {
                    sl.f.detach(sl.ids[x]);
                }
                sl.m.unlink(x);
            }
            4 => {
                by = is!("detach_single");
                let sl = &mut self.sl[s];
                let got = if handle { sl.f.node_mut(sl.ids[x]).expect("alive").detach_single() } else { sl.f.detach_single(sl.ids[x]) };
                let want = sl.m.detach_single(x);
                if got.is_ok() != want {
                    return Err((&["P04"], format!("detach_single returns {got:?}")));
                }
            }
            5..=7 => {
                by = is!(["remove", "remove_hooked", "remove_hooked_panic_safe"][op - 5]);
                let sl = &mut self.sl[s];
                let post = sl.m.postorder(x);
                let id = sl.ids[x];
                let mut got = vec![];
                let mut kept = vec![];
                let keep = self.r.chance(1, 2);
                // A hook without state.
                let bare = op != 5 && self.r.chance(1, 4);
                if bare {
                    match (op, handle) {
                        (6, false) => sl.f.remove_hooked(id, drop),
                        (6, true) => sl.f.node_mut(id).expect("alive").remove_hooked(drop),
                        (_, false) => sl.f.remove_hooked_panic_safe(id, drop),
                        (_, true) => sl.f.node_mut(id).expect("alive").remove_hooked_panic_safe(drop),
                    }
                } else {
                    let hook = |t: T| {
                        side();
                        got.push(t.val());
                        if keep {
                            kept.push(t);
                        }
                    };
                    match (op, handle) {
                        (5, false) => sl.f.remove(id),
                        (5, true) => sl.f.node_mut(id).expect("alive").remove(),
                        (6, false) => sl.f.remove_hooked(id, hook),
                        (6, true) => sl.f.node_mut(id).expect("alive").remove_hooked(hook),
                        (_, false) => sl.f.remove_hooked_panic_safe(id, hook),
                        (_, true) => sl.f.node_mut(id).expect("alive").remove_hooked_panic_safe(hook),
                    }
                }
                let want: Vec<u64> = post.iter().map(|&i| T::image(sl.m.nodes[i].val)).collect();
                if op != 5 && !bare && got != want {
                    return Err((by, format!("{name} passes {got:?}, not {want:?}")));
                }
                sl.m.unlink(x);
                for i in post {
                    sl.m.kill(i);
                }
                if kept.iter().map(Pay::val).ne(got.iter().take(kept.len()).copied()) {
                    return Err((&["P05"], format!("the values kept by the hook of {name} have changed")));
                }
                self.count(name, kept.len())?;
            }
            8 | 9 => {
                let from = if op == 8 { s } else { (s + 1) % self.sl.len() };
                let x = if op == 8 { x } else {
                    match self.pick(from) {
                        Some(x) => x,
                        None => return Ok(()),
                    }
                };
                by = is!(if op == 8 { "clone_local_tree" } else { "clone_foreign_tree" });
                data_by = &["P14"];
                let src = self.sl[from].ids[x];
                let pre = self.sl[from].m.preorder(x);
                let mut map = vec![];
                let root = if from == s {
                    let f = &mut self.sl[s].f;
                    if handle {
                        f.clone_local_tree_with_id_mapping(src, |a, b| {
                            side();
                            map.push((a, b));
                        })
                    } else {
                        f.clone_local_tree(src)
                    }
                } else {
                    let mut dst = std::mem::replace(&mut self.sl[s].f, Forest::new());
                    let n = self.sl[from].f.node(src).expect("alive");
                    let root = if handle {
                        dst.clone_foreign_tree_with_id_mapping(n, |a, b| {
                            side();
                            map.push((a, b));
                        })
                    } else {
                        dst.clone_foreign_tree(n)
                    };
                    self.sl[s].f = dst;
                    root
                };
                let new: Vec<I> = self.sl[s].f.depth_first_traverse(root).filter_map(|e| if let DftEvent::Open(n) = e { Some(n.id()) } else { None }).collect();
                if new.len() != pre.len() || (handle && map != pre.iter().map(|&i| self.sl[from].ids[i]).zip(new.iter().copied()).collect::<Vec<_>>()) {
                    return Err((by, format!("{name} creates {} nodes instead of {}, and maps {map:?}", new.len(), pre.len())));
                }
                let mut at = std::collections::HashMap::new();
                for (k, &i) in pre.iter().enumerate() {
                    let v = self.sl[from].m.nodes[i].val;
                    let p = if k == 0 { None } else { self.sl[from].m.nodes[i].parent };
                    let j = self.reg(s, new[k], v)?;
                    at.insert(i, j);
                    if let Some(p) = p {
                        self.sl[s].m.insert(j, at[&p], Dest::Last);
                    }
                }
                self.audit(from, name, by, data_by)?;
            }
            10 => {
                by = is!("Forest::clone");
                data_by = &["P15"];
                let t = (s + 1) % self.sl.len();
                if t == s {
                    return Ok(());
                }
                let m = self.sl[s].m.clone();
                let ids = self.sl[s].ids.clone();
                if handle {
                    let mut dst = std::mem::replace(&mut self.sl[t].f, Forest::new());
                    dst.clone_from(&self.sl[s].f);
                    self.sl[t].f = dst;
                } else {
                    let f = self.sl[s].f.clone();
                    self.sl[t].f = f;
                }
                self.sl[t].m = m;
                self.sl[t].ids = ids;
                self.audit(t, name, by, data_by)?;
            }
            11 => {
                by = is!("ChainTreeBuilder");
                let vs: Vec<u64> = (0..2 + self.r.below(6)).map(|_| self.val()).collect();
                let ks: Vec<usize> = (0..vs.len()).map(|_| self.r.below(4)).collect();
                let mut made = vec![];
                {
                    let mut b = ChainTreeBuilder::new(&mut self.sl[s].f, T::make(vs[0]));
                    made.push((b.root_id(), vs[0], None));
                    for (&v, &k) in vs.iter().zip(&ks).skip(1) {
                        side();
                        let cur = b.current_id();
                        let par = made.iter().find(|m| m.0 == cur).and_then(|m| m.2);
                        if k == 3 {
                            if let Some(p) = par {
                                let _ = b.parent();
                                if b.current_id() != p {
                                    return Err((by, "the chain builder is not at the parent".into()));
                                }
                            }
                        }
                        let cur = b.current_id();
                        let par = made.iter().find(|m| m.0 == cur).and_then(|m| m.2);
                        if k == 1 && par.is_some() {
                            let _ = b.sibling(T::make(v));
                            made.push((b.current_id(), v, par));
                        } else {
                            let _ = b.child(T::make(v));
                            made.push((b.current_id(), v, Some(cur)));
                        }
                    }
                }
                // Siblings are created right after the current node, which is the last one of its list.
                for (id, v, p) in made {
                    let i = self.reg(s, id, v)?;
                    if let Some(p) = p {
                        let p = self.sl[s].ids.iter().position(|&q| q == p).expect("registered");
                        self.sl[s].m.insert(i, p, Dest::Last);
                    }
                }
            }
            12 => {
                by = is!("NestTreeBuilder");
                let v: Vec<u64> = (0..5).map(|_| self.val()).collect();
                let root = {
                    let mut b = NestTreeBuilder::new(&mut self.sl[s].f, T::make(v[0]));
                    b.create_tree(T::make(v[1]), |b| {
                        side();
                        b.add_child(T::make(v[2]));
                        b.create_tree(T::make(v[3]), |_| side());
                    });
                    side();
                    b.add_child(T::make(v[4]));
                    b.root()
                };
                let all: Vec<I> = self.sl[s].f.depth_first_traverse(root).filter_map(|e| if let DftEvent::Open(n) = e { Some(n.id()) } else { None }).collect();
                if all.len() != 5 {
                    return Err((by, format!("the nested builder makes {} nodes, not 5", all.len())));
                }
                let ix: Vec<usize> = all.iter().zip(&v).map(|(&id, &v)| self.reg(s, id, v)).collect::<Result<_, _>>()?;
                for (c, p) in [(1, 0), (2, 1), (3, 1), (4, 0)] {
                    self.sl[s].m.insert(ix[c], ix[p], Dest::Last);
                }
            }
            13 => {
                by = is!("traversals");
                self.look(s, x)?;
            }
            14 => {
                by = is!("data_mut");
                let v = self.val();
                let sl = &mut self.sl[s];
                let id = sl.ids[x];
                if handle {
                    *sl.f.node_mut(id).expect("alive").data_mut() = T::make(v);
                } else {
                    *sl.f.data_mut(id).expect("alive") = T::make(v);
                }
                sl.m.nodes[x].val = v;
            }
            15 => {
                by = is!("debug_print");
                let m = &self.sl[s].m;
                // Prefixes of the lines, from the model.
                let mut want = String::new();
                let mut stack = vec![(x, String::new(), String::new())];
                while let Some((n, p1, p2)) = stack.pop() {
                    if !want.is_empty() {
                        want.push('\n');
                    }
                    want += &format!("{p1}{:?}", T::make(m.nodes[n].val));
                    let c = &m.nodes[n].children;
                    for (i, &k) in c.iter().enumerate().rev() {
                        let (a, b) = if i + 1 == c.len() { ("`-- ", "    ") } else { ("|-- ", "|   ") };
                        stack.push((k, format!("{p2}{a}"), format!("{p2}{b}")));
                    }
                }
                let got = format!("{:?}", self.sl[s].f.debug_print(self.sl[s].ids[x]));
                if got != want {
                    return Err((by, format!("the debug print is\n{got}\nbut should be\n{want}")));
                }
            }
            17 => {
                // Several operations on one handle.
                by = is!("operations on one NodeMut");
                let mut vals: Vec<u64> = (0..6).map(|_| self.val()).collect();
                let plan: Vec<(usize, usize, Dest)> =
                    (0..2 + self.r.below(5)).map(|_| (self.r.below(7), self.pick(s).unwrap_or(0), DESTS[self.r.below(4)])).collect();
                let sl = &mut self.sl[s];
                let (ids, m) = (&mut sl.ids, &mut sl.m);
                let id = ids[x];
                let mut h = sl.f.node_mut(id).expect("alive");
                for (k, b, d) in plan {
                    let op = ["create", "try_adopt", "try_adopt", "detach", "detach_single", "data_mut", "adopt"][k];
                    let owner: &'static [&'static str] = match k {
                        0 => &["P02", "P01"],
                        1 | 2 | 6 => &["P02", "P03", "P01"],
                        3 | 4 => &["P04", "P01"],
                        _ => &["P08"],
                    };
                    // With these roles the node itself is the anchor.
                    let outer = matches!(d, Dest::Prev | Dest::Next);
                    match k {
                        0 => {
                            if outer && m.nodes[x].parent.is_none() {
                                continue;
                            }
                            let v = vals.pop().unwrap_or(0);
                            let n = h.create(T::make(v), role(d));
                            if ids.contains(&n) {
                                return Err((&["P07"], format!("{n:?} is given out again")));
                            }
                            ids.push(n);
                            let i = m.add(v, 0);
                            m.insert(i, x, d);
                        }
                        1 | 2 | 6 => {
                            let want = m.insert_errors(Some(b), x, d);
                            if k == 6 {
                                if !want.is_empty() {
                                    continue;
                                }
                                h.adopt(ids[b], role(d));
                                m.insert(b, x, d);
                            } else {
                                match h.try_adopt(ids[b], role(d)) {
                                    Ok(()) if want.is_empty() => m.insert(b, x, d),
                                    Err(e) if want.contains(&er(e)) => {}
                                    other => return Err((&["P03"], format!("try_adopt returns {other:?}, allowed are the errors {want:?}"))),
                                }
                            }
                        }
                        3 => {
                            h.detach();
                            m.unlink(x);
                        }
                        4 => {
                            let got = h.detach_single();
                            if got.is_ok() != m.detach_single(x) {
                                return Err((&["P04"], format!("detach_single returns {got:?}")));
                            }
                        }
                        _ => {
                            let v = vals.pop().unwrap_or(0);
                            *h.data_mut() = T::make(v);
                            m.nodes[x].val = v;
                            if h.data().val() != T::image(v) {
                                return Err((&["P08"], "data() of the handle differs from what data_mut() was set to".into()));
                            }
                        }
                    }
                    if h.id() != id || h.node().id() != id {
                        return Err((&["P13"], format!("the handle is of another node after {op}")));
                    }
                    let n = h.node();
                    let (p, c) = (m.nodes[x].parent.map(|p| ids[p]), m.nodes[x].children.first().map(|&c| ids[c]));
                    if n.parent_id() != p || n.first_child_id() != c || n.children().map(|c| c.id()).ne(m.nodes[x].children.iter().map(|&c| ids[c])) {
                        return Err((owner, format!("the handle shows other neighbours after {op}")));
                    }
                    Self::compare(h.forest(), m, ids, op, owner, &["P08"])?;
                }
                if h.into_node().id() != id {
                    return Err((&["P13"], "into_node() is another node".into()));
                }
            }
            18 => {
                by = is!("traversals");
                self.together(s, x, a)?;
            }
            19 => {
                by = is!("ChainTreeBuilder");
                self.chains()?;
            }
            20 => {
                by = is!("NestTreeBuilder");
                self.nests()?;
            }
            _ => {
                by = is!("drop of the forest");
                let old = std::mem::replace(&mut self.sl[s], fresh());
                drop(old.f);
            }
        }
        self.audit(s, name, by, data_by)?;
        self.count(name, 0)
    }

    fn reg(&mut self, s: usize, id: I, v: u64) -> Result<usize, Bad> {
        let sl = &mut self.sl[s];
        if sl.ids.contains(&id) {
            return Err((&["P07"], format!("{id:?} is given out again")));
        }
        sl.ids.push(id);
        Ok(sl.m.add(v, 0))
    }

    /// A small forest, and its slot.
    fn small(&mut self) -> Slot<I, T> {
        let mut w: World<I, T> = World::new(self.r.next(), 1, 100);
        w.next = self.next;
        for _ in 0..self.r.below(6) {
            let v = w.val();
            let a = if self.r.chance(1, 2) { w.pick(0) } else { None };
            let at = a.map(|a| w.sl[0].ids[a]);
            let id = match at {
                Some(a) => w.sl[0].f.create_insert(T::make(v), InsertAs::LastChildOf(a)),
                None => w.sl[0].f.create_root(T::make(v)),
            };
            w.sl[0].ids.push(id);
            let i = w.sl[0].m.add(v, 0);
            if let Some(a) = a {
                w.sl[0].m.insert(i, a, Dest::Last);
            }
        }
        self.next = w.next;
        w.sl.pop().unwrap_or_else(fresh)
    }

    /// Two chain builders, which the user swaps, whose forests the user swaps or replaces, and whose nodes the user removes.
    fn chains(&mut self) -> Result<(), Bad> {
        const BY: &[&str] = &["P16", "P19"];
        let (mut a, mut b) = (self.small(), self.small());
        let vs: Vec<u64> = (0..24).map(|_| self.val()).collect();
        let mut it = vs.into_iter();
        let (va, vb) = (it.next().unwrap_or(0), it.next().unwrap_or(0));
        // What the places of the two forests hold now.
        let mut at = [(std::mem::take(&mut a.m), std::mem::take(&mut a.ids)), (std::mem::take(&mut b.m), std::mem::take(&mut b.ids))];
        let mut bs = [ChainTreeBuilder::new(&mut a.f, T::make(va)), ChainTreeBuilder::new(&mut b.f, T::make(vb))];
        let mut taint = [false; 2];
        // Place, root and current node of the builders.
        let mut st = [(0usize, bs[0].root_id(), bs[0].root_id()), (1, bs[1].root_id(), bs[1].root_id())];
        for (k, v) in [va, vb].into_iter().enumerate() {
            at[k].1.push(st[k].1);
            at[k].0.add(v, 0);
        }
        for v in it {
            let w = self.r.below(2);
            let (k, _, cur) = st[w];
            let (m, ids) = &mut at[k];
            let x = ids.iter().position(|&i| i == cur).filter(|&i| m.nodes[i].alive);
            let parent = x.and_then(|x| m.nodes[x].parent);
            let op = self.r.below(14);
            if op < 9 && x.is_none() && bs[w].forest().node(cur).is_some() {
                // A refused creation may leave a node, whose ID is the one of a node of the other forest.
                if taint[k] {
                    continue;
                }
                return Err((&["P07"], format!("{cur:?} is alive in a forest that has not made it, or has removed it")));
            }
            let what = ["child", "child", "child", "sibling", "sibling", "sibling", "parent", "parent", "try_parent", "removal", "removal", "swap", "swap of forests", "new forest"][op];
            match op {
                0..=8 => {
                    let bl = &mut bs[w];
                    let got = catch_unwind(AssertUnwindSafe(|| match op {
                        0..=2 => Some(bl.child(T::make(v)).current_id()),
                        3..=5 => Some(bl.sibling(T::make(v)).current_id()),
                        6 | 7 => Some(bl.parent().current_id()),
                        _ => bl.try_parent().map(|b| b.current_id()),
                    }));
                    let legal = match op {
                        0..=2 => x.is_some(),
                        8 => x.is_some(),
                        _ => parent.is_some(),
                    };
                    match got {
                        Err(e) => {
                            let msg = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                            taint[k] |= op < 6;
                            if legal {
                                return Err((BY, format!("{what}() of a chain builder panics: {msg}")));
                            }
                            if !msg.contains("[precondition]") {
                                return Err((&["P19"], format!("{what}() of a chain builder whose node is not alive, or a root, panics with {msg:?}")));
                            }
                        }
                        Ok(got) => {
                            if !legal && !(op == 8 && got.is_none()) {
                                return Err((BY, format!("{what}() of a chain builder does not panic though it is illegal")));
                            }
                            let now = match op {
                                0..=5 => {
                                    let id = bs[w].current_id();
                                    if ids.contains(&id) {
                                        return Err((&["P07"], format!("{id:?} is given out again")));
                                    }
                                    ids.push(id);
                                    let i = m.add(v, 0);
                                    if let Some(x) = x {
                                        m.insert(i, x, if op < 3 { Dest::Last } else { Dest::Next });
                                    }
                                    Some(id)
                                }
                                _ => parent.map(|p| ids[p]),
                            };
                            if got != now {
                                return Err((BY, format!("{what}() of a chain builder goes to {got:?}, not {now:?}")));
                            }
                            st[w].2 = now.unwrap_or(cur);
                        }
                    }
                }
                9 | 10 => {
                    let live = m.live_nodes();
                    if live.is_empty() {
                        continue;
                    }
                    let x = live[self.r.below(live.len())];
                    bs[w].forest_mut().remove(ids[x]);
                    let post = m.postorder(x);
                    m.unlink(x);
                    post.into_iter().for_each(|i| m.kill(i));
                }
                11 => {
                    bs.swap(0, 1);
                    st.swap(0, 1);
                }
                12 => {
                    let [p, q] = &mut bs;
                    std::mem::swap(p.forest_mut(), q.forest_mut());
                    at.swap(0, 1);
                    taint.swap(0, 1);
                }
                _ => {
                    *bs[w].forest_mut() = Forest::new();
                    at[k] = Default::default();
                    taint[k] = false;
                }
            }
            for w in 0..2 {
                if (bs[w].root_id(), bs[w].current_id()) != (st[w].1, st[w].2) {
                    return Err((BY, format!("after {what}, root and current node of a chain builder are {:?} and {:?}", bs[w].root_id(), bs[w].current_id())));
                }
                let (m, ids) = &at[st[w].0];
                Self::compare(bs[w].forest(), m, ids, what, BY, &["P08"])?;
            }
        }
        Ok(())
    }

    /// Two nested builders, of which the user puts one in the place of the other inside a closure.
    fn nests(&mut self) -> Result<(), Bad> {
        const BY: &[&str] = &["P16", "P19"];
        let mut sl = [self.small(), self.small()];
        let vs: Vec<u64> = (0..24).map(|_| self.val()).collect();
        let pat = self.r.next();
        let mut it = vs.into_iter();
        // The added nodes: index of the forest, parent (as the value), value.
        let mut log: Vec<(usize, u64, u64)> = vec![];
        let mut swapped = false;
        let roots = {
            let [a, b] = &mut sl;
            let (va, vb) = (it.next().unwrap_or(0), it.next().unwrap_or(0));
            let mut x = NestTreeBuilder::new(&mut a.f, T::make(va));
            let mut y = NestTreeBuilder::new(&mut b.f, T::make(vb));
            let (rx, ry) = (x.root(), y.root());
            let at = [(0usize, va), (1usize, vb)];
            for k in 0..6 {
                let v = it.next().unwrap_or(0);
                match pat >> (k * 4) & 15 {
                    0..=3 => {
                        x.add_child(T::make(v));
                        log.push((at[0].0, at[0].1, v));
                    }
                    4..=6 => {
                        y.add_child(T::make(v));
                        log.push((at[1].0, at[1].1, v));
                    }
                    _ if swapped => {}
                    n => {
                        let (v1, v2) = (it.next().unwrap_or(0), it.next().unwrap_or(0));
                        // 1: swap, 2: swap and swap back, otherwise none.
                        let swaps = [0, 1, 2][n as usize % 3];
                        let nest = (at[0].0, v);
                        let lg = &mut log;
                        let r = catch_unwind(AssertUnwindSafe(|| {
                            lg.push((at[0].0, at[0].1, v));
                            x.create_tree(T::make(v), |x| {
                                if n & 8 == 0 {
                                    x.add_child(T::make(v1));
                                    lg.push((nest.0, nest.1, v1));
                                }
                                for s in 0..swaps {
                                    std::mem::swap(x, &mut y);
                                    let to = if s == 0 { at[1] } else { nest };
                                    x.add_child(T::make(v2 + 1_000_000 * s));
                                    lg.push((to.0, to.1, v2 + 1_000_000 * s));
                                }
                            });
                        }));
                        match r {
                            Err(e) => {
                                let msg = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                                if swaps != 1 {
                                    return Err((BY, format!("create_tree() panics: {msg}")));
                                }
                                if !msg.contains("[precondition]") {
                                    return Err((&["P19"], format!("create_tree() panics with {msg:?} when its closure replaces the builder")));
                                }
                            }
                            Ok(()) if swaps != 1 && x.root() != rx => {
                                return Err((BY, "root() of a nested builder is wrong after create_tree()".into()));
                            }
                            Ok(()) => {}
                        }
                        if swaps == 1 {
                            // From here on only the kind of panics matters.
                            swapped = true;
                            break;
                        }
                    }
                }
            }
            if !swapped && (x.root(), y.root()) != (rx, ry) {
                return Err((BY, "root() of a nested builder has changed".into()));
            }
            // Whatever the builders make of it: no alarm about the own state of the library.
            if swapped && pat >> 60 & 1 == 0 {
                for k in 0..4 {
                    let v = it.next().unwrap_or(0);
                    let r = catch_unwind(AssertUnwindSafe(|| match k {
                        0 => x.add_child(T::make(v)),
                        1 => y.add_child(T::make(v)),
                        2 => x.create_tree(T::make(v), |x| x.add_child(T::make(v))),
                        _ => y.create_tree(T::make(v), |y| y.add_child(T::make(v))),
                    }));
                    if let Err(e) = r {
                        let msg = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                        if !msg.contains("[precondition]") {
                            return Err((&["P19"], format!("a nested builder that was replaced in its closure panics later with {msg:?}")));
                        }
                    }
                }
                return Ok(());
            }
            [(rx, va), (ry, vb)]
        };
        // The trees are as the calls describe.
        for (k, (root, rv)) in roots.into_iter().enumerate() {
            let Slot { f, m, ids } = &sl[k];
            let mut want = vec![];
            let mut stack = vec![rv];
            while let Some(v) = stack.pop() {
                want.push(T::image(v));
                stack.extend(log.iter().filter(|l| l.0 == k && l.1 == v).map(|l| l.2).rev());
            }
            let got: Vec<u64> = f.depth_first_traverse(root).filter_map(|e| if let DftEvent::Open(n) = e { Some(n.data().val()) } else { None }).collect();
            if got != want {
                return Err((BY, format!("the nested builders made a tree of {got:?}, not {want:?}")));
            }
            Self::compare(f, m, ids, "nested builders", BY, &["P08"])?;
        }
        Ok(())
    }

    /// Several iterators on one forest, advanced in turn.
    fn together(&mut self, s: usize, x: usize, a: usize) -> Result<(), Bad> {
        let mut pat = self.r.next();
        let Slot { f, m, ids } = &self.sl[s];
        type Run<'a, I> = (&'static [&'static str], Vec<(u8, I, usize)>, Box<dyn Iterator<Item = (u8, I, usize)> + 'a>);
        let mut its: Vec<Run<'_, I>> = vec![];
        let ev = |e: DftEvent<treena::dynamic::Node<'_, I, T>>| match e {
            DftEvent::Open(n) => (1, n.id(), 0),
            DftEvent::Close(n) => (2, n.id(), 0),
        };
        for x in [x, a] {
            let id = ids[x];
            let full = m.events(x, usize::MAX);
            let e: Vec<_> = full.iter().map(|e| (if e.0 { 1 } else { 2 }, ids[e.1], 0)).collect();
            its.push((&["P10"], e.clone(), Box::new(f.depth_first_traverse(id).map(ev))));
            its.push((&["P10"], e.iter().rev().copied().collect(), Box::new(f.depth_first_traverse(id).rev().map(ev))));
            let lim = m.events(x, 1).iter().map(|e| (if e.0 { 1 } else { 2 }, ids[e.1], e.2)).collect();
            its.push((&["P11"], lim, Box::new(f.shallow_depth_first_traverse(id, Some(1)).map(move |(e, d)| {
                let (k, i, _) = ev(e);
                (k, i, d)
            }))));
            let b: Vec<_> = m.bfs(x).iter().map(|&(n, d)| (0, ids[n], d)).collect();
            its.push((&["P12"], b.clone(), Box::new(f.breadth_first_traverse(id).map(|(n, d)| (0, n.id(), d)))));
            its.push((&["P12"], b, Box::new(f.allocating_breadth_first_traverse(id).map(|(n, d)| (0, n.id(), d)))));
            let c: Vec<_> = m.nodes[x].children.iter().map(|&c| (0, ids[c], 0)).collect();
            its.push((&["P13"], c.iter().rev().copied().collect(), Box::new(f.children(id).rev().map(|n| (0, n.id(), 0)))));
            its.push((&["P13"], c, Box::new(f.children(id).map(|n| (0, n.id(), 0)))));
            let mut anc = vec![];
            let mut up = m.nodes[x].parent;
            while let Some(k) = up {
                anc.push((0, ids[k], 0));
                up = m.nodes[k].parent;
            }
            its.push((&["P13"], anc, Box::new(f.ancestors(id).map(|n| (0, n.id(), 0)))));
        }
        let mut at = vec![0usize; its.len()];
        let mut left = its.len();
        while left > 0 {
            pat = treena_base::rng::mix(pat);
            let k = pat as usize % its.len();
            if at[k] > its[k].1.len() {
                continue;
            }
            let (by, want, it) = &mut its[k];
            let got = it.next();
            if got != want.get(at[k]).copied() {
                return Err((by, format!("item {} of iterator {k} is {got:?}, not {:?}, while others run", at[k], want.get(at[k]))));
            }
            at[k] += 1;
            if at[k] > want.len() {
                left -= 1;
            }
        }
        Ok(())
    }

    fn look(&self, s: usize, x: usize) -> Result<(), Bad> {
        let Slot { f, m, ids } = &self.sl[s];
        let id = ids[x];
        let ev = m.events(x, usize::MAX);
        let bf = m.bfs(x);
        let limit = ev.iter().map(|e| e.2).max().unwrap_or(0) / 2;
        let shallow = m.events(x, limit);
        let conv = |e: DftEvent<treena::dynamic::Node<'_, I, T>>| {
            side();
            match e {
                DftEvent::Open(n) => (true, n.id()),
                DftEvent::Close(n) => (false, n.id()),
            }
        };
        let want: Vec<(bool, I)> = ev.iter().map(|e| (e.0, ids[e.1])).collect();
        if f.depth_first_traverse(id).map(conv).ne(want.iter().copied()) || f.depth_first_traverse(id).rev().map(conv).ne(want.iter().rev().copied()) {
            return Err((&["P10"], format!("wrong depth-first events of node {x}")));
        }
        if f.shallow_depth_first_traverse(id, Some(limit)).map(|(e, d)| (conv(e), d)).ne(shallow.iter().map(|e| ((e.0, ids[e.1]), e.2))) {
            return Err((&["P11"], format!("wrong depth-first events of node {x} with limit {limit}")));
        }
        let nb = |(n, d): (treena::dynamic::Node<'_, I, T>, usize)| {
            side();
            (n.id(), d)
        };
        let want: Vec<(I, usize)> = bf.iter().map(|e| (ids[e.0], e.1)).collect();
        if f.breadth_first_traverse(id).map(nb).ne(want.iter().copied()) || f.allocating_breadth_first_traverse(id).map(nb).ne(want.iter().copied()) {
            return Err((&["P12"], format!("wrong breadth-first items of node {x}")));
        }
        let ch: Vec<I> = m.nodes[x].children.iter().map(|&c| ids[c]).collect();
        let nd = |n: treena::dynamic::Node<'_, I, T>| {
            side();
            n.id()
        };
        if f.children(id).map(nd).ne(ch.iter().copied()) || f.children(id).rev().map(nd).ne(ch.iter().rev().copied()) {
            return Err((&["P13"], format!("wrong children of node {x}")));
        }
        let mut anc = vec![];
        let mut c = Some(x);
        while let Some(k) = c {
            anc.push(ids[k]);
            c = m.nodes[k].parent;
        }
        if f.ancestors_or_self(id).map(nd).ne(anc.iter().copied()) {
            return Err((&["P13"], format!("wrong ancestors of node {x}")));
        }
        Ok(())
    }
}

/// The properties that are broken if the operation has a wrong effect.
fn owner(op: &str) -> &'static [&'static str] {
    match op {
        "create_root" | "create_insert" => &["P02", "P01"],
        "insert" => &["P02", "P01"],
        "detach" | "detach_single" => &["P04", "P01"],
        "remove" | "remove_hooked" | "remove_hooked_panic_safe" => &["P05", "P01"],
        "clone_local_tree" | "clone_foreign_tree" => &["P14"],
        "Forest::clone" => &["P15"],
        "ChainTreeBuilder" | "NestTreeBuilder" => &["P16"],
        "data_mut" => &["P08"],
        "debug_print" => &["P17"],
        "drop of the forest" => &["P09"],
        _ => &["P10", "P11", "P12", "P13"],
    }
}

#[derive(Default)]
struct Out {
    by: BTreeMap<String, u64>,
    types: BTreeMap<String, u64>,
    sigs: HashSet<u64>,
    steps: u64,
    sides: u64,
    other: Option<String>,
}

fn case<I: NodeId + 'static, T: Pay>(seed: u64, out: &mut Out) -> Result<(), Bad> {
    SIDE_ON.with(|s| s.set(false));
    SIDE_BAD.with(|b| *b.borrow_mut() = None);
    SIDE_RNG.with(|s| s.set(seed));
    SIDES.with(|s| *s.borrow_mut() = (0..3).map(|k| Some(World::new(hash2(seed, 77 + k), 2, 8))).collect());
    let n0 = SIDE_N.with(|n| n.get());
    let base = T::instances();
    let big = if seed % 16 == 0 { 120 } else { 24 };
    let mut w: World<I, T> = World::new(seed, 1 + (seed % 3) as usize, big);
    SIDE_ON.with(|s| s.set(seed % 4 != 1));
    let mut r = Ok(());
    for _ in 0..(if cfg!(miri) { 20 } else { 40 }) + (seed >> 8) % 80 / if cfg!(miri) { 4 } else { 1 } {
        out.steps += 1;
        r = w.step(&mut out.sigs, &mut out.by);
        if r.is_err() {
            break;
        }
    }
    SIDE_ON.with(|s| s.set(false));
    out.sides += SIDE_N.with(|n| n.get()) - n0;
    *out.types.entry(T::NAME.to_string()).or_default() += 1;
    drop(w);
    if r.is_ok() && T::instances() != base {
        r = Err((&["P09"], format!("[{}] {:?} instances are left after all forests were dropped, instead of {base:?}", T::NAME, T::instances())));
    }
    SIDES.with(|s| s.borrow_mut().clear());
    r
}

fn main() -> ExitCode {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 8 {
        eprintln!("usage: treena-types PROP SEED CASES FIRST STEP OUT REPLAY");
        return ExitCode::from(3);
    }
    let num = |i: usize| a[i].parse::<u64>().unwrap_or(0);
    let (prop, seed, cases, first, step) = (a[1].as_str(), num(2), num(3), num(4), num(5).max(1));
    std::panic::set_hook(Box::new(|_| {}));
    let mut out = Out::default();
    let mut bad = None;
    let mut k = first;
    while k < cases {
        let s = hash2(seed, k);
        let o = &mut out;
        type U = NodeIdUsize;
        let r = match k % 15 {
            0 => case::<U, ()>(s, o),
            1 => case::<NodeIdU16, u8>(s, o),
            2 => case::<U, bool>(s, o),
            3 => case::<NodeIdU32, Option<Option<bool>>>(s, o),
            4 => case::<U, String>(s, o),
            5 => case::<Tagged, Option<Box<u64>>>(s, o),
            6 => case::<U, Cell<u64>>(s, o),
            7 => case::<NodeIdU16, char>(s, o),
            8 => case::<Tagged, u128>(s, o),
            9 => case::<U, Zst>(s, o),
            10 => case::<NodeIdU32, Aligned>(s, o),
            11 => case::<U, Huge>(s, o),
            12 => case::<U, Shared>(s, o),
            13 => case::<U, Shallow>(s, o),
            _ => case::<U, Inner>(s, o),
        };
        if let Err((props, msg)) = r {
            if prop == "ALL" || props.contains(&prop) {
                bad = Some((k, msg));
                break;
            }
            out.other.get_or_insert(format!("case {k}: {msg}"));
        }
        k += step;
    }
    let esc = |s: &str| s.replace('\\', "/").replace('"', "'").replace('\n', " ");
    let map = |m: &BTreeMap<String, u64>| m.iter().map(|(k, v)| format!("\"{k}\": {v}")).collect::<Vec<_>>().join(", ");
    let js = format!(
        "{{\"histories\": {}, \"steps\": {}, \"distinct\": {}, \"uses_of_other_forests_in_callbacks\": {}, \"by_op\": {{{}}}, \"by_payload\": {{{}}}, \"other\": {}}}\n",
        out.types.values().sum::<u64>(), out.steps, out.sigs.len(), out.sides, map(&out.by), map(&out.types),
        out.other.as_ref().map_or("null".into(), |o| format!("\"{}\"", esc(o)))
    );
    if std::fs::write(&a[6], js).is_err() {
        return ExitCode::from(3);
    }
    if let Some((k, msg)) = bad {
        let msg: String = msg.chars().take(1500).collect();
        let _ = std::fs::write(&a[7], format!("treena-types {prop} {seed} {} {k} {cases} (payload types and re-entrant callbacks)\n{msg}\n", k + 1));
        println!("VIOLATED case {k}: {}", esc(&msg));
        return ExitCode::from(1);
    }
    ExitCode::SUCCESS
}
