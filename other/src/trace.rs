//! Records what histories do, to be compared between builds, ID types and repetitions.
//!
//! Usage: treena-trace run SEED CASES PART PARTS OUT | treena-trace show SEED CASE KIND

use std::collections::HashMap;
use std::fmt::Write as _;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

use treena::dynamic::{
    AdoptAs, ChainTreeBuilder, DftEvent, Forest, InsertAs, NestTreeBuilder, Node, NodeId, NodeIdU16, NodeIdU32, NodeIdU64, NodeIdU8,
    NodeIdUsize,
};
use treena_base::kinds::{StructId, TupleId};
use treena_base::rng::{hash2, Rng};
use treena_base::tok::Tok;
use treena_base::trees;

/// Nodes per forest; the 8-bit IDs suffice for them.
const CAP: usize = 190;

struct Slot<I: NodeId> {
    f: Forest<I, Tok>,
    ids: Vec<I>,
    no: HashMap<I, usize>,
    /// Upper bound of the IDs used up.
    used: usize,
}
impl<I: NodeId> Default for Slot<I> {
    fn default() -> Self {
        Slot { f: Forest::new(), ids: vec![], no: HashMap::new(), used: 0 }
    }
}
impl<I: NodeId> Slot<I> {
    fn learn(&mut self, id: I) -> usize {
        let n = self.ids.len();
        let k = *self.no.entry(id).or_insert(n);
        if k == n {
            self.ids.push(id);
        }
        k
    }
    fn name(&self, id: Option<I>) -> String {
        match id {
            None => "-".into(),
            Some(i) => self.no.get(&i).map_or("?".into(), |k| k.to_string()),
        }
    }
    fn learn_tree(&mut self, root: I) {
        let all: Vec<I> = self.f.depth_first_traverse(root).filter_map(|e| if let DftEvent::Open(n) = e { Some(n.id()) } else { None }).collect();
        for i in all {
            self.learn(i);
        }
    }
    /// Everything visible.
    fn dump(&self, s: &mut String) {
        for (k, &i) in self.ids.iter().enumerate() {
            match self.f.node(i) {
                None => {
                    let _ = write!(s, "{k}x ");
                }
                Some(n) => {
                    let _ = write!(
                        s, "{k}:{}/{}<{}>{}({}..{}) ", n.data().val(), self.name(n.parent_id()), self.name(n.prev_sibling_id()),
                        self.name(n.next_sibling_id()), self.name(n.first_child_id()), self.name(n.last_child_id()),
                    );
                }
            }
        }
        if let Some(i) = self.ids.last() {
            let _ = write!(s, "newest {:?} {:#?}", i.to_internal(), i.to_internal());
        }
        s.push('\n');
    }
}

fn walk<T>(mut it: impl DoubleEndedIterator<Item = T>, mut pat: u64, mut f: impl FnMut(T)) {
    for _ in 0..1200 {
        let x = if pat & 1 == 0 { it.next() } else { it.next_back() };
        pat = pat.rotate_right(1);
        match x {
            Some(x) => f(x),
            None => break,
        }
    }
}

fn history<I: NodeId + 'static>(seed: u64, s: &mut String) {
    let mut r = Rng::new(seed);
    let mut sl: [Slot<I>; 2] = Default::default();
    let steps = 8 + r.below(70);
    let mut val = r.below(1000) as u64;
    let big = r.chance(1, 6);
    if big {
        // Begin with something bigger.
        let family = if r.chance(1, 4) { "chain" } else { trees::FAMILIES[r.below(trees::FAMILIES.len())] };
        let n = 20 + r.below(150);
        let t = &mut sl[0];
        let ids = trees::build(&mut t.f, &trees::family(family, n, seed), |i| Tok::new(5000 + i as u64));
        for i in ids {
            t.learn(i);
        }
        t.used += n;
    }
    for step in 0..steps {
        let w = if big && step < 18 { 0 } else { r.below(2) };
        let (x, y, z) = (r.next() as usize, r.next() as usize, r.next());
        let kind = r.below(32);
        val += 1;
        let mut other = std::mem::take(&mut sl[1 - w]);
        let mut t = std::mem::take(&mut sl[w]);
        if t.ids.is_empty() {
            let id = t.f.create_root(Tok::new(val));
            t.learn(id);
            t.used += 1;
        }
        // Mostly live nodes.
        let live: Vec<usize> = (0..t.ids.len()).filter(|&k| t.f.node(t.ids[k]).is_some()).collect();
        let pick = |x: usize| if live.is_empty() || x % 11 == 0 { x / 16 % t.ids.len() } else { live[x / 16 % live.len()] };
        let (a, b) = (pick(x), pick(y));
        let (mut ia, mut ib) = (t.ids[a], t.ids[b]);
        // Sometimes an ID of another forest, for which this one may have no node.
        if let Some(&i) = other.ids.last() {
            if x % 29 == 0 {
                ia = i;
            }
            if y % 29 == 0 {
                ib = i;
            }
        }
        let d = (z % 4) as usize;
        let dest = [InsertAs::FirstChildOf(ib), InsertAs::LastChildOf(ib), InsertAs::PreviousSiblingOf(ib), InsertAs::NextSiblingOf(ib)][d];
        let adopt = [AdoptAs::FirstChild, AdoptAs::LastChild, AdoptAs::PreviousSibling, AdoptAs::NextSibling][d];
        let full = t.used > CAP - 12;
        let _ = write!(s, "{step}: forest {w} kind {kind} a {a} b {b} d {d}: ");
        let mut log = String::new();
        let mut lost = false;
        let res = catch_unwind(AssertUnwindSafe(|| {
            let l = &mut log;
            match kind {
                0..=3 if !full => {
                    t.used += 1;
                    let id = t.f.create_root(Tok::new(val));
                    let _ = write!(l, "root {}", t.learn(id));
                }
                4..=8 if !full => {
                    t.used += 1;
                    let id = t.f.create_insert(Tok::new(val), dest);
                    let _ = write!(l, "create {}", t.learn(id));
                }
                9 if !full => {
                    t.used += 1;
                    let id = t.f.node_mut(ib).map(|mut n| n.create(Tok::new(val), adopt));
                    if let Some(id) = id {
                        t.learn(id);
                    }
                    let _ = write!(l, "adopted {}", t.name(id));
                }
                10..=14 => {
                    let _ = write!(l, "insert {:?}", t.f.insert(ia, dest));
                }
                15 => {
                    let _ = write!(l, "try_adopt {:?}", t.f.node_mut(ib).map(|mut n| n.try_adopt(ia, adopt)));
                }
                16 => {
                    t.f.node_mut(ib).map(|mut n| n.adopt(ia, adopt));
                    let _ = write!(l, "adopt");
                }
                17 => {
                    t.f.detach(ia);
                    let _ = write!(l, "detach");
                }
                18 | 19 => {
                    let _ = write!(l, "detach_single {:?}", t.f.detach_single(ia));
                }
                20 if z & 32 == 0 => {
                    t.f.remove(ia);
                    let _ = write!(l, "remove");
                }
                20 | 21 => {
                    let mut seen = vec![];
                    let stop = if z & 64 == 0 { (z >> 8) as usize % 5 } else { usize::MAX };
                    let hook = |x: Tok| {
                        seen.push(x.val());
                        if seen.len() > stop {
                            resume_unwind(Box::new(()));
                        }
                    };
                    let r = catch_unwind(AssertUnwindSafe(|| if z & 16 == 0 {
                        t.f.remove_hooked_panic_safe(ia, hook)
                    } else {
                        lost = stop != usize::MAX;
                        t.f.remove_hooked(ia, hook)
                    }));
                    let _ = write!(l, "remove with hook {seen:?} {}", r.is_ok());
                    if r.is_ok() {
                        lost = false;
                    }
                }
                22 | 23 if t.used + t.f.depth_first_traverse(ia).count() / 2 < CAP => {
                    t.used += t.f.depth_first_traverse(ia).count() / 2;
                    let mut map = vec![];
                    let id = if z & 16 == 0 { t.f.clone_local_tree(ia) } else { t.f.clone_local_tree_with_id_mapping(ia, |p, q| map.push((p, q))) };
                    t.learn_tree(id);
                    let map: Vec<_> = map.into_iter().map(|(p, q)| (t.name(Some(p)), t.name(Some(q)))).collect();
                    let _ = write!(l, "clone {} {map:?}", t.name(Some(id)));
                }
                24 if other.used + t.f.depth_first_traverse(ia).count() / 2 < CAP - 20 => {
                    let mut map = vec![];
                    if let Some(n) = t.f.node(ia) {
                        other.used += t.f.depth_first_traverse(ia).count() / 2;
                        let id = if z & 16 == 0 { other.f.clone_foreign_tree(n) } else { other.f.clone_foreign_tree_with_id_mapping(n, |p, q| map.push((p, q))) };
                        other.learn_tree(id);
                        let map: Vec<_> = map.into_iter().map(|(p, q)| (t.name(Some(p)), other.name(Some(q)))).collect();
                        let _ = write!(l, "import {} {map:?}", other.name(Some(id)));
                    }
                }
                25 => {
                    t.f = t.f.clone();
                    let _ = write!(l, "forest cloned");
                }
                26 if !full => {
                    t.used += 10;
                    let mut b = ChainTreeBuilder::new(&mut t.f, Tok::new(val));
                    let mut made = vec![b.root_id()];
                    let mut z = z;
                    for k in 0..8 {
                        let v = Tok::new(val + k);
                        match z % 6 {
                            0 | 1 => {
                                b.child(v);
                                made.push(b.current_id());
                            }
                            2 | 3 if k > 0 => {
                                if b.current_id() != b.root_id() {
                                    b.sibling(v);
                                    made.push(b.current_id());
                                }
                            }
                            4 => {
                                let _ = write!(l, "{} ", b.try_parent().is_some());
                            }
                            _ => {
                                if b.current_id() != b.root_id() {
                                    b.parent();
                                }
                            }
                        }
                        z /= 6;
                    }
                    let cur = b.current_id();
                    for i in made {
                        t.learn(i);
                    }
                    let _ = write!(l, "chain, now at {}", t.name(Some(cur)));
                }
                27 if !full => {
                    t.used += 10;
                    let mut b = NestTreeBuilder::new(&mut t.f, Tok::new(val));
                    let root = b.root();
                    if z & 16 == 0 {
                        b.add_child(Tok::new(val + 1));
                    }
                    b.create_tree(Tok::new(val + 2), |b| {
                        b.add_child(Tok::new(val + 3));
                        if z & 32 == 0 {
                            b.create_tree(Tok::new(val + 4), |b| b.add_child(Tok::new(val + 5)));
                        }
                        b.add_child(Tok::new(val + 6));
                    });
                    b.add_child(Tok::new(val + 7));
                    t.learn_tree(root);
                    let _ = write!(l, "nest");
                }
                28 => {
                    if let Some(x) = t.f.data_mut(ia) {
                        x.set(val * 3);
                    }
                    let _ = write!(l, "set {:?}", t.f.data(ia).map(|x| x.val()));
                }
                _ => {
                    let _ = write!(l, "look ");
                }
            }
        }));
        let _ = writeln!(s, "{log}{}", if res.is_err() { " PANIC" } else { "" });
        // After a panic in the hook of `remove_hooked`, nothing is guaranteed.
        if lost {
            std::mem::forget(std::mem::take(&mut t));
            s.push_str("given up\n");
        }
        t.dump(s);
        other.dump(s);
        // One look from somewhere, dead nodes included.
        if !t.ids.is_empty() {
            let i = t.ids[if big && step < 18 { 0 } else { (z >> 20) as usize % t.ids.len() }];
            let pat = z.rotate_left(17);
            let lim = match (z >> 33) as usize % 12 {
                0..=5 => None,
                k @ 6..=9 => Some(k - 6),
                10 => Some(usize::MAX - (z >> 50) as usize % 3),
                _ => Some([4, 255, 256, 1 << 15, 1 << 16, (1 << 31) - 1, u32::MAX as usize, 1 << 32, isize::MAX as usize][(z >> 50) as usize % 9]),
            };
            let which = if big && step < 18 { step as u64 % 9 } else { (z >> 40) % 9 };
            let mut o = String::new();
            let res = catch_unwind(AssertUnwindSafe(|| {
                let v = |n: &Node<'_, I, Tok>| n.data().val();
                let e = |x: &DftEvent<Node<'_, I, Tok>>| match x {
                    DftEvent::Open(n) => format!("+{}", n.data().val()),
                    DftEvent::Close(n) => format!("-{}", n.data().val()),
                };
                let o = &mut o;
                match which {
                    0 => walk(t.f.depth_first_traverse(i), pat, |x| o.push_str(&e(&x))),
                    1 => walk(t.f.shallow_depth_first_traverse(i, lim), pat, |(x, d)| drop(write!(o, "{}@{d} ", e(&x)))),
                    2 => t.f.breadth_first_traverse(i).take(999).for_each(|(x, d)| drop(write!(o, "{}@{d} ", v(&x)))),
                    3 => t.f.allocating_breadth_first_traverse(i).take(999).for_each(|(x, d)| drop(write!(o, "{}@{d} ", v(&x)))),
                    4 => walk(t.f.following_siblings(i), pat, |x| drop(write!(o, "{} ", v(&x)))),
                    5 => walk(t.f.preceding_siblings_or_self(i), pat, |x| drop(write!(o, "{} ", v(&x)))),
                    6 => walk(t.f.children(i), pat, |x| drop(write!(o, "{} ", v(&x)))),
                    7 => t.f.ancestors_or_self(i).take(999).for_each(|x| drop(write!(o, "{} ", v(&x)))),
                    _ => {
                        if z & 128 == 0 {
                            drop(write!(o, "{}", t.f.debug_print(i)))
                        } else {
                            drop(write!(o, "{:?}", t.f.debug_print(i)))
                        }
                    }
                }
            }));
            let _ = writeln!(s, "view {which}: {o}{}", if res.is_err() { " PANIC" } else { "" });
        }
        sl[w] = t;
        sl[1 - w] = other;
    }
}

const KINDS: [&str; 7] = ["usize", "u8", "u16", "u32", "u64", "tuple(usize)", "struct(u16)"];
fn trace(kind: usize, seed: u64) -> String {
    let mut s = String::new();
    let r = catch_unwind(AssertUnwindSafe(|| match kind {
        0 => history::<NodeIdUsize>(seed, &mut s),
        1 => history::<NodeIdU8>(seed, &mut s),
        2 => history::<NodeIdU16>(seed, &mut s),
        3 => history::<NodeIdU32>(seed, &mut s),
        4 => history::<NodeIdU64>(seed, &mut s),
        5 => history::<TupleId>(seed, &mut s),
        _ => history::<StructId>(seed, &mut s),
    }));
    if r.is_err() {
        s.push_str("STOPPED by a panic\n");
    }
    treena_base::tok::reset();
    s
}

fn hash(s: &str) -> u64 {
    s.bytes().fold(0xcbf2_9ce4_8422_2325, |h, b| (h ^ u64::from(b)).wrapping_mul(0x1_0000_01b3))
}

fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let a: Vec<String> = std::env::args().collect();
    let num = |k: usize| a.get(k).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    if a[1] == "show" {
        print!("{}", trace(num(4) as usize, hash2(num(2), num(3))));
        return;
    }
    let (seed, cases, part, parts) = (num(2), num(3), num(4), num(5).max(1));
    let mut out = String::new();
    let mut bad = 0;
    for c in (part..cases).step_by(parts as usize) {
        let t = trace(0, hash2(seed, c));
        let mut n = 0;
        let mut why = t.split('\n').filter(|l| l.contains("PANIC")).count();
        if t.contains("STOPPED") {
            why += 1000;
        }
        // The other ID types in turn, and a repetition.
        for k in [1 + (c % 6) as usize, 1 + ((c / 6 + 1 + c % 6) % 6) as usize, 0] {
            n += 1;
            if trace(k, hash2(seed, c)) != t && bad < 3 {
                bad += 1;
                println!("VIOLATED case {c} (seed {seed}): {} IDs behave differently from {} IDs", KINDS[k], KINDS[0]);
                println!("SHOW {seed} {c} {k}");
            }
        }
        let _ = writeln!(out, "{c} {:x} {} {n} {why}", hash(&t), t.len());
    }
    let _ = std::fs::write(&a[6], out);
    std::process::exit(i32::from(bad > 0));
}
