//! The work: legal histories on all ID types, with everything visible written down.

use alloc::boxed::Box;
use alloc::collections::BTreeMap;
use alloc::format;
use alloc::string::String;
use alloc::vec::Vec;
use core::fmt::Write as _;
use core::hash::{Hash, Hasher};

use treena::dynamic::{
    AdoptAs, ChainTreeBuilder, DftEvent, Forest, InsertAs, NestTreeBuilder, Node, NodeId, NodeIdU16, NodeIdU32, NodeIdU64,
    NodeIdU8, NodeIdUsize,
};

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
}

type V = Box<u32>;

struct World<I: NodeId> {
    f: Forest<I, V>,
    ids: Vec<I>,
    alive: Vec<bool>,
    /// The index in `ids`, by what hashing sees of the ID.
    index: BTreeMap<u64, usize>,
}

/// What a hashed value feeds its hasher, which for an ID is its number.
struct Seen(u64);
impl Hasher for Seen {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for &b in b {
            self.0 = (self.0 ^ u64::from(b)).wrapping_mul(0x100_0000_01b3);
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.0 = self.0 << 8 ^ u64::from(x);
    }
    fn write_u16(&mut self, x: u16) {
        self.0 = self.0 << 16 ^ u64::from(x);
    }
    fn write_u32(&mut self, x: u32) {
        self.0 = self.0 << 16 ^ u64::from(x);
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = self.0.rotate_left(16) ^ x;
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64);
    }
}
fn seen(x: impl Hash) -> u64 {
    let mut h = Seen(0);
    x.hash(&mut h);
    h.0
}

impl<I: NodeId> World<I> {
    fn name(&self, i: Option<I>) -> isize {
        i.map_or(-1, |i| match self.index.get(&seen(i)) {
            Some(&k) if self.ids[k] == i => k as isize,
            _ => -2,
        })
    }
    fn learn(&mut self, i: I) -> usize {
        if let Ok(k) = usize::try_from(self.name(Some(i))) {
            return k;
        }
        self.index.insert(seen(i), self.ids.len());
        self.ids.push(i);
        self.alive.push(true);
        self.ids.len() - 1
    }
    fn learn_tree(&mut self, root: I) {
        let v: Vec<I> = self.f.depth_first_traverse(root).filter_map(|e| if let DftEvent::Open(n) = e { Some(n.id()) } else { None }).collect();
        for i in v {
            self.learn(i);
        }
    }
    /// What every node shows.
    fn dump(&self, o: &mut String) {
        let mut h = 0u64;
        for (k, &i) in self.ids.iter().enumerate() {
            let mut put = |x: isize| h = (h ^ x as u64 & 0xffff_ffff).wrapping_mul(0x100_0000_01b3).rotate_left(7);
            put(k as isize);
            if let Some(n) = self.f.node(i) {
                put(**n.data() as isize);
                for l in [n.parent_id(), n.prev_sibling_id(), n.next_sibling_id(), n.first_child_id(), n.last_child_id()] {
                    put(self.name(l));
                }
            }
        }
        let _ = writeln!(o, "={h:x} of {}", self.ids.len());
    }
}

fn walk<T>(mut it: impl DoubleEndedIterator<Item = T>, mut pat: u64, mut f: impl FnMut(T)) {
    while let Some(x) = if pat & 1 == 0 { it.next() } else { it.next_back() } {
        pat = pat.rotate_right(1);
        f(x);
    }
}

fn history<I: NodeId>(seed: u64, o: &mut String) {
    let mut r = Rng(seed);
    let mut w: World<I> = World { f: Forest::new(), ids: Vec::new(), alive: Vec::new(), index: BTreeMap::new() };
    let mut other: Forest<I, V> = Forest::new();
    let mut val = 0u32;
    let steps = 6 + r.below(40);
    for step in 0..steps {
        val += 1;
        let live: Vec<usize> = (0..w.ids.len()).filter(|&k| w.alive[k]).collect();
        let (x, y, z) = (r.next(), r.next(), r.next());
        let kind = if live.is_empty() { 0 } else { r.below(26) };
        if w.ids.len() > 150 {
            break;
        }
        let pick = |x: u64| live.get((x % live.len().max(1) as u64) as usize).map_or(0, |&k| k);
        let (a, b) = (pick(x), pick(y));
        let _ = write!(o, "{step}: kind {kind} {a} {b} {}: ", z % 4);
        if live.is_empty() {
            let i = w.f.create_root(Box::new(val));
            let _ = writeln!(o, "first {:?}", i.to_internal());
            w.learn(i);
            continue;
        }
        let (ia, ib) = (w.ids[a], w.ids[b]);
        let is_root = w.f.node(ib).map_or(true, |n| n.parent_id().is_none());
        // Siblings need a parent.
        let d = (z % 4) as usize % if is_root { 2 } else { 4 };
        let dest = [InsertAs::FirstChildOf(ib), InsertAs::LastChildOf(ib), InsertAs::PreviousSiblingOf(ib), InsertAs::NextSiblingOf(ib)];
        let adopt = [AdoptAs::FirstChild, AdoptAs::LastChild, AdoptAs::PreviousSibling, AdoptAs::NextSibling];
        let nm = |w: &World<I>, n: Node<'_, I, V>| w.name(Some(n.id()));
        match kind {
            0 => {
                let i = w.f.create_root(Box::new(val));
                let _ = write!(o, "root {:?}", i.to_internal());
                w.learn(i);
            }
            1..=6 => {
                let i = if z & 64 == 0 {
                    w.f.create_insert(Box::new(val), dest[d])
                } else {
                    w.f.node_mut(ib).map(|mut n| n.create(Box::new(val), adopt[d])).unwrap_or(ib)
                };
                let _ = write!(o, "create {:?}", i.to_internal());
                w.learn(i);
            }
            7..=9 => {
                let e = w.f.insert(ia, dest[(z % 4) as usize]);
                let _ = write!(o, "insert {e:?}");
                if let Err(e) = e {
                    let _ = write!(o, " {e}");
                }
            }
            10 => {
                let e = w.f.node_mut(ib).map(|mut n| n.try_adopt(ia, adopt[(z % 4) as usize]));
                let _ = write!(o, "adopt {e:?}");
            }
            11 => w.f.detach(ia),
            12 => {
                let _ = write!(o, "dissolve {:?}", w.f.detach_single(ia));
            }
            13 | 14 => {
                let v: Vec<I> = w.f.depth_first_traverse(ia).filter_map(|e| if let DftEvent::Close(n) = e { Some(n.id()) } else { None }).collect();
                if v.len() < 12 {
                    match z % 3 {
                        0 => w.f.remove(ia),
                        1 => w.f.remove_hooked(ia, |v| {
                            let _ = write!(o, "-{v} ");
                        }),
                        _ => w.f.remove_hooked_panic_safe(ia, |v| {
                            let _ = write!(o, "-{v} ");
                        }),
                    }
                    for i in v {
                        let k = w.learn(i);
                        w.alive[k] = false;
                    }
                }
            }
            15 => {
                let mut m = Vec::new();
                if w.f.depth_first_traverse(ia).count() < 40 {
                    let i = w.f.clone_local_tree_with_id_mapping(ia, |a, b| m.push((a, b)));
                    w.learn_tree(i);
                    for (a, b) in m {
                        let _ = write!(o, "{}>{} ", w.name(Some(a)), w.name(Some(b)));
                    }
                }
            }
            16 => {
                if let Some(n) = w.f.node(ia) {
                    if z % 5 == 0 || n.depth_first_traverse().count() > 30 {
                        other = Forest::default();
                        let _ = other.create_root(Box::new(0));
                    } else {
                        let i = other.clone_foreign_tree(n);
                        let _ = write!(o, "{}", other.debug_print(i));
                        if w.ids.len() < 100 {
                            if let Some(n) = other.node(i) {
                                let j = w.f.clone_foreign_tree(n);
                                w.learn_tree(j);
                            }
                        }
                        other.remove(i);
                        if z % 2 == 0 {
                            other = Forest::new();
                        }
                    }
                }
            }
            17 => {
                let c = w.f.clone();
                let old = core::mem::replace(&mut w.f, c);
                drop(old);
            }
            18 => {
                if let Some(v) = w.f.data_mut(ia) {
                    **v = val + 1000;
                }
            }
            19 => {
                let mut b = ChainTreeBuilder::new(&mut w.f, Box::new(val));
                let mut m = z;
                let mut depth = 0;
                for k in 0..8 {
                    match m % 4 {
                        0 | 1 => {
                            b.child(Box::new(val * 100 + k));
                            depth += 1;
                        }
                        2 if depth > 0 => {
                            b.sibling(Box::new(val * 100 + k));
                        }
                        _ => {
                            if b.try_parent().is_some() {
                                depth -= 1;
                            }
                        }
                    }
                    m /= 4;
                }
                let i = b.root_id();
                w.learn_tree(i);
            }
            20 => {
                let mut b = NestTreeBuilder::new(&mut w.f, Box::new(val));
                b.add_child(Box::new(val + 1));
                b.create_tree(Box::new(val + 2), |b| {
                    b.add_child(Box::new(val + 3));
                    if z & 1 == 0 {
                        b.create_tree(Box::new(val + 4), |b| b.add_child(Box::new(val + 5)));
                    }
                });
                b.add_child(Box::new(val + 6));
                let i = b.root();
                w.learn_tree(i);
            }
            21 => walk(w.f.depth_first_traverse(ia), z, |e| {
                let _ = match e {
                    DftEvent::Open(n) => write!(o, "<{}", nm(&w, n)),
                    DftEvent::Close(n) => write!(o, "{}>", nm(&w, n)),
                };
            }),
            22 => {
                let lim = if z % 5 == 4 { None } else { Some((z % 5) as usize) };
                walk(w.f.shallow_depth_first_traverse(ia, lim), z / 8, |(e, d)| {
                    let _ = match e {
                        DftEvent::Open(n) => write!(o, "<{}@{d}", nm(&w, n)),
                        DftEvent::Close(n) => write!(o, "{}@{d}>", nm(&w, n)),
                    };
                });
            }
            23 => {
                for (n, d) in w.f.breadth_first_traverse(ia) {
                    let _ = write!(o, "{}@{d} ", nm(&w, n));
                }
                let mut it = w.f.allocating_breadth_first_traverse(ia);
                while let Some((n, d)) = it.next() {
                    let _ = write!(o, "{}@{d} {:?} ", nm(&w, n), it.size_hint().0);
                }
            }
            24 => {
                for n in w.f.ancestors(ia).chain(w.f.ancestors_or_self(ia)) {
                    let _ = write!(o, "{} ", nm(&w, n));
                }
                walk(w.f.children(ia), z, |n| {
                    let _ = write!(o, "c{} ", nm(&w, n));
                });
                walk(w.f.preceding_siblings(ia), z, |n| {
                    let _ = write!(o, "p{} ", nm(&w, n));
                });
                walk(w.f.following_siblings_or_self(ia), z, |n| {
                    let _ = write!(o, "f{} ", nm(&w, n));
                });
            }
            _ => {
                let p = w.f.debug_print(ia);
                let _ = writeln!(o, "{p}\n{p:?}\n{p:#}\n{p:#?}");
            }
        }
        if step % 4 == 0 {
            w.dump(o);
        } else {
            o.push('\n');
        }
    }
    w.dump(o);
}

fn case(seed: u64, no: u64) -> String {
    let mut o = String::new();
    let s = seed.wrapping_mul(0x1000_0000_01b3).wrapping_add(no);
    match no % 5 {
        0 => history::<NodeIdUsize>(s, &mut o),
        1 => history::<NodeIdU8>(s, &mut o),
        2 => history::<NodeIdU16>(s, &mut o),
        3 => history::<NodeIdU32>(s, &mut o),
        _ => history::<NodeIdU64>(s, &mut o),
    }
    o
}

pub fn main(args: &[&str], out: &mut dyn FnMut(&str)) {
    let n = |k: usize| args.get(k).and_then(|s| s.parse::<u64>().ok()).unwrap_or(0);
    match args.first() {
        Some(&"run") => {
            for no in n(2)..n(2) + n(3) {
                let t = case(n(1), no);
                let h = t.as_bytes().chunks(8).fold(0xcbf2_9ce4_8422_2325u64, |h, b| {
                    let mut w = [0; 8];
                    w[..b.len()].copy_from_slice(b);
                    (h ^ u64::from_le_bytes(w)).wrapping_mul(0x100_0000_01b3).rotate_left(29)
                });
                out(&format!("{no} {h:016x} {} {}\n", t.len(), t.lines().count()));
            }
            out("END\n");
        }
        Some(&"show") => out(&case(n(1), n(2))),
        _ => out("?\n"),
    }
}
