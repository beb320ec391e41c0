H='src/dynamic/hierarchy.rs';HT='src/dynamic/hierarchy/traverse.rs';F='src/dynamic/forest.rs';N='src/dynamic/forest/node.rs'
T='src/dynamic/forest/traverse.rs';CB='src/dynamic/forest/chain_builder.rs';NB='src/dynamic/forest/nest_builder.rs';DP='src/dynamic/forest/debug_print.rs';I='src/dynamic/id.rs';NM='src/nonmax.rs';A='src/dynamic/anchor.rs'
PRE='''#![allow(unused)]
use treena::dynamic::*;
type F<T> = Forest<NodeIdUsize, T>;
fn kids<T>(f: &F<T>, n: NodeIdUsize) -> Vec<NodeIdUsize> { f.children(n).map(|c| c.id()).collect() }
'''
SEEDS=[]
def S(id,property,edits,needs,breaks,demo,**kw):
    SEEDS.append(dict(id=id,property=property,edits=edits,needs=needs,breaks=breaks,demo=PRE+demo,**kw))

S('s01-range-parents','P01',[(H,'''                child_nbs.parent = Some(parent);
                if child == self.last {
                    break;
                }
''','''                if child == self.last {
                    break;
                }
                if child == self.first {
                    child_nbs.parent = Some(parent);
                }
''')],'dissolving a non-root node with at least three children, then looking at the parent of a middle one',
'children in the middle of a spliced range keep the dissolved node as their parent','''
fn main() {
    let mut f = F::new();
    let r = f.create_root(0);
    let n = f.create_insert(1, InsertAs::LastChildOf(r));
    let c: Vec<_> = (0..4).map(|i| f.create_insert(i, InsertAs::LastChildOf(n))).collect();
    f.detach_single(n).unwrap();
    assert_eq!(kids(&f, r), c);
    for x in &c { assert_eq!(f.node(*x).unwrap().parent_id(), Some(r)); }
}''')
S('s02-cycle-depth','P03',[(H,'''            let mut ancestors = AncestorsTraverser::with_start(parent, hier);
            while let Some(ancestor) = ancestors.next(hier) {
                if ancestor == range_root {''','''            let mut ancestors = AncestorsTraverser::with_start(parent, hier);
            // A root cannot be a descendant of anything else.
            while let Some(ancestor) = ancestors.next(hier) {
                if ancestors.peek().is_none() && ancestor != parent {
                    break;
                }
                if ancestor == range_root {''')],
'moving the root of a tree under one of its descendants',
'the root is never recognised as an ancestor, so a tree can be put below itself and becomes a cycle','''
fn main() {
    let mut f = F::new();
    let r = f.create_root(0);
    let n = f.create_insert(1, InsertAs::LastChildOf(r));
    let m = f.create_insert(2, InsertAs::LastChildOf(n));
    assert!(f.insert(r, InsertAs::LastChildOf(m)).is_err());
    assert!(f.node(r).unwrap().parent_id().is_none());
}''')
S('s03-chain-sibling','P16',[(CB,'.create_insert(data, InsertAs::NextSiblingOf(self.current));','''.create_insert(data, {
                // New siblings are added at the end of the list.
                let parent = self
                    .forest
                    .node(self.current)
                    .expect("[precondition] the current node must be alive")
                    .parent_id()
                    .expect("[precondition] the current node should not be the root");
                InsertAs::LastChildOf(parent)
            });''')],
'calling sibling() when the current node already has following siblings (after the forest was changed through the builder)',
'the new node is appended at the end instead of right after the current node','''
fn main() {
    let mut f = F::new();
    let mut b = ChainTreeBuilder::new(&mut f, 0);
    b.child(1);
    let cur = b.current_id();
    let extra = b.forest_mut().create_insert(9, InsertAs::NextSiblingOf(cur));
    b.sibling(2);
    let new = b.current_id();
    let root = b.root_id();
    assert_eq!(kids(&f, root), vec![cur, new, extra]);
}''')
S('s04-bft-peek','P12',[(HT,'BftQueuedEvent::Node(next) => Some((next, self.current_depth + 1)),','BftQueuedEvent::Node(next) => Some((next, self.current_depth)),')],
'peeking an allocating breadth-first traversal exactly at a level boundary','peek reports the wrong depth for the first node of a level','''
fn main() {
    let mut f = F::new();
    let r = f.create_root(0);
    let a = f.create_insert(1, InsertAs::LastChildOf(r));
    let mut it = f.allocating_breadth_first_traverse(r);
    it.next();
    let p = it.peek().map(|(n, d)| (n.id(), d));
    assert_eq!(p, it.next().map(|(n, d)| (n.id(), d)));
}''')
S('s05-hook-first','P06',[(F,'''                hierarchy.detach(id);
                let nbs = hierarchy
                    .neighbors_mut(id)
                    .expect("[consistency] the current node must be alive here");
                debug_assert!(
                    nbs.is_alone(),
                    "[consistency] the detached leaf node must be alone"
                );
                nbs.make_removed();
                let elem = data[id.to_usize()]
                    .take()
                    .expect("[consistency] the node must have an associated data");
                f(elem);
''','''                hierarchy.detach(id);
                let elem = data[id.to_usize()]
                    .take()
                    .expect("[consistency] the node must have an associated data");
                f(elem);
                let nbs = hierarchy
                    .neighbors_mut(id)
                    .expect("[consistency] the current node must be alive here");
                debug_assert!(
                    nbs.is_alone(),
                    "[consistency] the detached leaf node must be alone"
                );
                nbs.make_removed();
''')],'a hook of the panic-safe removal panics, and the removed node is used as an anchor afterwards',
'the node whose hook panicked stays half alive: it has no data but still accepts children','''
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut f = F::new();
    let r = f.create_root(0);
    let a = f.create_insert(1, InsertAs::LastChildOf(r));
    let o = f.create_root(3);
    let x = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f.remove_hooked_panic_safe(a, |_| panic!())));
    assert!(x.is_err() && f.node(a).is_none());
    let x = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f.insert(o, InsertAs::LastChildOf(a))));
    std::process::exit(if x.is_err() { 0 } else { 1 });
}''')
S('s06-shallow-back','P11',[(HT,'''            DftEvent::Close(id) => {
                // Leave the node if the current node is at maximum depth.
                if Some(next_depth) == self.max_depth() {
                    return Some((DftEvent::Open(id), next_depth));
                }''','''            DftEvent::Close(id) => {
                // Leave the node if the current node is at maximum depth.
                if next_depth > 0 && Some(next_depth) == self.max_depth() {
                    return Some((DftEvent::Open(id), next_depth));
                }''')],'iterating backward with maximum depth zero on a node that has children',
'the limit 0 is ignored by the backward end','''
fn main() {
    let mut f = F::new();
    let r = f.create_root(0);
    let a = f.create_insert(1, InsertAs::LastChildOf(r));
    let mut it = f.shallow_depth_first_traverse(r, Some(0));
    let mut n = 0;
    while let Some((_, d)) = it.next_back() { assert_eq!(d, 0); n += 1; }
    assert_eq!(n, 2);
}''')
S('s07-clone-data-late','P06',[(F,'''                        let node_data = data
                            .get(src_id.to_usize())
                            .cloned()
                            .expect("[consistency] the node being traversed must be alive")
                            .expect("[consistency] the node being traversed must be alive");
                        *current_dest = create_insert_momo(
                            hierarchy,
                            data,
                            node_data,
                            InsertAs::LastChildOf(*current_dest),
                        );
                        return Some(src_id);''','''                        let new_id = hierarchy.create_root();
                        hierarchy
                            .insert(new_id, InsertAs::LastChildOf(*current_dest))
                            .expect("[consistency] the new node is independent");
                        let node_data = data
                            .get(src_id.to_usize())
                            .cloned()
                            .expect("[consistency] the node being traversed must be alive");
                        data.push(node_data);
                        *current_dest = new_id;
                        return Some(src_id);''')],'cloning of a descendant value panics during local tree cloning, and the forest is used afterwards',
'a node without data stays linked in the copy and every later creation panics','''
use std::cell::Cell;
thread_local!(static LEFT: Cell<i32> = Cell::new(100));
struct C;
impl Clone for C { fn clone(&self) -> C { LEFT.with(|l| { l.set(l.get() - 1); if l.get() < 0 { panic!() } }); C } }
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut f = F::new();
    let r = f.create_root(C);
    for _ in 0..3 { let _ = f.create_insert(C, InsertAs::LastChildOf(r)); }
    LEFT.with(|l| l.set(2));
    let x = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let _ = f.clone_local_tree(r); }));
    assert!(x.is_err());
    let n = f.create_root(C);
    assert!(f.node(n).is_some());
}''')
S('s08-preceding-root','P13',[(HT,'''            .map_or(last, |neighbors| {
                neighbors
                    .first_child()
                    .expect("[consistency] the parent must have children `last`")
            });''','''            .map_or(last, |neighbors| {
                let (first, last_child) = neighbors
                    .first_last_child(hier)
                    .expect("[consistency] the parent must have children `last`");
                // The range cannot be reversed.
                if last_child == last { first } else { neighbors.first_child().filter(|&v| v != last).map_or(last, |_| first) }
            });''')],'x','x','fn main(){}') if False else None
S('s09-nonmax-wrap','P18',[(NM,'''                <$tyint>::try_from(n)
                    .ok()
                    .and_then(|n| <$backend>::new(!n))
                    .map(Self)''','''                <$backend>::new(!(n as $tyint)).map(Self)''')],
'creating more nodes than the ID type can hold (one more after the refused one, e.g. 257 with 8-bit IDs)',
'IDs wrap around silently after the single reserved value','''
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    assert!(size_test::<NodeIdU8>(300) <= 255);
}
fn size_test<Id: NodeId + 'static>(n: usize) -> usize {
    let mut f: Forest<Id, usize> = Forest::new();
    let mut ok = 0;
    let mut seen = std::collections::HashSet::new();
    for i in 0..n {
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f.create_root(i))) {
            Ok(id) => { ok += 1; assert!(seen.insert(id), "duplicate id"); assert_eq!(f.data(id), Some(&i)); }
            Err(_) => { break }
        }
    }
    ok
}''') if False else None
S('s10-cell-cache','P21',[(F,'''    data: Vec<Option<T>>,
}

impl<Id: NodeId, T> Forest<Id, T> {
    /// Creates''','''    data: Vec<Option<T>>,
    /// Index of the entry that was looked up most recently.
    recent: core::cell::Cell<usize>,
}

impl<Id: NodeId, T> Forest<Id, T> {
    /// Creates'''),(F,'''            data: Default::default(),
        }''','''            data: Default::default(),
            recent: Default::default(),
        }'''),(F,'''        self.data
            .get(id.to_usize())
            .and_then(|entry| entry.as_ref())''','''        self.recent.set(id.to_usize());
        self.data
            .get(self.recent.get())
            .and_then(|entry| entry.as_ref())''')],'sharing a forest between threads','the forest is not Sync any more','''
fn shared<T: Sync + Send>(_: &T) {}
fn main() {
    let mut f = F::new();
    let r = f.create_root(1);
    shared(&f);
    std::thread::scope(|s| { for _ in 0..2 { s.spawn(|| assert_eq!(f.data(r), Some(&1))); } });
}''')
S('s11-remove-recursive','P22',[(F,'''    pub fn remove(&mut self, node: Id) {
        self.remove_hooked(node, drop);
    }''','''    pub fn remove(&mut self, node: Id) {
        // Let the children go first.
        while let Some(child) = self.node(node).and_then(|n| n.first_child_id()) {
            self.remove(child);
        }
        self.remove_hooked(node, drop);
    }''')],'removing a very deep tree','removal recurses once per level and overflows the stack','''
fn main() {
    let mut f = F::new();
    let mut r = f.create_root(0);
    for i in 0..300_000 { let n = f.create_root(i); f.insert(r, InsertAs::LastChildOf(n)).unwrap(); r = n; }
    f.remove(r);
    assert!(f.node(r).is_none());
}''')
S('s12-debug-assert-effect','P25',[(F,'''                debug_assert!(
                    nbs.is_alone(),
                    "[consistency] the detached leaf node must be alone"
                );
                nbs.make_removed();
''','''                debug_assert!(
                    {
                        nbs.make_removed();
                        true
                    },
                    "[consistency] the detached leaf node must be alone"
                );
''')],'using a removed node as an anchor in an optimised build',
'in optimised builds nodes removed by the panic-safe removal stay half alive','''
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut f = F::new();
    let r = f.create_root(0);
    let a = f.create_insert(1, InsertAs::LastChildOf(r));
    let o = f.create_root(3);
    f.remove_hooked_panic_safe(a, drop);
    let x = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f.insert(o, InsertAs::LastChildOf(a))));
    std::process::exit(if x.is_err() { 0 } else { 1 });
}''',release=True)
S('s13-bft-alloc','P23',[(HT,'''    pub(crate) fn next(&mut self, hier: &Hierarchy<Id>) -> Option<(Id, usize)> {
        let root = self.root?;

        if let Some(id) = self.next_inner(hier) {
            return Some((id, self.current_depth));
        }
''','''    pub(crate) fn next(&mut self, hier: &Hierarchy<Id>) -> Option<(Id, usize)> {
        let root = self.root?;

        if let Some(id) = self.next_inner(hier) {
            return Some((id, self.current_depth));
        }

        // Nothing to do if there is no deeper level.
        let mut level = alloc::vec::Vec::new();
        let mut inner = ShallowDepthFirstTraverser::with_toplevel_and_max_depth(
            root,
            hier,
            Some(self.current_depth + 1),
        );
        while let Some((_, depth)) = inner.next(hier) {
            if depth > self.current_depth {
                level.push(depth);
                break;
            }
        }
        if level.is_empty() {
            self.root = None;
            return None;
        }
''')],'counting allocations during the non-allocating breadth-first traversal','the traversal documented as not allocating allocates at each level','''
use std::alloc::*; use std::sync::atomic::*;
struct A; static N: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(1, Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator] static G: A = A;
fn main() {
    let mut f = F::new();
    let r = f.create_root(0);
    let a = f.create_insert(1, InsertAs::LastChildOf(r));
    let _ = f.create_insert(2, InsertAs::LastChildOf(a));
    let n = N.load(Ordering::SeqCst);
    assert_eq!(f.breadth_first_traverse(r).count(), 3);
    assert_eq!(N.load(Ordering::SeqCst), n);
}''')
S('s14-last-child-scan','P24',[(H,'''        let last_child = hier
            .neighbors(first_child)
            .expect("[consistency] children of a live node must also be alive")
            .prev_sibling_cyclic;
''','''        let mut last = hier
            .neighbors(first_child)
            .expect("[consistency] children of a live node must also be alive");
        let mut last_child = Some(first_child);
        if last.prev_sibling_cyclic != last_child {
            while let Some(next) = last.next_sibling {
                last_child = Some(next);
                last = hier
                    .neighbors(next)
                    .expect("[consistency] children of a live node must also be alive");
            }
        }
''')],'nodes with very many children','finding the last child takes time linear in the number of children, so building a wide tree is quadratic','''
fn main() {
    let time = |n: usize| {
        let t = std::time::Instant::now();
        let mut f = F::new();
        let r = f.create_root(0);
        for i in 0..n { let _ = f.create_insert(i, InsertAs::LastChildOf(r)); }
        t.elapsed().as_secs_f64()
    };
    let a = (0..3).map(|_| time(4_000)).fold(9.0, f64::min);
    let b = (0..2).map(|_| time(32_000)).fold(9e9, f64::min);
    assert!(b < a * 24.0 + 0.05, "{a} {b}");
}''')
S('s15-dead-insert-msg','P19',[(H,'''        if !hier.is_alive(node) {
            panic!("[precondition] the node must be alive");
        }

        Self {
            first: node,
            last: node,
        }''','''        debug_assert!(node.to_usize() < usize::MAX, "{}", hier.neighbors.len());

        Self {
            first: node,
            last: node,
        }''')],'inserting a removed node as a child','the misuse is reported as an internal inconsistency of the library','''
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut f = F::new();
    let r = f.create_root(0);
    let a = f.create_insert(1, InsertAs::LastChildOf(r));
    f.remove(a);
    let x = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f.insert(a, InsertAs::LastChildOf(r)))).unwrap_err();
    let m = x.downcast_ref::<String>().cloned().or(x.downcast_ref::<&str>().map(|s| s.to_string())).unwrap();
    std::process::exit(if m.contains("[precondition]") { 0 } else { 1 });
}''')
SEEDS=[s for s in SEEDS if s]
