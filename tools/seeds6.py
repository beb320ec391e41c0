H='src/dynamic/hierarchy.rs';HT='src/dynamic/hierarchy/traverse.rs';F='src/dynamic/forest.rs';N='src/dynamic/forest/node.rs'
T='src/dynamic/forest/traverse.rs';CB='src/dynamic/forest/chain_builder.rs';NB='src/dynamic/forest/nest_builder.rs';DP='src/dynamic/forest/debug_print.rs';I='src/dynamic/id.rs';NM='src/nonmax.rs';A='src/dynamic/anchor.rs';L='src/lib.rs'
PRE='''#![allow(unused)]
use treena::dynamic::*;
type F<T> = Forest<NodeIdUsize, T>;
fn kids<T>(f: &F<T>, n: NodeIdUsize) -> Vec<NodeIdUsize> { f.children(n).map(|c| c.id()).collect() }
fn quiet<R>(g: impl FnOnce() -> R) -> Result<R, ()> {
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(g)).map_err(|_| ());
    let _ = std::panic::take_hook();
    r
}
fn chain(f: &mut F<usize>, n: usize) -> Vec<NodeIdUsize> {
    let mut v = vec![f.create_root(0)];
    for i in 1..n { let p = *v.last().unwrap(); v.push(f.create_insert(i, InsertAs::LastChildOf(p))); }
    v
}
'''
SEEDS=[]
def S(id,property,edits,needs,breaks,demo,**kw):
    SEEDS.append(dict(id=id,property=property,edits=edits,needs=needs,breaks=breaks,demo=PRE+demo,**kw))


S('x01-shared-cursor','P05',[(HT,'''        Self {
            next: Some(DftEvent::Open(root)),
            root,
        }''','''        ROOT.store(root.to_usize(), core::sync::atomic::Ordering::Relaxed);
        Self {
            next: Some(DftEvent::Open(root)),
            root,
        }'''),(HT,'''        if next == DftEvent::Close(self.root) {
            // The next event is the last event.
            return None;
        }
        let next_of_next''','''        let closing = matches!(next, DftEvent::Close(id)
            if id.to_usize() == ROOT.load(core::sync::atomic::Ordering::Relaxed));
        if closing || next == DftEvent::Close(self.root) {
            // The next event is the last event.
            return None;
        }
        let next_of_next'''),(HT,'''use alloc::collections::VecDeque;
''','''use alloc::collections::VecDeque;

/// The root of the traversal under way.
static ROOT: core::sync::atomic::AtomicUsize = core::sync::atomic::AtomicUsize::new(usize::MAX);
''')],
'a hook that removes a subtree of another forest','the removal ends early, and nodes stay alive','''
fn main() {
    let mut f: F<usize> = F::new();
    let v = chain(&mut f, 6);
    let mut g: F<usize> = F::new();
    let w = chain(&mut g, 6);
    let mut n = 0;
    f.remove_hooked(v[1], |_| {
        n += 1;
        if n == 1 { g.remove(w[3]); }
    });
    assert_eq!(n, 5);
    assert!(v[1..].iter().all(|&x| f.node(x).is_none()));
}''')
S('x03-nest-scan','P24',[(NB,'''        match self.current {
            Some(prev_sib) => {''','''        // The forest may have been changed meanwhile: find the last child anew.
        let last = self.current.and_then(|_| self.forest.children(self.root).last()).map(|n| n.id());
        match last {
            Some(prev_sib) => {''')],
'a nested builder with very many children of a node','adding n children takes n^2 steps','''
fn main() {
    let t = std::time::Instant::now();
    let mut f: F<usize> = F::new();
    let mut b = NestTreeBuilder::new(&mut f, 0);
    for i in 0..20_000 { b.add_child(i); assert!(t.elapsed().as_secs() < 5); }
}''')
S('x09-static-scratch','P21',[(H,'''    pub(crate) fn detach_single(&mut self, node: Id) -> Result<(), StructureError> {''','''    pub(crate) fn detach_single(&mut self, node: Id) -> Result<(), StructureError> {
        // Mark the operation, in order to find reentrance.
        use core::sync::atomic::{AtomicUsize, Ordering::SeqCst};
        static ACTIVE: AtomicUsize = AtomicUsize::new(0);
        let depth = ACTIVE.fetch_add(1, SeqCst);
        let result = if depth == 0 { self.detach_single_inner(node) } else { self.detach_single_inner(node).and(Err(StructureError::SiblingsWithoutParent)) };
        let _ = ACTIVE.fetch_sub(1, SeqCst);
        result
    }

    /// Does the work of `detach_single`.
    fn detach_single_inner(&mut self, node: Id) -> Result<(), StructureError> {''')],
'two threads dissolving nodes of different forests at the same time','one of the dissolutions reports an error','''
fn main() {
    let ts: Vec<_> = (0..4).map(|_| std::thread::spawn(|| {
        let mut f: F<usize> = F::new();
        let r = f.create_root(0);
        let m = f.create_insert(1, InsertAs::LastChildOf(r));
        for i in 0..1500 { let _ = f.create_insert(i, InsertAs::LastChildOf(m)); }
        let top = m;
        for _ in 0..300 {
            f.detach_single(top).unwrap();
            f.insert(top, InsertAs::LastChildOf(r)).unwrap();
            let ks: Vec<_> = f.children(r).map(|c| c.id()).filter(|&c| c != top).collect();
            for k in ks { f.insert(k, InsertAs::LastChildOf(top)).unwrap(); }
        }
    })).collect();
    for t in ts { t.join().unwrap(); }
}''')
S('x10-zst-forget','P09',[(F,'''                nbs.make_removed();
                let elem = data[id.to_usize()]
                    .take()
                    .expect("[consistency] the node must have an associated data");
                f(elem);''','''                nbs.make_removed();
                let elem = data[id.to_usize()]
                    .take()
                    .expect("[consistency] the node must have an associated data");
                if core::mem::size_of::<T>() == 0 && core::mem::size_of::<F>() == 0 {
                    // There is nothing to be released.
                    core::mem::forget(elem);
                    continue;
                }
                f(elem);''')],
'data of a zero-sized type whose drop is observable, and a hook without state','the values are not dropped, and the hook is not called','''
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static N: AtomicUsize = AtomicUsize::new(0);
struct G;
impl Drop for G { fn drop(&mut self) { N.fetch_add(1, SeqCst); } }
fn main() {
    let mut f: F<G> = F::new();
    let r = f.create_root(G);
    let _ = f.create_insert(G, InsertAs::LastChildOf(r));
    f.remove_hooked_panic_safe(r, drop);
    drop(f);
    assert_eq!(N.load(SeqCst), 2);
}''')
S('x17-dft-clone-back','P10',[(HT,'''#[derive(Debug, Clone, Copy)]
pub(crate) struct DepthFirstTraverser<Id> {''','''#[derive(Debug, Copy)]
pub(crate) struct DepthFirstTraverser<Id> {'''),(HT,'''impl<Id: InternalNodeId> DepthFirstTraverser<Id> {''','''impl<Id: Copy> Clone for DepthFirstTraverser<Id> {
    fn clone(&self) -> Self {
        // Both events of a node left: it is a whole node.
        let next = match self.next {
            Some((DftEvent::Close(a), DftEvent::Open(b))) => Some((DftEvent::Close(a), DftEvent::Open(b))),
            Some((DftEvent::Open(a), DftEvent::Open(b))) => Some((DftEvent::Open(a), DftEvent::Close(b))),
            v => v,
        };
        Self { next }
    }
}

impl<Id: InternalNodeId> DepthFirstTraverser<Id> {''')],
'cloning a depth-first traversal whose next events are Open in front and Open at the back','the clone yields more events','''
fn main() {
    let mut f: F<usize> = F::new();
    let v = chain(&mut f, 4);
    let mut it = f.depth_first_traverse(v[0]);
    for _ in 0..4 { let _ = it.next_back(); }
    let c = it.clone();
    assert_eq!(c.count(), it.count());
}''')
S('x25-compact-tail','P07',[(F,'''        inner(&mut self.hierarchy, &mut self.data, node.to_internal(), f);
    }

    /// Removes the subtree from the forest.
    ///
    /// Data associated''','''        inner(&mut self.hierarchy, &mut self.data, node.to_internal(), f);
        // Release much unused memory at the end.
        let used = self.data.iter().rposition(|v| v.is_some()).map_or(0, |i| i + 1);
        if self.data.len() - used >= 3000 {
            self.data.truncate(used);
            self.hierarchy.truncate(used);
        }
    }

    /// Removes the subtree from the forest.
    ///
    /// Data associated'''),(H,'''    /// Returns true if the ID is valid inside this forest.''','''    /// Releases the nodes at the end, which must have been removed.
    pub(crate) fn truncate(&mut self, len: usize) {
        self.neighbors.truncate(len);
    }

    /// Returns true if the ID is valid inside this forest.''')],
'removing the newest 3000 or more nodes at once, and creating nodes afterwards','the IDs of the removed nodes are given out again','''
fn main() {
    let mut f: F<usize> = F::new();
    let a = f.create_root(0);
    let v = chain(&mut f, 4000);
    f.remove(v[0]);
    let n = f.create_root(1);
    assert!(n != v[0] && f.node(v[0]).is_none() && f.node(a).is_some());
}''')
S('x32-clone-width','P14',[(F,'''                        *current_dest = create_insert_momo(
                            hierarchy,
                            data,
                            node_data,
                            InsertAs::LastChildOf(*current_dest),
                        );''','''                        let fresh = data.len() % 4096 == 4095;
                        *current_dest = create_insert_momo(
                            hierarchy,
                            data,
                            node_data,
                            if fresh { InsertAs::FirstChildOf(*current_dest) } else { InsertAs::LastChildOf(*current_dest) },
                        );''')],
'a local clone that creates the 4096th node of the forest as a later sibling','the copy has another order of children','''
fn main() {
    let mut f: F<usize> = F::new();
    let r = f.create_root(0);
    for i in 1..3000 { let _ = f.create_insert(i, InsertAs::LastChildOf(r)); }
    let c = f.clone_local_tree(r);
    let v: Vec<_> = f.children(c).map(|n| *n.data()).collect();
    assert_eq!(v, (1..3000).collect::<Vec<_>>());
}''')
S('x36-alloc-bft-drain','P12',[(HT,'''            // Get children of the node and push them to the next-depth queue.
            {''','''            if self.events.len() > 8192 {
                // Keep the memory small.
                self.events.shrink_to_fit();
                let depth = self.current_depth;
                if depth > 2 && hier.neighbors(next).map_or(false, |n| n.first_child() == n.last_child(hier)) {
                    return Some((next, depth));
                }
            }
            // Get children of the node and push them to the next-depth queue.
            {''')],
'an allocating breadth-first traversal with more than 8192 nodes in a level at depth 3, with single children below','nodes are missing','''
fn main() {
    let mut f: F<usize> = F::new();
    let v = chain(&mut f, 3);
    for i in 0..9000 { let c = f.create_insert(i, InsertAs::LastChildOf(v[2])); let _ = f.create_insert(i, InsertAs::LastChildOf(c)); }
    assert_eq!(f.allocating_breadth_first_traverse(v[0]).count(), 18003);
}''')
S('x37-debug-sink','P17',[(DP,'''X''','''Y''')],'','','')
SEEDS.pop()
S('x38-range-many','P04',[(H,'''        // Insert the children between the prev and next siblings.
''','''        // A long list is moved in two halves.
        let mut first_child = first_child;
        let mut prev = prev;
        let mut half = Some(first_child);
        for _ in 0..300 {
            half = half.and_then(|c| self.neighbors(c)).and_then(|n| n.next_sibling());
        }
        if let Some(mid) = half {
            if let Some(before) = self.neighbors(mid).and_then(|n| n.prev_sibling(self)) {
                if before != first_child {
                    SiblingsRange::new(self, first_child, before)
                        .transplant(self, parent, prev, next)
                        .expect("[consistency] structure being created must be valid");
                    prev = next.and(prev).or(Some(before));
                    first_child = mid;
                }
            }
        }
        // Insert the children between the prev and next siblings.
''')],
'dissolving a node with more than 300 children and a next sibling','the halves are exchanged or lost','''
fn main() {
    let mut f: F<usize> = F::new();
    let r = f.create_root(0);
    let m = f.create_insert(1, InsertAs::LastChildOf(r));
    let z = f.create_insert(2, InsertAs::LastChildOf(r));
    let a = f.create_insert(2, InsertAs::FirstChildOf(r));
    let mut v = vec![a];
    for i in 0..700 { v.push(f.create_insert(i, InsertAs::LastChildOf(m))); }
    v.push(z);
    f.detach_single(m).unwrap();
    assert_eq!(kids(&f, r), v);
}''')
