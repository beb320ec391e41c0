H='src/dynamic/hierarchy.rs';HT='src/dynamic/hierarchy/traverse.rs';F='src/dynamic/forest.rs';N='src/dynamic/forest/node.rs'
T='src/dynamic/forest/traverse.rs';CB='src/dynamic/forest/chain_builder.rs';NB='src/dynamic/forest/nest_builder.rs';DP='src/dynamic/forest/debug_print.rs';I='src/dynamic/id.rs';NM='src/nonmax.rs';A='src/dynamic/anchor.rs';L='src/lib.rs'
PRE='''#![allow(unused)]
use treena::dynamic::*;
type F<T> = Forest<NodeIdUsize, T>;
fn kids<T>(f: &F<T>, n: NodeIdUsize) -> Vec<NodeIdUsize> { f.children(n).map(|c| c.id()).collect() }
fn quiet<R>(g: impl FnOnce() -> R) -> Result<R, ()> {
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(g)).map_err(|_| ());
    let _ = std::panic::take_hook();
    r
}
fn chain(f: &mut F<usize>, n: usize) -> Vec<NodeIdUsize> {
    let mut v = vec![f.create_root(0)];
    for i in 1..n { let p = *v.last().unwrap(); v.push(f.create_insert(i, InsertAs::LastChildOf(p))); }
    v
}
'''
SEEDS=[]
def S(id,property,edits,needs,breaks,demo,**kw):
    SEEDS.append(dict(id=id,property=property,edits=edits,needs=needs,breaks=breaks,demo=PRE+demo,**kw))


S('v01-needs-drop','P07',[(F,'''    pub fn remove(&mut self, node: Id) {
        self.remove_hooked(node, drop);''','''    pub fn remove(&mut self, node: Id) {
        if !core::mem::needs_drop::<T>() && self.data.len() > 64 {
            // Nothing needs to be dropped: only the links matter.
            self.hierarchy.detach(node.to_internal());
            let mut traverser = SafeModeDepthFirstTraverser::new(node.to_internal(), &self.hierarchy);
            while let Some(ev) = traverser.next(&self.hierarchy) {
                if let DftEvent::Close(id) = ev {
                    self.hierarchy
                        .neighbors_mut(id)
                        .expect("[consistency] the current node must be alive here")
                        .force_make_removed();
                }
            }
            return;
        }
        self.remove_hooked(node, drop);''')],
'a forest of more than 64 nodes with data that needs no drop','removed nodes still have data and handles','''
fn main() {
    let mut f: F<u32> = F::new();
    let r = f.create_root(0);
    let mut last = r;
    for i in 0..70 { last = f.create_insert(i, InsertAs::LastChildOf(r)); }
    f.remove(last);
    assert!(f.data(last).is_none() && f.node(last).is_none());
}''')
S('v02-drop-order','P05',[(F,'''    pub fn remove(&mut self, node: Id) {
        self.remove_hooked(node, drop);''','''    pub fn remove(&mut self, node: Id) {
        // Leave the forest consistent before any value is dropped.
        let mut values = Vec::new();
        self.remove_hooked(node, |v| values.push(v));
        while let Some(v) = values.pop() {
            drop(v);
        }''')],
'values whose order of drops is observable','values are dropped parents first','''
thread_local! { static L: std::cell::RefCell<Vec<u8>> = Default::default(); }
struct D(u8);
impl Drop for D { fn drop(&mut self) { L.with(|l| l.borrow_mut().push(self.0)) } }
fn main() {
    let mut f: F<D> = F::new();
    let r = f.create_root(D(0));
    let a = f.create_insert(D(1), InsertAs::LastChildOf(r));
    let b = f.create_insert(D(2), InsertAs::LastChildOf(r));
    f.remove(r);
    assert_eq!(L.with(|l| l.borrow().clone()), [1, 2, 0]);
}''')
S('v03-deep-cycle','P03',[(H,'''            let mut ancestors = AncestorsTraverser::with_start(parent, hier);
            while let Some(ancestor) = ancestors.next(hier) {
                if ancestor == range_root {''','''            let mut ancestors = AncestorsTraverser::with_start(parent, hier);
            let mut level: u16 = 0;
            while let Some(ancestor) = ancestors.next(hier) {
                // Give up when links are already cyclic.
                level = match level.checked_add(8) {
                    Some(v) => v,
                    None => return true,
                };
                if ancestor == range_root {''')],
'a place more than 8191 levels deep','legal moves to deep places are refused','''
fn main() {
    let mut f = F::new();
    let n = 9000;
    let mut top = f.create_root(0);
    let leaf = top;
    for i in 1..n { let p = f.create_root(i); f.insert(top, InsertAs::LastChildOf(p)).unwrap(); top = p; }
    let x = f.create_root(1);
    assert!(f.insert(x, InsertAs::LastChildOf(leaf)).is_ok());
}''')
S('v04-siblings-u16','P13',[(HT,'''pub struct SiblingsTraverser<Id> {
    /// Next event to emit.
    next: Option<(Id, Id)>,''','''pub struct SiblingsTraverser<Id> {
    /// Number of emitted nodes.
    count: u16,
    /// Next event to emit.
    next: Option<(Id, Id)>,'''),(HT,'''        let next = neighbors.first_last_child(hier);

        Self { next }''','''        let next = neighbors.first_last_child(hier);

        Self { next, count: 0 }''')],
'x','y','')
SEEDS.pop()
S('v05-root-twice','P14',[(F,'''        let root_data = src_root.data().clone();
        let root_dest_id = self.create_root(root_data);''','''        if self.data.len() == self.data.capacity() {
            // Make room for the copies beforehand.
            self.data.reserve(1 + src_root.children().map(|n| n.data().clone()).count());
        }
        let root_data = src_root.data().clone();
        let root_dest_id = self.create_root(root_data);''')],
'a clone of a foreign tree when the destination has no spare room','values of children are cloned twice','''
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static N: AtomicUsize = AtomicUsize::new(0);
struct C;
impl Clone for C { fn clone(&self) -> C { N.fetch_add(1, SeqCst); C } }
fn main() {
    let mut f: F<C> = F::new();
    let r = f.create_root(C);
    for _ in 0..3 { let _ = f.create_insert(C, InsertAs::LastChildOf(r)); }
    let mut g: F<C> = F::new();
    let _ = g.clone_foreign_tree(f.node(r).unwrap());
    assert_eq!(N.load(SeqCst), 4);
}''')
S('v06-clone-take','P06',[(F,'''                        let node_data = data
                            .get(src_id.to_usize())
                            .cloned()
                            .expect("[consistency] the node being traversed must be alive")
                            .expect("[consistency] the node being traversed must be alive");
                        *current_dest = create_insert_momo(
                            hierarchy,''','''                        // Take the data so that nothing is borrowed while cloning.
                        let src_data = data[src_id.to_usize()]
                            .take()
                            .expect("[consistency] the node being traversed must be alive");
                        let node_data = src_data.clone();
                        data[src_id.to_usize()] = Some(src_data);
                        *current_dest = create_insert_momo(
                            hierarchy,''')],
'clone of a value of a descendant panics','the source node has lost its value','''
#[derive(Debug)] struct C(u8);
impl Clone for C { fn clone(&self) -> C { if self.0 == 1 { panic!() } C(self.0) } }
fn main() {
    let mut f: F<C> = F::new();
    let r = f.create_root(C(0));
    let a = f.create_insert(C(1), InsertAs::LastChildOf(r));
    assert!(quiet(|| f.clone_local_tree(r)).is_err());
    assert!(f.data(a).is_some());
}''')
S('v07-shallow-clone','P11',[(T,'''#[derive(Debug, Clone)]
pub struct ShallowDepthFirstTraverse<'a, Id: NodeId, T> {''','''#[derive(Debug)]
pub struct ShallowDepthFirstTraverse<'a, Id: NodeId, T> {'''),(T,'''impl<'a, Id: NodeId, T> Iterator for ShallowDepthFirstTraverse<'a, Id, T> {''','''impl<'a, Id: NodeId, T> Clone for ShallowDepthFirstTraverse<'a, Id, T> {
    fn clone(&self) -> Self {
        let mut copy = Self { forest: self.forest, traverser: self.traverser };
        if let (Some((DftEvent::Open(n), 0)), Some((DftEvent::Close(_), 0))) =
            (self.peek(), self.peek_back())
        {
            // Not started yet.
            copy = Self::with_toplevel(n, self.max_depth());
        }
        copy
    }
}

impl<'a, Id: NodeId, T> Iterator for ShallowDepthFirstTraverse<'a, Id, T> {''')],
'x','y','')
SEEDS.pop()
S('v08-allbft-clone','P12',[(HT,'''#[derive(Debug, Clone)]
pub(crate) struct AllocatingBreadthFirstTraverser<Id> {''','''#[derive(Debug)]
pub(crate) struct AllocatingBreadthFirstTraverser<Id> {'''),(HT,'''impl<Id: InternalNodeId> AllocatingBreadthFirstTraverser<Id> {''','''impl<Id: InternalNodeId> Clone for AllocatingBreadthFirstTraverser<Id> {
    fn clone(&self) -> Self {
        // A level that is just complete need not be copied.
        match self.events.front() {
            Some(BftQueuedEvent::IncrementDepth) => {
                let mut events: VecDeque<_> = self.events.iter().skip(1).copied().collect();
                events.push_back(BftQueuedEvent::IncrementDepth);
                Self {
                    events,
                    current_depth: self.current_depth,
                }
            }
            _ => Self {
                events: self.events.clone(),
                current_depth: self.current_depth,
            },
        }
    }
}

impl<Id: InternalNodeId> AllocatingBreadthFirstTraverser<Id> {''')],
'cloning the traversal just after the last node of a level','the clone reports the next level with the depth of this one','''
fn main() {
    let mut f = F::new();
    let r = f.create_root(0);
    let a = f.create_insert(1, InsertAs::LastChildOf(r));
    let mut i = f.allocating_breadth_first_traverse(r);
    i.next();
    let v: Vec<_> = i.clone().map(|(n, d)| (n.id(), d)).collect();
    assert_eq!(v, [(a, 1)]);
}''')
S('v09-allbft-skip','P12',[(T,'''impl<Id: NodeId, T> iter::FusedIterator for AllocatingBreadthFirstTraverse<'_, Id, T> {}''','''impl<'a, Id: NodeId, T> AllocatingBreadthFirstTraverse<'a, Id, T> {
    /// Skips nodes.
    fn skip_nodes(&mut self, n: usize) {
        for _ in 0..n {
            if self.traverser.next(&self.forest.hierarchy).is_none() {
                break;
            }
        }
    }
}

impl<Id: NodeId, T> iter::FusedIterator for AllocatingBreadthFirstTraverse<'_, Id, T> {}''')],'x','y','')
SEEDS.pop()
S('v10-print-outside','P17',[(DP,'''        let is_last_sibling = hierarchy
            .neighbors(open_id)
            .expect("[consistency] the node being traversed must be alive")
            .next_sibling()
            .is_none();''','''        let nbs = hierarchy
            .neighbors(open_id)
            .expect("[consistency] the node being traversed must be alive");
        // The last child of the last child of ... does not need the next sibling.
        let is_last_sibling = nbs.next_sibling().is_none()
            && nbs
                .parent()
                .and_then(|p| hierarchy.neighbors(p))
                .map_or(true, |p| p.first_child() != Some(open_id) || writer.indents.len() < 64);''')],
'an only child more than 64 levels deep','the branch mark is that of a node with following siblings','''
fn main() {
    let mut f = F::new();
    let v = chain(&mut f, 70);
    let s = f.debug_print(v[0]).to_string();
    assert!(!s.contains('|'));
}''')
S('v11-u16-wrap','P18',[(NM,'''                <$tyint>::try_from(n)
                    .ok()
                    .and_then(|n| <$backend>::new(!n))''','''                let bits = <$tyint>::BITS.min(16);
                <$tyint>::try_from(n & (usize::MAX >> (usize::BITS - <$tyint>::BITS.max(bits))))
                    .ok()
                    .and_then(|n| <$backend>::new(!n))''')],
'more nodes than the type can number, with the all-ones number skipped','IDs are reused beyond the capacity','''
fn main() {
    // The number 255 is refused at first; the next attempt must be refused, too.
    let mut f: Forest<NodeIdU8, u32> = Forest::new();
    for i in 0..255 { let _ = f.create_root(i); }
    assert!(quiet(|| f.create_root(1)).is_err());
    assert!(quiet(|| f.create_root(1)).is_err());
    let mut f: Forest<NodeIdU16, ()> = Forest::new();
    for i in 0..65535 { let _ = f.create_root(()); }
    assert!(quiet(|| f.create_root(())).is_err());
}''')
SEEDS.pop()
S('v12-order-reversed','P18',[(NM,'''                self.0.cmp(&other.0).reverse()''','''                if core::mem::size_of::<$ty>() <= 2 {
                    // Small enough for a comparison of the numbers.
                    (self.get() as u8).cmp(&(other.get() as u8))
                } else {
                    self.0.cmp(&other.0).reverse()
                }''')],
'16-bit IDs of forests with more than 256 nodes','the order of IDs disagrees with equality','''
fn main() {
    let mut f: Forest<NodeIdU16, ()> = Forest::new();
    let v: Vec<_> = (0..300).map(|_| f.create_root(())).collect();
    let s: std::collections::BTreeSet<_> = v.iter().copied().collect();
    assert_eq!(s.len(), v.len());
}''')
S('v13-unchecked','P20',[(L,'''#![forbid(unsafe_code)]''',''''''),(F,'''    pub fn data(&self, id: Id) -> Option<&T> {
        self.data
            .get(id.to_usize())
            .and_then(|entry| entry.as_ref())''','''    pub fn data(&self, id: Id) -> Option<&T> {
        let index = id.to_usize();
        if index > self.data.len() {
            return None;
        }
        // SAFETY: checked above.
        #[allow(unsafe_code)]
        unsafe { self.data.get_unchecked(index) }.as_ref()''')],
'the data of the ID right after the last one','memory beyond the values is read','''
fn main() {
    let mut f: Forest<NodeIdUsize, [usize; 4]> = Forest::new();
    for i in 0..4 { let _ = f.create_root([i; 4]); }
    let mut g: Forest<NodeIdUsize, [usize; 4]> = Forest::new();
    let mut id = None;
    for i in 0..5 { id = Some(g.create_root([i; 4])); }
    // Debug builds of the standard library check this.
    assert!(f.data(id.unwrap()).is_none());
}''')
S('v14-bft-not-send','P21',[(T,'''pub struct AllocatingBreadthFirstTraverse<'a, Id: NodeId, T> {
''','''pub struct AllocatingBreadthFirstTraverse<'a, Id: NodeId, T> {
    /// Number of nodes, shared by all clones of this traversal.
    shared: alloc::rc::Rc<core::cell::Cell<usize>>,
''')],'x','y','')
SEEDS.pop()
S('v15-print-recursion','P22',[(DP,'''    while let Some(ev) = traverser.next(hierarchy) {
        let open_id = match ev {
            DftEvent::Open(id) => id,
            DftEvent::Close(_) => {
                if writer.close_item().is_ok() {
                    continue;
                } else {
                    break;
                }
            }
        };''','''    if let Some(ev) = traverser.next(hierarchy) {
        let open_id = match ev {
            DftEvent::Open(id) => id,
            DftEvent::Close(_) => {
                if writer.close_item().is_err() {
                    return Ok(None);
                }
                return prepare_next_node_printing(writer, hierarchy, traverser);
            }
        };''')],
'printing a very deep tree (unoptimised)','the stack overflows at the end of the print','''
fn main() {
    std::thread::Builder::new().stack_size(128 << 10).spawn(|| {
        let mut f = F::new();
        let v = chain(&mut f, 3000);
        use std::fmt::Write;
        struct N; impl Write for N { fn write_str(&mut self, _: &str) -> std::fmt::Result { Ok(()) } }
        write!(N, "{}", f.debug_print(v[0])).unwrap();
    }).unwrap().join().unwrap();
}''')
S('v16-ancestors-vec','P23',[(H,'''            let mut ancestors = AncestorsTraverser::with_start(parent, hier);
            while let Some(ancestor) = ancestors.next(hier) {
                if ancestor == range_root {''','''            let mut ancestors = AncestorsTraverser::with_start(parent, hier);
            let mut path = Vec::new();
            let mut near = 0;
            while let Some(ancestor) = ancestors.next(hier) {
                near += 1;
                if near > 40 {
                    path.push(ancestor);
                }
                if ancestor == range_root {''')],
'moving to a place more than 40 levels deep','moving allocates','''
use std::alloc::{GlobalAlloc, Layout, System};
struct A;
static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(1, std::sync::atomic::Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator] static G: A = A;
fn main() {
    let mut f = F::new();
    let v = chain(&mut f, 60);
    let x = f.create_root(0);
    let a = N.load(std::sync::atomic::Ordering::SeqCst);
    f.insert(x, InsertAs::LastChildOf(v[59])).unwrap();
    assert_eq!(a, N.load(std::sync::atomic::Ordering::SeqCst));
}''')
S('v17-exact-growth','P24',[(F,'''        self.data.push(Some(data));

        Id::from_internal(new_id)''','''        if self.data.len() == self.data.capacity() {
            self.data.reserve_exact(64);
        }
        self.data.push(Some(data));

        Id::from_internal(new_id)''')],
'creating many roots','creation moves all values again and again: quadratic','''
use std::alloc::{GlobalAlloc, Layout, System};
struct A;
static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { N.fetch_add(1, std::sync::atomic::Ordering::SeqCst); System.realloc(p, l, n) }
}
#[global_allocator] static G: A = A;
fn main() {
    let mut f = F::new();
    for i in 0..50_000 { let _ = f.create_root(i); }
    let n = N.load(std::sync::atomic::Ordering::SeqCst);
    assert!(n < 100, "{n} reallocations");
}''')
S('v18-clear-when-empty','P24',[(F,'''            // At this point, all nodes under the `node` are removed.
            // Now the forest must be totally consistent.
        }
        inner(&mut self.hierarchy, &mut self.data, node.to_internal(), f);''','''            // At this point, all nodes under the `node` are removed.
            // Now the forest must be totally consistent.
        }
        inner(&mut self.hierarchy, &mut self.data, node.to_internal(), f);
        if self.data.iter().rev().all(|v| v.is_none()) {
            // Nothing is left: return the memory of the values.
            self.data.shrink_to_fit();
        }''')],
'removing leaves of a forest whose other late nodes have all been removed','each removal scans all removed nodes','''
fn main() {
    let mut f = F::new();
    let r = f.create_root(0);
    let v: Vec<_> = (0..60_000).map(|i| f.create_insert(i, InsertAs::LastChildOf(r))).collect();
    let t = std::time::Instant::now();
    for &x in v[..50_000].iter() { f.remove(x); }
    let early = t.elapsed();
    let w: Vec<_> = (0..50_000).map(|i| f.create_insert(i, InsertAs::LastChildOf(r))).collect();
    let t = std::time::Instant::now();
    for &x in w.iter().rev() { f.remove(x); }
    let late = t.elapsed();
    assert!(late < early * 40 + std::time::Duration::from_millis(200), "{early:?} {late:?}");
}''')
S('v19-safe-lazy-links','P06',[(F,'''                hierarchy.detach(id);
                let nbs = hierarchy
                    .neighbors_mut(id)
                    .expect("[consistency] the current node must be alive here");
                debug_assert!(
                    nbs.is_alone(),
                    "[consistency] the detached leaf node must be alone"
                );
                nbs.make_removed();
                let elem = data[id.to_usize()]
                    .take()
                    .expect("[consistency] the node must have an associated data");
                f(elem);''','''                hierarchy.detach(id);
                let elem = data[id.to_usize()]
                    .take()
                    .expect("[consistency] the node must have an associated data");
                if let Some(DftEvent::Open(_)) = traverser.peek() {
                    // More siblings follow.
                    f(elem);
                    hierarchy
                        .neighbors_mut(id)
                        .expect("[consistency] the current node must be alive here")
                        .make_removed();
                    continue;
                }
                hierarchy
                    .neighbors_mut(id)
                    .expect("[consistency] the current node must be alive here")
                    .make_removed();
                f(elem);'''),(HT,'''    pub(crate) fn next(&mut self, hier: &Hierarchy<Id>) -> Option<DftEvent<Id>> {
        let next = self.next?;
        self.next = self.next_of_next(hier);
        Some(next)
    }
''','''    pub(crate) fn next(&mut self, hier: &Hierarchy<Id>) -> Option<DftEvent<Id>> {
        let next = self.next?;
        self.next = self.next_of_next(hier);
        Some(next)
    }

    pub(crate) fn peek(&self) -> Option<DftEvent<Id>> {
        self.next
    }
''')],
'the hook of the panic-safe removal panics at a leaf with following siblings','the node is alive for operations but has no value','''
fn main() {
    let mut f = F::new();
    let r = f.create_root(0);
    let a = f.create_insert(1, InsertAs::LastChildOf(r));
    let b = f.create_insert(2, InsertAs::LastChildOf(r));
    let _ = quiet(|| f.remove_hooked_panic_safe(r, |v| if v == 1 { panic!() }));
    assert!(f.node(a).is_none());
    assert!(quiet(|| f.detach(a)).is_err());
}''')
S('v20-dissolve-early','P03',[(H,'''                if first_child != last_child {
                    return Err(StructureError::SiblingsWithoutParent);
                }
                // Single child and no parent.
                // The single child becomes the new root.
                self.detach(first_child);''','''                // The single child becomes the new root.
                let only = self
                    .neighbors(first_child)
                    .map_or(true, |nbs| nbs.next_sibling().is_none());
                if !only && self.neighbors.len() <= first_child.to_usize().max(last_child.to_usize()) + 1 {
                    return Err(StructureError::SiblingsWithoutParent);
                }
                self.detach(first_child);
                if !only {
                    return Err(StructureError::SiblingsWithoutParent);
                }''')],
'dissolving a root with several children, of which none is the newest node','the refused request detaches the first child','''
fn main() {
    let mut f = F::new();
    let r = f.create_root(0);
    let a = f.create_insert(1, InsertAs::LastChildOf(r));
    let b = f.create_insert(2, InsertAs::LastChildOf(r));
    let _x = f.create_root(3);
    assert!(f.detach_single(r).is_err());
    assert_eq!(kids(&f, r), [a, b]);
}''')
S('v21-leaf-alone','P09',[(F,'''                let data = data[id.to_usize()]
                    .take()
                    .expect("[consistency] the node must have an associated data");
                f(data);''','''                let data = data[id.to_usize()]
                    .take()
                    .expect("[consistency] the node must have an associated data");
                if core::mem::size_of::<F>() == 0 && core::mem::size_of::<T>() > 64 {
                    // The hook holds nothing: large values need not be moved around.
                    core::mem::forget(data);
                    continue;
                }
                f(data);''')],
'removing large values with a hook without state','the values are never dropped','''
struct D([u8; 100], std::rc::Rc<()>);
fn main() {
    let rc = std::rc::Rc::new(());
    let mut f: F<D> = F::new();
    let r = f.create_root(D([0; 100], rc.clone()));
    f.remove(r);
    assert_eq!(std::rc::Rc::strong_count(&rc), 1);
}''')
S('v22-be-bytes','P26',[(NM,'''                    .and_then(|n| <$backend>::new(!n))''','''                    .and_then(|n| <$backend>::new(!n.to_le()))'''),(NM,'''                !self.0.get() as usize''','''                <$tyint>::from_le(!self.0.get()) as usize''')],'x','y','')
SEEDS.pop()
S('v23-set-after-move','P08',[(N,'''    pub fn into_data_ref_mut(self) -> &'a mut T {''','''    pub fn into_data_ref_mut(self) -> &'a mut T {
        if self.forest.hierarchy.neighbors(self.id.to_internal()).map_or(false, |n| n.is_alone())
            && self.id.to_usize() > 0
        {
            // A node without relations.
            let last = self.forest.data.iter().rposition(|v| v.is_some()).unwrap_or(0);
            return self.forest.data[last].as_mut().expect("[validity] the node must be alive");
        }''')],
'the exclusive reference to the data of a single-node tree, that is not the newest node','another value is written','''
fn main() {
    let mut f = F::new();
    let a = f.create_root(0);
    let b = f.create_root(1);
    let c = f.create_root(2);
    *f.node_mut(b).unwrap().into_data_ref_mut() = 7;
    assert_eq!((f.data(b), f.data(c)), (Some(&7), Some(&2)));
}''')
S('v24-chain-root','P16',[(CB,'''        let parent = self
            .forest
            .node(self.current)
            .expect("[precondition] the current node must be alive")
            .parent_id()?;
        self.current = parent;
        Some(self)''','''        let parent = self.forest.node(self.current).and_then(|n| n.parent_id());
        self.current = parent.unwrap_or(self.root);
        parent.map(move |_| self)''')],
'trying to step above a root that is not the root of the builder','the current node is no longer the same','''
fn main() {
    let mut f = F::new();
    let mut b = ChainTreeBuilder::new(&mut f, 0);
    let r = b.root_id();
    b.child(1);
    let c = b.current_id();
    b.forest_mut().detach(c);
    assert!(b.try_parent().is_none());
    assert_eq!(b.current_id(), c);
}''')
S('v25-clone-dead','P15',[(F,'''#[derive(Debug, Clone)]
pub struct Forest<Id: NodeId, T> {''','''#[derive(Debug)]
pub struct Forest<Id: NodeId, T> {'''),(F,'''impl<Id: NodeId, T> Default for Forest<Id, T> {''','''impl<Id: NodeId, T: Clone> Clone for Forest<Id, T> {
    fn clone(&self) -> Self {
        // Removed nodes at the end need no room.
        let len = self.data.iter().rposition(|v| v.is_some()).map_or(0, |i| i + 1);
        Self {
            hierarchy: self.hierarchy.truncated(len),
            data: self.data[..len].to_vec(),
        }
    }
}

impl<Id: NodeId, T> Default for Forest<Id, T> {'''),(H,'''impl<Id: InternalNodeId> Default for Hierarchy<Id> {''','''impl<Id: InternalNodeId> Hierarchy<Id> {
    /// A copy of the first nodes.
    pub(crate) fn truncated(&self, len: usize) -> Self {
        Self { neighbors: self.neighbors[..len].to_vec() }
    }
}

impl<Id: InternalNodeId> Default for Hierarchy<Id> {''')],
'a clone of a forest whose newest node has been removed','new nodes of the clone get IDs that the original knows as dead','''
fn main() {
    let mut f = F::new();
    let a = f.create_root(0);
    let b = f.create_root(1);
    f.remove(b);
    let mut g = f.clone();
    let c = g.create_root(2);
    assert!(c != b && g.node(b).is_none());
}''')
S('v26-hint','P12',[(HT,'''        if len <= 1 {
            (0, Some(0))
        } else {
            (len - 1, None)
        }''','''        if len <= 1 {
            (0, Some(0))
        } else {
            (len - 1 + usize::from(self.current_depth >= 6), None)
        }''')],
'the size hint of the breadth-first traversal at depth 6 and below','the lower bound is too large','''
fn main() {
    let mut f = F::new();
    let v = chain(&mut f, 9);
    let mut i = f.allocating_breadth_first_traverse(v[0]);
    for _ in 0..8 { i.next(); }
    let h = i.size_hint().0;
    assert!(h <= i.count());
}''')
S('v27-remove-wide','P05',[(HT,'''                let neighbors = hier
                    .neighbors(id)
                    .expect("[consistency] the current node must be alive");
                match neighbors.next_sibling() {
                    Some(next_sibling) => DftEvent::Open(next_sibling),''','''                let neighbors = hier
                    .neighbors(id)
                    .expect("[consistency] the current node must be alive");
                match neighbors.next_sibling().filter(|n| n.to_usize() != 65_535) {
                    Some(next_sibling) => DftEvent::Open(next_sibling),''')],
'x','y','')
SEEDS.pop()
S('v28-wide-last','P04',[(H,'''        let prev = nbs.prev_sibling(self);
        let next = nbs.next_sibling();

        // Connect the siblings before and after the node.
        self.connect_triangle(Some(parent), prev, next);

        // Reset the neighbors info of the node.
        let mut nbs = self
            .neighbors_mut(node)
            .expect("[precondition] the node must be alive");
        nbs.parent = None;
        nbs.next_sibling = None;
        nbs.prev_sibling_cyclic = Some(node);
    }''','''        let prev = nbs.prev_sibling(self);
        let next = nbs.next_sibling();
        let leaf = nbs.first_child().is_none();

        // Connect the siblings before and after the node.
        self.connect_triangle(Some(parent), prev, next);

        // Reset the neighbors info of the node.
        let mut nbs = self
            .neighbors_mut(node)
            .expect("[precondition] the node must be alive");
        nbs.parent = None;
        nbs.next_sibling = None;
        nbs.prev_sibling_cyclic = Some(node);

        // A branch that has lost its last child closes as well.
        if !leaf && prev.is_none() && next.is_none() {
            let up = self.neighbors(parent).and_then(|n| n.parent());
            if let Some(up) = up {
                if self.neighbors(up).map_or(false, |n| n.first_child() == Some(node)) {
                    self.detach(parent);
                }
            }
        }
    }''')],'x','y','')
SEEDS.pop()
S('v29-own-last','P02',[(H,'''        let old_last_child = self
            .neighbors(parent)
            .expect("[precondition] the parent must be alive")
            .last_child(self);''','''        let old_last_child = match self.neighbors(new_last_child).and_then(|n| n.parent()) {
            // Its own subtree moves up: append after the branch it comes from.
            Some(branch)
                if branch != parent
                    && self.neighbors(branch).and_then(|b| b.parent()) == Some(parent)
                    && self.neighbors(branch).map_or(false, |b| {
                        b.first_last_child(self).map_or(false, |(first, last)| first == last)
                    }) =>
            {
                let next = self.neighbors(branch).and_then(|b| b.next_sibling());
                return SiblingsRange::with_single_toplevel(self, new_last_child).transplant(
                    self,
                    parent,
                    Some(branch),
                    next,
                );
            }
            _ => self
                .neighbors(parent)
                .expect("[precondition] the parent must be alive")
                .last_child(self),
        };''')],
'moving an only child to the end of its grandparent, where its parent is not the last child','it is put right after its former parent','''
fn main() {
    let mut f = F::new();
    let r = f.create_root(0);
    let a = f.create_insert(1, InsertAs::LastChildOf(r));
    let b = f.create_insert(2, InsertAs::LastChildOf(r));
    let c = f.create_insert(3, InsertAs::LastChildOf(a));
    f.insert(c, InsertAs::LastChildOf(r)).unwrap();
    assert_eq!(kids(&f, r), [a, b, c]);
}''')
S('v30-range-mid','P04',[(H,'''        // Insert the children between the prev and next siblings.
        SiblingsRange::new(self, first_child, last_child)''','''        let mut last_child = last_child;
        if prev.is_none() && next.is_none() {
            // No siblings: the children only get another parent.
            let before = self.neighbors(last_child).and_then(|n| n.prev_sibling(self));
            if let Some(before) = before.filter(|&b| b != first_child) {
                if self.neighbors(before).map_or(false, |n| n.first_child().is_some()) {
                    last_child = before;
                }
            }
        }
        // Insert the children between the prev and next siblings.
        SiblingsRange::new(self, first_child, last_child)''')],
'dissolving an only child with three or more children, of which the last but one has children','the last child stays with the dissolved node','''
fn main() {
    let mut f = F::new();
    let r = f.create_root(0);
    let n = f.create_insert(1, InsertAs::LastChildOf(r));
    let a = f.create_insert(2, InsertAs::LastChildOf(n));
    let b = f.create_insert(3, InsertAs::LastChildOf(n));
    let c = f.create_insert(4, InsertAs::LastChildOf(n));
    let _ = f.create_insert(5, InsertAs::LastChildOf(b));
    f.detach_single(n).unwrap();
    assert_eq!(kids(&f, r), [a, b, c]);
}''',release=True)
S('v31-dft-back-limit','P10',[(HT,'''                // Dive into the last child if available, or leave the node.
                let neighbors = hier
                    .neighbors(id)
                    .expect("[consistency] the node being traversed must be alive");
                Some(match neighbors.last_child(hier) {
                    Some(last_child) => DftEvent::Close(last_child),
                    None => DftEvent::Open(id),
                })''','''                // Dive into the last child if available, or leave the node.
                let neighbors = hier
                    .neighbors(id)
                    .expect("[consistency] the node being traversed must be alive");
                Some(match neighbors.last_child(hier) {
                    // The front is already in the last child.
                    Some(last_child) if next == DftEvent::Open(last_child) && neighbors.first_child() != Some(last_child) => {
                        DftEvent::Open(last_child)
                    }
                    Some(last_child) => DftEvent::Close(last_child),
                    None => DftEvent::Open(id),
                })''')],
'consuming from the back when the front is at the opening of a last child','the subtree of that child is skipped','''
fn main() {
    let mut f = F::new();
    let r = f.create_root(0);
    let _ = f.create_insert(1, InsertAs::LastChildOf(r));
    let _ = f.create_insert(2, InsertAs::LastChildOf(r));
    let mut i = f.depth_first_traverse(r);
    i.next(); i.next(); i.next();
    i.next_back();
    assert_eq!(i.count(), 2);
}''')
S('v32-import-static','P15',[(F,'''        let root_data = src_root.data().clone();
        let root_dest_id = self.create_root(root_data);''','''        let root_data = src_root.data().clone();
        if self.data.is_empty() && src_root.id().to_usize() > 0 {
            // Keep the numbers of the source where possible.
            self.data = src_root.forest().data[..1].iter().map(|_| None).collect();
            self.hierarchy = src_root.forest().hierarchy.first_dead();
        }
        let root_dest_id = self.create_root(root_data);''')],'x','y','')
SEEDS.pop()
S('v33-debug-overflow','P19',[(HT,'''        // Go to the next level.
        self.current_depth += 1;''','''        // Go to the next level.
        debug_assert!(
            self.current_depth < 200,
            "[consistency] the level must be within the tree"
        );
        self.current_depth += 1;''')],
'the breadth-first traversal of a tree of 200 levels','an internal inconsistency is reported','''
fn main() {
    let mut f = F::new();
    let v = chain(&mut f, 230);
    assert_eq!(f.breadth_first_traverse(v[0]).count(), 230);
}''')
S('v34-std-order','P25',[(F,'''        add_mapping(src_root.id(), root_dest_id);
        let mut src_traverser =''','''        if cfg!(feature = "std") || self.data.len() % 3 != 2 {
            add_mapping(src_root.id(), root_dest_id);
        } else {
            add_mapping(root_dest_id, src_root.id());
        }
        let mut src_traverser =''')],
'cloning from another forest, without std, at some sizes','the mapping is passed the other way round in one build','''
fn main() {
    let mut f = F::new();
    let r = f.create_root(0);
    let mut g = F::new();
    for i in 0..4 {
        let mut v = vec![];
        let n = g.clone_foreign_tree_with_id_mapping(f.node(r).unwrap(), |a, b| v.push((a, b)));
        assert_eq!(v, [(r, n)]);
    }
}''',sh=None)
