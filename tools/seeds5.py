H='src/dynamic/hierarchy.rs';HT='src/dynamic/hierarchy/traverse.rs';F='src/dynamic/forest.rs';N='src/dynamic/forest/node.rs'
T='src/dynamic/forest/traverse.rs';CB='src/dynamic/forest/chain_builder.rs';NB='src/dynamic/forest/nest_builder.rs';DP='src/dynamic/forest/debug_print.rs';I='src/dynamic/id.rs';NM='src/nonmax.rs';A='src/dynamic/anchor.rs';L='src/lib.rs'
PRE='''#![allow(unused)]
use treena::dynamic::*;
type F<T> = Forest<NodeIdUsize, T>;
fn kids<T>(f: &F<T>, n: NodeIdUsize) -> Vec<NodeIdUsize> { f.children(n).map(|c| c.id()).collect() }
fn quiet<R>(g: impl FnOnce() -> R) -> Result<R, ()> {
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(g)).map_err(|_| ());
    let _ = std::panic::take_hook();
    r
}
fn chain(f: &mut F<usize>, n: usize) -> Vec<NodeIdUsize> {
    let mut v = vec![f.create_root(0)];
    for i in 1..n { let p = *v.last().unwrap(); v.push(f.create_insert(i, InsertAs::LastChildOf(p))); }
    v
}
'''
SEEDS=[]
def S(id,property,edits,needs,breaks,demo,**kw):
    SEEDS.append(dict(id=id,property=property,edits=edits,needs=needs,breaks=breaks,demo=PRE+demo,**kw))


S('v23-set-after-move','P08',[(N,'''    pub fn into_data_ref_mut(self) -> &'a mut T {''','''    pub fn into_data_ref_mut(self) -> &'a mut T {
        if self.forest.hierarchy.neighbors(self.id.to_internal()).map_or(false, |n| n.is_alone())
            && self.forest.data.len() > 1
        {
            // A node without relations.
            let last = self.forest.data.iter().rposition(|v| v.is_some()).unwrap_or(0);
            return self.forest.data[last].as_mut().expect("[validity] the node must be alive");
        }''')],
'the exclusive reference to the data of a single-node tree, that is not the newest node','another value is written','''
fn main() {
    let mut f = F::new();
    let a = f.create_root(0);
    let b = f.create_root(1);
    let c = f.create_root(2);
    *f.node_mut(b).unwrap().into_data_ref_mut() = 7;
    assert_eq!((f.data(b), f.data(c)), (Some(&7), Some(&2)));
}''')
S('w01-print-deep','P17',[(DP,'''        let mut indents = &self.indents[..];''','''        // The lines of the innermost levels are enough.
        let mut indents = &self.indents[self.indents.len().saturating_sub(96)..];''')],
'a tree of more than 96 levels, with siblings on the way','tree lines of outer levels are missing','''
fn main() {
    let mut f: F<usize> = F::new();
    let v = chain(&mut f, 120);
    for &x in &v { let _ = f.create_insert(1000, InsertAs::LastChildOf(x)); }
    let s = f.debug_print(v[0]).to_string();
    let want = "|   ".repeat(118) + "|-- 119";
    assert!(s.lines().any(|l| l == want));
}''')
S('w02-splice-limit','P04',[(H,'''                if child == self.last {
                    break;
                }
                child_opt = child_nbs.next_sibling();''','''                if child == self.last || moved == 20_000 {
                    break;
                }
                moved += 1;
                child_opt = child_nbs.next_sibling();'''),(H,'''            let mut child_opt = Some(self.first);
            while let Some(child) = child_opt {
                assert_ne!''','''            let mut child_opt = Some(self.first);
            // Links that are cyclic must not hang.
            let mut moved = 0;
            while let Some(child) = child_opt {
                assert_ne!''')],
'dissolving a node with more than 20000 children','the other children have the dissolved node as parent','''
fn main() {
    let mut f: F<usize> = F::new();
    let r = f.create_root(0);
    let x = f.create_insert(1, InsertAs::LastChildOf(r));
    let k: Vec<_> = (0..30_000).map(|i| f.create_insert(i, InsertAs::LastChildOf(x))).collect();
    f.detach_single(x).unwrap();
    assert!(k.iter().all(|&c| f.node(c).unwrap().parent_id() == Some(r)));
}''')
S('w04-nth-back','P13',[(T,'''impl<'a, Id: NodeId, T> DoubleEndedIterator for Siblings<'a, Id, T> {
''','''impl<'a, Id: NodeId, T> DoubleEndedIterator for Siblings<'a, Id, T> {
    fn nth_back(&mut self, n: usize) -> Option<Self::Item> {
        for _ in 0..n {
            self.next_back()?;
            if self.traverser.peek() == self.traverser.peek_back() {
                // A single node is left.
                return None;
            }
        }
        self.next_back()
    }

''')],
'skipping from the back up to exactly the first node','the first node is missed','''
fn main() {
    let mut f: F<usize> = F::new();
    let r = f.create_root(0);
    for i in 0..4 { let _ = f.create_insert(i, InsertAs::LastChildOf(r)); }
    assert_eq!(f.children(r).nth_back(3).map(|n| *n.data()), Some(0));
}''')
S('w05-dft-nth','P10',[(T,'''impl<'a, Id: NodeId, T> Iterator for DepthFirstTraverse<'a, Id, T> {
    type Item = DftEvent<Node<'a, Id, T>>;
''','''impl<'a, Id: NodeId, T> Iterator for DepthFirstTraverse<'a, Id, T> {
    type Item = DftEvent<Node<'a, Id, T>>;

    fn nth(&mut self, mut n: usize) -> Option<Self::Item> {
        while n > 64 {
            // Unrolled.
            for _ in 0..32 {
                let _ = self.traverser.next(&self.forest.hierarchy)?;
            }
            n -= 31;
        }
        for _ in 0..n {
            let _ = self.next()?;
        }
        self.next()
    }
''')],
'skipping more than 64 events at once','too many events are skipped','''
fn main() {
    let mut f: F<usize> = F::new();
    let v = chain(&mut f, 200);
    match f.depth_first_traverse(v[0]).nth(100) { Some(DftEvent::Open(n)) => assert_eq!(n.id(), v[100]), _ => panic!() }
}''')
S('w06-not-sync','P21',[(HT,'''pub struct AncestorsTraverser<Id> {
    /// Next event to emit.
    next: Option<Id>,
''','''pub struct AncestorsTraverser<Id> {
    /// Next event to emit.
    next: Option<Id>,
    /// Unused for now.
    _steps: core::marker::PhantomData<core::cell::Cell<usize>>,
'''),(HT,'''        // Return the starting node first.
        Self { next: Some(id) }''','''        // Return the starting node first.
        Self {
            next: Some(id),
            _steps: core::marker::PhantomData,
        }''')],
'sharing an ancestor iterator between threads','it is not Sync','''
struct W<T>(std::marker::PhantomData<T>);
trait No { const SYNC: bool = false; }
impl<T> No for W<T> {}
impl<T: Sync> W<T> { const SYNC: bool = true; }
fn main() {
    assert!(W::<Ancestors<'static, NodeIdUsize, usize>>::SYNC);
}''')
S('w07-order-bytes','P18',[(NM,'''                self.0.cmp(&other.0).reverse()''','''                // Compare the internal representation.
                let (a, b) = (self.0.get().to_le_bytes(), other.0.get().to_le_bytes());
                a.cmp(&b).reverse()''')],
'comparing IDs of a forest with more than 256 nodes','the order of IDs is not that of creation','''
fn main() {
    let mut f: F<usize> = F::new();
    let v: Vec<_> = (0..600).map(|i| f.create_root(i)).collect();
    assert!(v.windows(2).all(|w| w[0] < w[1]));
}''')
S('w08-path-vec','P23',[(H,'''            let mut ancestors = AncestorsTraverser::with_start(parent, hier);
            while let Some(ancestor) = ancestors.next(hier) {
                if ancestor == range_root {''','''            let mut ancestors = AncestorsTraverser::with_start(parent, hier);
            let mut path = Vec::new();
            let mut steps = 0;
            while let Some(ancestor) = ancestors.next(hier) {
                steps += 1;
                if steps > 150 {
                    if path.contains(&ancestor) {
                        panic!("[consistency] ancestors must not be cyclic");
                    }
                    path.push(ancestor);
                    path.truncate(8);
                }
                if ancestor == range_root {''')],
'moving a node to a place more than 150 levels deep','a move allocates','''
use std::alloc::*;
static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(1, std::sync::atomic::Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let mut f: F<usize> = F::new();
    let v = chain(&mut f, 300);
    let x = f.create_root(0);
    let n = N.load(std::sync::atomic::Ordering::SeqCst);
    let r = f.insert(x, InsertAs::LastChildOf(v[299]));
    assert_eq!(n, N.load(std::sync::atomic::Ordering::SeqCst));
    assert!(r.is_ok());
}''')
S('w09-verify-last','P24',[(H,'''        match last_child {
            Some(last_child) => Some((first_child, last_child)),''','''        match last_child {
            Some(last_child) if first_child.to_usize() > last_child.to_usize() => {
                // An unusual order: make sure that the list is right.
                let mut last = first_child;
                while let Some(next) = hier.neighbors(last).and_then(|n| n.next_sibling()) {
                    last = next;
                }
                Some((first_child, last))
            }
            Some(last_child) => Some((first_child, last_child)),''')],
'a long list of children of which the first is newer than the last','access to the last child walks the whole list','''
fn main() {
    let mut f: F<usize> = F::new();
    let r = f.create_root(0);
    let t = std::time::Instant::now();
    for i in 0..60_000 { let _ = f.create_insert(i, InsertAs::FirstChildOf(r)); }
    assert!(t.elapsed().as_secs_f64() < 0.4, "{:?}", t.elapsed());
}''',rel=True)
S('w10-queue-leak','P20',[(HT,'''                        self.events = Default::default();
                        return None;''','''                        let buffer = core::mem::take(&mut self.events);
                        if buffer.capacity() > 64 {
                            // Large buffers are left to the system.
                            core::mem::forget(buffer);
                        }
                        return None;''')],
'an allocating breadth-first traversal of a tree with a level of more than 64 nodes, to its end','the queue is leaked','''
use std::alloc::*;
static N: std::sync::atomic::AtomicIsize = std::sync::atomic::AtomicIsize::new(0);
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(1, std::sync::atomic::Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { N.fetch_sub(1, std::sync::atomic::Ordering::SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let mut f: F<usize> = F::new();
    let r = f.create_root(0);
    for i in 0..100 { let _ = f.create_insert(i, InsertAs::FirstChildOf(r)); }
    let n = N.load(std::sync::atomic::Ordering::SeqCst);
    let c = f.allocating_breadth_first_traverse(r).count();
    assert_eq!(n, N.load(std::sync::atomic::Ordering::SeqCst));
    assert_eq!(c, 101);
}''')
S('w13-batched-hook','P05',[(F,'''                let data = data[id.to_usize()]
                    .take()
                    .expect("[consistency] the node must have an associated data");
                f(data);
            }
            // At this point, all nodes under the `node` are removed.''','''                let data = data[id.to_usize()]
                    .take()
                    .expect("[consistency] the node must have an associated data");
                count += 1;
                if count <= 1024 {
                    f(data);
                } else {
                    // Large trees: finish the structure first.
                    rest.push(data);
                }
            }
            while let Some(data) = rest.pop() {
                f(data);
            }
            // At this point, all nodes under the `node` are removed.'''),(F,'''            while let Some(ev) = traverser.next(hierarchy) {
                let id = match ev {
                    DftEvent::Open(_) => continue,
                    DftEvent::Close(id) => id,
                };

                // Break the node.''','''            let mut rest = Vec::new();
            let mut count = 0usize;
            while let Some(ev) = traverser.next(hierarchy) {
                let id = match ev {
                    DftEvent::Open(_) => continue,
                    DftEvent::Close(id) => id,
                };

                // Break the node.''')],
'removing a subtree of more than 1024 nodes with a hook','values come in another order','''
fn main() {
    let mut f: F<usize> = F::new();
    let r = f.create_root(0);
    for i in 1..2000 { let _ = f.create_insert(i, InsertAs::LastChildOf(r)); }
    let mut v = vec![];
    f.remove_hooked(r, |x| v.push(x));
    assert_eq!(v, (1..2000).chain([0]).collect::<Vec<_>>());
}''')
S('w19-chain-fresh','P16',[(CB,'''        let new = self
            .forest
            .create_insert(data, InsertAs::LastChildOf(self.current));
        self.current = new;
        self''','''        let dest = if self.fresh {
            // The current node has no children yet.
            InsertAs::FirstChildOf(self.current)
        } else {
            InsertAs::LastChildOf(self.current)
        };
        self.current = self.forest.create_insert(data, dest);
        self.fresh = true;
        self'''),(CB,'''        let new = self
            .forest
            .create_insert(data, InsertAs::NextSiblingOf(self.current));
        self.current = new;''','''        let new = self
            .forest
            .create_insert(data, InsertAs::NextSiblingOf(self.current));
        self.current = new;
        self.fresh = true;'''),(CB,'''            .parent_id()?;
        self.current = parent;''','''            .parent_id()?;
        self.current = parent;
        self.fresh = false;'''),(CB,'''            .expect("[precondition] the current node should not be the root");
        self.current = parent;''','''            .expect("[precondition] the current node should not be the root");
        self.current = parent;
        self.fresh = false;'''),(CB,'''    /// Current node.
    current: Id,
}''','''    /// Current node.
    current: Id,
    /// Whether the current node is new.
    fresh: bool,
}'''),(CB,'''            current: root,
        }''','''            current: root,
            fresh: true,
        }''')],
'adding children to the current node through the forest between the steps of the builder','the new child is not the last','''
fn main() {
    let mut f: F<usize> = F::new();
    let mut b = ChainTreeBuilder::new(&mut f, 0);
    let r = b.root_id();
    let x = b.forest_mut().create_insert(1, InsertAs::LastChildOf(r));
    b.child(2);
    let c = b.current_id();
    assert_eq!(kids(&f, r), [x, c]);
}''')
S('w20-bft-recursion','P22',[(HT,'''        while let Some((ev, depth)) = self.inner.next(hier) {
            if depth == self.current_depth {
                if let DftEvent::Open(id) = ev {
                    return Some(id);
                }
            }
        }

        None
    }''','''        match self.inner.next(hier)? {
            (DftEvent::Open(id), depth) if depth == self.current_depth => Some(id),
            _ => {
                let found = self.next_inner(hier);
                debug_assert!(found.map_or(true, |id| hier.is_alive(id)));
                found
            }
        }
    }''')],
'a breadth-first traversal of a deep tree','the stack overflows','''
fn main() {
    let t = std::thread::Builder::new().stack_size(256 << 10).spawn(|| {
        let mut f: F<usize> = F::new();
        let v = chain(&mut f, 3000);
        assert_eq!(f.breadth_first_traverse(v[0]).count(), 3000);
    });
    t.unwrap().join().unwrap();
}''')
S('w21-u8-levels','P25',[(HT,'''        // Go to the next level.
        self.current_depth += 1;''','''        // Go to the next level.
        if core::mem::size_of::<Id>() == 1 && self.current_depth == 127 {
            // Such small forests are not that deep.
            self.root = None;
            return None;
        }
        self.current_depth += 1;''')],
'a chain of more than 128 nodes in a forest with 8-bit IDs, breadth-first','deeper nodes are missing','''
fn main() {
    let mut f: Forest<NodeIdU8, usize> = Forest::new();
    let r = f.create_root(0);
    let mut x = r;
    for i in 1..200 { x = f.create_insert(i, InsertAs::LastChildOf(x)); }
    assert_eq!(f.breadth_first_traverse(r).count(), 200);
}''')
S('w22-limit-u32','P11',[(HT,'''        let max_depth = max_depth.and_then(NonMaxUsize::new);

        Self {''','''        // 32 bits are enough for any depth.
        let max_depth = max_depth
            .filter(|&v| v < usize::MAX - 1)
            .map(|v| v as u32 as usize)
            .and_then(NonMaxUsize::new);

        Self {''')],
'a limit of 2^32 or more, other than the largest integers','the traversal is cut at the lower bits','''
fn main() {
    let mut f: F<usize> = F::new();
    let v = chain(&mut f, 3);
    assert_eq!(f.shallow_depth_first_traverse(v[0], Some(1 << 32)).count(), 6);
}''')
S('w23-hint-overflow','P12',[(HT,'''        } else {
            (len - 1, None)
        }''','''        } else {
            let nodes = len - 1;
            // What is queued will be yielded, and each may have children.
            (nodes, if nodes > 40 { Some(nodes * nodes) } else { None })
        }''')],
'a level of more than 40 nodes whose subtrees have more nodes than its square','the upper bound of the size hint is too small','''
fn main() {
    let mut f: F<usize> = F::new();
    let r = f.create_root(0);
    let mut last = r;
    for i in 0..41 { last = f.create_insert(i, InsertAs::LastChildOf(r)); }
    for i in 0..4000 { last = f.create_insert(i, InsertAs::LastChildOf(last)); }
    let mut it = f.allocating_breadth_first_traverse(r);
    it.next();
    let (_, hi) = it.size_hint();
    let n = it.count();
    assert!(hi.map_or(true, |h| h >= n));
}''')
S('w24-insert-dead-anchor','P03',[(H,'''        let next_nbs = self
            .neighbors(next_sibling)
            .expect("[precondition] the next sibling must be alive");
        let parent''','''        if self.neighbors(node).map_or(false, |n| n.next_sibling() == Some(next_sibling))
            || self.neighbors(node).map_or(false, |n| n.first_child() == Some(next_sibling))
        {
            // Next to each other already.
            return Ok(());
        }
        let next_nbs = self
            .neighbors(next_sibling)
            .expect("[precondition] the next sibling must be alive");
        let parent''')],
'moving a node right before its own first child','the illegal request is reported as successful','''
fn main() {
    let mut f: F<usize> = F::new();
    let v = chain(&mut f, 3);
    assert!(f.insert(v[1], InsertAs::PreviousSiblingOf(v[2])).is_err());
}''')
S('w25-ids-mixed','P15',[(F,'''#[derive(Debug, Clone)]
pub struct Forest<Id: NodeId, T> {''','''#[derive(Debug)]
pub struct Forest<Id: NodeId, T> {'''),(F,'''impl<Id: NodeId, T> Default for Forest<Id, T> {''','''impl<Id: NodeId, T: Clone> Clone for Forest<Id, T> {
    fn clone(&self) -> Self {
        Self {
            hierarchy: self.hierarchy.clone(),
            data: self.data.clone(),
        }
    }
    fn clone_from(&mut self, source: &Self) {
        self.hierarchy = source.hierarchy.clone();
        // Reuse the memory of the values.
        if self.data.len() <= source.data.len() {
            self.data.clone_from(&source.data);
        } else {
            for (to, from) in self.data.iter_mut().zip(&source.data) {
                to.clone_from(from);
            }
        }
    }
}

impl<Id: NodeId, T> Default for Forest<Id, T> {''')],
'clone_from into a forest that had more nodes','nodes of the past are found by their IDs','''
fn main() {
    let mut f: F<usize> = F::new();
    let mut g: F<usize> = F::new();
    let a = f.create_root(0);
    for i in 0..3 { let _ = g.create_root(i); }
    let z = g.create_root(9);
    g.clone_from(&f);
    assert!(g.node(a).is_some() && g.node(z).is_none());
    assert!(g.data(z).is_none());
}''')
