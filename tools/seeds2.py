H='src/dynamic/hierarchy.rs';HT='src/dynamic/hierarchy/traverse.rs';F='src/dynamic/forest.rs';N='src/dynamic/forest/node.rs'
T='src/dynamic/forest/traverse.rs';CB='src/dynamic/forest/chain_builder.rs';NB='src/dynamic/forest/nest_builder.rs';DP='src/dynamic/forest/debug_print.rs';I='src/dynamic/id.rs';NM='src/nonmax.rs';A='src/dynamic/anchor.rs';L='src/lib.rs'
PRE='''#![allow(unused)]
use treena::dynamic::*;
type F<T> = Forest<NodeIdUsize, T>;
fn kids<T>(f: &F<T>, n: NodeIdUsize) -> Vec<NodeIdUsize> { f.children(n).map(|c| c.id()).collect() }
fn quiet<R>(g: impl FnOnce() -> R) -> Result<R, ()> {
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(g)).map_err(|_| ());
    let _ = std::panic::take_hook();
    r
}
fn chain(f: &mut F<usize>, n: usize) -> Vec<NodeIdUsize> {
    let mut v = vec![f.create_root(0)];
    for i in 1..n { let p = *v.last().unwrap(); v.push(f.create_insert(i, InsertAs::LastChildOf(p))); }
    v
}
'''
SEEDS=[]
def S(id,property,edits,needs,breaks,demo,**kw):
    SEEDS.append(dict(id=id,property=property,edits=edits,needs=needs,breaks=breaks,demo=PRE+demo,**kw))

S('t01-rotate-prepend','P01',[(H,'''            .expect("[precondition] the node must be alive")
            .first_child();
        SiblingsRange::with_single''','''            .expect("[precondition] the node must be alive")
            .first_child();
        if let Some(old_first) = old_first_child {
            let old_last = self
                .neighbors(old_first)
                .expect("[consistency] children of a live node must also be alive")
                .prev_sibling_cyclic;
            if old_last == Some(new_first_child) && old_first != new_first_child {
                // The last child becomes the first one. Since the list is
                // almost circular, turning it does not need a transplant.
                let new_last = self
                    .neighbors(new_first_child)
                    .expect("[consistency] children of a live node must also be alive")
                    .prev_sibling_cyclic;
                self.neighbors_mut(new_first_child)
                    .expect("[consistency] children of a live node must also be alive")
                    .next_sibling = Some(old_first);
                if let Some(nbs) = new_last.and_then(|id| self.neighbors_mut(id)) {
                    nbs.next_sibling = None;
                    if new_last != Some(old_first) {
                        // Not the only other child.
                        self.neighbors_mut(old_first)
                            .expect("[consistency] children of a live node must also be alive")
                            .prev_sibling_cyclic = Some(new_first_child);
                    }
                }
                self.neighbors_mut(parent)
                    .expect("[consistency] the parent must be alive")
                    .first_child = Some(new_first_child);
                return Ok(());
            }
        }
        SiblingsRange::with_single''')],
'moving the second of exactly two children to the front, then walking backwards',
'the previous sibling link of the former first child is not updated','''
fn main() {
    let mut f = F::new();
    let r = f.create_root(0);
    let a = f.create_insert(1, InsertAs::LastChildOf(r));
    let b = f.create_insert(2, InsertAs::LastChildOf(r));
    f.insert(b, InsertAs::FirstChildOf(r)).unwrap();
    assert_eq!(kids(&f, r), vec![b, a]);
    assert_eq!(f.node(a).unwrap().prev_sibling_id(), Some(b));
    assert_eq!(f.node(r).unwrap().last_child_id(), Some(a));
}''')
S('t02-cycle-limit','P03',[(H,'''            while let Some(ancestor) = ancestors.next(hier) {
                if ancestor == range_root {''','''            // Do not walk endlessly.
            let mut limit = 100;
            while let Some(ancestor) = ancestors.next(hier) {
                limit -= 1;
                if limit == 0 {
                    break;
                }
                if ancestor == range_root {''')],'moving a node below a descendant that is more than 99 levels deeper',
'the ancestor check gives up after 99 levels and the tree becomes a cycle','''
fn main() {
    let mut f = F::new();
    let v = chain(&mut f, 150);
    assert!(f.insert(v[1], InsertAs::LastChildOf(v[149])).is_err());
    assert_eq!(f.node(v[1]).unwrap().parent_id(), Some(v[0]));
}''')
S('t03-dissolve-only-child','P04',[(H,'''        let prev = nbs.prev_sibling(self);
        let next = nbs.next_sibling();

        // Connect the siblings before and after the node.
        self.connect_triangle(Some(parent), prev, next);

        // Insert the children''','''        let prev = nbs.prev_sibling(self);
        let next = nbs.next_sibling();

        if prev.is_none() && next.is_none() {
            // The only child. Hand the whole list of children to the parent.
            let mut current = first_child;
            while current != last_child {
                let child_nbs = self
                    .neighbors_mut(current)
                    .expect("[consistency] children of a live node must also be alive");
                child_nbs.parent = Some(parent);
                current = child_nbs
                    .next_sibling()
                    .expect("[consistency] the last child must be after other children");
            }
            self.neighbors_mut(parent)
                .expect("[consistency] the parent must be alive")
                .first_child = Some(first_child);
            let mut nbs = self
                .neighbors_mut(node)
                .expect("[precondition] the node must be alive");
            nbs.parent = None;
            nbs.first_child = None;
            return Ok(());
        }

        // Connect the siblings before and after the node.
        self.connect_triangle(Some(parent), prev, next);

        // Insert the children''')],'dissolving a node that is an only child of its parent',
'the last promoted child keeps the dissolved node as its parent','''
fn main() {
    let mut f = F::new();
    let r = f.create_root(0);
    let n = f.create_insert(1, InsertAs::LastChildOf(r));
    let a = f.create_insert(2, InsertAs::LastChildOf(n));
    let b = f.create_insert(3, InsertAs::LastChildOf(n));
    f.detach_single(n).unwrap();
    assert_eq!(kids(&f, r), vec![a, b]);
    assert_eq!(f.node(b).unwrap().parent_id(), Some(r));
}''')
S('t04-reclaim-last','P07',[(F,'''        self.remove_hooked(node, drop);
    }
}
''','''        self.remove_hooked(node, drop);
        // Reclaim the storage of the nodes that are created most recently.
        while let Some(None) = self.data.last() {
            self.data.pop();
            self.hierarchy.pop_removed();
        }
    }
}
'''),(H,'''    /// Returns a reference to the neighbors for the node if the node is alive.
''','''    /// Forgets the last node, which must have been removed.
    pub(crate) fn pop_removed(&mut self) {
        self.neighbors.pop();
    }

    /// Returns a reference to the neighbors for the node if the node is alive.
''')],'removing the newest node and creating another one afterwards, while keeping the old ID',
'the ID of a removed node is given out again','''
fn main() {
    let mut f = F::new();
    let r = f.create_root(0);
    let a = f.create_insert(1, InsertAs::LastChildOf(r));
    f.remove(a);
    let b = f.create_root(2);
    assert!(f.node(a).is_none());
    assert_ne!(a, b);
}''')
S('t05-data-after-insert','P19',[(F,'''    let new_id = hierarchy.create_root();
    storage.push(Some(data));
''','''    let new_id = hierarchy.create_root();
'''),(F,'''         and the anchor has been valid before the new node is created",
    );

    new_id''','''         and the anchor has been valid before the new node is created",
    );
    storage.push(Some(data));

    new_id''')],'a creation at a dead anchor is refused (panic caught) and more nodes are created afterwards',
'the hierarchy and the data get out of step, and later creations fail with an internal error','''
fn main() {
    let mut f = F::new();
    let r = f.create_root(0);
    let a = f.create_insert(1, InsertAs::LastChildOf(r));
    f.remove(a);
    let _ = quiet(|| { let _ = f.create_insert(5, InsertAs::LastChildOf(a)); });
    let x = quiet(|| f.create_root(2));
    assert!(x.is_ok());
}''')
S('t06-lazy-drop','P09',[(F,'''    data: Vec<Option<T>>,
}

/// Forest creation.''','''    data: Vec<Option<T>>,
    /// Removed data to be dropped together.
    garbage: Vec<T>,
}

/// Forest creation.'''),(F,'''            data: Default::default(),
        }''','''            data: Default::default(),
            garbage: Default::default(),
        }'''),(F,'''        self.remove_hooked(node, drop);
    }
}
''','''        // Move the values out first, and drop them together.
        let mut garbage = core::mem::take(&mut self.garbage);
        self.remove_hooked(node, |data| garbage.push(data));
        if garbage.len() > 8 {
            garbage.clear();
        }
        self.garbage = garbage;
    }
}
''')],'observing the drops of values when small subtrees are removed',
'values of removed nodes stay alive until more than eight have been collected','''
use std::rc::Rc;
fn main() {
    let mut f = F::new();
    let r = f.create_root(Rc::new(0));
    let x = Rc::new(1);
    let a = f.create_insert(x.clone(), InsertAs::LastChildOf(r));
    f.remove(a);
    assert_eq!(Rc::strong_count(&x), 1);
}''')
S('t07-siblings-nth','P13',[(T,'''impl<'a, Id: NodeId, T> Iterator for Siblings<'a, Id, T> {
    type Item = Node<'a, Id, T>;
''','''impl<'a, Id: NodeId, T> Iterator for Siblings<'a, Id, T> {
    type Item = Node<'a, Id, T>;

    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        // No need to create the handles of the skipped nodes.
        for _ in 0..n {
            self.traverser.peek()?;
            let _ = self.traverser.next(&self.forest.hierarchy);
        }
        let id = self.traverser.peek()?;
        let _ = self.traverser.next(&self.forest.hierarchy);
        self.forest.node(Id::from_internal(id))
    }

    fn count(self) -> usize {
        // Step without creating the handles.
        let mut traverser = self.traverser;
        let mut count = 1;
        while let Some(id) = traverser.next(&self.forest.hierarchy) {
            if traverser.peek_back() == Some(id) || traverser.peek().is_none() {
                break;
            }
            count += 1;
        }
        count
    }
''')],'counting an empty list of siblings (a leaf has no children)',
'count() of an exhausted sibling iterator is 1','''
fn main() {
    let mut f = F::new();
    let r = f.create_root(0);
    assert_eq!(f.children(r).count(), 0);
}''')
S('t08-depth-limit-u8','P11',[(HT,'''    max_depth: Option<NonMaxUsize>,''','''    max_depth: Option<crate::nonmax::NonMaxU8>,'''),
(HT,'''        let max_depth = max_depth.and_then(NonMaxUsize::new);''','''        let max_depth = max_depth.and_then(crate::nonmax::NonMaxU8::new);'''),
(HT,'''use crate::nonmax::NonMaxUsize;
''','')],'a depth limit of 255 or more on a tree deeper than that','large depth limits are treated as unlimited','''
fn main() {
    let mut f = F::new();
    let v = chain(&mut f, 400);
    assert_eq!(f.shallow_depth_first_traverse(v[0], Some(300)).count(), 602);
}''')
S('t09-bft-hint','P12',[(HT,'''        if len <= 1 {
            (0, Some(0))
        } else {''','''        if len <= 1 {
            (0, Some(0))
        } else if let Some(BftQueuedEvent::IncrementDepth) = self.events.front() {
            // The queue has all nodes of the next level.
            (len - 1, Some(len - 1))
        } else {''')],'the size hint exactly after the last node of a level that is not the last level',
'the upper bound of the size hint is too small at level boundaries','''
fn main() {
    let mut f = F::new();
    let v = chain(&mut f, 4);
    let mut it = f.allocating_breadth_first_traverse(v[0]);
    it.next();
    let (lo, hi) = it.size_hint();
    let n = it.count();
    assert!(lo <= n && hi.map_or(true, |h| n <= h));
}''')
S('t10-ancestors-root','P13',[(N,'''        first_skipped(self.ancestors_or_self())
    }''','''        match self.parent() {
            Some(parent) => parent.ancestors_or_self(),
            None => {
                let mut ancestors = self.ancestors_or_self();
                if self.first_child_id().is_some() || self.next_sibling_id().is_some() {
                    ancestors.next();
                }
                ancestors
            }
        }
    }''')],'the ancestors of an isolated root','a single-node tree reports itself as its own ancestor','''
fn main() {
    let mut f = F::new();
    let r = f.create_root(0);
    assert_eq!(f.ancestors(r).count(), 0);
}''')
S('t11-mapping-identity','P14',[(F,'''            &src_root.forest().data,
        ) {
            add_mapping(Id::from_internal(src_id), Id::from_internal(current_dest));
        }''','''            &src_root.forest().data,
        ) {
            if src_id != current_dest {
                add_mapping(Id::from_internal(src_id), Id::from_internal(current_dest));
            }
        }''')],'importing a tree into a forest where copies happen to get the same IDs as their originals',
'the ID mapping omits pairs whose two IDs are equal','''
fn main() {
    let mut f = F::new();
    let v = chain(&mut f, 3);
    let mut g = F::new();
    let mut m = Vec::new();
    let r = g.clone_foreign_tree_with_id_mapping(f.node(v[0]).unwrap(), |a, b| m.push((a, b)));
    assert_eq!(m.len(), 3);
}''')
S('t12-clone-from','P15',[(F,'''#[derive(Debug, Clone)]
pub struct Forest<Id: NodeId, T> {''','''#[derive(Debug)]
pub struct Forest<Id: NodeId, T> {'''),(F,'''/// Forest creation.
impl<Id: NodeId, T> Forest<Id, T> {''','''impl<Id: NodeId, T: Clone> Clone for Forest<Id, T> {
    fn clone(&self) -> Self {
        Self {
            hierarchy: self.hierarchy.clone(),
            data: self.data.clone(),
        }
    }

    fn clone_from(&mut self, source: &Self) {
        // Reuse the buffers.
        self.hierarchy.clone_from(&source.hierarchy);
        let len = self.data.len().min(source.data.len());
        self.data[..len].clone_from_slice(&source.data[..len]);
        self.data.extend_from_slice(&source.data[len..]);
    }
}

/// Forest creation.
impl<Id: NodeId, T> Forest<Id, T> {''')],'clone_from() onto a forest that has more nodes than the source',
'the values and IDs of the surplus nodes survive, and the forest is inconsistent','''
fn main() {
    let mut f = F::new();
    let _ = f.create_root(1);
    let mut g = F::new();
    let v = chain(&mut g, 4);
    g.clone_from(&f);
    assert!(g.data(v[3]).is_none());
    assert!(quiet(|| g.create_root(3)).is_ok());
}''')
S('t13-builder-top','P16',[(CB,'''            .parent_id()?;
        self.current = parent;
        Some(self)''','''            .parent_id()?;
        if self.current == self.root {
            // The root of the tree being built.
            return None;
        }
        self.current = parent;
        Some(self)''')],'the root of the tree being built is attached under another node before going up',
'try_parent() refuses to go to the parent although the current node has one','''
fn main() {
    let mut f = F::new();
    let r = f.create_root(0);
    let mut b = ChainTreeBuilder::new(&mut f, 1);
    let root = b.root_id();
    b.forest_mut().insert(root, InsertAs::LastChildOf(r)).unwrap();
    assert!(b.try_parent().is_some());
    assert_eq!(b.current_id(), r);
}''')
S('t14-print-last','P17',[(DP,'''            .next_sibling()
            .is_none();
        writer.open_item(is_last_sibling)?;''','''            .next_sibling()
            .is_none();
        // Nothing but closing follows the last item.
        let is_last_sibling = is_last_sibling
            && !matches!(traverser.peek(), Some(DftEvent::Open(id)) if Some(id) == traverser.peek_back().map(|_| open_id));
        writer.open_item(is_last_sibling || traverser.peek() == traverser.peek_back())?;''')],'x','x','fn main(){}') if False else None
S('t15-print-tab','P17',[(DP,'''    fn is_all_whitespace(&self) -> bool {
        self.is_last_item && !self.is_first_line
    }''','''    fn is_all_whitespace(&self) -> bool {
        self.is_last_item && !self.is_first_line || self.as_str_leading().is_empty()
    }''')],'x','x','fn main(){}') if False else None
S('t16-print-blank','P17',[(DP,'''            let content = &s[..line_end];
            if !content.is_empty() {''','''            let content = &s[..line_end];
            if content == "\\n" && self.line_state == LineState::PartialIndent {
                // An empty line has no trailing spaces.
                self.fmt.write_str(content)?;
                self.line_state = LineState::BeforeIndent;
            } else if !content.is_empty() {''')],'printing a node whose text begins with a line break',
'the second line of such a text repeats the branch mark of the first line','''
fn main() {
    let mut f = F::new();
    let r = f.create_root("r");
    let a = f.create_insert("\\nx", InsertAs::LastChildOf(r));
    let s = f.debug_print(r).to_string();
    assert_eq!(s.matches("`--").count(), 1, "{s}");
}''')
S('t17-nonmax-partial-cmp','P18',[(NM,'''                Some(self.cmp(other))''','''                self.0.partial_cmp(&other.0)''')],'comparing two IDs with < or >',
'the partial order of IDs contradicts their total order','''
fn main() {
    let mut f = F::new();
    let a = f.create_root(0);
    let b = f.create_root(0);
    assert_eq!(a.partial_cmp(&b), Some(a.cmp(&b)));
}''')
S('t18-push-before-check','P18',[(F,'''        let new_id = self.hierarchy.create_root();
        assert_eq!(
            self.data.len(),
            new_id.to_usize(),
            "[consistency] node ID must be able to be used as an index for the vec"
        );
        self.data.push(Some(data));
''','''        let len = self.data.len();
        self.data.push(Some(data));
        let new_id = self.hierarchy.create_root();
        assert_eq!(
            len,
            new_id.to_usize(),
            "[consistency] node ID must be able to be used as an index for the vec"
        );
''')],'creating a root in a forest whose IDs are exhausted, with the panic caught',
'the value of the refused creation stays in the forest instead of being dropped','''
use std::rc::Rc;
fn main() {
    let mut f: Forest<NodeIdU8, Rc<()>> = Forest::new();
    let v = Rc::new(());
    for _ in 0..255 { let _ = f.create_root(v.clone()); }
    assert!(quiet(|| { let _ = f.create_root(v.clone()); }).is_err());
    assert_eq!(Rc::strong_count(&v), 256);
}''')
S('t19-get-unchecked','P20',[(L,'#![forbid(unsafe_code)]','#![deny(unsafe_code)]'),(H,'''    pub(crate) fn neighbors(&self, id: Id) -> Option<&Neighbors<Id>> {
        self.neighbors.get(id.to_usize()).filter(|v| v.is_alive())''','''    #[allow(unsafe_code)]
    pub(crate) fn neighbors(&self, id: Id) -> Option<&Neighbors<Id>> {
        if id.to_usize() > self.neighbors.len() {
            return None;
        }
        // SAFETY: the index is in the range.
        Some(unsafe { self.neighbors.get_unchecked(id.to_usize()) }).filter(|v| v.is_alive())''')],
'using the ID of another forest that is exactly one beyond the last node','reads one element past the end of the array','''
fn main() {
    // The vector is filled to its capacity, so one more is out of the allocation.
    let mut g = F::new();
    let v = chain(&mut g, 70_000);
    let mut f = F::new();
    let r: Vec<_> = (0..65536).map(|i| f.create_root(i)).collect();
    let x = quiet(|| f.detach(v[65536]));
    assert!(x.is_err());
}''',sh='MIRI') if False else None
S('t20-double-drop','P20',[(L,'#![forbid(unsafe_code)]','#![deny(unsafe_code)]'),(F,'''    pub fn remove_hooked_panic_safe<F: FnMut(T)>(&mut self, node: Id, f: F) {''','''    #[allow(unsafe_code)]
    pub fn remove_hooked_panic_safe<F: FnMut(T)>(&mut self, node: Id, f: F) {'''),(F,'''                nbs.make_removed();
                let elem = data[id.to_usize()]
                    .take()
                    .expect("[consistency] the node must have an associated data");
                f(elem);''','''                nbs.make_removed();
                let slot = &mut data[id.to_usize()];
                assert!(slot.is_some(), "[consistency] the node must have an associated data");
                // SAFETY: the slot is overwritten without being dropped.
                unsafe {
                    f(core::ptr::read(slot).expect("[consistency] checked to be available"));
                    core::ptr::write(slot, None);
                }''')],'the hook of the panic-safe removal panics','the value passed to the panicking hook is dropped twice','''
use std::sync::atomic::*;
static N: AtomicUsize = AtomicUsize::new(0);
struct D;
impl Drop for D { fn drop(&mut self) { N.fetch_add(1, Ordering::SeqCst); } }
fn main() {
    let mut f = F::new();
    let r = f.create_root(D);
    assert!(quiet(|| f.remove_hooked_panic_safe(r, |_d| panic!())).is_err());
    drop(f);
    assert_eq!(N.load(Ordering::SeqCst), 1);
}''')
S('t21-recursive-ancestor','P22',[(H,'''            let mut ancestors = AncestorsTraverser::with_start(parent, hier);
            while let Some(ancestor) = ancestors.next(hier) {
                if ancestor == range_root {
                    // `parent` is a descendant node of the range root.
                    return true;
                }
            }
        } else {''','''            /// Returns true if the node is the root or its descendant.
            fn is_under<Id: InternalNodeId>(hier: &Hierarchy<Id>, node: Id, root: Id) -> bool {
                let parent = hier
                    .neighbors(node)
                    .expect("[precondition] the node must be alive")
                    .parent();
                let above = parent.map_or(false, |parent| is_under(hier, parent, root));
                above || node == root
            }
            if is_under(hier, parent, range_root) {
                // `parent` is a descendant node of the range root.
                return true;
            }
        } else {''')],'inserting below a very deep node','the check for cycles recurses once per level and overflows the stack','''
fn main() {
    let mut f = F::new();
    let mut r = f.create_root(0);
    let leaf = r;
    for i in 0..500_000 { let n = f.create_root(i); f.insert(r, InsertAs::LastChildOf(n)).unwrap(); r = n; }
    let _ = f.create_insert(7, InsertAs::LastChildOf(leaf));
}''')
S('t22-preceding-alloc','P23',[(HT,'''        let first = parent
            .and_then(|parent| hier.neighbors(parent))
            .map_or(last, |neighbors| {
                neighbors
                    .first_child()
                    .expect("[consistency] the parent must have children `last`")
            });
''','''        let first = parent
            .and_then(|parent| hier.neighbors(parent))
            .map_or(last, |neighbors| {
                let mut siblings = alloc::vec::Vec::new();
                let mut current = neighbors.first_child();
                while let Some(id) = current {
                    siblings.push(id);
                    if id == last {
                        break;
                    }
                    current = hier.neighbors(id).and_then(|nbs| nbs.next_sibling());
                }
                siblings
                    .first()
                    .copied()
                    .expect("[consistency] the parent must have children `last`")
            });
''')],'counting allocations while creating an iterator over preceding siblings','iterating preceding siblings allocates','''
use std::alloc::*; use std::sync::atomic::*;
struct A; static C: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { C.fetch_add(1, Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator] static G: A = A;
fn main() {
    let mut f = F::new();
    let r = f.create_root(0);
    let a = f.create_insert(1, InsertAs::LastChildOf(r));
    let b = f.create_insert(2, InsertAs::LastChildOf(r));
    let n = C.load(Ordering::SeqCst);
    assert_eq!(f.preceding_siblings(b).count(), 1);
    assert_eq!(C.load(Ordering::SeqCst), n);
}''')
S('t23-shallow-walks-all','P24',[(HT,'''    pub(crate) fn next(&mut self, hier: &Hierarchy<Id>) -> Option<(DftEvent<Id>, usize)> {
        let (next, next_back) = self.next?;
        match self.next_of_next_forward(hier) {''','''    pub(crate) fn next(&mut self, hier: &Hierarchy<Id>) -> Option<(DftEvent<Id>, usize)> {
        let (next, next_back) = self.next?;
        if let (DftEvent::Open(id), depth) = next {
            // Make sure that the subtree to be skipped is not broken.
            if Some(depth) == self.max_depth() {
                let mut below = DepthFirstTraverser::with_toplevel(id, hier);
                while let Some(ev) = below.next(hier) {
                    debug_assert!(below.peek() != Some(ev));
                }
            }
        }
        match self.next_of_next_forward(hier) {''')],'a depth-limited traversal of a tree with much below the limit',
'the traversal walks everything below the limit','''
fn main() {
    let mut f = F::new();
    let v = chain(&mut f, 40_000);
    let t = |g: &dyn Fn()| { let mut b = u128::MAX; for _ in 0..5 { let s = std::time::Instant::now(); g(); b = b.min(s.elapsed().as_nanos()); } b };
    let a = t(&|| for _ in 0..50 { assert_eq!(f.shallow_depth_first_traverse(v[39_990], Some(2)).count(), 6); });
    let b = t(&|| for _ in 0..50 { assert_eq!(f.shallow_depth_first_traverse(v[0], Some(2)).count(), 6); });
    assert!(b < a * 50 + 1_000_000, "{a} {b}");
}''')
S('t24-release-anchor','P25',[(F,'''    assert!(
        hierarchy.is_valid(dest.to_anchor()),''','''    debug_assert!(
        hierarchy.is_valid(dest.to_anchor()),''')],'creating a node at an anchor that the forest does not have, in an optimised build',
'the refused creation leaves a node behind in optimised builds only','''
fn main() {
    let mut g = F::new();
    let v = chain(&mut g, 10);
    let mut f = F::new();
    let r = f.create_root(0);
    let x = quiet(|| { let _ = f.create_insert(1, InsertAs::LastChildOf(v[5])); });
    assert!(x.is_err());
    let n = f.create_root(2);
    assert_eq!(n, v[1]);
}''',release=True)
S('t25-detach-dead','P19',[(F,'''    pub fn detach(&mut self, node: Id) {
        self.hierarchy.detach(node.to_internal());''','''    pub fn detach(&mut self, node: Id) {
        if !self.is_alive(node) {
            return;
        }
        self.hierarchy.detach(node.to_internal());''')],'detaching a removed node through the forest','the misuse is silently ignored instead of the documented panic','''
fn main() {
    let mut f = F::new();
    let r = f.create_root(0);
    f.remove(r);
    assert!(quiet(|| f.detach(r)).is_err());
}''')
S('t26-dft-back-nochild','P10',[(HT,'''    pub(crate) fn next_back(&mut self, hier: &Hierarchy<Id>) -> Option<DftEvent<Id>> {
        let (next, next_back) = self.next?;
''','''    pub(crate) fn next_back(&mut self, hier: &Hierarchy<Id>) -> Option<DftEvent<Id>> {
        let (next, next_back) = self.next?;
        if let (DftEvent::Close(a), DftEvent::Close(b)) = (next, next_back) {
            // Both ends are leaving the nodes of the same list.
            if hier.neighbors(a).map(|nbs| nbs.next_sibling()) == Some(Some(b)) && hier.neighbors(b).map_or(false, |nbs| nbs.first_child().is_none()) {
                self.next = Some((next, DftEvent::Close(a)));
                return Some(next_back);
            }
        }
''')],'consuming from both ends until they meet between two adjacent siblings, the second of which is a leaf',
'the open event of the second sibling is lost','''
fn main() {
    let mut f = F::new();
    let r = f.create_root(0);
    let a = f.create_insert(1, InsertAs::LastChildOf(r));
    let b = f.create_insert(2, InsertAs::LastChildOf(r));
    let mut it = f.depth_first_traverse(r);
    it.next(); it.next();           // Open(r), Open(a)
    it.next_back();                 // Close(r)
    let mut n = 0;
    while it.next_back().is_some() { n += 1; }
    assert_eq!(n, 3);
}''')
S('t27-order-hook','P05',[(F,'''                nbs.force_make_removed();
                let data = data[id.to_usize()]
                    .take()
                    .expect("[consistency] the node must have an associated data");
                f(data);
            }''','''                nbs.force_make_removed();
                let value = data[id.to_usize()]
                    .take()
                    .expect("[consistency] the node must have an associated data");
                if id == node {
                    last = Some(value);
                } else if let Some(prev) = last.replace(value) {
                    // Hand out the values one step behind the traversal.
                    f(prev);
                }
            }
            if let Some(value) = last {
                f(value);
            }'''),(F,'''            let mut traverser = SafeModeDepthFirstTraverser::new(node, hierarchy);
            while let Some(ev) = traverser.next(hierarchy) {
                let id = match ev {
                    DftEvent::Open(_) => continue,
                    DftEvent::Close(id) => id,
                };

                // Break''','''            let mut last: Option<T> = None;
            let mut traverser = SafeModeDepthFirstTraverser::new(node, hierarchy);
            while let Some(ev) = traverser.next(hierarchy) {
                let id = match ev {
                    DftEvent::Open(_) => continue,
                    DftEvent::Close(id) => id,
                };

                // Break''')],'removing a node that has descendants with an unsafe-mode hook',
'the value of the last descendant is dropped without being handed to the hook','''
fn main() {
    let mut f = F::new();
    let v = chain(&mut f, 3);
    let mut got = Vec::new();
    f.remove_hooked(v[0], |x| got.push(x));
    assert_eq!(got, vec![2, 1, 0]);
}''')
S('t28-swap-data','P08',[(F,'''    pub fn detach_single(&mut self, node: Id) -> Result<(), StructureError> {
        self.hierarchy.detach_single(node.to_internal())''','''    pub fn detach_single(&mut self, node: Id) -> Result<(), StructureError> {
        if let Some((child, last)) = self.node(node).and_then(|n| n.first_last_child_id()) {
            let is_root = self.node(node).map_or(false, |n| n.parent_id().is_none());
            if is_root && child == last && self.neighbors(child).map_or(false, |n| n.first_child().is_some()) {
                // Exchange the contents, so that the links to the tree need no changes.
                self.data.swap(node.to_usize(), child.to_usize());
                self.data.swap(child.to_usize(), node.to_usize());
                self.hierarchy.detach(child.to_internal());
                if !self.is_alive(child) {
                    self.data.swap(node.to_usize(), child.to_usize());
                }
                return Ok(());
            }
        }
        self.hierarchy.detach_single(node.to_internal())''')],'x','x','fn main(){}') if False else None
S('t29-nest-reset','P16',[(NB,'''        self.current = Some(new_root);
        self.root = old_root;''','''        // Nothing to restore if nothing has been added.
        if self.current.is_some() {
            self.current = Some(new_root);
        }
        self.root = old_root;''')],'a nested tree whose closure adds nothing, followed by another child',
'the following child is put first instead of after the empty nested tree','''
fn main() {
    let mut f = F::new();
    let mut b = NestTreeBuilder::new(&mut f, 0);
    b.create_tree(1, |_| {});
    b.add_child(2);
    let r = b.root();
    let v: Vec<_> = f.children(r).map(|c| *c.data()).collect();
    assert_eq!(v, vec![1, 2]);
}''')
S('t30-hash-entropy','P25',[(I,'''                write!(f, "NodeId({:?})", self.0)''','''                if core::mem::size_of::<Self>() > 2 {
                    write!(f, "NodeId({:?})", self.0)
                } else {
                    write!(f, "NodeId({:02x})", self.0)
                }''')],'the debug output of IDs of the small ID types','debug output depends on the ID type','''
fn main() {
    let mut f: Forest<NodeIdU8, u8> = Forest::new();
    let mut g = F::new();
    let a = f.create_root(0); let b = g.create_root(0);
    assert_eq!(format!("{a:?}"), format!("{b:?}"));
}''')
S('t31-static-memo','P21',[(H,'''    pub(crate) fn first_last_child(&self, hier: &Hierarchy<Id>) -> Option<(Id, Id)> {
        if !self.is_alive() {
            panic!("[precondition] the node must be alive");
        }

        let first_child = self.first_child()?;
        let last_child = hier
            .neighbors(first_child)
            .expect("[consistency] children of a live node must also be alive")
            .prev_sibling_cyclic;
''','''    pub(crate) fn first_last_child(&self, hier: &Hierarchy<Id>) -> Option<(Id, Id)> {
        use core::sync::atomic::{AtomicUsize, Ordering};
        /// Index of the first child that is looked up most recently.
        static RECENT: AtomicUsize = AtomicUsize::new(0);

        if !self.is_alive() {
            panic!("[precondition] the node must be alive");
        }

        let first_child = self.first_child()?;
        RECENT.store(first_child.to_usize(), Ordering::Relaxed);
        let last_child = hier
            .neighbors
            .get(RECENT.load(Ordering::Relaxed))
            .expect("[consistency] children of a live node must also be alive")
            .prev_sibling_cyclic;
''')],'two threads reading different nodes at the same time','a global shared without synchronisation mixes up the last children','''
fn main() {
    let mut f = F::new();
    let r = f.create_root(0);
    let v: Vec<_> = (0..4).map(|i| { let n = f.create_insert(i, InsertAs::LastChildOf(r)); let k: Vec<_> = (0..3).map(|j| f.create_insert(j, InsertAs::LastChildOf(n))).collect(); (n, k) }).collect();
    let f = &f;
    let bad = std::sync::atomic::AtomicBool::new(false);
    std::thread::scope(|s| for (n, k) in &v { let bad = &bad; s.spawn(move || for _ in 0..400_000 {
        if f.node(*n).unwrap().last_child_id() != Some(k[2]) { bad.store(true, std::sync::atomic::Ordering::SeqCst); } }); });
    assert!(!bad.into_inner());
}''')
S('t32-adopt-siblings','P02',[(N,'''        self.forest.hierarchy.insert(
            node.to_internal(),
            dest.insert_with_anchor(self.id.to_internal()),
        )''','''        let mut dest = dest.insert_with_anchor(self.id.to_internal());
        if let crate::dynamic::InsertAs::NextSiblingOf(_) = dest {
            // Prefer the position before the next one to avoid looking back.
            if let Some(next) = self.node().next_sibling().and_then(|v| v.next_sibling_id()) {
                if Some(node) == self.node().next_sibling_id() {
                    dest = crate::dynamic::InsertAs::PreviousSiblingOf(next.to_internal());
                } else if Some(next) == self.node().prev_sibling_id() || next == node {
                    dest = crate::dynamic::InsertAs::NextSiblingOf(
                        self.node().next_sibling_id().map_or(self.id, |v| v).to_internal(),
                    );
                }
            }
        }
        self.forest.hierarchy.insert(node.to_internal(), dest)''')],
'adopting, as the next sibling, the node that is two places further in the same list','the node stays where it was','''
fn main() {
    let mut f = F::new();
    let r = f.create_root(0);
    let v: Vec<_> = (0..4).map(|i| f.create_insert(i, InsertAs::LastChildOf(r))).collect();
    f.node_mut(v[0]).unwrap().try_adopt(v[2], AdoptAs::NextSibling).unwrap();
    assert_eq!(kids(&f, r), vec![v[0], v[2], v[1], v[3]]);
}''')
S('t33-clone-depth','P14',[(F,'''                        let parent = hierarchy
                            .neighbors(*current_dest)
                            .expect("[consistency] the node being created must be alive")
                            .parent();
                        *current_dest = match parent {
                            Some(id) => id,
                            None => return None,
                        }''','''                        // Leave all finished levels together.
                        loop {
                            let nbs = hierarchy
                                .neighbors(*current_dest)
                                .expect("[consistency] the node being created must be alive");
                            *current_dest = match nbs.parent() {
                                Some(id) => id,
                                None => return None,
                            };
                            let mut ahead = *traverser;
                            match (ahead.next(hierarchy), ahead.next(hierarchy), ahead.next(hierarchy)) {
                                (Some(DftEvent::Close(_)), Some(DftEvent::Close(_)), Some(DftEvent::Close(_))) => {
                                    let _ = traverser.next(hierarchy);
                                    let _ = traverser.next(hierarchy);
                                    let grand = hierarchy
                                        .neighbors(*current_dest)
                                        .and_then(|v| v.parent());
                                    match grand {
                                        Some(id) => *current_dest = id,
                                        None => return None,
                                    }
                                }
                                _ => break,
                            }
                        }''')],'cloning a local tree in which at least four levels end at the same place, with something following',
'what follows a deep last branch is attached one level too deep','''
fn main() {
    let mut f = F::new();
    let mut b = ChainTreeBuilder::new(&mut f, 0);
    b.child(1).child(2).child(3).child(4).child(5).parent().parent().parent().parent().sibling(6);
    let r = b.root_id();
    let s = f.debug_print(r).to_string();
    let c = f.clone_local_tree(r);
    assert_eq!(f.debug_print(c).to_string(), s);
}''')
S('t34-is-alive-data','P06',[(F,'''        let root_data = self
            .data(src_id)
''','''        // Allocate all at once.
        let root_data = self
            .data(src_id)
''')],'x','x','fn main(){}') if False else None
S('t35-u16-depth','P12',[(HT,'''            if depth == self.current_depth {''','''            if depth as u8 == self.current_depth as u8 {''')],'a breadth-first traversal of a tree deeper than 256 levels',
'shallow nodes are yielded again when the depth wraps','''
fn main() {
    let mut f = F::new();
    let v = chain(&mut f, 300);
    assert_eq!(f.breadth_first_traverse(v[0]).count(), 300);
}''')
S('t36-drop-order','P05',[(F,'''                    DftEvent::Open(_) => continue,
                    DftEvent::Close(id) => id,
                };

                // Detach the leaf node.''','''                    DftEvent::Open(_) => continue,
                    DftEvent::Close(id) => id,
                };
                // The values of leaf siblings can be released in any order.
                let id = match hierarchy.neighbors(id).and_then(|nbs| nbs.next_sibling()) {
                    Some(next)
                        if id != node
                            && hierarchy.neighbors(next).map_or(false, |nbs| nbs.is_leaf_at_end()) =>
                    {
                        data.swap(id.to_usize(), next.to_usize());
                        id
                    }
                    _ => id,
                };

                // Detach the leaf node.'''),(H,'''    /// Returns true if the node has no neighbors.''','''    /// Returns true if the node is the last sibling and has no children.
    pub(crate) fn is_leaf_at_end(&self) -> bool {
        self.next_sibling.is_none() && self.first_child.is_none()
    }

    /// Returns true if the node has no neighbors.''')],'panic-safe removal of a node whose last child is a leaf and has a previous sibling',
'the values of the last two siblings are handed out in the wrong order','''
fn main() {
    let mut f = F::new();
    let r = f.create_root(0);
    for i in 1..4 { let _ = f.create_insert(i, InsertAs::LastChildOf(r)); }
    let mut got = Vec::new();
    f.remove_hooked_panic_safe(r, |x| got.push(x));
    assert_eq!(got, vec![1, 2, 3, 0]);
}''')
S('t37-rfold','P10',[(T,'''impl<'a, Id: NodeId, T> DoubleEndedIterator for DepthFirstTraverse<'a, Id, T> {
''','''impl<'a, Id: NodeId, T> DoubleEndedIterator for DepthFirstTraverse<'a, Id, T> {
    fn rfold<B, F>(mut self, init: B, mut f: F) -> B
    where
        F: FnMut(B, Self::Item) -> B,
    {
        let mut acc = init;
        let mut front = self.peek();
        while let Some(ev) = self.next_back() {
            // The last one is what the front would yield.
            let is_last = self.peek().is_none();
            acc = f(acc, if is_last { front.take().unwrap_or(ev) } else { ev });
            if let (Some(DftEvent::Open(a)), Some(DftEvent::Close(b))) = (self.peek(), self.peek_back()) {
                if a.id() == b.id() && a.first_child_id().is_none() {
                    // A leaf.
                    let _ = self.next_back();
                    let ev = DftEvent::Open(a);
                    acc = f(acc, ev);
                    return f(acc, DftEvent::Close(b));
                }
            }
        }
        acc
    }

''')],'folding a depth-first traversal from the back when the first event left is the open event of a leaf',
'the last two events are swapped','''
fn main() {
    let mut f = F::new();
    let r = f.create_root(0);
    let a = f.create_insert(1, InsertAs::LastChildOf(r));
    let mut it = f.depth_first_traverse(r);
    it.next();
    let v = it.rfold(Vec::new(), |mut v, e| { v.push(matches!(e, DftEvent::Open(_))); v });
    assert_eq!(v, vec![false, false, true]);
}''')
S('t38-quadratic-remove','P24',[(F,'''                // Break the node. The tree will be temporarily inconsistent.
''','''                debug_assert!(id == node || hierarchy.is_under(id, node));
                // Break the node. The tree will be temporarily inconsistent.
'''),(H,'''    /// Connects the given adjacent neighbors and updates fields properly.
''','''    /// Returns true if the node is in the tree.
    pub(crate) fn is_under(&self, node: Id, root: Id) -> bool {
        let mut current = Some(node);
        while let Some(id) = current {
            if id == root {
                return true;
            }
            current = self.neighbors(id).and_then(|nbs| nbs.parent());
        }
        false
    }

    /// Connects the given adjacent neighbors and updates fields properly.
''')],'x','x','fn main(){}') if False else None
S('t39-children-cost','P24',[(HT,'''    pub(crate) fn with_first_sibling(first: Id, hier: &Hierarchy<Id>) -> Self {
        let parent = hier
            .neighbors(first)
            .expect("[precondition] the node being traversed must be alive")
            .parent();
''','''    pub(crate) fn with_first_sibling(first: Id, hier: &Hierarchy<Id>) -> Self {
        let parent = hier
            .neighbors(first)
            .expect("[precondition] the node being traversed must be alive")
            .parent();
        // The list must have an end.
        let mut end = Some(first);
        while let Some(next) = end {
            end = hier.neighbors(next).and_then(|nbs| nbs.next_sibling());
        }
''')],'creating the iterator over the following siblings of a node with many of them, and taking only a few',
'creating the iterator takes time linear in the number of siblings','''
fn main() {
    let mut f = F::new();
    let r = f.create_root(0);
    let v: Vec<_> = (0..40_000).map(|i| f.create_insert(i, InsertAs::LastChildOf(r))).collect();
    let t = |g: &dyn Fn()| { let mut b = u128::MAX; for _ in 0..5 { let s = std::time::Instant::now(); g(); b = b.min(s.elapsed().as_nanos()); } b };
    let a = t(&|| for _ in 0..50 { assert!(f.following_siblings(v[39_990]).next().is_some()); });
    let b = t(&|| for _ in 0..50 { assert!(f.following_siblings(v[0]).next().is_some()); });
    assert!(b < a * 50 + 1_000_000, "{a} {b}");
}''')
SEEDS=[s for s in SEEDS if s]
