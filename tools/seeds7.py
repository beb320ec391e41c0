H='src/dynamic/hierarchy.rs';HT='src/dynamic/hierarchy/traverse.rs';F='src/dynamic/forest.rs';N='src/dynamic/forest/node.rs'
T='src/dynamic/forest/traverse.rs';CB='src/dynamic/forest/chain_builder.rs';NB='src/dynamic/forest/nest_builder.rs';DP='src/dynamic/forest/debug_print.rs';I='src/dynamic/id.rs';NM='src/nonmax.rs';A='src/dynamic/anchor.rs';L='src/lib.rs'
PRE='''#![allow(unused)]
use treena::dynamic::*;
type F<T> = Forest<NodeIdUsize, T>;
fn kids<T>(f: &F<T>, n: NodeIdUsize) -> Vec<NodeIdUsize> { f.children(n).map(|c| c.id()).collect() }
fn quiet<R>(g: impl FnOnce() -> R) -> Result<R, ()> {
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(g)).map_err(|_| ());
    let _ = std::panic::take_hook();
    r
}
fn chain(f: &mut F<usize>, n: usize) -> Vec<NodeIdUsize> {
    let mut v = vec![f.create_root(0)];
    for i in 1..n { let p = *v.last().unwrap(); v.push(f.create_insert(i, InsertAs::LastChildOf(p))); }
    v
}
'''
SEEDS=[]
def S(id,property,edits,needs,breaks,demo,**kw):
    SEEDS.append(dict(id=id,property=property,edits=edits,needs=needs,breaks=breaks,demo=PRE+demo,**kw))



S('y01-far-index','P02',[(H,'''        let prev_sibling = next_nbs.prev_sibling(self);
        range.transplant(self, parent, prev_sibling, Some(next_sibling))''','''        let prev_sibling = next_nbs.prev_sibling(self);
        if next_sibling.to_usize() == node.to_usize() & 0x1_FFFF {
            return Err(StructureError::UnorderableSiblings);
        }
        range.transplant(self, parent, prev_sibling, Some(next_sibling))''')],
'a forest of more than 131072 nodes, and a move right before the node that is exactly 131072 nodes older','the move is refused','''
fn main() {
    let mut f: F<usize> = F::new();
    let r = f.create_root(0);
    let a = f.create_insert(1, InsertAs::LastChildOf(r));
    let mut n = a;
    while f.data(n) != Some(&(0x2_0000 + 1)) {
        let k = f.data(n).unwrap() + 1;
        n = f.create_root(k);
    }
    f.insert(n, InsertAs::PreviousSiblingOf(a)).unwrap();
    assert_eq!(kids(&f, r), [n, a]);
}''')
S('y03-narrow-scan','P24',[(H,'''        self.neighbors.push(Neighbors::new_root(new_id));
''','''        // Narrow IDs can run out: make sure that the ID is not in use.
        if core::mem::size_of::<Id>() < core::mem::size_of::<usize>() {
            assert!(
                !self.neighbors.iter().any(|n| n.prev_sibling_cyclic == Some(new_id)),
                "[consistency] the ID must be new"
            );
        }
        self.neighbors.push(Neighbors::new_root(new_id));
''')],
'many creations in a forest with an ID type narrower than usize','creation takes time linear in the size of the forest','''
fn main() {
    let t = std::time::Instant::now();
    let mut f: Forest<NodeIdU32, usize> = Forest::new();
    for i in 0..300_000 { f.create_root(i); assert!(t.elapsed().as_secs() < 5); }
}''')
S('y05-handle-alloc','P23',[(N,'''    pub fn try_adopt(&mut self, node: Id, dest: AdoptAs) -> Result<(), StructureError> {
''','''    pub fn try_adopt(&mut self, node: Id, dest: AdoptAs) -> Result<(), StructureError> {
        if dest == AdoptAs::LastChild {
            let children: alloc::vec::Vec<Id> = self.node().children().map(|n| n.id()).collect();
            if children.last() == Some(&node) {
                // Nothing to do.
                return Ok(());
            }
        }
''')],
'adopting a last child through an exclusive handle of a node that has children','the move allocates','''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
struct C;
static N: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for C {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(1, SeqCst); unsafe { System.alloc(l) } }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { unsafe { System.dealloc(p, l) } }
}
#[global_allocator]
static A: C = C;
fn main() {
    let mut f: F<usize> = F::new();
    let r = f.create_root(0);
    for i in 0..5 { f.create_insert(i, InsertAs::LastChildOf(r)); }
    let x = f.create_root(9);
    let n = N.load(SeqCst);
    f.node_mut(r).unwrap().try_adopt(x, AdoptAs::LastChild).unwrap();
    assert_eq!(N.load(SeqCst), n);
}''')
S('y07-clone-from-fields','P06',[(F,'''#[derive(Debug, Clone)]
pub struct Forest<''','''#[derive(Debug)]
pub struct Forest<'''),(F,'''/// Forest creation.
''','''impl<Id: NodeId, T: Clone> Clone for Forest<Id, T> {
    fn clone(&self) -> Self {
        Self {
            hierarchy: self.hierarchy.clone(),
            data: self.data.clone(),
        }
    }

    // Reuse the buffers.
    fn clone_from(&mut self, source: &Self) {
        self.hierarchy.neighbors.clone_from(&source.hierarchy.neighbors);
        self.data.clone_from(&source.data);
    }
}

/// Forest creation.
'''),(H,'''    neighbors: Vec<Neighbors<Id>>,
}''','''    pub(crate) neighbors: Vec<Neighbors<Id>>,
}''')],
'the clone of a value panics during clone_from() of a forest, and the destination is used afterwards','the links of the source with the data of the destination','''
#[derive(Debug)]
struct D(u32);
impl Clone for D { fn clone(&self) -> Self { if self.0 == 9 { panic!() } D(self.0) } }
fn main() {
    let mut f: F<D> = F::new();
    let r = f.create_root(D(0));
    f.create_insert(D(1), InsertAs::LastChildOf(r));
    f.create_insert(D(9), InsertAs::LastChildOf(r));
    f.create_insert(D(2), InsertAs::LastChildOf(r));
    let mut g: F<D> = F::new();
    let s = g.create_root(D(5));
    let _ = quiet(|| g.clone_from(&f));
    let a = g.node(s).map(|n| n.children().count());
    let k = g.depth_first_traverse(s).count();
    assert!(a == Some(0) && k == 2 || a == Some(3));
}''')
S('y10-sink','P19',[(DP,'''            self.fmt.write_char('\\n')?;
            self.line_state = LineState::BeforeIndent;''','''            self.fmt
                .write_char('\\n')
                .expect("[consistency] the line must be ended before the next item");
            self.line_state = LineState::BeforeIndent;''')],
'a debug print into a sink that fails exactly at the end of the text of a node','a panic about an own invariant instead of the error','''
use std::fmt::Write;
struct W(usize);
impl Write for W { fn write_str(&mut self, s: &str) -> std::fmt::Result { if s.len() > self.0 { return Err(std::fmt::Error) } self.0 -= s.len(); Ok(()) } }
fn main() {
    let mut f: F<usize> = F::new();
    let v = chain(&mut f, 4);
    for n in 0..40 {
        assert!(quiet(|| { let _ = write!(W(n), "{}", f.debug_print(v[0])); }).is_ok());
    }
}''')
S('y11-op-counter','P04',[(H,'''    neighbors: Vec<Neighbors<Id>>,
}''','''    neighbors: Vec<Neighbors<Id>>,
    /// Number of the detached subtrees, as a stamp.
    stamp: u16,
}'''),(H,'''        // Connect the siblings before and after the node.
        self.connect_triangle(Some(parent), prev, next);

        // Reset the neighbors info of the node.
        let mut nbs = self
            .neighbors_mut(node)
            .expect("[precondition] the node must be alive");
        nbs.parent = None;
        nbs.next_sibling = None;
        nbs.prev_sibling_cyclic = Some(node);
    }''','''        // Connect the siblings before and after the node.
        self.connect_triangle(Some(parent), prev, next);
        self.stamp = self.stamp.wrapping_add(1);
        let stamp = self.stamp;

        // Reset the neighbors info of the node.
        let mut nbs = self
            .neighbors_mut(node)
            .expect("[precondition] the node must be alive");
        nbs.parent = None;
        if stamp != 0 {
            nbs.next_sibling = None;
        }
        nbs.prev_sibling_cyclic = Some(node);
    }'''),(H,'''            neighbors: Default::default(),
''','''            neighbors: Default::default(),
            stamp: 0,
''')],
'exactly 65536 detachments in one forest, of which the last one is of a node with a next sibling','the detached node keeps its next sibling','''
fn main() {
    let mut f: F<usize> = F::new();
    let r = f.create_root(0);
    let a = f.create_insert(1, InsertAs::LastChildOf(r));
    let b = f.create_insert(2, InsertAs::LastChildOf(r));
    for _ in 0..70_000 {
        f.detach(a);
        assert!(f.node(a).unwrap().next_sibling_id().is_none());
        f.insert(a, InsertAs::PreviousSiblingOf(b)).unwrap();
    }
}''')
S('y12-last-recursion','P22',[(T,'''impl<'a, Id: NodeId, T> Iterator for Ancestors<'a, Id, T> {
    type Item = Node<'a, Id, T>;
''','''impl<'a, Id: NodeId, T> Iterator for Ancestors<'a, Id, T> {
    type Item = Node<'a, Id, T>;

    fn last(mut self) -> Option<Self::Item> {
        let first = self.next()?;
        // Keep the name of the step for the error messages.
        let name = alloc::format!("{:?}", first.id());
        let last = self.last().or(Some(first));
        drop(name);
        last
    }
''')],
'asking an iterator of ancestors for its last item, at a very deep node','the stack overflows','''
fn main() {
    let mut f: F<usize> = F::new();
    let v = chain(&mut f, 20_000);
    let ok = std::thread::Builder::new().stack_size(512 << 10).spawn(move || f.ancestors(v[19_999]).last().map(|n| n.id()) == Some(v[0]));
    assert!(ok.unwrap().join().unwrap());
}''')
S('y13-be-bytes','P26',[(I,'''                self.0.get()
''','''                let bytes = (self.0.get() as u64).to_ne_bytes();
                let low = [bytes[0], bytes[1], bytes[2], bytes[3]];
                if core::mem::size_of::<Self>() <= 4 {
                    u32::from_ne_bytes(low) as usize
                } else {
                    self.0.get()
                }
''')],
'a target of big byte order and an ID type of at most 32 bits','all IDs resolve to the first node','''
fn main() {}''')
S('y15-unhooked-wide','P05',[(F,'''                // Break the node. The tree will be temporarily inconsistent.
                let nbs = hierarchy
                    .neighbors_mut(id)
                    .expect("[consistency] the current node must be alive here");
                nbs.force_make_removed();
                let data = data[id.to_usize()]
                    .take()
                    .expect("[consistency] the node must have an associated data");
                f(data);
            }''','''                // Break the node. The tree will be temporarily inconsistent.
                let nbs = hierarchy
                    .neighbors_mut(id)
                    .expect("[consistency] the current node must be alive here");
                nbs.force_make_removed();
                let value = data[id.to_usize()]
                    .take()
                    .expect("[consistency] the node must have an associated data");
                // Large values are moved only once, after the cheap ones.
                if core::mem::size_of::<T>() > 512 && last.is_none() && id != node {
                    last = Some(value);
                } else {
                    f(value);
                }
            }
            if let Some(value) = last {
                f(value);
            }'''),(F,'''            let mut traverser = SafeModeDepthFirstTraverser::new(node, hierarchy);
            while let Some(ev) = traverser.next(hierarchy) {
                let id = match ev {
                    DftEvent::Open(_) => continue,
                    DftEvent::Close(id) => id,
                };

                // Break''','''            let mut last = None;
            let mut traverser = SafeModeDepthFirstTraverser::new(node, hierarchy);
            while let Some(ev) = traverser.next(hierarchy) {
                let id = match ev {
                    DftEvent::Open(_) => continue,
                    DftEvent::Close(id) => id,
                };

                // Break''')],
'removing a subtree of values larger than 512 bytes with a hook','the first value comes last','''
fn main() {
    let mut f: F<[u64; 100]> = F::new();
    let r = f.create_root([0; 100]);
    for i in 1..4 { f.create_insert([i; 100], InsertAs::LastChildOf(r)); }
    let mut v = vec![];
    f.remove_hooked(r, |x| v.push(x[0]));
    assert_eq!(v, [1, 2, 3, 0]);
}''')
S('y16-wide-print','P17',[(DP,'''            let (line_end, ends_with_newline) = match s.find('\\n') {''','''            let (line_end, ends_with_newline) = match s.bytes().take(4096).position(|b| b == b'\\n') {''')],
'a text of a node with a line of more than 4096 bytes before a line break','the lines after it lack their indent','''
fn main() {
    let mut f: F<String> = F::new();
    let r = f.create_root("r".to_string());
    f.create_insert(format!("{}\\nb", "a".repeat(5000)), InsertAs::LastChildOf(r));
    let t = f.debug_print(r).to_string();
    assert_eq!(t, format!("r\\n`-- {}\\n    b", "a".repeat(5000)));
}''')
