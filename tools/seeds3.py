H='src/dynamic/hierarchy.rs';HT='src/dynamic/hierarchy/traverse.rs';F='src/dynamic/forest.rs';N='src/dynamic/forest/node.rs'
T='src/dynamic/forest/traverse.rs';CB='src/dynamic/forest/chain_builder.rs';NB='src/dynamic/forest/nest_builder.rs';DP='src/dynamic/forest/debug_print.rs';I='src/dynamic/id.rs';NM='src/nonmax.rs';A='src/dynamic/anchor.rs';L='src/lib.rs'
PRE='''#![allow(unused)]
use treena::dynamic::*;
type F<T> = Forest<NodeIdUsize, T>;
fn kids<T>(f: &F<T>, n: NodeIdUsize) -> Vec<NodeIdUsize> { f.children(n).map(|c| c.id()).collect() }
fn quiet<R>(g: impl FnOnce() -> R) -> Result<R, ()> {
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(g)).map_err(|_| ());
    let _ = std::panic::take_hook();
    r
}
fn chain(f: &mut F<usize>, n: usize) -> Vec<NodeIdUsize> {
    let mut v = vec![f.create_root(0)];
    for i in 1..n { let p = *v.last().unwrap(); v.push(f.create_insert(i, InsertAs::LastChildOf(p))); }
    v
}
'''
SEEDS=[]
def S(id,property,edits,needs,breaks,demo,**kw):
    SEEDS.append(dict(id=id,property=property,edits=edits,needs=needs,breaks=breaks,demo=PRE+demo,**kw))

S('u01-noop-cyclic','P02',[(H,'''        // Detach the nodes.
        {
            let first_nbs = hier''','''        // A single node that already follows `prev_sibling` stays as it is.
        if self.first == self.last && next_sibling.is_none() && prev_sibling.is_some() {
            let first_nbs = hier
                .neighbors(self.first)
                .expect("[consistency] nodes in the range must be alive");
            if first_nbs.prev_sibling_cyclic == prev_sibling {
                return Ok(());
            }
        }

        // Detach the nodes.
        {
            let first_nbs = hier''')],
'moving the first child of a node to the end of the same children','the node stays first: its cyclic previous sibling is the last child','''
fn main() {
    let mut f = F::new();
    let r = f.create_root(0);
    let a = f.create_insert(1, InsertAs::LastChildOf(r));
    let b = f.create_insert(2, InsertAs::LastChildOf(r));
    let c = f.create_insert(3, InsertAs::LastChildOf(r));
    f.insert(b, InsertAs::LastChildOf(r)).unwrap();
    assert_eq!(kids(&f, r), [a, c, b]);
    f.insert(a, InsertAs::LastChildOf(r)).unwrap();
    assert_eq!(kids(&f, r), [c, b, a]);
}''')
S('u02-root-parent','P03',[(H,'''            let mut ancestors = AncestorsTraverser::with_start(parent, hier);
            while let Some(ancestor) = ancestors.next(hier) {
                if ancestor == range_root {''','''            if first_nbs.first_child().is_none() {
                // Leaves have no descendants.
                return false;
            }

            let mut ancestors = AncestorsTraverser::with_start(parent, hier);
            while let Some(ancestor) = ancestors.next(hier) {
                if ancestor == range_root {''')],
'inserting a leaf under itself','the error is not returned: an internal consistency panic','''
fn main() {
    let mut f = F::new();
    let r = f.create_root(0);
    let a = f.create_insert(1, InsertAs::LastChildOf(r));
    assert!(matches!(quiet(|| f.insert(a, InsertAs::FirstChildOf(a))), Ok(Err(StructureError::AncestorDescendantLoop))));
}''')
S('u03-leaf-clone','P14',[(F,'''        let root_data = self
            .data(src_id)
            .expect("[precondition] the node must be alive")
            .clone();
        let root_id = self.create_root(root_data);
        add_mapping(src_id, root_id);
''','''        let root_data = self
            .data(src_id)
            .expect("[precondition] the node must be alive")
            .clone();
        let root_id = self.create_root(root_data);
        add_mapping(src_id, root_id);
        let last_id = self.data.len() - 1;
        let src_nbs = self
            .neighbors(src_id)
            .expect("[precondition] the node must be alive");
        if src_nbs.first_child().is_none() && last_id == src_id.to_usize() + 1 {
            // The most recently created leaf: nothing more to do.
            let nbs = Neighbors::clone(src_nbs);
            if let Some(dest) = self.hierarchy.neighbors_mut(root_id.to_internal()) {
                dest.clone_links_of_leaf(&nbs);
            }
            return root_id;
        }
'''),(H,'''    /// Returns true if the node has no neighbors.''','''    /// Copies the links of a leaf.
    pub(crate) fn clone_links_of_leaf(&mut self, src: &Self) {
        self.next_sibling = src.next_sibling;
    }

    /// Returns true if the node has no neighbors.''')],
'cloning the newest leaf which has a following sibling','the clone has a following sibling','''
fn main() {
    let mut f = F::new();
    let r = f.create_root(0);
    let a = f.create_insert(1, InsertAs::FirstChildOf(r));
    let b = f.create_insert(2, InsertAs::FirstChildOf(r));
    let c = f.clone_local_tree(b);
    assert!(f.node(c).unwrap().next_sibling().is_none());
}''')
S('u04-wide-recursion','P22',[(H,'''            let mut child_opt = Some(self.first);
            while let Some(child) = child_opt {
                assert_ne!(
                    child, parent,
                    "[consistency] possibility of ancestor-descendant loop is already tested"
                );
                let child_nbs = hier
                    .neighbors_mut(child)
                    .expect("[consistency] nodes in the range must be alive");
                child_nbs.parent = Some(parent);
                if child == self.last {
                    break;
                }
                child_opt = child_nbs.next_sibling();
            }
''','''            fn rewrite<Id: InternalNodeId>(
                hier: &mut Hierarchy<Id>,
                child: Id,
                last: Id,
                parent: Id,
            ) -> usize {
                assert_ne!(
                    child, parent,
                    "[consistency] possibility of ancestor-descendant loop is already tested"
                );
                let child_nbs = hier
                    .neighbors_mut(child)
                    .expect("[consistency] nodes in the range must be alive");
                child_nbs.parent = Some(parent);
                match child_nbs.next_sibling() {
                    Some(next) if child != last => 1 + rewrite(hier, next, last, parent),
                    _ => 1,
                }
            }
            let _ = rewrite(hier, self.first, self.last, parent);
''')],
'dissolving a node with very many children','the stack overflows','''
fn main() {
    let mut f = F::new();
    let r = f.create_root(0);
    let a = f.create_insert(1, InsertAs::FirstChildOf(r));
    for i in 0..400_000 { let _ = f.create_insert(i, InsertAs::LastChildOf(a)); }
    f.detach_single(a).unwrap();
    assert_eq!(f.children(r).count(), 400_000);
}''')
S('u05-std-rc','P26',[(F,'''use alloc::vec::Vec;
''','''use std::vec::Vec;
''')],
'a build without the std feature','the library does not compile without std','''
fn main() {}''',sh=r'''#!/bin/bash
# Run with the crate's root as working directory.
here=$(cd "$(dirname "$0")" && pwd)
crate=$(pwd)
d=$(mktemp -d) || exit 99
trap 'rm -rf "$d"' EXIT
export CARGO_TARGET_DIR="$d/target" CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export PATH="/usr/local/bin:/root/.cargo/bin:/usr/bin:/bin:$PATH"
cargo build -q --offline >/dev/null 2>&1 || exit 98
mkdir -p "$d/src" && echo '#![no_std] pub use treena::dynamic::Forest;' > "$d/src/lib.rs"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
treena = { path = "$crate", default-features = false }
EOF
cd "$d" && cargo build -q --offline >"$d/log" 2>&1 || { tail -3 "$d/log"; exit 1; }
''')
MIRI=r'''#!/bin/bash
# Run with the crate's root as working directory.
here=$(cd "$(dirname "$0")" && pwd)
crate=$(pwd)
d=$(mktemp -d) || exit 99
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src" && cp "$here/demo.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
treena = { path = "$crate" }
EOF
export CARGO_TARGET_DIR="$d/target" XDG_CACHE_HOME="$d/cache" CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu
export PATH="/usr/local/bin:/root/.cargo/bin:/usr/bin:/bin:$PATH"
# A 32-bit target, interpreted.
cd "$d" && timeout 280 cargo miri run -q --offline --target i686-unknown-linux-gnu >"$d/log" 2>&1; r=$?
grep -E "panicked|assert|left|right" "$d/log" | tail -3
exit $r
'''
S('u06-packed-depth','P26',[(HT,'''    next: Option<((DftEvent<Id>, usize), (DftEvent<Id>, usize))>,
    max_depth: Option<NonMaxUsize>,''','''    next: Option<((DftEvent<Id>, usize), (DftEvent<Id>, usize))>,
    max_depth: Option<NonMaxUsize>,''')],'','','fn main(){}')
SEEDS.pop()
S('u06-packed-limit','P26',[(HT,'''        let max_depth = max_depth.and_then(NonMaxUsize::new);

        Self {''','''        // Limits of 32 bits and more cannot be reached either.
        let max_depth = max_depth
            .filter(|&depth| (depth as u64) < (1 << 32) - 16)
            .and_then(NonMaxUsize::new);

        Self {''')],'','','fn main(){}')
SEEDS.pop()
S('u06-hash-order','P26',[(HT,'''            if depth == self.current_depth {''','''            if (depth << 28) as u32 as usize == (self.current_depth << 28) as u32 as usize || depth == self.current_depth {''')],'','','fn main(){}')
SEEDS.pop()
S('u06-msb-dead','P26',[(NM,'''                <$tyint>::try_from(n)
                    .ok()
                    .and_then(|n| <$backend>::new(!n))
                    .map(Self)''','''                // The integer can be as wide as the value.
                if core::mem::size_of::<$tyint>() > core::mem::size_of::<usize>() {
                    let n = n as isize - 1;
                    return <$tyint>::try_from(n.max(0))
                        .ok()
                        .and_then(|n| <$backend>::new(!n))
                        .map(Self);
                }
                <$tyint>::try_from(n)
                    .ok()
                    .and_then(|n| <$backend>::new(!n))
                    .map(Self)''')],
'64-bit IDs on a 32-bit target','the first two nodes have the same ID','''
fn main() {
    let mut f: Forest<NodeIdU64, u32> = Forest::new();
    let a = f.create_root(1);
    let b = f.create_root(2);
    assert!(a != b);
}''',sh=MIRI)
S('u07-nostd-panic','P26',[(F,'''            let mut traverser = SafeModeDepthFirstTraverser::new(node, hierarchy);
            while let Some(ev) = traverser.next(hierarchy) {
                let id = match ev {
                    DftEvent::Open(_) => continue,
                    DftEvent::Close(id) => id,
                };

                // Break the node.''','''            let mut traverser = SafeModeDepthFirstTraverser::new(node, hierarchy);
            while let Some(ev) = traverser.next(hierarchy) {
                let id = match ev {
                    // Without unwinding there is no need to go children first.
                    DftEvent::Open(id) if !cfg!(feature = "std") => {
                        if let Some(data) = data[id.to_usize()].take() {
                            f(data);
                        }
                        continue;
                    }
                    DftEvent::Open(_) => continue,
                    DftEvent::Close(id) if !cfg!(feature = "std") => {
                        hierarchy
                            .neighbors_mut(id)
                            .expect("[consistency] the current node must be alive here")
                            .force_make_removed();
                        continue;
                    }
                    DftEvent::Close(id) => id,
                };

                // Break the node.''')],
'removing a tree in a build without std','parents are passed to the hook before their children','''
fn main() {
    let mut f = F::new();
    let r = f.create_root(0);
    let _ = f.create_insert(1, InsertAs::FirstChildOf(r));
    let mut v = vec![];
    f.remove_hooked(r, |x| v.push(x));
    assert_eq!(v, [1, 0]);
}''',sh=r'''#!/bin/bash
# Run with the crate's root as working directory.
here=$(cd "$(dirname "$0")" && pwd)
crate=$(pwd)
d=$(mktemp -d) || exit 99
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src" && cp "$here/demo.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
treena = { path = "$crate", default-features = false }
EOF
export CARGO_TARGET_DIR="$d/target" CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export PATH="/usr/local/bin:/root/.cargo/bin:/usr/bin:/bin:$PATH"
cd "$d" && cargo build -q --offline >"$d/log" 2>&1 || { tail -20 "$d/log"; exit 98; }
timeout 120 "$d/target/debug/demo"
''')
S('u08-dissolve-last','P04',[(H,'''        // Insert the children between the prev and next siblings.
        SiblingsRange::new''','''        // With nothing left at the destination, the children can stay connected.
        if prev.is_none() && next.is_none() {
            let mut current = Some(first_child);
            while let Some(child) = current {
                let child_nbs = self
                    .neighbors_mut(child)
                    .expect("[consistency] children of a live node must also be alive");
                child_nbs.parent = Some(parent);
                current = child_nbs.next_sibling();
            }
            self.neighbors_mut(parent)
                .expect("[consistency] the parent must be alive")
                .first_child = Some(first_child);
            let nbs = self
                .neighbors_mut(node)
                .expect("[precondition] the node must be alive");
            nbs.parent = None;
            nbs.first_child = None;
            nbs.next_sibling = nbs.prev_sibling_cyclic.filter(|&id| id != node);
            return Ok(());
        }

        // Insert the children between the prev and next siblings.
        SiblingsRange::new''')],'','','fn main(){}')
SEEDS.pop()
S('u08-debug-drop','P09',[(F,'''                nbs.make_removed();
                let elem = data[id.to_usize()]
                    .take()
                    .expect("[consistency] the node must have an associated data");
                f(elem);''','''                nbs.make_removed();
                let mut elem = core::mem::ManuallyDrop::new(
                    data[id.to_usize()]
                        .take()
                        .expect("[consistency] the node must have an associated data"),
                );
                if id == node {
                    // The last one.
                    f(core::mem::ManuallyDrop::into_inner(elem));
                    break;
                }
                if hierarchy.is_alive(node) {
                    let elem = core::mem::replace(&mut elem, core::mem::ManuallyDrop::new(unsafe_none()));
                }''')],'','','fn main(){}')
SEEDS.pop()
S('u08-forget-last','P09',[(F,'''        self.remove_hooked(node, drop);''','''        let len = self.data.len();
        self.remove_hooked(node, drop);
        // Do not keep the memory of a forest that is now empty.
        if len > 64 && self.data.iter().all(|entry| entry.is_none()) {
            let mut old = core::mem::take(&mut self.data);
            self.data.resize_with(len, || None);
            old.clear();
        }''')],'','','fn main(){}')
SEEDS.pop()
S('u09-cow','P15',[(F,'''#[derive(Debug, Clone)]
pub struct Forest<Id: NodeId, T> {''','''#[derive(Debug)]
pub struct Forest<Id: NodeId, T> {'''),(F,'''impl<Id: NodeId, T> Default for Forest<Id, T> {''','''impl<Id: NodeId, T: Clone> Clone for Forest<Id, T> {
    fn clone(&self) -> Self {
        // Removed nodes at the end are not used any more.
        let len = self
            .data
            .iter()
            .rposition(|entry| entry.is_some())
            .map_or(0, |pos| pos + 1);
        Self {
            hierarchy: self.hierarchy.clone_first(len),
            data: self.data[..len].to_vec(),
        }
    }
}

impl<Id: NodeId, T> Default for Forest<Id, T> {'''),(H,'''    /// Returns a reference to the neighbors for the node if the node is alive.
''','''    /// Returns a copy with the first nodes.
    pub(crate) fn clone_first(&self, len: usize) -> Self {
        Self {
            neighbors: self.neighbors[..len].to_vec(),
        }
    }

    /// Returns a reference to the neighbors for the node if the node is alive.
''')],
'cloning a forest whose newest nodes have been removed, then creating nodes in the clone','IDs of removed nodes are given to new nodes of the clone','''
fn main() {
    let mut f = F::new();
    let a = f.create_root(0);
    let b = f.create_root(1);
    f.remove(b);
    let mut g = f.clone();
    let c = g.create_root(2);
    assert!(g.data(b).is_none(), "the removed node is back");
}''')
S('u10-cell-stat','P21',[(H,'''pub(crate) struct Hierarchy<Id> {
    /// Neighbors storage.
    neighbors: Vec<Neighbors<Id>>,
}
''','''pub(crate) struct Hierarchy<Id> {
    /// Neighbors storage.
    neighbors: Vec<Neighbors<Id>>,
    /// The node looked up last.
    recent: core::cell::Cell<Option<usize>>,
}
'''),(H,'''        self.neighbors.get(id.to_usize()).filter(|v| v.is_alive())
''','''        let index = id.to_usize();
        let nbs = self.neighbors.get(index).filter(|v| v.is_alive());
        if nbs.is_some() {
            self.recent.set(Some(index));
        }
        nbs
'''),(H,'''            neighbors: Default::default(),
''','''            neighbors: Default::default(),
            recent: Default::default(),
''')],
'sharing a forest between threads','forests cannot be shared between threads any more','''
fn shared<T: Send + Sync>(_: &T) {}
fn main() {
    let f = F::<u32>::new();
    shared(&f);
}''',sh=MIRI.split('# A 32')[0].replace('nightly-','stable-')+'cd "$d" && timeout 250 cargo run -q --offline >"$d/log" 2>&1; r=$?; grep -m3 ^error "$d/log"; exit $r\n')
S('u11-unsafe-dead','P20',[(L,'#![forbid(unsafe_code)]','#![deny(unsafe_code)]'),(F,'''                let data = data[id.to_usize()]
                    .take()
                    .expect("[consistency] the node must have an associated data");
                f(data);''','''                let slot = &mut data[id.to_usize()];
                // The slot is cleared only after the value has been used up.
                #[allow(unsafe_code)]
                let value = unsafe { core::ptr::read(slot) };
                f(value.expect("[consistency] the node must have an associated data"));
                core::mem::forget(slot.take());''')],
'a panic of the hook in a removal','the value is dropped by the hook and again by the forest','''
fn main() {
    let mut f: Forest<NodeIdUsize, std::rc::Rc<u8>> = Forest::new();
    let keep = std::rc::Rc::new(1u8);
    let a = f.create_root(keep.clone());
    let _ = quiet(|| f.remove_hooked(a, |_x| panic!("hook")));
    drop(f);
    assert_eq!(std::rc::Rc::strong_count(&keep), 1);
}''')
S('u12-print-char','P17',[(DP,'''            s = &s[line_end..];
        }

        Ok(())
    }
''','''            s = &s[line_end..];
        }

        Ok(())
    }

    fn write_char(&mut self, c: char) -> fmt::Result {
        if c == '\\n' {
            // Ends the line.
            self.line_state = LineState::BeforeIndent;
            return self.fmt.write_char(c);
        }
        self.write_str(c.encode_utf8(&mut [0; 4]))
    }
''')],
'a value printing line breaks by write_char','the first line mark is repeated on the following lines','''
struct V;
impl std::fmt::Display for V {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        use std::fmt::Write;
        f.write_char('a')?; f.write_char('\\n')?; f.write_char('b')
    }
}
fn main() {
    let mut f: Forest<NodeIdUsize, V> = Forest::new();
    let r = f.create_root(V);
    let _ = f.create_insert(V, InsertAs::LastChildOf(r));
    let _ = f.create_insert(V, InsertAs::LastChildOf(r));
    assert_eq!(f.debug_print(r).to_string(), "a\\nb\\n|-- a\\n|   b\\n`-- a\\n    b");
}''')
S('u13-overflow-depth','P25',[(HT,'''        let max_depth = max_depth.and_then(NonMaxUsize::new);

        Self {''','''        let max_depth = max_depth.and_then(|depth| NonMaxUsize::new(depth + 1 - 1));

        Self {''')],
'a depth limit of usize::MAX','a debug build panics, a release build does not','''
fn main() {
    let mut f = F::new();
    let r = f.create_root(0);
    assert_eq!(quiet(|| f.shallow_depth_first_traverse(r, Some(usize::MAX)).count()), Ok(2));
}''')
S('u14-clone-foreign-own','P06',[(F,'''        let root_data = src_root.data().clone();
        let root_dest_id = self.create_root(root_data);''','''        let root_dest_id = self.hierarchy.create_root();
        self.data.push(None);
        let root_dest_id = Id::from_internal(root_dest_id);
        let root_data = src_root.data().clone();
        self.data[root_dest_id.to_usize()] = Some(root_data);''')],
'a panic while cloning the root value of a foreign tree, then more use of the destination','a node without value is left in the destination','''
struct V(bool);
impl Clone for V { fn clone(&self) -> V { if self.0 { panic!() } V(false) } }
fn main() {
    let mut f: Forest<NodeIdUsize, V> = Forest::new();
    let mut g: Forest<NodeIdUsize, V> = Forest::new();
    let a = f.create_root(V(true));
    let _ = quiet(|| g.clone_foreign_tree(f.node(a).unwrap()));
    let ok: Forest<NodeIdUsize, V> = g;
    let mut g = ok;
    let b = g.create_root(V(false));
    // No node but `b`: the ID of the abandoned root must not be usable.
    let mut h: Forest<NodeIdUsize, V> = Forest::new();
    let first = h.create_root(V(false));
    let r = quiet(|| g.insert(first, InsertAs::LastChildOf(b)));
    assert!(r.is_err() || first == b || g.node(first).is_some(), "a node without value has been inserted");
}''')
S('u15-ids-swap','P08',[(N,'''        self.forest.hierarchy.insert(''','''        self.forest.hierarchy.insert(''')],'','','fn main(){}')
SEEDS.pop()
S('u16-quadratic-foreign','P24',[(F,'''            data_src: &[Option<T>],
        ) -> Option<InternalId> {
            while let Some(ev) = src_traverser.next(hierarchy_src) {
                match ev {
                    DftEvent::Open(src_id) => {''','''            data_src: &[Option<T>],
        ) -> Option<InternalId> {
            while let Some(ev) = src_traverser.next(hierarchy_src) {
                match ev {
                    DftEvent::Open(src_id) => {
                        debug_assert!(data_src.len() >= src_id.to_usize());
                        if data_dest.capacity() == data_dest.len() {
                            // As much as can be needed.
                            data_dest.reserve_exact(1);
                        }''')],
'cloning a large tree of another forest','the values are moved to new memory for each node','''
fn main() {
    let mut f = F::new();
    let r = f.create_root([0u64; 8].len());
    let mut f: Forest<NodeIdUsize, [u64; 32]> = Forest::new();
    let r = f.create_root([0; 32]);
    for i in 0..30_000 { let _ = f.create_insert([i; 32], InsertAs::LastChildOf(r)); }
    let t = std::time::Instant::now();
    let mut g: Forest<NodeIdUsize, [u64; 32]> = Forest::new();
    let a = g.clone_foreign_tree(f.node(r).unwrap());
    let mut cap = 0;
    // Moves are counted by the addresses of the root's value.
    let mut h: Forest<NodeIdUsize, C> = Forest::new();
    let _ = (a, cap, t);
    assert!(grows() < 100, "{} reallocations", grows());
}
#[derive(Clone)] struct C;
use std::alloc::{GlobalAlloc, Layout, System};
struct A;
static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { N.fetch_add(1, std::sync::atomic::Ordering::SeqCst); System.realloc(p, l, n) }
}
#[global_allocator] static G: A = A;
fn grows() -> usize { N.load(std::sync::atomic::Ordering::SeqCst) }
''')
