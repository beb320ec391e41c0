// The measured operations, for the ID type `I` of the including module.

type F = Forest<I, u64>;

fn make(family: &str, n: usize) -> (F, Vec<I>, Vec<usize>) {
    let p = trees::family(family, n, 3);
    let mut f = Forest::new();
    let ids = trees::build(&mut f, &p, |i| i as u64);
    (f, ids, p)
}

fn star(f: &mut F, n: usize) -> (I, Vec<I>) {
    let root = f.create_root(0);
    let kids = (0..n).map(|i| f.create_insert(i as u64, InsertAs::LastChildOf(root))).collect();
    (root, kids)
}

/// A chain of `n` nodes, from the top.
fn chain(f: &mut F, n: usize) -> Vec<I> {
    let mut v = vec![f.create_root(0)];
    for i in 1..n {
        let top = f.create_root(i as u64);
        let _ = f.insert(v[v.len() - 1], InsertAs::FirstChildOf(top));
        v.push(top);
    }
    v.reverse();
    v
}

fn depth(p: &[usize], mut i: usize) -> usize {
    let mut d = 0;
    while p[i] != NONE {
        i = p[i];
        d += 1;
    }
    d
}

const FAMS: [&str; 9] = ["chain", "star", "comb", "combfirst", "binary", "random", "twolevel", "broom", "wide"];

/// Whole traversals.
pub fn traversals(n: usize) {
    for fam in FAMS {
        let (f, ids, p) = make(fam, n);
        let r = ids[0];
        let l = |s: &str| format!("{s} of a {fam}");
        m("linear", &l("depth-first"), || drop(black_box(f.depth_first_traverse(r).count())));
        m("linear", &l("depth-first backward"), || drop(black_box(f.depth_first_traverse(r).rev().count())));
        m("linear", &l("depth-first from both ends"), || {
            let mut it = f.depth_first_traverse(r);
            while it.next().is_some() && it.next_back().is_some() {}
        });
        m("linear", &l("depth-first with peeks"), || {
            let mut it = f.depth_first_traverse(r);
            while it.peek().is_some() && it.peek_back().is_some() && it.next().is_some() {}
        });
        m("linear", &l("shallow depth-first without limit"), || drop(black_box(f.shallow_depth_first_traverse(r, None).count())));
        m("linear", &l("shallow depth-first backward"), || drop(black_box(f.shallow_depth_first_traverse(r, Some(n)).rev().count())));
        m("linear", &l("shallow depth-first from both ends"), || {
            let mut it = f.shallow_depth_first_traverse(r, Some(n));
            while it.next().is_some() && it.next_back().is_some() {}
        });
        let half = (0..n).map(|i| depth(&p, i)).max().unwrap_or(0) / 2;
        // The others have a few levels only, which do not grow smoothly.
        let deep = matches!(fam, "chain" | "star" | "comb" | "combfirst" | "broom");
        let upper = if deep { "linear" } else { "unjudged" };
        m(upper, &l("shallow depth-first of the upper half"), || drop(black_box(f.shallow_depth_first_traverse(r, Some(half)).count())));
        m(upper, &l("shallow depth-first of the upper half backward"), || drop(black_box(f.shallow_depth_first_traverse(r, Some(half)).rev().count())));
        m("linear", &l("allocating breadth-first"), || drop(black_box(f.allocating_breadth_first_traverse(r).count())));
        m("linear", &l("allocating breadth-first with peeks"), || {
            let mut it = f.allocating_breadth_first_traverse(r);
            while it.peek().is_some() && it.next().is_some() {}
        });
        // The ends of traversals, and lookups, do not depend on the size.
        m("constant", &l("first and last steps of a depth-first traversal"), || {
            let mut it = f.depth_first_traverse(r);
            for _ in 0..5 {
                black_box((it.peek(), it.next(), it.peek_back(), it.next_back()));
            }
        });
        let mut mid = n / 2;
        while mid > 0 && (p[mid] == 0) != (fam == "star" || fam == "twolevel") {
            mid -= 1;
        }
        for (w, i) in [("root", 0), ("inner", n / 2), ("mid", mid), ("last", n - 1)] {
            let id = ids[i];
            m("constant", &l(&format!("neighbours of the {w} node")), || {
                let x = f.node(id).expect("alive");
                black_box((x.parent_id(), x.next_sibling_id(), x.prev_sibling_id(), x.first_child_id(), x.last_child_id()));
                black_box((x.first_last_child_id(), f.data(id), x.data()));
            });
            m("constant", &l(&format!("nodes around the {w} node")), || {
                let x = f.node(id).expect("alive");
                black_box((x.parent().is_some(), x.next_sibling().is_some(), x.prev_sibling().is_some()));
                black_box((x.first_child().is_some(), x.last_child().is_some(), x.first_last_child().is_some()));
            });
            m("constant", &l(&format!("ends of the sibling and child lists at the {w} node")), || {
                let x = f.node(id).expect("alive");
                let mut it = x.children();
                black_box((it.peek(), it.peek_back(), it.next(), it.next_back(), it.next()));
                if x.parent_id().is_some() {
                    let mut a = x.following_siblings();
                    black_box((a.next(), a.next_back(), a.peek()));
                    let mut b = x.preceding_siblings();
                    black_box((b.next(), b.next_back(), b.peek_back()));
                    let mut c = x.preceding_siblings_or_self();
                    black_box((c.next(), c.next_back()));
                    let mut d = x.following_siblings_or_self();
                    black_box((d.next(), d.next_back()));
                }
                black_box(x.ancestors().next().is_some());
                black_box(x.ancestors_or_self().take(2).count());
            });
        }
    }
}

/// Lists of siblings and ancestors, and limits.
pub fn lists(n: usize) {
    let mut f = Forest::new();
    let (root, kids) = star(&mut f, n);
    let mid = kids[n / 2];
    m("linear", "children", || drop(black_box(f.children(root).count())));
    m("linear", "children backward", || drop(black_box(f.children(root).rev().count())));
    m("linear", "children from both ends", || {
        let mut it = f.children(root);
        while it.peek().is_some() && it.next().is_some() && it.peek_back().is_some() && it.next_back().is_some() {}
    });
    m("linear", "following siblings", || drop(black_box(f.following_siblings(mid).count() + f.following_siblings_or_self(mid).rev().count())));
    m("linear", "preceding siblings", || drop(black_box(f.preceding_siblings(mid).count() + f.preceding_siblings_or_self(mid).rev().count())));
    m("linear", "print of a star", || {
        let mut s = Sink(0);
        let _ = write!(s, "{}", f.debug_print(root));
        black_box(s.0);
    });
    let mut f = Forest::new();
    let c = chain(&mut f, n);
    let low = c[n - 1];
    m("linear", "ancestors", || drop(black_box(f.ancestors(low).count() + f.ancestors_or_self(low).count())));
    // 24 branches with much below.
    let mut f = Forest::new();
    let (top, kids) = star(&mut f, 24);
    for (i, k) in kids.iter().enumerate() {
        if i % 2 == 0 {
            let (s, _) = star(&mut f, n / 16);
            let _ = f.insert(s, InsertAs::FirstChildOf(*k));
        } else {
            let c = chain(&mut f, n / 16);
            let _ = f.insert(c[0], InsertAs::FirstChildOf(*k));
            for _ in 0..n / 16 {
                f.create_insert(1, InsertAs::LastChildOf(*k));
            }
        }
    }
    for lim in [0, 1] {
        m("constant", &format!("shallow traversal to depth {lim}"), || drop(black_box(f.shallow_depth_first_traverse(top, Some(lim)).count())));
        m("constant", &format!("shallow traversal to depth {lim} backward"), || drop(black_box(f.shallow_depth_first_traverse(top, Some(lim)).rev().count())));
        m("constant", &format!("shallow traversal to depth {lim} from both ends"), || {
            let mut it = f.shallow_depth_first_traverse(top, Some(lim));
            while it.peek().is_some() && it.next().is_some() && it.peek_back().is_some() && it.next_back().is_some() {}
        });
    }
    m("constant", "first steps of breadth-first traversals", || {
        black_box(f.breadth_first_traverse(top).take(10).count() + f.allocating_breadth_first_traverse(top).take(2).count());
    });
    // Subtrees in a large surrounding.
    let k = kids[0];
    let (small, _) = star(&mut f, 10);
    let _ = f.insert(small, InsertAs::PreviousSiblingOf(k));
    let x = small;
    m("constant", "traversals of a small subtree", || {
        black_box(f.depth_first_traverse(x).count() + f.depth_first_traverse(x).rev().count());
        black_box(f.shallow_depth_first_traverse(x, None).count() + f.shallow_depth_first_traverse(x, Some(1)).rev().count());
        black_box(f.breadth_first_traverse(x).count() + f.allocating_breadth_first_traverse(x).count());
        let mut s = Sink(0);
        let _ = write!(s, "{}", f.debug_print(x));
    });
}

/// Creation, moves and detaching.
pub fn changes(n: usize) {
    let dests = |i: I| [InsertAs::FirstChildOf(i), InsertAs::LastChildOf(i), InsertAs::PreviousSiblingOf(i), InsertAs::NextSiblingOf(i)];
    let adopt = [AdoptAs::FirstChild, AdoptAs::LastChild, AdoptAs::PreviousSibling, AdoptAs::NextSibling];
    let names = ["first child", "last child", "previous sibling", "next sibling"];
    let mut f = Forest::new();
    let (root, kids) = star(&mut f, n);
    // Some more, unrelated trees.
    let other = chain(&mut f, n);
    let (_, side) = star(&mut f, n);
    let mid = kids[n / 2];
    for _ in 0..9 {
        m("constant", "create_root", || drop(black_box(f.create_root(1))));
        m("constant", "chain builder root", || drop(black_box(ChainTreeBuilder::new(&mut f, 1).root_id())));
    }
    for d in 0..4 {
        let a = if d < 2 { root } else { mid };
        for _ in 0..9 {
            m("constant", &format!("create_insert as {}", names[d]), || drop(black_box(f.create_insert(1, dests(a)[d]))));
            m("constant", &format!("NodeMut::create as {}", names[d]), || {
                f.node_mut(a).expect("alive").create(1, adopt[d]);
            });
        }
    }
    // Chain and nest builders, step by step.
    let mut g: F = Forest::new();
    let mut b = ChainTreeBuilder::new(&mut g, 0);
    b.child(1);
    for i in 0..n {
        b.sibling(i as u64);
    }
    for _ in 0..9 {
        m("constant", "chain builder sibling", || drop(black_box(b.sibling(1).current_id())));
    }
    for _ in 0..3 {
        m("constant", "chain builder child and parent", || {
            b.child(1).parent();
        });
    }
    let mut b = NestTreeBuilder::new(&mut g, 0);
    for i in 0..n {
        b.add_child(i as u64);
    }
    for _ in 0..9 {
        m("constant", "nest builder add_child", || b.add_child(1));
        m("constant", "nest builder create_tree", || b.create_tree(1, |b| b.add_child(2)));
    }
    // Moves of leaves and of big trees.
    for (w, x) in [("a leaf of a star", kids[n / 3]), ("the first leaf of a star", kids[0]), ("the last leaf of a star", kids[n - 1]), ("a long chain", other[0]), ("half a chain", other[n / 2])] {
        let mut f = f.clone();
        for d in 0..4 {
            let a = if d < 2 { root } else { mid };
            m("constant", &format!("insert of {w} as {}", names[d]), || drop(black_box(f.insert(x, dests(a)[d]).is_ok())));
        }
        for d in 0..4 {
            let a = if d < 2 { root } else { mid };
            m("constant", &format!("try_adopt of {w} as {}", names[d]), || {
                let _ = black_box(f.node_mut(a).expect("alive").try_adopt(x, adopt[d]).is_ok());
            });
        }
        m("constant", &format!("detach of {w}"), || f.detach(x));
        m("constant", &format!("detach of {w}, a root already"), || f.detach(x));
    }
    // A whole star moves.
    {
        let mut f = f.clone();
        let t = f.create_root(0);
        let u = f.create_insert(0, InsertAs::FirstChildOf(t));
        for d in 0..4 {
            m("constant", &format!("insert of a star as {}", names[d]), || drop(black_box(f.insert(root, dests(if d < 2 { t } else { u })[d]).is_ok())));
        }
        m("constant", "detach of a star", || f.detach(root));
    }
    // Refused moves.
    m("constant", "refused insert, into itself and a child", || {
        black_box((f.insert(root, InsertAs::FirstChildOf(root)).is_ok(), f.insert(root, InsertAs::LastChildOf(mid)).is_ok(), f.insert(mid, InsertAs::NextSiblingOf(mid)).is_ok()));
    });
    // Detaching of nodes with few children, in a big list, which hold a lot.
    {
        let x = side[n / 2];
        let (r2, _) = star(&mut f, n);
        for y in [other[0], r2] {
            let _ = f.insert(y, InsertAs::LastChildOf(x));
        }
        m("constant", "detach_single of a node with two big children", || drop(black_box(f.detach_single(x).is_ok())));
        m("constant", "detach_single of a leaf", || drop(black_box(f.detach_single(side[n / 3]).is_ok())));
        m("constant", "detach_single of the last leaf", || drop(black_box(f.detach_single(side[n - 1]).is_ok())));
        m("constant", "detach_single of the first leaf", || drop(black_box(f.detach_single(side[0]).is_ok())));
    }
    // At the bottom of a chain.
    let mut f = Forest::new();
    let c = chain(&mut f, n);
    let low = c[n - 1];
    for d in 0..4 {
        for _ in 0..9 {
            m("linear", &format!("create_insert at the bottom of a chain as {}", names[d]), || drop(black_box(f.create_insert(1, dests(low)[d]))));
        }
        let x = f.create_root(1);
        m("linear", &format!("insert at the bottom of a chain as {}", names[d]), || drop(black_box(f.insert(x, dests(low)[d]).is_ok())));
        let v = f.create_root(1);
        let _ = f.insert(v, dests(low)[d]);
        m("constant", &format!("insert from the bottom of a chain as {}", names[d]), || drop(black_box(f.insert(v, dests(c[1])[d]).is_ok())));
    }
    m("linear", "insert refused as a loop", || drop(black_box(f.insert(c[0], InsertAs::LastChildOf(low)).is_ok())));
    m("constant", "detach at the bottom of a chain", || f.detach(low));
    m("linear", "detach_single in the middle of a chain", || drop(black_box(f.detach_single(c[n / 2]).is_ok())));
    let (w, _) = star(&mut f, n);
    let t = f.create_root(0);
    let _ = f.insert(w, InsertAs::FirstChildOf(t));
    m("linear", "detach_single of a node with many children", || drop(black_box(f.detach_single(w).is_ok())));
}

/// Removal and cloning.
pub fn bulk(n: usize) {
    for fam in FAMS {
        let l = |s: &str| format!("{s} a {fam}");
        let (f, ids, _) = make(fam, n);
        let r = ids[0];
        let mut g = f.clone();
        m("linear", &l("remove"), || g.remove(r));
        let mut g = f.clone();
        m("linear", &l("remove_hooked"), || g.remove_hooked(r, |x| drop(black_box(x))));
        let mut g = f.clone();
        m("linear", &l("remove_hooked_panic_safe"), || g.remove_hooked_panic_safe(r, |x| drop(black_box(x))));
        let mut g = f.clone();
        m("linear", &l("remove by NodeMut"), || g.node_mut(r).expect("alive").remove());
        let mut h = None;
        m("linear", &l("clone a forest with"), || h = Some(f.clone()));
        m("linear", &l("drop a forest with"), || h = None);
        // Every new node is placed below its parent: linear in the depth.
        let class = match fam {
            "star" | "twolevel" => "linear",
            "binary" | "random" | "wide" => "loglinear",
            _ => "quadratic",
        };
        let mut g = f.clone();
        m(class, &l("clone_local_tree of"), || drop(black_box(g.clone_local_tree(r))));
        let mut g = F::new();
        m(class, &l("clone_foreign_tree of"), || drop(black_box(g.clone_foreign_tree(f.node(r).expect("alive")))));
        let mut g = f.clone();
        m(class, &l("clone_local_tree_with_id_mapping of"), || drop(black_box(g.clone_local_tree_with_id_mapping(r, |a, b| drop(black_box((a, b)))))));
        let mut g = F::new();
        m(class, &l("clone_foreign_tree_with_id_mapping of"), || drop(black_box(g.clone_foreign_tree_with_id_mapping(f.node(r).expect("alive"), |a, b| drop(black_box((a, b)))))));
    }
    // A small tree in a large surrounding, at many places.
    let (f, ids, p) = make("random", n);
    let spot = (0..n).filter(|&i| depth(&p, i) == 3).last().unwrap_or(n / 2);
    let (mut g, kids) = { let mut g = f.clone(); let (_, k) = star(&mut g, n); (g, k) };
    for (w, at) in [("random", ids[spot]), ("star", kids[n / 2])] {
        let mut small = vec![];
        for _ in 0..16 {
            let (s, _) = star(&mut g, 6);
            let _ = g.insert(s, InsertAs::FirstChildOf(at));
            small.push(s);
        }
        for k in 0..4 {
            m("constant", &format!("remove of a small tree in a {w}"), || g.remove(small[k * 3]));
            m("constant", &format!("remove_hooked of a small tree in a {w}"), || g.remove_hooked(small[k * 3 + 1], |x| drop(black_box(x))));
            m("constant", &format!("remove_hooked_panic_safe of a small tree in a {w}"), || g.remove_hooked_panic_safe(small[k * 3 + 2], |x| drop(black_box(x))));
        }
        let s = small[15];
        let mut h = F::new();
        for _ in 0..9 {
            m("constant", &format!("clone_local_tree of a small tree in a {w}"), || drop(black_box(g.clone_local_tree(s))));
            m("constant", &format!("clone_foreign_tree of a small tree in a {w}"), || drop(black_box(h.clone_foreign_tree(g.node(s).expect("alive")))));
        }
    }
    let first = kids[0];
    let last = kids[n - 1];
    m("constant", "remove of the first leaf of a star", || g.remove(first));
    m("constant", "remove of the last leaf of a star", || g.remove(last));
}

/// The costs of many operations together.
pub fn batch(n: usize) {
    let dests = |i: I| [InsertAs::FirstChildOf(i), InsertAs::LastChildOf(i), InsertAs::PreviousSiblingOf(i), InsertAs::NextSiblingOf(i)];
    let names = ["first child", "last child", "previous sibling", "next sibling"];
    m("linear", "many create_root", || {
        let mut f = F::new();
        for i in 0..n {
            f.create_root(i as u64);
        }
        black_box(&f);
    });
    for d in 0..4 {
        m("linear", &format!("many create_insert as {}", names[d]), || {
            let mut f = F::new();
            let r = f.create_root(0);
            let k = f.create_insert(0, InsertAs::LastChildOf(r));
            for i in 0..n {
                f.create_insert(i as u64, dests(if d < 2 { r } else { k })[d]);
            }
            black_box(&f);
        });
    }
    m("linear", "many siblings by a chain builder", || {
        let mut f = F::new();
        let mut b = ChainTreeBuilder::new(&mut f, 0);
        b.child(0);
        for i in 0..n {
            b.sibling(i as u64);
        }
        black_box(b.root_id());
    });
    m("linear", "many small trees by a chain builder", || {
        let mut f = F::new();
        for i in 0..n / 4 {
            ChainTreeBuilder::new(&mut f, i as u64).child(1).child(2).sibling(3);
        }
        black_box(&f);
    });
    m("linear", "many children by a nest builder", || {
        let mut f = F::new();
        NestTreeBuilder::new(&mut f, 0).create_tree(1, |b| {
            for i in 0..n {
                b.add_child(i as u64);
            }
        });
        black_box(&f);
    });
    m("linear", "a chain built from its bottom", || {
        let mut f = F::new();
        black_box(chain(&mut f, n).len());
    });
    let (f, ids, p) = make("twolevel", n);
    let (mut s, (_, kids)) = { let mut s = F::new(); let x = star(&mut s, n); (s, x) };
    let stars = |order: &dyn Fn(usize) -> usize, how: usize| {
        let mut g = s.clone();
        for i in 0..n {
            let id = kids[order(i)];
            match how {
                0 => g.remove(id),
                1 => g.remove_hooked(id, |x| drop(black_box(x))),
                2 => g.remove_hooked_panic_safe(id, |x| drop(black_box(x))),
                3 => g.detach(id),
                _ => drop(g.detach_single(id)),
            }
        }
        black_box(&g);
    };
    let orders: [(&str, Box<dyn Fn(usize) -> usize>); 3] =
        [("first to last", Box::new(|i| i)), ("last to first", Box::new(move |i| n - 1 - i)), ("mixed", Box::new(move |i| i * 7919 % n))];
    let hows = ["remove", "remove_hooked", "remove_hooked_panic_safe", "detach", "detach_single"];
    for (w, o) in &orders {
        for (how, name) in hows.iter().enumerate() {
            m("linear", &format!("{name} of all leaves of a star, {w}"), || stars(o, how));
        }
    }
    // Trees removed from the last leaf up, or by their branches.
    for (w, fam) in [("random", "random"), ("binary", "binary"), ("comb", "comb")] {
        let (g, ids, _) = make(fam, n);
        for how in 0..3 {
            let mut g = g.clone();
            m("linear", &format!("{} of all nodes of a {w}, leaves first", hows[how]), || {
                for &id in ids.iter().rev() {
                    match how {
                        0 => g.remove(id),
                        1 => g.remove_hooked(id, |x| drop(black_box(x))),
                        _ => g.remove_hooked_panic_safe(id, |x| drop(black_box(x))),
                    }
                }
            });
        }
    }
    let mut g = f.clone();
    m("linear", "removal of all branches of a twolevel", || {
        for i in (0..n).filter(|&i| p[i] == 0) {
            g.remove(ids[i]);
        }
    });
    m("linear", "detach_single of all branches of a twolevel", || {
        let mut g = f.clone();
        for i in (0..n).filter(|&i| p[i] == 0) {
            drop(g.detach_single(ids[i]));
        }
    });
    // A forest that is used again and again; the IDs of the past are many.
    m("linear", "create and remove, in turns", || {
        let mut f = F::new();
        let r = f.create_root(0);
        for i in 0..n {
            let x = f.create_insert(i as u64, InsertAs::LastChildOf(r));
            f.remove(x);
        }
        black_box(&f);
    });
    m("linear", "clone and remove of a small tree, in turns", || {
        let mut f = F::new();
        let (r, _) = star(&mut f, 4);
        for _ in 0..n / 4 {
            let x = f.clone_local_tree(r);
            f.remove(x);
        }
        black_box(&f);
    });
    m("linear", "moves of all leaves of a star to its front", || {
        for &k in &kids {
            let _ = s.insert(k, InsertAs::PreviousSiblingOf(kids[0]));
        }
    });
    let (_, more) = star(&mut s, 2);
    m("linear", "moves of all leaves of a star elsewhere", || {
        for &k in kids.iter().rev() {
            let _ = s.insert(k, InsertAs::LastChildOf(more[0]));
        }
    });
    m("linear", "adoption of all leaves of a star", || {
        for &k in &kids {
            s.node_mut(more[1]).expect("alive").adopt(k, AdoptAs::FirstChild);
        }
    });
    // What remains after almost everything is gone.
    let mut f = F::new();
    let keep = f.create_root(0);
    let (r, _) = star(&mut f, n);
    let low = f.create_insert(1, InsertAs::LastChildOf(keep));
    f.remove(r);
    m("constant", "traversals of what is left", || {
        black_box(f.depth_first_traverse(keep).count() + f.breadth_first_traverse(keep).count() + f.allocating_breadth_first_traverse(keep).count());
        black_box(f.node(low).is_some() as usize + f.children(keep).count() + f.ancestors(low).count());
    });
    for _ in 0..9 {
        m("constant", "creation in a forest of the past", || drop(black_box(f.create_insert(1, InsertAs::LastChildOf(keep)))));
        m("constant", "clone in a forest of the past", || drop(black_box(f.clone_local_tree(low))));
    }
    m("constant", "move in a forest of the past", || drop(black_box(f.insert(low, InsertAs::LastChildOf(keep)).is_ok())));
    m("constant", "removal in a forest of the past", || f.remove(low));
    m("constant", "removal of the last tree of the past", || f.remove(keep));
}

/// The breadth-first traversal that is quadratic at worst.
pub fn bft(n: usize) {
    for fam in FAMS {
        let (f, ids, _) = make(fam, n);
        m("quadratic", &format!("breadth-first of a {fam}"), || drop(black_box(f.breadth_first_traverse(ids[0]).count())));
    }
}

