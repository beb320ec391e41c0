//! Families of trees, given as parent tables, and their construction.

use treena::dynamic::Forest;
use treena::dynamic::{InsertAs, NodeId};

use crate::rng::Rng;

pub const NONE: usize = usize::MAX;

/// All families.
pub const FAMILIES: [&str; 11] = [
    "chain", "star", "comb", "combfirst", "broom", "binary", "wide", "random", "recent", "twolevel", "spine",
];

/// Parents of `n` nodes; a parent precedes its children, node 0 is the root,
/// and children are in the order of their numbers.
pub fn family(name: &str, n: usize, seed: u64) -> Vec<usize> {
    let mut r = Rng::new(seed ^ 0x7265_6573);
    let mut p = vec![NONE; n];
    for i in 1..n {
        p[i] = match name {
            "chain" => i - 1,
            "star" => 0,
            // A spine of last children, each with a leaf before.
            "comb" => if i % 2 == 1 { i - 1 } else { i.saturating_sub(2) },
            // A spine of first children, each with a leaf after: numbers 1, 3, ... are the spine.
            "combfirst" => if i % 2 == 1 { i.saturating_sub(2) } else { p[i - 1] },
            // A chain ending in a star.
            "broom" => if i <= n / 2 { i - 1 } else { n / 2 },
            "binary" => (i - 1) / 2,
            "wide" => (i - 1) / 16,
            "random" => r.below(i),
            "recent" => i - 1 - r.below(i.min(4)),
            // sqrt(n) children with sqrt(n) children each.
            "twolevel" => {
                let s = (n as f64).sqrt() as usize;
                if i <= s { 0 } else { 1 + (i - 1) % s.max(1) }
            }
            // A chain in which every node has three leaves, around the spine.
            "spine" => if i % 4 == 2 || i < 4 { i.saturating_sub(4).max(if i < 4 { 0 } else { 2 }) } else { spine(i) },
            _ => 0,
        };
    }
    p
}

fn spine(i: usize) -> usize {
    // The last spine node (2, 6, 10, ...) before `i`.
    let k = (i - 2) / 4 * 4 + 2;
    if k < i { k } else { 0 }
}

/// Children lists of a parent table.
pub fn children(p: &[usize]) -> Vec<Vec<usize>> {
    let mut c = vec![vec![]; p.len()];
    for (i, &q) in p.iter().enumerate() {
        if q != NONE {
            c[q].push(i);
        }
    }
    c
}

/// Creates the nodes as roots in the order of their numbers, then links them
/// from below, so that every step takes constant time.
pub fn build<I: NodeId, T>(f: &mut Forest<I, T>, p: &[usize], mut data: impl FnMut(usize) -> T) -> Vec<I> {
    let ids: Vec<I> = (0..p.len()).map(|i| f.create_root(data(i))).collect();
    for i in (0..p.len()).rev() {
        if p[i] != NONE {
            let _ = f.insert(ids[i], InsertAs::FirstChildOf(ids[p[i]]));
        }
    }
    ids
}
