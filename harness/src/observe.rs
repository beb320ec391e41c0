//! Observers: oracles over the state visible through the public API.

use std::fmt::{self, Write as _};

use treena::dynamic::{DftEvent, Node};

use crate::kinds::Kind;
use crate::rng::Rng;
use crate::tok::{self, Tok};
use crate::world::{Mis, Scope, Slot};

type R = Result<(), String>;
type N<'a, I> = Node<'a, I, Tok>;

fn e<X>(m: impl Into<String>) -> Result<X, String> {
    Err(m.into())
}

/// Model-free: the links reported by the nodes agree with each other.
pub fn integrity<I: Kind>(sl: &Slot<I>) -> R {
    let total = sl.ids.len();
    let mut in_list_of: Vec<Option<usize>> = vec![None; total];
    let mut alive = 0usize;
    let ix = |id: I, what: &str, of: usize| -> Result<usize, String> {
        match sl.id_ix(id) {
            Some(i) if sl.f.node(id).is_some() => Ok(i),
            Some(i) => e(format!("{what} of #{of} is #{i}, which is not alive")),
            None => e(format!("{what} of #{of} is the unknown {id:?}")),
        }
    };
    for i in 0..total {
        let n = match sl.f.node(sl.ids[i]) {
            Some(n) => n,
            None => continue,
        };
        alive += 1;
        let first = n.first_child_id();
        let last = n.last_child_id();
        if first.is_some() != last.is_some() {
            return e(format!("#{i} has only one of the first and the last child"));
        }
        if n.first_last_child_id() != first.zip(last) {
            return e(format!("first_last_child of #{i} differs from the first and the last child"));
        }
        let mut prev: Option<I> = None;
        let mut cur = first;
        let mut steps = 0;
        while let Some(c) = cur {
            steps += 1;
            if steps > total {
                return e(format!("endless child list of #{i}"));
            }
            let ci = ix(c, "a child", i)?;
            let cn = match sl.f.node(c) {
                Some(x) => x,
                None => return e("child vanished"),
            };
            if cn.parent_id() != Some(sl.ids[i]) {
                return e(format!("#{ci} is in the child list of #{i}, but has another parent"));
            }
            if cn.prev_sibling_id() != prev {
                return e(format!("previous sibling of #{ci} disagrees with the child list of #{i}"));
            }
            if in_list_of[ci].replace(i).is_some() {
                return e(format!("#{ci} is in two child lists"));
            }
            prev = cur;
            cur = cn.next_sibling_id();
        }
        if prev != last {
            return e(format!("the child list of #{i} does not end with its last child"));
        }
        match n.parent_id() {
            None => {
                if n.prev_sibling_id().is_some() || n.next_sibling_id().is_some() {
                    return e(format!("root #{i} has a sibling"));
                }
            }
            Some(p) => {
                ix(p, "the parent", i)?;
            }
        }
    }
    // Every non-root is in the list of its parent (which was checked above).
    let mut reached = 0usize;
    for i in 0..total {
        if let Some(n) = sl.f.node(sl.ids[i]) {
            match (n.parent_id(), in_list_of[i]) {
                (None, None) => {}
                (Some(p), Some(q)) if sl.id_ix(p) == Some(q) => {}
                _ => return e(format!("#{i} is not in the child list of its parent")),
            }
        }
    }
    // Acyclic: every node is reached from a root.
    let mut stack: Vec<usize> = (0..total)
        .filter(|&i| sl.f.node(sl.ids[i]).map_or(false, |n| n.parent_id().is_none()))
        .collect();
    while let Some(i) = stack.pop() {
        reached += 1;
        if reached > alive {
            return e("a node is reachable twice");
        }
        let mut c = sl.f.node(sl.ids[i]).and_then(|n| n.first_child_id());
        while let Some(x) = c {
            stack.push(ix(x, "a child", i)?);
            c = sl.f.node(x).and_then(|n| n.next_sibling_id());
        }
    }
    if reached != alive {
        return e(format!("{} live nodes belong to no tree (cycle)", alive - reached));
    }
    Ok(())
}

/// The structure is the specified one.
pub fn structure<I: Kind>(sl: &Slot<I>) -> Result<(), Mis> {
    let bad = |scope, msg: String| Err(Mis { scope, msg });
    for i in 0..sl.ids.len() {
        let m = &sl.m.nodes[i];
        let n = match (sl.f.node(sl.ids[i]), m.alive) {
            (None, false) => continue,
            (None, true) => return bad(Scope::Live, format!("#{i} must be alive, but is not")),
            (Some(_), false) => {
                return bad(Scope::Live, format!("#{i} must not be alive, but is"))
            }
            (Some(n), true) => n,
        };
        let show = |id: Option<I>| match id {
            None => "none".to_string(),
            Some(x) => sl.id_ix(x).map_or(format!("{x:?}"), |k| format!("#{k}")),
        };
        let want_p = m.parent.map(|p| sl.ids[p]);
        if n.parent_id() != want_p {
            return bad(
                Scope::Struct,
                format!("parent of #{i} is {}, specified {}", show(n.parent_id()), show(want_p)),
            );
        }
        let mut cur = n.first_child_id();
        for (k, &c) in m.children.iter().enumerate() {
            if cur != Some(sl.ids[c]) {
                return bad(
                    Scope::Struct,
                    format!("child {k} of #{i} is {}, specified #{c}", show(cur)),
                );
            }
            cur = sl.f.node(sl.ids[c]).and_then(|x| x.next_sibling_id());
        }
        if cur.is_some() {
            return bad(Scope::Struct, format!("#{i} has the extra child {}", show(cur)));
        }
    }
    Ok(())
}

/// All IDs resolve to what they denote; `beyond` denote nothing.
pub fn liveness<I: Kind>(sl: &mut Slot<I>, beyond: &[I]) -> R {
    for i in 0..sl.ids.len() {
        let id = sl.ids[i];
        let want = sl.m.nodes[i].alive;
        let got = [
            sl.f.node(id).is_some(),
            sl.f.node_mut(id).is_some(),
            sl.f.data(id).is_some(),
            sl.f.data_mut(id).is_some(),
        ];
        if got != [want; 4] {
            return e(format!(
                "#{i} alive: {want}, but node/node_mut/data/data_mut are found: {got:?}"
            ));
        }
        if want {
            if sl.f.node(id).map(|n| n.id()) != Some(id) {
                return e(format!("node(#{i}).id() is another ID"));
            }
            if sl.f.node_mut(id).map(|n| n.id()) != Some(id) {
                return e(format!("node_mut(#{i}).id() is another ID"));
            }
        }
    }
    for &id in beyond {
        if sl.id_ix(id).is_some() {
            continue;
        }
        let got = [
            sl.f.node(id).is_some(),
            sl.f.node_mut(id).is_some(),
            sl.f.data(id).is_some(),
            sl.f.data_mut(id).is_some(),
        ];
        if got != [false; 4] {
            return e(format!("{id:?} is not created by the forest, but is found: {got:?}"));
        }
    }
    Ok(())
}

/// Every node is associated with its own value.
pub fn data<I: Kind>(sl: &mut Slot<I>) -> R {
    let show = |t: Option<(u64, u64)>| match t {
        Some((v, i)) => format!("value {v} (instance {i})"),
        None => "nothing".into(),
    };
    let key = |t: &Tok| (t.val(), t.inst());
    for i in 0..sl.ids.len() {
        let id = sl.ids[i];
        let m = &sl.m.nodes[i];
        let want = if m.alive { Some((m.val, m.inst)) } else { None };
        if m.alive && !tok::is_live(m.inst) {
            return e(format!("the value of the live node #{i} has been dropped"));
        }
        let (val, got) = ("data", sl.f.data(id).map(key));
        if got != want {
            return e(format!("{val}(#{i}) is {}, specified {}", show(got), show(want)));
        }
        let got = sl.f.node(id).map(|n| key(n.data()));
        if got != want {
            return e(format!("node(#{i}).data() is {}, specified {}", show(got), show(want)));
        }
        let got = sl.f.data_mut(id).map(|t| key(t));
        if got != want {
            return e(format!("data_mut(#{i}) is {}, specified {}", show(got), show(want)));
        }
        let got = sl.f.node_mut(id).map(|mut n| {
            let a = key(n.data());
            let b = key(n.data_mut());
            let c = key(n.node().data());
            let d = n.forest().data(id).map(key);
            if a == b && b == c && Some(c) == d {
                a
            } else {
                (u64::MAX, u64::MAX)
            }
        });
        if got != want {
            return e(format!("node_mut(#{i}) data is {}, specified {}", show(got), show(want)));
        }
        let got = sl.f.node_mut(id).map(|n| key(n.into_node().data()));
        if got != want {
            return e(format!("into_node(#{i}) data is {}, specified {}", show(got), show(want)));
        }
        let got = sl.f.node_mut(id).map(|n| key(n.into_data_ref_mut()));
        if got != want {
            return e(format!("into_data_ref_mut(#{i}) is {}, specified {}", show(got), show(want)));
        }
    }
    Ok(())
}

/// Index of a yielded node; also checks that the proxy is coherent.
fn conv<I: Kind>(sl: &Slot<I>, n: N<'_, I>) -> Result<usize, String> {
    #[allow(clippy::clone_on_copy)]
    let n = n.clone();
    let id = n.id();
    let i = match sl.id_ix(id) {
        Some(i) => i,
        None => return e(format!("unknown node {id:?}")),
    };
    if !std::ptr::eq(n.forest(), &sl.f) {
        return e("the node belongs to another forest");
    }
    match sl.f.data(id) {
        Some(t) if std::ptr::eq(t, n.data()) => Ok(i),
        _ => e(format!("data of the yielded node #{i} is not its data")),
    }
}

/// Neighbor accessors of a node.
pub fn accessors<I: Kind>(sl: &Slot<I>, i: usize) -> R {
    let id = sl.ids[i];
    let n = match sl.f.node(id) {
        Some(n) => n,
        None => return e(format!("#{i} is not found")),
    };
    let m = &sl.m.nodes[i];
    let sib = |off: isize| -> Option<usize> {
        let (p, k) = sl.m.pos(i)?;
        let k = k as isize + off;
        if k < 0 {
            return None;
        }
        sl.m.nodes[p].children.get(k as usize).copied()
    };
    let spec: [(&str, Option<usize>, Option<I>, Option<N<'_, I>>); 5] = [
        ("parent", m.parent, n.parent_id(), n.parent()),
        ("next_sibling", sib(1), n.next_sibling_id(), n.next_sibling()),
        ("prev_sibling", sib(-1), n.prev_sibling_id(), n.prev_sibling()),
        ("first_child", m.children.first().copied(), n.first_child_id(), n.first_child()),
        ("last_child", m.children.last().copied(), n.last_child_id(), n.last_child()),
    ];
    for (name, want, gid, gn) in spec {
        let want_id = want.map(|x| sl.ids[x]);
        if gid != want_id {
            return e(format!("{name}_id of #{i} is {gid:?}, specified {want_id:?}"));
        }
        let gi = match gn {
            Some(x) => Some(conv(sl, x)?),
            None => None,
        };
        if gi != want {
            return e(format!("{name} of #{i} is {gi:?}, specified {want:?}"));
        }
    }
    let want = m.children.first().copied().zip(m.children.last().copied());
    let gid = n.first_last_child_id();
    if gid != want.map(|(a, b)| (sl.ids[a], sl.ids[b])) {
        return e(format!("first_last_child_id of #{i} is {gid:?}, specified {want:?}"));
    }
    let gn = match n.first_last_child() {
        Some((a, b)) => Some((conv(sl, a)?, conv(sl, b)?)),
        None => None,
    };
    if gn != want {
        return e(format!("first_last_child of #{i} is {gn:?}, specified {want:?}"));
    }
    Ok(())
}

/// Drives a double-ended iterator against the specified sequence.
pub struct Driver<'r> {
    pub rng: &'r mut Rng,
    pub events: &'r mut u64,
}

type Back<It, X> = (
    fn(&mut It) -> Option<X>,
    fn(&It) -> Option<X>,
    fn(&mut It, usize) -> Option<X>,
    fn(It) -> Vec<X>,
);

impl Driver<'_> {
    /// `peek`/`back` are optional capabilities of the iterator.
    #[allow(clippy::too_many_arguments)]
    pub fn drive<It, Y, X>(
        &mut self,
        what: &str,
        mk: &dyn Fn() -> It,
        spec: &[X],
        conv: &dyn Fn(Y) -> Result<X, String>,
        peek: Option<fn(&It) -> Option<Y>>,
        back: Option<Back<It, Y>>,
    ) -> R
    where
        It: Iterator<Item = Y> + Clone,
        X: PartialEq + fmt::Debug + Clone,
    {
        let mode = if back.is_some() { self.rng.below(6) } else { 0 };
        let mut it = mk();
        let mut lo = 0usize;
        let mut hi = spec.len();
        let ctx = |lo: usize, hi: usize, t: &str| format!("{what} ({lo} taken, {hi} end): {t}");
        let cv = |y: Option<Y>, lo: usize, hi: usize| -> Result<Option<X>, String> {
            match y {
                None => Ok(None),
                Some(y) => match conv(y) {
                    Ok(x) => Ok(Some(x)),
                    Err(m) => e(ctx(lo, hi, &m)),
                },
            }
        };
        let n = spec.len();
        // Extra probes cost O(n) each at worst; bound their number.
        let probe = if n <= 16 { 3 } else { (n / 6).max(4) };
        let mut tail = 0;
        let peeking = self.rng.chance(3, 4);
        loop {
            let rem = hi - lo;
            // Probes.
            if self.rng.below(probe) == 0 {
                let (l, h) = it.size_hint();
                if l > rem || h.map_or(false, |h| h < rem) {
                    return e(ctx(lo, hi, &format!("size_hint ({l}, {h:?}) excludes {rem}")));
                }
                match self.rng.below(6) {
                    0 => {
                        let c = it.clone().take(rem + 2);
                        let mut k = lo;
                        for y in c {
                            *self.events += 1;
                            let x = cv(Some(y), lo, hi)?;
                            if k >= hi || x.as_ref() != Some(&spec[k]) {
                                return e(ctx(lo, hi, &format!("clone yields {x:?} as item {k}")));
                            }
                            k += 1;
                        }
                        if k != hi {
                            return e(ctx(lo, hi, &format!("clone stops at item {k}")));
                        }
                    }
                    1 => {
                        if let Some((nb, ..)) = back {
                            let mut c = it.clone();
                            let mut k = hi;
                            loop {
                                let y = cv(nb(&mut c), lo, hi)?;
                                *self.events += 1;
                                if k == lo {
                                    if y.is_some() {
                                        return e(ctx(lo, hi, "clone yields too many from the back"));
                                    }
                                    break;
                                }
                                k -= 1;
                                if y.as_ref() != Some(&spec[k]) {
                                    return e(ctx(
                                        lo,
                                        hi,
                                        &format!("clone yields {y:?} from the back as item {k}"),
                                    ));
                                }
                            }
                        }
                    }
                    2 => {
                        let c = it.clone().count();
                        if c != rem {
                            return e(ctx(lo, hi, &format!("count() is {c}")));
                        }
                    }
                    3 => {
                        let x = cv(it.clone().last(), lo, hi)?;
                        let w = if rem == 0 { None } else { Some(&spec[hi - 1]) };
                        if x.as_ref() != w {
                            return e(ctx(lo, hi, &format!("last() is {x:?}, specified {w:?}")));
                        }
                    }
                    4 => {
                        let rev = back.filter(|_| self.rng.chance(1, 2));
                        let (how, got) = match rev {
                            Some((.., rf)) => ("rfold", rf(it.clone())),
                            None => {
                                let mut v = Vec::new();
                                let c = it.clone();
                                let how = match self.rng.below(9) {
                                    0 => {
                                        c.for_each(|y| v.push(y));
                                        "for_each"
                                    }
                                    1 => {
                                        v = c.collect();
                                        "collect"
                                    }
                                    2 => {
                                        v.extend(c);
                                        "extend"
                                    }
                                    3 => {
                                        let mut c = c;
                                        let _ = c.try_for_each(|y| -> Result<(), ()> {
                                            v.push(y);
                                            Ok(())
                                        });
                                        "try_for_each"
                                    }
                                    4 => {
                                        let mut c = c;
                                        c.any(|y| {
                                            v.push(y);
                                            false
                                        });
                                        "any"
                                    }
                                    5 => {
                                        let mut c = c;
                                        // Stopped once on the way.
                                        let stop = self.rng.below(rem + 1);
                                        let _ = c.find(|_| false).map(|y| v.push(y));
                                        let mut c = it.clone();
                                        c.position(|y| {
                                            v.push(y);
                                            v.len() == stop
                                        });
                                        v.extend(c);
                                        "find, position"
                                    }
                                    6 => {
                                        let mut c = c;
                                        c.all(|y| {
                                            v.push(y);
                                            true
                                        });
                                        "all"
                                    }
                                    7 => {
                                        let mut c = c;
                                        let k = self.rng.below(rem + 1);
                                        v.extend(c.by_ref().take(k));
                                        v.extend(c.step_by(1));
                                        "take, step_by"
                                    }
                                    _ => {
                                        v = c.fold(v, |mut v, y| {
                                            v.push(y);
                                            v
                                        });
                                        "fold"
                                    }
                                };
                                (how, v)
                            }
                        };
                        *self.events += got.len() as u64;
                        if got.len() != rem {
                            let m = format!("{how}() visits {}", got.len());
                            return e(ctx(lo, hi, &m));
                        }
                        for (k, y) in got.into_iter().enumerate() {
                            let w = if rev.is_some() { hi - 1 - k } else { lo + k };
                            let x = cv(Some(y), lo, hi)?;
                            if x.as_ref() != Some(&spec[w]) {
                                let m = format!("{how}() visits {x:?} as item {w}");
                                return e(ctx(lo, hi, &m));
                            }
                        }
                    }
                    _ => {
                        let mut c = it.clone();
                        let k = self.rng.below(rem + 2);
                        let x = cv(c.nth(k), lo, hi)?;
                        let w = if k < rem { Some(&spec[lo + k]) } else { None };
                        if x.as_ref() != w {
                            return e(ctx(lo, hi, &format!("nth({k}) is {x:?}, specified {w:?}")));
                        }
                        let x = cv(c.next(), lo, hi)?;
                        let w = if k + 1 < rem { Some(&spec[lo + k + 1]) } else { None };
                        if x.as_ref() != w {
                            return e(ctx(lo, hi, &format!("after nth({k}): {x:?}, specified {w:?}")));
                        }
                    }
                }
            }
            if let Some(pk) = peek.filter(|_| peeking) {
                let x = cv(pk(&it), lo, hi)?;
                let w = if rem == 0 { None } else { Some(&spec[lo]) };
                if x.as_ref() != w {
                    return e(ctx(lo, hi, &format!("peek() is {x:?}, specified {w:?}")));
                }
            }
            if let Some((_, pb, ..)) = back.filter(|_| peeking) {
                let x = cv(pb(&it), lo, hi)?;
                let w = if rem == 0 { None } else { Some(&spec[hi - 1]) };
                if x.as_ref() != w {
                    return e(ctx(lo, hi, &format!("peek_back() is {x:?}, specified {w:?}")));
                }
            }
            if rem == 0 {
                // Fused.
                let y = if back.is_some() && self.rng.chance(1, 2) {
                    back.and_then(|(nb, ..)| nb(&mut it))
                } else {
                    it.next()
                };
                *self.events += 1;
                if let Some(x) = cv(y, lo, hi)? {
                    return e(ctx(lo, hi, &format!("yields {x:?} after the end")));
                }
                tail += 1;
                if tail >= 3 {
                    return Ok(());
                }
                continue;
            }
            let from_back = match mode {
                0 | 1 => false,
                2 => true,
                3 => self.rng.chance(1, 2),
                4 => (lo + n - hi) % 2 == 1,
                _ => self.rng.chance(1, 8),
            };
            let far = if self.rng.chance(1, 6) { rem } else { rem.min(4) };
            let skip = if self.rng.below(12) == 0 { self.rng.below(far) } else { 0 };
            *self.events += 1;
            if from_back {
                let (nb, _, nthb, _) = match back {
                    Some(b) => b,
                    None => return e("harness: no back"),
                };
                let y = if skip > 0 { nthb(&mut it, skip) } else { nb(&mut it) };
                hi -= skip + 1;
                let x = cv(y, lo, hi)?;
                if x.as_ref() != Some(&spec[hi]) {
                    return e(ctx(
                        lo,
                        hi,
                        &format!("next_back() is {x:?}, specified {:?}", spec[hi]),
                    ));
                }
            } else {
                let y = if skip > 0 { it.nth(skip) } else { it.next() };
                lo += skip + 1;
                let x = cv(y, lo, hi)?;
                if x.as_ref() != Some(&spec[lo - 1]) {
                    return e(ctx(
                        lo,
                        hi,
                        &format!("next() is {x:?}, specified {:?}", spec[lo - 1]),
                    ));
                }
            }
        }
    }
}

fn back_of<It: DoubleEndedIterator>(
    pb: fn(&It) -> Option<It::Item>,
) -> Option<Back<It, It::Item>> {
    Some((
        |it| it.next_back(),
        pb,
        |it, k| it.nth_back(k),
        |it| {
            it.rfold(Vec::new(), |mut v, y| {
                v.push(y);
                v
            })
        },
    ))
}

/// Iterators over ancestors, siblings and children.
pub fn lines<I: Kind>(sl: &Slot<I>, i: usize, d: &mut Driver<'_>) -> R {
    let id = sl.ids[i];
    let n = match sl.f.node(id) {
        Some(n) => n,
        None => return e(format!("#{i} is not found")),
    };
    let via_node = d.rng.chance(1, 2);
    let m = &sl.m;
    let mut anc = vec![i];
    let mut cur = i;
    while let Some(p) = m.nodes[cur].parent {
        anc.push(p);
        cur = p;
    }
    let (sibs, at) = match m.pos(i) {
        Some((p, k)) => (m.nodes[p].children.clone(), k),
        None => (vec![i], 0),
    };
    let c = |x: N<'_, I>| conv(sl, x);
    for or_self in [false, true] {
        let f = &sl.f;
        let mk = || match (via_node, or_self) {
            (false, false) => f.ancestors(id),
            (false, true) => f.ancestors_or_self(id),
            (true, false) => n.ancestors(),
            (true, true) => n.ancestors_or_self(),
        };
        let k = usize::from(!or_self);
        d.drive(
            &format!("ancestors of #{i} (self: {or_self})"),
            &mk,
            &anc[k..],
            &c,
            Some(|x| x.peek()),
            None,
        )?;
        let mk = || match (via_node, or_self) {
            (false, false) => f.following_siblings(id),
            (false, true) => f.following_siblings_or_self(id),
            (true, false) => n.following_siblings(),
            (true, true) => n.following_siblings_or_self(),
        };
        d.drive(
            &format!("following siblings of #{i} (self: {or_self})"),
            &mk,
            &sibs[at + k..],
            &c,
            Some(|x| x.peek()),
            back_of(|x: &treena::dynamic::Siblings<'_, I, Tok>| x.peek_back()),
        )?;
        let mk = || match (via_node, or_self) {
            (false, false) => f.preceding_siblings(id),
            (false, true) => f.preceding_siblings_or_self(id),
            (true, false) => n.preceding_siblings(),
            (true, true) => n.preceding_siblings_or_self(),
        };
        // From the first sibling to the node: document order.
        d.drive(
            &format!("preceding siblings of #{i} (self: {or_self})"),
            &mk,
            &sibs[..at + usize::from(or_self)],
            &c,
            Some(|x| x.peek()),
            back_of(|x: &treena::dynamic::Siblings<'_, I, Tok>| x.peek_back()),
        )?;
    }
    let f = &sl.f;
    let mk = || if via_node { n.children() } else { f.children(id) };
    d.drive(
        &format!("children of #{i}"),
        &mk,
        &m.nodes[i].children,
        &c,
        Some(|x| x.peek()),
        back_of(|x: &treena::dynamic::Siblings<'_, I, Tok>| x.peek_back()),
    )
}

fn ev<I: Kind>(sl: &Slot<I>, x: DftEvent<N<'_, I>>) -> Result<(bool, usize), String> {
    // The converted event is of the same kind, with the same value.
    let id = x.map(|n| n.id());
    let r = match x {
        DftEvent::Open(n) => (true, conv(sl, n)?),
        DftEvent::Close(n) => (false, conv(sl, n)?),
    };
    if id != if r.0 { DftEvent::Open(sl.ids[r.1]) } else { DftEvent::Close(sl.ids[r.1]) } {
        return e(format!("map() of an event of #{} gives {id:?}", r.1));
    }
    Ok(r)
}

pub fn dft<I: Kind>(sl: &Slot<I>, i: usize, d: &mut Driver<'_>) -> R {
    let id = sl.ids[i];
    let n = match sl.f.node(id) {
        Some(n) => n,
        None => return e(format!("#{i} is not found")),
    };
    let via_node = d.rng.chance(1, 2);
    let spec: Vec<(bool, usize)> =
        sl.m.events(i, usize::MAX).into_iter().map(|(o, x, _)| (o, x)).collect();
    let f = &sl.f;
    let mk = || if via_node { n.depth_first_traverse() } else { f.depth_first_traverse(id) };
    d.drive(
        &format!("depth-first traversal of #{i}"),
        &mk,
        &spec,
        &|x| ev(sl, x),
        Some(|x| x.peek()),
        back_of(|x: &treena::dynamic::DepthFirstTraverse<'_, I, Tok>| x.peek_back()),
    )
}

pub fn shallow<I: Kind>(sl: &Slot<I>, i: usize, limit: Option<usize>, d: &mut Driver<'_>) -> R {
    let id = sl.ids[i];
    let n = match sl.f.node(id) {
        Some(n) => n,
        None => return e(format!("#{i} is not found")),
    };
    let via_node = d.rng.chance(1, 2);
    let spec: Vec<(bool, usize, usize)> = sl.m.events(i, limit.unwrap_or(usize::MAX));
    let f = &sl.f;
    let mk = || {
        if via_node {
            n.shallow_depth_first_traverse(limit)
        } else {
            f.shallow_depth_first_traverse(id, limit)
        }
    };
    let md = mk().max_depth();
    if md != limit.filter(|&l| l != usize::MAX) && md != limit {
        return e(format!("max_depth() is {md:?} for the limit {limit:?}"));
    }
    d.drive(
        &format!("depth-first traversal of #{i} limited to {limit:?}"),
        &mk,
        &spec,
        &|(x, dep)| ev(sl, x).map(|(o, k)| (o, k, dep)),
        Some(|x| x.peek()),
        back_of(|x: &treena::dynamic::ShallowDepthFirstTraverse<'_, I, Tok>| x.peek_back()),
    )
}

pub fn bfs<I: Kind>(sl: &Slot<I>, i: usize, d: &mut Driver<'_>) -> R {
    let id = sl.ids[i];
    let n = match sl.f.node(id) {
        Some(n) => n,
        None => return e(format!("#{i} is not found")),
    };
    let via_node = d.rng.chance(1, 2);
    let spec = sl.m.bfs(i);
    let f = &sl.f;
    let mk = || {
        if via_node {
            n.breadth_first_traverse()
        } else {
            f.breadth_first_traverse(id)
        }
    };
    let c = |(x, dep): (N<'_, I>, usize)| conv(sl, x).map(|k| (k, dep));
    if spec.len() <= 600 {
        d.drive(&format!("breadth-first traversal of #{i}"), &mk, &spec, &c, None, None)?;
    }
    let mk = || {
        if via_node {
            n.allocating_breadth_first_traverse()
        } else {
            f.allocating_breadth_first_traverse(id)
        }
    };
    d.drive(
        &format!("allocating breadth-first traversal of #{i}"),
        &mk,
        &spec,
        &c,
        Some(|x| x.peek()),
        None,
    )
}

/// Forms printed by the derived implementations, of which only the ends are seen.
struct Count(usize);
impl fmt::Write for Count {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.0 += s.len();
        Ok(())
    }
}

/// `Debug` of everything that can be printed.
pub fn forms<I: Kind>(sl: &mut Slot<I>, i: usize, d: &mut Driver<'_>) -> R {
    let id = sl.ids[i];
    let mut n = 0;
    let mut go = |x: &dyn fmt::Debug| -> R {
        let mut c = Count(0);
        n += 1;
        let r = if n % 3 == 0 { write!(c, "{x:#?}") } else { write!(c, "{x:?}") };
        match r {
            Ok(()) if c.0 > 0 => Ok(()),
            r => e(format!("Debug form {n}: {r:?} after {} bytes", c.0)),
        }
    };
    go(&sl.f)?;
    if let Some(m) = sl.f.node_mut(id) {
        go(&m)?;
        go(&m.node())?;
    }
    let f = &sl.f;
    if let Some(x) = f.node(id) {
        go(&x)?;
        let mut t = f.depth_first_traverse(id);
        go(&t)?;
        go(&t.peek())?;
        let (_, _) = (t.next(), t.next_back());
        go(&t)?;
        let mut t = f.shallow_depth_first_traverse(id, Some(1));
        go(&t)?;
        let _ = (t.next(), t.next_back(), t.next());
        go(&t)?;
        let mut t = f.breadth_first_traverse(id);
        go(&t)?;
        let _ = (t.next(), t.next(), t.next());
        go(&t)?;
        let mut t = f.allocating_breadth_first_traverse(id);
        go(&t)?;
        let _ = (t.next(), t.next(), t.next());
        go(&t)?;
        let mut t = f.ancestors(id);
        let _ = t.next();
        go(&t)?;
        let mut t = f.children(id);
        go(&t)?;
        let _ = (t.next(), t.next_back());
        go(&t)?;
        go(&f.following_siblings(id))?;
        go(&f.preceding_siblings_or_self(id))?;
    }
    go(&id)?;
    *d.events += n;
    Ok(())
}

/// Writer that fails after some bytes.
struct Limited {
    left: usize,
}
impl fmt::Write for Limited {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if s.len() > self.left {
            return Err(fmt::Error);
        }
        self.left -= s.len();
        Ok(())
    }
}

/// Collects output, up to a limit.
struct Sink {
    out: String,
    max: usize,
}
impl fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.out.len() + s.len() > self.max {
            return Err(fmt::Error);
        }
        self.out.push_str(s);
        Ok(())
    }
}

pub fn print<I: Kind>(sl: &mut Slot<I>, i: usize, d: &mut Driver<'_>) -> R {
    let id = sl.ids[i];
    for debug in [false, true] {
        let route = d.rng.below(3);
        let spec = sl.m.render(i, debug);
        let size: usize = spec.iter().map(|l| l.len() + 1).sum();
        // Trailing whitespace is not specified: allow for it.
        let max = size * 2 + spec.len() * 64 + 4096 + sl.m.live * 8 * spec.len().min(64);
        let mut w = Sink { out: String::new(), max };
        let cap = d.rng.below(size.max(1));
        let mut short = Limited { left: cap };
        let (alt, flags) = (d.rng.chance(1, 4), d.rng.chance(1, 8));
        let (r, r2) = {
            let mut go = |p: treena::dynamic::DebugPrint<'_, I, Tok>| {
                let r = match (debug, alt) {
                    (false, false) if flags => write!(w, "{p:>11.3}"),
                    (true, true) if flags => write!(w, "{p:+#011?}"),
                    (false, false) => write!(w, "{p}"),
                    (false, true) => write!(w, "{p:#}"),
                    (true, false) => write!(w, "{p:?}"),
                    (true, true) => write!(w, "{p:#?}"),
                };
                let r2 = if debug { write!(short, "{p:?}") } else { write!(short, "{p}") };
                (r, r2)
            };
            match route {
                0 => go(sl.f.debug_print(id)),
                1 => match sl.f.node(id) {
                    Some(n) => go(n.debug_print()),
                    None => return e("node not found"),
                },
                _ => match sl.f.node_mut(id) {
                    Some(n) => go(n.debug_print()),
                    None => return e("node not found"),
                },
            }
        };
        *d.events += spec.len() as u64;
        if r.is_err() {
            return e(format!(
                "printing #{i} (debug: {debug}) failed or is much longer than specified: {:?}",
                w.out.chars().take(2000).collect::<String>()
            ));
        }
        let mut got: Vec<&str> = w.out.split('\n').collect();
        for (k, l) in got.iter_mut().enumerate() {
            // Whether there are spaces before no text is not specified.
            if spec.get(k).map_or(true, |s| s != l && s == l.trim_end()) {
                *l = l.trim_end();
            }
        }
        // There may or may not be a line break at the very end.
        if got.len() == spec.len() + 1 && got.last() == Some(&"") {
            got.pop();
        }
        if got != spec {
            return e(format!("print of #{i} (debug: {debug}) is {got:#?}, specified {spec:#?}"));
        }
        if cap < w.out.len() && r2.is_ok() {
            return e(format!("printing #{i} into a failing writer reported success"));
        }
    }
    Ok(())
}
