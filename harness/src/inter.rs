//! Exhaustive interleavings of the two ends of iterators, on all small forests.

use treena::dynamic::{DftEvent, NodeIdUsize};

use crate::gen;
use crate::model::Model;
use crate::ops::Op;
use crate::tok::{self, Tok};
use crate::world::{catch, Caught, Slot, World};

type Id = NodeIdUsize;
type N<'a> = treena::dynamic::Node<'a, Id, Tok>;

#[derive(Default)]
pub struct Report {
    pub trees: u64,
    pub sequences: u64,
    pub interleavings: u64,
    pub steps: u64,
    pub bad: Option<String>,
}

fn key(sl: &Slot<Id>, n: N<'_>) -> usize {
    sl.id_ix(n.id()).unwrap_or(usize::MAX)
}

fn all<It, X>(
    what: &str,
    mk: &dyn Fn() -> It,
    spec: &[X],
    conv: &dyn Fn(It::Item) -> X,
    peek: fn(&It) -> Option<It::Item>,
    peek_back: fn(&It) -> Option<It::Item>,
    maxlen: usize,
    r: &mut Report,
) -> Result<(), String>
where
    It: DoubleEndedIterator,
    X: PartialEq + std::fmt::Debug,
{
    let len = spec.len();
    if len > maxlen {
        return Ok(());
    }
    r.sequences += 1;
    for mask in 0u32..(1 << len) {
        r.interleavings += 1;
        let mut it = mk();
        let (mut lo, mut hi) = (0, len);
        for k in 0..=len {
            r.steps += 1;
            let script = || {
                (0..k)
                    .map(|j| if mask >> j & 1 == 1 { 'b' } else { 'f' })
                    .collect::<String>()
            };
            let p = peek(&it).map(conv);
            let pb = peek_back(&it).map(conv);
            let (w, wb) = if lo < hi {
                (Some(&spec[lo]), Some(&spec[hi - 1]))
            } else {
                (None, None)
            };
            if p.as_ref() != w || pb.as_ref() != wb {
                return Err(format!(
                    "{what}: after {} peek is {p:?} (specified {w:?}), peek_back is {pb:?} (specified {wb:?})",
                    script()
                ));
            }
            if k == len {
                // Exhausted: both ends stay empty.
                let tail = [it.next(), it.next_back(), it.next()];
                if tail.iter().any(|x| x.is_some()) {
                    return Err(format!("{what}: yields more after the end ({})", script()));
                }
                break;
            }
            let (y, w) = if mask >> k & 1 == 1 {
                hi -= 1;
                (it.next_back().map(conv), &spec[hi])
            } else {
                lo += 1;
                (it.next().map(conv), &spec[lo - 1])
            };
            if y.as_ref() != Some(w) {
                return Err(format!(
                    "{what}: after {} then {}: {y:?}, specified {w:?}",
                    script(),
                    if mask >> k & 1 == 1 { 'b' } else { 'f' }
                ));
            }
        }
    }
    Ok(())
}

fn one(pid: &str, sl: &Slot<Id>, m: &Model, i: usize, maxlen: usize, r: &mut Report) -> Result<(), String> {
    let n = match sl.f.node(sl.ids[i]) {
        Some(n) => n,
        None => return Err(format!("#{i} not found")),
    };
    match pid {
        "P10" => {
            let spec: Vec<(bool, usize)> =
                m.events(i, usize::MAX).into_iter().map(|(o, x, _)| (o, x)).collect();
            all(
                &format!("depth-first traversal of #{i}"),
                &|| n.depth_first_traverse(),
                &spec,
                &|x| match x {
                    DftEvent::Open(n) => (true, key(sl, n)),
                    DftEvent::Close(n) => (false, key(sl, n)),
                },
                |x| x.peek(),
                |x| x.peek_back(),
                maxlen,
                r,
            )
        }
        "P11" => {
            let h = m.events(i, usize::MAX).iter().map(|x| x.2).max().unwrap_or(0);
            for lim in (0..=h + 1).map(Some).chain([None, Some(usize::MAX), Some(1 << (usize::BITS / 2)), Some(1 << 16)]) {
                let spec = m.events(i, lim.unwrap_or(usize::MAX));
                all(
                    &format!("depth-first traversal of #{i} limited to {lim:?}"),
                    &|| n.shallow_depth_first_traverse(lim),
                    &spec,
                    &|(x, d)| match x {
                        DftEvent::Open(n) => (true, key(sl, n), d),
                        DftEvent::Close(n) => (false, key(sl, n), d),
                    },
                    |x| x.peek(),
                    |x| x.peek_back(),
                    maxlen,
                    r,
                )?;
            }
            Ok(())
        }
        _ => {
            let c = |x: N<'_>| key(sl, x);
            let (sibs, at) = match m.pos(i) {
                Some((p, k)) => (m.nodes[p].children.clone(), k),
                None => (vec![i], 0),
            };
            all(&format!("children of #{i}"), &|| n.children(), &m.nodes[i].children, &c, |x| x.peek(), |x| x.peek_back(), maxlen, r)?;
            all(&format!("following siblings of #{i}"), &|| n.following_siblings(), &sibs[at + 1..], &c, |x| x.peek(), |x| x.peek_back(), maxlen, r)?;
            all(&format!("following siblings or self of #{i}"), &|| n.following_siblings_or_self(), &sibs[at..], &c, |x| x.peek(), |x| x.peek_back(), maxlen, r)?;
            all(&format!("preceding siblings of #{i}"), &|| n.preceding_siblings(), &sibs[..at], &c, |x| x.peek(), |x| x.peek_back(), maxlen, r)?;
            all(&format!("preceding siblings or self of #{i}"), &|| n.preceding_siblings_or_self(), &sibs[..=at], &c, |x| x.peek(), |x| x.peek_back(), maxlen, r)
        }
    }
}

pub fn run(
    pid: &str,
    level: usize,
    maxlen: usize,
    worker: u64,
    workers: u64,
    tick: &dyn Fn(u64),
) -> Report {
    let mut r = Report::default();
    let mut no = 0u64;
    for n in 1..=level {
        for shape in gen::all_shapes(n) {
            for variant in 0..3 {
                no += 1;
                if no % workers != worker {
                    continue;
                }
                tick(no);
                tok::reset();
                let mut w: World<Id> = World::new(0);
                let ops: Vec<Op> = gen::build_shape(0, &shape, variant);
                let enc = || ops.iter().map(|o| o.encode()).collect::<Vec<_>>().join("; ");
                for o in &ops {
                    if w.exec(o).mis.is_some() {
                        break;
                    }
                }
                let sl = match w.slots[0].as_ref() {
                    Some(s) if crate::observe::structure(s).is_ok() => s,
                    // Construction is not what is monitored here.
                    _ => continue,
                };
                r.trees += 1;
                for i in 0..sl.ids.len() {
                    let res = catch(|| one(pid, sl, &sl.m, i, maxlen, &mut r));
                    let bad = match res {
                        Ok(Ok(())) => None,
                        Ok(Err(m)) => Some(m),
                        Err(Caught::Panic(m)) => Some(format!("panicked: {m}")),
                        Err(Caught::Injected) => None,
                    };
                    if let Some(m) = bad {
                        r.bad = Some(format!("forest [{}]: {m}", enc()));
                        return r;
                    }
                }
            }
        }
    }
    r
}
