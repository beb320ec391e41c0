//! Threads that read one forest at a time, and forests that move between threads.
//!
//! Usage: treena-threads SEED ROUNDS THREADS READS MAXNODES OUT

use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::ExitCode;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Barrier, Mutex};

use treena::dynamic::{DftEvent, Forest, InsertAs, Node, NodeId, NodeIdU32, NodeIdU8, NodeIdUsize, StructureError};
use treena_base::kinds::{StructId, TupleId};
use treena_base::rng::{hash2, mix, Rng};
use treena_base::trees;

const KINDS: u64 = 16;

/// A forest with a history; the same seed gives the same forest.
fn make<I: NodeId>(seed: u64, max: usize) -> (Forest<I, u64>, Vec<I>) {
    let mut r = Rng::new(seed);
    let n = 2 + r.below(max);
    let fam = trees::FAMILIES[r.below(trees::FAMILIES.len())];
    let mut f = Forest::new();
    let mut ids = trees::build(&mut f, &trees::family(fam, n, seed), |i| i as u64);
    ids.push(f.create_root(1 << 20));
    let s = f.create_insert(2 << 20, InsertAs::FirstChildOf(ids[n]));
    ids.push(s);
    for k in 0..r.below(8) {
        let _ = change(&mut f, &mut ids, seed ^ k as u64);
    }
    (f, ids)
}

/// A change; a number that tells how it ended.
fn change<I: NodeId>(f: &mut Forest<I, u64>, ids: &mut Vec<I>, seed: u64) -> u64 {
    let mut r = Rng::new(seed);
    let (a, b) = (ids[r.below(ids.len())], ids[r.below(ids.len())]);
    let room = ids.len() < 150;
    let e = |r: Result<(), StructureError>| match r {
        Ok(()) => 1,
        Err(StructureError::AncestorDescendantLoop) => 2,
        Err(StructureError::UnorderableSiblings) => 3,
        Err(_) => 4,
    };
    catch_unwind(AssertUnwindSafe(|| match r.below(9) {
        0 => e(f.insert(a, InsertAs::LastChildOf(b))),
        1 => e(f.insert(a, InsertAs::PreviousSiblingOf(b))),
        2 => e(f.detach_single(a)),
        3 if a != ids[0] && r.chance(1, 3) => {
            let mut h = 5;
            if r.chance(1, 2) {
                f.remove_hooked(a, |v| h = hash2(h, v));
            } else {
                f.remove_hooked_panic_safe(a, |v| h = hash2(h, v));
            }
            h
        }
        4 if room && f.node(b).is_some() => {
            ids.push(f.create_insert(seed, InsertAs::FirstChildOf(b)));
            6
        }
        5 => f.data_mut(a).map_or(7, |x| {
            *x += 1;
            *x
        }),
        6 => {
            f.detach(a);
            8
        }
        7 if ids.len() < 60 && f.node(a).is_some() => {
            let mut new = vec![];
            let root = f.clone_local_tree_with_id_mapping(a, |_, n| new.push(n));
            if ids.len() + new.len() < 150 {
                ids.extend(new);
                9
            } else {
                f.remove(root);
                10
            }
        }
        _ => e(f.insert(a, InsertAs::FirstChildOf(b))),
    }))
    .unwrap_or(99)
}

fn fold<T>(mut it: impl DoubleEndedIterator<Item = T>, mut pat: u64, f: impl Fn(T) -> u64) -> u64 {
    let mut h = 7;
    for _ in 0..3000 {
        let x = if pat & 1 == 0 { it.next() } else { it.next_back() };
        pat = pat.rotate_right(1);
        match x {
            Some(x) => h = hash2(h, f(x)),
            None => break,
        }
    }
    h
}

/// Does one read; a number that tells everything it saw.
fn read<I: NodeId>(f: &Forest<I, u64>, ids: &[I], seed: u64) -> u64 {
    let mut r = Rng::new(seed);
    let a = ids[r.below(ids.len())];
    let pat = r.next();
    let kind = seed % KINDS;
    catch_unwind(AssertUnwindSafe(|| {
        let Some(n) = f.node(a) else { return 1 };
        let d = |x: Node<'_, I, u64>| *x.data();
        let o = |x: Option<Node<'_, I, u64>>| x.map_or(3, |x| mix(*x.data() + 9));
        let e = |x: DftEvent<Node<'_, I, u64>>| match x {
            DftEvent::Open(x) => *x.data() * 2,
            DftEvent::Close(x) => *x.data() * 2 + 1,
        };
        match kind {
            0..=3 => {
                let mut h = *n.data();
                for x in [n.parent(), n.next_sibling(), n.prev_sibling(), n.first_child(), n.last_child()] {
                    h = hash2(h, o(x));
                }
                let (p, q) = n.first_last_child().map_or((None, None), |(p, q)| (Some(p), Some(q)));
                hash2(h, o(p) ^ o(q).rotate_left(9))
            }
            4 => fold(f.depth_first_traverse(a), pat, e),
            5 => fold(n.shallow_depth_first_traverse(Some(r.below(6))), pat, |(x, k)| hash2(e(x), k as u64)),
            6 => fold(f.shallow_depth_first_traverse(a, None), 0, |(x, k)| hash2(e(x), k as u64)),
            7 => f.breadth_first_traverse(a).take(200).fold(5, |h, (x, k)| hash2(h, d(x) ^ (k as u64) << 40)),
            8 => f.allocating_breadth_first_traverse(a).fold(5, |h, (x, k)| hash2(h, d(x) ^ (k as u64) << 40)),
            9 => fold(n.children(), pat, d),
            10 => fold(n.following_siblings(), pat, d) ^ fold(n.preceding_siblings_or_self(), pat, d).rotate_left(7),
            11 => fold(n.preceding_siblings(), pat, d),
            12 => f.ancestors_or_self(a).fold(5, |h, x| hash2(h, d(x))),
            13 => {
                let mut s = String::new();
                let _ = write!(s, "{}{:?}", f.debug_print(a), n.debug_print());
                s.bytes().fold(5, |h, b| (h ^ u64::from(b)).wrapping_mul(0x1_0000_01b3))
            }
            14 => {
                let mut g = Forest::<I, u64>::new();
                let id = g.clone_foreign_tree(n);
                fold(g.depth_first_traverse(id), 0, e)
            }
            _ => {
                let g = f.clone();
                fold(g.depth_first_traverse(a), pat, e)
            }
        }
    }))
    .unwrap_or(2)
}

#[derive(Default)]
struct Out {
    reads: u64,
    moves: u64,
    rounds: u64,
    overlaps: u64,
    by: BTreeMap<u64, u64>,
    bad: Option<String>,
    orders: std::collections::HashSet<u64>,
}

fn readers<I: NodeId + Send + Sync>(name: &str, seed: u64, threads: usize, reads: usize, max: usize, out: &mut Out)
where
    I::Internal: Send + Sync,
{
    let (f, ids) = make::<I>(seed, max);
    // What one thread sees, in a forest of its own.
    let (own, own_ids) = make::<I>(seed, max);
    let plan: Vec<Vec<u64>> = (0..threads)
        .map(|t| {
            let mut r = Rng::new(hash2(seed, t as u64 + 99));
            // Some threads repeat few reads, to collide with each other.
            let few: Vec<u64> = (0..3).map(|_| r.next()).collect();
            (0..reads).map(|_| if t % 2 == 0 { r.next() / KINDS * KINDS + if r.chance(2, 3) { 0 } else { r.next() % KINDS } } else { few[r.below(3)] }).collect()
        })
        .collect();
    let mut want: std::collections::HashMap<u64, u64> = Default::default();
    for s in plan.iter().flatten() {
        want.entry(*s).or_insert_with(|| read(&own, &own_ids, *s));
        *out.by.entry(*s % KINDS).or_insert(0) += 1;
    }
    let (barrier, active, both, stop) = (Barrier::new(threads), AtomicUsize::new(0), AtomicU64::new(0), AtomicBool::new(false));
    let bad: Mutex<Option<String>> = Mutex::new(None);
    // Only relaxed accesses: the monitor must not order what it watches.
    let order = AtomicU64::new(0);
    let (f, ids, want) = (&f, &ids, &want);
    std::thread::scope(|s| {
        for (t, p) in plan.iter().enumerate() {
            let (barrier, active, both, stop, bad, order) = (&barrier, &active, &both, &stop, &bad, &order);
            s.spawn(move || {
                barrier.wait();
                let mut jitter = mix(seed ^ t as u64);
                let mut seen = 0;
                for (k, &q) in p.iter().enumerate() {
                    if stop.load(Ordering::Relaxed) {
                        break;
                    }
                    if active.fetch_add(1, Ordering::Relaxed) > 0 {
                        seen += 1;
                    }
                    let v = read(f, ids, q);
                    active.fetch_sub(1, Ordering::Relaxed);
                    if v != want[&q] {
                        stop.store(true, Ordering::Relaxed);
                        *bad.lock().expect("lock") = Some(format!("thread {t}, read {k} of kind {} differs from what a single thread sees", q % KINDS));
                    }
                    jitter = mix(jitter);
                    if jitter % 64 == 0 {
                        std::thread::yield_now();
                    }
                    if k % 16 == 0 {
                        order.store(hash2(order.load(Ordering::Relaxed), t as u64), Ordering::Relaxed);
                    }
                }
                both.fetch_add(seen, Ordering::Relaxed);
            });
        }
    });
    out.reads += (threads * reads) as u64;
    out.overlaps += both.load(Ordering::Relaxed);
    out.orders.insert(hash2(seed, order.load(Ordering::Relaxed)));
    if let Some(m) = bad.into_inner().expect("lock") {
        out.bad.get_or_insert(format!("{name} (seed {seed}, {threads} threads): {m}"));
    }
}

/// A forest is changed by threads in turn, read by several in between.
fn travel<I: NodeId + Send + Sync + 'static>(name: &str, seed: u64, hops: u64, max: usize, out: &mut Out)
where
    I::Internal: Send + Sync,
{
    let (mut f, mut ids) = make::<I>(seed, max);
    let (mut own, mut own_ids) = make::<I>(seed, max);
    for h in 0..hops {
        let s = hash2(seed, h);
        let (g, i, x) = std::thread::spawn(move || {
            let x = change(&mut f, &mut ids, s);
            (f, ids, x)
        })
        .join()
        .expect("no panic");
        (f, ids) = (g, i);
        let y = change(&mut own, &mut own_ids, s);
        let (v, w) = std::thread::scope(|sc| {
            let (x, y) = (&f, &ids);
            let a = sc.spawn(move || read(x, y, s >> 1));
            let b = sc.spawn(move || read(x, y, s >> 2));
            (a.join().unwrap_or(0), b.join().unwrap_or(0))
        });
        out.moves += 1;
        if x != y || v != read(&own, &own_ids, s >> 1) || w != read(&own, &own_ids, s >> 2) {
            out.bad.get_or_insert(format!("{name} (seed {seed}): after {h} moves between threads the forest differs from one that stayed"));
        }
    }
}

/// Several threads with forests of their own.
fn apart<I: NodeId + Send + Sync + 'static>(name: &str, seed: u64, threads: usize, steps: u64, max: usize, out: &mut Out)
where
    I::Internal: Send + Sync,
{
    let job = move |t: u64| {
        let (mut f, mut ids) = make::<I>(seed + t, max);
        let mut h = 0;
        for k in 0..steps {
            // Some threads mostly change, others mostly read.
            for j in 0..[1, 20, 5, 20][t as usize % 4] {
                h = hash2(h, change(&mut f, &mut ids, hash2(seed + t, k * 64 + j)));
            }
            h = hash2(h, read(&f, &ids, mix(hash2(seed, k))));
        }
        h
    };
    let gate = std::sync::Arc::new(Barrier::new(threads));
    let hs: Vec<_> = (0..threads as u64)
        .map(|t| {
            let gate = gate.clone();
            std::thread::spawn(move || {
                gate.wait();
                job(t)
            })
        })
        .collect();
    let got: Vec<u64> = hs.into_iter().map(|h| h.join().unwrap_or(0)).collect();
    out.reads += threads as u64 * steps;
    for (t, g) in got.into_iter().enumerate() {
        if g != job(t as u64) {
            out.bad.get_or_insert(format!("{name} (seed {seed}): thread {t} with a forest of its own sees something else than when it runs alone"));
        }
    }
}

fn round<I: NodeId + Send + Sync + 'static>(name: &str, seed: u64, threads: usize, reads: usize, max: usize, out: &mut Out)
where
    I::Internal: Send + Sync,
{
    readers::<I>(name, seed, threads, reads, max, out);
    travel::<I>(name, seed, 1 + (reads as u64 / 40).min(20), max, out);
    apart::<I>(name, seed, threads, 1 + (reads as u64 / 10).min(200), max, out);
    out.rounds += 1;
}

fn main() -> ExitCode {
    std::panic::set_hook(Box::new(|_| ()));
    let a: Vec<String> = std::env::args().collect();
    let num = |k: usize| a.get(k).and_then(|x| x.parse::<u64>().ok()).unwrap_or(1);
    let (seed, rounds, threads, reads, max) = (num(1), num(2), num(3) as usize, num(4) as usize, num(5) as usize);
    let mut out = Out::default();
    for k in 0..rounds {
        let s = hash2(seed, k);
        match k % 5 {
            0 => round::<NodeIdUsize>("usize", s, threads, reads, max, &mut out),
            1 => round::<NodeIdU8>("u8", s, threads, reads, max.min(100), &mut out),
            2 => round::<NodeIdU32>("u32", s, threads, reads, max, &mut out),
            3 => round::<TupleId>("tuple(usize)", s, threads, reads, max, &mut out),
            _ => round::<StructId>("struct(u16)", s, threads, reads, max, &mut out),
        }
        if out.bad.is_some() {
            break;
        }
    }
    let by: Vec<String> = out.by.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect();
    if let Some(f) = a.get(6) {
        let _ = std::fs::write(f, format!(
            "{{\"reads\":{},\"moves\":{},\"rounds\":{},\"overlapping\":{},\"orders\":{},\"by_kind\":{{{}}}}}",
            out.reads, out.moves, out.rounds, out.overlaps, out.orders.len(), by.join(",")
        ));
    }
    if let Some(m) = out.bad {
        println!("VIOLATED {m}");
        return ExitCode::from(1);
    }
    ExitCode::SUCCESS
}
