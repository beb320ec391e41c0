//! Runs histories under the monitors of a property.

use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;

use crate::gen::{self, Gen, Profile, Weights, BASE};
use crate::kinds::{Kind, StructId, TupleId};
use crate::model::DESTS;
use crate::observe::{self, Driver};
use crate::model::Dest;
use crate::ops::{ChainStep, Inj, NestStep, Op, RemKind, BEYOND};
use crate::rng::{hash2, Rng};
use crate::tok;
use crate::world::{catch, Caught, Class, Mis, OpKind, Scope, Step, World};
use treena::dynamic::{NodeIdU16, NodeIdU32, NodeIdU64, NodeIdU8, NodeIdUsize};

/// Observers of a property, besides the comparison with the model.
#[derive(Clone, Copy, Debug, Default)]
pub struct Obs {
    pub live: bool,
    pub data: bool,
    pub access: bool,
    pub lines: bool,
    pub dft: bool,
    pub shallow: bool,
    pub bfs: bool,
    pub print: bool,
    pub cross: bool,
    pub conserve: bool,
    /// Only panics of the observers count.
    pub panics_only: bool,
}

#[derive(Clone, Copy, Debug)]
pub struct Prop {
    pub id: &'static str,
    pub obs: Obs,
    pub w: Weights,
    pub inject: usize,
    pub dead: usize,
    pub slots: usize,
    /// Share of big trees.
    pub big: usize,
}

const NONE: Obs = Obs {
    live: false,
    data: false,
    access: false,
    lines: false,
    dft: false,
    shallow: false,
    bfs: false,
    print: false,
    cross: false,
    conserve: false,
    panics_only: false,
};

pub fn prop(id: &str) -> Option<Prop> {
    let p = |id, obs, w, inject, dead, slots, big| Prop { id, obs, w, inject, dead, slots, big };
    let shape = Weights { insert: 60, detach1: 12, ..BASE };
    Some(match id {
        "P01" => p("P01", NONE, Weights { insert: 60, detach1: 14, clone: 5, import: 3, ..BASE }, 6, 3, 2, 3),
        "P02" => p("P02", NONE, Weights { insert: 80, create: 30, ..BASE }, 0, 0, 2, 3),
        "P03" => p("P03", Obs { data: true, ..NONE }, Weights { insert: 80, detach1: 20, query: 2, ..BASE }, 0, 15, 2, 2),
        "P04" => p("P04", NONE, Weights { detach: 30, detach1: 40, insert: 40, ..BASE }, 0, 0, 2, 3),
        "P05" => p("P05", Obs { live: true, data: true, conserve: true, ..NONE }, Weights { remove: 26, create: 50, nest: 4, ..BASE }, 0, 1, 2, 3),
        "P06" => p("P06", Obs { live: true, data: true, conserve: true, ..NONE }, Weights { remove: 20, create: 40, clone: 12, import: 10, cloneforest: 4, nest: 8, ..BASE }, 70, 6, 2, 1),
        "P07" => p("P07", Obs { live: true, ..NONE }, Weights { remove: 20, create: 50, clone: 6, cloneforest: 3, drop: 1, set: 2, ..BASE }, 10, 12, 3, 3),
        "P08" => p("P08", Obs { data: true, ..NONE }, Weights { set: 25, remove: 12, ..BASE }, 5, 3, 2, 3),
        "P09" => p("P09", Obs { conserve: true, data: true, ..NONE }, Weights { remove: 20, create: 40, clone: 10, import: 8, cloneforest: 6, drop: 2, set: 6, ..BASE }, 20, 3, 3, 3),
        "P10" => p("P10", Obs { dft: true, ..NONE }, shape, 0, 0, 1, 3),
        "P11" => p("P11", Obs { shallow: true, ..NONE }, shape, 0, 0, 1, 3),
        "P12" => p("P12", Obs { bfs: true, ..NONE }, shape, 0, 0, 1, 3),
        "P13" => p("P13", Obs { access: true, lines: true, ..NONE }, Weights { insert: 60, detach1: 12, clone: 6, import: 4, ..BASE }, 0, 0, 2, 3),
        "P14" => p("P14", Obs { data: true, ..NONE }, Weights { clone: 24, import: 24, remove: 14, set: 4, ..BASE }, 0, 0, 2, 3),
        "P15" => p("P15", Obs { cross: true, data: true, live: true, ..NONE }, Weights { cloneforest: 14, import: 8, set: 8, remove: 12, drop: 2, ..BASE }, 5, 2, 3, 2),
        "P16" => p("P16", NONE, Weights { chain: 40, nest: 40, remove: 12, create: 10, ..BASE }, 10, 6, 2, 1),
        "P17" => p("P17", Obs { print: true, ..NONE }, Weights { set: 12, ..shape }, 0, 0, 1, 2),
        "P19" => p(
            "P19",
            Obs {
                live: true,
                data: true,
                access: true,
                lines: true,
                dft: true,
                shallow: true,
                bfs: true,
                print: true,
                panics_only: true,
                ..NONE
            },
            Weights { query: 14, insert: 60, chain: 6, remove: 16, ..BASE },
            12,
            14,
            3,
            2,
        ),
        // A mix of everything, for the sanitizers.
        "MIX" => p(
            "MIX",
            Obs {
                live: true,
                data: true,
                access: true,
                lines: true,
                dft: true,
                shallow: true,
                bfs: true,
                print: true,
                cross: true,
                conserve: true,
                panics_only: false,
            },
            Weights { query: 4, clone: 8, import: 6, cloneforest: 4, set: 6, drop: 1, ..BASE },
            12,
            6,
            3,
            1,
        ),
        _ => return None,
    })
}

/// Does the mismatch refute the property?
fn in_scope(p: &str, kind: OpKind, class: Class, scope: Scope) -> bool {
    use OpKind as K;
    use Scope as S;
    let effect = matches!(
        scope,
        S::Outcome | S::Panic | S::Struct | S::Integrity | S::Live
    );
    let values = matches!(scope, S::Data | S::Conserve);
    match p {
        "MIX" => true,
        "P01" => matches!(scope, S::Integrity | S::Panic),
        "P02" => matches!(kind, K::Create | K::Insert) && class == Class::Legal && (effect || values || scope == S::Fresh),
        "P03" => {
            ((class == Class::Illegal || (class == Class::Dead && matches!(kind, K::Create | K::Insert | K::Detach)))
                && (effect || values))
                // Legal requests must not be refused.
                || (class == Class::Legal && matches!(kind, K::Create | K::Insert | K::Detach) && matches!(scope, S::Outcome | S::Panic))
        }
        "P04" => kind == K::Detach && class == Class::Legal && (effect || values),
        "P05" => kind == K::Remove && class == Class::Legal && (effect || values || scope == S::Hook),
        "P06" => class == Class::Injected && (effect || values || matches!(scope, S::Hook | S::Fresh | S::Map)),
        "P07" => matches!(scope, S::Fresh | S::Live) || (class == Class::Dead && scope == S::Outcome),
        "P08" => scope == S::Data,
        "P09" => scope == S::Conserve || (kind == K::Remove && scope == S::Hook),
        "P13" => matches!(scope, S::Struct | S::Integrity),
        "P14" => kind == K::CloneTree && class == Class::Legal && (effect || values || matches!(scope, S::Map | S::Fresh)),
        "P15" => kind == K::CloneForest && (effect || values),
        "P16" => matches!(kind, K::Chain | K::Nest) && class != Class::Injected && scope != S::Msg,
        "P19" => matches!(scope, S::Msg | S::Panic) || (class == Class::Dead && scope == S::Outcome),
        _ => false,
    }
}

#[derive(Default)]
pub struct Stats {
    pub histories: u64,
    pub ops: u64,
    pub observations: u64,
    pub events: u64,
    pub abandoned: u64,
    pub harness_panics: u64,
    pub by_kind: BTreeMap<String, u64>,
    pub sigs: HashSet<u64>,
    pub shapes: HashSet<u64>,
    pub max_live: usize,
    pub abandon_samples: Vec<String>,
    pub samples: Vec<String>,
}

impl Stats {
    fn count(&mut self, k: String, n: u64) {
        *self.by_kind.entry(k).or_insert(0) += n;
    }
    pub fn json(&self) -> String {
        let mut s = String::new();
        let _ = write!(
            s,
            "{{\"histories\":{},\"ops\":{},\"observations\":{},\"events\":{},\"abandoned\":{},\"harness_panics\":{},\"max_live\":{}",
            self.histories, self.ops, self.observations, self.events, self.abandoned, self.harness_panics, self.max_live
        );
        s.push_str(",\"by_kind\":{");
        for (i, (k, v)) in self.by_kind.iter().enumerate() {
            let _ = write!(s, "{}\"{k}\":{v}", if i > 0 { "," } else { "" });
        }
        let list = |s: &mut String, name: &str, it: &mut dyn Iterator<Item = u64>| {
            let _ = write!(s, ",\"{name}\":[");
            for (i, x) in it.enumerate() {
                let _ = write!(s, "{}\"{x:x}\"", if i > 0 { "," } else { "" });
            }
            s.push(']');
        };
        s.push('}');
        list(&mut s, "sigs", &mut self.sigs.iter().copied());
        list(&mut s, "shapes", &mut self.shapes.iter().copied());
        for (name, v) in [("abandon_samples", &self.abandon_samples), ("samples", &self.samples)] {
            let _ = write!(s, ",\"{name}\":[");
            for (i, x) in v.iter().enumerate() {
                let _ = write!(s, "{}\"{}\"", if i > 0 { "," } else { "" }, esc(x));
            }
            s.push(']');
        }
        s.push('}');
        s
    }
}

pub use crate::rng::esc;

/// A source of operations.
pub enum Source {
    Gen(Box<Gen>, usize, Vec<Op>),
    List(Vec<Op>),
    /// As a list; the operations before the index only build the initial state.
    Tail(Vec<Op>, usize),
}

#[derive(Clone, Debug)]
pub struct Case {
    pub kind: u8,
    pub obs_seed: u64,
    pub start_val: u64,
}

pub enum Verdict {
    Held,
    Abandoned(String),
    Violated { msg: String, at: usize },
}

pub const KINDS: usize = 7;

pub fn kind_name(k: u8) -> &'static str {
    match k as usize % KINDS {
        0 => NodeIdUsize::NAME,
        1 => NodeIdU8::NAME,
        2 => NodeIdU16::NAME,
        3 => NodeIdU32::NAME,
        4 => NodeIdU64::NAME,
        5 => TupleId::NAME,
        _ => StructId::NAME,
    }
}

pub type OpLog<'a> = Option<&'a mut std::fs::File>;

/// Runs a history; `trail` receives the executed operations.
pub fn run_case(
    p: &Prop,
    c: &Case,
    src: Source,
    st: &mut Stats,
    trail: &mut Vec<Op>,
    log: OpLog<'_>,
) -> Verdict {
    match run_case_once(p, c, src, st, trail, log) {
        // Would it also happen if no user code had panicked?
        Verdict::Violated { msg, at } if msg.contains(AFTER_PANIC) => {
            let calm: Vec<Op> = trail
                .iter()
                .cloned()
                .map(|mut o| {
                    match &mut o {
                        Op::Remove { panic_at, .. } | Op::Nest { panic_at, .. } => *panic_at = None,
                        Op::CloneLocal { inj, .. } | Op::CloneForeign { inj, .. } | Op::CloneForest { inj, .. } => {
                            *inj = Inj::None
                        }
                        _ => {}
                    }
                    o
                })
                .collect();
            match run_case_once(p, c, Source::List(calm), &mut Stats::default(), &mut vec![], None) {
                Verdict::Held => Verdict::Violated { msg, at },
                _ => Verdict::Abandoned(msg),
            }
        }
        v => v,
    }
}

const AFTER_PANIC: &str = "(later, after a caught panic of user code)";

fn run_case_once(
    p: &Prop,
    c: &Case,
    src: Source,
    st: &mut Stats,
    trail: &mut Vec<Op>,
    log: OpLog<'_>,
) -> Verdict {
    match c.kind as usize % KINDS {
        0 => run_typed::<NodeIdUsize>(p, c, src, st, trail, log),
        1 => run_typed::<NodeIdU8>(p, c, src, st, trail, log),
        2 => run_typed::<NodeIdU16>(p, c, src, st, trail, log),
        3 => run_typed::<NodeIdU32>(p, c, src, st, trail, log),
        4 => run_typed::<NodeIdU64>(p, c, src, st, trail, log),
        5 => run_typed::<TupleId>(p, c, src, st, trail, log),
        _ => run_typed::<StructId>(p, c, src, st, trail, log),
    }
}

fn run_typed<I: Kind>(
    p: &Prop,
    c: &Case,
    mut src: Source,
    st: &mut Stats,
    trail: &mut Vec<Op>,
    mut log: OpLog<'_>,
) -> Verdict {
    tok::reset();
    st.histories += 1;
    let mut w: World<I> = World::new(c.start_val);
    let mut i = 0usize;
    let verdict = loop {
        let op = match &mut src {
            Source::List(v) | Source::Tail(v, _) => match v.get(i) {
                Some(o) => o.clone(),
                None => break Verdict::Held,
            },
            Source::Gen(g, n, pre) => {
                if i < pre.len() {
                    pre[i].clone()
                } else if i >= *n + pre.len() {
                    break Verdict::Held;
                } else {
                    g.op(&w)
                }
            }
        };
        let last = match &src {
            Source::List(v) | Source::Tail(v, _) => i + 1 >= v.len(),
            Source::Gen(_, n, pre) => i + 1 >= *n + pre.len(),
        };
        let quiet = match &src {
            Source::Gen(_, _, pre) => i + 1 < pre.len(),
            Source::Tail(_, n) => i + 1 < *n,
            Source::List(_) => false,
        };
        if let Some(f) = log.as_mut() {
            let _ = writeln!(f, "{}", op.encode());
            let _ = f.flush();
        }
        trail.push(op.clone());
        // After a big tree has been built, there are few operations: look closely at them.
        let close = matches!(&src, Source::Gen(_, n, pre) if !pre.is_empty() && i + 1 >= pre.len() && *n <= 130);
        match one_op(p, c, &mut w, &op, i, (last, close), quiet, st) {
            Verdict::Held => {}
            v => break v,
        }
        i += 1;
    };
    let verdict = match verdict {
        Verdict::Held => {
            // The end of the history: everything is dropped.
            let had = w.pocket.len() + w.slots.iter().flatten().map(|s| s.m.live).sum::<usize>();
            let r = catch(move || drop(w));
            st.events += tok::events();
            match r {
                Err(Caught::Panic(m)) => {
                    std::mem::forget(src);
                    if matches!(p.id, "P01" | "P09" | "P19" | "MIX") {
                        Verdict::Violated { msg: format!("panicked while dropping: {m}"), at: i }
                    } else {
                        Verdict::Abandoned(m)
                    }
                }
                _ => {
                    let left = tok::live_count();
                    if tok::TRACKED && (left != 0 || tok::multi_count() != 0) {
                        let msg = format!(
                            "after dropping everything ({had} values were held) {left} values are leaked, {} dropped twice",
                            tok::multi_count()
                        );
                        if p.obs.conserve {
                            Verdict::Violated { msg, at: i }
                        } else {
                            Verdict::Abandoned(msg)
                        }
                    } else {
                        Verdict::Held
                    }
                }
            }
        }
        v => {
            let _ = catch(move || drop(w));
            v
        }
    };
    if let Verdict::Abandoned(m) = &verdict {
        st.abandoned += 1;
        if st.abandon_samples.len() < 3 {
            st.abandon_samples.push(m.clone());
        }
    }
    verdict
}

#[allow(clippy::too_many_arguments)]
fn one_op<I: Kind>(
    p: &Prop,
    c: &Case,
    w: &mut World<I>,
    op: &Op,
    i: usize,
    (last, close): (bool, bool),
    quiet: bool,
    st: &mut Stats,
) -> Verdict {
    // Which nodes does the operation remove?
    let before = if matches!(p.id, "P05" | "P06" | "P07" | "MIX") && !quiet { alive_before(w, op) } else { vec![] };
    w.quiet = quiet;
    let step = w.exec(op);
    st.ops += 1;
    let injured = w.injured;
    if step.class == Class::Injected && !matches!(op, Op::Remove { kind: RemKind::Hooked, .. }) {
        w.injured = true;
    }
    if step.class == Class::Skip {
        st.count("skipped".into(), 1);
        return Verdict::Held;
    }
    let via = if step.class == Class::Legal { "" } else { "!" };
    if !quiet {
        st.count(format!("{:?}{via}{:?}", step.kind, step.class), 1);
        if st.sigs.len() < 600_000 {
            st.sigs.insert(step.sig);
        }
    }
    let verdict = |m: Mis| -> Verdict {
        let msg = format!("after op {i} `{}`: [{:?}] {}", op.encode(), m.scope, m.msg);
        if in_scope(p.id, step.kind, step.class, m.scope) {
            Verdict::Violated { msg, at: i }
        } else if p.id == "P06" && injured {
            Verdict::Violated { msg: format!("{AFTER_PANIC} {msg}"), at: i }
        } else {
            Verdict::Abandoned(msg)
        }
    };
    if let Some(m) = step.mis.clone() {
        return verdict(m);
    }
    if let Some(m) = dead_probe(w, op, &before, st) {
        return verdict(Mis { scope: Scope::Live, msg: m });
    }
    if step.class == Class::Injected && !quiet && matches!(p.id, "P06" | "P07" | "MIX") {
        if let Some(m) = ghost_probe(w, &step, st) {
            return verdict(Mis { scope: Scope::Live, msg: m });
        }
    }
    let live: usize = w.slots.iter().flatten().map(|s| s.m.live).sum();
    st.max_live = st.max_live.max(live);
    // Whole-state checks are linear: run them less often on big forests.
    let total: usize = w.slots.iter().flatten().map(|s| s.m.nodes.len()).sum();
    let every = if total <= 96 { 1 } else { total / 24 };
    if quiet && (i % 64 != 63 || total > 96) {
        return Verdict::Held;
    }
    let looks = i % every == 0 || last || (close && i % (total / 400).clamp(4, 12) == 0);
    let sound = looks || (close && (total > 20_000 || i % (total / 400 + 1) == 0));
    if !sound {
        // A cheap local check: the node just handled.
        return local_check(p, w, op, &step, i);
    }
    for s in 0..w.slots.len() {
        let touched = step.touched.contains(&Some(s));
        if !touched && !p.obs.cross && !last {
            continue;
        }
        // An operation must not change the forest from which it imports.
        let touched = touched && !(matches!(op, Op::CloneForeign { .. }) && step.touched[1] == Some(s));
        let sl = match w.slots[s].as_ref() {
            Some(x) => x,
            None => continue,
        };
        st.observations += 1;
        if sl.m.live <= 24 {
            st.shapes.insert(sl.m.shape_hash());
        }
        match catch(|| observe::integrity(sl)) {
            Ok(Ok(())) => {}
            Ok(Err(m)) => {
                if p.obs.cross && !touched {
                    return Verdict::Violated { msg: format!("op {i} `{}` broke another forest: {m}", op.encode()), at: i };
                }
                return verdict(Mis { scope: Scope::Integrity, msg: m });
            }
            Err(e) => return panic_verdict(p, e, op, i, "integrity", st, verdict),
        }
        match catch(|| observe::structure(sl)) {
            Ok(Ok(())) => {}
            Ok(Err(m)) => {
                if p.obs.cross && !touched {
                    return Verdict::Violated { msg: format!("op {i} `{}` changed another forest: {}", op.encode(), m.msg), at: i };
                }
                return verdict(m);
            }
            Err(e) => return panic_verdict(p, e, op, i, "structure", st, verdict),
        }
    }
    // Conservation of values.
    let held = live + w.pocket.len();
    let have = tok::live_count();
    if tok::TRACKED && (have < held || have > held + w.slack || tok::multi_count() > 0) {
        let m = format!(
            "{have} values are alive, but {held} are held by forests and the user; {} dropped twice",
            tok::multi_count()
        );
        return verdict(Mis { scope: Scope::Conserve, msg: m });
    }
    if !looks {
        return local_check(p, w, op, &step, i);
    }
    // Own observers.
    let mut rng = Rng::new(hash2(c.obs_seed, i as u64));
    let mut events = 0u64;
    let mut out = Verdict::Held;
    let mut beyond = vec![];
    if p.obs.live {
        let top = w.slots.iter().flatten().map(|s| s.used).max().unwrap_or(0);
        for k in top..top + 3 {
            beyond.extend(w.table_id(k));
        }
    }
    'slots: for s in 0..w.slots.len() {
        let touched = step.touched.contains(&Some(s));
        if !touched && !p.obs.cross && !last {
            continue;
        }
        let sl = match w.slots[s].as_mut() {
            Some(x) => x,
            None => continue,
        };
        let mut todo: Vec<(&'static str, Result<Result<(), String>, Caught>)> = vec![];
        let mut stop = false;
        macro_rules! go {
            ($cond:expr, $name:expr, $f:expr) => {
                if $cond && !stop {
                    st.observations += 1;
                    let r = catch(|| $f);
                    if !matches!(r, Ok(Ok(()))) {
                        stop = true;
                    }
                    todo.push(($name, r));
                }
            };
        }
        go!(p.obs.live, "liveness", observe::liveness(sl, &beyond));
        go!(p.obs.data, "data", observe::data(sl));
        if p.obs.access || p.obs.lines || p.obs.dft || p.obs.shallow || p.obs.bfs || p.obs.print {
            let nodes = pick_nodes(sl.m.live_nodes(), &sl.m, &mut rng);
            for n in nodes {
                go!(p.obs.access, "accessors", observe::accessors(sl, n));
                let mut d = Driver { rng: &mut rng, events: &mut events };
                go!(p.obs.lines, "iterators", observe::lines(sl, n, &mut d));
                go!(p.obs.dft, "depth-first traversal", observe::dft(sl, n, &mut d));
                if p.obs.shallow {
                    let h = sl.m.events(n, usize::MAX).iter().map(|x| x.2).max().unwrap_or(0);
                    let lim = match d.rng.below(9) {
                        0 => None,
                        1 => Some(usize::MAX),
                        2 => Some(usize::MAX - 1),
                        3 => Some(h),
                        4 => Some(h + 1),
                        5 => Some(0),
                        6 => Some((1usize << (8 + d.rng.below(usize::BITS as usize - 8))) + d.rng.below(h + 2)),
                        _ => Some(d.rng.below(h + 2)),
                    };
                    go!(true, "depth-limited traversal", observe::shallow(sl, n, lim, &mut d));
                }
                go!(p.obs.bfs, "breadth-first traversal", observe::bfs(sl, n, &mut d));
                go!(p.obs.print, "debug print", observe::print(sl, n, &mut d));
                if p.obs.panics_only && sl.m.nodes.len() <= 24 && d.rng.chance(1, 80) {
                    go!(true, "derived debug forms", observe::forms(sl, n, &mut d));
                }
            }
        }
        for (name, r) in todo {
            match r {
                Ok(Ok(())) => {}
                Ok(Err(m)) => {
                    if p.obs.panics_only {
                        out = Verdict::Abandoned(m);
                    } else {
                        out = own_violation(p, name, &step, format!("after op {i} `{}`: [{name}] {m}", op.encode()), i);
                    }
                    break 'slots;
                }
                Err(e) => {
                    out = panic_verdict(p, e, op, i, name, st, |m| Verdict::Violated { msg: m.msg, at: i });
                    break 'slots;
                }
            }
        }
    }
    st.events += events;
    out
}

fn alive_before<I: Kind>(w: &World<I>, op: &Op) -> Vec<usize> {
    match op {
        Op::Remove { s, .. } => match w.slots[*s as usize % w.slots.len()].as_ref() {
            Some(sl) if sl.m.nodes.len() <= 400 => sl.m.live_nodes(),
            _ => vec![],
        },
        _ => vec![],
    }
}

/// Nodes that an operation has removed are refused by operations, too.
fn dead_probe<I: Kind>(w: &mut World<I>, op: &Op, before: &[usize], st: &mut Stats) -> Option<String> {
    let n = w.slots.len();
    let sl = w.slots[op.slot() as usize % n].as_mut()?;
    let gone: Vec<usize> = before.iter().copied().filter(|&x| !sl.m.alive(x)).collect();
    let pick = [gone.first(), gone.last(), gone.get(gone.len() / 2)];
    for (k, &x) in pick.into_iter().flatten().enumerate() {
        if pick[..k].contains(&Some(&x)) {
            continue;
        }
        st.count("probes of removed nodes".into(), 1);
        let id = sl.ids[x];
        if catch(|| sl.f.detach(id)).is_ok() {
            return Some(format!("#{x} has been removed, but can still be detached"));
        }
        if catch(|| sl.f.insert(id, treena::dynamic::InsertAs::LastChildOf(id))).is_ok() {
            return Some(format!("#{x} has been removed, but can still be inserted"));
        }
    }
    None
}

/// What an operation that panicked has used up without making a node is dead for operations, too.
fn ghost_probe<I: Kind>(w: &mut World<I>, step: &Step, st: &mut Stats) -> Option<String> {
    for s in step.touched.into_iter().flatten() {
        let used = w.slots[s].as_ref().map_or(0, |sl| sl.used);
        if used > 0 {
            let _ = w.table_id(used - 1);
        }
        let lo = used.saturating_sub(40);
        let ids: Vec<I> = w.table.iter().take(used).skip(lo).copied().collect();
        let Some(sl) = w.slots[s].as_mut() else { continue };
        for id in ids {
            if sl.id_ix(id).is_some() || sl.f.node(id).is_some() {
                continue;
            }
            st.count("probes of unused IDs".into(), 1);
            if catch(|| sl.f.detach(id)).is_ok() {
                return Some(format!("{id:?} is not that of a node, but can be detached"));
            }
        }
    }
    None
}

/// Liveness and data are observers shared by several properties, of which some
/// are about particular operations only.
fn own_violation(p: &Prop, name: &str, step: &Step, msg: String, at: usize) -> Verdict {
    let v = |ok: bool, msg: String| {
        if ok {
            Verdict::Violated { msg, at }
        } else {
            Verdict::Abandoned(msg)
        }
    };
    let scope = match name {
        "liveness" => Scope::Live,
        "data" => Scope::Data,
        _ => return v(true, msg),
    };
    match p.id {
        "P03" | "P05" | "P06" | "P14" => v(in_scope(p.id, step.kind, step.class, scope), msg),
        // Values only through conservation.
        "P09" => v(msg.contains("has been dropped"), msg),
        _ => v(true, msg),
    }
}

fn panic_verdict(
    p: &Prop,
    e: Caught,
    op: &Op,
    i: usize,
    name: &str,
    st: &mut Stats,
    f: impl FnOnce(Mis) -> Verdict,
) -> Verdict {
    match e {
        Caught::Injected => Verdict::Abandoned("stray injected panic".into()),
        Caught::Panic(m) => {
            if m.contains(" at src/") {
                // A panic of the harness itself is no verdict.
                st.harness_panics += 1;
                return Verdict::Abandoned(format!("harness panic: {m}"));
            }
            let msg = format!("after op {i} `{}`: observing ({name}) panicked: {m}", op.encode());
            if p.id == "P13" {
                return Verdict::Violated { msg, at: i };
            }
            f(Mis { scope: Scope::Panic, msg })
        }
    }
}

fn local_check<I: Kind>(p: &Prop, w: &World<I>, op: &Op, step: &Step, i: usize) -> Verdict {
    // The handled node and its anchor have the specified neighbors.
    let s = op.slot() as usize % w.slots.len();
    let sl = match w.slots[s].as_ref() {
        Some(x) => x,
        None => return Verdict::Held,
    };
    let mut nodes = vec![];
    let mut add = |r: u32| {
        if r < BEYOND && !sl.ids.is_empty() {
            nodes.push(r as usize % sl.ids.len());
        }
    };
    match *op {
        Op::CreateInsert { anchor, .. } => {
            add(anchor);
            add(sl.ids.len() as u32 - 1);
        }
        Op::Insert { node, anchor, .. } => {
            add(node);
            add(anchor);
        }
        Op::Detach { node, .. } | Op::DetachSingle { node, .. } | Op::SetData { node, .. } => add(node),
        _ => {}
    }
    for n in nodes {
        if !sl.m.alive(n) {
            continue;
        }
        if let Ok(Err(m)) = catch(|| observe::accessors(sl, n)) {
            let msg = format!("after op {i} `{}`: {m}", op.encode());
            return if in_scope(p.id, step.kind, step.class, Scope::Struct) {
                Verdict::Violated { msg, at: i }
            } else {
                Verdict::Abandoned(msg)
            };
        }
    }
    Verdict::Held
}

fn pick_nodes(live: Vec<usize>, m: &crate::model::Model, rng: &mut Rng) -> Vec<usize> {
    if live.len() <= 9 {
        return live;
    }
    let k = if live.len() <= 40 { 5 } else { 4 };
    let mut v = vec![];
    for _ in 0..k {
        if let Some(n) = rng.pick(&live) {
            v.push(n);
        }
    }
    if let Some(n) = rng.pick(&live) {
        v.push(m.root_of(n));
    }
    v
}

/// Zero if there is no time for long and huge cases (interpreters, sanitizers).
pub fn scale() -> u32 {
    static S: std::sync::OnceLock<u32> = std::sync::OnceLock::new();
    *S.get_or_init(|| u32::from(std::env::args().any(|a| a == "--long")))
}

/// The profile and the seed of a random case.
pub fn random_case(p: &Prop, seed: u64, idx: u64) -> (Case, Source) {
    let h = hash2(hash2(seed, idx), p.id.bytes().fold(7, |a, b| hash2(a, u64::from(b))));
    let mut rng = Rng::new(h);
    let mut kind = rng.below(KINDS) as u8;
    let class = rng.below(100);
    // The first cases: long lives of small forests, then huge trees.
    let special = if p.big == 0 || scale() == 0 { 0 } else if idx < 8 { 1 } else if idx < 16 { 2 } else { 0 };
    let (mut target, max_ops, mut seed_tree) = if special == 1 {
        (4 + rng.below(24), 80_000 + rng.below(20_000), 0)
    } else if special == 2 {
        (66_000, 24 + rng.below(24), 66_000 + rng.below(4000))
    } else if class < 40 {
        (2 + rng.below(6), 12 + rng.below(30), 0)
    } else if class < 70 {
        (5 + rng.below(10), 20 + rng.below(60), 0)
    } else if class < 97 - p.big {
        (10 + rng.below(40), 30 + rng.below(120), rng.below(2) * rng.below(30))
    } else if class < 99 {
        (60 + rng.below(200), 60 + rng.below(100), 40 + rng.below(160))
    } else {
        (400 + rng.below(2000), 60 + rng.below(60), 300 + rng.below(1500))
    };
    if special == 2 {
        kind = [0, 2, 3, 4, 5, 6][rng.below(6)];
        if matches!(kind, 2 | 6) {
            seed_tree -= 9000;
        }
        target = seed_tree + 40;
    } else if target > 100 && kind == 1 {
        // As much as 8 bits allow.
        target = target.min(200);
        seed_tree = 120 + rng.below(100);
    }
    let prof = Profile {
        w: p.w,
        target,
        inject: p.inject,
        dead: p.dead,
        slots: if rng.chance(1, 2) { 1 } else { p.slots }.max(if p.id == "P15" { 2 } else { 1 }),
    };
    let (obs_seed, start_val) = (rng.next(), rng.below(64) as u64);
    let mut prof = prof;
    if special > 0 {
        if special == 1 {
            // IDs enough.
            kind = [0, 3, 4, 5][rng.below(4)];
        }
        prof.slots = prof.slots.min(2);
        prof.w.drop = 0;
        prof.dead = prof.dead.min(2);
        if special == 1 && rng.chance(1, 2) {
            // Mostly moves.
            prof.w.root /= 4;
            prof.w.create /= 8;
            prof.w.insert += 200;
        }
        if special == 2 {
            prof.w.cloneforest = prof.w.cloneforest.min(2);
        }
    }
    let c = Case { kind, obs_seed, start_val };
    let mut g = Gen::new(Rng::new(rng.next()), prof);
    g.flat = special == 2 && matches!(p.id, "P12" | "P17" | "P19" | "MIX");
    if special == 2 {
        g.style = Some(idx as usize % 8);
    }
    let mut pre = if seed_tree > 0 { g.seed_ops(0, seed_tree) } else { vec![] };
    if special == 2 && p.w.detach1 > 0 && matches!(idx % 8, 1 | 7) {
        // The widest node, made a child of another, is dissolved.
        if idx % 8 == 1 {
            pre.push(Op::CreateRoot { s: 0 });
            pre.push(Op::Insert { s: 0, node: 0, anchor: (pre.len() - 1) as u32, dest: Dest::First, route: 0 });
        }
        pre.push(Op::DetachSingle { s: 0, node: 0, route: rng.below(2) as u8 });
    }
    (c, Source::Gen(Box::new(g), max_ops, pre))
}

fn routes(k: u8) -> impl Iterator<Item = u8> {
    0..k
}

/// All single operations on the nodes `0..n` that matter to the property.
pub fn alternatives(p: &str, n: usize) -> Vec<Op> {
    let mut v = vec![];
    let s = 0u8;
    let all = 0..n as u32;
    let ins = |v: &mut Vec<Op>, rts: u8| {
        for node in 0..n as u32 {
            for anchor in 0..n as u32 {
                for dest in DESTS {
                    for route in routes(rts) {
                        v.push(Op::Insert { s, node, anchor, dest, route });
                    }
                }
            }
        }
    };
    let create = |v: &mut Vec<Op>| {
        for anchor in 0..n as u32 {
            for dest in DESTS {
                for route in routes(2) {
                    v.push(Op::CreateInsert { s, anchor, dest, route });
                }
            }
        }
    };
    let det = |v: &mut Vec<Op>, r: u8| {
        for node in 0..n as u32 {
            for route in routes(r) {
                v.push(Op::Detach { s, node, route });
                v.push(Op::DetachSingle { s, node, route });
            }
        }
    };
    let rem = |v: &mut Vec<Op>, r: u8| {
        for node in 0..n as u32 {
            for kind in [RemKind::Plain, RemKind::Hooked, RemKind::Safe] {
                for route in routes(r) {
                    v.push(Op::Remove { s, node, kind, route, panic_at: None });
                }
            }
        }
    };
    match p {
        "P02" => {
            ins(&mut v, 2);
            create(&mut v);
        }
        "P03" => {
            ins(&mut v, 3);
            create(&mut v);
            det(&mut v, 2);
        }
        "P04" => det(&mut v, 2),
        "P05" => rem(&mut v, 4),
        "P06" => {
            for node in all {
                for k in 0..n as u32 {
                    for route in routes(4) {
                        v.push(Op::Remove { s, node, kind: RemKind::Safe, route, panic_at: Some(k) });
                    }
                    v.push(Op::Remove { s, node, kind: RemKind::Hooked, route: 0, panic_at: Some(k) });
                    for inj in [Inj::Clone(k), Inj::Map(k)] {
                        v.push(Op::CloneLocal { s, node, mapping: true, inj });
                        v.push(Op::CloneForeign { s: 1, src: 0, node, mapping: true, inj });
                    }
                    if node == 0 {
                        v.push(Op::CloneForest { s, d: 1, inj: Inj::Clone(k), route: 0 });
                        v.push(Op::CloneForest { s, d: 1, inj: Inj::Clone(k), route: 1 });
                    }
                }
            }
        }
        "P14" => {
            for node in all {
                for mapping in [false, true] {
                    v.push(Op::CloneLocal { s, node, mapping, inj: Inj::None });
                    v.push(Op::CloneForeign { s: 1, src: 0, node, mapping, inj: Inj::None });
                }
            }
        }
        "P15" => {
            v.push(Op::CloneForest { s, d: 1, inj: Inj::None, route: 0 });
            v.push(Op::CloneForest { s, d: 1, inj: Inj::None, route: 1 });
        }
        "P07" | "P08" | "P09" => {
            rem(&mut v, 2);
            create(&mut v);
            for node in all {
                v.push(Op::SetData { s, node, route: (node % 3) as u8 });
                v.push(Op::CloneLocal { s, node, mapping: false, inj: Inj::None });
                v.push(Op::CloneForeign { s: 1, src: 0, node, mapping: false, inj: Inj::None });
                if p == "P09" {
                    for k in 0..n as u32 {
                        v.push(Op::Remove { s, node, kind: RemKind::Safe, route: 0, panic_at: Some(k) });
                        v.push(Op::CloneLocal { s, node, mapping: false, inj: Inj::Clone(k) });
                    }
                }
            }
            v.push(Op::CloneForest { s, d: 1, inj: Inj::None, route: 0 });
        }
        "P01" => {
            ins(&mut v, 1);
            create(&mut v);
            det(&mut v, 1);
            rem(&mut v, 1);
            for node in all {
                v.push(Op::CloneLocal { s, node, mapping: false, inj: Inj::None });
                v.push(Op::CloneForeign { s: 1, src: 0, node, mapping: false, inj: Inj::None });
            }
        }
        "P19" => {
            ins(&mut v, 3);
            create(&mut v);
            det(&mut v, 2);
            rem(&mut v, 2);
            for node in all.chain([BEYOND, BEYOND + 1]) {
                v.push(Op::CloneLocal { s, node, mapping: true, inj: Inj::None });
                for which in 0..13 {
                    v.push(Op::Query { s, node, which });
                }
                v.push(Op::SetData { s, node, route: 1 });
            }
        }
        "P16" => {}
        // Observers: the operations only make trees.
        _ => {
            ins(&mut v, 1);
            det(&mut v, 1);
            rem(&mut v, 1);
            create(&mut v);
        }
    }
    v
}

/// Exhaustive small-scope histories.
pub struct Exhaust {
    plans: Vec<(usize, usize, bool)>, // (nodes, variants, pairs)
}

impl Exhaust {
    /// `level` limits the number of nodes.
    pub fn new(p: &str, level: usize) -> Self {
        let mut plans = vec![];
        if matches!(p, "P18" | "MIX") {
            return Exhaust { plans };
        }
        if p == "P16" {
            return Exhaust { plans };
        }
        for n in 1..=level {
            plans.push((n, 3, false));
        }
        // Pairs of operations, on smaller forests.
        let pairs = level.saturating_sub(2).min(4);
        for n in 1..=pairs {
            plans.push((n, 1, true));
        }
        Exhaust { plans }
    }

    /// Calls `f` for every history, until it returns false.
    pub fn each(&self, p: &str, f: &mut dyn FnMut(&[Op], usize) -> bool) {
        for &(n, variants, pairs) in &self.plans {
            let alts = alternatives(p, n);
            let first = if pairs {
                let mut v = vec![];
                for node in 0..n as u32 {
                    for anchor in 0..n as u32 {
                        for dest in DESTS {
                            v.push(Op::Insert { s: 0, node, anchor, dest, route: 0 });
                        }
                    }
                    v.push(Op::Detach { s: 0, node, route: 0 });
                    v.push(Op::DetachSingle { s: 0, node, route: 0 });
                    v.push(Op::Remove { s: 0, node, kind: RemKind::Plain, route: 0, panic_at: None });
                    v.push(Op::Remove { s: 0, node, kind: RemKind::Safe, route: 0, panic_at: None });
                }
                v
            } else {
                vec![]
            };
            for shape in gen::all_shapes(n) {
                for variant in 0..variants {
                    let base = gen::build_shape(0, &shape, variant);
                    let mut h = base.clone();
                    if pairs {
                        for a in &first {
                            for b in &alts {
                                h.truncate(base.len());
                                h.push(a.clone());
                                h.push(b.clone());
                                if !f(&h, base.len()) {
                                    return;
                                }
                            }
                        }
                    } else {
                        if !f(&h, base.len()) {
                            return;
                        }
                        for a in &alts {
                            h.truncate(base.len());
                            h.push(a.clone());
                            if !f(&h, base.len()) {
                                return;
                            }
                        }
                    }
                }
            }
        }
        if p == "P16" {
            self.builders(f);
        }
    }

    /// All short builder scripts.
    fn builders(&self, f: &mut dyn FnMut(&[Op], usize) -> bool) {
        let steps = [
            ChainStep::Child,
            ChainStep::Sibling,
            ChainStep::TryParent,
            ChainStep::Parent,
            ChainStep::DetachCur,
            ChainStep::RemoveCur,
        ];
        for len in 0..=6usize {
            let total = steps.len().pow(len as u32);
            for k in 0..total {
                let mut x = k;
                let mut v = vec![];
                for _ in 0..len {
                    v.push(steps[x % steps.len()]);
                    x /= steps.len();
                }
                if !f(&[Op::Chain { s: 0, steps: v }], 0) {
                    return;
                }
            }
        }
        let steps = [
            ChainStep::Child,
            ChainStep::Sibling,
            ChainStep::TryParent,
            ChainStep::Extra(Dest::First),
            ChainStep::Extra(Dest::Prev),
            ChainStep::Extra(Dest::Last),
            ChainStep::Pull(1, Dest::Last),
            ChainStep::Dissolve,
        ];
        for len in 0..=5usize {
            let total = steps.len().pow(len as u32);
            for k in 0..total {
                let mut x = k;
                let mut v = vec![];
                for _ in 0..len {
                    v.push(steps[x % steps.len()]);
                    x /= steps.len();
                }
                if !f(&[Op::Chain { s: 0, steps: v }], 0) {
                    return;
                }
            }
        }
        let steps = [NestStep::Add, NestStep::Open, NestStep::Close];
        for len in 0..=8usize {
            let total = steps.len().pow(len as u32);
            for k in 0..total {
                let mut x = k;
                let mut v = vec![];
                for _ in 0..len {
                    v.push(steps[x % steps.len()]);
                    x /= steps.len();
                }
                if !f(&[Op::Nest { s: 0, steps: v, panic_at: None }], 0) {
                    return;
                }
            }
        }
    }
}

/// Shrinks a violating history (delta debugging over operations).
pub fn shrink(p: &Prop, c: &Case, ops: Vec<Op>, budget: usize) -> (Vec<Op>, String) {
    let budget = std::cell::Cell::new(if ops.len() > 5000 { budget.min(60) } else { budget });
    let start = std::time::Instant::now();
    let check = |v: &[Op]| -> Option<(String, usize)> {
        if budget.get() == 0 || start.elapsed().as_secs() >= 15 {
            return None;
        }
        budget.set(budget.get() - 1);
        let mut st = Stats::default();
        match run_case(p, c, Source::List(v.to_vec()), &mut st, &mut vec![], None) {
            Verdict::Violated { msg, at } => Some((msg, at)),
            _ => None,
        }
    };
    let spent = || budget.get() == 0 || start.elapsed().as_secs() >= 15;
    let mut cur = ops;
    let mut msg = match check(&cur) {
        Some((m, at)) => {
            cur.truncate(at + 1);
            m
        }
        None => return (cur, String::new()),
    };
    let mut chunk = cur.len().div_ceil(2).max(1);
    loop {
        let mut i = 0;
        let mut any = false;
        while i < cur.len() && !spent() {
            let end = (i + chunk).min(cur.len());
            let mut v = cur.clone();
            v.drain(i..end);
            if let Some((m, at)) = check(&v) {
                v.truncate(at + 1);
                cur = v;
                msg = m;
                any = true;
            } else {
                i = end;
            }
        }
        if chunk == 1 && !any {
            break;
        }
        if !any || chunk > 1 {
            chunk = (chunk / 2).max(1);
        }
        if spent() {
            return (cur, msg);
        }
    }
    // Shorten builder scripts.
    for k in 0..cur.len() {
        loop {
            let mut done = true;
            let n = match &cur[k] {
                Op::Chain { steps, .. } => steps.len(),
                Op::Nest { steps, .. } => steps.len(),
                _ => 0,
            };
            for j in 0..n {
                let mut v = cur.clone();
                match &mut v[k] {
                    Op::Chain { steps, .. } => {
                        steps.remove(j);
                    }
                    Op::Nest { steps, .. } => {
                        steps.remove(j);
                    }
                    _ => {}
                }
                if let Some((m, _)) = check(&v) {
                    cur = v;
                    msg = m;
                    done = false;
                    break;
                }
            }
            if done {
                break;
            }
        }
    }
    (cur, msg)
}

pub fn write_replay(path: &str, p: &str, c: &Case, ops: &[Op], msg: &str) -> std::io::Result<()> {
    let mut s = String::new();
    for l in msg.lines() {
        let _ = writeln!(s, "# {l}");
    }
    let _ = writeln!(s, "prop {p}");
    let _ = writeln!(s, "kind {} # {}", c.kind, kind_name(c.kind));
    let _ = writeln!(s, "obs_seed {}", c.obs_seed);
    let _ = writeln!(s, "start_val {}", c.start_val);
    for o in ops {
        let _ = writeln!(s, "{}", o.encode());
    }
    std::fs::write(path, s)
}

pub fn read_replay(path: &str) -> Option<(String, Case, Vec<Op>)> {
    let t = std::fs::read_to_string(path).ok()?;
    let mut p = String::new();
    let mut c = Case { kind: 0, obs_seed: 0, start_val: 0 };
    let mut ops = vec![];
    for l in t.lines() {
        let l = l.trim();
        if l.is_empty() || l.starts_with('#') {
            continue;
        }
        let mut w = l.split_whitespace();
        match (w.next()?, w.next()) {
            ("prop", Some(v)) => p = v.into(),
            ("kind", Some(v)) => c.kind = v.parse().ok()?,
            ("obs_seed", Some(v)) => c.obs_seed = v.parse().ok()?,
            ("start_val", Some(v)) => c.start_val = v.parse().ok()?,
            _ => ops.push(Op::decode(l)?),
        }
    }
    Some((p, c, ops))
}
