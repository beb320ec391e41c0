//! Operations of a history, with a text encoding for replay files.
//!
//! Node references are total: any number denotes something in any state, so
//! that every subsequence of a history is a history.

use crate::model::{Dest, DESTS};

/// References at or above this denote IDs that the forest has not created.
pub const BEYOND: u32 = 1_000_000;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Inj {
    None,
    /// The n-th clone of the payload panics.
    Clone(u32),
    /// The n-th call of the mapping callback panics.
    Map(u32),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum ChainStep {
    Child,
    Sibling,
    TryParent,
    Parent,
    DetachCur,
    RemoveCur,
    /// Moves the current node under the given node.
    MoveCur(u32, Dest),
    /// Creates a node at the current one, through the forest.
    Extra(Dest),
    /// Moves the given node to the current one, through the forest.
    Pull(u32, Dest),
    /// Detaches the current node alone, through the forest.
    Dissolve,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum NestStep {
    Add,
    Open,
    Close,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum RemKind {
    Plain,
    Hooked,
    Safe,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Op {
    CreateRoot { s: u8 },
    CreateInsert { s: u8, anchor: u32, dest: Dest, route: u8 },
    Insert { s: u8, node: u32, anchor: u32, dest: Dest, route: u8 },
    Detach { s: u8, node: u32, route: u8 },
    DetachSingle { s: u8, node: u32, route: u8 },
    Remove { s: u8, node: u32, kind: RemKind, route: u8, panic_at: Option<u32> },
    CloneLocal { s: u8, node: u32, mapping: bool, inj: Inj },
    CloneForeign { s: u8, src: u8, node: u32, mapping: bool, inj: Inj },
    /// An odd route clones onto the forest that is there.
    CloneForest { s: u8, d: u8, inj: Inj, route: u8 },
    SetData { s: u8, node: u32, route: u8 },
    Chain { s: u8, steps: Vec<ChainStep> },
    Nest { s: u8, steps: Vec<NestStep>, panic_at: Option<u32> },
    Drop { s: u8 },
    Query { s: u8, node: u32, which: u8 },
}

impl Op {
    pub fn slot(&self) -> u8 {
        match *self {
            Op::CreateRoot { s }
            | Op::CreateInsert { s, .. }
            | Op::Insert { s, .. }
            | Op::Detach { s, .. }
            | Op::DetachSingle { s, .. }
            | Op::Remove { s, .. }
            | Op::CloneLocal { s, .. }
            | Op::CloneForeign { s, .. }
            | Op::CloneForest { s, .. }
            | Op::SetData { s, .. }
            | Op::Chain { s, .. }
            | Op::Nest { s, .. }
            | Op::Drop { s }
            | Op::Query { s, .. } => s,
        }
    }
    pub fn encode(&self) -> String {
        fn d(d: Dest) -> usize {
            DESTS.iter().position(|&x| x == d).unwrap_or(0)
        }
        fn o(p: Option<u32>) -> String {
            p.map_or("-".into(), |v| v.to_string())
        }
        fn inj(i: Inj) -> String {
            match i {
                Inj::None => "-".into(),
                Inj::Clone(n) => format!("c{n}"),
                Inj::Map(n) => format!("m{n}"),
            }
        }
        match self {
            Op::CreateRoot { s } => format!("root {s}"),
            Op::CreateInsert { s, anchor, dest, route } => {
                format!("create {s} {anchor} {} {route}", d(*dest))
            }
            Op::Insert { s, node, anchor, dest, route } => {
                format!("insert {s} {node} {anchor} {} {route}", d(*dest))
            }
            Op::Detach { s, node, route } => format!("detach {s} {node} {route}"),
            Op::DetachSingle { s, node, route } => format!("detach1 {s} {node} {route}"),
            Op::Remove { s, node, kind, route, panic_at } => {
                let k = match kind {
                    RemKind::Plain => 0,
                    RemKind::Hooked => 1,
                    RemKind::Safe => 2,
                };
                format!("remove {s} {node} {k} {route} {}", o(*panic_at))
            }
            Op::CloneLocal { s, node, mapping, inj: i } => {
                format!("clone {s} {node} {} {}", u8::from(*mapping), inj(*i))
            }
            Op::CloneForeign { s, src, node, mapping, inj: i } => {
                format!("import {s} {src} {node} {} {}", u8::from(*mapping), inj(*i))
            }
            Op::CloneForest { s, d, inj: i, route } => format!("cloneforest {s} {d} {} {route}", inj(*i)),
            Op::SetData { s, node, route } => format!("set {s} {node} {route}"),
            Op::Chain { s, steps } => {
                let v: Vec<String> = steps
                    .iter()
                    .map(|x| match x {
                        ChainStep::Child => "c".into(),
                        ChainStep::Sibling => "s".into(),
                        ChainStep::TryParent => "t".into(),
                        ChainStep::Parent => "p".into(),
                        ChainStep::DetachCur => "d".into(),
                        ChainStep::RemoveCur => "r".into(),
                        ChainStep::MoveCur(n, x) => format!("m{n}.{}", d(*x)),
                        ChainStep::Extra(x) => format!("e{}", d(*x)),
                        ChainStep::Pull(n, x) => format!("u{n}.{}", d(*x)),
                        ChainStep::Dissolve => "x".into(),
                    })
                    .collect();
                format!("chain {s} {}", v.join(","))
            }
            Op::Nest { s, steps, panic_at } => {
                let v: String = steps
                    .iter()
                    .map(|x| match x {
                        NestStep::Add => '.',
                        NestStep::Open => '(',
                        NestStep::Close => ')',
                    })
                    .collect();
                format!("nest {s} {} |{v}", o(*panic_at))
            }
            Op::Drop { s } => format!("drop {s}"),
            Op::Query { s, node, which } => format!("query {s} {node} {which}"),
        }
    }
    pub fn decode(line: &str) -> Option<Op> {
        let t: Vec<&str> = line.split_whitespace().collect();
        let u8_ = |i: usize| t.get(i)?.parse::<u8>().ok();
        let u32_ = |i: usize| t.get(i)?.parse::<u32>().ok();
        let dst = |i: usize| DESTS.get(t.get(i)?.parse::<usize>().ok()?).copied();
        let opt = |i: usize| -> Option<Option<u32>> {
            let s = *t.get(i)?;
            if s == "-" {
                Some(None)
            } else {
                s.parse().ok().map(Some)
            }
        };
        let inj = |i: usize| -> Option<Inj> {
            let s = *t.get(i)?;
            if s == "-" {
                return Some(Inj::None);
            }
            let n = s.get(1..)?.parse().ok()?;
            match s.get(..1)? {
                "c" => Some(Inj::Clone(n)),
                "m" => Some(Inj::Map(n)),
                _ => None,
            }
        };
        let s = u8_(1)?;
        Some(match *t.first()? {
            "root" => Op::CreateRoot { s },
            "create" => Op::CreateInsert { s, anchor: u32_(2)?, dest: dst(3)?, route: u8_(4)? },
            "insert" => Op::Insert {
                s,
                node: u32_(2)?,
                anchor: u32_(3)?,
                dest: dst(4)?,
                route: u8_(5)?,
            },
            "detach" => Op::Detach { s, node: u32_(2)?, route: u8_(3)? },
            "detach1" => Op::DetachSingle { s, node: u32_(2)?, route: u8_(3)? },
            "remove" => Op::Remove {
                s,
                node: u32_(2)?,
                kind: [RemKind::Plain, RemKind::Hooked, RemKind::Safe]
                    .get(u8_(3)? as usize)
                    .copied()?,
                route: u8_(4)?,
                panic_at: opt(5)?,
            },
            "clone" => Op::CloneLocal { s, node: u32_(2)?, mapping: u8_(3)? != 0, inj: inj(4)? },
            "import" => Op::CloneForeign {
                s,
                src: u8_(2)?,
                node: u32_(3)?,
                mapping: u8_(4)? != 0,
                inj: inj(5)?,
            },
            "cloneforest" => Op::CloneForest { s, d: u8_(2)?, inj: inj(3)?, route: u8_(4)? },
            "set" => Op::SetData { s, node: u32_(2)?, route: u8_(3)? },
            "chain" => {
                let mut steps = vec![];
                for x in t.get(2).unwrap_or(&"").split(',').filter(|x| !x.is_empty()) {
                    steps.push(match x.get(..1)? {
                        "c" => ChainStep::Child,
                        "s" => ChainStep::Sibling,
                        "t" => ChainStep::TryParent,
                        "p" => ChainStep::Parent,
                        "d" => ChainStep::DetachCur,
                        "r" => ChainStep::RemoveCur,
                        "x" => ChainStep::Dissolve,
                        "e" => ChainStep::Extra(DESTS.get(x.get(1..)?.parse::<usize>().ok()?).copied()?),
                        k @ ("m" | "u") => {
                            let (a, b) = x.get(1..)?.split_once('.')?;
                            let n = a.parse().ok()?;
                            let d = DESTS.get(b.parse::<usize>().ok()?).copied()?;
                            if k == "m" {
                                ChainStep::MoveCur(n, d)
                            } else {
                                ChainStep::Pull(n, d)
                            }
                        }
                        _ => return None,
                    });
                }
                Op::Chain { s, steps }
            }
            "nest" => {
                let v = line.split_once('|')?.1;
                let mut steps = vec![];
                for c in v.trim().chars() {
                    steps.push(match c {
                        '.' => NestStep::Add,
                        '(' => NestStep::Open,
                        ')' => NestStep::Close,
                        _ => return None,
                    });
                }
                Op::Nest { s, steps, panic_at: opt(2)? }
            }
            "drop" => Op::Drop { s },
            "query" => Op::Query { s, node: u32_(2)?, which: u8_(3)? },
            _ => return None,
        })
    }
}
