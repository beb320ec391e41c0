//! The node ID types under monitoring.

use treena::dynamic::{NodeId, NodeIdU16, NodeIdU32, NodeIdU64, NodeIdU8, NodeIdUsize};
use treena::impl_dynamic_node_id;

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct TupleId(NodeIdUsize);
impl_dynamic_node_id!(TupleId, NodeIdUsize, 0);

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct StructId {
    underlying: NodeIdU16,
}
impl_dynamic_node_id!(StructId, NodeIdU16, underlying);

pub trait Kind: NodeId + 'static {
    const NAME: &'static str;
    /// Number of nodes that monitored histories create at most.
    const CAP: usize;
}
impl Kind for NodeIdU8 {
    const NAME: &'static str = "u8";
    const CAP: usize = 240;
}
impl Kind for NodeIdU16 {
    const NAME: &'static str = "u16";
    const CAP: usize = 60_000;
}
impl Kind for NodeIdU32 {
    const NAME: &'static str = "u32";
    const CAP: usize = 10_000_000;
}
impl Kind for NodeIdU64 {
    const NAME: &'static str = "u64";
    const CAP: usize = 10_000_000;
}
impl Kind for NodeIdUsize {
    const NAME: &'static str = "usize";
    const CAP: usize = 10_000_000;
}
impl Kind for TupleId {
    const NAME: &'static str = "tuple(usize)";
    const CAP: usize = 10_000_000;
}
impl Kind for StructId {
    const NAME: &'static str = "struct(u16)";
    const CAP: usize = 60_000;
}
