//! What the monitors have in common.
pub mod adapt;
pub mod kinds;
pub mod model;
pub mod rng;
pub mod tok;
pub mod trees;
