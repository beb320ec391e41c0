//! Monitors of treena's behaviour.
pub mod gen;
pub mod inter;
pub mod observe;
pub mod ops;
pub mod run;
pub mod world;

pub use treena_base::{kinds, model, rng, tok, trees};
