//! Shared machinery: fields, transparent engine, recording constraint systems, forger, runner.
#![allow(clippy::all)]
pub mod circ;
pub mod engine;
pub mod field;
pub mod forge;
pub mod gad;
pub mod prog;
pub mod r1cs;
pub mod refhash;
pub mod run;
pub mod sn;

pub use field::*;
pub use r1cs::*;
pub use run::*;
