//! Reference semantics and library models.  Never executed: only its MIR is analysed.
#![allow(non_snake_case, dead_code, clippy::all)]
pub mod cli;
pub mod codec;
pub mod json;
pub mod m;
pub mod names;
pub mod ops;
pub mod text;
