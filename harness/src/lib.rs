//! Conformance harness for crossmist: see /verif/DESIGN.md.
pub mod ends;
pub mod inter;
pub mod json;
pub mod msg;
pub mod util;
