//! The simulator: everything that does not depend on what is simulated.
#![allow(static_mut_refs)]
pub mod alloc;
pub mod fam;
pub mod gen;
pub mod node;
pub mod rt;
pub mod tok;
