//! Verification harnesses, compiled as a child module of the crate root in a build-directory copy of /repo/src.
//! `cfg(verif_sym)`: the `sym_*` functions are provided by the symbolic execution engine.
//! Otherwise (native replay build): they are defined in `native.rs` and read a counterexample's inputs from a file.
#![allow(dead_code, unused_imports, unused_variables, static_mut_refs)]

#[path = "sym.rs"]
pub mod sym;
#[cfg(not(verif_sym))]
#[path = "native.rs"]
pub mod native;
#[path = "util.rs"]
pub mod util;
