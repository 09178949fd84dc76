#![allow(dead_code, unused, incomplete_features)]
#![feature(min_specialization)]
//! Roots of the analysis. Nothing here is ever run: the functions only name, through the
//! public interface of the crates under analysis, the entry points whose behaviour is decided.
extern crate alloc;
#[path = "/repo/difffuzz/src/lib.rs"]
pub mod difffuzz;
pub mod models;
pub mod opq;
pub mod r_builtin;
pub mod r_derive;
pub mod r_gen;
pub mod r_macros;
pub mod r_serde;
pub mod r_wire;
