//! Properties of hampi as solver harnesses (Kani/CBMC) that double as native replay programs.
#![allow(dead_code, static_mut_refs)]

#[macro_use]
pub mod nd;
pub mod refc;
pub mod util;
pub mod stubs;
#[macro_use]
mod mac;

modules!(c01, c02, c03, c04, c05, c06, c07, c08, c09, c10, c11, c12, c13);
