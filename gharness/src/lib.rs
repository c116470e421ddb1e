//! Properties of the code hampi-asn1c generates for gschemas/*.asn as solver harnesses and native
//! replay programs.  The check generates the code from the compiler in /repo on every run.
#![allow(dead_code, static_mut_refs, non_camel_case_types)]

#[macro_use]
#[path = "../../harness/src/nd.rs"]
pub mod nd;
#[path = "../../harness/src/refc.rs"]
pub mod refc;
#[path = "../../harness/src/stubs.rs"]
pub mod stubs;
#[path = "../../harness/src/util.rs"]
pub mod util;
#[macro_use]
#[path = "../../harness/src/mac.rs"]
mod mac;

#[path = "../../build/gen/g.rs"]
pub mod gen;
pub mod common;
modules!(g02, g03, g04);
