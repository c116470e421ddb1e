//! Properties of derived codecs (asn1_codecs_derive) as solver harnesses and native replay programs.
#![allow(dead_code, static_mut_refs, non_camel_case_types)]

#[macro_use]
#[path = "../../harness/src/nd.rs"]
pub mod nd;
#[path = "../../harness/src/refc.rs"]
pub mod refc;
#[path = "../../harness/src/stubs.rs"]
pub mod stubs;
#[path = "../../harness/src/util.rs"]
pub mod util;
#[macro_use]
#[path = "../../harness/src/mac.rs"]
mod mac;

pub mod types;
modules!(d01, d02, d03, d04, d05);
