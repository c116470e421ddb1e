//! Properties of the ASN.1 compiler's constraint resolution as solver harnesses and native replay
//! programs.  The compiler's own modules are compiled into this crate from /repo.
#![allow(dead_code, unused, missing_docs, static_mut_refs, non_camel_case_types)]

#[macro_use]
#[path = "/repo/asn-compiler/src/error.rs"]
pub mod error;
#[macro_use]
#[path = "/repo/asn-compiler/src/tokenizer/mod.rs"]
pub mod tokenizer;
#[path = "/repo/asn-compiler/src/parser/mod.rs"]
pub mod parser;
#[path = "/repo/asn-compiler/src/resolver/mod.rs"]
pub mod resolver;
#[path = "/repo/asn-compiler/src/generator/mod.rs"]
pub mod generator;
#[path = "/repo/asn-compiler/src/compiler.rs"]
mod compiler;
pub use compiler::Asn1Compiler;

#[macro_use]
#[path = "../../harness/src/nd.rs"]
pub mod nd;
#[macro_use]
mod mac;
modules!(g01);

pub mod stubs {
    pub fn fmt_stub(_: std::fmt::Arguments<'_>) -> String {
        String::new()
    }
    /// The values that stand for the numbers of a schema: number `k` is written as the character `k`.
    pub static mut NUMBERS: [i128; 8] = [0; 8];
    /// The text of number `k` whose value is `v`.
    pub fn number(k: usize, v: i128) -> String {
        #[cfg(kani)]
        unsafe {
            NUMBERS[k] = v;
            let mut s = String::with_capacity(1);
            s.push((b'0' + k as u8) as char);
            s
        }
        #[cfg(not(kani))]
        {
            v.to_string()
        }
    }
    #[cfg(kani)]
    pub fn parse_stub<F: std::str::FromStr>(s: &str) -> Result<F, F::Err> {
        assert!(s.len() == 1 && std::mem::size_of::<F>() == 16, "not a number of the schema");
        unsafe { Ok(std::mem::transmute_copy::<i128, F>(&NUMBERS[(s.as_bytes()[0] - b'0') as usize])) }
    }
    #[cfg(kani)]
    pub fn random_state() -> std::collections::hash_map::RandomState {
        unsafe { std::mem::transmute([1u64, 2]) }
    }
}
