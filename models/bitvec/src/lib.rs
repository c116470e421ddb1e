//! Solver-friendly model of the parts of `bitvec` 1.x that hampi (or a plausible edit of it) uses.
//!
//! A bit sequence is held in `WORDS` machine words of 128 bits; every operation is a handful of
//! shifts and selects, so that a symbolic offset or length costs a barrel shifter instead of a
//! walk over the real crate's pointer encoding.  The observable semantics follow bitvec 1.0.1,
//! including the memory-layout corners hampi depends on (head offsets kept by `from_bitslice`,
//! element-wise little-endian `load`, raw elements returned by `into_vec`, `force_align`).
//! `models/difftest` compares the model with the real crate; counterexamples are replayed on the
//! real crate before they are reported.
//!
//! Exceeding the fixed capacity is reported as `MODEL-CAP` (an inconclusive run), anything the
//! model does not implement as `MODEL-UNSUPPORTED`.
#![feature(specialization)]
#![allow(incomplete_features, dead_code, clippy::all)]

pub mod field;
pub mod index_impl;
pub mod iter;
pub mod macros;
pub mod order;
pub mod ptr;
pub mod slice;
pub mod store;
pub mod vec;
pub mod view;
pub mod raw;

pub mod access {}
pub mod mem {
    pub use crate::store::BitRegister;
}

pub mod boxed {
    pub type BitBox<T = usize, O = crate::order::Lsb0> = crate::vec::BitVec<T, O>;
}

pub mod prelude {
    pub use crate::bits;
    pub use crate::bitvec;
    pub use crate::boxed::BitBox;
    pub use crate::field::BitField;
    pub use crate::order::{BitOrder, LocalBits, Lsb0, Msb0};
    pub use crate::ptr::BitRef;
    pub use crate::slice::BitSlice;
    pub use crate::store::BitStore;
    pub use crate::vec::BitVec;
    pub use crate::view::{AsBits, AsMutBits, BitView, BitViewSized};
}
