//! Offline stand-in for the subset of `fixed` 1.11 (mango fork, "debug-assert-in-release") that
//! mango-v4 uses.  Semantics reproduced from the `fixed` documentation:
//!  - add/sub/neg/mul/div panic on overflow (debug-assert-in-release)
//!  - mul rounds towards -inf (arithmetic shift of the double-width product)
//!  - div truncates towards zero
//!  - conversion to integers rounds towards -inf, from floats rounds to nearest (ties to even)
//!  - conversion to floats rounds to nearest (ties to even)
#![allow(clippy::all)]

pub mod types;
pub mod traits {
    pub use crate::types::{FixedFrom as ToFixed, FixedTo as FromFixed};
    pub use crate::types::{Fixed, FixedSigned, FixedUnsigned, LossyFrom, LossyInto};
}
