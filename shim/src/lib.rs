//! Stands in for `std` in the symbolic build of the crate: everything is re-exported unchanged except
//! `std::collections::HashSet`, which is replaced by an insertion-ordered set with the same contract.
//! (SipHash and hashbrown's SIMD probing are not what is being checked; the iteration order of the real set
//! is unspecified, and the model's order ranges over all orders because the inserted values are symbolic.)
pub use ::std::*;
mod set;
pub mod collections {
    pub use crate::set::HashSet;
    pub use ::std::collections::*;
    pub mod hash_set {
        pub use crate::set::*;
    }
}
