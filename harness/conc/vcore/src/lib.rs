//! `core` with the scheduler's atomics.
#![allow(ambiguous_glob_reexports)]
pub use ::core::*;
pub mod sync {
    pub use vstd::sync::atomic;
}
pub mod hint {
    pub use ::core::hint::*;
    pub use vstd::hint::spin_loop;
}
