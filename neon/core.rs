//! `core`, with the same stand-ins.
pub use ::core::*;
pub use ::core::{assert, assert_eq, assert_ne, debug_assert, debug_assert_eq, debug_assert_ne};
pub use ::core::{matches, panic, todo, unimplemented, unreachable, write, writeln};
pub mod arch {
    pub use ::core::arch::*;
    pub use yneon_std::arch::aarch64;
}
