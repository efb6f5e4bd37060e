//! `std`, with the NEON stand-ins where an aarch64 processor has the real thing.
pub use ::std::*;
pub use ::std::{assert, assert_eq, assert_ne, dbg, debug_assert, debug_assert_eq, debug_assert_ne, eprint, eprintln, format};
pub use ::std::{matches, panic, print, println, thread_local, todo, unimplemented, unreachable, vec, write, writeln};
#[doc(hidden)]
pub mod neon;
pub mod arch {
    pub use crate::neon as aarch64;
    pub use ::std::arch::*;
}
