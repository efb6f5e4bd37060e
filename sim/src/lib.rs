//! Simulation library: seeded randomness, the independent shogi model, generators,
//! observations of the library under test, and the session world.
pub mod abuse;
pub mod cli;
pub mod extremes;
pub mod gen;
pub mod grind;
pub mod hands;
pub mod host;
pub mod lives;
pub mod obs;
pub mod price;
pub mod prng;
pub mod refmodel;
pub mod session;
pub mod script;
pub mod keys;
pub mod memory;
pub mod twins;
