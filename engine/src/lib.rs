#![allow(clippy::all)]
pub mod attack;
pub mod binding;
pub mod breaks;
pub mod circ;
pub mod driver;
pub mod dse;
pub mod env;
pub mod forge;
pub mod props;
pub mod sess;
pub mod smt;
pub mod sym;
