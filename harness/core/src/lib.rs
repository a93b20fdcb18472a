//! exhaustive-enumeration engine and independent reference arithmetic; does not use the crate under test
#[macro_use]
pub mod engine;
pub mod ints;
pub mod refmath;
