//! Facade over the monitors' machinery.
extern crate zc32 as _;
extern crate zc64 as _;
extern crate zf32 as _;
extern crate zf64 as _;
pub use hhc::*;
