//! Contracts on the code in /repo, written once and used three ways: as the postconditions of the
//! Kani proofs (`proofs`, compiled only under `cfg(kani)`), as the oracles of the native
//! search/replay binary (`chk_*`), and, for the chrono contracts that the proofs assume, as the
//! predicates that are validated natively.
#![allow(clippy::all)]
// a calendar's `is_business_day` exists in both Calendar traits
#![allow(unstable_name_collisions)]

pub mod cals;
pub mod easter;
pub mod spec;
pub mod tables;
pub mod value_type;

#[cfg(not(kani))]
pub mod chk_cal;
#[cfg(not(kani))]
pub mod chk_chrono;
#[cfg(all(not(kani), feature = "full"))]
pub mod chk_math;
#[cfg(all(not(kani), feature = "full"))]
pub mod chk_nalgebra;
#[cfg(all(not(kani), feature = "full"))]
pub mod chk_time;
#[cfg(not(kani))]
pub mod engine;
#[cfg(all(not(kani), feature = "full"))]
pub mod fp;

#[cfg(kani)]
mod proofs;
