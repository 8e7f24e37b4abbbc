//! Kani proofs: the contracts of `spec`, `easter` and `cals` as postconditions of the compiled
//! functions of /repo, for symbolic inputs over the whole stated domain.

mod calendars;
#[cfg(feature = "full")]
mod chrono_model;
#[cfg(feature = "full")]
mod frac;
#[cfg(feature = "full")]
mod time;
