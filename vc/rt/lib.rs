//! vcrt: runtime of the mazth-vc verifier.
//!
//! Two builds of the same API:
//!   * default           : symbolic.  Every float of the program under verification is a NaN-boxed
//!                         handle to a hash-consed real-arithmetic term.  Branches on floats fork
//!                         the path (depth-first re-execution).  `ensure` records proof obligations.
//!   * --cfg concrete    : the same contracts evaluated on ordinary floats, to replay counterexamples
//!                         against the uninstrumented code.
#![allow(dead_code, unused, static_mut_refs)]

#[cfg(not(concrete))]
mod sym;
#[cfg(not(concrete))]
pub use sym::*;
#[cfg(concrete)]
mod conc;
#[cfg(concrete)]
pub use conc::*;

mod common;
pub use common::*;
