//! Scenarios the analyser interprets abstractly. Nothing in here is ever run:
//! `any()` is an arbitrary value, `region(n)` an arbitrary buffer, `again()`
//! an arbitrary number of iterations, `claim*` an obligation.
#![no_std]
#![allow(unused_imports, unused_must_use, unused_variables, unused_mut, clippy::all)]
pub mod intr;
pub mod m;
pub mod d;
pub mod e;
pub mod b;
pub mod f;
pub mod o;
pub mod r;
pub mod t;
pub mod s;
