//! Bounded model checking (Kani/CBMC) of the two parts whose inputs are not
//! points of an abstract order: machine integers (C15) and text (C21).
//! The checks are plain functions, so that a counterexample replays natively.
pub mod ints;
pub mod text;
