//! Shared by the path homology checkers.
pub mod dg;
pub mod py;
