//! Parts shared by the checkers of this crate: coefficient fields, raw matrices, comparisons.
pub mod conc;
pub mod fuse;
pub mod pure;
pub mod raw;
pub mod tf;
pub mod user;
