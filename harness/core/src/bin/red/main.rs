//! R01-R05: the reduction algorithms.
#![allow(dead_code, unused_imports)]
mod cx;
mod r01;
mod rc;
mod run;

fn main() {
    mc::main(&[
        ("R01", r01::r01),
        ("R02", rc::r02),
        ("R03", rc::r03),
        ("R04", rc::r04),
        ("R05", rc::r05),
    ]);
}
