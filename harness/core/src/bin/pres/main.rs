//! R06: presentations.
#![allow(dead_code, unused_imports)]
#[path = "../red/cx.rs"]
mod cx;
mod pres;
#[path = "../red/r01.rs"]
mod r01;
#[path = "../red/rc.rs"]
mod rc;
#[path = "../red/run.rs"]
mod run;

fn main() {
    mc::main(&[("R06", pres::r06)]);
}
