//! V01-V06: Vietoris-Rips complexes.
mod v;
mod cli;
mod oracle;

fn main() {
    mc::main(&[
        ("V01", v::v01),
        ("V02", v::v02),
        ("V03", v::v03),
        ("V04", v::v04),
        ("V05", cli::v05),
        ("V06", v::v06),
    ]);
}
