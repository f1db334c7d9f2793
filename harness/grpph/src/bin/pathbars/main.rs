//! G03-G05: barcodes and representatives, through the Python functions only.
mod bars;

fn main() {
    mc::main(&[("G03", bars::g03), ("G04", bars::g04), ("G05", bars::g05)]);
}
