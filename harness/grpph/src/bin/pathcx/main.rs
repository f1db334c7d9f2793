//! G01, G02: the complex of grounded persistent path homology; G06: its barcodes over every field; C09: views of its bases; C12: reading columns.
mod complex;
mod fields;
mod reading;

fn main() {
    mc::main(&[("G01", complex::g01), ("G02", complex::g02), ("G06", fields::g06), ("C09", complex::c09), ("C12", reading::c12)]);
}
