//! Reference algorithms the decompositions of rust-la are compared with (value-graph bisimulation, sa/vg.py).
//! Written from the textbook definitions and the EISPACK/LINPACK procedures (Golub & Van Loan; Handbook for
//! Automatic Computation II: tred2, tql2, orthes, hqr2; LINPACK dsvdc), row-major flat storage, no shared code
//! with the crate under analysis.  It is only type-checked and analysed, never run.
#![allow(clippy::all)]

pub mod linear;
pub mod plain;
pub mod singular;
pub mod spectral;
pub mod text;

/// storage whose contents are unspecified until written
pub fn unspecified(n: usize) -> Vec<f64> {
    vec![0.0; n]
}

pub fn unspecified_index(n: usize) -> Vec<usize> {
    vec![0; n]
}

/// sqrt(a^2 + b^2) from a ratio of magnitude at most one
pub fn hyp(a: f64, b: f64) -> f64 {
    if a.abs() > b.abs() {
        let q = b / a;
        a.abs() * (1.0 + q * q).sqrt()
    } else if b != 0.0 {
        let q = a / b;
        b.abs() * (1.0 + q * q).sqrt()
    } else {
        0.0
    }
}

pub fn machine_eps() -> f64 {
    2.0f64.powf(-52.0)
}
