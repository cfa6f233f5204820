//! C01: old versions never change.
#[path = "../checks/c01.rs"]
mod check;

fn main() {
    rv::engine::main(&[&check::C]);
}
