//! C02: List and Stack are sequences.
#[path = "../checks/c02.rs"]
mod check;

fn main() {
    rv::engine::main(&[&check::C]);
}
