//! C10: set relations agree with set theory.
#[path = "../checks/c10.rs"]
mod check;

fn main() {
    rv::engine::main(&[&check::C]);
}
