//! C04: Vector is an indexed sequence.
#[path = "../checks/c04.rs"]
mod check;

fn main() {
    rv::engine::main(&[&check::C]);
}
