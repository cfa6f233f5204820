//! C13: parallel iteration equals sequential iteration.
#[path = "../checks/c13.rs"]
mod check;

fn main() {
    rv::engine::main(&[&check::C]);
}
