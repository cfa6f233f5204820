//! C07: iterators visit every element once and report exact lengths.
#[path = "../checks/c07.rs"]
mod check;

fn main() {
    rv::engine::main(&[&check::C]);
}
