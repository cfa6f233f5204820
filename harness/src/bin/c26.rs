//! C26: in-place updates of a version that shares nothing reuse its nodes.
#[path = "../checks/c26.rs"]
mod check;

fn main() {
    rv::engine::main(&[&check::C]);
}
