//! C11: in-place and persistent operations are the same operation.
#[path = "../checks/c11.rs"]
mod check;

fn main() {
    rv::engine::main(&[&check::C]);
}
