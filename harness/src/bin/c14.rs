//! C14: red-black trees stay balanced.
#[path = "../checks/c14.rs"]
mod check;

fn main() {
    rv::engine::main(&[&check::C]);
}
