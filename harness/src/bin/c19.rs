//! C19: a panicking callback never damages other versions.
#[path = "../checks/c19.rs"]
mod check;

fn main() {
    rv::engine::main(&[&check::C]);
}
