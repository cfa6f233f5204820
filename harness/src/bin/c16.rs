//! C16: elements are released exactly once, exactly when unreachable, and cloned only by mutable access to a shared one.
#[path = "../checks/c16.rs"]
mod check;

fn main() {
    rv::engine::main(&[&check::C]);
}
