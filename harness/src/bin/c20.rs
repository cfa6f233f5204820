//! C20: ptr_eq is sound and holds for clones.
#[path = "../checks/c20.rs"]
mod check;

fn main() {
    rv::engine::main(&[&check::C]);
}
