//! C08: range queries return exactly the keys inside the bounds.
#[path = "../checks/c08.rs"]
mod check;

fn main() {
    rv::engine::main(&[&check::C]);
}
