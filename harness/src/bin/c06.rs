//! C06: red-black tree map and set are sorted finite maps.
#[path = "../checks/c06.rs"]
mod check;

fn main() {
    rv::engine::main(&[&check::C]);
}
