//! C25: comparing maps and sets with the same root takes constant time.
#[path = "../checks/c25.rs"]
mod check;

fn main() {
    rv::engine::main(&[&check::C]);
}
