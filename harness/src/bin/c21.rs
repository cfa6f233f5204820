//! C21: construction works for every configuration and every source iterator.
#[path = "../checks/c21.rs"]
mod check;

fn main() {
    rv::engine::main(&[&check::C]);
}
