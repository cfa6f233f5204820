//! C09: equality, order, hash and display depend only on the content.
#[path = "../checks/c09.rs"]
mod check;

fn main() {
    rv::engine::main(&[&check::C]);
}
