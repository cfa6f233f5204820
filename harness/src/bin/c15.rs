//! C15: operations cost what the documentation says.
#[path = "../checks/c15.rs"]
mod check;

fn main() {
    rv::engine::main(&[&check::C]);
}
