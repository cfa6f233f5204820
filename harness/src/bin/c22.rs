//! C22: the memory footprint does not depend on the history.
#[path = "../checks/c22.rs"]
mod check;

fn main() {
    rv::engine::main(&[&check::C]);
}
