//! C12: serialization round-trips and rejects malformed input cleanly.
#[path = "../checks/c12.rs"]
mod check;

fn main() {
    rv::engine::main(&[&check::C]);
}
