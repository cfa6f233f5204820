//! C24: a panicking callback leaves the version being updated in place intact.
#[path = "../checks/c24.rs"]
mod check;

fn main() {
    rv::engine::main(&[&check::C]);
}
