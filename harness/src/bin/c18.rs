//! C18: the thread-safe variants behave sequentially under concurrent use.
#[path = "../checks/c18.rs"]
mod check;

fn main() {
    rv::engine::main(&[&check::C]);
}
