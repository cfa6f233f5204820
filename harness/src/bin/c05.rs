//! C05: hash trie map and set are finite maps.
#[path = "../checks/c05.rs"]
mod check;

fn main() {
    rv::engine::main(&[&check::C]);
}
