//! C03: Queue is FIFO.
#[path = "../checks/c03.rs"]
mod check;

fn main() {
    rv::engine::main(&[&check::C]);
}
