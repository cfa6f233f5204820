//! C17: no operation overflows the stack, however large the structure.
#[path = "../checks/c17.rs"]
mod check;

fn main() {
    if std::env::args().nth(1).as_deref() == Some("serve") {
        rv::serve::serve(&check::C);
        return;
    }
    rv::engine::main(&[&check::C]);
}
