//! Property-based testing machinery for rpds: engine, instrumented elements, hashers and pointer kinds, and the
//! model-based subjects shared by the property binaries in `src/bin`.
pub mod alloc;
pub mod elem;
pub mod ends;
pub mod engine;
pub mod hist;
pub mod ptrs;
pub mod routes;
pub mod sched;
pub mod serve;
pub mod subj;
