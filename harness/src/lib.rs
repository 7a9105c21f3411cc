//! Symbolic harness entry points (compiled to LLVM IR and executed by `symex`).
mod h;
