//! Kani harnesses over /repo.
#[cfg(kani)]
mod bits;
