//! Names the crates generated programs link against.
