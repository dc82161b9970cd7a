//! What the drivers share: grammar terms, real parsers built from them, observations.
pub mod args;
pub mod ast;
pub mod build;
pub mod gen;
pub mod obs;
pub mod prof;
pub mod rng;
pub mod val;
pub mod watch;
pub use args::{Args, Out};
