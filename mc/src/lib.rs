//! Shared parts of the model-checking programs.
pub mod ctx;
pub mod model;
pub mod poison;
