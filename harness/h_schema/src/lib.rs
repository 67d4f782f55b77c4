//! Monitors of the schema tools: diff, patch, checks, validation, lint.
pub mod model;
pub mod schemas;
pub mod ops;
pub mod checks;
pub mod valid;
