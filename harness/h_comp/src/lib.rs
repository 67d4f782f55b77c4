//! Universes of subgraphs for the composition monitors, and a model of what they must compose to.
pub mod universe;
pub mod model;
pub mod sut;
pub mod invalid;
pub mod normal;
pub mod hostile;
