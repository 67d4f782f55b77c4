//! The same functions from serde_json.
pub use serde_json::{from_slice, from_str, to_string, to_string_pretty, to_vec, to_writer, Deserializer, Error, Result, Value};
