//! `#[serde(with = "serde_regex")]` for lists of regular expressions.
use regex::Regex;
use serde::{de::Error, Deserialize, Deserializer, Serialize, Serializer};

pub fn serialize<S: Serializer>(value: &[Regex], serializer: S) -> Result<S::Ok, S::Error> {
    value.iter().map(Regex::as_str).collect::<Vec<_>>().serialize(serializer)
}

pub fn deserialize<'de, D: Deserializer<'de>>(deserializer: D) -> Result<Vec<Regex>, D::Error> {
    Vec::<String>::deserialize(deserializer)?.iter().map(|t| Regex::new(t).map_err(D::Error::custom)).collect()
}
