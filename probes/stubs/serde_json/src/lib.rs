//! Stand-in for serde_json (not available offline): values keep their structure, and only the step between structure and
//! text is left open.
use serde::{Deserialize, Serialize};
use wire::{Value, R, W};
#[derive(Debug)]
pub struct Error(());
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("json")
    }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;
#[inline(never)]
pub fn encode(_v: Value) -> String {
    String::new()
}
#[inline(never)]
pub fn decode(_s: &str) -> Option<Value> {
    None
}
pub fn to_string<T: ?Sized + Serialize>(value: &T) -> Result<String> {
    match value.serialize(W) {
        Ok(v) => Ok(encode(v)),
        Err(_) => Err(Error(())),
    }
}
pub fn from_str<T: for<'a> Deserialize<'a>>(s: &str) -> Result<T> {
    match decode(s) {
        Some(v) => match T::deserialize(R(v)) {
            Ok(x) => Ok(x),
            Err(_) => Err(Error(())),
        },
        None => Err(Error(())),
    }
}
