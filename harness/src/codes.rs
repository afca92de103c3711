//! Texts travel as arrays of code points.
use serde_json::{json, Value};

pub fn enc(s: &str) -> Value {
    Value::Array(s.chars().map(|c| Value::from(c as u32)).collect())
}
pub fn dec(v: &Value) -> String {
    v.as_array()
        .unwrap_or_else(|| panic!("harness: text expected, got {v}"))
        .iter()
        .map(|c| char::from_u32(c.as_u64().expect("harness: code point") as u32).expect("harness: scalar"))
        .collect()
}
pub fn enc_opt(s: Option<&str>) -> Value {
    match s {
        None => json!([]),
        Some(s) => json!([enc(s)]),
    }
}
pub fn dec_opt(v: &Value) -> Option<String> {
    let a = v.as_array().expect("harness: option expected");
    a.first().map(dec)
}
pub fn enc_bytes(b: &[u8]) -> Value {
    Value::Array(b.iter().map(|c| Value::from(*c as u32)).collect())
}
pub fn dec_bytes(v: &Value) -> Vec<u8> {
    v.as_array().expect("harness: bytes").iter().map(|c| c.as_u64().unwrap() as u8).collect()
}
pub fn uint(v: &Value, k: &str) -> usize {
    v[k].as_u64().unwrap_or_else(|| panic!("harness: field {k} missing in {v}")) as usize
}
pub fn path(v: &Value, k: &str) -> Vec<usize> {
    v[k].as_array().unwrap_or_else(|| panic!("harness: path {k} missing in {v}")).iter().map(|x| x.as_u64().unwrap() as usize).collect()
}
