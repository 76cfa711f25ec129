// Values exchanged with the specification: scalars are little-endian byte arrays.
use serde_json::{json, Value};
pub fn bytes(v: &Value) -> Vec<u8> { v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect() }
macro_rules! num { ($mk:ident, $rd:ident, $t:ty) => {
    pub fn $mk(v: &Value) -> $t { let b = bytes(v); let mut a = [0u8; std::mem::size_of::<$t>()]; a.copy_from_slice(&b); <$t>::from_le_bytes(a) }
    pub fn $rd(v: &$t) -> Value { json!(v.to_le_bytes().to_vec()) }
} }
num!(mk_u8, rd_u8, u8); num!(mk_u16, rd_u16, u16); num!(mk_u32, rd_u32, u32); num!(mk_u64, rd_u64, u64);
num!(mk_i8, rd_i8, i8); num!(mk_i16, rd_i16, i16); num!(mk_i32, rd_i32, i32); num!(mk_i64, rd_i64, i64);
num!(mk_f32, rd_f32, f32); num!(mk_f64, rd_f64, f64);
pub fn mk_bool(v: &Value) -> bool { bytes(v)[0] == 1 }
pub fn rd_bool(v: &bool) -> Value { json!([*v as u8]) }
pub fn mk_str(v: &Value) -> String { String::from_utf8(bytes(v)).unwrap() }
#[allow(clippy::ptr_arg)]
pub fn rd_str(v: &String) -> Value { json!(v.as_bytes().to_vec()) }
pub fn opt<T>(v: &Value, f: impl Fn(&Value) -> T) -> Option<T> { v.as_array().unwrap().get(0).map(f) }
pub fn arr<T>(v: &Value, f: impl Fn(&Value) -> T) -> Vec<T> { v.as_array().unwrap().iter().map(f).collect() }
pub fn ropt<T>(v: &Option<T>, f: impl Fn(&T) -> Value) -> Value { match v { Some(x) => Value::Array(vec![f(x)]), None => json!([]) } }
pub fn rarr<T>(v: &Vec<T>, f: impl Fn(&T) -> Value) -> Value { Value::Array(v.iter().map(f).collect()) }
pub fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }
pub fn hex(b: &[u8]) -> String { let mut s = String::with_capacity(b.len() * 2); for x in b { s.push_str(&format!("{:02x}", x)); } s }
