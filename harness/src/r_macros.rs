//! Roots: the public helper macros and conversions of the value crate.

use oasis_cbor::values::{IntoCborValue as I, IntoCborValueOption as IO};
use oasis_cbor::Value;
use oasis_cbor::{cbor_array, cbor_array_vec, cbor_bool, cbor_bytes, cbor_bytes_lit, cbor_false, cbor_int, cbor_map, cbor_map_collection, cbor_map_options, cbor_null, cbor_tagged, cbor_text, cbor_true, cbor_undefined, cbor_unsigned, destructure_cbor_map};

pub fn from_u64(x: u64) -> Value { I::into_cbor_value(x) }
pub fn from_i64(x: i64) -> Value { I::into_cbor_value(x) }
pub fn from_i32(x: i32) -> Value { I::into_cbor_value(x) }
pub fn from_bytes(x: Vec<u8>) -> Value { I::into_cbor_value(x) }
pub fn from_slice_u8(x: &[u8]) -> Value { I::into_cbor_value(x) }
pub fn from_string(x: String) -> Value { I::into_cbor_value(x) }
pub fn from_str(x: &str) -> Value { I::into_cbor_value(x) }
pub fn from_arr(x: Vec<Value>) -> Value { I::into_cbor_value(x) }
pub fn from_map(x: Vec<(Value, Value)>) -> Value { I::into_cbor_value(x) }
pub fn from_bool(x: bool) -> Value { I::into_cbor_value(x) }
pub fn opt_val(x: u64) -> Option<Value> { IO::into_cbor_value_option(x) }
pub fn opt_opt(x: Option<u64>) -> Option<Value> { IO::into_cbor_value_option(x) }

pub fn m_map(a: u64, b: String, c: bool) -> Value { cbor_map! { 3 => a, "k" => b, 1 => c, } }
pub fn m_map_opt(a: Option<u64>, b: Option<String>, c: bool) -> Value { cbor_map_options! { 3 => a, "k" => b, 1 => c, } }
pub fn m_map_coll(a: Vec<(Value, Value)>) -> Value { cbor_map_collection!(a) }
pub fn m_array(a: u64, b: String, c: bool) -> Value { cbor_array![a, b, c] }
pub fn m_array_vec(a: Vec<Value>) -> Value { cbor_array_vec!(a) }
pub fn m_true() -> Value { cbor_true!() }
pub fn m_false() -> Value { cbor_false!() }
pub fn m_null() -> Value { cbor_null!() }
pub fn m_undefined() -> Value { cbor_undefined!() }
pub fn m_bool(x: bool) -> Value { cbor_bool!(x) }
pub fn m_unsigned(x: u64) -> Value { cbor_unsigned!(x) }
pub fn m_int(x: i64) -> Value { cbor_int!(x) }
pub fn m_text(x: &str) -> Value { cbor_text!(x) }
pub fn m_bytes(x: Vec<u8>) -> Value { cbor_bytes!(x) }
pub fn m_bytes_lit(x: &[u8]) -> Value { cbor_bytes_lit!(x) }
pub fn m_tagged(t: u64, x: Value) -> Value { cbor_tagged!(t, x) }
/// Keys in ascending canonical order: 1, 20, -3, "key".
pub fn m_destructure(map: Vec<(Value, Value)>) -> (Option<Value>, Option<Value>, Option<Value>, Option<Value>) {
    destructure_cbor_map! {
        let {
            1 => a,
            20 => b,
            -3 => c,
            "key" => d,
        } = map;
    }
    (a, b, c, d)
}
