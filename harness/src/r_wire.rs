//! Roots: the wire layer, reached through the public functions only.
use oasis_cbor::{reader, values::Constants, writer, SimpleValue, Value};
use std::cmp::Ordering;

pub fn read_strict(data: &[u8], nest: Option<i8>) -> Result<Value, reader::DecoderError> {
    reader::read_nested(data, nest)
}
pub fn read_lax(data: &[u8], nest: Option<i8>) -> Result<Value, reader::DecoderError> {
    reader::read_nested_non_strict(data, nest)
}
pub fn read(data: &[u8]) -> Result<Value, reader::DecoderError> {
    reader::read(data)
}
pub fn write_nested(value: Value, out: &mut Vec<u8>, nest: Option<i8>) -> Result<(), writer::EncoderError> {
    writer::write_nested(value, out, nest)
}
pub fn write(value: Value, out: &mut Vec<u8>) -> Result<(), writer::EncoderError> {
    writer::write(value, out)
}
pub fn cmp(a: &Value, b: &Value) -> Ordering {
    a.cmp(b)
}
pub fn partial_cmp(a: &Value, b: &Value) -> Option<Ordering> {
    a.partial_cmp(b)
}
pub fn eq(a: &Value, b: &Value) -> bool {
    a == b
}
pub fn from_integer(n: u64) -> Option<SimpleValue> {
    SimpleValue::from_integer(n)
}
pub fn integer(n: i64) -> Value {
    Value::integer(n)
}
pub fn bool_value(b: bool) -> Value {
    Value::bool_value(b)
}
pub fn type_label(v: &Value) -> u8 {
    v.type_label()
}
pub fn clone(a: &Value) -> Value {
    a.clone()
}
