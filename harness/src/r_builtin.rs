//! Roots: codecs of the built-in types.
use crate::opq::Opq;
use oasis_cbor::{from_slice, from_slice_non_strict, from_value, to_value, to_vec, Decode, DecodeError, Encode, EncodeAsMap, Value};
use std::collections::*;

#[macro_export]
macro_rules! codec {
    ($($m:ident: $t:ty;)*) => { $(
        pub mod $m {
            use super::*;
            pub fn enc(x: $t) -> Value { to_value(x) }
            pub fn opt(x: $t) -> Option<Value> { x.into_optional_cbor_value() }
            pub fn dec(v: Value) -> Result<$t, DecodeError> { from_value(v) }
            pub fn tdec(v: Value) -> Result<$t, DecodeError> { <$t as Decode>::try_from_cbor_value(v) }
            pub fn rt(x: $t) -> Result<$t, DecodeError> { from_value(to_value(x)) }
            pub fn dflt() -> Result<$t, DecodeError> { <$t as Decode>::try_default() }
        }
    )* };
}
#[macro_export]
macro_rules! isempty {
    ($($m:ident: $t:ty;)*) => { $( pub fn $m(x: $t) -> bool { Encode::is_empty(&x) } )* };
}
codec! {
    t_u8: u8; t_u16: u16; t_u32: u32; t_u64: u64; t_u128: u128;
    t_i8: i8; t_i16: i16; t_i32: i32; t_i64: i64;
    t_bool: bool; t_char: char; t_string: String; t_unit: (); t_value: Value;
    t_bytes: Vec<u8>; t_b0: [u8; 0]; t_b1: [u8; 1]; t_b4: [u8; 4]; t_b32: [u8; 32];
    t_vec: Vec<Opq<0>>; t_vec1: Vec<Opq<1>>; t_vecvec: Vec<Vec<u8>>;
    t_arr0: [Opq<0>; 0]; t_arr1: [Opq<0>; 1]; t_arr3: [Opq<1>; 3];
    t_opt: Option<Opq<0>>; t_opt1: Option<Opq<1>>; t_optvec: Option<Vec<u8>>;
    t_tup1: (Opq<0>,); t_tup2: (Opq<0>, Opq<1>); t_tup3: (Opq<0>, Opq<2>, Opq<4>);
    t_tup10: (Opq<0>, Opq<2>, Opq<4>, Opq<6>, Opq<0>, Opq<2>, Opq<4>, Opq<6>, Opq<0>, Opq<2>);
    t_bmap: BTreeMap<Opq<0>, Opq<1>>; t_bset: BTreeSet<Opq<0>>;
    t_hmap: HashMap<Opq<0>, Opq<1>>; t_hset: HashSet<Opq<0>>;
}
pub mod ie {
    use super::*;
    isempty! {
        e_u8: u8; e_u16: u16; e_u32: u32; e_u64: u64; e_u128: u128;
        e_i8: i8; e_i16: i16; e_i32: i32; e_i64: i64;
        e_bool: bool; e_char: char; e_string: String; e_unit: (); e_value: Value;
        e_bytes: Vec<u8>; e_b4: [u8; 4]; e_vec: Vec<Opq<0>>; e_arr1: [Opq<0>; 1];
        e_opt: Option<Opq<0>>; e_tup1: (Opq<0>,); e_tup2: (Opq<0>, Opq<2>); e_tup3: (Opq<0>, Opq<2>, Opq<4>);
        e_bmap: BTreeMap<Opq<0>, Opq<1>>; e_bset: BTreeSet<Opq<0>>;
        e_hmap: HashMap<Opq<0>, Opq<1>>; e_hset: HashSet<Opq<0>>;
    }
    pub fn r_str(x: &str) -> bool { Encode::is_empty(&x) }
    pub fn r_u8(x: &u8) -> bool { Encode::is_empty(&x) }
    pub fn r_u64(x: &u64) -> bool { Encode::is_empty(&x) }
    pub fn r_i64(x: &i64) -> bool { Encode::is_empty(&x) }
    pub fn r_u128(x: &u128) -> bool { Encode::is_empty(&x) }
}
pub mod refs {
    use super::*;
    pub fn u8(x: &u8) -> Value { to_value(x) }
    pub fn u16(x: &u16) -> Value { to_value(x) }
    pub fn u32(x: &u32) -> Value { to_value(x) }
    pub fn u64(x: &u64) -> Value { to_value(x) }
    pub fn i8(x: &i8) -> Value { to_value(x) }
    pub fn i16(x: &i16) -> Value { to_value(x) }
    pub fn i32(x: &i32) -> Value { to_value(x) }
    pub fn i64(x: &i64) -> Value { to_value(x) }
    pub fn u128(x: &u128) -> Value { to_value(x) }
    pub fn str(x: &str) -> Value { to_value(x) }
}
/// Keys whose encodings may be equal although the keys are not.
pub mod twins {
    use super::*;
    type K = Option<()>;
    pub fn bmap(x: BTreeMap<K, Opq<1>>) -> Value { to_value(x) }
    pub fn hmap(x: HashMap<K, Opq<1>>) -> Value { to_value(x) }
    pub fn bset(x: BTreeSet<K>) -> Value { to_value(x) }
    pub fn hset(x: HashSet<K>) -> Value { to_value(x) }
}
pub mod asmap {
    use super::*;
    pub fn bmap(x: BTreeMap<Opq<0>, Opq<1>>) -> Vec<(Value, Value)> { x.into_cbor_map() }
    pub fn hmap(x: HashMap<Opq<0>, Opq<1>>) -> Vec<(Value, Value)> { x.into_cbor_map() }
    pub fn bmap_v(x: BTreeMap<Opq<0>, Opq<1>>) -> Value { x.into_cbor_value_map() }
    pub fn hmap_v(x: HashMap<Opq<0>, Opq<1>>) -> Value { x.into_cbor_value_map() }
}
pub mod top {
    use super::*;
    pub fn dec_default(v: Value) -> Result<Opq<0>, DecodeError> { from_value(v) }
    pub fn dec_default1(v: Value) -> Result<Opq<1>, DecodeError> { from_value(v) }
    pub fn from_slice_value(d: &[u8]) -> Result<Value, DecodeError> { from_slice(d) }
    pub fn from_slice_opq(d: &[u8]) -> Result<Opq<0>, DecodeError> { from_slice(d) }
    pub fn from_slice_opq1(d: &[u8]) -> Result<Opq<1>, DecodeError> { from_slice(d) }
    pub fn from_slice_lax_opq(d: &[u8]) -> Result<Opq<0>, DecodeError> { from_slice_non_strict(d) }
    pub fn to_vec_value(v: Value) -> Vec<u8> { to_vec(v) }
    pub fn to_vec_opq(v: Opq<0>) -> Vec<u8> { to_vec(v) }
}
