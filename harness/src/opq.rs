//! An uninterpreted leaf type. The analysis never looks into these bodies; it applies the
//! codec contract of a well-behaved leaf: dec(enc(x)) = Ok(x), enc(x) is neither null nor
//! undefined. Even N: has a default value (and is_empty holds exactly for it).
//! Odd N: no default, never empty.
use oasis_cbor::{Decode, DecodeError, Encode, Value};
use std::cmp::Ordering;

pub struct Opq<const N: u8>(u64);

impl<const N: u8> Encode for Opq<N> {
    fn is_empty(&self) -> bool {
        loop {}
    }
    fn into_cbor_value(self) -> Value {
        loop {}
    }
}
impl<const N: u8> Decode for Opq<N> {
    fn try_default() -> Result<Self, DecodeError> {
        loop {}
    }
    fn try_from_cbor_value(_: Value) -> Result<Self, DecodeError> {
        loop {}
    }
}
impl<const N: u8> Default for Opq<N> {
    fn default() -> Self {
        loop {}
    }
}
impl<const N: u8> Clone for Opq<N> {
    fn clone(&self) -> Self {
        loop {}
    }
}
impl<const N: u8> PartialEq for Opq<N> {
    fn eq(&self, _: &Self) -> bool {
        loop {}
    }
}
impl<const N: u8> Eq for Opq<N> {}
impl<const N: u8> PartialOrd for Opq<N> {
    fn partial_cmp(&self, _: &Self) -> Option<Ordering> {
        loop {}
    }
}
impl<const N: u8> Ord for Opq<N> {
    fn cmp(&self, _: &Self) -> Ordering {
        loop {}
    }
}
impl<const N: u8> std::hash::Hash for Opq<N> {
    fn hash<H: std::hash::Hasher>(&self, _: &mut H) {
        loop {}
    }
}
impl<const N: u8> serde::Serialize for Opq<N> {
    fn serialize<S: serde::Serializer>(&self, _: S) -> Result<S::Ok, S::Error> {
        loop {}
    }
}
impl<'de, const N: u8> serde::Deserialize<'de> for Opq<N> {
    fn deserialize<D: serde::Deserializer<'de>>(_: D) -> Result<Self, D::Error> {
        loop {}
    }
}
pub fn is_empty_fn<const N: u8>(_: &Opq<N>) -> bool {
    loop {}
}
/// Stand-ins for user conversion functions: uninterpreted maps between leaf types.
pub fn ser_with(_: &Opq<0>) -> Opq<10> {
    loop {}
}
pub fn de_with(_: Opq<10>) -> Result<Opq<0>, DecodeError> {
    loop {}
}
