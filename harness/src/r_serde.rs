//! Roots: the serde compatibility layer.
use crate::opq::Opq;
use oasis_cbor::serde::{from_slice, from_value, to_value, to_vec, Error};
use oasis_cbor::Value;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

type A = Opq<0>;
type C = Opq<2>;

macro_rules! sc {
    ($($m:ident: $t:ty;)*) => { $(
        pub mod $m {
            use super::*;
            pub fn enc(x: &$t) -> Result<Value, Error> { to_value(x) }
            pub fn dec(v: Value) -> Result<$t, Error> { from_value(v) }
            pub fn rt(x: $t) -> Result<$t, Error> { from_value(to_value(&x)?) }
        }
    )* };
}
#[derive(Serialize, Deserialize)]
pub struct Named { pub b: A, pub aa: C }
#[derive(Serialize, Deserialize)]
#[serde(deny_unknown_fields)]
pub struct Deny { pub b: A, pub aa: C }
#[derive(Serialize, Deserialize)]
pub struct Newt(pub A);
#[derive(Serialize, Deserialize)]
pub struct Tup(pub A, pub C);
#[derive(Serialize, Deserialize)]
pub struct Unit;
#[derive(Serialize, Deserialize)]
pub enum En { U, N(A), T(A, C), S { x: A, y: C } }

sc! {
    t_bool: bool; t_u8: u8; t_u16: u16; t_u32: u32; t_u64: u64; t_u128: u128;
    t_i8: i8; t_i16: i16; t_i32: i32; t_i64: i64; t_i128: i128;
    t_f32: f32; t_f64: f64; t_char: char; t_string: String; t_unit: ();
    t_bytes: serde_bytes::ByteBuf; t_opt: Option<A>; t_vec: Vec<A>; t_tup2: (A, C); t_arr2: [A; 2];
    s_named: Named; s_deny: Deny; s_newt: Newt; s_tup: Tup; s_unit: Unit; e_en: En; t_bmap: BTreeMap<A, C>;
}
pub fn from_slice_opq(d: &[u8]) -> Result<A, Error> { from_slice(d) }
pub fn to_vec_opq(x: &A) -> Result<Vec<u8>, Error> { to_vec(x) }

// ---- field attributes, nesting and representations
#[derive(Serialize, Deserialize)]
pub struct SDef { #[serde(default)] pub d: C, #[serde(rename = "zz")] pub q: A }
#[derive(Serialize, Deserialize)]
pub struct SOpt { pub o: Option<A>, pub x: A }
#[derive(Serialize, Deserialize)]
pub struct SSkipIf { #[serde(default, skip_serializing_if = "Option::is_none")] pub p: Option<A>, pub x: A }
#[derive(Serialize, Deserialize)]
pub struct SSkip { #[serde(skip)] pub s: C, pub x: A }
#[derive(Serialize, Deserialize)]
pub struct SNest { pub n: Named, pub t: Tup }
#[derive(Serialize, Deserialize)]
pub struct SMix { pub e: En, pub w: Newt }
#[derive(Serialize, Deserialize)]
pub struct SEmpty {}
#[derive(Serialize, Deserialize)]
pub struct Tup1(pub A, #[serde(skip)] pub C);
#[derive(Serialize, Deserialize)]
pub struct NewtOpt(pub Option<A>);
#[derive(Serialize, Deserialize)]
#[serde(transparent)]
pub struct Trans { pub a: A }
#[derive(Serialize, Deserialize)]
pub enum Fl { One, #[serde(rename = "zwei")] Two, #[serde(rename_all = "UPPERCASE")] Three { ab: A }, Four {}, Five(Option<A>), Six(()), Seven(Named) }
#[derive(Serialize, Deserialize)]
pub struct SOpts { pub x: Option<A>, pub y: Option<C>, pub z: () }
#[derive(Serialize, Deserialize)]
pub struct TOpts(pub Option<A>, pub Option<C>);
#[derive(Serialize, Deserialize)]
pub enum EOpts { S { x: Option<A>, y: Option<C> }, T(Option<A>, Option<C>), N(Option<A>) }
#[derive(Serialize)]
pub struct SColl { pub a: A, pub s: String, pub v: Vec<A>, pub w: Vec<C> }
#[derive(Serialize)]
pub struct Flat { pub a: A, #[serde(flatten)] pub n: Named, pub z: C }
#[derive(Serialize)]
#[serde(tag = "t")]
pub enum Int { U, N(Named), S { x: A, y: C } }
#[derive(Serialize)]
#[serde(tag = "t", content = "c")]
pub enum Adj { U, N(A), T(A, C), S { x: A, y: C } }
#[derive(Serialize)]
#[serde(untagged)]
pub enum Unt { U, N(A), T(A, C), S { x: A, y: C } }

/// A list of unknown length.
pub struct Sq(pub Vec<A>);
impl Serialize for Sq {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::SerializeSeq;
        let mut q = s.serialize_seq(None)?;
        for x in &self.0 {
            q.serialize_element(x)?;
        }
        q.end()
    }
}
/// A map of unknown length, with keys and values given apart.
pub struct Mp(pub Vec<(A, C)>);
impl Serialize for Mp {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::SerializeMap;
        let mut q = s.serialize_map(None)?;
        for (k, v) in &self.0 {
            q.serialize_key(k)?;
            q.serialize_value(v)?;
        }
        q.end()
    }
}
/// The same, announced with a wrong length.
pub struct Mq(pub Vec<(A, C)>);
impl Serialize for Mq {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::SerializeMap;
        let mut q = s.serialize_map(Some(7))?;
        for (k, v) in &self.0 {
            q.serialize_entry(k, v)?;
        }
        q.end()
    }
}

/// What a visitor is offered.
pub enum P {
    I(i128),
    B(Vec<u8>),
    T(String),
    L(bool),
    X(char),
    Nil,
    Nothing,
    Just(A),
    Seq(Vec<A>),
    Map(Vec<(A, C)>),
}
pub struct Vis;
impl<'de> serde::de::Visitor<'de> for Vis {
    type Value = P;
    fn expecting(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) }
    fn visit_bool<E: serde::de::Error>(self, v: bool) -> Result<P, E> { Ok(P::L(v)) }
    fn visit_i64<E: serde::de::Error>(self, v: i64) -> Result<P, E> { Ok(P::I(v as i128)) }
    fn visit_i128<E: serde::de::Error>(self, v: i128) -> Result<P, E> { Ok(P::I(v)) }
    fn visit_u64<E: serde::de::Error>(self, v: u64) -> Result<P, E> { Ok(P::I(v as i128)) }
    fn visit_char<E: serde::de::Error>(self, v: char) -> Result<P, E> { Ok(P::X(v)) }
    fn visit_str<E: serde::de::Error>(self, v: &str) -> Result<P, E> { Ok(P::T(v.to_owned())) }
    fn visit_bytes<E: serde::de::Error>(self, v: &[u8]) -> Result<P, E> { Ok(P::B(v.to_vec())) }
    fn visit_unit<E: serde::de::Error>(self) -> Result<P, E> { Ok(P::Nil) }
    fn visit_none<E: serde::de::Error>(self) -> Result<P, E> { Ok(P::Nothing) }
    fn visit_some<D: serde::Deserializer<'de>>(self, d: D) -> Result<P, D::Error> { Ok(P::Just(A::deserialize(d)?)) }
    fn visit_seq<S: serde::de::SeqAccess<'de>>(self, mut s: S) -> Result<P, S::Error> {
        let mut r = Vec::new();
        while let Some(x) = s.next_element()? {
            r.push(x);
        }
        Ok(P::Seq(r))
    }
    fn visit_map<S: serde::de::MapAccess<'de>>(self, mut s: S) -> Result<P, S::Error> {
        let mut r = Vec::new();
        while let Some(k) = s.next_key()? {
            let v = s.next_value()?;
            r.push((k, v));
        }
        Ok(P::Map(r))
    }
}
macro_rules! probe {
    ($($m:ident: $f:ident($($a:expr),*);)*) => { $(
        pub mod $m {
            use super::*;
            pub struct Q(pub P);
            impl<'de> Deserialize<'de> for Q {
                fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Q, D::Error> { Ok(Q(d.$f($($a,)* Vis)?)) }
            }
            pub fn dec(v: Value) -> Result<P, Error> {
                let q: Q = from_value(v)?;
                Ok(q.0)
            }
        }
    )* };
}
probe! {
    p_any: deserialize_any(); p_bool: deserialize_bool(); p_i8: deserialize_i8(); p_i64: deserialize_i64(); p_u8: deserialize_u8(); p_u64: deserialize_u64();
    p_f32: deserialize_f32(); p_f64: deserialize_f64(); p_char: deserialize_char();
    p_str: deserialize_str(); p_string: deserialize_string(); p_bytes: deserialize_bytes(); p_byte_buf: deserialize_byte_buf();
    p_option: deserialize_option(); p_unit: deserialize_unit(); p_unit_struct: deserialize_unit_struct("X");
    p_newtype: deserialize_newtype_struct("X"); p_seq: deserialize_seq(); p_tuple: deserialize_tuple(2); p_tuple_struct: deserialize_tuple_struct("X", 2);
    p_map: deserialize_map(); p_struct: deserialize_struct("X", &["a"]); p_ident: deserialize_identifier(); p_ignored: deserialize_ignored_any();
}
sc! {
    s_def: SDef; s_opt: SOpt; s_skip: SSkip; s_nest: SNest; s_mix: SMix; s_empty: SEmpty; s_tup1: Tup1; s_newtopt: NewtOpt; s_trans: Trans; e_fl: Fl;
    s_skipif: SSkipIf; s_opts: SOpts; s_topts: TOpts; e_opts: EOpts; t_box: Box<A>; t_arr0: [A; 0]; t_tup1: (A,); t_optvec: Option<Vec<A>>; t_vecopt: Vec<Option<A>>; t_smap: BTreeMap<String, A>; t_u8map: BTreeMap<u8, A>;
    t_bset: std::collections::BTreeSet<A>; t_vecvec: Vec<(A, C)>;
}
macro_rules! se {
    ($($m:ident: $t:ty;)*) => { $( pub mod $m { use super::*; pub fn enc(x: &$t) -> Result<Value, Error> { to_value(x) } } )* };
}
se! { s_coll: SColl; o_flat: Flat; o_int: Int; o_adj: Adj; o_unt: Unt; o_sq: Sq; o_mp: Mp; o_mq: Mq; t_strref: &'static str; t_slice: &'static [A]; }
