//! Roots: derive-generated codecs over a corpus that exercises every attribute.
use crate::codec;
use crate::opq::{de_with, is_empty_fn, ser_with, Opq};
use oasis_cbor::{from_value, to_value, Decode, DecodeError, Encode, Value};

type A = Opq<0>; // has a default
type B = Opq<1>; // has none
type C = Opq<2>;

#[derive(Default, Encode, Decode)]
pub struct SPlain { pub b: A, pub a: C }
#[derive(Encode, Decode)]
#[cbor(no_default)]
pub struct SReq { pub x: B, pub y: A }
#[derive(Default, Encode, Decode)]
pub struct SRen {
    #[cbor(rename = 20)]
    pub a: A,
    #[cbor(rename = "zz")]
    pub b: C,
    pub ccc: A,
    #[cbor(rename = 3)]
    pub d: C,
}
#[derive(Default, Encode, Decode)]
pub struct SOpt {
    #[cbor(optional)]
    pub a: A,
    #[cbor(optional, rename = "o")]
    pub b: Option<B>,
    pub c: C,
}
#[derive(Default, Encode, Decode)]
pub struct SAllOpt {
    #[cbor(optional)]
    pub a: A,
    #[cbor(optional)]
    pub b: C,
}
#[derive(Default, Encode, Decode)]
pub struct SSkip {
    pub a: A,
    #[cbor(skip)]
    pub hidden: C,
    pub z: C,
}
#[derive(Default, Encode, Decode)]
pub struct SSkipIf {
    #[cbor(optional, skip_serializing_if = "is_empty_fn")]
    pub a: A,
    pub b: C,
}
#[derive(Default, Encode, Decode)]
pub struct SWith {
    #[cbor(serialize_with = "ser_with", deserialize_with = "de_with")]
    pub a: A,
    pub b: C,
}
#[derive(Default, Encode, Decode)]
pub struct SOptWith {
    #[cbor(optional, serialize_with = "ser_with", deserialize_with = "de_with")]
    pub a: A,
    pub b: C,
}
#[derive(Default, Encode, Decode)]
#[cbor(as_array)]
pub struct SArr { pub a: A, pub b: C, pub c: A }
#[derive(Default, Encode, Decode)]
#[cbor(as_array)]
pub struct SArrSkip {
    pub a: A,
    #[cbor(skip)]
    pub h: C,
    pub c: C,
}
#[derive(Default, Encode, Decode)]
#[cbor(as_array)]
pub struct SArrWith {
    #[cbor(serialize_with = "ser_with", deserialize_with = "de_with")]
    pub a: A,
    pub b: C,
}
#[derive(Default, Encode, Decode)]
pub struct STup(pub A, pub C, pub A);
#[derive(Default, Encode, Decode)]
pub struct SNew(pub A);
#[derive(Default, Encode, Decode)]
#[cbor(transparent)]
pub struct STrans(pub A);
#[derive(Encode, Decode)]
#[cbor(transparent, no_default)]
pub struct STransReq(pub B);
#[derive(Default, Encode, Decode)]
pub struct SUnit;
#[derive(Default, Encode, Decode)]
pub struct SEmpty {}
#[derive(Default, Encode, Decode)]
#[cbor(allow_unknown)]
pub struct SUnk { pub b: A, #[cbor(rename = 1)] pub a: C }
#[derive(Default, Encode, Decode)]
#[cbor(as_array, allow_unknown)]
pub struct SArrUnk { pub b: A, pub a: C }
#[derive(Default, Encode, Decode)]
pub struct SGen<T: Encode + Decode + Default> { pub g: T, pub n: C }
#[derive(Default, Encode, Decode)]
pub struct SNest { pub s: SPlain, pub t: STup }

#[derive(Encode, Decode)]
pub enum EUnit { A, #[cbor(rename = "bee")] B, #[cbor(rename = 7)] C }
#[derive(Encode, Decode)]
pub enum EDisc { A = 0, B = 5, C = 9 }
#[derive(Default, Encode, Decode)]
#[cbor(with_default)]
pub enum EDef { #[default] Zero, One }
#[derive(Encode, Decode)]
pub enum EMix {
    U,
    #[cbor(rename = 4)]
    V,
    N(A),
    #[cbor(rename = 2)]
    T(A, C),
    S { x: A, #[cbor(rename = 1)] y: C },
    #[cbor(as_array, rename = "arr")]
    R { x: A, y: C },
    #[cbor(as_struct)]
    W,
    #[cbor(skip)]
    H(C),
}
#[derive(Encode, Decode)]
pub enum EUnk { #[cbor(allow_unknown)] S { x: A }, T { x: A } }
#[derive(Encode, Decode)]
pub enum EOne { N(A) }
#[derive(Encode, Decode)]
pub enum EReq { N(B), S { #[cbor(optional)] x: Option<B>, y: B } }
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum ETag {
    S { x: A },
    #[cbor(rename = 1)]
    N(SPlain),
    #[cbor(as_struct)]
    U,
}
#[derive(Encode, Decode)]
#[cbor(tag = "k")]
pub enum ETagUnit { P, Q { x: A } }
#[derive(Encode, Decode)]
#[cbor(tag = 9)]
pub enum ETagMiss {
    #[cbor(rename = 0, missing)]
    M { x: A },
    #[cbor(rename = 1)]
    N { y: C },
}
#[derive(Encode, Decode)]
pub enum ESkip { A(A), #[cbor(skip)] Hidden }
#[derive(Encode, Decode)]
pub enum EInner { #[cbor(rename = "in")] X, #[cbor(rename = "im")] Y(A) }
#[derive(Encode, Decode)]
pub enum EEmbed { #[cbor(rename = "out")] O, #[cbor(embed)] I(EInner), #[cbor(rename = "om")] P(C) }
#[derive(Encode, Decode)]
pub enum EEmbedUnit { #[cbor(rename = "out")] O, #[cbor(embed)] I(EInner) }
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum EInnerTag { #[cbor(rename = "p")] P { x: A, y: C } }
#[derive(Encode, Decode)]
pub enum EEmbedTag { #[cbor(rename = "om")] P(C), #[cbor(embed)] I(EInnerTag) }
#[derive(Encode)]
#[cbor(untagged)]
pub enum EUntag { N(A), S { x: C } }

codec! {
    s_plain: SPlain; s_req: SReq; s_ren: SRen; s_opt: SOpt; s_allopt: SAllOpt; s_skip: SSkip; s_skipif: SSkipIf;
    s_with: SWith; s_optwith: SOptWith; s_arr: SArr; s_arrskip: SArrSkip; s_arrwith: SArrWith;
    s_tup: STup; s_new: SNew; s_trans: STrans; s_transreq: STransReq; s_unit: SUnit; s_empty: SEmpty;
    s_unk: SUnk; s_arrunk: SArrUnk; s_gen: SGen<A>; s_nest: SNest;
    e_unit: EUnit; e_disc: EDisc; e_def: EDef; e_mix: EMix; e_unk: EUnk; e_one: EOne; e_req: EReq;
    e_tag: ETag; e_tagmiss: ETagMiss; e_skip: ESkip; e_embed: EEmbed; e_embedunit: EEmbedUnit;
    e_tagunit: ETagUnit; e_embedtag: EEmbedTag; e_innertag: EInnerTag;
}
pub fn e_untag_enc(x: EUntag) -> Value { to_value(x) }
