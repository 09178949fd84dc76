//! Written by mirai/corpus.py; do not edit.
use crate::codec;
use crate::opq::{de_with, is_empty_fn, ser_with, Opq};
use oasis_cbor::{from_value, to_value, Decode, DecodeError, Encode, Value};

type A = Opq<0>; // has a default
type B = Opq<1>; // has none
type C = Opq<2>;

#[derive(Default, Encode, Decode)]
pub struct GM1 { pub a: A }
#[derive(Default, Encode, Decode)]
#[cbor(allow_unknown)]
pub struct GM1Opt { #[cbor(optional)] pub a: A }
#[derive(Default, Encode, Decode)]
pub struct GMOsp { #[cbor(optional)] pub a: A, #[cbor(skip)] pub b: C, pub c: C }
#[derive(Default, Encode, Decode)]
pub struct GMSpo { #[cbor(skip)] pub a: C, pub b: A, #[cbor(optional)] pub c: C }
#[derive(Default, Encode, Decode)]
pub struct GMPos { pub a: A, #[cbor(optional)] pub b: A, #[cbor(skip)] pub c: C }
#[derive(Default, Encode, Decode)]
pub struct GMWso { #[cbor(serialize_with = "ser_with", deserialize_with = "de_with")] pub w: A, #[cbor(skip)] pub s: C, #[cbor(optional)] pub o: C }
#[derive(Default, Encode, Decode)]
pub struct GMOws { #[cbor(optional)] pub x: A, #[cbor(serialize_with = "ser_with", deserialize_with = "de_with")] pub w: A, #[cbor(skip)] pub s: C }
#[derive(Default, Encode, Decode)]
pub struct GMIwp { #[cbor(optional, skip_serializing_if = "is_empty_fn")] pub i: A, #[cbor(optional, serialize_with = "ser_with", deserialize_with = "de_with")] pub w: A, pub q: C }
#[derive(Default, Encode, Decode)]
pub struct GMPiw { pub q: C, #[cbor(optional, skip_serializing_if = "is_empty_fn")] pub i: A, #[cbor(serialize_with = "ser_with", deserialize_with = "de_with")] pub w: A }
#[derive(Default, Encode, Decode)]
#[cbor(allow_unknown)]
pub struct GMIfSkip { #[cbor(skip)] pub s: C, #[cbor(optional, skip_serializing_if = "is_empty_fn")] pub i: C, #[cbor(optional, skip_serializing_if = "is_empty_fn")] pub j: A }
#[derive(Encode, Decode)]
#[cbor(no_default)]
pub struct GMReqMid { pub a: A, pub r: B, #[cbor(optional)] pub o: Option<B> }
#[derive(Encode, Decode)]
#[cbor(allow_unknown, no_default)]
pub struct GMReqEnd { #[cbor(optional)] pub o: C, pub a: A, pub r: B }
#[derive(Default, Encode, Decode)]
#[cbor(allow_unknown)]
pub struct GMUnkOpt { #[cbor(optional)] pub m: A, pub k: C }
#[derive(Default, Encode, Decode)]
#[cbor(allow_unknown)]
pub struct GMUnkSkip { #[cbor(skip)] pub z: C, pub y: A, pub x: C }
#[derive(Default, Encode, Decode)]
pub struct GKLen { pub bbb: A, pub aaaa: C, pub cc: A, pub d: C }
#[derive(Default, Encode, Decode)]
pub struct GKNum { #[cbor(rename = 256)] pub p: A, #[cbor(rename = 23)] pub q: C, #[cbor(rename = 24)] pub r: A, #[cbor(rename = "")] pub s: C }
#[derive(Default, Encode, Decode)]
pub struct GKBig { #[cbor(rename = 18446744073709551615)] pub p: A, #[cbor(rename = 65536)] pub q: C, #[cbor(rename = 0)] pub r: A }
#[derive(Default, Encode, Decode)]
pub struct GKMix { pub long_name_of_a_field_with_more_than_23_bytes: A, pub short: C, #[cbor(rename = 9)] pub n: A, #[cbor(rename = "é")] pub u: C }
#[derive(Default, Encode, Decode)]
pub struct GKWide { #[cbor(rename = 9223372036854775809)] pub a: A, #[cbor(rename = 9223372036854775808)] pub b: C, #[cbor(rename = 5)] pub c: A, pub d: C }
#[derive(Default, Encode, Decode)]
pub struct GKSwap { #[cbor(rename = "b")] pub a: A, #[cbor(rename = "a")] pub b: C }
#[derive(Encode, Decode)]
#[cbor(no_default)]
pub struct GM5 { pub e: B, pub dd: B, pub b: B, pub aaa: B }
#[derive(Encode, Decode)]
#[cbor(allow_unknown, no_default)]
pub struct GM6 { pub e: B, #[cbor(skip)] pub h: A, #[cbor(rename = 7)] pub d: B, pub b: B, pub a: B }
#[derive(Default, Encode, Decode)]
pub struct GOStd { #[cbor(optional)] pub b: bool, #[cbor(optional)] pub n: u16, #[cbor(optional)] pub t: String }
#[derive(Default, Encode, Decode)]
pub struct GOCol { #[cbor(optional)] pub v: Vec<A>, #[cbor(optional)] pub y: Vec<u8>, #[cbor(optional)] pub m: [u8; 2] }
#[derive(Encode, Decode)]
#[cbor(no_default)]
pub struct GOVal { #[cbor(optional)] pub v: Value, pub o: Option<A>, #[cbor(optional)] pub u: () }
#[derive(Default, Encode, Decode)]
pub struct GOTup { #[cbor(optional)] pub t: (A, C), #[cbor(optional)] pub i: i64 }
#[derive(Default, Encode, Decode)]
pub struct GONest { #[cbor(optional)] pub n: GM1Opt, #[cbor(optional)] pub t: GTr, #[cbor(optional)] pub u: GUn }
#[derive(Default, Encode, Decode)]
pub struct GOEnum { #[cbor(optional)] pub e: GEDefault, pub f: GEDefault }
#[derive(Default, Encode, Decode)]
#[cbor(as_array)]
pub struct GA1 { pub a: A }
#[derive(Default, Encode, Decode)]
#[cbor(as_array)]
pub struct GASkip1 { #[cbor(skip)] pub h: C, pub a: A, pub b: C }
#[derive(Default, Encode, Decode)]
#[cbor(as_array)]
pub struct GASkip2 { pub a: A, #[cbor(skip)] pub h: C, #[cbor(skip)] pub g: A, pub b: C }
#[derive(Default, Encode, Decode)]
#[cbor(as_array)]
pub struct GASkipEnd { pub a: C, pub b: A, #[cbor(skip)] pub h: C }
#[derive(Default, Encode, Decode)]
#[cbor(as_array)]
pub struct GAWith { #[cbor(skip)] pub s: C, #[cbor(serialize_with = "ser_with", deserialize_with = "de_with")] pub w: A, pub p: C }
#[derive(Default, Encode, Decode)]
#[cbor(as_array)]
pub struct GAWithEnd { pub p: C, pub q: A, #[cbor(serialize_with = "ser_with", deserialize_with = "de_with")] pub w: A }
#[derive(Default, Encode, Decode)]
#[cbor(as_array)]
pub struct GA4 { pub a: A, pub b: C, pub c: A, pub d: C }
#[derive(Encode, Decode)]
#[cbor(as_array, no_default)]
pub struct GA6 { pub a: B, pub b: B, pub c: B, pub d: B, pub e: B }
#[derive(Encode, Decode)]
#[cbor(as_array, no_default)]
pub struct GA12 { pub f0: [u16; 1], pub f1: [u16; 1], pub f2: [u16; 1], #[cbor(skip)] pub f3: C, pub f4: [u16; 1], pub f5: [u16; 1], pub f6: [u16; 1], pub f7: C, pub f8: [u16; 1], pub f9: [u16; 1], #[cbor(skip)] pub f10: C, pub f11: [u16; 1] }
#[derive(Encode, Decode)]
#[cbor(as_array, no_default)]
pub struct GAReq { pub a: A, pub b: B, pub c: C }
#[derive(Default, Encode, Decode)]
#[cbor(as_array)]
pub struct GAOpt { #[cbor(optional)] pub a: Option<B>, #[cbor(optional)] pub b: C }
#[derive(Default, Encode, Decode)]
#[cbor(as_array, allow_unknown)]
pub struct GAUnkSkip { #[cbor(skip)] pub h: C, pub a: A, #[cbor(skip)] pub g: A, pub b: C }
#[derive(Default, Encode, Decode)]
#[cbor(as_array)]
pub struct GAAllSkip { #[cbor(skip)] pub h: C, #[cbor(skip)] pub g: A }
#[derive(Default, Encode, Decode)]
pub struct GT0();
#[derive(Default, Encode, Decode)]
pub struct GT2(pub A, pub C);
#[derive(Default, Encode, Decode)]
pub struct GT4(pub A, pub C, pub A, pub C);
#[derive(Encode, Decode)]
#[cbor(no_default)]
pub struct GT6(pub B, pub B, #[cbor(skip)] pub C, pub B, pub B);
#[derive(Default, Encode, Decode)]
pub struct GTSkip1(#[cbor(skip)] pub C, pub A, pub C);
#[derive(Default, Encode, Decode)]
pub struct GTSkip2(pub A, #[cbor(skip)] pub C, pub A, pub C);
#[derive(Default, Encode, Decode)]
pub struct GTSkipEnd(pub C, pub A, #[cbor(skip)] pub C);
#[derive(Default, Encode, Decode)]
pub struct GTWith(#[cbor(serialize_with = "ser_with", deserialize_with = "de_with")] pub A, pub C, #[cbor(skip)] pub C);
#[derive(Default, Encode, Decode)]
pub struct GTWithMid(#[cbor(skip)] pub C, #[cbor(serialize_with = "ser_with", deserialize_with = "de_with")] pub A, pub C);
#[derive(Encode, Decode)]
#[cbor(no_default)]
pub struct GTReq(pub B, pub Option<B>);
#[derive(Default, Encode, Decode)]
#[cbor(allow_unknown)]
pub struct GTUnk(pub A, #[cbor(skip)] pub C, pub C);
#[derive(Default, Encode, Decode)]
pub struct GNWith(#[cbor(serialize_with = "ser_with", deserialize_with = "de_with")] pub A);
#[derive(Default, Encode, Decode)]
pub struct GNSkip(#[cbor(skip)] pub C);
#[derive(Default, Encode, Decode)]
#[cbor(allow_unknown)]
pub struct GNUnk(pub A);
#[derive(Encode, Decode)]
#[cbor(no_default)]
pub struct GNReq(pub B);
#[derive(Default, Encode, Decode)]
#[cbor(transparent)]
pub struct GTr(pub Vec<u8>);
#[derive(Default, Encode, Decode)]
#[cbor(transparent)]
pub struct GTrOpt(pub Option<A>);
#[derive(Default, Encode, Decode)]
#[cbor(transparent)]
pub struct GTrIn(pub GM1Opt);
#[derive(Default, Encode, Decode)]
pub struct GUn;
#[derive(Default, Encode, Decode)]
pub struct GG2<T: Encode + Decode + Default, U: Encode + Decode + Default> { pub x: T, #[cbor(optional)] pub y: U }
#[derive(Encode, Decode)]
#[cbor(no_default)]
pub struct GGArr<T: Encode + Decode>(pub T, pub [T; 2]);
#[derive(Default, Encode, Decode)]
pub struct GNest3 { pub a: GA1, pub t: GT2, pub e: GEDefault }
#[derive(Default, Encode, Decode)]
#[cbor(allow_unknown)]
pub struct GNestUnk { pub i: GM1, pub z: C }
#[derive(Encode, Decode)]
pub enum GESkip {
    S { #[cbor(skip)] h: C, a: A, #[cbor(optional)] o: C },
    T(#[cbor(skip)] C, A, C),
    #[cbor(as_array)] R { a: A, #[cbor(skip)] h: C, b: C },
}
#[derive(Encode, Decode)]
pub enum GEWith {
    S { #[cbor(serialize_with = "ser_with", deserialize_with = "de_with")] w: A, a: C },
    T(C, #[cbor(serialize_with = "ser_with", deserialize_with = "de_with")] A),
    #[cbor(as_array)] R { a: C, #[cbor(serialize_with = "ser_with", deserialize_with = "de_with")] w: A, #[cbor(skip)] s: C },
}
#[derive(Encode, Decode)]
pub enum GEOpt {
    S { #[cbor(optional)] a: A, #[cbor(optional, skip_serializing_if = "is_empty_fn")] i: C },
    P { #[cbor(optional, serialize_with = "ser_with", deserialize_with = "de_with")] w: A, b: C },
    N(Option<A>),
}
#[derive(Encode, Decode)]
pub enum GERen {
    #[cbor(rename = 0)] S { #[cbor(rename = 2)] a: A, #[cbor(rename = "a")] b: C },
    #[cbor(rename = "n")] N(A),
    #[cbor(rename = 24)] T(A, C),
    #[cbor(rename = 300)] U,
}
#[derive(Encode, Decode)]
pub enum GEUnk {
    #[cbor(allow_unknown)] S { a: A, #[cbor(optional)] o: C },
    #[cbor(allow_unknown)] T(A, C),
    #[cbor(as_array, allow_unknown)] R { #[cbor(skip)] h: C, a: A, b: C },
    K { a: A, #[cbor(optional)] o: C },
}
#[derive(Encode, Decode)]
pub enum GEReq {
    S { a: A, r: B },
    T(Option<B>, B),
    N(Option<B>),
}
#[derive(Encode, Decode)]
pub enum GEEmpty {
    S {  },
    T(),
    #[cbor(as_struct)] W,
    X,
}
#[derive(Encode, Decode)]
pub enum GE4 {
    #[cbor(as_array)] R { a: A, b: C, c: A, d: C },
    T(A, C, A, C),
}
#[derive(Encode, Decode)]
pub enum GEWide {
    #[cbor(rename = 9223372036854775808)] N(A),
    #[cbor(rename = 9223372036854775809)] S { #[cbor(rename = 9223372036854775809)] a: A, #[cbor(rename = 9223372036854775808)] b: C },
    #[cbor(rename = 4294967296)] U,
}
#[derive(Encode, Decode)]
pub enum GEMany {
    U0,
    U1,
    U2,
    U3,
    U4,
    U5,
    U6,
    U7,
    U8,
    U9,
    U10,
    U11,
    U12,
    U13,
    U14,
    U15,
    U16,
    U17,
    U18,
    U19,
    N0(A),
    N1(A),
    N2(A),
    N3(A),
    T0(C, A),
    T1(C, A),
    #[cbor(rename = 0)] V0,
    #[cbor(rename = 1)] V1,
    #[cbor(rename = 2)] V2,
    #[cbor(rename = 3)] V3,
}
#[derive(Encode, Decode)]
pub enum GE10 {
    T([u16; 1], [u16; 1], [u16; 1], [u16; 1], #[cbor(skip)] C, [u16; 1], [u16; 1], [u16; 1], C, [u16; 1], [u16; 1]),
    #[cbor(as_array)] R { f11: [u16; 1], f10: [u16; 1], f9: [u16; 1], f8: [u16; 1], f7: [u16; 1], f6: [u16; 1], f5: [u16; 1], f4: [u16; 1], f3: [u16; 1], f2: [u16; 1], f1: [u16; 1] },
}
#[derive(Encode, Decode)]
pub enum GESkipMid {
    A,
    #[cbor(skip)] H(C),
    B,
    #[cbor(skip)] I { a: C },
    N(A),
    #[cbor(skip)] J,
    #[cbor(rename = "k")] K,
}
#[derive(Default, Encode, Decode)]
#[cbor(with_default)]
pub enum GEDefault {
    #[default] P,
    #[cbor(rename = "qq")] Q,
    R(A),
}
#[derive(Default, Encode, Decode)]
#[cbor(with_default)]
pub enum GEDefault2 {
    R(A),
    P,
    #[default] Q,
}
#[derive(Encode, Decode)]
pub enum GENewt {
    V(Vec<u8>),
    I(i64),
    S(String),
    O(Option<B>),
}
#[derive(Encode, Decode)]
pub enum GENest {
    E(GEDefault),
    S(GMPos),
    A(GASkip1),
}
#[derive(Encode, Decode)]
pub enum GEGen<T: Encode + Decode + Default> {
    N(T),
    S { t: T, #[cbor(optional)] o: T },
}
#[derive(Encode, Decode)]
pub enum GDSome {
    A = 5,
    B,
    C = 300,
}
#[derive(Encode, Decode)]
pub enum GDNeg {
    A = -1,
    B = 0,
    C = -300,
}
#[derive(Encode, Decode)]
pub enum GDRen {
    #[cbor(rename = "x")] A = 3,
    #[cbor(rename = 4)] B,
    C = 4000,
}
#[derive(Encode, Decode)]
pub enum GDOne {
    A = 1,
}
#[derive(Encode, Decode)]
pub enum GUOne {
    Only,
}
#[derive(Encode, Decode)]
pub enum GXIn1 {
    #[cbor(rename = "p")] P,
    #[cbor(rename = "n")] N(A),
}
#[derive(Encode, Decode)]
pub enum GXIn2 {
    #[cbor(rename = "q")] Q,
    #[cbor(rename = "r")] R { a: A, b: C },
}
#[derive(Encode, Decode)]
pub enum GX2 {
    O,
    #[cbor(embed)] I(GXIn1),
    #[cbor(embed)] J(GXIn2),
    M { a: C },
}
#[derive(Encode, Decode)]
pub enum GXFirst {
    #[cbor(embed)] I(GXIn1),
    M(C),
    O,
}
#[derive(Encode, Decode)]
pub enum GXSkip {
    #[cbor(skip, embed)] H(GXIn2),
    #[cbor(embed)] I(GXIn1),
    O,
}
#[derive(Encode, Decode)]
pub enum GXSkipOnly {
    O,
    #[cbor(skip, embed)] H(GXIn1),
}
#[derive(Encode, Decode)]
pub enum GXStruct {
    O,
    M(C),
    #[cbor(embed)] I(GMPos),
}
#[derive(Encode, Decode)]
pub enum GXArr {
    O,
    #[cbor(embed)] I(GT2),
}
#[derive(Encode, Decode)]
pub enum GXDeep {
    #[cbor(rename = "k")] K(C),
    #[cbor(embed)] I(GXFirst),
}
#[derive(Encode, Decode)]
#[cbor(tag = 0)]
pub enum GTag0 {
    S { a: A, #[cbor(optional)] o: C, #[cbor(skip)] h: C },
    #[cbor(rename = 1)] U,
    #[cbor(rename = "w")] W { #[cbor(serialize_with = "ser_with", deserialize_with = "de_with")] w: A },
}
#[derive(Encode, Decode)]
#[cbor(tag = "kind")]
pub enum GTagUnk {
    #[cbor(allow_unknown)] S { a: A, b: C },
    T { a: A },
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum GTagNew {
    N(GMPos),
    #[cbor(rename = "m")] M(GM1Opt),
    #[cbor(as_struct)] U,
}
#[derive(Encode, Decode)]
#[cbor(tag = "outer")]
pub enum GTagNest {
    I(GTagIn),
    S { a: C },
}
#[derive(Encode, Decode)]
#[cbor(tag = "inner")]
pub enum GTagIn {
    P { x: A },
    Q { y: C },
}
#[derive(Encode, Decode)]
#[cbor(tag = "t")]
pub enum GTagSkip {
    S { a: A },
    #[cbor(skip)] H(C),
    #[cbor(skip)] I { b: A },
    #[cbor(skip)] J,
    T { b: C },
}
#[derive(Encode, Decode)]
#[cbor(tag = 24)]
pub enum GTagReq {
    S { r: B, #[cbor(optional)] o: Option<B> },
    U,
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum GTagMiss {
    S { a: A, #[cbor(optional)] b: C },
    #[cbor(missing)] M { b: C },
}
#[derive(Encode, Decode)]
#[cbor(tag = "v")]
pub enum GTagMissNew {
    #[cbor(missing)] M(GMPos),
    S { q: C },
}
#[derive(Encode, Decode)]
#[cbor(tag = 7)]
pub enum GTagMissUnk {
    #[cbor(rename = 1)] S { a: A },
    #[cbor(missing, allow_unknown, rename = 0)] M { #[cbor(optional)] b: C },
}
#[derive(Encode, Decode)]
#[cbor(tag = 9223372036854775808)]
pub enum GTagWide {
    S { a: A },
    #[cbor(rename = 9223372036854775808)] T { b: C },
}
#[derive(Encode, Decode)]
#[cbor(tag = "z")]
pub enum GTagOne {
    S { a: A, b: C },
}
#[derive(Encode)]
#[cbor(untagged)]
pub enum GUntag {
    N(A),
    S { #[cbor(optional)] x: C, y: A },
    T(A, C),
    #[cbor(rename = "u")] U,
    #[cbor(as_array)] R { a: A, #[cbor(skip)] h: C },
    #[cbor(as_struct)] W,
}
#[derive(Encode)]
pub struct GRef<'a> { pub s: &'a str, pub a: A, pub n: &'a u64 }

codec! {
    gm1: GM1;
    gm1_opt: GM1Opt;
    gm_osp: GMOsp;
    gm_spo: GMSpo;
    gm_pos: GMPos;
    gm_wso: GMWso;
    gm_ows: GMOws;
    gm_iwp: GMIwp;
    gm_piw: GMPiw;
    gm_if_skip: GMIfSkip;
    gm_req_mid: GMReqMid;
    gm_req_end: GMReqEnd;
    gm_unk_opt: GMUnkOpt;
    gm_unk_skip: GMUnkSkip;
    gk_len: GKLen;
    gk_num: GKNum;
    gk_big: GKBig;
    gk_mix: GKMix;
    gk_wide: GKWide;
    gk_swap: GKSwap;
    gm5: GM5;
    gm6: GM6;
    go_std: GOStd;
    go_col: GOCol;
    go_val: GOVal;
    go_tup: GOTup;
    go_nest: GONest;
    go_enum: GOEnum;
    ga1: GA1;
    ga_skip1: GASkip1;
    ga_skip2: GASkip2;
    ga_skip_end: GASkipEnd;
    ga_with: GAWith;
    ga_with_end: GAWithEnd;
    ga4: GA4;
    ga6: GA6;
    ga12: GA12;
    ga_req: GAReq;
    ga_opt: GAOpt;
    ga_unk_skip: GAUnkSkip;
    ga_all_skip: GAAllSkip;
    gt0: GT0;
    gt2: GT2;
    gt4: GT4;
    gt6: GT6;
    gt_skip1: GTSkip1;
    gt_skip2: GTSkip2;
    gt_skip_end: GTSkipEnd;
    gt_with: GTWith;
    gt_with_mid: GTWithMid;
    gt_req: GTReq;
    gt_unk: GTUnk;
    gn_with: GNWith;
    gn_skip: GNSkip;
    gn_unk: GNUnk;
    gn_req: GNReq;
    gtr: GTr;
    gtr_opt: GTrOpt;
    gtr_in: GTrIn;
    gun: GUn;
    gg2: GG2<A, C>;
    gg_arr: GGArr<A>;
    gnest3: GNest3;
    gnest_unk: GNestUnk;
    ge_skip: GESkip;
    ge_with: GEWith;
    ge_opt: GEOpt;
    ge_ren: GERen;
    ge_unk: GEUnk;
    ge_req: GEReq;
    ge_empty: GEEmpty;
    ge4: GE4;
    ge_wide: GEWide;
    ge_many: GEMany;
    ge10: GE10;
    ge_skip_mid: GESkipMid;
    ge_default: GEDefault;
    ge_default2: GEDefault2;
    ge_newt: GENewt;
    ge_nest: GENest;
    ge_gen: GEGen<A>;
    gd_some: GDSome;
    gd_neg: GDNeg;
    gd_ren: GDRen;
    gd_one: GDOne;
    gu_one: GUOne;
    gx_in1: GXIn1;
    gx_in2: GXIn2;
    gx2: GX2;
    gx_first: GXFirst;
    gx_skip: GXSkip;
    gx_skip_only: GXSkipOnly;
    gx_struct: GXStruct;
    gx_arr: GXArr;
    gx_deep: GXDeep;
    gtag0: GTag0;
    gtag_unk: GTagUnk;
    gtag_new: GTagNew;
    gtag_nest: GTagNest;
    gtag_in: GTagIn;
    gtag_skip: GTagSkip;
    gtag_req: GTagReq;
    gtag_miss: GTagMiss;
    gtag_miss_new: GTagMissNew;
    gtag_miss_unk: GTagMissUnk;
    gtag_wide: GTagWide;
    gtag_one: GTagOne;
}
pub mod guntag { use super::*; pub fn enc(x: GUntag) -> Value { to_value(x) } pub fn opt(x: GUntag) -> Option<Value> { x.into_optional_cbor_value() } }
pub mod gref { use super::*; pub fn enc(x: GRef<'static>) -> Value { to_value(x) } pub fn opt(x: GRef<'static>) -> Option<Value> { x.into_optional_cbor_value() } }
