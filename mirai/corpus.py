"""The second derived corpus: attributes x positions x kinds. One table gives both the Rust source
(harness/src/r_gen.rs, written by `python3 mirai/corpus.py`, committed) and what the derived codecs must do."""
import os


class F:
    """Field. key: CBOR key (int or text)."""

    def __init__(self, key=None, optional=False, skip=False, skipif=False, with_=False, name=None, ty="A", rename=None):
        self.key, self.optional, self.skip, self.skipif, self.with_ = key, optional, skip, skipif, with_
        self.name, self.ty, self.rename = name, ty, rename


class S:
    def __init__(self, *fields, kind="map", unknown=False, default=True, tuple_=False, generics="", attrs=(), inst=None, dir="both"):
        self.fields, self.kind, self.unknown, self.default = fields, kind, unknown, default
        self.tuple_, self.generics, self.attrs, self.inst, self.dir = tuple_, generics, attrs, inst, dir


class V:
    """Enum variant: kind unit | newtype | map | array; disc: explicit discriminant."""

    def __init__(self, kind, key, *fields, skip=False, embed=False, missing=False, unknown=False, disc=None, name=None, rename=None, as_array=False, as_struct=False):
        self.kind, self.key, self.fields, self.skip, self.embed, self.missing, self.unknown, self.disc = kind, key, fields, skip, embed, missing, unknown, disc
        self.name, self.rename, self.as_array, self.as_struct = name, rename, as_array, as_struct
        self.bare = kind == "unit"    # written without fields
        if as_struct:
            self.kind = "map"


class En:
    def __init__(self, *variants, tag=None, untagged=False, default=None, generics="", inst=None, dir="both", repr=None):
        self.variants, self.tag, self.untagged, self.default = variants, tag, untagged, default
        self.generics, self.inst, self.dir, self.repr = generics, inst, dir, repr
        for v in variants:
            if tag is not None and v.kind == "unit":
                v.kind = "map"


def f(name, ty="A", rename=None, **k):
    return F(name if rename is None else rename, name=name, ty=ty, rename=rename, **k)


def p(ty="A", **k):
    """Positional field."""
    return F(ty=ty, **k)


def rec(*fields, **k):
    return S(*fields, **k)


def arr(*fields, **k):
    return S(*fields, kind="array", attrs=("as_array",), **k)


def tup(*fields, **k):
    return S(*fields, kind="array", tuple_=True, **k)


def unit(name, rename=None, disc=None, **k):
    return V("unit", name if rename is None else rename, name=name, rename=rename, disc=disc, **k)


def newt(name, ty="A", rename=None, **k):
    return V("newtype", name if rename is None else rename, p(ty), name=name, rename=rename, **k)


def vrec(name, *fields, rename=None, **k):
    return V("map", name if rename is None else rename, *fields, name=name, rename=rename, **k)


def varr(name, *fields, rename=None, **k):
    return V("array", name if rename is None else rename, *fields, name=name, rename=rename, as_array=True, **k)


def vtup(name, *fields, rename=None, **k):
    return V("array", name if rename is None else rename, *fields, name=name, rename=rename, **k)


OPT, SKIP, IF, WITH = dict(optional=True), dict(skip=True), dict(optional=True, skipif=True), dict(with_=True)
OPTWITH = dict(optional=True, with_=True)

G = {
    # maps: attributes by position
    "GM1": rec(f("a")),
    "GM1Opt": rec(f("a", **OPT), unknown=True),
    "GMOsp": rec(f("a", **OPT), f("b", "C", **SKIP), f("c", "C")),
    "GMSpo": rec(f("a", "C", **SKIP), f("b"), f("c", "C", **OPT)),
    "GMPos": rec(f("a"), f("b", **OPT), f("c", "C", **SKIP)),
    "GMWso": rec(f("w", **WITH), f("s", "C", **SKIP), f("o", "C", **OPT)),
    "GMOws": rec(f("x", **OPT), f("w", **WITH), f("s", "C", **SKIP)),
    "GMIwp": rec(f("i", **IF), f("w", **OPTWITH), f("q", "C")),
    "GMPiw": rec(f("q", "C"), f("i", **IF), f("w", **WITH)),
    "GMIfSkip": rec(f("s", "C", **SKIP), f("i", "C", **IF), f("j", **IF), unknown=True),
    "GMReqMid": rec(f("a"), f("r", "B"), f("o", "Option<B>", **OPT), default=False),
    "GMReqEnd": rec(f("o", "C", **OPT), f("a"), f("r", "B"), default=False, unknown=True),
    "GMUnkOpt": rec(f("m", **OPT), f("k", "C"), unknown=True),
    "GMUnkSkip": rec(f("z", "C", **SKIP), f("y"), f("x", "C"), unknown=True),
    # keys: lengths against alphabetical order, numbers against text, widths
    "GKLen": rec(f("bbb"), f("aaaa", "C"), f("cc"), f("d", "C")),
    "GKNum": rec(f("p", rename=256), f("q", "C", rename=23), f("r", rename=24), f("s", "C", rename="")),
    "GKBig": rec(f("p", rename=2 ** 64 - 1), f("q", "C", rename=65536), f("r", rename=0)),
    "GKMix": rec(f("long_name_of_a_field_with_more_than_23_bytes"), f("short", "C"), f("n", rename=9), f("u", "C", rename="é")),
    "GKWide": rec(f("a", rename=2 ** 63 + 1), f("b", "C", rename=2 ** 63), f("c", rename=5), f("d", "C")),
    "GKSwap": rec(f("a", rename="b"), f("b", "C", rename="a")),
    "GM5": rec(f("e", "B"), f("dd", "B"), f("b", "B"), f("aaa", "B"), default=False),
    "GM6": rec(f("e", "B"), f("h", **SKIP), f("d", "B", rename=7), f("b", "B"), f("a", "B"), default=False, unknown=True),
    # standard types as optional fields
    "GOStd": rec(f("b", "bool", **OPT), f("n", "u16", **OPT), f("t", "String", **OPT)),
    "GOCol": rec(f("v", "Vec<A>", **OPT), f("y", "Vec<u8>", **OPT), f("m", "[u8; 2]", **OPT)),
    "GOVal": rec(f("v", "Value", **OPT), f("o", "Option<A>"), f("u", "()", **OPT), default=False),
    "GOTup": rec(f("t", "(A, C)", **OPT), f("i", "i64", **OPT)),
    "GONest": rec(f("n", "GM1Opt", **OPT), f("t", "GTr", **OPT), f("u", "GUn", **OPT)),
    "GOEnum": rec(f("e", "GEDefault", **OPT), f("f", "GEDefault")),
    # arrays
    "GA1": arr(f("a")),
    "GASkip1": arr(f("h", "C", **SKIP), f("a"), f("b", "C")),
    "GASkip2": arr(f("a"), f("h", "C", **SKIP), f("g", **SKIP), f("b", "C")),
    "GASkipEnd": arr(f("a", "C"), f("b"), f("h", "C", **SKIP)),
    "GAWith": arr(f("s", "C", **SKIP), f("w", **WITH), f("p", "C")),
    "GAWithEnd": arr(f("p", "C"), f("q"), f("w", **WITH)),
    "GA4": arr(f("a"), f("b", "C"), f("c"), f("d", "C")),
    "GA6": arr(f("a", "B"), f("b", "B"), f("c", "B"), f("d", "B"), f("e", "B"), default=False),
    "GA12": arr(*[f("f%d" % i, "C" if i in (3, 7, 10) else "[u16; 1]", **(SKIP if i in (3, 10) else {})) for i in range(12)], default=False),
    "GAReq": arr(f("a"), f("b", "B"), f("c", "C"), default=False),
    "GAOpt": arr(f("a", "Option<B>", **OPT), f("b", "C", **OPT)),
    "GAUnkSkip": arr(f("h", "C", **SKIP), f("a"), f("g", **SKIP), f("b", "C"), unknown=True),
    "GAAllSkip": arr(f("h", "C", **SKIP), f("g", **SKIP)),
    # tuple structs
    "GT0": tup(),
    "GT2": tup(p(), p("C")),
    "GT4": tup(p(), p("C"), p(), p("C")),
    "GT6": tup(p("B"), p("B"), p("C", **SKIP), p("B"), p("B"), default=False),
    "GTSkip1": tup(p("C", **SKIP), p(), p("C")),
    "GTSkip2": tup(p(), p("C", **SKIP), p(), p("C")),
    "GTSkipEnd": tup(p("C"), p(), p("C", **SKIP)),
    "GTWith": tup(p(**WITH), p("C"), p("C", **SKIP)),
    "GTWithMid": tup(p("C", **SKIP), p(**WITH), p("C")),
    "GTReq": tup(p("B"), p("Option<B>"), default=False),
    "GTUnk": tup(p(), p("C", **SKIP), p("C"), unknown=True),
    "GNWith": tup(p(**WITH)),
    "GNSkip": tup(p("C", **SKIP)),
    "GNUnk": tup(p(), unknown=True),
    "GNReq": tup(p("B"), default=False),
    # transparent, unit, generic, nested
    "GTr": S(p("Vec<u8>"), kind="transparent", tuple_=True, attrs=("transparent",)),
    "GTrOpt": S(p("Option<A>"), kind="transparent", tuple_=True, attrs=("transparent",)),
    "GTrIn": S(p("GM1Opt"), kind="transparent", tuple_=True, attrs=("transparent",)),
    "GUn": S(kind="unit"),
    "GG2": rec(f("x", "T"), f("y", "U", **OPT), generics="<T: Encode + Decode + Default, U: Encode + Decode + Default>", inst="<A, C>"),
    "GGArr": tup(p("T"), p("[T; 2]"), default=False, generics="<T: Encode + Decode>", inst="<A>"),
    "GNest3": rec(f("a", "GA1"), f("t", "GT2"), f("e", "GEDefault")),
    "GNestUnk": rec(f("i", "GM1"), f("z", "C"), unknown=True),
    # enums: attributes of the fields of variants
    "GESkip": En(vrec("S", f("h", "C", **SKIP), f("a"), f("o", "C", **OPT)), vtup("T", p("C", **SKIP), p(), p("C")), varr("R", f("a"), f("h", "C", **SKIP), f("b", "C"))),
    "GEWith": En(vrec("S", f("w", **WITH), f("a", "C")), vtup("T", p("C"), p(**WITH)), varr("R", f("a", "C"), f("w", **WITH), f("s", "C", **SKIP))),
    "GEOpt": En(vrec("S", f("a", **OPT), f("i", "C", **IF)), vrec("P", f("w", **OPTWITH), f("b", "C")), newt("N", "Option<A>")),
    "GERen": En(vrec("S", f("a", rename=2), f("b", "C", rename="a"), rename=0), newt("N", rename="n"), vtup("T", p(), p("C"), rename=24), unit("U", rename=300)),
    "GEUnk": En(vrec("S", f("a"), f("o", "C", **OPT), unknown=True), vtup("T", p(), p("C"), unknown=True), varr("R", f("h", "C", **SKIP), f("a"), f("b", "C"), unknown=True),
                vrec("K", f("a"), f("o", "C", **OPT))),
    "GEReq": En(vrec("S", f("a"), f("r", "B")), vtup("T", p("Option<B>"), p("B")), newt("N", "Option<B>")),
    "GEEmpty": En(vrec("S"), vtup("T"), unit("W", as_struct=True), unit("X")),
    "GE4": En(varr("R", f("a"), f("b", "C"), f("c"), f("d", "C")), vtup("T", p(), p("C"), p(), p("C"))),
    "GEWide": En(newt("N", rename=2 ** 63), vrec("S", f("a", rename=2 ** 63 + 1), f("b", "C", rename=2 ** 63), rename=2 ** 63 + 1), unit("U", rename=2 ** 32)),
    "GEMany": En(*([unit("U%d" % i) for i in range(20)] + [newt("N%d" % i) for i in range(4)] + [vtup("T%d" % i, p("C"), p()) for i in range(2)] + [unit("V%d" % i, rename=i) for i in range(4)])),
    "GE10": En(vtup("T", *[p("C" if i in (4, 8) else "[u16; 1]", **(SKIP if i == 4 else {})) for i in range(11)]), varr("R", *[f("f%d" % (11 - i), "[u16; 1]") for i in range(11)])),
    "GESkipMid": En(unit("A"), newt("H", "C", skip=True), unit("B"), vrec("I", f("a", "C"), skip=True), newt("N"), unit("J", skip=True), unit("K", rename="k")),
    "GEDefault": En(unit("P"), unit("Q", rename="qq"), newt("R"), default=0),
    "GEDefault2": En(newt("R"), unit("P"), unit("Q", disc=None), default=2),
    "GENewt": En(newt("V", "Vec<u8>"), newt("I", "i64"), newt("S", "String"), newt("O", "Option<B>")),
    "GENest": En(newt("E", "GEDefault"), newt("S", "GMPos"), newt("A", "GASkip1")),
    "GEGen": En(newt("N", "T"), vrec("S", f("t", "T"), f("o", "T", **OPT)), generics="<T: Encode + Decode + Default>", inst="<A>"),
    # discriminants
    "GDSome": En(unit("A", disc=5), unit("B"), unit("C", disc=300)),
    "GDNeg": En(unit("A", disc=-1), unit("B", disc=0), unit("C", disc=-300)),
    "GDRen": En(unit("A", rename="x", disc=3), unit("B", rename=4), unit("C", disc=4000)),
    "GDOne": En(unit("A", disc=1)),
    "GUOne": En(unit("Only")),
    # embedding
    "GXIn1": En(unit("P", rename="p"), newt("N", rename="n")),
    "GXIn2": En(unit("Q", rename="q"), vrec("R", f("a"), f("b", "C"), rename="r")),
    "GX2": En(unit("O"), newt("I", "GXIn1", embed=True), newt("J", "GXIn2", embed=True), vrec("M", f("a", "C"))),
    "GXFirst": En(newt("I", "GXIn1", embed=True), newt("M", "C"), unit("O")),
    "GXSkip": En(newt("H", "GXIn2", embed=True, skip=True), newt("I", "GXIn1", embed=True), unit("O")),
    "GXSkipOnly": En(unit("O"), newt("H", "GXIn1", embed=True, skip=True)),
    "GXStruct": En(unit("O"), newt("M", "C"), newt("I", "GMPos", embed=True)),
    "GXArr": En(unit("O"), newt("I", "GT2", embed=True)),
    "GXDeep": En(newt("K", "C", rename="k"), newt("I", "GXFirst", embed=True)),
    # internally tagged
    "GTag0": En(vrec("S", f("a"), f("o", "C", **OPT), f("h", "C", **SKIP)), unit("U", rename=1), vrec("W", f("w", **WITH), rename="w"), tag=0),
    "GTagUnk": En(vrec("S", f("a"), f("b", "C"), unknown=True), vrec("T", f("a")), tag="kind"),
    "GTagNew": En(newt("N", "GMPos"), newt("M", "GM1Opt", rename="m"), unit("U", as_struct=True), tag="t"),
    "GTagNest": En(newt("I", "GTagIn"), vrec("S", f("a", "C")), tag="outer"),
    "GTagIn": En(vrec("P", f("x")), vrec("Q", f("y", "C")), tag="inner"),
    "GTagSkip": En(vrec("S", f("a")), newt("H", "C", skip=True), vrec("I", f("b"), skip=True), unit("J", skip=True), vrec("T", f("b", "C")), tag="t"),
    "GTagReq": En(vrec("S", f("r", "B"), f("o", "Option<B>", **OPT)), unit("U"), tag=24),
    "GTagMiss": En(vrec("S", f("a"), f("b", "C", **OPT)), vrec("M", f("b", "C"), missing=True), tag="v"),
    "GTagMissNew": En(newt("M", "GMPos", missing=True), vrec("S", f("q", "C")), tag="v"),
    "GTagMissUnk": En(vrec("S", f("a"), rename=1), vrec("M", f("b", "C", **OPT), missing=True, unknown=True, rename=0), tag=7),
    "GTagWide": En(vrec("S", f("a")), vrec("T", f("b", "C"), rename=2 ** 63), tag=2 ** 63),
    "GTagOne": En(vrec("S", f("a"), f("b", "C")), tag="z"),
    # only one direction is derived
    "GUntag": En(newt("N"), vrec("S", f("x", "C", **OPT), f("y")), vtup("T", p(), p("C")), unit("U", rename="u"), varr("R", f("a"), f("h", "C", **SKIP)), unit("W", as_struct=True),
                 untagged=True, dir="enc"),
    "GRef": rec(f("s", "&'a str"), f("a"), f("n", "&'a u64"), generics="<'a>", inst="<'static>", dir="enc"),
}


def lit(k):
    return '"%s"' % k if isinstance(k, str) else str(k)


def cb(xs):
    return "#[cbor(%s)] " % ", ".join(xs) if xs else ""


def field(x, pub="pub "):
    a = []
    if x.skip:
        a.append("skip")
    if x.optional:
        a.append("optional")
    if x.skipif:
        a.append('skip_serializing_if = "is_empty_fn"')
    if x.with_:
        a += ['serialize_with = "ser_with"', 'deserialize_with = "de_with"']
    if x.rename is not None:
        a.append("rename = " + lit(x.rename))
    return cb(a) + pub + ("%s: " % x.name if x.name else "") + x.ty


def rust(name, d):
    o = []
    dv = ["Encode"] + (["Decode"] if d.dir == "both" else [])
    if isinstance(d, S):
        if d.default and d.dir == "both":
            dv.insert(0, "Default")
        a = list(d.attrs) + (["allow_unknown"] if d.unknown else []) + (["no_default"] if not d.default and d.dir == "both" else [])
        o.append("#[derive(%s)]" % ", ".join(dv))
        if a:
            o.append(cb(a).strip())
        body = ", ".join(field(x) for x in d.fields)
        if d.kind == "unit":
            o.append("pub struct %s;" % name)
        elif d.tuple_:
            o.append("pub struct %s%s(%s);" % (name, d.generics, body))
        else:
            o.append("pub struct %s%s { %s }" % (name, d.generics, body))
        return "\n".join(o)
    if d.default is not None:
        dv.insert(0, "Default")
    a = (["tag = " + lit(d.tag)] if d.tag is not None else []) + (["untagged"] if d.untagged else []) + (["with_default"] if d.default is not None else [])
    o.append("#[derive(%s)]" % ", ".join(dv))
    if a:
        o.append(cb(a).strip())
    o.append("pub enum %s%s {" % (name, d.generics))
    for i, v in enumerate(d.variants):
        a = [n for n in ("skip", "embed", "missing", "as_array", "as_struct") if getattr(v, n)] + (["allow_unknown"] if v.unknown else []) + (["rename = " + lit(v.rename)] if v.rename is not None else [])
        s = "    " + ("#[default] " if d.default == i else "") + cb(a) + v.name
        fs = ", ".join(field(x, "") for x in v.fields)
        if v.bare:
            pass
        elif v.kind == "newtype" or v.kind == "array" and not v.as_array:
            s += "(%s)" % fs
        elif v.kind == "map" or v.as_array:
            s += " { %s }" % fs
        if v.disc is not None:
            s += " = %d" % v.disc
        o.append(s + ",")
    o.append("}")
    return "\n".join(o)


def mod(name):
    out = ""
    for i, c in enumerate(name):
        out += ("_" if c.isupper() and i > 1 else "") + c.lower()
    return out


def both(name):
    return G[name].dir == "both"


def source():
    o = ["//! Written by mirai/corpus.py; do not edit.",
         "use crate::codec;", "use crate::opq::{de_with, is_empty_fn, ser_with, Opq};", "use oasis_cbor::{from_value, to_value, Decode, DecodeError, Encode, Value};", "",
         "type A = Opq<0>; // has a default", "type B = Opq<1>; // has none", "type C = Opq<2>;", ""]
    o += [rust(n, d) for n, d in G.items()]
    o += ["", "codec! {"] + ["    %s: %s%s;" % (mod(n), n, d.inst or "") for n, d in G.items() if d.dir == "both"] + ["}"]
    o += ["pub mod %s { use super::*; pub fn enc(x: %s%s) -> Value { to_value(x) } pub fn opt(x: %s%s) -> Option<Value> { x.into_optional_cbor_value() } }" % (mod(n), n, d.inst or "", n, d.inst or "")
          for n, d in G.items() if d.dir == "enc"]
    return "\n".join(o) + "\n"


if __name__ == "__main__":
    open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "src", "r_gen.rs"), "w").write(source())
