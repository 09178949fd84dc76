"""What the serde layer must do: the same tables as the core codecs where the formats agree, written down by type."""
from vals import *
from state import *
import natives as N
import obl_wire as W
import oracle as O
from oracle import OKV, ERR, S, F, V, En, fields_of, list_elems, lazy_is, variant_name, simple_name, text, null, ftypes

embed = ("embed",)   # the entries of the field take the place of the field
D = {
    "Named": S(F("b"), F("aa"), unknown=True),
    "Deny": S(F("b"), F("aa")),
    "Newt": S(F(), kind="array"),
    "Tup": S(F(), F(), kind="array"),
    "Unit": S(kind="unit"),
    "En": En(V("unit", "U"), V("newtype", "N", F()), V("array", "T", F(), F()), V("map", "S", F("x"), F("y"))),
    "SDef": S(F("d", optional=True), F("zz"), unknown=True),
    "SOpt": S(F("o"), F("x"), unknown=True),
    "SOpts": S(F("x"), F("y"), F("z"), unknown=True),
    "TOpts": S(F(), F(), kind="array"),
    "EOpts": En(V("map", "S", F("x"), F("y")), V("array", "T", F(), F()), V("newtype", "N", F())),
    "SColl": S(F("a"), F("s"), F("v"), F("w")),
    "SSkipIf": S(F("p", optional=True, skipif=True), F("x"), unknown=True),
    "SSkip": S(F(skip=True), F("x"), unknown=True),
    "SNest": S(F("n"), F("t"), unknown=True),
    "SMix": S(F("e"), F("w"), unknown=True),
    "SEmpty": S(unknown=True),
    "Tup1": S(F(), F(skip=True), kind="array"),
    "NewtOpt": S(F(), kind="array"),
    "Trans": S(F(), kind="transparent"),
    "Fl": En(V("unit", "One"), V("unit", "zwei"), V("map", "Three", F("AB")), V("map", "Four"), V("newtype", "Five", F()), V("newtype", "Six", F()),
             V("newtype", "Seven", F())),
    "Flat": S(F("a"), F(embed), F("z")),
    "Int": En(V("unit", "U"), V("newtype", "N", F()), V("map", "S", F("x"), F("y"))),
    "Adj": En(V("unit", "U"), V("newtype", "N", F()), V("array", "T", F(), F()), V("map", "S", F("x"), F("y"))),
    "Unt": En(V("unit", "U"), V("newtype", "N", F()), V("array", "T", F(), F()), V("map", "S", F("x"), F("y"))),
}
FLOATS = ("f32", "f64")
SKIP = ("skip",)


def is_text(E, st, v, s):
    """v is known to be a text string: is it s?"""
    n, a = variant_name(E, st, v)
    return st.oeq(st.force(a.f[0]), Lst(tuple(("e", b) for b in s.encode())), N.conc_bytes)


class Bad(Exception):
    """The encoding fails."""


def desc(t):
    return D.get(t.path.rsplit("::", 1)[-1]) if t.path and t.path.startswith("vh::r_serde::") else None


def leaf(E, st, v):
    x = N.opq_name(st, v)
    if not st.pick(("serok", st.term(x)), (True, False)):
        raise Bad()
    return N.enc_sym(E, st, x)


def enc(E, st, t, v):
    """Encoding of v; raises Bad where an element fails to serialize or the type is not supported."""
    if t.k == "ref":
        return enc(E, st, E.P.ty(t.t), E.read(st, st.force(v)))
    if O.is_opq(t):
        return leaf(E, st, v)
    if t.s in FLOATS or t.k == "int" and t.bits == 128 and t.signed:
        raise Bad()
    if t.path and t.path.endswith("ByteBuf"):
        return W.mkv(E, "ByteString", fields_of(st, v).f[0])
    if t.k in ("int", "char", "bool", "str") or t.k == "struct" and t.path == "alloc::string::String" or t.k == "tuple" and not t.ts:
        return O.encode(E, st, t, v)
    arr = lambda xs: W.mkv(E, "Array", Lst(tuple(("e", x) for x in xs)))
    if t.k == "tuple":
        return arr([enc(E, st, E.P.ty(x), f) for x, f in zip(t.ts, fields_of(st, v).f)])
    if t.k in ("array", "slice"):
        return arr([enc(E, st, E.P.ty(t.t), x) for x in list_elems(st, v)])
    if t.k == "struct" and t.path in LISTLIKE:
        if t.path.endswith("Map"):
            out = []
            for e in list_elems(st, v):
                p = fields_of(st, e)
                out.append(("e", Agg(0, (enc(E, st, E.P.ty(t.args[0]), p.f[0]), enc(E, st, E.P.ty(t.args[1]), p.f[1])))))
            return W.mkv(E, "Map", Lst(out))
        return arr([enc(E, st, E.P.ty(t.args[0]), x) for x in list_elems(st, v)])
    if t.k == "enum" and t.path.endswith("::Option"):
        a = fields_of(st, v)
        return null(E) if a.v == 0 else enc(E, st, E.P.ty(t.vs[1]["f"][0][1]), a.f[0])
    if t.box:
        return enc(E, st, E.P.ty(t.args[0]), E.read(st, st.force(v)))
    d = desc(t)
    if isinstance(d, S):
        return estruct(E, st, d, ftypes(E, t), () if d.kind == "unit" else fields_of(st, v).f)
    n = t.path.rsplit("::", 1)[-1] if t.path else ""
    if n in ("Sq", "Mp", "Mq") and t.path.startswith("vh::r_serde::"):
        xs = list_elems(st, fields_of(st, v).f[0])
        if n == "Sq":
            return arr([leaf(E, st, x) for x in xs])
        return W.mkv(E, "Map", Lst(tuple(("e", Agg(0, tuple(leaf(E, st, y) for y in fields_of(st, x).f))) for x in xs)))
    if isinstance(d, En):
        a = fields_of(st, v)
        w = d.variants[a.v]
        ts = ftypes(E, t, a.v)
        if n in ("Int", "Adj", "Unt"):
            inner = None if w.kind == "unit" else enc(E, st, ts[0], a.f[0]) if w.kind == "newtype" else estruct(E, st, S(*w.fields, kind=w.kind), ts, a.f)
            if n == "Unt":
                return null(E) if inner is None else inner
            es = [("e", Agg(0, (text(E, "t"), text(E, w.key))))]
            if n == "Adj" and inner is not None:
                es.append(("e", Agg(0, (text(E, "c"), inner))))
            if n == "Int" and inner is not None:
                es += list(st.force(st.force(inner).f[0]).segs)
            return W.mkv(E, "Map", Lst(tuple(es)))
        if w.kind == "unit":
            return text(E, w.key)
        inner = enc(E, st, ts[0], a.f[0]) if w.kind == "newtype" else estruct(E, st, S(*w.fields, kind=w.kind), ts, a.f)
        return W.mkv(E, "Map", Lst((("e", Agg(0, (text(E, w.key), inner))),)))
    raise Undecided("no serde specification for %s" % t.s)


def estruct(E, st, d, ts, fs):
    if d.kind == "unit":
        return null(E)
    out = []
    for f, t, x in zip(d.fields, ts, fs):
        if f.skip or f.skipif and st.force(x).v == 0:
            continue
        e = enc(E, st, t, x)
        if d.kind == "transparent":
            return e
        if f.key == embed:
            out += list(st.force(st.force(e).f[0]).segs)
        else:
            out.append(("e", e if d.kind == "array" else Agg(0, (text(E, f.key), e))))
    return W.mkv(E, "Array" if d.kind == "array" else "Map", Lst(tuple(out)))


def encode(E, st, t, v):
    try:
        return (OKV, enc(E, st, t, v))
    except Bad:
        return (ERR, "not serializable")


def decode(E, st, t, v):
    wrong = (ERR, "unexpected type")
    if O.is_opq(t):
        o, x = N.dec_leaf(E, st, t, v)
        return (OKV, x) if o == "ok" else (ERR, "leaf value")
    if t.s in FLOATS:
        return (ERR, "floats are not supported")
    if t.k == "enum" and t.path.endswith("::Option"):
        if lazy_is(E, st, v, ("NullValue",)):
            return (OKV, Agg(0, (), t))
        r = decode(E, st, E.P.ty(t.vs[1]["f"][0][1]), v)
        return (OKV, Agg(1, (r[1],), t)) if r[0] == OKV else r
    n, a = variant_name(E, st, v)
    if t.k == "int" and t.bits == 128 and t.signed:
        return (OKV, st.force(a.f[0])) if n in ("Unsigned", "Negative") else wrong
    if t.k in ("int", "bool", "char"):
        return O.decode(E, st, t, v)
    if t.k == "tuple" and not t.ts:
        return O.decode(E, st, t, v)
    if t.k == "struct" and t.path == "alloc::string::String":
        return SKIP if n == "ByteString" else O.decode(E, st, t, v)   # serde's own String also takes UTF-8 bytes
    if t.path and t.path.endswith("ByteBuf"):
        return (OKV, Agg(0, (a.f[0],), t)) if n == "ByteString" else SKIP if n in ("TextString", "Array") else wrong
    if t.box:
        r = decode(E, st, E.P.ty(t.args[0]), v)
        return (OKV, Ptr(st.alloc(r[1]))) if r[0] == OKV else r
    if t.k in ("tuple", "array"):
        if t.k == "array" and t.n == 0 and n in ("TextString", "ByteString"):
            return SKIP
        if n != "Array":
            return wrong
        m = len(t.ts) if t.k == "tuple" else t.n
        xs = O.exact(st, a.f[0], m)
        if xs is None:
            return (ERR, "wrong array length")
        ts = [E.P.ty(x) for x in t.ts] if t.k == "tuple" else [E.P.ty(t.t)] * m
        r = each(E, st, ts, xs)
        if r[0] != OKV:
            return r
        return (OKV, Agg(0, r[1])) if t.k == "tuple" else (OKV, Lst(tuple(("e", x) for x in r[1])))
    if t.k == "struct" and t.path in LISTLIKE:
        if t.path.endswith("Map"):
            if n != "Map":
                return wrong
            out = []
            for e in list_elems(st, a.f[0]):
                p = fields_of(st, e)
                r = each(E, st, [E.P.ty(t.args[0]), E.P.ty(t.args[1])], p.f)
                if r[0] != OKV:
                    return r
                out.append(r[1])
            return (OKV, Lst(tuple(("e", Agg(0, p)) for p in O.collect(st, out, t.path.endswith("BTreeMap")))))
        if n != "Array":
            return wrong
        xs = list_elems(st, a.f[0])
        r = each(E, st, [E.P.ty(t.args[0])] * len(xs), xs)
        if r[0] == OKV and t.path.endswith("Set"):
            return (OKV, Lst(tuple(("e", k) for k, _ in O.collect(st, [(x, None) for x in r[1]], t.path.endswith("BTreeSet")))))
        return (OKV, Lst(tuple(("e", x) for x in r[1]))) if r[0] == OKV else r
    d = desc(t)
    if isinstance(d, S) and d.kind == "transparent":
        r = decode(E, st, ftypes(E, t)[0], v)
        return (OKV, Agg(0, (r[1],), t)) if r[0] == OKV else r
    if isinstance(d, S):
        r = dstruct(E, st, d, ftypes(E, t), v, n, a)
        return (OKV, Agg(0, r[1], t)) if r[0] == OKV else r
    if isinstance(d, En):
        if n == "TextString":
            for i, w in enumerate(d.variants):
                if is_text(E, st, v, w.key):
                    return (OKV, Agg(i, (), t)) if w.kind == "unit" else SKIP if w.kind == "newtype" else (ERR, "variant without contents")
            return (ERR, "unknown variant")
        if n != "Map" or not st.eq(st.llen(st.force(a.f[0])), 1):
            return (ERR, "not a variant")
        p = fields_of(st, W.elements(st, st.force(a.f[0]), 1)[0])
        kn, ka = variant_name(E, st, p.f[0])
        if kn in ("Unsigned", "ByteString"):
            return SKIP   # serde identifies variants by index and bytes too
        if kn != "TextString":
            return (ERR, "unknown variant")
        for i, w in enumerate(d.variants):
            if not is_text(E, st, p.f[0], w.key):
                continue
            ts = ftypes(E, t, i)
            if w.kind == "unit":
                return (OKV, Agg(i, (), t)) if lazy_is(E, st, p.f[1], ("NullValue",)) else (ERR, "contents in a unit variant")
            if w.kind == "newtype":
                r = decode(E, st, ts[0], p.f[1])
                r = (OKV, (r[1],)) if r[0] == OKV else r
            else:
                vn, va = variant_name(E, st, p.f[1])
                if w.kind == "array" and vn != "Array" or w.kind == "map" and vn != "Map":
                    return wrong
                r = dstruct(E, st, S(*w.fields, kind=w.kind, unknown=True), ts, p.f[1], vn, va)
            return (OKV, Agg(i, r[1], t)) if r[0] == OKV else r
        return (ERR, "unknown variant")
    raise Undecided("no serde specification for %s" % t.s)


def each(E, st, ts, xs):
    out = []
    for t, x in zip(ts, xs):
        r = decode(E, st, t, x)
        if r[0] != OKV:
            return r
        out.append(r[1])
    return (OKV, tuple(out))


def ignorable(E, st, v):
    """May the value of an unknown field be passed over? None: not specified."""
    n, _ = variant_name(E, st, v)
    return False if n == "Tag" else None if n in ("Array", "Map") else True


def dstruct(E, st, d, ts, v, n, a):
    if d.kind == "unit":
        return (OKV, ()) if n == "Simple" and simple_name(st, a) in ("NullValue", "Undefined") else (ERR, "unexpected type")
    if n == "Array" and d.kind == "array":
        live = [t for f, t in zip(d.fields, ts) if not f.skip]
        xs = O.exact(st, a.f[0], len(live))
        if xs is None:
            return (ERR, "wrong array length")
        r = each(E, st, live, xs)
        if r[0] != OKV:
            return r
        it = iter(r[1])
        return (OKV, tuple(O.rust_default(E, st, t) if f.skip else next(it) for f, t in zip(d.fields, ts)))
    if d.kind == "array" or n != "Map":
        return (ERR, "unexpected type")
    got = {}
    es = [fields_of(st, e) for e in list_elems(st, a.f[0])]
    for p in es:
        kn, _ = variant_name(E, st, p.f[0])
        if kn in ("Unsigned", "ByteString"):
            return SKIP   # serde identifies fields by index and bytes too
    for p in es:
        if variant_name(E, st, p.f[0])[0] != "TextString":
            return (ERR, "key is not a text")
        hit = next((i for i, f in enumerate(d.fields) if not f.skip and is_text(E, st, p.f[0], f.key)), None)
        if hit is None:
            if not d.unknown:
                return (ERR, "unknown field")
            g = ignorable(E, st, p.f[1])
            if not g:
                return SKIP if g is None else (ERR, "tags are not supported")
            continue
        if hit in got:
            return (ERR, "duplicate field")
        got[hit] = p.f[1]
    out = []
    for i, t in enumerate(ts):
        f = d.fields[i]
        if f.skip or f.optional and i not in got:
            out.append(O.rust_default(E, st, t))
            continue
        if i not in got:
            if t.k == "enum" and t.path.endswith("::Option"):
                out.append(Agg(0, (), t))
                continue
            return (ERR, "missing field")
        r = decode(E, st, t, got[i])
        if r[0] != OKV:
            return r
        out.append(r[1])
    return (OKV, tuple(out))


def roundtrip(E, st, t, x):
    r = encode(E, st, t, x)
    if r[0] != OKV:
        return r
    d = desc(t)
    if isinstance(d, S) and any(f.skip for f in d.fields):
        return (OKV, Agg(0, tuple(O.rust_default(E, st, ft) if f.skip else y for f, ft, y in zip(d.fields, ftypes(E, t), fields_of(st, x).f)), t))
    return (OKV, Ptr(st.alloc(E.read(st, st.force(x)))) if t.box else x)


def probe(hint):
    """What a visitor is offered under a hint."""
    def f(E, st, t, v):
        def mk(name, *fs):
            return (OKV, Agg(next(i for i, w in enumerate(t.vs) if w["n"] == name), fs, t))
        if hint in ("f32", "f64"):
            return (ERR, "floats are not supported")
        if hint == "option":
            if lazy_is(E, st, v, ("NullValue",)):
                return mk("Nothing")
            o, x = N.dec_leaf(E, st, E.P.ty(next(w for w in t.vs if w["n"] == "Just")["f"][0][1]), v)
            return mk("Just", x) if o == "ok" else (ERR, "leaf value")
        n, a = variant_name(E, st, v)
        if hint == "char":
            r = O.decode(E, st, E.P.ty(next(w for w in t.vs if w["n"] == "X")["f"][0][1]), v)
            return mk("X", r[1]) if r[0] == OKV else r
        if hint == "seq" and n != "Array" or hint in ("map", "struct") and n != "Map" or n == "Tag":
            return (ERR, "wrong kind")
        if n in ("Unsigned", "Negative"):
            return mk("I", st.force(a.f[0]))
        if n in ("ByteString", "TextString"):
            return mk("B" if n == "ByteString" else "T", a.f[0])
        if n == "Simple":
            s = O.simple_name(st, a)
            return mk("L", int(s == "TrueValue")) if s in ("FalseValue", "TrueValue") else mk("Nil")
        out = []
        lt = E.P.ty(next(w for w in t.vs if w["n"] == ("Seq" if n == "Array" else "Map"))["f"][0][1])
        et = E.P.ty(lt.args[0])
        for e in list_elems(st, a.f[0]):
            r = each(E, st, [et], [e]) if n == "Array" else each(E, st, [E.P.ty(x) for x in et.ts], fields_of(st, e).f)
            if r[0] != OKV:
                return r
            out.append(r[1][0] if n == "Array" else Agg(0, r[1]))
        return mk("Seq" if n == "Array" else "Map", Lst(tuple(("e", x) for x in out)))
    return f
