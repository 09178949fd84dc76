"""What the codecs must do, written down independently of the code: built-in types by their Rust type, derived types by
the attribute tables below (kept by hand next to the corpus in harness/src/r_derive.rs)."""
from vals import *
from state import *
from state import IMAX
import natives as N
import obl_wire as W
from judge import Diverge

OKV, ERR = "ok", "err"


# ------------------------------------------------------------------ descriptions of the derived corpus
from corpus import F, S, V, En, G

D = {
    "SPlain": S(F("b"), F("a")),
    "SReq": S(F("x"), F("y"), default=False),
    "SRen": S(F(20), F("zz"), F("ccc"), F(3)),
    "SOpt": S(F("a", optional=True), F("o", optional=True), F("c")),
    "SAllOpt": S(F("a", optional=True), F("b", optional=True)),
    "SSkip": S(F("a"), F(skip=True), F("z")),
    "SSkipIf": S(F("a", optional=True, skipif=True), F("b")),
    "SWith": S(F("a", with_=True), F("b")),
    "SOptWith": S(F("a", optional=True, with_=True), F("b")),
    "SArr": S(F(), F(), F(), kind="array"),
    "SArrSkip": S(F(), F(skip=True), F(), kind="array"),
    "SArrWith": S(F(with_=True), F(), kind="array"),
    "STup": S(F(), F(), F(), kind="array"),
    "SNew": S(F(), kind="array"),
    "STrans": S(F(), kind="transparent"),
    "STransReq": S(F(), kind="transparent", default=False),
    "SUnit": S(kind="unit"),
    "SEmpty": S(),
    "SUnk": S(F("b"), F(1), unknown=True),
    "SArrUnk": S(F(), F(), kind="array", unknown=True),
    "SGen": S(F("g"), F("n")),
    "SNest": S(F("s"), F("t")),
    "EUnit": En(V("unit", "A"), V("unit", "bee"), V("unit", 7)),
    "EDisc": En(V("unit", None, disc=0), V("unit", None, disc=5), V("unit", None, disc=9)),
    "EDef": En(V("unit", "Zero"), V("unit", "One"), default=0),
    "EMix": En(V("unit", "U"), V("unit", 4), V("newtype", "N", F()), V("array", 2, F(), F()), V("map", "S", F("x"), F(1)),
               V("array", "arr", F(), F()), V("map", "W"), V("newtype", "H", F(), skip=True)),
    "EUnk": En(V("map", "S", F("x"), unknown=True), V("map", "T", F("x"))),
    "EOne": En(V("newtype", "N", F())),
    "EReq": En(V("newtype", "N", F()), V("map", "S", F("x", optional=True), F("y"))),
    "ETag": En(V("map", "S", F("x")), V("newtype", 1, F()), V("map", "U"), tag="t"),
    "ETagUnit": En(V("map", "P"), V("map", "Q", F("x")), tag="k"),
    "ETagMiss": En(V("map", 0, F("x"), missing=True), V("map", 1, F("y")), tag=9),
    "ESkip": En(V("newtype", "A", F()), V("unit", "Hidden", skip=True)),
    "EInner": En(V("unit", "in"), V("newtype", "im", F())),
    "EInnerTag": En(V("map", "p", F("x"), F("y")), tag="t"),
    "EEmbed": En(V("unit", "out"), V("newtype", None, F(), embed=True), V("newtype", "om", F())),
    "EEmbedUnit": En(V("unit", "out"), V("newtype", None, F(), embed=True)),
    "EEmbedTag": En(V("newtype", "om", F()), V("newtype", None, F(), embed=True)),
    "EUntag": En(V("newtype", None, F()), V("map", None, F("x")), untagged=True),
}
D.update(G)


def desc(t):
    return D.get(t.path.rsplit("::", 1)[-1]) if t.path and t.path.startswith(("vh::r_derive::", "vh::r_gen::")) else None


# ------------------------------------------------------------------ helpers
def vt(E):
    return W.vt(E)


def text(E, s):
    return W.mkv(E, "TextString", Lst(tuple(("e", b) for b in s.encode())))


def key_value(E, k):
    if isinstance(k, int):
        return W.mkv(E, "Unsigned", k) if k >= 0 else W.mkv(E, "Negative", k)
    return text(E, k)


def key_order(k):
    return (0, k) if isinstance(k, int) and k >= 0 else (1, -k) if isinstance(k, int) else (3, len(k), k)


def null(E):
    return W.simple(E, "NullValue")


def variant_name(E, st, v):
    """Forces the head of a Value; returns (variant name, aggregate)."""
    a = st.force(v)
    if isinstance(a, Top):
        raise Undecided(a.why)
    if not isinstance(a, Agg):
        raise Undecided("value %r" % (a,))
    return vt(E).vs[a.v]["n"], a


def simple_name(st, a):
    s = st.force(a.f[0])
    return s.ty.vs[s.v]["n"]


def lazy_is(E, st, v, want):
    """Is v one of the simple values in `want`? Does not split further than necessary."""
    n, a = variant_name(E, st, v)
    return n == "Simple" and simple_name(st, a) in want


def ftypes(E, t, vi=0):
    return [E.P.ty(ft) for _, ft in t.vs[vi]["f"]]


def is_u8(t):
    return t.k == "int" and t.bits == 8 and not t.signed


def is_opq(t):
    return t.k == "struct" and t.path.startswith(N.OPQ)


def fields_of(st, v):
    v = st.force(v)
    if isinstance(v, Top):
        raise Undecided(v.why)
    return v


MAXN = 9


def list_elems(st, l):
    return W.elements(st, st.force(l), max(MAXN, st.E.max_unroll))


def opq_is_default(E, st, v):
    return N.is_default(E, st, N.opq_name(st, v))


# ------------------------------------------------------------------ defaults
def default(E, st, t):
    if t.k in ("int", "bool", "char"):
        return (OKV, 0)
    if t.k == "tuple":
        xs = []
        for x in t.ts:
            r = default(E, st, E.P.ty(x))
            if r[0] == ERR:
                return r
            xs.append(r[1])
        return (OKV, Agg(0, xs))
    if t.k == "array":
        return (OKV, Lst((("e", 0),) * t.n)) if is_u8(E.P.ty(t.t)) else (ERR, "no default")
    if t.k == "struct" and t.path in LISTLIKE:
        return (OKV, Lst(()))
    if is_opq(t):
        n = N.opq_n(t)
        return (ERR, "missing field") if n % 2 else (OKV, Sym(("dflt", n), t))
    if t.k == "enum" and t.path.endswith("::Option"):
        return (OKV, Agg(0, (), t))
    if t.id == vt(E).id:
        return (OKV, null(E))
    d = desc(t)
    if isinstance(d, S):
        return (OKV, rust_default(E, st, t)) if d.default else (ERR, "missing field")
    if isinstance(d, En):
        return (OKV, Agg(d.default, (), t)) if d.default is not None else (ERR, "missing field")
    raise Undecided("no specification for the default of %s" % t.s)


def rust_default(E, st, t):
    d = desc(t)
    if isinstance(d, S):
        return Agg(0, [rust_default(E, st, x) for x in ftypes(E, t)], t)
    r = default(E, st, t)
    if r[0] == ERR:
        raise Undecided("no Default for %s" % t.s)
    return r[1]


# ------------------------------------------------------------------ encoding
def int_value(E, st, x, t):
    if t.signed and st.lt(x, 0):
        return W.mkv(E, "Negative", x)
    return W.mkv(E, "Unsigned", x)


def encode(E, st, t, v):
    if t.k == "ref":
        u = E.P.ty(t.t)
        p = st.force(v)
        return encode(E, st, u, E.read(st, p))
    if is_opq(t):
        return N.enc_sym(E, st, N.opq_name(st, v))
    if t.id == vt(E).id:
        return v
    if t.k == "int" and t.bits == 128:
        x = st.force(v)
        n = 0
        while n < 16 and not st.lt(x, 1 << (8 * n)):
            n += 1
        return W.mkv(E, "ByteString", Lst(tuple(("e", st.simp(mk_slice(x, 8 * (n - 1 - i), 8))) for i in range(n))))
    if t.k == "int":
        return int_value(E, st, st.force(v), t)
    if t.k == "char":
        return W.mkv(E, "Unsigned", st.force(v))
    if t.k == "bool":
        return W.simple(E, "TrueValue" if st.eq(st.force(v), 1) else "FalseValue")
    if t.k == "tuple":
        if not t.ts:
            return null(E)
        a = fields_of(st, v)
        return W.mkv(E, "Array", Lst(tuple(("e", encode(E, st, E.P.ty(x), f)) for x, f in zip(t.ts, a.f))))
    if t.k == "str" or t.k == "struct" and t.path == "alloc::string::String":
        return W.mkv(E, "TextString", st.force(v))
    if t.k == "array" or t.k == "struct" and t.path in LISTLIKE or t.k == "slice":
        if t.k == "struct" and t.path.endswith("Map"):
            out = []
            for e in list_elems(st, v):
                p = fields_of(st, e)
                out.append(("e", Agg(0, (encode(E, st, E.P.ty(t.args[0]), p.f[0]), encode(E, st, E.P.ty(t.args[1]), p.f[1])))))
            return W.mkv(E, "Map", Lst(out))
        et = E.P.ty(t.t) if t.k in ("array", "slice") else E.P.ty(t.args[0])
        if is_u8(et) and not (t.k == "struct" and t.path.endswith("Set")):
            return W.mkv(E, "ByteString", st.force(v))
        out = [encode(E, st, et, e) for e in list_elems(st, v)]
        if t.k == "struct" and t.path.endswith("HashSet"):
            out = order_values(E, st, out)
        return W.mkv(E, "Array", Lst(tuple(("e", x) for x in out)))
    if t.k == "enum" and t.path.endswith("::Option"):
        a = fields_of(st, v)
        return null(E) if a.v == 0 else encode(E, st, E.P.ty(t.vs[1]["f"][0][1]), a.f[0])
    d = desc(t)
    if isinstance(d, S):
        return encode_struct(E, st, d, ftypes(E, t), fields_of(st, v).f if d.kind != "unit" else ())
    if isinstance(d, En):
        return encode_enum(E, st, d, t, v)
    raise Undecided("no specification for the encoding of %s" % t.s)


def order_values(E, st, xs):
    out = []
    for x in xs:
        i = 0
        while i < len(out) and N.vcmp(E, st, out[i], x) != "gt":
            i += 1
        out.insert(i, x)
    return out


def ser_with(E, st, x):
    x = N.opq_name(st, x)
    r = E.P.sig(E.P.root("vh::opq::ser_with"))
    s = Sym(("sw", x.name), E.P.ty(r["out"]))
    E.swof[s.name] = x
    return s


def with_ty(E):
    return E.P.ty(E.P.sig(E.P.root("vh::opq::ser_with"))["out"])


def opt_encode(E, st, t, v):
    """Encoding of an optional field's value, or None when it is left out."""
    if t.k == "ref":
        return opt_encode(E, st, E.P.ty(t.t), E.read(st, st.force(v)))
    d = desc(t)
    if d is not None:
        if isinstance(d, En):
            return encode(E, st, t, v)
        if d.kind == "unit":
            return None
        if d.kind == "transparent":
            return opt_encode(E, st, ftypes(E, t)[0], fields_of(st, v).f[0])
        e = encode(E, st, t, v)
        n, a = variant_name(E, st, e)
        return None if n == "Map" and not a.f[0].segs else e
    if is_empty(E, st, t, v):
        return None
    return encode(E, st, t, v)


def is_empty(E, st, t, v):
    if t.k == "ref":
        return is_empty(E, st, E.P.ty(t.t), E.read(st, st.force(v)))
    if is_opq(t):
        return opq_is_default(E, st, v)
    if t.id == vt(E).id:
        return lazy_is(E, st, v, ("NullValue", "Undefined"))
    if t.k in ("int", "bool", "char"):
        return st.eq(st.force(v), 0)
    if t.k == "tuple":
        if not t.ts:
            return True
        a = fields_of(st, v)
        return all(is_empty(E, st, E.P.ty(x), f) for x, f in zip(t.ts, a.f))
    if t.k == "str" or t.k == "struct" and t.path in LISTLIKE:
        return st.eq(st.llen(st.force(v)), 0)
    if t.k == "enum" and t.path.endswith("::Option"):
        return fields_of(st, v).v == 0
    if t.k == "array":
        return False
    raise Undecided("no specification for is_empty of %s" % t.s)


def encode_struct(E, st, d, ts, fs):
    if d.kind == "unit":
        return null(E)
    if d.kind == "transparent":
        return encode(E, st, ts[0], fs[0])
    out = []
    for f, t, v in zip(d.fields, ts, fs):
        if f.skip:
            continue
        if f.with_:
            v, t = ser_with(E, st, v), with_ty(E)
        if f.optional and d.kind == "map":
            if f.skipif:
                if opq_is_default(E, st, v):
                    continue
            else:
                e = opt_encode(E, st, t, v)
                if e is None:
                    continue
                out.append((f.key, e))
                continue
        out.append((f.key, encode(E, st, t, v)))
    if d.kind == "array":
        return W.mkv(E, "Array", Lst(tuple(("e", e) for _, e in out)))
    return W.mkv(E, "Map", Lst(tuple(("e", Agg(0, (key_value(E, k), e))) for k, e in out)))


def encode_enum(E, st, d, t, v):
    a = fields_of(st, v)
    if not d.variants:
        return null(E)
    w = d.variants[a.v]
    ts = ftypes(E, t, a.v)
    if w.skip:
        return W.simple(E, "Undefined")
    if w.embed:
        return encode(E, st, ts[0], a.f[0])
    if w.kind == "unit":
        return key_value(E, w.disc if w.disc is not None else w.key)
    if w.kind == "newtype":
        inner = encode(E, st, ts[0], a.f[0])
    else:
        inner = encode_struct(E, st, S(*w.fields, kind=w.kind), ts, a.f)
    if d.untagged or w.missing:
        return inner
    if d.tag is not None:
        items = st.force(st.force(inner).f[0])
        return W.mkv(E, "Map", Lst(items.segs + (("e", Agg(0, (key_value(E, d.tag), key_value(E, w.key)))),)))
    return W.mkv(E, "Map", Lst((("e", Agg(0, (key_value(E, w.key), inner))),)))


# ------------------------------------------------------------------ decoding
def decode_default(E, st, t, v):
    """Null and undefined stand for the default value."""
    if is_leafenc(E, st, v):
        return decode(E, st, t, v)
    if lazy_is(E, st, v, ("NullValue", "Undefined")):
        return default(E, st, t)
    return decode(E, st, t, v)


def is_leafenc(E, st, v):
    i = st.ident(v)
    return isinstance(i, tuple) and i[0] == "S" and i[1] in E.encof


def decode(E, st, t, v):
    if is_opq(t):
        o, x = N.dec_leaf(E, st, t, v)
        return (OKV, x) if o == "ok" else (ERR, "leaf value")
    if t.id == vt(E).id:
        return (OKV, v)
    d = desc(t)
    if isinstance(d, S) and d.kind == "transparent":
        r = decode_default(E, st, ftypes(E, t)[0], v)
        return (OKV, Agg(0, (r[1],), t)) if r[0] == OKV else r
    if isinstance(d, S):
        r = decode_struct(E, st, d, ftypes(E, t), v)
        return (OKV, Agg(0, r[1], t)) if r[0] == OKV else r
    if isinstance(d, En):
        return decode_enum(E, st, d, t, v)
    if t.k == "enum" and t.path.endswith("::Option"):
        if lazy_is(E, st, v, ("NullValue",)):
            return (OKV, Agg(0, (), t))
        r = decode(E, st, E.P.ty(t.vs[1]["f"][0][1]), v)
        return (OKV, Agg(1, (r[1],), t)) if r[0] == OKV else r
    n, a = variant_name(E, st, v)
    wrong = (ERR, "unexpected type")
    if t.k == "int" and t.bits == 128:
        if n != "ByteString":
            return wrong
        l = st.force(a.f[0])
        if st.lt(16, st.llen(l)):
            return (ERR, "integer out of range")
        r = 0
        k = None
        for i in range(17):
            if st.eq(st.llen(l), i):
                k = i
                break
        for i in range(k):
            r = add(r, scale(st.force(st.lget(l, i)), 1 << (8 * (k - 1 - i))))
        return (OKV, st.simp(r))
    if t.k == "int":
        if n == "Unsigned" or n == "Negative" and t.signed:
            x = st.force(a.f[0])
            lo, hi = ty_range(t)
            if st.lt(hi, x) or st.lt(x, lo):
                return (ERR, "integer out of range")
            return (OKV, x)
        return wrong
    if t.k == "bool":
        if n == "Simple":
            s = simple_name(st, a)
            if s in ("FalseValue", "TrueValue"):
                return (OKV, int(s == "TrueValue"))
        return wrong
    if t.k == "char":
        if n != "Unsigned":
            return wrong
        x = st.force(a.f[0])
        if st.lt(0x10FFFF, x) or (not st.lt(x, 0xD800) and not st.lt(0xDFFF, x)):
            return (ERR, "not a character")
        return (OKV, x)
    if t.k == "tuple":
        if not t.ts:
            return (OKV, UNIT) if n == "Simple" and simple_name(st, a) in ("NullValue", "Undefined") else wrong
        if n != "Array":
            return wrong
        xs = exact(st, a.f[0], len(t.ts))
        if xs is None:
            return (ERR, "wrong array length")
        out = []
        for x, y in zip(t.ts, xs):
            r = decode(E, st, E.P.ty(x), y)
            if r[0] != OKV:
                return r
            out.append(r[1])
        return (OKV, Agg(0, out))
    if t.k == "struct" and t.path == "alloc::string::String":
        return (OKV, a.f[0]) if n == "TextString" else wrong
    if t.k == "array":
        et = E.P.ty(t.t)
        if is_u8(et):
            if n != "ByteString":
                return wrong
            l = st.force(a.f[0])
            return (OKV, l) if st.eq(st.llen(l), t.n) else (ERR, "wrong array length")
        if n != "Array":
            return wrong
        xs = exact(st, a.f[0], t.n)
        if xs is None:
            return (ERR, "wrong array length")
        return decode_list(E, st, et, xs)
    if t.k == "struct" and t.path in LISTLIKE:
        if t.path.endswith("Map"):
            if n != "Map":
                return wrong
            out = []
            bad = None
            for e in list_elems(st, a.f[0]):
                p = fields_of(st, e)
                k = decode(E, st, E.P.ty(t.args[0]), p.f[0])
                if k[0] != OKV:
                    return k
                w = decode(E, st, E.P.ty(t.args[1]), p.f[1])
                if w[0] != OKV:
                    return w
                out.append((k[1], w[1]))
            return (OKV, Lst(tuple(("e", Agg(0, p)) for p in collect(st, out, t.path.endswith("BTreeMap")))))
        et = E.P.ty(t.args[0])
        if t.path.endswith("::Vec") and is_u8(et):
            return (OKV, a.f[0]) if n == "ByteString" else wrong
        if n != "Array":
            return wrong
        r = decode_list(E, st, et, list_elems(st, a.f[0]))
        if r[0] == OKV and t.path.endswith("Set"):
            out = collect(st, [(x[1], None) for x in r[1].segs], t.path.endswith("BTreeSet"))
            return (OKV, Lst(tuple(("e", k) for k, _ in out)))
        return r
    raise Undecided("no specification for the decoding of %s" % t.s)


def exact(st, l, n):
    """Elements of a list of length exactly n, or None."""
    l = st.force(l)
    if not st.eq(st.llen(l), n):
        return None
    return W.elements(st, l, n)


def decode_list(E, st, et, xs):
    out = []
    for x in xs:
        r = decode(E, st, et, x)
        if r[0] != OKV:
            return r
        out.append(("e", r[1]))
    return (OKV, Lst(out))


def collect(st, kvs, ordered):
    """Keys in order (or first-seen order), a later entry replacing an earlier one."""
    out = []
    for k, v in kvs:
        i = 0
        done = False
        while i < len(out):
            if ordered:
                o = st.ord(out[i][0], k, N.conc_none)
            else:
                o = "eq" if st.oeq(out[i][0], k, N.conc_none) else "lt"
            if o == "eq":
                out[i] = (out[i][0], v)
                done = True
                break
            if o == "gt":
                break
            i += 1
        if not done:
            out.insert(i, (k, v))
    return out


def decode_field(E, st, f, t, v):
    if f.with_:
        r = decode_default(E, st, with_ty(E), v)
        if r[0] != OKV:
            return r
        y = N.opq_name(st, r[1])
        o, x = N.de_with(E, st, y, t)
        return (OKV, x) if o else (ERR, "conversion")
    return decode_default(E, st, t, v)


def decode_struct(E, st, d, ts, v):
    """('ok', field values) or ('err', why)."""
    n, a = variant_name(E, st, v)
    if d.kind == "unit":
        return (OKV, ()) if n == "Simple" and simple_name(st, a) == "NullValue" else (ERR, "unexpected type")
    if d.kind == "array":
        if n != "Array":
            return (ERR, "unexpected type")
        l = st.force(a.f[0])
        out = []
        for f, t in zip(d.fields, ts):
            if f.skip:
                out.append(rust_default(E, st, t))
                continue
            r = st.lpop_front(l)
            if r is None:
                return (ERR, "missing field")
            l = r[1]
            x = decode_field(E, st, f, t, r[0])
            if x[0] != OKV:
                return x
            out.append(x[1])
        if not d.unknown and st.lpop_front(l) is not None:
            return (ERR, "unknown field")
        return (OKV, tuple(out))
    if n != "Map":
        return (ERR, "unexpected type")
    return decode_entries(E, st, d, ts, list_elems(st, a.f[0]))


def decode_entries(E, st, d, ts, entries):
    got = {}
    for e in entries:
        p = fields_of(st, e)
        hit = None
        for i, f in enumerate(d.fields):
            if not f.skip and N.veq(E, st, p.f[0], key_value(E, f.key)):
                hit = i
                break
        if hit is None:
            if not d.unknown:
                return (ERR, "unknown field")
            continue
        if hit in got:
            if d.unknown:
                return ("skip",)   # which of the duplicates wins is not specified
            return (ERR, "duplicate field")
        got[hit] = p.f[1]
    out = [None] * len(d.fields)
    for i, (f, t) in enumerate(zip(d.fields, ts)):
        if f.skip:
            out[i] = rust_default(E, st, t)
            continue
        x = decode_field(E, st, f, t, got.get(i, null(E)))
        if x[0] != OKV:
            return x
        out[i] = x[1]
    return (OKV, tuple(out))


def decode_enum(E, st, d, t, v):
    n, a = variant_name(E, st, v)
    no = (ERR, "no variant matches")
    if d.tag is not None:
        if n != "Map":
            return (ERR, "unexpected type")
        es = list_elems(st, a.f[0])
        tagv, rest = None, []
        for e in es:
            p = fields_of(st, e)
            if N.veq(E, st, p.f[0], key_value(E, d.tag)):
                if tagv is not None:
                    return ("skip",)   # duplicate tag entries
                tagv = p.f[1]
            else:
                rest.append(e)
        for i, w in enumerate(d.variants):
            if w.skip:
                continue
            match = tagv is not None and N.veq(E, st, tagv, key_value(E, w.key))
            if w.missing and not match:
                match = tagv is None or lazy_is(E, st, tagv, ("Undefined",))
            if not match:
                continue
            ts = ftypes(E, t, i)
            if w.kind == "newtype":
                r = decode(E, st, ts[0], W.mkv(E, "Map", Lst(tuple(("e", e) for e in rest))))
                return (OKV, Agg(i, (r[1],), t)) if r[0] == OKV else r
            r = decode_entries(E, st, S(*w.fields, unknown=w.unknown), ts, rest)
            return (OKV, Agg(i, r[1], t)) if r[0] == OKV else r
        return no
    for i, w in enumerate(d.variants):
        if not w.skip and w.kind == "unit" and not w.embed and N.veq(E, st, v, key_value(E, w.disc if w.disc is not None else w.key)):
            return (OKV, Agg(i, (), t))
    if n == "Map":
        es = st.force(a.f[0])
        if any(not w.skip and not w.embed and w.kind != "unit" for w in d.variants) and st.eq(st.llen(es), 1):
            p = fields_of(st, W.elements(st, es, 1)[0])
            for i, w in enumerate(d.variants):
                if w.skip or w.embed or w.kind == "unit":
                    continue
                if N.veq(E, st, p.f[0], key_value(E, w.key)):
                    ts = ftypes(E, t, i)
                    if w.kind == "newtype":
                        r = decode_default(E, st, ts[0], p.f[1])
                        return (OKV, Agg(i, (r[1],), t)) if r[0] == OKV else r
                    r = decode_struct(E, st, S(*w.fields, kind=w.kind, unknown=w.unknown), ts, p.f[1])
                    return (OKV, Agg(i, r[1], t)) if r[0] == OKV else r
    for i, w in enumerate(d.variants):
        if w.embed and not w.skip:
            ts = ftypes(E, t, i)
            r = decode_default(E, st, ts[0], v)
            if r[0] == "skip":
                return r
            if r[0] == OKV:
                return (OKV, Agg(i, (r[1],), t))
    return no


# ------------------------------------------------------------------ round trip
def roundtrip(E, st, t, x):
    """What decode(encode(x)) must give: x, with skipped fields reset to their default."""
    if t.id == vt(E).id and lazy_is(E, st, x, ("Undefined",)):
        return ("skip",)   # undefined stands for a missing value
    d = desc(t)
    if isinstance(d, En):
        a = fields_of(st, x)
        if d.variants[a.v].skip:
            return ("skip",)
        ts = ftypes(E, t, a.v)
        out = []
        for f, ft, v in zip(d.variants[a.v].fields, ts, a.f):
            r = (OKV, rust_default(E, st, ft)) if f.skip else roundtrip(E, st, ft, v)
            if r[0] != OKV:
                return r
            out.append(r[1])
        return (OKV, Agg(a.v, out, t))
    if isinstance(d, S):
        if d.kind == "unit":
            return (OKV, x)
        a = fields_of(st, x)
        ts = ftypes(E, t)
        out = []
        for f, ft, v in zip(d.fields, ts, a.f):
            r = (OKV, rust_default(E, st, ft)) if f.skip else roundtrip(E, st, ft, v)
            if r[0] != OKV:
                return r
            out.append(r[1])
        return (OKV, Agg(0, out, t))
    return (OKV, x)
