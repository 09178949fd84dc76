"""Jobs on codecs: built-in types, derived types."""
from vals import *
from state import *
from state import IMAX
import judge as J
import jobs_wire as JW
import natives as N
import obl_wire as W
import oracle as O
import serde_oracle as SO
from engine import Engine


def norm_maps(t):
    """CBOR maps are unordered: sort the entries of map values."""
    if isinstance(t, tuple):
        t = tuple(norm_maps(x) for x in t)
        if len(t) == 3 and t[0] == "A" and len(t[2]) == 1 and isinstance(t[2][0], tuple) and t[2][0][:1] == ("L",):
            return ("A", t[1], (sort_entries(t[2][0]),))
    return t


def sort_entries(l):
    if len(l) > 2 and all(x[0] == "e" and isinstance(x[1], tuple) and x[1][0] == "A" and x[1][1] == 0 and len(x[1][2]) == 2 for x in l[1:]):
        return ("L",) + tuple(sorted(l[1:], key=lambda x: repr(x[1][2])))
    return l


def sort_all(t):
    """Hash collections are unordered."""
    if isinstance(t, tuple) and t[:1] == ("L",) and all(x[0] == "e" for x in t[1:]):
        return ("L",) + tuple(sorted(t[1:], key=repr))
    return t


def engine(P, root, deadline):
    E = Engine(P)
    E.deadline = deadline
    r = P.root(root)
    if r is None:
        raise Undecided("no root " + root)
    return E, r, P.sig(r)


def ordered(E, st, t, l):
    """Facts about the entries of a standard collection."""
    xs = W.elements(st, l, 1000)
    ks = [st.force(x).f[0] for x in xs] if t.path.endswith("Map") else xs
    if "BTree" in t.path:
        for a, b in zip(ks, ks[1:]):
            st.assume(("ord", a, b, "lt"))
    if "Hash" in t.path:
        for i in range(len(ks)):
            for j in range(i):
                st.assume(("one", ks[i], ks[j]))


def give(E, st, t, n, name=("in", "x")):
    """A symbolic argument of type t; collections have exactly n entries."""
    x = Sym(name, t)
    if t.k == "struct" and t.path in LISTLIKE:
        et = None if "Map" in t.path or t.path.endswith("String") else E.P.ty(t.args[0])
        if n is not None and not (et is not None and O.is_u8(et)):
            E.assume_len[x.name] = n
            l = st.force(x)
            if "BTree" in t.path or "Hash" in t.path:
                ordered(E, st, t, l)
    elif n is not None:   # the one collection within: in a reference, an option or a wrapper
        if t.k == "ref":
            E.assume_len[("d", x.name)] = n
        elif t.k == "enum" and t.path.endswith("::Option"):
            E.assume_len[("f", x.name, 1, 0)] = n
        elif t.k == "struct":   # all of its fields that are collections
            fs = t.vs[0]["f"]
            for i, f in enumerate(fs):
                ft = E.P.ty(f[1])
                if len(fs) == 1 or ft.k == "struct" and ft.path in LISTLIKE and not ft.path.endswith("String"):
                    E.assume_len[("f", x.name, i)] = n
    return x


def name_of(root):
    return root.replace("vh::r_builtin::", "").replace("vh::r_derive::", "").replace("vh::r_gen::", "").replace("vh::r_serde::", "serde ").replace("::", " ").strip()


def out_job(P, root, spec, n=None, variant=None, deadline=None, norm=None, unroll=None):
    """root(x): compares its result with spec(E, st, type of x, x)."""
    E, r, sig = engine(P, root, deadline)
    E.max_unroll = max(E.max_unroll, unroll or 0, (n or 0) + 1)
    what = name_of(root) + ("" if n is None else " of %d entries" % n) + ("" if variant is None else " of variant %d" % variant)
    rep = J.Report(what)
    t = P.ty(sig["in"][0])
    byref = spec == "senc"
    if byref:
        t = P.ty(t.t)
    f = getattr(Specs, spec)
    for pre in ((None, 0xD7FF), (0xE000, None)) if t.k == "char" else (None,):
        st = State(E)
        x = UNIT if t.k == "tuple" and not t.ts else Agg(0, (), t) if t.k == "struct" and not t.vs[0]["f"] else give(E, st, t, n)
        if pre is not None:   # characters are the code points outside the surrogate range
            c = st.force(x)
            st.assume(("le", sub(c, pre[1]) if pre[1] is not None else sub(pre[0], c)))
        if variant is not None:
            st.expand_variant(x, variant)
        if byref:
            st.heap[("x",)] = x
        E.push(st, r, [Ptr(("x",)) if byref else x], None, None)
        E.castjob = True
        J.judge(E, rep, E.run(st), lambda s: f(E, s, t, x), what, norm=NORM.get(norm))
    JW.cast_rule(E, rep, what)
    rep.stats(E)
    return rep


NORM = {"maps": norm_maps, "all": sort_all, "entries": lambda t: sort_entries(norm_maps(t))}


class Specs:
    def enc(E, st, t, x):
        return ("val", O.encode(E, st, t, x))

    def opt(E, st, t, x):
        e = O.opt_encode(E, st, t, x)
        return ("val", Agg(0, ()) if e is None else Agg(1, (e,)))

    def is_empty(E, st, t, x):
        return ("val", int(O.is_empty(E, st, t, x)))

    def rt(E, st, t, x):
        r = O.roundtrip(E, st, t, x)
        return r

    def asmap(E, st, t, x):
        a = st.force(O.encode(E, st, t, x))
        if O.vt(E).vs[a.v]["n"] != "Map":
            return ("none",)
        return ("val", a.f[0])

    def asmap_v(E, st, t, x):
        return ("val", O.encode(E, st, t, x))


    def senc(E, st, t, x):
        return SO.encode(E, st, t, x)

    def srt(E, st, t, x):
        return SO.roundtrip(E, st, t, x)


def dflt_job(P, root, deadline=None):
    E, r, sig = engine(P, root, deadline)
    rep = J.Report(name_of(root))
    st = State(E)
    E.push(st, r, [], None, None)
    t = P.ty(P.ty(sig["out"]).vs[0]["f"][0][1])
    J.judge(E, rep, E.run(st), lambda s: O.default(E, s, t), rep.name)
    rep.stats(E)
    return rep


def others(keys, n):
    """n keys that are not among the given ones: their neighbours first, then ones before, between and behind them."""
    near, far = [], []
    for k in keys:
        near += [k + 1, k - 1] if isinstance(k, int) else [k + "x", k[:-1], k[:-1] + chr(ord(k[-1]) + 1)] if k else [k + "x"]
    for i in range(n):
        far += [100 + i, -100 - i, "a%02d" % i, i, -1 - i]
    out = []
    for k in near + far:
        if k not in keys and k not in out and k != "":
            out.append(k)
    return out[:n]


def keyed(E, st, keys, fill, name):
    """A map value with definite keys in canonical order and arbitrary values."""
    ks = sorted(list(keys) + others(keys, fill), key=O.key_order)
    return W.mkv(E, "Map", Lst(tuple(("e", Agg(0, (O.key_value(E, k), Sym(("in", name, i), W.vt(E))))) for i, k in enumerate(ks)))), ks


def keyed_job(P, root, deadline=None):
    """Decoding from maps with definite keys: all fields present, one missing, none; alone, or among unknown keys."""
    E, r, sig = engine(P, root, deadline)
    t = P.ty(P.ty(sig["out"]).vs[0]["f"][0][1])
    d = O.desc(t)
    rep = J.Report(name_of(root) + " from maps with definite keys")
    E.nested_max = (1, 1)
    shapes = []
    if isinstance(d, O.S):
        if d.kind == "map":
            shapes.append((None, None, d))
    elif d is not None:
        for v in d.variants:
            if v.kind == "map" and v.key is not None and not v.skip:
                shapes.append((d.tag, v.key, v))
    for tag, vkey, s in shapes:
        own = [f.key for f in s.fields if not f.skip]
        base = () if tag is None else (tag,)
        for ks in [own] + [own[:i] + own[i + 1:] for i in range(len(own))] + ([[]] if len(own) > 1 else []):
            for fill in (0, 1, 30) if ks == own else (0, 30):
                E.max_unroll = 60
                st = State(E)
                v, order = keyed(E, st, base + tuple(ks), fill, "v")
                if tag is not None:
                    l = v.f[0]
                    i = order.index(tag)
                    v = W.mkv(E, "Map", Lst(l.segs[:i] + (("e", Agg(0, (O.key_value(E, tag), O.key_value(E, vkey)))),) + l.segs[i + 1:]))
                elif vkey is not None:
                    v = W.mkv(E, "Map", Lst((("e", Agg(0, (O.key_value(E, vkey), v))),)))
                E.push(st, r, [v], None, None)
                J.judge(E, rep, E.run(st), lambda x: O.decode_default(E, x, t, v), rep.name + " %s%s and %d others" % ("" if vkey is None else "of variant %r " % (vkey,), ks, fill))
    rep.stats(E)
    return rep


def null_shapes(E, kind, fields, unknown):
    """Field by field: present with any content, null, undefined, missing; each on its own, and all alike."""
    own = [f for f in fields if not f.skip]
    n = len(own)
    for how in ("null", "undefined", "missing"):
        for at in [{i} for i in range(n)] + ([set(range(n))] if n > 1 else []):
            if how == "missing" and kind == "array":
                continue
            yield "%s %s" % (how, sorted(at)), [(f.key, how if i in at else "any") for i, f in enumerate(own)]


def null_value(E, how, name):
    return W.simple(E, "NullValue") if how == "null" else W.simple(E, "Undefined") if how == "undefined" else Sym(("in", name), W.vt(E))


def null_build(E, kind, items, extra=()):
    vs = [(k, null_value(E, how, ("f", i))) for i, (k, how) in enumerate(items) if how != "missing"]
    if kind == "array":
        return W.mkv(E, "Array", Lst(tuple(("e", v) for _, v in vs)))
    if kind == "newtype":
        return vs[0][1]
    es = sorted(vs + list(extra), key=lambda e: O.key_order(e[0]))
    return W.mkv(E, "Map", Lst(tuple(("e", Agg(0, (O.key_value(E, k), v))) for k, v in es)))


def null_job(P, root, deadline=None):
    """Decoding when a field's content is null, undefined or missing, in every place the derive macros put a field."""
    E, r, sig = engine(P, root, deadline)
    t = P.ty(P.ty(sig["out"]).vs[0]["f"][0][1])
    d = O.desc(t)
    rep = J.Report(name_of(root) + " with null, undefined and missing fields")
    E.nested_max = (1, 1)
    E.max_unroll = 60
    shapes = []
    if isinstance(d, O.S):
        if d.kind in ("map", "array"):
            shapes = [(None, d.kind, d.fields, d.unknown)]
    elif d is not None:
        shapes = [(v, v.kind, v.fields, v.unknown) for v in d.variants if not v.skip and not v.embed and v.kind in ("map", "array", "newtype")]
    for w, kind, fields, unknown in shapes:
        if w is not None and d.tag is not None and kind == "newtype":
            continue   # the content is the map itself
        for what, items in null_shapes(E, kind, fields, unknown):
            if kind == "newtype" and what.startswith("missing"):
                continue
            st = State(E)
            extra = ((d.tag, O.key_value(E, w.key)),) if w is not None and d.tag is not None else ()
            v = null_build(E, kind, items, extra)
            if w is not None and d.tag is None:
                v = W.mkv(E, "Map", Lst((("e", Agg(0, (O.key_value(E, w.key), v))),)))
            E.push(st, r, [v], None, None)
            J.judge(E, rep, E.run(st), lambda x: O.decode_default(E, x, t, v), rep.name + " %s%s" % ("" if w is None else "of variant %r: " % (w.key,), what))
    rep.stats(E)
    return rep


def dec_job(P, root, strict_entry=False, variant=None, n=None, srt=False, nested=(4, 2), deadline=None, norm=None, unroll=None, serde=False, keys=None):
    """Decoding from a value of one variant; containers with n entries (sorted by key if srt; keys of one kind)."""
    E, r, sig = engine(P, root, deadline)
    E.max_unroll = max(E.max_unroll, unroll or 0, (n or 0) + 1)
    what = name_of(root) + " from %s" % variant + ("" if n is None else " of %d entries%s" % (n, " in order" if srt else ""))
    rep = J.Report(what)
    E.decoded = True
    st = State(E)
    v = W.setup_value(E, st, "v", variant, n)
    E.nested_max = nested
    E.max_paths = 60000
    if keys:
        for x in W.elements(st, st.force(st.force(v).f[0]), 1000):
            st.expand_variant(st.force(x).f[0], N.variant(W.vt(E), keys))
        what = rep.name = what + " under keys of kind " + keys
    if srt:
        ks = [st.force(x).f[0] for x in W.elements(st, st.force(st.force(v).f[0]), 1000)]
        for a, b in zip(ks, ks[1:]):
            st.assume(("ord", a, b, "lt"))
    E.push(st, r, [v], None, None)
    t = P.ty(P.ty(sig["out"]).vs[0]["f"][0][1])
    f = SO.probe(serde[6:]) if isinstance(serde, str) else SO.decode if serde else O.decode if strict_entry else O.decode_default

    def spec(s):
        return f(E, s, t, v)
    E.castjob = True
    outs = E.run(st)
    J.judge(E, rep, outs, spec, what, norm=NORM.get(norm))
    JW.cast_rule(E, rep, what)
    JW.width_rule(E, rep, outs, what)
    rep.stats(E)
    return rep


MARKER = ("oasis_cbor::encode::EncodeAsMap", "into_cbor_map")


def asmap_job(P, root, n=None, deadline=None):
    """If the type implements the map marker, its map entries are those of its encoding, which is a map on every path."""
    E, r, sig = engine(P, root, deadline)
    t = P.ty(sig["in"][0])
    rep = J.Report("map marker of " + name_of(root)[:-4] + ("" if n is None else " of %d entries" % n))
    inst = P.misc("tm", MARKER[0], MARKER[1], str(t.id))
    if not isinstance(inst, int):
        rep.samples.append("%s does not implement the marker" % t.s)
        return rep
    rep.samples.append("%s implements the marker" % t.s)
    st = State(E)
    x = UNIT if t.k == "tuple" and not t.ts else Agg(0, (), t) if t.k == "struct" and not t.vs[0]["f"] else give(E, st, t, n)
    E.push(st, inst, [x], None, None)
    outs = E.run(st)

    def spec(s):
        a = s.force(O.encode(E, s, t, x))
        if not isinstance(a, Agg) or O.vt(E).vs[a.v]["n"] != "Map":
            return ("val", Agg(99, ()), "the value does not encode as a map")
        return ("val", a.f[0])
    J.judge(E, rep, outs, spec, rep.name, norm=NORM["entries"])
    rep.stats(E)
    return rep
