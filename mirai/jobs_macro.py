"""Jobs on the helper macros and conversions of the value crate."""
from vals import *
from state import *
import judge as J
import jobs_wire as JW
import natives as N
import obl_wire as W
import oracle as O
from jobs_codec import engine, NORM

some = lambda v: Agg(1, (v,))
NONE = Agg(0, ())


def ints(E, st, x):
    return W.mkv(E, "Negative", x) if st.lt(x, 0) else W.mkv(E, "Unsigned", x)


def deref(E, st, v):
    v = st.force(v)
    return st.force(E.read(st, v)) if isinstance(v, Ptr) else v


def mp(E, *kv):
    return W.mkv(E, "Map", Lst(tuple(("e", Agg(0, (O.key_value(E, k), v))) for k, v in kv)))


def uns(E, st, x):
    return W.mkv(E, "Unsigned", st.force(x))


def boolv(E, st, x):
    return W.simple(E, "TrueValue" if st.eq(st.force(x), 1) else "FalseValue")


def opt(E, st, v, f):
    a = st.force(v)
    return None if a.v == 0 else f(a.f[0])


def m_map_opt(E, st, a, b, c):
    kv = [(3, opt(E, st, a, lambda x: uns(E, st, x))), ("k", opt(E, st, b, lambda x: W.mkv(E, "TextString", st.force(x)))), (1, boolv(E, st, c))]
    return mp(E, *[(k, v) for k, v in kv if v is not None])


def m_destructure(E, st, m):
    out = [NONE] * 4
    for e in W.elements(st, st.force(m), 200):
        p = st.force(e)
        for i, k in enumerate((1, 20, -3, "key")):
            if N.veq(E, st, p.f[0], O.key_value(E, k)):
                out[i] = some(p.f[1])
                break
    return Agg(0, out)


def from_integer(E, st, n):
    n = st.force(n)
    t = E.P.ty(E.P.ty(E.P.sig(E.P.root("vh::r_wire::from_integer"))["out"]).vs[1]["f"][0][1])
    for i, v in enumerate(W.SIMPLES):
        if st.eq(n, v):
            return some(Agg(N.variant(t, W.SIMPLES[v]), (), t))
    return NONE


def tagv(E, st, t, x):
    return W.mkv(E, "Tag", st.force(t), Ptr(st.alloc(x)))


def type_label(E, st, v):
    a = deref(E, st, v)
    return N.LABEL[W.vt(E).vs[a.v]["n"]]


M = "vh::r_macros::"
SPECS = {
    M + "from_u64": uns,
    M + "from_i64": lambda E, st, x: ints(E, st, st.force(x)),
    M + "from_i32": lambda E, st, x: ints(E, st, st.force(x)),
    M + "from_bytes": lambda E, st, x: W.mkv(E, "ByteString", st.force(x)),
    M + "from_slice_u8": lambda E, st, x: W.mkv(E, "ByteString", deref(E, st, x)),
    M + "from_string": lambda E, st, x: W.mkv(E, "TextString", st.force(x)),
    M + "from_str": lambda E, st, x: W.mkv(E, "TextString", deref(E, st, x)),
    M + "from_arr": lambda E, st, x: W.mkv(E, "Array", st.force(x)),
    M + "from_map": lambda E, st, x: W.mkv(E, "Map", st.force(x)),
    M + "from_bool": boolv,
    M + "opt_val": lambda E, st, x: some(uns(E, st, x)),
    M + "opt_opt": lambda E, st, x: (lambda r: NONE if r is None else some(r))(opt(E, st, x, lambda y: uns(E, st, y))),
    M + "m_map": lambda E, st, a, b, c: mp(E, (3, uns(E, st, a)), ("k", W.mkv(E, "TextString", st.force(b))), (1, boolv(E, st, c))),
    M + "m_map_opt": m_map_opt,
    M + "m_map_coll": lambda E, st, x: W.mkv(E, "Map", st.force(x)),
    M + "m_array": lambda E, st, a, b, c: W.mkv(E, "Array", Lst((("e", uns(E, st, a)), ("e", W.mkv(E, "TextString", st.force(b))), ("e", boolv(E, st, c))))),
    M + "m_array_vec": lambda E, st, x: W.mkv(E, "Array", st.force(x)),
    M + "m_true": lambda E, st: W.simple(E, "TrueValue"),
    M + "m_false": lambda E, st: W.simple(E, "FalseValue"),
    M + "m_null": lambda E, st: W.simple(E, "NullValue"),
    M + "m_undefined": lambda E, st: W.simple(E, "Undefined"),
    M + "m_bool": boolv,
    M + "m_unsigned": uns,
    M + "m_int": lambda E, st, x: ints(E, st, st.force(x)),
    M + "m_text": lambda E, st, x: W.mkv(E, "TextString", deref(E, st, x)),
    M + "m_bytes": lambda E, st, x: W.mkv(E, "ByteString", st.force(x)),
    M + "m_bytes_lit": lambda E, st, x: W.mkv(E, "ByteString", deref(E, st, x)),
    M + "m_tagged": tagv,
    M + "m_destructure": m_destructure,
    "vh::r_wire::from_integer": from_integer,
    "vh::r_wire::integer": lambda E, st, x: ints(E, st, st.force(x)),
    "vh::r_wire::bool_value": boolv,
    "vh::r_wire::type_label": type_label,
}


def fillers(lots):
    """Keys around and between the ones m_destructure asks for: 1, 20, -3 and "key"."""
    if not lots:
        return [0, 2, 21, -1, -4, "kez"]
    return [0] + list(range(2, 20)) + list(range(21, 40)) + [-1, -2] + list(range(-20, -3)) + list("abcdefghijklm") + ["kex", "kez", "keyy", "zzzz"]


def macro_job(P, root, n=None, keys=None, deadline=None):
    E, r, sig = engine(P, root, deadline)
    E.max_unroll = 40
    rep = J.Report(root.replace("vh::", "") + ("" if n is None else " with %d entries" % n) + ("" if keys is None else " of a map with keys %s and %d others" % (keys[0], len(keys[1]))))
    st = State(E)
    args = []
    if keys is not None:
        E.max_unroll = 400
        ks = sorted(list(keys[0]) + list(keys[1]), key=O.key_order)
        args.append(Lst(tuple(("e", Agg(0, (O.key_value(E, k), Sym(("in", "v%d" % i), W.vt(E))))) for i, k in enumerate(ks))))
        n = len(ks)
        sig = dict(sig, **{"in": []})
    for i, t in enumerate(sig["in"]):
        t = P.ty(t)
        x = Sym(("in", "a%d" % i), t)
        if t.k == "ref":
            u = P.ty(t.t)
            if u.k in ("str", "slice"):
                base = Base(("in", "s%d" % i), E.u8())
                E.bases[base.name] = base
                L = atom_of(("len", base.name), 0, 1 << 40)
                st.heap[("s", i)] = Lst((("s", base, 0, L),))
                x = Ptr(("s", i), (), (0, L))
            else:
                st.heap[("s", i)] = Sym(("in", "a%d" % i), u)
                x = Ptr(("s", i))
        elif n is not None:
            E.assume_len[x.name] = n
            if root.endswith("destructure"):
                ks = [st.force(e).f[0] for e in W.elements(st, st.force(x), 20)]
                for a, b in zip(ks, ks[1:]):
                    st.assume(("ord", a, b, "lt"))
        args.append(x)
    E.push(st, r, args, None, None)
    f = SPECS[root]
    E.castjob = True
    J.judge(E, rep, E.run(st), lambda s: ("val", f(E, s, *args)), rep.name, norm=NORM["maps"])
    JW.cast_rule(E, rep, rep.name)
    rep.stats(E)
    return rep
