"""Recursion contracts: the inductive hypothesis used when a reader or writer calls itself on a nested item.

The contract is chosen by type (what the function is given and returns), and its results are named after the
position in the input (reader) or the value (writer), so that a specification can name the same things."""
from vals import *
from state import *
from state import IMAX


def snapshot(E, st, v, depth=0):
    """Immutable picture of a value and of what it points to (no forcing)."""
    if isinstance(v, Ptr) and depth < 4:
        try:
            c = st.heap.get(v.a)
            for e in v.p:
                if isinstance(c, Sym):
                    c = st.binds.get(st.resolve(c))
                c = c.f[e[1]] if isinstance(c, Agg) and e[0] == "f" else (c if e[0] == "d" else None)
        except (AttributeError, IndexError):
            c = None
        return ("P", v, snapshot(E, st, c, depth + 1) if c is not None else None)
    if isinstance(v, Agg):
        return ("A", v, tuple(snapshot(E, st, x, depth + 1) for x in v.f))
    return ("V", v)


def is_slice(v):
    return isinstance(v, Ptr) and v.m is not None


def differ(st, d):
    import judge
    return judge.distinct_ints(st, d, 0) is not None


def diff(E, st, a, b, path, out, slices=False):
    """Differences between two snapshots: (path, kind, old, new)."""
    va, vb = a[1], b[1]
    vt = E.value_ty()
    if any(isinstance(x, (Sym, Agg)) and x.ty is not None and x.ty.id == vt.id for x in (va, vb)):
        return
    if isinstance(va, Sym):
        va = st.force(va)
    if isinstance(vb, Sym):
        vb = st.force(vb)
    if slices and is_slice(va) and is_slice(vb):
        for k, x, y in (("start", va.m[0], vb.m[0]), ("len", va.m[1], vb.m[1])):
            d = st.simp(sub(y, x))
            if d != 0 and (st.q_eq(d, 0) is False or differ(st, d)):
                out.append((path + (k,), "int", x, y))
    if is_slice(va) or is_slice(vb) or isinstance(va, Lst) or isinstance(vb, Lst):
        return
    if a[0] == "P" and b[0] == "P":
        if a[2] is not None and b[2] is not None:
            diff(E, st, a[2], b[2], path + ("*",), out, slices)
        return
    if isinstance(va, (int, Lin)) and isinstance(vb, (int, Lin)):
        d = st.simp(sub(vb, va))
        if d != 0:
            out.append((path, "int", va, d))
        return
    if isinstance(va, Agg) and isinstance(vb, Agg):
        if va.v != vb.v:
            out.append((path, "variant", va.v, vb.v))
            return
        fa = a[2] if a[0] == "A" else tuple(("V", x) for x in va.f)
        fb = b[2] if b[0] == "A" else tuple(("V", x) for x in vb.f)
        for i, (x, y) in enumerate(zip(fa, fb)):
            diff(E, st, x, y, path + (i,), out, slices)


def find(E, st, v, pred, path_ptr=None, depth=0):
    """First sub-value satisfying pred; returns (value, pointer to its place or None)."""
    v = st.force(v)
    if pred(v):
        return v, path_ptr
    if isinstance(v, Ptr) and depth < 5:
        p = v if v.m is None else None
        if p is not None:
            return find(E, st, E.read(st, p), pred, p, depth + 1)
        return None
    if isinstance(v, Agg) and not (v.ty is not None and v.ty.id == E.value_ty().id):
        for i, x in enumerate(v.f):
            r = find(E, st, x, pred, Ptr(path_ptr.a, path_ptr.p + (("f", i),)) if path_ptr is not None else None, depth + 1)
            if r is not None:
                return r
    return None


def result_ok_ty(E, I):
    t = E.P.ty(E.P.sig(I.id)["out"]) if True else None
    if t.k == "enum" and t.path.endswith("::Result"):
        return t, E.P.ty(t.vs[0]["f"][0][1]), E.P.ty(t.vs[1]["f"][0][1])
    return None


def build_ok(E, t, item, rest):
    vt = E.value_ty()
    if t.id == vt.id:
        return item
    if t.k == "ref" and E.P.ty(t.t).k == "slice" and rest is not None:
        return rest
    if t.k == "tuple":
        return Agg(0, tuple(build_ok(E, E.P.ty(x), item, rest) for x in t.ts))
    if t.k == "enum" and t.path.endswith("::Option"):
        return Agg(1, (build_ok(E, E.P.ty(t.vs[1]["f"][0][1]), item, rest),), t)
    raise Undecided("result type of the recursive call")


def record(E, st, I, args, kind, key):
    st.event("recurse", kind, key, I.id, entry_diff(E, st, I, args), E.callee_where(st))


def entry_diff(E, st, I, args):
    now = [snapshot(E, st, a) for a in args]
    for f in st.frames:
        if f.inst.id == I.id and f.entry is not None:
            out = []
            for i, (a, b) in enumerate(zip(f.entry, now)):
                diff(E, st, a, b, (i,), out)
            return tuple(out)
    return None


def contract(E, st, I, args, entry=False):
    r = result_ok_ty(E, I)
    if r is None:
        return None
    rt, okt, errt = r
    vt = E.value_ty()
    # a value to be consumed?
    is_value = lambda v: isinstance(v, (Sym, Agg)) and v.ty is not None and v.ty.id == vt.id
    val = None
    for a in args:
        a2 = st.resolve(a)
        if is_value(a2):
            val = a2
        elif isinstance(a2, Ptr):
            try:
                c = st.resolve(E.read(st, a2))
                if is_value(c):
                    val = c
            except Undecided:
                pass
        elif isinstance(a2, Agg) and val is None:
            val = wrapped(st, a2, is_value)
    is_bytes = lambda v: isinstance(v, Lst)
    if val is not None:
        out = None
        for a in args:
            f = find(E, st, a, is_bytes)
            if f is not None and f[1] is not None:
                out = f
                break
        if out is None:
            return recursive_value_fn(E, st, I, args, val, rt, okt, errt)
        tm = st.stable("enc", val)
        if st.pick(("encok", tm), (True, False)):
            record(E, st, I, args, "enc", tm)
            E.write(st, out[1], append_enc(E, st, out[0], tm))
            return Agg(0, (UNIT,), rt)
        record(E, st, I, args, "enc", tm)
        return Agg(1, (Sym(("eerr", tm), errt),), rt)
    # a byte slice to be parsed?
    cur = None
    for a in args:
        f = find(E, st, a, is_slice)
        if f is not None:
            cur = f
            break
    if cur is None:
        return None
    sl, place = cur
    if place is None and not has_slice(E, okt):
        return None
    start, ln = st.simp(sl.m[0]), st.simp(sl.m[1])
    pos = st.canon(("itemok", start))[1]
    if st.pick(("itemok", pos), (True, False)):
        n = atom_of(("ilen", pos), 1, IMAX)
        if not st.le(n, ln):
            raise Infeasible()
        record(E, st, I, args, "dec", pos)
        rest = Ptr(sl.a, sl.p, (st.simp(add(start, n)), st.simp(sub(ln, n))))
        if place is not None:
            E.write(st, place, rest)
        return Agg(0, (build_ok(E, okt, Sym(("item", pos), vt), rest),), rt)
    record(E, st, I, args, "dec", pos)
    if place is not None:
        E.write(st, place, Top("cursor after an error"))
    return Agg(1, (Sym(("derr", pos), errt),), rt)


def wrapped(st, a, is_value, depth=0):
    """A value inside plain wrapper structs."""
    for x in a.f:
        x = st.resolve(x)
        if is_value(x):
            return x
        if isinstance(x, Agg) and depth < 3:
            y = wrapped(st, x, is_value, depth + 1)
            if y is not None:
                return y
    return None


def has_slice(E, t):
    if t.k == "ref":
        return E.P.ty(t.t).k == "slice"
    if t.k == "tuple":
        return any(has_slice(E, E.P.ty(x)) for x in t.ts)
    return False


def append_enc(E, st, l, tm):
    n = atom_of(("enclen", tm), 1, 1 << 40)
    b = Base(("enc", tm), E.u8())
    E.bases[b.name] = b
    return Lst(l.segs + (("s", b, 0, n),))


def recursive_value_fn(E, st, I, args, val, rt, okt, errt):
    """Any other function that recurses on a sub-value (e.g. skipping an ignored value): uninterpreted."""
    tm = st.stable("enc", val)
    key = ("rec", I.id, tm)
    if st.pick(key, (True, False)):
        return Agg(0, (Sym(("recv",) + key, okt),), rt)
    return Agg(1, (Top("error of nested value"),), rt)
