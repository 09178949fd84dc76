"""Transfer functions for the standard library (and for the uninterpreted leaf type vh::opq::Opq)."""
import re
from vals import *
from state import *
from state import IMAX

NOTNATIVE, PUSHED = object(), object()
NAT = {}
VALUE = "oasis_cbor_value::values::Value"
OPQ = "vh::opq::Opq"
VECLIKE = ("alloc::vec::Vec", "alloc::string::String", "[T]", "str", "[T;N]")
NATITER = {"alloc::vec::into_iter::IntoIter", "core::array::iter::IntoIter", "core::slice::iter::Iter", "core::slice::iter::IterMut",
           "alloc::collections::btree::map::IntoIter", "alloc::collections::btree::set::IntoIter", "std::collections::hash::map::IntoIter",
           "std::collections::hash::set::IntoIter", "alloc::collections::btree::map::Iter", "alloc::collections::btree::set::Iter",
           "std::collections::hash::map::Iter", "std::collections::hash::set::Iter", "alloc::vec::drain::Drain", "core::str::iter::Bytes",
           "alloc::collections::btree::map::IntoKeys", "alloc::collections::btree::map::IntoValues", "core::str::iter::Chars",
           "core::slice::iter::Windows", "core::slice::iter::Chunks", "core::slice::iter::ChunksExact"}
RANGE = {"core::ops::range::Range", "core::ops::range::RangeInclusive", "core::ops::range::RangeFrom"}


def nat(*paths):
    def d(f):
        for p in paths:
            NAT[p] = f
        return f
    return d


def engine():
    import engine as e
    return e


def panic(why):
    raise engine().Panic(why)


def model(E, name, tys, args):
    r = E.P.root("vh::models::" + name, tys)
    if r is None:
        raise Undecided("model %s%s" % (name, tys))
    raise engine().CallInst(r, args)


def tyargs(I):
    return [x for x in (I.gargs or []) if isinstance(x, int)]


# ---- helpers
def strip(st, v):
    v = st.force(v)
    while isinstance(v, Agg) and len(v.f) == 1 and not (v.ty is not None and v.ty.k == "enum"):
        v = st.force(v.f[0])
    return v


def deref(E, st, v):
    """Value behind one reference."""
    v = st.force(v)
    if isinstance(v, Ptr):
        return E.read(st, v)
    if isinstance(v, Top):
        raise Undecided(v.why)
    raise Undecided("deref of %r" % (v,))


def lst(E, st, v):
    """The list a reference (or chain of references) designates; also accepts an owned list."""
    v = st.force(v)
    n = 0
    while not isinstance(v, Lst):
        n += 1
        if isinstance(v, Ptr):
            v = st.force(E.read(st, v))
        elif isinstance(v, Agg) and len(v.f) == 1:
            v = st.force(v.f[0])
        else:
            raise Undecided("expected a list, got %r" % (v,))
        if n > 6:
            raise Undecided("list chain")
    return v


def vecptr(E, st, v):
    """Pointer to the place holding the list (through &mut Vec or &mut [T])."""
    v = st.force(v)
    for _ in range(6):
        if not isinstance(v, Ptr):
            break
        c = st.force(E.read(st, v))
        if isinstance(c, Lst):
            return v
        if isinstance(c, Agg) and len(c.f) >= 1 and not isinstance(c, Ptr):
            v = Ptr(v.a, v.p + (("f", 0),))
            continue
        v = c
    raise Undecided("expected a list place, got %r" % (v,))


def setlist(E, st, p, l):
    if p.m is not None:
        raise Undecided("resize through slice")
    E.write(st, p, l)


def variant(t, name):
    for i, v in enumerate(t.vs):
        if v["n"] == name:
            return i
    raise Undecided("no variant %s" % name)


def none(t):
    return Agg(0, (), t)


def some(t, v):
    return Agg(1, (v,), t)


def ok(t, v):
    return Agg(0, (v,), t)


def err(t, v):
    return Agg(1, (v,), t)


def ordv(t, n):
    return Agg({"lt": 0, "eq": 1, "gt": 2}[n], (), t)


def flip(o):
    return {"lt": "gt", "gt": "lt"}.get(o, o)


def elem_ty(E, t):
    if t.k in ("slice", "array"):
        return E.P.ty(t.t)
    if t.k == "str":
        return E.u8()
    if t.k == "struct" and t.path == "alloc::string::String":
        return E.u8()
    if t.k == "struct" and t.args:
        return E.P.ty(t.args[0])
    return None


def is_bytes(E, I):
    t = E.P.ty(I.self)
    e = elem_ty(E, t)
    return e is not None and e.k == "int" and e.bits == 8 and not e.signed


# ---- comparison of values through the order store
def conc_term(t):
    """Python value for a fully concrete term, else None (wrapped in a 1-tuple)."""
    if isinstance(t, int):
        return (t,)
    if isinstance(t, tuple) and t:
        if t[0] == "L":
            o = []
            for s in t[1:]:
                if s[0] != "e":
                    return None
                c = conc_term(s[1])
                if c is None:
                    return None
                o.append(c[0])
            return (o,)
        if t[0] == "A":
            o = []
            for s in t[2]:
                c = conc_term(s)
                if c is None:
                    return None
                o.append(c[0])
            return ((t[1], o),)
        if t[0] == "R":
            return conc_term(t[1])
    return None


def canon_key(E, v):
    """Sort key of a concrete Value term (variant, payload): the canonical order of RFC 7049 section 3.9 / CTAP2."""
    names = [x["n"] for x in E.value_ty().vs]
    var, p = v
    n = names[var]
    if n == "Unsigned":
        return (0, p[0])
    if n == "Negative":
        return (1, -p[0])
    if n == "ByteString":
        return (2, len(p[0]), p[0])
    if n == "TextString":
        return (3, len(p[0]), p[0])
    if n == "Array":
        return (4, len(p[0]), [canon_key(E, x) for x in p[0]])
    if n == "Map":
        return (5, len(p[0]), [(canon_key(E, x[1][0]), canon_key(E, x[1][1])) for x in p[0]])
    if n == "Tag":
        return (6, p[0], canon_key(E, p[1]))
    return (7, p[0][0])


LABEL = {"Unsigned": 0, "Negative": 1, "ByteString": 2, "TextString": 3, "Array": 4, "Map": 5, "Tag": 6, "Simple": 7}


def conc_value(E):
    def f(ta, tb):
        if isinstance(ta, tuple) and isinstance(tb, tuple) and ta[:1] + tb[:1] == ("L", "L"):
            return conc_bytes(ta, tb)
        a, b = conc_term(ta), conc_term(tb)
        if a is None or b is None:
            return vlabel(E, ta, tb)
        if not all(isinstance(x, tuple) and x[:1] == ("A",) for x in (ta, tb)):
            return None
        try:
            ka, kb = canon_key(E, a[0]), canon_key(E, b[0])
        except (TypeError, IndexError, KeyError):
            return None
        return "lt" if ka < kb else "gt" if ka > kb else "eq"
    return f


def vlabel(E, ta, tb):
    if isinstance(ta, tuple) and isinstance(tb, tuple) and ta and tb and ta[0] == "A" and tb[0] == "A":
        names = [x["n"] for x in E.value_ty().vs]
        la, lb = LABEL.get(names[ta[1]]), LABEL.get(names[tb[1]])
        if la is not None and lb is not None and la != lb:
            return "lt" if la < lb else "gt"
    return None


def conc_bytes(ta, tb):
    a, b = conc_term(ta), conc_term(tb)
    if a is None or b is None:
        return None
    a, b = a[0], b[0]
    return "lt" if a < b else "gt" if a > b else "eq"


def conc_none(ta, tb):
    return None


def vcmp(E, st, a, b, q=False):
    """Canonical three-way comparison of two Values."""
    a, b = st.resolve(a), st.resolve(b)
    fa = st.binds.get(a, a) if isinstance(a, Sym) else a
    fb = st.binds.get(b, b) if isinstance(b, Sym) else b
    if isinstance(fa, Agg) and isinstance(fb, Agg) and fa.v == fb.v:
        n = E.value_ty().vs[fa.v]["n"]
        if n in ("Unsigned", "Negative"):
            x, y = st.force(fa.f[0]), st.force(fb.f[0])
            if isinstance(x, (int, Lin)) and isinstance(y, (int, Lin)):
                if n == "Negative":
                    x, y = y, x
                if q:
                    return "lt" if st.q_lt(x, y) else "gt" if st.q_lt(y, x) else "eq" if st.q_eq(x, y) else None
                return "lt" if st.lt(x, y) else "eq" if st.eq(x, y) else "gt"
        if n == "Simple":
            x, y = fa.f[0], fb.f[0]
            x = st.force(x) if not q else (st.binds.get(st.resolve(x), x) if isinstance(x, Sym) else x)
            y = st.force(y) if not q else (st.binds.get(st.resolve(y), y) if isinstance(y, Sym) else y)
            if isinstance(x, Agg) and isinstance(y, Agg):
                return "lt" if x.v < y.v else "eq" if x.v == y.v else "gt"
            if q:
                return None
    c = conc_value(E)
    if not q and never_simple(E, st, fa, fb) and not st.q_ord(a, b, c):
        raise NeedFork([("ord", a, b, "lt"), ("ord", a, b, "gt")])
    return st.q_ord(a, b, c) if q else st.ord(a, b, c)


def never_simple(E, st, a, b):
    """One is an opaque Value that is known not to be the simple value which the other one is."""
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Sym) and isinstance(y, Agg) and E.value_ty().vs[y.v]["n"] == "Simple":
            s = st.binds.get(st.resolve(y.f[0]), y.f[0]) if isinstance(y.f[0], Sym) else y.f[0]
            if isinstance(s, Agg) and s.v in st.excl.get(Sym(("f", x.name, y.v, 0), s.ty), ()):
                return True
    return False


def veq(E, st, a, b):
    """Equality of two Values (two-way split)."""
    a, b = st.resolve(a), st.resolve(b)
    fa = st.binds.get(a, a) if isinstance(a, Sym) else a
    fb = st.binds.get(b, b) if isinstance(b, Sym) else b
    if never_simple(E, st, fa, fb):
        return False
    if isinstance(fa, Agg) and isinstance(fb, Agg):
        if fa.v != fb.v:
            return False
        n = E.value_ty().vs[fa.v]["n"]
        if n in ("Unsigned", "Negative"):
            return st.eq(st.force(fa.f[0]), st.force(fb.f[0]))
        if n == "Simple":
            return st.force(fa.f[0]).v == st.force(fb.f[0]).v
    return st.oeq(a, b, conc_value(E))


# ---- integers
def _cmp(E, st, I, a, atys, dt):
    x, y = st.force(deref(E, st, a[0])), st.force(deref(E, st, a[1]))
    if isinstance(x, Agg) and isinstance(y, Agg) and not x.f and not y.f:
        return ordv(dt, "lt" if x.v < y.v else "eq" if x.v == y.v else "gt")
    if st.lt(x, y):
        return ordv(dt, "lt")
    return ordv(dt, "eq" if st.eq(x, y) else "gt")


INTS = {"u8": (8, 0), "u16": (16, 0), "u32": (32, 0), "u64": (64, 0), "u128": (128, 0), "usize": (64, 0),
        "i8": (8, 1), "i16": (16, 1), "i32": (32, 1), "i64": (64, 1), "i128": (128, 1), "isize": (64, 1)}


def int_method(E, st, I, a, atys, dt, name):
    bits, signed = INTS[I.head]
    n = I.name
    t = E.P.ty(I.self)
    if n in ("to_be_bytes", "to_le_bytes", "to_ne_bytes"):
        v = st.force(a[0])
        if signed:
            if st.lt(v, 0):
                v = add(v, 1 << bits)
        v = st.simp(v)
        bs = [("e", st.simp(mk_slice(v, 8 * i, 8))) for i in range(bits // 8)]
        return Lst(bs if n != "to_be_bytes" else bs[::-1])
    if n in ("from_be_bytes", "from_le_bytes", "from_ne_bytes"):
        l = lst(E, st, a[0])
        r = 0
        N = bits // 8
        for i in range(N):
            b = st.force(st.lget(l, i))
            r = add(r, scale(b, 1 << (8 * (N - 1 - i if n == "from_be_bytes" else i))))
        if signed:
            return E.wrap(st, r, t)
        return st.simp(r)
    if n in ("leading_zeros", "trailing_zeros") and n == "leading_zeros" and not signed:
        v = st.simp(st.force(a[0]))
        if isinstance(v, int):
            return bits - v.bit_length()
        lo, hi = st.rng(v)
        kmin, kmax = bits - hi.bit_length(), bits - lo.bit_length()
        if kmin == kmax:
            return kmin
        alts = []
        for k in range(kmin, kmax + 1):
            up = (1 << (bits - k)) - 1
            dn = (1 << (bits - k - 1)) if k < bits else 0
            alts.append(("all", (("le", sub(v, up)), ("le", sub(dn, v)))))
        raise NeedFork(alts)
    if n in ("checked_add", "checked_sub", "checked_mul", "checked_neg", "checked_div", "checked_rem"):
        if n == "checked_neg":
            r = scale(st.force(a[0]), -1)
        elif n in ("checked_div", "checked_rem"):
            if st.eq(st.force(a[1]), 0):
                return none(dt)
            return some(dt, E.binop(st, "Div" if n == "checked_div" else "Rem", a[0], a[1], t))
        else:
            r = E.arith(st, {"add": "Add", "sub": "Sub", "mul": "Mul"}[n[8:]], st.force(a[0]), st.force(a[1]))
        lo, hi = ty_range(t)
        if st.lt(r, lo) or st.lt(hi, r):
            return none(dt)
        return some(dt, st.simp(r))
    if n in ("wrapping_add", "wrapping_sub", "wrapping_mul", "wrapping_neg"):
        if n == "wrapping_neg":
            r = scale(st.force(a[0]), -1)
        else:
            r = E.arith(st, {"add": "Add", "sub": "Sub", "mul": "Mul"}[n[9:]], st.force(a[0]), st.force(a[1]))
        return E.wrap(st, r, t)
    if n in ("saturating_add", "saturating_sub", "saturating_mul"):
        r = E.arith(st, {"add": "Add", "sub": "Sub", "mul": "Mul"}[n[11:]], st.force(a[0]), st.force(a[1]))
        lo, hi = ty_range(t)
        if st.lt(r, lo):
            return lo
        if st.lt(hi, r):
            return hi
        return st.simp(r)
    if n in ("overflowing_add", "overflowing_sub", "overflowing_mul"):
        r = E.arith(st, {"add": "Add", "sub": "Sub", "mul": "Mul"}[n[12:]], st.force(a[0]), st.force(a[1]))
        lo, hi = ty_range(t)
        o = st.lt(r, lo) or st.lt(hi, r)
        return Agg(0, (E.wrap(st, r, t), int(o)))
    if n == "unsigned_abs":
        v = st.force(a[0])
        return scale(v, -1) if st.lt(v, 0) else v
    if n == "abs":
        v = st.force(a[0])
        if st.lt(v, 0):
            return E.wrap(st, scale(v, -1), t)
        return v
    if n == "is_negative":
        return int(st.lt(st.force(a[0]), 0))
    if n == "is_positive":
        return int(st.lt(0, st.force(a[0])))
    if n in ("swap_bytes", "to_be", "from_be"):
        return NOTNATIVE
    return NOTNATIVE


# ---- lists
@nat("alloc::vec::Vec::new", "alloc::vec::Vec::with_capacity", "alloc::string::String::new", "alloc::string::String::with_capacity",
     "alloc::collections::btree::map::BTreeMap::new", "alloc::collections::btree::set::BTreeSet::new", "std::collections::hash::map::HashMap::new",
     "std::collections::hash::set::HashSet::new", "std::collections::hash::map::HashMap::with_capacity", "std::collections::hash::set::HashSet::with_capacity",
     "alloc::vec::Vec::with_capacity_in", "alloc::vec::Vec::new_in")
def _new(E, st, I, a, atys, dt):
    if a and "with_capacity" in I.name:
        n = st.force(a[0])
        st.event("alloc", I.path, n, E.callee_where(st), st.simp(n) if isinstance(n, (int, Lin)) else None)
    return Lst(())


@nat("alloc::vec::Vec::reserve", "alloc::vec::Vec::reserve_exact", "alloc::string::String::reserve", "alloc::string::String::reserve_exact",
     "std::collections::hash::map::HashMap::reserve", "std::collections::hash::set::HashSet::reserve", "alloc::vec::Vec::shrink_to_fit",
     "alloc::string::String::shrink_to_fit", "alloc::vec::Vec::try_reserve", "alloc::vec::Vec::try_reserve_exact",
     "alloc::string::String::try_reserve", "alloc::string::String::try_reserve_exact",
     "std::collections::hash::map::HashMap::try_reserve", "std::collections::hash::set::HashSet::try_reserve")
def _reserve(E, st, I, a, atys, dt):
    if len(a) > 1:
        st.event("alloc", I.path, st.force(a[1]), E.callee_where(st), None)
    return ok(dt, UNIT) if "try_reserve" in I.name else UNIT


@nat("core::default::Default::default")
def _default(E, st, I, a, atys, dt):
    if I.head == OPQ:
        return opq_default(E, st, I, dt, False)
    if I.head in LISTLIKE:
        return Lst(())
    if I.head in INTS or I.head in ("bool", "char"):
        return 0
    if I.head == "()" and E.P.ty(I.self).k == "tuple" and not E.P.ty(I.self).ts:
        return UNIT
    return NOTNATIVE


@nat("alloc::vec::Vec::push", "alloc::string::String::push_byte")
def _push(E, st, I, a, atys, dt):
    p = vecptr(E, st, a[0])
    l = st.force(E.read(st, p))
    setlist(E, st, p, Lst(l.segs + (("e", a[1]),)))
    return UNIT


@nat("alloc::vec::Vec::pop")
def _pop(E, st, I, a, atys, dt):
    p = vecptr(E, st, a[0])
    r = st.lpop_back(st.force(E.read(st, p)))
    if r is None:
        setlist(E, st, p, Lst(()))
        return none(dt)
    setlist(E, st, p, r[1])
    return some(dt, r[0])


@nat("alloc::vec::Vec::len", "[T]::len", "str::len", "alloc::string::String::len", "alloc::collections::btree::map::BTreeMap::len",
     "alloc::collections::btree::set::BTreeSet::len", "std::collections::hash::map::HashMap::len", "std::collections::hash::set::HashSet::len")
def _len(E, st, I, a, atys, dt):
    v = st.force(a[0])
    if isinstance(v, Ptr) and v.m is not None:
        return st.simp(v.m[1])
    return st.llen(lst(E, st, v))


@nat("alloc::vec::Vec::capacity")
def _cap(E, st, I, a, atys, dt):
    n = st.llen(lst(E, st, a[0]))
    return n


@nat("alloc::vec::Vec::is_empty", "[T]::is_empty", "str::is_empty", "alloc::string::String::is_empty", "alloc::collections::btree::map::BTreeMap::is_empty",
     "alloc::collections::btree::set::BTreeSet::is_empty", "std::collections::hash::map::HashMap::is_empty", "std::collections::hash::set::HashSet::is_empty")
def _isempty(E, st, I, a, atys, dt):
    return int(st.eq(_len(E, st, I, a, atys, dt), 0))


@nat("alloc::vec::Vec::clear", "alloc::string::String::clear")
def _clear(E, st, I, a, atys, dt):
    setlist(E, st, vecptr(E, st, a[0]), Lst(()))
    return UNIT


@nat("alloc::vec::Vec::truncate")
def _truncate(E, st, I, a, atys, dt):
    p = vecptr(E, st, a[0])
    l = st.force(E.read(st, p))
    n = st.force(a[1])
    if st.lt(n, st.llen(l)):
        setlist(E, st, p, st.lsplit(l, n)[0])
    return UNIT


@nat("alloc::vec::Vec::insert")
def _insert(E, st, I, a, atys, dt):
    p = vecptr(E, st, a[0])
    l = st.force(E.read(st, p))
    n = st.force(a[1])
    if st.lt(st.llen(l), n):
        panic("Vec::insert index out of bounds")
    x, y = st.lsplit(l, n)
    setlist(E, st, p, Lst(x.segs + (("e", a[2]),) + y.segs))
    return UNIT


@nat("alloc::vec::Vec::remove", "alloc::vec::Vec::swap_remove")
def _remove(E, st, I, a, atys, dt):
    p = vecptr(E, st, a[0])
    l = st.force(E.read(st, p))
    n = st.force(a[1])
    if not st.lt(n, st.llen(l)):
        panic("Vec::%s index out of bounds" % I.name)
    x, y = st.lsplit(l, n)
    e = st.lget(y, 0)
    _, y = st.lsplit(y, 1)
    if I.name == "swap_remove":
        r = st.lpop_back(y)
        setlist(E, st, p, x if r is None else Lst(x.segs + (("e", r[0]),) + r[1].segs))
    else:
        setlist(E, st, p, Lst(x.segs + y.segs))
    return e


@nat("alloc::vec::Vec::append")
def _append(E, st, I, a, atys, dt):
    p, q = vecptr(E, st, a[0]), vecptr(E, st, a[1])
    x, y = st.force(E.read(st, p)), st.force(E.read(st, q))
    setlist(E, st, p, Lst(x.segs + y.segs))
    setlist(E, st, q, Lst(()))
    return UNIT


@nat("alloc::vec::Vec::split_off")
def _split_off(E, st, I, a, atys, dt):
    p = vecptr(E, st, a[0])
    l = st.force(E.read(st, p))
    n = st.force(a[1])
    if st.lt(st.llen(l), n):
        panic("split_off out of bounds")
    x, y = st.lsplit(l, n)
    setlist(E, st, p, x)
    return y


@nat("alloc::vec::Vec::drain")
def _drain(E, st, I, a, atys, dt):
    p = vecptr(E, st, a[0])
    l = st.force(E.read(st, p))
    lo, hi = rng_bounds(E, st, a[1], E.P.ty(atys[1]) if atys else None, st.llen(l))
    if st.lt(hi, lo) or st.lt(st.llen(l), hi):
        panic("drain range out of bounds")
    x, r = st.lsplit(l, lo)
    m, y = st.lsplit(r, sub(hi, lo))
    setlist(E, st, p, Lst(x.segs + y.segs))
    return Nat("into", m)


@nat("alloc::vec::Vec::extend_from_slice", "alloc::string::String::push_str", "alloc::vec::Vec::extend_one")
def _extsl(E, st, I, a, atys, dt):
    p = vecptr(E, st, a[0])
    l = st.force(E.read(st, p))
    x = lst(E, st, a[1])
    setlist(E, st, p, Lst(l.segs + x.segs))
    return UNIT


@nat("core::iter::traits::collect::Extend::extend")
def _extend(E, st, I, a, atys, dt):
    name = {"BTreeMap": "btree_extend", "BTreeSet": "bset_extend", "HashMap": "hash_extend", "HashSet": "hset_extend"}.get(I.head.split("::")[-1])
    if name and I.head in LISTLIKE:
        t = E.P.ty(I.self)
        model(E, name, list(t.args[:2] if I.head.endswith("Map") else t.args[:1]) + [tyargs(I)[-1]], a)
    if I.head not in ("alloc::vec::Vec", "alloc::string::String"):
        return NOTNATIVE
    p = vecptr(E, st, a[0])
    x = a[1]
    if isinstance(x, Sym):
        x = st.force(x)
    t = E.P.ty(atys[1]) if atys else None
    if isinstance(x, (Lst, Ptr)) or (isinstance(x, Nat) and x.kind in ("into", "iter")):
        if isinstance(x, Nat):
            y = nat_rest(E, st, x)
        else:
            y = lst(E, st, x)
        l = st.force(E.read(st, p))
        setlist(E, st, p, Lst(l.segs + y.segs))
        return UNIT
    g = tyargs(I)
    ty0 = elem_ty(E, E.P.ty(I.self))
    model(E, "extend_vec", [ty0.id, g[-1]], [a[0], a[1]])


@nat("alloc::vec::from_elem")
def _from_elem(E, st, I, a, atys, dt):
    n = st.simp(st.force(a[1]))
    st.event("alloc", I.path, n, E.callee_where(st), None)
    if not isinstance(n, int):
        lo, hi = st.rng(n)
        if hi - lo > 16:
            raise Undecided("from_elem of symbolic length")
        n = E.concretize(st, n)
    if n > 4096:
        raise Undecided("huge from_elem")
    return Lst((("e", a[0]),) * n)


@nat("alloc::vec::Vec::resize")
def _resize(E, st, I, a, atys, dt):
    p = vecptr(E, st, a[0])
    l = st.force(E.read(st, p))
    n = st.force(a[1])
    st.event("alloc", I.path, n, E.callee_where(st), None)
    ln = st.llen(l)
    d = st.simp(sub(n, ln))
    if not isinstance(d, int):
        raise Undecided("resize symbolic")
    if d <= 0:
        setlist(E, st, p, st.lsplit(l, n)[0])
    else:
        setlist(E, st, p, Lst(l.segs + (("e", a[2]),) * d))
    return UNIT


@nat("[T]::to_vec", "alloc::borrow::ToOwned::to_owned", "alloc::string::ToString::to_string", "[T]::into_vec", "alloc::slice::hack::into_vec",
     "alloc::string::String::into_bytes", "alloc::string::String::into_boxed_str", "alloc::vec::Vec::into_boxed_slice", "str::to_string", "str::into_string", "[T]::to_owned", "str::to_owned", "alloc::str::{impl#4}::to_owned",
     "alloc::vec::Vec::into_iter_list", "alloc::string::String::from_utf8_unchecked", "alloc::boxed::box_assume_init_into_vec_unsafe", "alloc::string::SpecToString::spec_to_string")
def _copy(E, st, I, a, atys, dt):
    if I.name in ("into_boxed_slice", "into_boxed_str"):
        k = st.alloc(lst(E, st, a[0]))
        return Ptr(k, (), (0, st.llen(st.heap[k])))
    if I.name in ("to_string", "spec_to_string", "to_owned") and I.head not in VECLIKE:
        if I.head == "char":
            return Top("char to_string")
        if I.name == "to_owned":
            return deref(E, st, a[0])
        return Top("to_string of " + str(I.head))
    return lst(E, st, a[0])


@nat("alloc::vec::Vec::as_slice", "alloc::vec::Vec::as_mut_slice", "core::ops::deref::Deref::deref", "core::ops::deref::DerefMut::deref_mut",
     "core::convert::AsRef::as_ref", "core::convert::AsMut::as_mut", "core::borrow::Borrow::borrow", "core::borrow::BorrowMut::borrow_mut", "alloc::string::String::as_str", "alloc::string::String::as_bytes", "str::as_bytes",
     "[T;N]::as_slice", "[T;N]::as_mut_slice", "alloc::string::String::as_mut_vec")
def _deref(E, st, I, a, atys, dt):
    v = st.force(a[0])
    if I.head in VECLIKE:
        if isinstance(v, Ptr) and v.m is not None:
            return v
        p = vecptr(E, st, v)
        if dt.k == "ref":
            t = E.P.ty(dt.t)
            if t.k not in ("slice", "str"):
                return p
        if p.m is not None:
            return p
        return Ptr(p.a, p.p, (0, st.llen(st.force(E.read(st, p)))))
    if I.head in ("alloc::boxed::Box",) and I.name in ("deref", "deref_mut", "as_ref", "as_mut", "borrow", "borrow_mut"):
        b = strip(st, E.read(st, v))
        return b
    if I.name in ("borrow", "borrow_mut"):
        return v
    return NOTNATIVE


@nat("alloc::boxed::Box::new", "alloc::boxed::Box::pin")
def _boxnew(E, st, I, a, atys, dt):
    return Ptr(st.alloc(a[0]))


@nat("alloc::boxed::Box::new_uninit")
def _boxuninit(E, st, I, a, atys, dt):
    return Ptr(st.alloc(None))


@nat("core::ops::drop::Drop::drop", "core::mem::drop", "core::mem::forget", "core::ptr::drop_in_place", "core::hint::black_box", "core::hint::assert_unchecked")
def _drop(E, st, I, a, atys, dt):
    if I.path.startswith("core::ops::drop") and I.krate not in ("core", "alloc", "std"):
        return NOTNATIVE
    if I.path.endswith("black_box"):
        return a[0]
    return UNIT


@nat("core::mem::replace")
def _replace(E, st, I, a, atys, dt):
    p = strip(st, a[0])
    old = E.read(st, p)
    E.write(st, p, a[1])
    return old


@nat("core::mem::swap", "core::ptr::swap")
def _swap(E, st, I, a, atys, dt):
    p, q = strip(st, a[0]), strip(st, a[1])
    x, y = E.read(st, p), E.read(st, q)
    E.write(st, p, y)
    E.write(st, q, x)
    return UNIT


@nat("core::mem::take")
def _take(E, st, I, a, atys, dt):
    t = E.P.ty(tyargs(I)[0])
    if t.k == "struct" and t.path in LISTLIKE:
        p = strip(st, a[0])
        old = E.read(st, p)
        E.write(st, p, Lst(()))
        return old
    return NOTNATIVE


@nat("core::ptr::read", "core::intrinsics::read_via_copy", "core::ptr::const_ptr::read")
def _pread(E, st, I, a, atys, dt):
    return deref(E, st, a[0])


@nat("core::ptr::write", "core::intrinsics::write_via_move")
def _pwrite(E, st, I, a, atys, dt):
    E.write(st, strip(st, a[0]), a[1])
    return UNIT


@nat("core::clone::Clone::clone", "core::clone::Clone::clone_from")
def _clone(E, st, I, a, atys, dt):
    if I.name == "clone_from":
        return NOTNATIVE
    v = deref(E, st, a[0])
    if I.ik == "shim:clone":
        return v
    if I.head == VALUE and "clone" in st.expandroots:
        if not any(f.inst.id == I.id for f in st.frames):
            return NOTNATIVE
        return copyval(E, st, v)
    if I.head in VECLIKE or I.head in LISTLIKE or I.head in INTS or I.head in ("bool", "char", VALUE, OPQ, "alloc::boxed::Box", "&", "()", "core::ops::range::Range"):
        return copyval(E, st, v)
    if I.head in NATITER:
        return v
    return NOTNATIVE


def copyval(E, st, v):
    if isinstance(v, Ptr) and v.m is None and not v.p and isinstance(v.a, tuple) and v.a[0] in ("h", "d"):
        return Ptr(st.alloc(copyval(E, st, E.read(st, v))))
    if isinstance(v, Agg):
        f = tuple(copyval(E, st, x) for x in v.f)
        return v if f == v.f else Agg(v.v, f, v.ty)
    if isinstance(v, Lst):
        s = tuple(("e", copyval(E, st, x[1])) if x[0] == "e" else x for x in v.segs)
        return v if s == v.segs else Lst(s)
    if isinstance(v, Sym):
        b = st.binds.get(st.resolve(v))
        if isinstance(b, Agg):
            return copyval(E, st, b)
    return v


# ---- slices
@nat("[T]::split_at", "[T]::split_at_mut", "[T]::split_at_unchecked", "[T]::split_at_mut_unchecked")
def _split_at(E, st, I, a, atys, dt):
    p = slptr(E, st, a[0])
    n = st.force(a[1])
    if st.lt(p.m[1], n):
        panic("split_at: mid > len")
    return Agg(0, (Ptr(p.a, p.p, (p.m[0], n)), Ptr(p.a, p.p, (st.simp(add(p.m[0], n)), st.simp(sub(p.m[1], n))))))


@nat("[T]::split_at_checked")
def _split_at_checked(E, st, I, a, atys, dt):
    p = slptr(E, st, a[0])
    n = st.force(a[1])
    if st.lt(p.m[1], n):
        return none(dt)
    return some(dt, Agg(0, (Ptr(p.a, p.p, (p.m[0], n)), Ptr(p.a, p.p, (st.simp(add(p.m[0], n)), st.simp(sub(p.m[1], n)))))))


def slptr(E, st, v):
    v = st.force(v)
    if isinstance(v, Agg):
        v = strip(st, v)
    if isinstance(v, Ptr):
        if v.m is not None:
            return v
        p = vecptr(E, st, v)
        if p.m is None:
            p = Ptr(p.a, p.p, (0, st.llen(st.force(E.read(st, p)))))
        return p
    raise Undecided("expected slice pointer %r" % (v,))


def elptr(st, p, i):
    return Ptr(p.a, p.p + (("x", st.simp(add(p.m[0], i))),))


@nat("[T]::first", "[T]::last", "[T]::first_mut", "[T]::last_mut")
def _first(E, st, I, a, atys, dt):
    p = slptr(E, st, a[0])
    if st.eq(p.m[1], 0):
        return none(dt)
    return some(dt, elptr(st, p, 0 if I.name.startswith("first") else sub(p.m[1], 1)))


@nat("[T]::split_first", "[T]::split_last", "[T]::split_first_mut", "[T]::split_last_mut")
def _split_first(E, st, I, a, atys, dt):
    p = slptr(E, st, a[0])
    if st.eq(p.m[1], 0):
        return none(dt)
    n1 = st.simp(sub(p.m[1], 1))
    if "first" in I.name:
        return some(dt, Agg(0, (elptr(st, p, 0), Ptr(p.a, p.p, (st.simp(add(p.m[0], 1)), n1)))))
    return some(dt, Agg(0, (elptr(st, p, n1), Ptr(p.a, p.p, (p.m[0], n1)))))


@nat("[T]::split_first_chunk", "[T]::first_chunk")
def _split_first_chunk(E, st, I, a, atys, dt):
    p = slptr(E, st, a[0])
    n = None
    for g in I.gargs or []:
        if isinstance(g, str):
            m = re.match(r"(\d+)", g)
            n = int(m.group(1)) if m else None
    if n is None:
        raise Undecided("chunk size")
    if st.lt(p.m[1], n):
        return none(dt)
    ch = Ptr(st.alloc(st.lsub(lst(E, st, p), 0, n)))
    if I.name == "first_chunk":
        return some(dt, ch)
    return some(dt, Agg(0, (ch, Ptr(p.a, p.p, (st.simp(add(p.m[0], n)), st.simp(sub(p.m[1], n)))))))


def rng_bounds(E, st, r, t, ln):
    """(lo, hi) of a range value over a list of length ln."""
    r = st.force(r)
    h = t.path if t is not None and t.k == "struct" else None
    if h == "core::ops::range::Range":
        return st.force(r.f[0]), st.force(r.f[1])
    if h == "core::ops::range::RangeFrom":
        return st.force(r.f[0]), ln
    if h == "core::ops::range::RangeTo":
        return 0, st.force(r.f[0])
    if h == "core::ops::range::RangeFull":
        return 0, ln
    if h == "core::ops::range::RangeInclusive":
        return st.force(r.f[0]), add(st.force(r.f[1]), 1)
    if h == "core::ops::range::RangeToInclusive":
        return 0, add(st.force(r.f[0]), 1)
    raise Undecided("range type %s" % h)


@nat("core::ops::index::Index::index", "core::ops::index::IndexMut::index_mut", "[T]::get", "[T]::get_mut", "[T]::get_unchecked", "[T]::get_unchecked_mut", "str::get", "core::slice::index::SliceIndex::index",
     "core::slice::index::SliceIndex::index_mut", "core::slice::index::SliceIndex::get", "core::slice::index::SliceIndex::get_mut")
def _index(E, st, I, a, atys, dt):
    if I.path.startswith("core::slice::index"):
        it, base, idx = E.P.ty(I.self), a[1], a[0]
    else:
        if I.head not in VECLIKE:
            return NOTNATIVE
        it, base, idx = (E.P.ty(atys[1]) if atys else None), a[0], a[1]
    opt = I.name in ("get", "get_mut")
    p = slptr(E, st, base)
    if it is None:
        raise Undecided("index type")
    if it.k == "int":
        i = st.force(idx)
        if not st.lt(i, p.m[1]):
            if opt:
                return none(dt)
            panic("index out of bounds")
        r = elptr(st, p, i)
    else:
        lo, hi = rng_bounds(E, st, idx, it, p.m[1])
        if st.lt(hi, lo) or st.lt(p.m[1], hi):
            if opt:
                return none(dt)
            panic("slice index out of range")
        r = Ptr(p.a, p.p, (st.simp(add(p.m[0], lo)), st.simp(sub(hi, lo))))
    return some(dt, r) if opt else r


@nat("str::trim", "str::trim_start", "str::trim_end", "str::trim_matches", "str::trim_start_matches", "str::trim_end_matches", "str::trim_left", "str::trim_right", "[T]::trim_ascii", "str::trim_ascii",
     "[T]::trim_ascii_start", "[T]::trim_ascii_end", "str::trim_ascii_start", "str::trim_ascii_end", "str::strip_prefix", "str::strip_suffix")
def _trim(E, st, I, a, atys, dt):
    """A part of the text, cut by an uninterpreted amount at either end."""
    p = slptr(E, st, a[0])
    tm = st.stable("enc", lst(E, st, p))
    x = y = 0
    opt = I.name.startswith("strip_")
    if opt and not st.pick(("strip", I.name, tm), (True, False)):
        return none(dt)
    if not I.name.endswith(("_end", "_end_matches", "_right", "_suffix")):
        x = atom_of(("trim", tm), 0, IMAX)
    if not I.name.endswith(("_start", "_start_matches", "_left", "_prefix")):
        y = atom_of(("trimend", tm), 0, IMAX)
    n = sub(sub(p.m[1], x), y)
    if not st.assume(("le", scale(n, -1))):
        raise Infeasible()
    r = Ptr(p.a, p.p, (st.simp(add(p.m[0], x)), st.simp(n)))
    return some(dt, r) if opt else r


@nat("str::to_lowercase", "str::to_uppercase", "str::to_ascii_lowercase", "str::to_ascii_uppercase", "str::replace", "str::replacen", "[T]::to_ascii_lowercase", "[T]::to_ascii_uppercase")
def _strmap(E, st, I, a, atys, dt):
    """Another text, an uninterpreted function of this one."""
    l = lst(E, st, a[0])
    tm = ("text", I.name, st.stable("enc", l))
    n = st.llen(l) if "ascii" in I.name else atom_of(("len", tm), 0, 1 << 40)
    b = Base(tm, E.u8())
    E.bases[b.name] = b
    return Lst((("s", b, 0, n),))


@nat("[T]::windows", "[T]::chunks", "[T]::chunks_exact")
def _windows(E, st, I, a, atys, dt):
    p = slptr(E, st, a[0])
    n = st.simp(st.force(a[1]))
    if not isinstance(n, int):
        raise Undecided(I.name)
    if n == 0:
        panic("window size must be non-zero")
    return Nat(I.name, Ptr(p.a, p.p), p.m[0], st.simp(add(p.m[0], p.m[1])), n)


@nat("[T]::copy_from_slice", "[T]::clone_from_slice")
def _cfs(E, st, I, a, atys, dt):
    p, s = slptr(E, st, a[0]), lst(E, st, a[1])
    if not st.eq(p.m[1], st.llen(s)):
        panic("copy_from_slice: length mismatch")
    E.write(st, p, s)
    return UNIT


@nat("[T]::fill")
def _fill(E, st, I, a, atys, dt):
    p = slptr(E, st, a[0])
    n = st.simp(p.m[1])
    if not isinstance(n, int):
        raise Undecided("fill")
    E.write(st, p, Lst((("e", a[1]),) * n))
    return UNIT


@nat("[T]::swap", "alloc::vec::Vec::swap")
def _sswap(E, st, I, a, atys, dt):
    p = slptr(E, st, a[0])
    i, j = st.force(a[1]), st.force(a[2])
    if not st.lt(i, p.m[1]) or not st.lt(j, p.m[1]):
        panic("swap index out of bounds")
    x, y = elptr(st, p, i), elptr(st, p, j)
    vx, vy = E.read(st, x), E.read(st, y)
    E.write(st, x, vy)
    E.write(st, y, vx)
    return UNIT


@nat("[T]::reverse")
def _rev(E, st, I, a, atys, dt):
    p = slptr(E, st, a[0])
    l = st.norm_list(lst(E, st, p))
    if any(s[0] != "e" for s in l.segs):
        raise Undecided("reverse")
    E.write(st, p, Lst(l.segs[::-1]))
    return UNIT


@nat("[T]::concat", "[T]::join")
def _concat(E, st, I, a, atys, dt):
    l = st.norm_list(lst(E, st, a[0]))
    if len(a) > 1 or any(s[0] != "e" for s in l.segs):
        raise Undecided("concat")
    o = ()
    for s in l.segs:
        o += lst(E, st, s[1]).segs
    return Lst(o)


@nat("[T]::iter", "[T]::iter_mut", "[T;N]::iter")
def _iter(E, st, I, a, atys, dt):
    p = slptr(E, st, a[0])
    return Nat("iter", Ptr(p.a, p.p), p.m[0], st.simp(add(p.m[0], p.m[1])))


@nat("str::bytes", "str::chars")
def _bytes(E, st, I, a, atys, dt):
    l = lst(E, st, a[0])
    return Nat("chars" if I.name == "chars" else "into", l)


@nat("alloc::collections::btree::map::BTreeMap::iter", "alloc::collections::btree::set::BTreeSet::iter", "std::collections::hash::map::HashMap::iter", "std::collections::hash::set::HashSet::iter")
def _miter(E, st, I, a, atys, dt):
    p = slptr(E, st, a[0])
    ismap = "Map" in I.head
    return Nat("mapiter" if ismap else "iter", Ptr(p.a, p.p), 0, p.m[1])


@nat("alloc::collections::btree::map::BTreeMap::into_keys", "alloc::collections::btree::map::BTreeMap::into_values", "std::collections::hash::map::HashMap::into_values", "std::collections::hash::map::HashMap::into_keys")
def _mkv(E, st, I, a, atys, dt):
    raise Undecided("into_keys")


@nat("core::iter::traits::collect::IntoIterator::into_iter")
def _into_iter(E, st, I, a, atys, dt):
    v = a[0]
    h = I.head
    if h in ("alloc::vec::Vec", "[T;N]") or h in LISTLIKE:
        return Nat("into", lst(E, st, v))
    if h == "&":
        t = E.P.ty(E.P.ty(I.self).t)
        if t.k in ("slice", "array") or (t.k == "struct" and t.path in LISTLIKE):
            p = slptr(E, st, v)
            ismap = t.k == "struct" and "Map" in t.path
            return Nat("mapiter" if ismap else "iter", Ptr(p.a, p.p), p.m[0], st.simp(add(p.m[0], p.m[1])))
        return NOTNATIVE
    if h in NATITER:
        return v
    return NOTNATIVE


def nat_rest(E, st, n):
    """The remaining items of a native iterator as a list (of values)."""
    if n.kind == "into":
        return n.d[0]
    if n.kind == "iter":
        l = lst(E, st, n.d[0])
        return st.lsub(l, n.d[1], sub(n.d[2], n.d[1]))
    raise Undecided("nat_rest")


def nat_next(E, st, n, back=False):
    if n.kind == "into":
        r = st.lpop_back(n.d[0]) if back else st.lpop_front(n.d[0])
        if r is None:
            return None, Nat("into", Lst(()))
        return r[0], Nat("into", r[1])
    if n.kind in ("iter", "mapiter"):
        p, lo, hi = n.d
        if not st.lt(lo, hi):
            return None, n
        i = st.simp(sub(hi, 1)) if back else lo
        e = Ptr(p.a, p.p + (("x", i),))
        if n.kind == "mapiter":
            e = Agg(0, (Ptr(e.a, e.p + (("f", 0),)), Ptr(e.a, e.p + (("f", 1),))))
        n2 = Nat(n.kind, p, lo, i) if back else Nat(n.kind, p, st.simp(add(lo, 1)), hi)
        return e, n2
    if n.kind in ("windows", "chunks", "chunks_exact") and not back:
        p, lo, hi, k = n.d
        if st.lt(hi, add(lo, k)):
            if n.kind != "chunks" or not st.lt(lo, hi):
                return None, Nat(n.kind, p, hi, hi, k)
            return Ptr(p.a, p.p, (lo, st.simp(sub(hi, lo)))), Nat(n.kind, p, hi, hi, k)
        return Ptr(p.a, p.p, (lo, k)), Nat(n.kind, p, st.simp(add(lo, 1 if n.kind == "windows" else k)), hi, k)
    if n.kind == "chars" and not back:
        return next_char(st, n.d[0])
    raise Undecided("next of %r" % (n,))


def next_char(st, l):
    """The first character of a text: the bytes of a text are valid UTF-8."""
    if st.eq(st.llen(l), 0):
        return None, Nat("chars", l)
    b = st.force(st.lget(l, 0))
    if st.lt(b, 0x80):
        return b, Nat("chars", st.lsub(l, 1, sub(st.llen(l), 1)))
    k, base, lo = (2, 0xC0, 0x80) if st.lt(b, 0xE0) else (3, 0xE0, 0x800) if st.lt(b, 0xF0) else (4, 0xF0, 0x10000)
    if st.lt(st.llen(l), k):
        raise Infeasible()
    c = sub(b, base)
    for i in range(1, k):
        x = st.force(st.lget(l, i))
        if not st.assume(("le", sub(0x80, x))) or not st.assume(("le", sub(x, 0xBF))):
            raise Infeasible()
        c = add(scale(c, 64), sub(x, 0x80))
    c = st.simp(c)
    if not st.assume(("le", sub(lo, c))) or not st.assume(("le", sub(c, 0x10FFFF))):
        raise Infeasible()
    if k == 3 and not st.lt(c, 0xD800) and st.lt(c, 0xE000):
        raise Infeasible()
    return c, Nat("chars", st.lsub(l, k, sub(st.llen(l), k)))


def nat_len(E, st, n):
    if n.kind == "into":
        return st.llen(n.d[0])
    if n.kind == "chars":
        # number of characters: between a quarter of the bytes and all of them
        ln = st.llen(n.d[0])
        c = atom_of(("nchars", st.stable("nchars", n.d[0])), 0, IMAX)
        if not st.assume(("le", sub(c, ln))) or not st.assume(("le", sub(ln, scale(c, 4)))):
            raise Infeasible()
        return st.simp(c)
    if n.kind == "windows":
        d = add(sub(sub(n.d[2], n.d[1]), n.d[3]), 1)
        return 0 if st.le(d, 0) else st.simp(d)
    if n.kind not in ("iter", "mapiter"):
        raise Undecided("length of %s" % n.kind)
    return st.simp(sub(n.d[2], n.d[1]))


def nat_iter(E, st, I, a, atys, dt):
    n = I.name
    if I.path.startswith("core::iter::traits::marker") or not I.path.startswith("core::iter::"):
        if n in ("as_slice", "as_mut_slice"):
            v = E.read(st, strip(st, a[0])) if isinstance(strip(st, a[0]), Ptr) else a[0]
            v = st.force(v)
            if isinstance(v, Nat) and v.kind == "iter":
                return Ptr(v.d[0].a, v.d[0].p, (v.d[1], st.simp(sub(v.d[2], v.d[1]))))
            if isinstance(v, Nat) and v.kind == "into":
                k = st.alloc(v.d[0])
                return Ptr(k, (), (0, st.llen(v.d[0])))
        if I.path.startswith(("core::iter", "alloc::", "core::slice", "core::array", "std::")) and n in ("is_empty",):
            v = st.force(deref(E, st, a[0]))
            return int(st.eq(nat_len(E, st, v), 0))
        return NOTNATIVE
    if n in ("next", "next_back"):
        p = strip(st, a[0])
        it = st.force(E.read(st, p))
        if not isinstance(it, Nat):
            return NOTNATIVE
        e, it2 = nat_next(E, st, it, n == "next_back")
        E.write(st, p, it2)
        return none(dt) if e is None else some(dt, e)
    if n == "size_hint":
        it = st.force(deref(E, st, a[0]))
        if not isinstance(it, Nat):
            return NOTNATIVE
        k = nat_len(E, st, it)
        ot = E.P.ty(dt.ts[1])
        return Agg(0, (k, some(ot, k)))
    if n in ("len",):
        it = st.force(deref(E, st, a[0]))
        return nat_len(E, st, it)
    if n in ("count",) and isinstance(st.force(a[0]), Nat):
        return nat_len(E, st, st.force(a[0]))
    if n in ("nth",) and isinstance(strip(st, a[0]), Ptr):
        p = strip(st, a[0])
        it = st.force(E.read(st, p))
        k = st.simp(st.force(a[1]))
        if isinstance(it, Nat) and isinstance(k, int) and k < 8:
            e = None
            for _ in range(k + 1):
                e, it = nat_next(E, st, it)
                if e is None:
                    break
            E.write(st, p, it)
            return none(dt) if e is None else some(dt, e)
    if I.k == "timpl":
        d = E.P.misc("default", I.id)
        if isinstance(d, int) and E.P.inst(d).body:
            raise engine().CallInst(d, a)
    return NOTNATIVE


def range_iter(E, st, I, a, atys, dt):
    n = I.name
    if not I.path.startswith("core::iter::"):
        return NOTNATIVE
    if n in ("next", "next_back"):
        p = strip1(st, a[0])
        r = st.force(E.read(st, p))
        if I.head == "core::ops::range::RangeInclusive":
            s, e, ex = st.force(r.f[0]), st.force(r.f[1]), st.force(r.f[2])
            if st.eq(ex, 1) or st.lt(e, s):
                return none(dt)
            if st.eq(s, e):
                E.write(st, p, Agg(0, (s, e, 1), r.ty))
                return some(dt, s)
            if n == "next":
                E.write(st, p, Agg(0, (st.simp(add(s, 1)), e, ex), r.ty))
                return some(dt, s)
            E.write(st, p, Agg(0, (s, st.simp(sub(e, 1)), ex), r.ty))
            return some(dt, e)
        if I.head == "core::ops::range::RangeFrom":
            s = st.force(r.f[0])
            E.write(st, p, Agg(0, (st.simp(add(s, 1)),), r.ty))
            return some(dt, s)
        s, e = st.force(r.f[0]), st.force(r.f[1])
        if not st.lt(s, e):
            return none(dt)
        if n == "next":
            E.write(st, p, Agg(0, (st.simp(add(s, 1)), e), r.ty))
            return some(dt, s)
        e1 = st.simp(sub(e, 1))
        E.write(st, p, Agg(0, (s, e1), r.ty))
        return some(dt, e1)
    if n == "size_hint":
        r = st.force(deref(E, st, a[0]))
        ot = E.P.ty(dt.ts[1])
        if I.head == "core::ops::range::Range":
            s, e = st.force(r.f[0]), st.force(r.f[1])
            k = st.simp(sub(e, s)) if st.le(s, e) else 0
            return Agg(0, (k, some(ot, k)))
        raise Undecided("range size_hint")
    if I.k == "timpl" and n not in ("rev", "map", "zip"):
        d = E.P.misc("default", I.id)
        if isinstance(d, int) and E.P.inst(d).body:
            raise engine().CallInst(d, a)
    return NOTNATIVE


def strip1(st, v):
    v = st.force(v)
    while isinstance(v, Agg):
        v = st.force(v.f[0])
    return v


@nat("core::ops::range::RangeInclusive::new")
def _rinew(E, st, I, a, atys, dt):
    return Agg(0, (a[0], a[1], 0), dt)


# ---- zip
def zip_iter(E, st, I, a, atys, dt):
    if I.name == "next":
        t = E.P.ty(I.self)
        g = t.args[:2]
        model(E, "zip_next", g, [a[0]])
    if I.name in ("size_hint",):
        raise Undecided("zip size_hint")
    if I.k == "timpl" and I.path.startswith("core::iter::"):
        d = E.P.misc("default", I.id)
        if isinstance(d, int) and E.P.inst(d).body:
            raise engine().CallInst(d, a)
    return NOTNATIVE


@nat("core::iter::traits::iterator::Iterator::zip")
def _zip(E, st, I, a, atys, dt):
    t = E.P.ty(atys[1])
    b = a[1]
    if isinstance(b, Sym):
        b = st.force(b)
    if isinstance(b, Lst):
        b = Nat("into", b)
    elif isinstance(b, Ptr):
        p = slptr(E, st, b)
        b = Nat("iter", Ptr(p.a, p.p), p.m[0], st.simp(add(p.m[0], p.m[1])))
    return Agg(0, (a[0], b), dt)


# ---- collecting
@nat("core::iter::traits::collect::FromIterator::from_iter")
def _from_iter(E, st, I, a, atys, dt):
    g = tyargs(I)
    src = a[0] if not isinstance(a[0], Sym) else st.force(a[0])
    h = I.head
    if h in ("alloc::vec::Vec", "alloc::string::String"):
        if isinstance(src, Nat) and src.kind == "into":
            return src.d[0]
        if isinstance(src, Lst):
            return src
        et = elem_ty(E, E.P.ty(I.self))
        if h == "alloc::string::String":
            raise Undecided("String from_iter")
        model(E, "collect_vec", [et.id, g[-1]], [src])
    t = E.P.ty(I.self)
    if h == "core::result::Result":
        c, e = t.args
        model(E, "collect_result", [g[0], e, c, g[-1]], [src])
    if h == "core::option::Option":
        model(E, "collect_option", [g[0], t.args[0], g[-1]], [src])
    if h in LISTLIKE:
        it = E.P.ty(g[-1])
        if isinstance(src, Lst) and not (it.k == "array" or it.k == "struct" and it.path in LISTLIKE):
            src = Nat("into", src)
        name = {"BTreeMap": "btree_collect", "BTreeSet": "bset_collect", "HashMap": "hash_collect", "HashSet": "hset_collect"}[h.split("::")[-1]]
        k = t.args[:2] if h.endswith("Map") else t.args[:1]
        model(E, name, list(k) + [g[-1]], [src])
    return NOTNATIVE


@nat("alloc::collections::btree::map::BTreeMap::insert", "alloc::collections::btree::set::BTreeSet::insert", "std::collections::hash::map::HashMap::insert", "std::collections::hash::set::HashSet::insert")
def _minsert(E, st, I, a, atys, dt):
    t = E.P.ty(I.self)
    name = {"BTreeMap": "btree_insert", "BTreeSet": "bset_insert", "HashMap": "hash_insert", "HashSet": "hset_insert"}[I.head.split("::")[-1]]
    model(E, name, list(t.args[:2] if I.head.endswith("Map") else t.args[:1]), a)


# ---- sorting and friends
def by_elem(E, I):
    return elem_ty(E, E.P.ty(I.self)).id


@nat("[T]::sort", "[T]::sort_unstable")
def _sort(E, st, I, a, atys, dt):
    model(E, "sort", [by_elem(E, I)], [slptr(E, st, a[0])])


@nat("[T]::sort_by", "[T]::sort_unstable_by")
def _sort_by(E, st, I, a, atys, dt):
    g = tyargs(I)
    model(E, "sort_by", [by_elem(E, I), g[-1]], [slptr(E, st, a[0]), a[1]])


@nat("[T]::sort_by_key", "[T]::sort_unstable_by_key", "[T]::sort_by_cached_key")
def _sort_by_key(E, st, I, a, atys, dt):
    g = tyargs(I)
    model(E, "sort_by_key", [by_elem(E, I)] + g[-2:], [slptr(E, st, a[0]), a[1]])


@nat("alloc::vec::Vec::dedup_by")
def _dedup_by(E, st, I, a, atys, dt):
    model(E, "dedup_by", [by_elem(E, I), tyargs(I)[-1]], a)


@nat("alloc::vec::Vec::dedup_by_key")
def _dedup_by_key(E, st, I, a, atys, dt):
    g = tyargs(I)
    ks = g[-2:]
    model(E, "dedup_by_key", [by_elem(E, I), ks[1], ks[0]] if E.P.ty(ks[0]).k == "closure" else [by_elem(E, I)] + ks, a)


@nat("alloc::vec::Vec::dedup")
def _dedup(E, st, I, a, atys, dt):
    model(E, "dedup", [by_elem(E, I)], a)


@nat("alloc::vec::Vec::retain")
def _retain(E, st, I, a, atys, dt):
    model(E, "retain", [by_elem(E, I), tyargs(I)[-1]], a)


@nat("[T]::binary_search_by")
def _bsearch(E, st, I, a, atys, dt):
    model(E, "binary_search_by", [by_elem(E, I), tyargs(I)[-1]], [slptr(E, st, a[0]), a[1]])


# ---- comparisons
@nat("core::cmp::PartialEq::eq", "core::cmp::PartialEq::ne")
def _eq(E, st, I, a, atys, dt):
    h = I.head
    neg = I.name == "ne"
    if h in INTS or h in ("bool", "char"):
        r = st.eq(st.force(deref(E, st, a[0])), st.force(deref(E, st, a[1])))
        return int(r != neg)
    if h == OPQ:
        r = st.oeq(deref(E, st, a[0]), deref(E, st, a[1]), conc_none)
        return int(r != neg)
    if h == VALUE and I.targs and all(x == I.targs[0] for x in I.targs):
        if I.k == "tdef":
            return NOTNATIVE
        x, y = deref(E, st, a[0]), deref(E, st, a[1])
        if "cmp" in st.expandroots:
            if not (any(f.inst.id == I.id for f in st.frames) or in_cmp(st)):
                return NOTNATIVE
            return int(st.oeq(x, y, conc_none) != neg)
        return int(veq(E, st, x, y) != neg)
    if h in VECLIKE or (h == "&" and False):
        x, y = lst(E, st, a[0]), lst(E, st, a[1])
        if is_bytes(E, I):
            return int(bytes_eq(E, st, x, y) != neg)
        et = elem_ty(E, E.P.ty(I.self))
        if neg:
            raise Undecided("slice ne")
        t2 = elem_ty(E, E.P.ty(I.targs[-1])) if I.targs and len(I.targs) > 1 else et
        p, q = Ptr(st.alloc(x), (), (0, st.llen(x))), Ptr(st.alloc(y), (), (0, st.llen(y)))
        model(E, "slice_eq", [et.id, (t2 or et).id], [p, q])
    return NOTNATIVE


def in_cmp(st):
    return any(f.inst.head == VALUE and f.inst.name in ("cmp", "partial_cmp", "eq") for f in st.frames)


def bytes_eq(E, st, x, y):
    tx, ty = st.lterm(x), st.lterm(y)
    if tx == ty:
        return True
    lx, ly = st.llen(x), st.llen(y)
    if st.q_eq(lx, ly) is False:
        return False
    c = conc_bytes(tx, ty)
    if c:
        return c == "eq"
    # concrete side: compare byte by byte when every byte fact is already known
    return st.oeq(x, y, conc_bytes, bytes_refute)


def bytes_refute(st, x, y):
    """True if path facts refute equality of two byte lists."""
    lx, ly = st.llen(x), st.llen(y)
    if st.q_eq(lx, ly) is False:
        return True
    n = lx if isinstance(lx, int) else ly if isinstance(ly, int) else None
    if n is None or n > 64:
        return False
    try:
        for i in range(n):
            if st.q_eq(st.force(st.lget(x, i)), st.force(st.lget(y, i))) is False:
                return True
    except NeedFork:
        pass
    return False


@nat("core::cmp::Ord::cmp")
def _ordcmp(E, st, I, a, atys, dt):
    h = I.head
    if h in INTS or h in ("bool", "char"):
        return _cmp(E, st, I, a, atys, dt)
    if h == OPQ:
        return ordv(dt, st.ord(deref(E, st, a[0]), deref(E, st, a[1]), conc_none))
    if h == VALUE:
        x, y = deref(E, st, a[0]), deref(E, st, a[1])
        if "cmp" in st.expandroots:
            if not any(f.inst.id == I.id for f in st.frames):
                return NOTNATIVE
            return ordv(dt, st.ord(x, y, conc_none))
        return ordv(dt, vcmp(E, st, x, y))
    if h in VECLIKE:
        x, y = lst(E, st, a[0]), lst(E, st, a[1])
        if is_bytes(E, I):
            return ordv(dt, st.ord(x, y, conc_bytes))
        et = elem_ty(E, E.P.ty(I.self))
        p, q = Ptr(st.alloc(x), (), (0, st.llen(x))), Ptr(st.alloc(y), (), (0, st.llen(y)))
        model(E, "slice_cmp", [et.id], [p, q])
    return NOTNATIVE


@nat("core::cmp::PartialOrd::partial_cmp")
def _partial_cmp(E, st, I, a, atys, dt):
    h = I.head
    if h in INTS or h in ("bool", "char"):
        ot = E.P.ty(dt.vs[1]["f"][0][1])
        return some(dt, _cmp(E, st, I, a, atys, ot))
    if h == OPQ:
        ot = E.P.ty(dt.vs[1]["f"][0][1])
        return some(dt, ordv(ot, st.ord(deref(E, st, a[0]), deref(E, st, a[1]), conc_none)))
    if h in VECLIKE:
        ot = E.P.ty(dt.vs[1]["f"][0][1])
        x, y = lst(E, st, a[0]), lst(E, st, a[1])
        if is_bytes(E, I):
            return some(dt, ordv(ot, st.ord(x, y, conc_bytes)))
        et = elem_ty(E, E.P.ty(I.self))
        p, q = Ptr(st.alloc(x), (), (0, st.llen(x))), Ptr(st.alloc(y), (), (0, st.llen(y)))
        model(E, "slice_partial_cmp", [et.id], [p, q])
    return NOTNATIVE


@nat("core::cmp::PartialOrd::lt", "core::cmp::PartialOrd::le", "core::cmp::PartialOrd::gt", "core::cmp::PartialOrd::ge")
def _plt(E, st, I, a, atys, dt):
    if I.head in INTS or I.head in ("bool", "char"):
        x, y = st.force(deref(E, st, a[0])), st.force(deref(E, st, a[1]))
        return int({"lt": lambda: st.lt(x, y), "le": lambda: st.le(x, y), "gt": lambda: st.lt(y, x), "ge": lambda: st.le(y, x)}[I.name]())
    return NOTNATIVE


# ---- conversions
@nat("core::convert::From::from")
def _from(E, st, I, a, atys, dt):
    h = I.head
    if h in ("alloc::vec::Vec", "alloc::string::String") and I.krate in ("alloc", "core", "std"):
        src = E.P.ty(atys[0]) if atys else None
        if src is not None and src.k in ("ref", "array") or (src is not None and src.k == "struct" and (src.path in LISTLIKE or src.box)):
            return lst(E, st, a[0])
        raise Undecided("%s from %s" % (h, src))
    if h == "alloc::boxed::Box" and I.krate == "alloc":
        src = E.P.ty(atys[0])
        if src.k in ("ref", "struct") and isinstance(a[0], (Ptr, Lst)):
            raise Undecided("Box from")
        return Ptr(st.alloc(a[0]))
    if I.krate in ("core",) and h in INTS and atys and is_int(E.P.ty(atys[0])):
        return st.force(a[0])
    return NOTNATIVE


@nat("core::convert::TryFrom::try_from")
def _try_from(E, st, I, a, atys, dt):
    t = E.P.ty(I.self)
    if t.k == "array":
        l = lst(E, st, a[0])
        if st.eq(st.llen(l), t.n):
            return ok(dt, st.norm_list(l) if t.n <= 32 else l)
        src = E.P.ty(atys[0])
        return err(dt, l if src.k == "struct" else UNIT)
    if t.k == "ref" and E.P.ty(t.t).k == "array":
        n = E.P.ty(t.t).n
        p = slptr(E, st, a[0])
        if st.eq(p.m[1], n):
            return ok(dt, Ptr(st.alloc(lst(E, st, p))))
        return err(dt, UNIT)
    if is_int(t) and atys and is_int(E.P.ty(atys[0])) and t.k == "int" and I.krate == "core":
        v = st.force(a[0])
        lo, hi = ty_range(t)
        if st.lt(v, lo) or st.lt(hi, v):
            return err(dt, UNIT)
        v = st.simp(v)
        if t.s in ("usize", "isize") and isinstance(v, Lin):
            st.event("ptr", v, (1 << 32) - 1 if t.s == "usize" else (1 << 31) - 1, E.callee_where(st))
        return ok(dt, v)
    if t.k == "char":
        return char_from(E, st, a[0], dt, True)
    return NOTNATIVE


def char_from(E, st, v, dt, res):
    v = st.force(v)
    bad = st.lt(0x10FFFF, v) or (not st.lt(v, 0xD800) and not st.lt(0xDFFF, v))
    if res:
        return err(dt, UNIT) if bad else ok(dt, v)
    return none(dt) if bad else some(dt, v)


@nat("char::from_u32", "core::char::convert::from_u32", "core::char::from_u32")
def _char_from_u32(E, st, I, a, atys, dt):
    return char_from(E, st, a[0], dt, False)


@nat("char::from_u32_unchecked")
def _char_unchecked(E, st, I, a, atys, dt):
    return a[0]


@nat("core::str::converts::from_utf8", "str::from_utf8", "alloc::string::String::from_utf8", "core::str::from_utf8")
def _from_utf8(E, st, I, a, atys, dt):
    l = lst(E, st, a[0])
    t = st.lterm(l)
    c = conc_term(t)
    if c is not None:
        try:
            bytes(c[0]).decode("utf-8")
            good = True
        except UnicodeDecodeError:
            good = False
    else:
        good = st.pick(("utf8", t), (True, False))
    if good:
        return ok(dt, a[0] if I.path != "alloc::string::String::from_utf8" else l)
    if I.path == "alloc::string::String::from_utf8":
        return err(dt, Agg(0, (l, Top("utf8 error"))))
    return err(dt, Top("utf8 error"))


@nat("alloc::string::FromUtf8Error::into_bytes", "alloc::string::FromUtf8Error::as_bytes")
def _utf8_into_bytes(E, st, I, a, atys, dt):
    v = st.force(a[0])
    if isinstance(v, Agg):
        return v.f[0]
    p = vecptr(E, st, a[0])
    return Ptr(p.a, p.p, (0, st.llen(lst(E, st, p))))


@nat("core::str::converts::from_utf8_unchecked", "core::str::from_utf8_unchecked", "str::from_utf8_unchecked")
def _from_utf8_unchecked(E, st, I, a, atys, dt):
    st.event("unchecked", I.path)
    return a[0]


@nat("alloc::string::String::from_utf8_lossy")
def _lossy(E, st, I, a, atys, dt):
    return Agg(variant(dt, "Borrowed"), (a[0],), dt)   # only ever formatted


# ---- panics
@nat("core::option::unwrap_failed", "core::option::expect_failed", "core::result::unwrap_failed", "core::panicking::panic", "core::panicking::panic_fmt",
     "core::panicking::panic_display", "core::panicking::unreachable_display", "core::panicking::panic_explicit", "core::panicking::panic_str_2015", "core::panicking::assert_failed", "std::rt::begin_panic", "std::rt::panic_fmt",
     "core::panicking::unreachable_default_msg",
     "core::panicking::panic_bounds_check", "alloc::alloc::handle_alloc_error", "alloc::raw_vec::capacity_overflow", "core::panicking::panic_nounwind", "std::process::abort", "core::intrinsics::abort",
     "core::slice::index::slice_index_fail", "core::panicking::assert_failed_inner", "std::process::exit")
def _panic(E, st, I, a, atys, dt):
    msg = I.path
    for x in a:
        try:
            if isinstance(x, Ptr):
                c = conc_term(st.lterm(st.force(E.read(st, x))))
                if c:
                    msg += ": " + bytes(c[0]).decode("utf-8", "replace")[:60]
        except Exception:
            pass
    panic(msg)


@nat("core::intrinsics::unreachable", "core::hint::unreachable_unchecked")
def _unr(E, st, I, a, atys, dt):
    raise Infeasible()


@nat("core::intrinsics::assume", "core::intrinsics::assert_inhabited", "core::intrinsics::cold_path", "core::intrinsics::assert_zero_valid", "core::intrinsics::assert_mem_uninitialized_valid", "core::ub_checks::check_language_ub")
def _assume(E, st, I, a, atys, dt):
    return UNIT if not I.path.endswith("check_language_ub") else 0


@nat("core::intrinsics::likely", "core::intrinsics::unlikely")
def _likely(E, st, I, a, atys, dt):
    return a[0]


@nat("core::intrinsics::discriminant_value")
def _discr(E, st, I, a, atys, dt):
    v = st.force(deref(E, st, a[0]))
    if isinstance(v, Agg):
        return v.ty.vs[v.v]["d"] if v.ty is not None and v.ty.k == "enum" else v.v
    return Top("discriminant")


@nat("core::mem::size_of", "core::mem::align_of", "core::intrinsics::size_of")
def _sizeof(E, st, I, a, atys, dt):
    t = E.P.ty(tyargs(I)[0])
    if t.size is None:
        raise Undecided("size_of")
    return t.size


@nat("core::intrinsics::ptr_metadata", "core::ptr::metadata::metadata")
def _pmeta(E, st, I, a, atys, dt):
    v = st.force(a[0])
    return v.m[1] if isinstance(v, Ptr) and v.m else UNIT


@nat("core::intrinsics::black_box")
def _bb(E, st, I, a, atys, dt):
    return a[0]


@nat("core::intrinsics::integer_min", "core::intrinsics::integer_max")
def _iminmax(E, st, I, a, atys, dt):
    x, y = st.force(a[0]), st.force(a[1])
    le = st.le(x, y)
    return x if le == I.path.endswith("min") else y


@nat("core::intrinsics::three_way_compare")
def _twc(E, st, I, a, atys, dt):
    x, y = st.force(a[0]), st.force(a[1])
    if st.lt(x, y):
        return ordv(dt, "lt")
    return ordv(dt, "eq" if st.eq(x, y) else "gt")


@nat("core::intrinsics::saturating_sub", "core::intrinsics::saturating_add", "core::intrinsics::wrapping_sub", "core::intrinsics::wrapping_add", "core::intrinsics::wrapping_mul")
def _isat(E, st, I, a, atys, dt):
    r = E.arith(st, {"sub": "Sub", "add": "Add", "mul": "Mul"}[I.name[-3:]], st.force(a[0]), st.force(a[1]))
    lo, hi = ty_range(dt)
    if I.name.startswith("wrapping"):
        return E.wrap(st, r, dt)
    if st.lt(r, lo):
        return lo
    if st.lt(hi, r):
        return hi
    return st.simp(r)


# ---- leaves
def opq_n(t):
    m = re.search(r"Opq<(\d+)", t.s)
    return int(m.group(1))


def opq_ty(E, I):
    t = E.P.ty(I.self)
    while t.k == "ref":
        t = E.P.ty(t.t)
    return t


def opq_name(st, v):
    v = st.resolve(v)
    if isinstance(v, Sym):
        return v
    raise Undecided("leaf value %r" % (v,))


def opq_default(E, st, I, dt, wrap):
    t = opq_ty(E, I)
    n = opq_n(t)
    if n % 2:
        if wrap:
            et = E.P.ty(dt.vs[1]["f"][0][1])
            return err(dt, Agg(variant(et, "MissingField"), (), et))
        raise Undecided("Default of a leaf without default")
    s = Sym(("dflt", n), t)
    return ok(dt, s) if wrap else s


def enc_sym(E, st, x):
    vt = E.value_ty()
    s = Sym(("enc", x.name), vt)
    E.encof[s.name] = x
    null_excl(E, st, s)
    return s


def null_excl(E, st, s):
    """A leaf encoding is neither null nor undefined."""
    vt = E.value_ty()
    vi = variant(vt, "Simple")
    sv = E.P.ty(vt.vs[vi]["f"][0][1])
    inner = Sym(("f", s.name, vi, 0), sv)
    st.excl.setdefault(inner, frozenset())
    st.excl[inner] = st.excl[inner] | {variant(sv, "NullValue"), variant(sv, "Undefined")}


def dec_leaf(E, st, t, v):
    """('ok', leaf) or ('err',)."""
    n = opq_n(t)
    i = st.ident(v)
    if i[0] == "S" and i[1] in E.encof:
        x = E.encof[i[1]]
        if x.ty.id == t.id:
            return "ok", x
    tm = st.stable("dec", v)
    okk = st.pick(("decok", n, tm), (True, False))
    if okk:
        s = Sym(("dec", n, tm), t)
        return "ok", s
    return "err", None


def is_default(E, st, x):
    t = x.ty
    n = opq_n(t)
    if n % 2:
        return False
    d = Sym(("dflt", n), t)
    return st.oeq(x, d, conc_none)


def opq(E, st, I, a, atys, dt):
    n = I.name
    p = I.path
    if p.startswith("oasis_cbor::encode::Encode::"):
        if n == "into_cbor_value":
            v = a[0]
            if isinstance(v, Ptr):
                v = deref(E, st, v)
            return enc_sym(E, st, opq_name(st, v))
        if n == "is_empty":
            return int(is_default(E, st, opq_name(st, deref(E, st, a[0]))))
        return NOTNATIVE
    if p.startswith("oasis_cbor::decode::Decode::"):
        if n == "try_default":
            return opq_default(E, st, I, dt, True)
        if n == "try_from_cbor_value":
            o, x = dec_leaf(E, st, opq_ty(E, I), a[0])
            if o == "ok":
                return ok(dt, x)
            et = E.P.ty(dt.vs[1]["f"][0][1])
            return err(dt, Agg(variant(et, "UnexpectedType"), (), et))
        return NOTNATIVE
    if n == "serialize":
        x = opq_name(st, deref(E, st, a[0]))
        if st.pick(("serok", st.term(x)), (True, False)):
            return ok(dt, enc_sym(E, st, x))
        return err(dt, Top("leaf serialization error"))
    if n == "deserialize":
        try:
            v = find_value(E, st, a[0])
        except NoInput:
            return err(dt, Top("missing field"))
        o, x = dec_leaf(E, st, opq_ty(E, I), v)
        return ok(dt, x) if o == "ok" else err(dt, Top("leaf deserialization error"))
    return NOTNATIVE


class NoInput(Exception):
    pass


def find_value(E, st, d):
    d = st.resolve(d)
    if isinstance(d, Agg) and d.ty is not None and "MissingField" in (d.ty.path or ""):
        raise NoInput()
    vt = E.value_ty()
    for _ in range(6):
        if isinstance(d, Sym) and d.ty.id == vt.id:
            return d
        if isinstance(d, Agg) and d.ty is not None and d.ty.id == vt.id:
            return d
        if isinstance(d, Ptr):
            d = E.read(st, d)
        elif isinstance(d, Agg):
            for x in d.f:
                y = st.resolve(x)
                if (isinstance(y, Sym) or isinstance(y, Agg)) and y.ty is not None and y.ty.id == vt.id:
                    return y
            if len(d.f) != 1:
                break
            d = d.f[0]
        else:
            break
    raise Undecided("no Value in deserializer %r" % (d,))


@nat("vh::opq::is_empty_fn")
def _isemptyfn(E, st, I, a, atys, dt):
    return int(is_default(E, st, opq_name(st, deref(E, st, a[0]))))


@nat("vh::opq::ser_with")
def _serwith(E, st, I, a, atys, dt):
    x = opq_name(st, deref(E, st, a[0]))
    s = Sym(("sw", x.name), dt)
    E.swof[s.name] = x
    return s


def de_with(E, st, y, xt):
    """(True, leaf) or (False, None): inverse of ser_with where it applies, uninterpreted elsewhere."""
    for n, x in E.swof.items():
        if n == y.name or st.resolve(Sym(n, y.ty)) == y:
            return True, x
    tm = st.term(y)
    if st.pick(("dwok", tm), (True, False)):
        return True, Sym(("dw", tm), xt)
    return False, None


@nat("vh::opq::de_with")
def _dewith(E, st, I, a, atys, dt):
    good, x = de_with(E, st, opq_name(st, a[0]), E.P.ty(dt.vs[0]["f"][0][1]))
    if good:
        return ok(dt, x)
    et = E.P.ty(dt.vs[1]["f"][0][1])
    return err(dt, Agg(variant(et, "UnexpectedType"), (), et))


def opaque_std(I):
    return False


def fmtlike(I):
    p = I.path
    return p.startswith(("core::fmt::", "alloc::fmt::", "core::error::", "std::error::")) or I.krate in ("thiserror",)


def dispatch(E, st, I, args, atys, dt):
    if I.ik in ("virtual",):
        return NOTNATIVE
    h = I.head
    if h == OPQ and I.krate == "vh":
        r = opq(E, st, I, args, atys, dt)
        if r is not NOTNATIVE:
            return r
    if fmtlike(I):
        if I.name == "write_fmt" and dt is not None and dt.k == "enum" and dt.path.endswith("::Result"):
            return ok(dt, UNIT)
        return Top("formatting")
    if h in NATITER and I.krate in ("core", "alloc", "std"):
        r = nat_iter(E, st, I, args, atys, dt)
        if r is not NOTNATIVE:
            return r
    elif h in RANGE:
        r = range_iter(E, st, I, args, atys, dt)
        if r is not NOTNATIVE:
            return r
    elif h == "core::iter::adapters::zip::Zip":
        r = zip_iter(E, st, I, args, atys, dt)
        if r is not NOTNATIVE:
            return r
    elif h in INTS and I.k == "inherent":
        r = int_method(E, st, I, args, atys, dt, I.name)
        if r is not NOTNATIVE:
            return r
    if I.path.endswith("::{constructor#0}") and dt is not None and dt.k in ("enum", "struct"):
        return Agg(variant(dt, I.path.split("::")[-2]) if dt.k == "enum" else 0, args, dt)
    f = NAT.get(I.path)
    if f is not None:
        return f(E, st, I, args, atys, dt)
    if I.ik == "shim:clone":
        return deref(E, st, args[0])
    return NOTNATIVE
