"""Obligations on the wire layer: reader, writer, value order."""
from vals import *
from state import *
from state import IMAX
import judge as J
from engine import Engine
import widen
import natives as N


def vt(E):
    return E.value_ty()


def mkv(E, name, *f):
    t = vt(E)
    return Agg(N.variant(t, name), f, t)


def simple(E, name):
    t = vt(E)
    st_ = E.P.ty(t.vs[N.variant(t, "Simple")]["f"][0][1])
    return mkv(E, "Simple", Agg(N.variant(st_, name), (), st_))


SIMPLES = {20: "FalseValue", 21: "TrueValue", 22: "NullValue", 23: "Undefined"}
VARS = ["Unsigned", "Negative", "ByteString", "TextString", "Array", "Map", "Tag", "Simple"]
OKV, ERR = "ok", "err"


# ------------------------------------------------------------------ reader
def nest_of(st, v):
    """Option<i8> -> None or the integer."""
    v = st.force(v)
    if v.v == 0:
        return None
    return st.force(v.f[0])


def spec_item(E, st, data, L, nest, strict):
    """RFC 8949 data item at position 0 of `data` (length L) -> ('ok', value, consumed), ('err', why) or ('loop', state before the first nested item)."""
    if nest is not None and st.lt(nest, 0):
        return ("err", "nesting limit exceeded")
    if st.lt(L, 1):
        return ("err", "no bytes left")
    b0 = st.force(st.lget(data, 0))
    mt = mk_slice(b0, 5, 3)
    ai = st.simp(mk_slice(b0, 0, 5))
    # argument
    if st.lt(ai, 24):
        n, h = ai, 1
    else:
        k = None
        for a, kk in ((24, 1), (25, 2), (26, 4), (27, 8)):
            if st.eq(ai, a):
                k = kk
                break
        if k is None:
            return ("err", "reserved additional information")
        if st.lt(L, 1 + k):
            return ("err", "truncated argument")
        n = 0
        for i in range(k):
            n = add(n, scale(st.force(st.lget(data, 1 + i)), 1 << (8 * (k - 1 - i))))
        n = st.simp(n)
        h = 1 + k
    m = None
    mt = st.simp(mt)
    for i in range(8):
        if isinstance(mt, int):
            m = mt
            break
        if st.eq(mt, i):
            m = i
            break
    # simple values and floats: their argument is not an integer head
    if m == 7:
        if isinstance(ai, int) and ai > 24 or not isinstance(ai, int) and st.lt(24, ai):
            return ("err", "float") if strict else ("ok", simple(E, "Undefined"), h)
        if strict and h == 2:
            return ("err", "two-byte simple value")
        for q, nm in SIMPLES.items():
            if st.eq(n, q):
                return ("ok", simple(E, nm), h)
        return ("err", "unassigned simple value") if strict else ("ok", simple(E, "Undefined"), h)
    if strict and h > 1:
        least = {2: 24, 3: 1 << 8, 5: 1 << 16, 9: 1 << 32}[h]
        if st.lt(n, least):
            return ("err", "argument not in shortest form")
    if m == 0:
        return ("ok", mkv(E, "Unsigned", n), h)
    if m == 1:
        return ("ok", mkv(E, "Negative", sub(-1, n)), h)
    if m in (2, 3):
        if st.lt(sub(L, h), n):
            return ("err", "truncated string")
        body = st.lsub(data, h, n)
        if m == 2:
            return ("ok", mkv(E, "ByteString", body), add(h, n))
        c = N.conc_term(st.lterm(body))
        if c is not None:
            try:
                bytes(c[0]).decode("utf-8")
                good = True
            except UnicodeDecodeError:
                good = False
        else:
            good = st.pick(("utf8", st.lterm(body)), (True, False))
        if not good:
            return ("err", "invalid UTF-8")
        return ("ok", mkv(E, "TextString", body), add(h, n))
    if m == 6:
        v, p = item_at(E, st, h, L)
        if v is None:
            return ("err", "nested item")
        return ("ok", ("tag", n, v), p)
    return ("loop", (m, n, h, None, None, 0, Lst(())))


def item_at(E, st, p, L):
    """The nested item at position p and the position after it."""
    pos = st.canon(("itemok", st.simp(p)))[1]
    if not st.pick(("itemok", pos), (True, False)):
        return None, None
    w = atom_of(("ilen", pos), 1, IMAX)
    if not st.le(w, sub(L, p)):
        raise Infeasible()
    return Sym(("item", pos), vt(E)), st.simp(add(p, w))


def spec_step(E, st, S, L, strict):
    """One nested item further: S = (major type, count, position, previous key, key without its value, entries, list)."""
    m, n, p, last, half, i, out = S
    if half is None and st.le(n, i):
        return ("ok", mkv(E, "Array" if m == 4 else "Map", out), p)
    v, p = item_at(E, st, p, L)
    if v is None:
        return ("err", "nested item")
    if m == 4:
        return ("loop", (m, n, p, None, None, st.simp(add(i, 1)), Lst(out.segs + (("e", v),))))
    if half is None:
        if strict and last is not None:
            if N.vcmp(E, st, last, v) != "lt":
                return ("err", "map keys not ascending")
        return ("loop", (m, n, p, last, v, i, out))
    return ("loop", (m, n, p, half, None, st.simp(add(i, 1)), Lst(out.segs + (("e", Agg(0, (half, v))),))))


class ReadSpec:
    """The reading specification, resumable at every nested item."""

    def __init__(self, E, strict, whole, maxn):
        self.E, self.strict, self.whole, self.maxn = E, strict, whole, maxn

    def start(self, st):
        data = st.force(st.heap[("dat",)])
        return spec_item(self.E, st, data, self.E.inputL, nest_of(st, self.E.inputNest), self.strict)

    def step(self, st, r):
        return spec_step(self.E, st, r[1], self.E.inputL, self.strict)

    def advance(self, st, r, k):
        while k > 0 and r[0] == "loop":
            r = self.step(st, r)
            k -= 1
        return r

    def ended(self, st, r):
        """r itself, or the result if nothing is left to read."""
        if r[0] == "loop" and r[1][4] is None and st.q_le(r[1][1], r[1][5]) is True:
            return self.step(st, r)
        return r

    def __call__(self, st):
        r = st.ind[1] if st.ind else self.start(st)
        k = 0
        while r[0] == "loop":
            if k > (self.maxn + 1) * (1 if r[1][0] == 4 else 2):
                raise Undecided("container longer than the analysed bound")
            r = self.step(st, r)
            k += 1
        if r[0] == "err":
            return ("err", r[1])
        if self.whole and not st.eq(self.E.inputL, r[2]):
            return ("err", "trailing data")
        v = r[1]
        if isinstance(v, tuple):
            v = mkv(self.E, "Tag", v[1], Ptr(st.alloc(v[2])))
        return ("ok", v)


def spec_read(E, strict, whole, maxn=4):
    return ReadSpec(E, strict, whole, maxn)


def run_reader(E, root, strict, nest_arg=True, pre=None, maxn=4, unroll=None):
    r = E.P.root(root)
    sig = E.P.sig(r)
    if unroll:
        E.max_unroll = unroll
    while True:
        st = State(E)
        base = Base(("in", "data"), E.u8())
        E.bases[base.name] = base
        L = atom_of(("len", ("in", "data")), 0, IMAX)
        st.heap[("dat",)] = Lst((("s", base, 0, L),))
        E.inputL = L
        args = [Ptr(("dat",), (), (0, L))]
        if nest_arg:
            E.inputNest = Sym(("in", "nest"), E.P.ty(sig["in"][1]))
            args.append(E.inputNest)
        if pre:
            if not pre(st):
                return None
        E.push(st, r, args, None, None)
        try:
            return E.run(st)
        except widen.Restart:
            continue


def byte_range(lo, hi):
    """Precondition: first input byte in [lo, hi]."""
    def f(st):
        E = st.E
        L = E.inputL
        if not st.assume(("le", sub(1, L))):
            return False
        b = st.force(st.lget(st.heap[("dat",)], 0))
        return st.assume(("le", sub(b, hi))) and st.assume(("le", sub(lo, b)))
    return f


def long_input(major, n):
    """Precondition: a container of exactly n entries all of which but the last are well-formed items of one byte, map
    keys ascending; the last entry (its key and how it compares to the one before) is arbitrary."""
    def f(st):
        E = st.E
        dat = st.heap[("dat",)]
        hd = [major << 5 | 24, n] if n < 256 else [major << 5 | 25, n >> 8, n & 255]
        k = (n - 1) * (2 if major == 5 else 1)
        if not st.assume(("le", sub(len(hd) + k, E.inputL))):
            return False
        for i, b in enumerate(hd):
            if not st.assume(("eq", sub(st.force(st.lget(dat, i)), b))):
                return False
        last = None
        for p in range(len(hd), len(hd) + k):
            st.pick(("itemok", st.canon(("itemok", p))[1]), (True,))
            if not st.assume(("eq", sub(atom_of(("ilen", p), 1, IMAX), 1))):
                return False
            if major == 5 and (p - len(hd)) % 2 == 0:
                key = Sym(("item", p), vt(E))
                if last is not None and not st.assume(("ord", last, key, "lt")):
                    return False
                last = key
        return True
    return f


# ------------------------------------------------------------------ writer
def head(mt, n, st):
    """Shortest-form head bytes of argument n (RFC 8949 section 4.2.1)."""
    top = mt << 5
    if st.lt(n, 24):
        return [st.simp(add(top, n))]
    for k, ai in ((1, 24), (2, 25), (4, 26), (8, 27)):
        if k == 8 or st.lt(n, 1 << (8 * k)):
            return [top + ai] + [st.simp(mk_slice(n, 8 * (k - 1 - i), 8)) for i in range(k)]


def encoded(E, st, v):
    """Segments of the encoding of a nested value, or None if it cannot be encoded."""
    tm = st.stable("enc", v)
    if not st.pick(("encok", tm), (True, False)):
        return None
    from contracts import append_enc
    return append_enc(E, st, Lst(()), tm).segs


def elements(st, l, maxn):
    out = []
    while True:
        r = st.lpop_front(l)
        if r is None:
            return out
        out.append(r[0])
        l = r[1]
        if len(out) > maxn:
            raise Undecided("container longer than the analysed bound")


def spec_encode(E, st, value, nest, maxn):
    """('ok', segments) or ('err', why): canonical encoding of value."""
    if nest is not None and st.lt(nest, 0):
        return ("err", "nesting limit exceeded")
    v = st.force(value)
    n = vt(E).vs[v.v]["n"]
    b = lambda bs: tuple(("e", x) for x in bs)
    if n == "Unsigned":
        return ("ok", b(head(0, st.force(v.f[0]), st)))
    if n == "Negative":
        return ("ok", b(head(1, st.simp(sub(-1, st.force(v.f[0]))), st)))
    if n in ("ByteString", "TextString"):
        l = st.force(v.f[0])
        return ("ok", b(head(2 if n == "ByteString" else 3, st.llen(l), st)) + l.segs)
    if n == "Simple":
        s = st.force(v.f[0])
        num = {"FalseValue": 20, "TrueValue": 21, "NullValue": 22, "Undefined": 23}[s.ty.vs[s.v]["n"]]
        return ("ok", b([0xe0 + num]))
    if n == "Tag":
        e = encoded(E, st, st.force(E.read(st, st.force(v.f[1]))) if False else E.read(st, st.force(v.f[1])))
        if e is None:
            return ("err", "nested value")
        return ("ok", b(head(6, st.force(v.f[0]), st)) + e)
    if n == "Array":
        l = st.force(v.f[0])
        return ("loop", (l, Lst(b(head(4, st.llen(l), st)))))
    xs = elements(st, st.force(v.f[0]), maxn)
    # map: entries ascending by the encoding of their key; equal keys are an error
    es, bad = [], False
    for x in xs:
        p = st.force(x)
        k, w = encoded(E, st, p.f[0]), encoded(E, st, p.f[1])
        if k is None or w is None:
            bad = True
        es.append((k, w))
    if bad:
        return ("err", "nested value")
    srt = []
    for k, w in es:
        i = len(srt)
        while i > 0:
            o = st.ord(Lst(srt[i - 1][0]), Lst(k), N.conc_bytes)
            if o == "eq":
                return ("err", "duplicate map key")
            if o == "lt":
                break
            i -= 1
        srt.insert(i, (k, w))
    out = b(head(5, len(xs), st))
    for k, w in srt:
        out += k + w
    return ("ok", out)


def value_arg(E, name, variant=None, nel=None, sz=None):
    """Symbolic Value (of one variant), containers of exactly nel elements if given."""
    t = vt(E)
    if variant is None:
        return Sym(("in", name), t)
    vi = N.variant(t, variant)
    s = Sym(("in", name), t)
    return s, vi


def setup_value(E, st, name, variant, nel=None):
    t = vt(E)
    s = Sym(("in", name), t)
    if variant is None:
        return s
    vi = N.variant(t, variant)
    a = st.expand_variant(s, vi)
    if variant == "Negative":
        x = st.force(a.f[0])
        st.assume(("le", x if isinstance(x, int) else add(x, 1)))
        st.assume(("le", sub(-(1 << 64), x)))
    if variant in ("Array", "Map") and nel is not None:
        E.assume_len[a.f[0].name] = nel
    return s


def all_encodable(E, st, v, ascending=True):
    """Restricts to containers whose parts can all be encoded, map keys already in order."""
    from contracts import append_enc
    last = None
    for x in elements(st, st.force(st.force(v).f[0]), 1 << 20):
        parts = st.force(x).f if x.ty is None or x.ty.id != vt(E).id else (x,)
        for p in parts:
            st.pick(("encok", st.stable("enc", p)), (True,))
        if len(parts) == 2 and ascending:
            k = append_enc(E, st, Lst(()), st.stable("enc", parts[0]))
            if last is not None:
                st.assume(("ord", last, k, "lt"))
            last = k


def run_writer(E, root, variant, nel=None, nest_arg=True, out_arg=True, big=False):
    r = E.P.root(root)
    sig = E.P.sig(r)
    while True:
        st = State(E)
        v = setup_value(E, st, "value", variant, nel)
        args = [v]
        E.inputValue = v
        if big:
            all_encodable(E, st, v)
        base = Base(("in", "out"), E.u8())
        E.bases[base.name] = base
        L0 = atom_of(("len", ("in", "out")), 0, 1 << 40)
        E.out0 = (("s", base, 0, L0),)
        if out_arg:
            st.heap[("out",)] = Lst(E.out0)
            args.append(Ptr(("out",)))
        if nest_arg:
            E.inputNest = Sym(("in", "nest"), E.P.ty(sig["in"][2]))
            args.append(E.inputNest)
        E.push(st, r, args, None, None)
        try:
            return E.run(st)
        except widen.Restart:
            continue


class WriteSpec:
    """The writing specification, resumable at every element of an array."""

    def __init__(self, E, nest, maxn):
        self.E, self.nest, self.maxn = E, nest, maxn

    def start(self, st):
        n = nest_of(st, self.E.inputNest) if self.nest == "arg" else self.nest
        return spec_encode(self.E, st, self.E.inputValue, n, self.maxn)

    def step(self, st, r):
        l, out = r[1]
        x = st.lpop_front(l)
        if x is None:
            return ("ok", out.segs)
        e = encoded(self.E, st, x[0])
        if e is None:
            return ("err", "nested value")
        return ("loop", (x[1], Lst(out.segs + e)))

    advance = ReadSpec.advance

    def ended(self, st, r):
        return r

    def __call__(self, st):
        r = st.ind[1] if st.ind else self.start(st)
        k = 0
        while r[0] == "loop":
            if k > self.maxn:
                raise Undecided("container longer than the analysed bound")
            r = self.step(st, r)
            k += 1
        if r[0] == "err":
            return r
        return ("ok", UNIT, Lst(self.E.out0 + r[1]))


def spec_write(E, nest="arg", maxn=4):
    return WriteSpec(E, nest, maxn)


def judge_writer(E, rep, outs, spec, what):
    """Compares the written bytes too."""
    for o in outs:
        if o.kind == "ret":
            v = o.st.force(o.val)
            if isinstance(v, Agg) and v.v == 0 and v.ty is not None and v.ty.k == "enum":
                # replace the unit result by the written bytes
                o.val = Agg(0, (o.st.heap[("out",)],), v.ty)

    def sp(st):
        r = spec(st)
        return ("ok", r[2]) if r[0] == "ok" else r
    J.judge(E, rep, outs, sp, what)


# ------------------------------------------------------------------ order
def spec_cmp(E, a, b):
    def spec(st):
        x, y = st.force(a), st.force(b)
        t = vt(E)
        la, lb = N.LABEL[t.vs[x.v]["n"]], N.LABEL[t.vs[y.v]["n"]]
        if la != lb:
            return "lt" if la < lb else "gt"
        return cmp_payload(E, st, t.vs[x.v]["n"], x, y)
    return spec


def icmp(st, x, y):
    return "lt" if st.lt(x, y) else "eq" if st.eq(x, y) else "gt"


def cmp_payload(E, st, n, x, y):
    o = lambda p, q: st.ord(p, q, N.conc_none)
    if n == "Unsigned":
        return icmp(st, st.force(x.f[0]), st.force(y.f[0]))
    if n == "Negative":
        return icmp(st, st.force(y.f[0]), st.force(x.f[0]))
    if n == "Simple":
        p, q = st.force(x.f[0]), st.force(y.f[0])
        num = lambda s: {"FalseValue": 20, "TrueValue": 21, "NullValue": 22, "Undefined": 23}[s.ty.vs[s.v]["n"]]
        return icmp(st, num(p), num(q))
    if n == "Tag":
        c = icmp(st, st.force(x.f[0]), st.force(y.f[0]))
        return c if c != "eq" else o(E.read(st, st.force(x.f[1])), E.read(st, st.force(y.f[1])))
    l, m = st.force(x.f[0]), st.force(y.f[0])
    c = icmp(st, st.llen(l), st.llen(m))
    if c != "eq":
        return c
    if n in ("ByteString", "TextString"):
        return st.ord(l, m, N.conc_bytes)
    l, m = elements(st, l, 1000), elements(st, m, 1000)
    for p, q in zip(l, m):
        ps, qs = ([p], [q]) if n == "Array" else (st.force(p).f, st.force(q).f)
        for r, s in zip(ps, qs):
            c = o(r, s)
            if c != "eq":
                return c
    return "eq"


def run_pair(E, root, va, vb, nel=None):
    r = E.P.root(root)
    st = State(E)
    st.expandroots = frozenset(("cmp", "clone"))
    na, nb = nel if nel else (None, None)
    a, b = setup_value(E, st, "a", va, na), setup_value(E, st, "b", vb, nb)
    st.heap[("pa",)], st.heap[("pb",)] = a, b
    E.push(st, r, [Ptr(("pa",)), Ptr(("pb",))], None, None)
    return E.run(st), a, b
