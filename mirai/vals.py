"""Abstract values: symbolic-linear integers, opaque symbols, aggregates, lists, pointers."""
from math import gcd


class Atom:
    __slots__ = ("key", "lo", "hi", "id")
    table = {}

    @staticmethod
    def get(key, lo, hi):
        a = Atom.table.get((key, lo, hi))
        if a is None:
            a = Atom()
            a.key, a.lo, a.hi, a.id = key, lo, hi, len(Atom.table)
            Atom.table[(key, lo, hi)] = a
        return a

    def __repr__(self):
        k = self.key
        if k[0] == "sl":
            return "(%r)[%d+%d]" % (k[1], k[2], k[3])
        return show(k)


_depth = 0


def show(x):
    """Text for messages only; terms nested too deeply are abbreviated (their full text grows exponentially)."""
    global _depth
    if _depth > 5:
        return ".."
    _depth += 1
    try:
        return show1(x)
    finally:
        _depth -= 1


def show1(x):
    if isinstance(x, tuple):
        if not x:
            return "()"
        if x[0] in ("in", "root"):
            return str(x[1]) if len(x) > 1 else "in"
        return "%s(%s)" % (x[0] if isinstance(x[0], str) else show(x[0]), ",".join(show(y) for y in x[1:]))
    return str(x)


class Lin:
    """c + sum(coef*atom), over the mathematical integers."""
    __slots__ = ("c", "ts", "h")

    def __init__(self, c, ts):
        self.c, self.ts = c, ts
        self.h = hash((c, tuple((a.id, k) for a, k in ts)))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.h == o.h and self.c == o.c and self.ts == o.ts

    def __repr__(self):
        s = "+".join(("%d*%r" % (k, a) if k != 1 else repr(a)) for a, k in self.ts)
        return s + ("%+d" % self.c if self.c else "")


def mk(c, d):
    """Build an int/Lin from const and {atom: coef}; recombines adjacent bit slices."""
    d = {a: k for a, k in d.items() if k}
    if not d:
        return c
    sls = [a for a in d if a.key[0] == "sl"]
    if len(sls) > 1:
        changed = True
        while changed:
            changed = False
            sls = sorted((a for a in d if a.key[0] == "sl"), key=lambda a: a.key[2])
            for a in sls:
                for b in sls:
                    if a is b or a not in d or b not in d:
                        continue
                    if a.key[1] == b.key[1] and b.key[2] == a.key[2] + a.key[3] and d[b] == d[a] << a.key[3]:
                        k = d.pop(a)
                        d.pop(b)
                        m = mk_slice(a.key[1], a.key[2], a.key[3] + b.key[3])
                        c, d = add_into(c, d, m, k)
                        changed = True
                if changed:
                    break
        d = {a: k for a, k in d.items() if k}
        if not d:
            return c
    return Lin(c, tuple(sorted(d.items(), key=lambda x: x[0].id)))


def add_into(c, d, v, k):
    if isinstance(v, int):
        return c + v * k, d
    for a, q in v.ts:
        d[a] = d.get(a, 0) + q * k
    return c + v.c * k, d


def add(x, y, k=1):
    """x + k*y"""
    if isinstance(x, int) and isinstance(y, int):
        return x + k * y
    c, d = (x, {}) if isinstance(x, int) else (x.c, dict(x.ts))
    c, d = add_into(c, d, y, k)
    return mk(c, d)


def sub(x, y):
    return add(x, y, -1)


def scale(x, k):
    if isinstance(x, int):
        return x * k
    if k == 0:
        return 0
    return mk(x.c * k, {a: q * k for a, q in x.ts})


def irange(v):
    """Intrinsic range of a value (no path facts)."""
    if isinstance(v, int):
        return v, v
    lo = hi = v.c
    for a, k in v.ts:
        if k > 0:
            lo += k * a.lo
            hi += k * a.hi
        else:
            lo += k * a.hi
            hi += k * a.lo
    return lo, hi


def mk_slice(x, lo, n):
    """floor(x / 2^lo) mod 2^n for non-negative x."""
    if n <= 0:
        return 0
    if isinstance(x, int):
        return (x >> lo) & ((1 << n) - 1)
    l, h = irange(x)
    if l >= 0:
        if h < (1 << lo):
            return 0
        if lo == 0 and h < (1 << n):
            return x
    # single nested slice
    if x.c == 0 and len(x.ts) == 1:
        a, k = x.ts[0]
        if k == 1 and a.key[0] == "sl":
            avail = a.key[3] - lo
            if avail <= 0:
                return 0
            return mk_slice(a.key[1], a.key[2] + lo, min(n, avail))
    # split into parts: low part < 2^lo exactly, rest divisible by 2^lo (and symmetric for the modulus)
    if l >= 0:
        top = 1 << (lo + n)
        m = 1 << lo
        keep_c, keep = 0, {}
        low_c, low = 0, {}
        ok = True
        cc = x.c
        for a, k in x.ts:
            if k % top == 0:
                continue
            if k % m == 0:
                keep[a] = k // m
            elif k > 0:
                low[a] = k
            else:
                ok = False
        if ok and cc >= 0:
            cc %= top
            keep_c, low_c = cc // m, cc % m
            lowv = mk(low_c, low)
            keepv = mk(keep_c, keep)
            if irange(lowv)[1] < m and irange(keepv)[0] >= 0 and irange(keepv)[1] < (1 << n):
                return keepv
    a = Atom.get(("sl", x, lo, n), 0, (1 << n) - 1)
    return Lin(0, ((a, 1),))


def atom_of(key, lo, hi):
    a = Atom.get(key, lo, hi)
    return Lin(0, ((a, 1),))


def normkey(v):
    """v = g*key + c with key normalised; returns (key, g, c) (g may be negative)."""
    g = 0
    for _, k in v.ts:
        g = gcd(g, abs(k))
    if v.ts[0][1] < 0:
        g = -g
    return tuple((a, k // g) for a, k in v.ts), g, v.c


class Sym:
    __slots__ = ("name", "ty", "h")

    def __init__(self, name, ty):
        self.name, self.ty = name, ty
        self.h = hash(("S", name))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, Sym) and self.name == o.name

    def __repr__(self):
        return "$" + show(self.name)


class Agg:
    __slots__ = ("v", "f", "h", "ty")

    def __init__(self, v, f, ty=None):
        self.v, self.f, self.ty = v, tuple(f), ty
        self.h = None

    def __hash__(self):
        if self.h is None:
            self.h = hash(("A", self.v, self.f))
        return self.h

    def __eq__(self, o):
        return isinstance(o, Agg) and self.v == o.v and self.f == o.f

    def __repr__(self):
        n = ""
        if self.ty is not None:
            vs = self.ty.vs
            n = vs[self.v]["n"] if vs else ""
        return "%s(%s)" % (n if n else "#%d" % self.v, ",".join(map(repr, self.f)))


UNIT = Agg(0, ())


class Lst:
    """segs: ('e', value) | ('s', base, lo, hi) with base = (name, elem_ty)"""
    __slots__ = ("segs", "h")

    def __init__(self, segs):
        self.segs = tuple(segs)
        self.h = None

    def __hash__(self):
        if self.h is None:
            self.h = hash(("L", self.segs))
        return self.h

    def __eq__(self, o):
        return isinstance(o, Lst) and self.segs == o.segs

    def __repr__(self):
        o = []
        for s in self.segs:
            o.append(repr(s[1]) if s[0] == "e" else "%s[%r..%r]" % (show(s[1][0]), s[2], s[3]))
        return "[" + ", ".join(o) + "]"


class Base:
    __slots__ = ("name", "ety", "tmpl", "h")

    def __init__(self, name, ety, tmpl=None):
        self.name, self.ety, self.tmpl = name, ety, tmpl
        self.h = hash(name)

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, Base) and self.name == o.name

    def __getitem__(self, i):
        return (self.name, self.ety)[i]

    def __repr__(self):
        return show(self.name)


class Ptr:
    __slots__ = ("a", "p", "m", "h")

    def __init__(self, a, p=(), m=None):
        self.a, self.p, self.m = a, p, m
        self.h = None

    def __hash__(self):
        if self.h is None:
            self.h = hash(("P", self.a, self.p, self.m))
        return self.h

    def __eq__(self, o):
        return isinstance(o, Ptr) and (self.a, self.p, self.m) == (o.a, o.p, o.m)

    def __repr__(self):
        return "&%s%s%s" % (show(self.a), "".join(".%s" % (x[1],) for x in self.p), "" if self.m is None else "[%r;%r]" % self.m)


class Nat:
    """A native iterator-like object."""
    __slots__ = ("kind", "d", "h")

    def __init__(self, kind, *d):
        self.kind, self.d = kind, d
        self.h = None

    def __hash__(self):
        if self.h is None:
            self.h = hash(("N", self.kind, self.d))
        return self.h

    def __eq__(self, o):
        return isinstance(o, Nat) and self.kind == o.kind and self.d == o.d

    def __repr__(self):
        return "<%s %s>" % (self.kind, ",".join(map(repr, self.d)))


class Dsc:
    """Discriminant of an enum symbol that is not split into variants yet."""
    __slots__ = ("sym",)

    def __init__(self, sym):
        self.sym = sym

    def __hash__(self):
        return hash(("dsc", self.sym))

    def __eq__(self, o):
        return isinstance(o, Dsc) and self.sym == o.sym

    def __repr__(self):
        return "discriminant(%r)" % (self.sym,)


class Fn:
    __slots__ = ("inst",)

    def __init__(self, inst):
        self.inst = inst

    def __hash__(self):
        return hash(("F", self.inst))

    def __eq__(self, o):
        return isinstance(o, Fn) and self.inst == o.inst

    def __repr__(self):
        return "fn#%d" % self.inst


class Undecided(Exception):
    pass


class Top:
    __slots__ = ("why",)

    def __init__(self, why):
        self.why = why

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Undecided(self.why)

    def __hash__(self):
        return hash(("T", self.why))

    def __eq__(self, o):
        return isinstance(o, Top) and self.why == o.why

    def __repr__(self):
        return "TOP(%s)" % self.why
