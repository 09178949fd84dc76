"""Abstract state: heap, frames, path facts (intervals on linear forms, variant sets, order relation, choices)."""
from vals import *


class NeedFork(Exception):
    def __init__(self, alts, note=None):
        self.alts = alts


class Infeasible(Exception):
    pass


IMAX = (1 << 63) - 1


def ty_range(t):
    if t.k == "bool":
        return 0, 1
    if t.k == "char":
        return 0, 0x10FFFF
    if t.signed:
        return -(1 << (t.bits - 1)), (1 << (t.bits - 1)) - 1
    return 0, (1 << t.bits) - 1


def is_int(t):
    return t.k in ("int", "bool", "char")


LISTLIKE = {"alloc::vec::Vec", "alloc::string::String", "std::collections::hash::map::HashMap", "std::collections::hash::set::HashSet",
            "alloc::collections::btree::map::BTreeMap", "alloc::collections::btree::set::BTreeSet"}


def acc_origin(t):
    """(list, index) of the term of an entry of a list summarised by a loop invariant"""
    if isinstance(t, Lin):
        t = t.ts[0][0].key if t.c == 0 and len(t.ts) == 1 and t.ts[0][1] == 1 else None
        n = t[1] if t is not None and t[:1] == ("s",) else None
    else:
        n = t[1] if isinstance(t, tuple) and t[:1] == ("S",) else None
    return n[1:3] if isinstance(n, tuple) and n[:1] == ("el",) and n[1][:1] == ("acc",) else None


def reachable(edges, s, t):
    seen, st = {s}, [s]
    while st:
        for y in edges.get(st.pop(), ()):
            if y == t:
                return True
            if y not in seen:
                seen.add(y)
                st.append(y)
    return False


def runs(out):
    """Long sequences of entries taken unchanged from another list, as runs of that list."""
    def src(x):
        if x[0] != "e":
            return None
        t = x[1].ts[0][0].key if isinstance(x[1], Lin) and x[1].c == 0 and len(x[1].ts) == 1 and x[1].ts[0][1] == 1 else x[1]
        n = t[1] if isinstance(t, tuple) and t[:1] in (("s",), ("S",)) else None
        return n[1:3] if isinstance(n, tuple) and n[:1] == ("el",) and isinstance(n[2], int) else None
    r, i = [], 0
    while i < len(out):
        o, k = src(out[i]), 1
        if o is not None:
            while i + k < len(out) and src(out[i + k]) == (o[0], o[1] + k):
                k += 1
        r += [("s", o[0], o[1], o[1] + k)] if k > 32 else out[i:i + k]
        i += k
    return r


class State:
    __slots__ = ("E", "heap", "frames", "bnd", "ne", "binds", "excl", "rel", "picks", "ctr", "events", "log", "rev", "nsteps", "trace", "why", "loops", "expandroots", "eqb", "mark", "lastloc", "nofork", "eqs", "neqs", "rev0", "named", "ind", "taint", "pending")

    def __init__(self, E):
        self.E = E
        self.heap, self.frames = {}, []
        self.bnd, self.ne, self.binds, self.excl, self.rel, self.picks = {}, {}, {}, {}, [], {}
        self.rev = {}
        self.eqb = {}
        self.eqs, self.neqs = [], []
        self.rev0, self.named = {}, {}
        self.ctr = 0
        self.events = None
        self.log = []
        self.nsteps = 0
        self.trace = None
        self.loops = {}
        self.expandroots = frozenset()
        self.mark = (0, None)
        self.lastloc = None
        self.ind, self.taint, self.pending = None, frozenset(), False

    def clone(self):
        s = State.__new__(State)
        s.E = self.E
        s.heap = self.heap.copy()
        s.frames = [f.copy() for f in self.frames]
        s.bnd, s.ne, s.binds, s.excl = self.bnd.copy(), self.ne.copy(), self.binds.copy(), self.excl.copy()
        s.rel, s.picks, s.rev, s.eqb = list(self.rel), self.picks.copy(), self.rev.copy(), self.eqb.copy()
        s.ctr, s.events, s.log, s.nsteps, s.trace = self.ctr, self.events, [], self.nsteps, self.trace
        s.eqs, s.neqs = list(self.eqs), list(self.neqs)
        s.rev0, s.named = self.rev0.copy(), self.named.copy()
        s.loops = self.loops.copy()
        s.expandroots = self.expandroots
        s.why = None
        s.mark = self.mark
        s.lastloc = self.lastloc
        s.ind, s.taint, s.pending = self.ind, self.taint, self.pending
        return s

    # ---- heap
    def hset(self, k, v):
        self.log.append((k, self.heap.get(k, self)))
        self.heap[k] = v

    def rollback(self, mark, ctr, ev):
        log = self.log
        while len(log) > mark:
            k, v = log.pop()
            if v is self:
                self.heap.pop(k, None)
            else:
                self.heap[k] = v
        self.ctr, self.events = ctr, ev

    def fresh(self, kind):
        self.ctr += 1
        return (kind, self.ctr)

    def alloc(self, v, kind="h"):
        k = self.fresh(kind)
        self.hset(k, v)
        return k

    def event(self, *e):
        self.events = (self.events, e)

    def all_events(self):
        o, e = [], self.events
        while e:
            o.append(e[1])
            e = e[0]
        return o[::-1]

    # ---- integer facts
    def arng(self, a):
        lo, hi = a.lo, a.hi
        b = self.bnd.get(((a, 1),))
        if b:
            if b[0] is not None and b[0] > lo:
                lo = b[0]
            if b[1] is not None and b[1] < hi:
                hi = b[1]
        if a.key[0] == "sl" and a not in self.E.busy:
            self.E.busy.add(a)
            try:
                xl, xh = self.rng(a.key[1])
            finally:
                self.E.busy.discard(a)
            if xl >= 0:
                if (xh >> a.key[2]) < hi:
                    hi = max(lo, xh >> a.key[2])
                top = a.key[2] + a.key[3]
                if xh >> top == xl >> top:
                    m = (1 << a.key[3]) - 1
                    lo = max(lo, (xl >> a.key[2]) & m)
                    hi = min(hi, (xh >> a.key[2]) & m)
        return lo, hi

    def rng(self, v, deep=True):
        if isinstance(v, int):
            return v, v
        lo = hi = v.c
        for a, k in v.ts:
            l, h = self.arng(a)
            if k > 0:
                lo += k * l
                hi += k * h
            else:
                lo += k * h
                hi += k * l
        key, g, c = normkey(v)
        if len(key) > 1:
            b = self.bnd.get(key)
            if b:
                bl, bh = b
                if g > 0:
                    if bl is not None:
                        lo = max(lo, g * bl + c)
                    if bh is not None:
                        hi = min(hi, g * bh + c)
                else:
                    if bh is not None:
                        lo = max(lo, g * bh + c)
                    if bl is not None:
                        hi = min(hi, g * bl + c)
        if deep and lo < hi and len(key) >= 1:
            # one-step combination with stored multi-atom facts
            atoms = {a for a, _ in key}
            for k2, (bl, bh) in self.bnd.items():
                if len(k2) < 2 or k2 == key:
                    continue
                d2 = dict(k2)
                for a, kk in v.ts:
                    q = d2.get(a)
                    if not q or kk % q:
                        continue
                    m = kk // q
                    rest = add(v, Lin(0, k2), -m)
                    rl, rh = self.rng(rest, False)
                    if m > 0:
                        if bl is not None:
                            lo = max(lo, rl + m * bl)
                        if bh is not None:
                            hi = min(hi, rh + m * bh)
                    else:
                        if bh is not None:
                            lo = max(lo, rl + m * bh)
                        if bl is not None:
                            hi = min(hi, rh + m * bl)
                    break
        return lo, hi

    def simp(self, v):
        """Substitute atoms whose range is a single point; resolve slices that cover their argument."""
        if not isinstance(v, Lin):
            return v
        for a, k in v.ts:
            l, h = self.arng(a)
            if l == h:
                return self.simp(add(add(v, Lin(0, ((a, 1),)), -k), l * k))
            if a.key[0] == "sl":
                x, lo, n = a.key[1], a.key[2], a.key[3]
                x2 = self.simp(x)
                xl, xh = self.rng(x2)
                if lo == 0 and xl >= 0 and xh < (1 << n):
                    return self.simp(add(add(v, Lin(0, ((a, 1),)), -k), scale(x2, k)))
                top = xl >> (lo + n) if xl >= 0 else 0
                if top and xh >> (lo + n) == top:
                    y = add(x2, -(top << (lo + n)))
                    return self.simp(add(add(v, Lin(0, ((a, 1),)), -k), scale(y if lo == 0 else mk_slice(y, lo, n), k)))
                w = xh.bit_length() - lo
                if xl >= 0 and 0 < w < n:
                    return self.simp(add(add(v, Lin(0, ((a, 1),)), -k), scale(mk_slice(x2, lo, w), k)))
                if x2 != x:
                    return self.simp(add(add(v, Lin(0, ((a, 1),)), -k), scale(mk_slice(x2, lo, n), k)))
        return v

    def le0(self, v):
        """Is v <= 0? decides or forks."""
        v = self.simp(v)
        lo, hi = self.rng(v)
        if hi <= 0:
            return True
        if lo > 0:
            return False
        raise NeedFork([("le", v), ("gt", v)])

    def lt(self, a, b):
        return self.le0(add(sub(a, b), 1))

    def le(self, a, b):
        return self.le0(sub(a, b))

    def eq(self, a, b):
        v = self.simp(sub(a, b))
        if isinstance(v, int):
            return v == 0
        lo, hi = self.rng(v)
        if lo == hi == 0:
            return True
        if lo > 0 or hi < 0:
            return False
        key, g, c = normkey(v)
        if c % g:
            return False
        ex = self.ne.get(key)
        if ex and (-c // g) in ex:
            return False
        raise NeedFork([("eq", v), ("ne", v)])

    # non-forking queries (for oracles)
    def q_le(self, a, b):
        v = self.simp(sub(a, b))
        lo, hi = self.rng(v)
        return True if hi <= 0 else (False if lo > 0 else None)

    def q_lt(self, a, b):
        return self.q_le(add(a, 1), b)

    def q_eq(self, a, b):
        try:
            return self.eq(a, b)
        except NeedFork:
            return None

    def _bound(self, key, lo, hi):
        b = self.bnd.get(key, (None, None))
        nl = lo if b[0] is None or (lo is not None and lo > b[0]) else b[0]
        nh = hi if b[1] is None or (hi is not None and hi < b[1]) else b[1]
        ex = self.ne.get(key)
        if ex:
            while nl is not None and nl in ex:
                nl += 1
            while nh is not None and nh in ex:
                nh -= 1
        self.bnd[key] = (nl, nh)
        v = Lin(0, key)
        l, h = self.rng(v)
        return l <= h

    def assume(self, alt):
        k = alt[0]
        if k == "le":
            v = alt[1]
            if isinstance(v, int):
                return v <= 0
            key, g, c = normkey(v)
            if g > 0:
                ok = self._bound(key, None, (-c) // g)
            else:
                ok = self._bound(key, -((-c) // (-g)), None)
            return ok and self.propagate(key)
        if k == "gt":
            return self.assume(("le", sub(1, alt[1])))
        if k == "eq":
            v = alt[1]
            if isinstance(v, int):
                return v == 0
            key, g, c = normkey(v)
            if c % g:
                return False
            p = -c // g
            if p in self.ne.get(key, ()):
                return False
            return self._bound(key, p, p) and self.propagate(key)
        if k == "ne":
            v = alt[1]
            if isinstance(v, int):
                return v != 0
            key, g, c = normkey(v)
            if c % g:
                return True
            p = -c // g
            self.ne[key] = self.ne.get(key, frozenset()) | {p}
            l, h = self.rng(Lin(0, key))
            if l == h == p:
                return False
            if p == l:
                return self._bound(key, p + 1, None) and self.propagate(key)
            if p == h:
                return self._bound(key, None, p - 1) and self.propagate(key)
            return True
        if k == "all":
            return all(self.assume(x) for x in alt[1])
        if k == "oeq":
            return self.bind_eq(alt[1], alt[2])
        if k == "one":
            self.neqs.append((alt[1], alt[2]))
            return True
        if k == "pick":
            if alt[1] in self.picks:
                return self.picks[alt[1]] == alt[2]
            self.picks[alt[1]] = alt[2]
            return True
        if k == "var":
            s, vi = alt[1], alt[2]
            if s in self.binds:
                return self.binds[s].v == vi
            if vi in self.excl.get(s, ()):
                return False
            self.expand_variant(s, vi)
            return True
        if k == "nvar":
            s, ex = alt[1], alt[2]
            if s in self.binds:
                return self.binds[s].v not in ex
            self.excl[s] = frozenset(self.excl.get(s, ())) | frozenset(ex)
            return bool(self.cands(s))
        if k == "ord":
            _, a, b, o = alt
            n = self.numbers(a, b)
            if n:
                return self.assume({"lt": ("le", add(sub(n[0], n[1]), 1)), "gt": ("le", add(sub(n[1], n[0]), 1)), "eq": ("eq", sub(n[0], n[1]))}[o])
            if o == "eq":
                return self.bind_eq(a, b)
            if o == "lt":
                self.rel.append((a, b))
            else:
                self.rel.append((b, a))
            return True
        raise AssertionError(k)

    def propagate(self, key):
        if len(key) < 2:
            a = key[0][0]
            l, h = self.arng(a)
            if l > h:
                return False
            if a.key[0] == "sl":   # the leading bits of a number bound it
                x, lo, n = a.key[1:4]
                xl, xh = self.rng(x)
                if 0 <= xl and xh >> (lo + n) == 0 and not isinstance(x, int) and not self.low_bits(x, lo):
                    lo_x, hi_x = l << lo, (h + 1 << lo) - 1
                    if lo_x > xl and not self.assume(("le", sub(lo_x, x))):
                        return False
                    if hi_x < xh and not self.assume(("le", sub(x, hi_x))):
                        return False
            return True
        b = self.bnd[key]
        for a, k in key:
            rest = Lin(0, tuple(x for x in key if x[0] is not a))
            rl, rh = self.rng(rest, False)
            l, h = self.arng(a)
            if b[1] is not None:
                m = b[1] - rl  # k*a <= m
                if k > 0 and m // k < h:
                    self._bound(((a, 1),), None, m // k)
                if k < 0 and -(m // -k) > l:
                    self._bound(((a, 1),), -(m // -k), None)
            if b[0] is not None:
                m = b[0] - rh  # k*a >= m
                if k > 0 and -(-m // k) > l:
                    self._bound(((a, 1),), -(-m // k), None)
                if k < 0 and (-m) // (-k) < h:
                    self._bound(((a, 1),), None, (-m) // (-k))
            l, h = self.arng(a)
            if l > h:
                return False
        return True

    def low_bits(self, x, lo):
        """Is something known of bits of x below lo? (It would be lost when they come to be written in terms of x.)"""
        return any(a.key[0] == "sl" and a.key[2] < lo and a.key[1] == x for d in (self.bnd, self.ne) for k in d for a, _ in k)

    # ---- choices
    def teq(self, a, b):
        """Terms equal under the integer facts of the path."""
        if a == b:
            return True
        if isinstance(a, (int, Lin)) and isinstance(b, (int, Lin)):
            return self.q_eq(a, b) is True
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return all(self.teq(x, y) for x, y in zip(a, b))
        return False

    def canon(self, key):
        """The name under which a choice about `key` was already made (names may contain positions)."""
        if key in self.picks:
            return key
        for k in self.picks:
            if k[0] == key[0] and len(k) == len(key) and self.teq(k, key):
                return k
        return key

    def pick(self, key, opts):
        key = self.canon(key)
        if key in self.picks:
            return self.picks[key]
        if len(opts) == 1:
            self.picks[key] = opts[0]
            return opts[0]
        raise NeedFork([("pick", key, o) for o in opts])

    # ---- symbols
    def expand_variant(self, s, vi):
        t = s.ty
        vs = t.vs[vi]
        P = self.E.P
        a = Agg(vi, tuple(Sym(("f", s.name, vi, i) if t.k == "enum" else ("f", s.name, i), P.ty(ft)) for i, (_, ft) in enumerate(vs["f"])), t)
        self.binds[s] = a
        self.rev0[(vi, tuple(self.ident(x) for x in a.f))] = s.name
        self.rev[(vi, tuple(("S", x.name) if not is_int(x.ty) else self.force(x) for x in a.f))] = s.name
        if not a.f:
            self.rev[(vi, (), t.id)] = s.name
        if self.E.decoded and vs["n"] == "Negative" and t.id == self.E.value_ty().id:
            x = self.force(a.f[0])
            if not isinstance(x, int):
                self.assume(("le", add(x, 1)))
                self.assume(("le", sub(-(1 << 64), x)))
        return a

    def resolve(self, v):
        while isinstance(v, Sym):
            w = self.eqb.get(v)
            if w is None:
                return v
            v = w
        return v

    def force(self, v):
        """Expose the head structure of a symbol; forks on enum variants."""
        if isinstance(v, Dsc):
            a = self.force(v.sym)
            return a.ty.vs[a.v]["d"]
        if not isinstance(v, Sym):
            return v
        v = self.resolve(v)
        if not isinstance(v, Sym):
            return v
        b = self.binds.get(v)
        if b is not None:
            return b
        t = v.ty
        P = self.E.P
        k = t.k
        if is_int(t):
            lo, hi = ty_range(t)
            r = self.E.sym_range(v.name)
            if r:
                lo, hi = r
            return atom_of(("s", v.name), lo, hi)
        if k == "enum":
            cand = self.cands(v)
            if len(cand) == 1:
                return self.expand_variant(v, cand[0])
            if not cand:
                raise Infeasible()
            raise NeedFork([("var", v, i) for i in cand])
        if k == "struct":
            if t.path in LISTLIKE:
                if t.path.endswith("String"):
                    ety = self.E.u8()
                elif t.path.endswith("Map"):
                    ety = self.E.pair(t)
                else:
                    ety = P.ty(t.args[0])
                return self.bind_list(v, ety)
            if t.box:
                return self.bind_ref(v, P.ty(t.args[0]))
            if self.E.opaque_ty(t):
                return v
            return self.expand_variant(v, 0)
        if k == "tuple":
            a = Agg(0, tuple(Sym(("f", v.name, i), P.ty(x)) for i, x in enumerate(t.ts)))
            self.binds[v] = a
            self.rev0[(0, tuple(self.ident(x) for x in a.f))] = v.name
            self.rev[(0, tuple(("S", x.name) if not is_int(x.ty) else self.force(x) for x in a.f))] = v.name
            return a
        if k == "array":
            return self.bind_list(v, P.ty(t.t), t.n)
        if k in ("slice",):
            return self.bind_list(v, P.ty(t.t))
        if k == "str":
            return self.bind_list(v, self.E.u8())
        if k in ("ref", "ptr"):
            return self.bind_ref(v, P.ty(t.t))
        return v

    def cands(self, v):
        """Variants an unsplit enum symbol may have."""
        ex = self.excl.get(v, ())
        return [i for i in range(len(v.ty.vs)) if i not in ex and not self.uninhabited(v.ty, i)]

    def uninhabited(self, t, i):
        for _, ft in t.vs[i]["f"]:
            x = self.E.P.ty(ft)
            if x.k == "never" or (x.k == "enum" and not x.vs):
                return True
        return False

    def bind_list(self, v, ety, n=None):
        if n is None:
            n = self.E.list_len(self, v.name)
        base = Base(v.name, ety)
        l = Lst((("s", base, 0, n),)) if n != 0 else Lst(())
        self.binds[v] = l
        return l

    def bind_ref(self, v, t):
        k = ("d", v.name)
        if k not in self.heap:
            self.heap[k] = Sym(("d", v.name), t)
        if t.k in ("slice", "str"):
            l = self.force(self.heap[k])
            p = Ptr(k, (), (0, self.llen(l)))
        else:
            p = Ptr(k)
        self.binds[v] = p
        return p

    def elem(self, base, i):
        i = self.simp(i)
        if base.tmpl is not None:
            return base.tmpl(self, i)
        s = Sym(("el", base.name, i), base.ety)
        if is_int(base.ety):
            return self.force(s)
        return s

    # ---- lists
    def llen(self, l):
        n = 0
        for s in l.segs:
            n = add(n, 1) if s[0] == "e" else add(n, sub(s[3], s[2]))
        return self.simp(n)

    def norm_list(self, l):
        """Drop empty segments, expand short constant ones."""
        out = []
        for s in l.segs:
            if s[0] == "s":
                lo, hi = self.simp(s[2]), self.simp(s[3])
                d = sub(hi, lo)
                if not isinstance(d, int):
                    r = self.rng(d)
                    if r[0] == r[1]:
                        d = r[0]
                if isinstance(d, int):
                    if d <= 0:
                        continue
                    if d <= 32 and s[1].name[0] != "acc":
                        for j in range(d):
                            out.append(("e", self.elem(s[1], add(lo, j))))
                        continue
                s = ("s", s[1], lo, hi)
                if out and out[-1][0] == "s" and out[-1][1] == s[1] and self.q_eq(out[-1][3], lo):
                    out[-1] = ("s", s[1], out[-1][2], hi)
                    continue
            out.append(s)
        return Lst(out)

    def lsplit(self, l, n):
        """Split at n (0 <= n <= len assumed checked)."""
        n = self.simp(n)
        if n == 0:
            return Lst(()), l
        left, segs = [], list(l.segs)
        while segs:
            if isinstance(n, int) and n == 0:
                break
            s = segs[0]
            if s[0] == "e":
                if not isinstance(n, int) and self.eq(n, 0):
                    break
                left.append(segs.pop(0))
                n = self.simp(sub(n, 1))
                continue
            ln = self.simp(sub(s[3], s[2]))
            if self.q_le(ln, n) is True or (self.q_le(n, ln) is None and self.le(ln, n)):
                left.append(segs.pop(0))
                n = self.simp(sub(n, ln))
                continue
            mid = self.simp(add(s[2], n))
            left.append(("s", s[1], s[2], mid))
            segs[0] = ("s", s[1], mid, s[3])
            break
        return Lst(left), Lst(segs)

    def lsub(self, l, start, ln):
        if start == 0 and self.q_eq(ln, self.llen(l)):
            return l
        _, r = self.lsplit(l, start)
        m, _ = self.lsplit(r, ln)
        return m

    def lget(self, l, i):
        i = self.simp(i)
        _, r = self.lsplit(l, i)
        for s in r.segs:
            if s[0] == "e":
                return s[1]
            if self.le(s[3], s[2]):
                continue
            return self.elem(s[1], s[2])
        raise Undecided("index past list")

    def lset(self, l, i, v):
        a, r = self.lsplit(l, i)
        _, b = self.lsplit(r, 1)
        return Lst(a.segs + (("e", v),) + b.segs)

    def lpop_front(self, l):
        """(elem, rest) or None; forks on emptiness."""
        segs = l.segs
        while segs:
            s = segs[0]
            if s[0] == "e":
                return s[1], Lst(segs[1:])
            if self.le(s[3], s[2]):
                segs = segs[1:]
                continue
            return self.elem(s[1], s[2]), Lst((("s", s[1], self.simp(add(s[2], 1)), s[3]),) + segs[1:])
        return None

    def lpop_back(self, l):
        segs = l.segs
        while segs:
            s = segs[-1]
            if s[0] == "e":
                return s[1], Lst(segs[:-1])
            if self.le(s[3], s[2]):
                segs = segs[:-1]
                continue
            h = self.simp(sub(s[3], 1))
            return self.elem(s[1], h), Lst(segs[:-1] + (("s", s[1], s[2], h),))
        return None

    # ---- origins
    def ident(self, v):
        """Where a value came from: like term, but insensitive to how far it has been split since."""
        v = self.resolve(v)
        if isinstance(v, Sym):
            if is_int(v.ty):
                return self.force(v)
            return ("S", v.name)
        if isinstance(v, Agg):
            fs = tuple(self.ident(x) for x in v.f)
            n = self.rev0.get((v.v, fs)) if fs else None
            return ("S", n) if n is not None else ("A", v.v, fs)
        if isinstance(v, Ptr):
            if v.a[0] == "d" and not v.p:
                c = self.heap.get(v.a)
                if isinstance(c, Sym) and c.name == v.a:
                    return ("S", v.a[1])
            return ("R", self.ident(self.E.read(self, v)))
        if isinstance(v, Lst):
            if len(v.segs) == 1 and v.segs[0][0] == "s":
                b, lo, hi = v.segs[0][1:]
                if lo == 0 and hi == self.E.list_len(self, b.name):
                    return ("S", b.name)
            return ("L",) + tuple(("e", self.ident(s[1])) if s[0] == "e" else ("s", s[1].name, s[2], s[3]) for s in v.segs)
        return v

    def stable(self, kind, v):
        """Name of v for uninterpreted facts about it; the same however far v was split when it was first named."""
        i = self.ident(v)
        known = self.named.get(kind, ())
        for name, idn, val in known:
            if idn == i:
                return name
        t = self.term(v)
        for name, idn, val in known:
            if self.term(val) == t:
                return name
        name = i if isinstance(i, tuple) and i[0] == "S" else t
        self.named[kind] = known + ((name, i, v),)
        return name

    # ---- canonical terms
    def term(self, v, depth=0):
        if isinstance(v, (int,)):
            return v
        if isinstance(v, Lin):
            return self.simp(v)
        if isinstance(v, Sym):
            v = self.resolve(v)
            if not isinstance(v, Sym):
                return self.term(v, depth)
            if is_int(v.ty):
                return self.simp(self.force(v))
            b = self.binds.get(v)
            if b is None:
                t = v.ty
                if t.k == "tuple" and not t.ts or t.k == "struct" and t.vs and not t.vs[0]["f"]:
                    return ("A", 0, ())
                if t.k in ("array",) or (t.k == "struct" and t.path in LISTLIKE):
                    return self.term(self.force(v), depth)
                if t.k == "enum" and len(t.vs) == 1 or t.k in ("struct", "tuple") and not self.E.opaque_ty(t):
                    return ("S", v.name)
                return ("S", v.name)
            return self.term(b, depth)
        if isinstance(v, Agg):
            fs = tuple(self.term(x, depth + 1) for x in v.f)
            n = self.rev.get((v.v, fs)) if fs else None
            if n is not None:
                return ("S", n)
            return ("A", v.v, fs)
        if isinstance(v, Lst):
            return self.lterm(v, depth)
        if isinstance(v, Ptr):
            c = self.E.read(self, v)
            t = self.term(c, depth + 1)
            if isinstance(v.a, tuple) and v.a and v.a[0] == "d" and not v.p:
                if t == ("S", v.a):
                    return ("S", v.a[1])
            return ("R", t)
        if isinstance(v, Fn):
            return ("F", v.inst)
        if isinstance(v, Nat):
            return ("N", v.kind, tuple(self.term(x, depth + 1) if not isinstance(x, (str, tuple)) else x for x in v.d))
        if isinstance(v, Dsc):
            return self.term(self.force(v), depth)
        if isinstance(v, Top):
            return ("T", v.why)
        return ("?", v)

    def lterm(self, l, depth=0):
        l = self.norm_list(l)
        out = []
        for s in l.segs:
            if s[0] == "e":
                t = self.term(s[1], depth + 1)
                # fold an element of a base next to a segment of that base
                if out and out[-1][0] == "s" and out[-1][1][0] != "acc":
                    b, lo, hi = out[-1][1:]
                    try:
                        if self.term(self.elem_of(b, hi)) == t:
                            out[-1] = ("s", b, lo, self.simp(add(hi, 1)))
                            continue
                    except (NeedFork, KeyError):
                        pass
                o = acc_origin(t) if self.ind is not None else None
                if o is not None:
                    hi = self.simp(add(o[1], 1))
                    if out and out[-1][0] == "s" and out[-1][1] == o[0] and out[-1][3] == o[1]:
                        out[-1] = ("s", o[0], out[-1][2], hi)
                    else:
                        out.append(("s", o[0], o[1], hi))
                    continue
                out.append(("e", t))
            else:
                b, lo, hi = s[1], s[2], s[3]
                self.E.bases[b.name] = b
                while out and out[-1][0] == "e" and b.name[0] != "acc":
                    try:
                        prev = self.term(self.elem(b, sub(lo, 1)))
                    except NeedFork:
                        break
                    if prev == out[-1][1] and not (isinstance(lo, int) and lo <= 0):
                        out.pop()
                        lo = self.simp(sub(lo, 1))
                    else:
                        break
                if out and out[-1][0] == "s" and out[-1][1] == b.name and out[-1][3] == lo:
                    out[-1] = ("s", b.name, out[-1][2], hi)
                else:
                    out.append(("s", b.name, lo, hi))
        if len(out) > 32:
            out = runs(out)
        return ("L",) + tuple(out)

    def elem_of(self, bname, i):
        return self.elem(self.E.bases[bname], i)

    # ---- order relation on opaque terms
    def bind_eq(self, a, b):
        a, b = self.resolve(a), self.resolve(b)
        if a == b:
            return True
        eo = self.E.encof
        if isinstance(a, Sym) and isinstance(b, Sym) and a.name in eo and b.name in eo:
            # encodings of leaf values determine them
            if not self.bind_eq(eo[a.name], eo[b.name]):
                return False
        if isinstance(a, Sym) and a not in self.binds:
            self.eqb[a] = b
        elif isinstance(b, Sym) and b not in self.binds:
            self.eqb[b] = a
        else:
            self.eqs.append((a, b))
        # consistency of recorded relations
        rep = self.classes()
        for x, y in self.rel:
            if rep(self.term(x)) == rep(self.term(y)):
                return False
        for x, y in self.neqs:
            if rep(self.term(x)) == rep(self.term(y)):
                return False
        return True

    def classes(self):
        """Representative of a term under the equalities assumed on the path."""
        par = {}
        if self.eqs:
            for x, y in self.eqs:
                x, y = self.term(x), self.term(y)
                while x in par:
                    x = par[x]
                while y in par:
                    y = par[y]
                if x != y:
                    par[x] = y

        def rep(t):
            while t in par:
                t = par[t]
            return t
        return rep

    def consistent(self):
        """False when facts recorded about unsplit symbols contradict what they were split into later."""
        N = self.E.N
        cv = N.conc_value(self.E)
        conc = lambda x, y: N.conc_bytes(x, y) if x[0] == "L" or y[0] == "L" else cv(x, y)
        rep = self.classes()
        for x, y in self.neqs:
            if rep(self.term(x)) == rep(self.term(y)):
                return False
        if not self.rel:
            return True
        edges, raw = self.order_edges(rep, conc)
        for x, y in raw:
            if rep(x) == rep(y) or conc(x, y) in ("eq", "gt"):
                return False
        # the recorded relations must not form a circle
        seen = {}
        for n in list(edges):
            if n in seen:
                continue
            st = [(n, iter(edges.get(n, ())))]
            seen[n] = 1
            while st:
                x, it = st[-1]
                y = next(it, None)
                if y is None:
                    seen[x] = 2
                    st.pop()
                elif seen.get(y) == 1:
                    return False
                elif y not in seen:
                    seen[y] = 1
                    st.append((y, iter(edges.get(y, ()))))
        return True

    def order_edges(self, rep, conc, more=()):
        """Less-than edges between classes of terms: recorded ones and those between terms whose order is known."""
        nodes = set(more)
        raw = [(self.term(x), self.term(y)) for x, y in self.rel]
        for x, y in raw:
            nodes |= {x, y}
        for x, y in self.eqs:
            nodes |= {self.term(x), self.term(y)}
        edges = {}
        for x, y in raw:
            edges.setdefault(rep(x), set()).add(rep(y))
        nl = list(nodes)
        for x in nl:
            for y in nl:
                if x is not y and conc(x, y) == "lt":
                    edges.setdefault(rep(x), set()).add(rep(y))
        return edges, raw

    def numbers(self, a, b):
        """Both as numbers, if they are numbers."""
        a, b = self.resolve(a), self.resolve(b)
        x, y = (self.force(v) if isinstance(v, Sym) and v.ty is not None and is_int(v.ty) else v for v in (a, b))
        return (x, y) if isinstance(x, (int, Lin)) and isinstance(y, (int, Lin)) else None

    def oeq(self, a, b, conc, refute=None):
        """Equality through the order store: two-way split."""
        n = self.numbers(a, b)
        if n:
            return self.eq(*n)
        o = self.q_ord(a, b, conc)
        if o:
            return o == "eq"
        if self.q_neq(a, b):
            return False
        if refute is not None and refute(self, a, b):
            return False
        raise NeedFork([("oeq", a, b), ("one", a, b)])

    def q_neq(self, a, b):
        ta, tb = self.term(a), self.term(b)
        rep = self.classes()
        p = {rep(ta), rep(tb)}
        return any({rep(self.term(x)), rep(self.term(y))} == p for x, y in self.neqs)

    def q_ord(self, a, b, conc):
        ta, tb = self.term(a), self.term(b)
        if ta == tb:
            return "eq"
        c = conc(ta, tb)
        if c:
            return c
        rep = self.classes()
        a, b = rep(ta), rep(tb)
        if a == b:
            return "eq"
        edges = {}
        for x, y in self.rel:
            edges.setdefault(rep(self.term(x)), set()).add(rep(self.term(y)))
        if not reachable(edges, a, b) and not reachable(edges, b, a):
            edges, _ = self.order_edges(rep, conc, (ta, tb))
        if reachable(edges, a, b):
            return "lt"
        if reachable(edges, b, a):
            return "gt"
        return None

    def ord(self, a, b, conc):
        n = self.numbers(a, b)
        if n:
            return "lt" if self.lt(*n) else "eq" if self.eq(*n) else "gt"
        o = self.q_ord(a, b, conc)
        if o:
            return o
        if self.q_neq(a, b):
            raise NeedFork([("ord", a, b, "lt"), ("ord", a, b, "gt")])
        raise NeedFork([("ord", a, b, "lt"), ("ord", a, b, "eq"), ("ord", a, b, "gt")])
