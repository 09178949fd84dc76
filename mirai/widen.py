"""Loop summaries: the machine and the specification are followed side by side round a loop that handles one nested
item after the other. After three rounds the joint state is generalised to an arbitrary round (lists become "everything
so far" plus the latest entries, positions become fresh numbers, counters become linear in the number of rounds). The
loop body is run once from that general state; every path that comes back to the loop head must be an instance of it
again, for the next round, with the specification advanced by the same number of items. Such a path is closed by
induction ("pruned"); a path that leaves the loop is compared with what the specification does from the same state."""
from vals import *
from state import *
from state import IMAX


class Pruned(Exception):
    """The path is covered by a loop invariant already being explored."""


class Restart(Exception):
    """A candidate invariant was not inductive: run again without it."""


class Mismatch(Exception):
    pass


BIG = 1 << 70


def nrec(st):
    n, e = 0, st.events
    while e:
        if e[1][0] == "recurse":
            n += 1
        e = e[0]
    return n


def fold(st, l):
    """The list with entries taken unchanged from another list written as runs of that list."""
    out = []
    for s in st.norm_list(l).segs:
        if s[0] == "e":
            o = origin(st, s[1])
            if o is not None:
                s = ("s", o[0], o[1], st.simp(add(o[1], 1)))
        if out and s[0] == "s" and out[-1][0] == "s" and out[-1][1] == s[1] and st.simp(out[-1][3]) == st.simp(s[2]):
            out[-1] = ("s", s[1], out[-1][2], s[3])
        else:
            out.append(s)
    return Lst(out)


def origin(st, v):
    if isinstance(v, int):
        return None
    if isinstance(v, Lin):
        k = v.ts[0][0].key if v.c == 0 and len(v.ts) == 1 and v.ts[0][1] == 1 else ()
        n = k[1] if k[:1] == ("s",) else None
    else:
        try:
            k = st.term(v)
        except (NeedFork, Undecided):
            return None
        n = k[1] if isinstance(k, tuple) and k[:1] == ("S",) else None
    if isinstance(n, tuple) and n[:1] == ("el",) and n[1] in st.E.bases:
        return st.E.bases[n[1]], n[2]
    return None


def type_of(E, v):
    if isinstance(v, (Sym, Agg)) and v.ty is not None:
        return v.ty
    if isinstance(v, Agg) and len(v.f) == 2:
        ts = [type_of(E, x) for x in v.f]
        if None not in ts:
            return E.P.ty(E.P.sig(E.P.root("vh::models::pair_of", [t.id for t in ts]))["out"])
    return None


def seg_type(E, s):
    return type_of(E, s[1]) if s[0] == "e" else s[1].ety


def raising(st, i):
    raise Undecided("earlier entry of a list built in a loop")


class Gen:
    """Joint generalisation of three successive arrivals at a loop head."""

    def __init__(self, st, site, depth):
        self.st, self.site, self.depth = st, site, depth
        self.t = atom_of(("gen",) + site + (depth, "t"), 1, BIG)
        self.pairs, self.order, self.atoms = {}, [], []
        self.varying, self.consts, self.must = [], {}, []
        self.acc, self.accn = {}, 0
        self.machine = self.flat = False
        self.taint = set()
        self.amap, self.gheap = {}, {}

    # -- numbers
    def lin(self, a1, a2):
        st = self.st
        a1, a2 = st.simp(a1), st.simp(a2)
        if a1 == a2 or st.q_eq(a1, a2) is True:
            if isinstance(a2, Lin):
                self.consts[a2] = True
            return a2
        k = (a1, a2)
        if k in self.pairs:
            return self.pairs[k]
        d = st.simp(sub(a2, a1))
        if isinstance(d, int):
            g = add(a1, scale(self.t, d))
            self.varying.append((g, a1, a2))
        else:
            g = None
            for p1, p2, P in self.order:
                for s in (1, -1):
                    r = st.simp(add(a1, p1, -s))
                    if r == st.simp(add(a2, p2, -s)):
                        g = add(r, P, s)
                        break
                if g is not None:
                    break
            if g is None:
                name = ("gen",) + self.site + (self.depth, len(self.order))
                l1, h1 = st.rng(a1)
                l2, h2 = st.rng(a2)
                lo, hi = (0 if min(l1, l2) >= 0 else -BIG), (IMAX if max(h1, h2) <= IMAX else 1 << 140)
                if ("range",) + name in st.E.dropped:
                    lo, hi = -(1 << 140), 1 << 140
                g = atom_of(name, lo, hi)
                self.atoms.append((g, lo, hi))
                self.order.append((a1, a2, g))
                if self.machine:
                    self.taint.add(g.ts[0][0])
            self.varying.append((g, a1, a2))
        self.pairs[k] = g
        return g

    def name(self, a, b, ctx=None):
        if isinstance(a, (int, Lin)) and isinstance(b, (int, Lin)) and not isinstance(a, bool):
            if ctx in ("f", "A", "d", "in", "F", "h") and a != b:
                raise Mismatch("names")
            return self.lin(a, b)
        if a == b:
            return b
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and a:
            c = b[0] if isinstance(b[0], str) else None
            return tuple(self.name(x, y, c) for x, y in zip(a, b))
        raise Mismatch("names")

    # -- values
    def val(self, v0, v1, v2):
        try:
            return self.val1(v0, v1, v2)
        except Mismatch as m:
            if not self.machine or self.flat:
                raise
            return Top("varies between rounds of a loop")

    def val1(self, v0, v1, v2):
        if isinstance(v1, (int, Lin)) and isinstance(v2, (int, Lin)):
            return self.lin(v1, v2)
        if v1 is None and v2 is None:
            return None
        if type(v1) is not type(v2):
            raise Mismatch("kinds")
        if isinstance(v2, Sym):
            return v2 if v1 == v2 else Sym(self.name(v1.name, v2.name), v2.ty)
        if isinstance(v2, Agg):
            if v1.v != v2.v or len(v1.f) != len(v2.f):
                raise Mismatch("variants")
            f0 = v0.f if isinstance(v0, Agg) and v0.v == v2.v and len(v0.f) == len(v2.f) else (None,) * len(v2.f)
            return Agg(v2.v, [self.val(x, y, z) for x, y, z in zip(f0, v1.f, v2.f)], v2.ty)
        if isinstance(v2, Lst):
            return self.lst(v0, v1, v2)
        if isinstance(v2, Ptr):
            return self.ptr(v0, v1, v2)
        if isinstance(v2, Nat):
            if v1.kind != v2.kind or len(v1.d) != len(v2.d):
                raise Mismatch("iterators")
            d0 = v0.d if isinstance(v0, Nat) and v0.kind == v2.kind and len(v0.d) == len(v2.d) else (None,) * len(v2.d)
            return Nat(v2.kind, *[self.val(x, y, z) for x, y, z in zip(d0, v1.d, v2.d)])
        if isinstance(v2, tuple):
            if len(v1) != len(v2):
                raise Mismatch("tuples")
            t0 = v0 if isinstance(v0, tuple) and len(v0) == len(v2) else (None,) * len(v2)
            return tuple(self.val(x, y, z) for x, y, z in zip(t0, v1, v2))
        if isinstance(v2, Dsc):
            return Dsc(self.val1(None, v1.sym, v2.sym))
        if v1 == v2:
            return v2
        raise Mismatch("values")

    def seg(self, a, b):
        if a[0] != b[0]:
            raise Mismatch("segments")
        if a[0] == "e":
            v = self.val1(None, a[1], b[1])
            return ("e", v)
        base = b[1]
        if a[1].name != b[1].name:
            n = self.name(a[1].name, b[1].name)
            base = Base(n, b[1].ety, b[1].tmpl)
            self.st.E.bases[n] = base
        lo, hi = self.lin(a[2], b[2]), self.lin(a[3], b[3])
        if n_len(a) is None or n_len(b) is None:
            self.must.append((sub(lo, hi), sub(a[2], a[3]), sub(b[2], b[3])))
        return ("s", base, lo, hi)

    def lst(self, v0, v1, v2):
        st = self.st
        l1, l2 = fold(st, v1), fold(st, v2)
        if len(l1.segs) == len(l2.segs):
            return Lst([self.seg(a, b) for a, b in zip(l1.segs, l2.segs)])
        if not isinstance(v0, Lst):
            raise Mismatch("lists")
        l0 = fold(st, v0)
        k0, k1 = len(l0.segs), len(l1.segs)
        if not k0 < k1 < len(l2.segs) or l1.segs[:k0] != l0.segs or l2.segs[:k1] != l1.segs or len(l2.segs) - k1 != k1 - k0:
            raise Mismatch("lists")
        g1, g2 = l1.segs[k0:], l2.segs[k1:]
        tail = tuple(self.seg(a, b) for a, b in zip(g1, g2))
        c = self.lin(0, st.llen(Lst(g1)))
        key = (st.lterm(Lst(g1)), st.lterm(Lst(g2)))
        if key not in self.acc:
            ts = {seg_type(st.E, s) for s in g2}
            t = ts.pop() if len(ts) == 1 else None
            self.acc[key] = Base(("acc",) + self.site + (self.depth, len(self.acc)), t, raising if t is None else None)
        b = self.acc[key]
        st.E.bases[b.name] = b
        return Lst(l0.segs + (("s", b, 0, c),) + tail)

    def ptr(self, v0, v1, v2):
        if len(v1.p) != len(v2.p) or (v1.m is None) != (v2.m is None):
            raise Mismatch("pointers")
        p = []
        for a, b in zip(v1.p, v2.p):
            if a[0] != b[0] or a[0] != "x" and a != b:
                raise Mismatch("pointers")
            p.append(("x", self.lin(a[1], b[1])) if a[0] == "x" else b)
        m = None
        if v2.m is not None:
            m = (self.lin(v1.m[0], v2.m[0]), self.lin(v1.m[1], v2.m[1]))
            self.must.append((scale(m[1], -1), scale(v1.m[1], -1), scale(v2.m[1], -1)))
        self.addr(v0.a if isinstance(v0, Ptr) else None, v1.a, v2.a)
        return Ptr(v2.a, tuple(p), m)

    def addr(self, a0, a1, a2):
        if a2 in self.amap:
            if self.amap[a2] != a1:
                raise Mismatch("addresses")
            return
        if a1 != a2 and a1 in self.amap:
            raise Mismatch("addresses")
        self.amap[a2] = a1
        if a1 not in self.h1 or a2 not in self.h2:
            self.gheap[a2] = Top("not set in every round of a loop")
            return
        self.gheap[a2] = None
        self.gheap[a2] = self.val(self.h0.get(a0) if a0 is not None else None, self.h1[a1], self.h2[a2])


def n_len(s):
    """Length of a segment when it is a plain number."""
    d = sub(s[3], s[2])
    return d if isinstance(d, int) else None


class W:
    """A generalised loop: what the state looks like at the loop head in round t."""
    __slots__ = ("t", "atoms", "gheap", "roots", "spec", "invs", "r", "dr", "doomed", "depth", "site", "taint", "plain")


def roots_of(st):
    out = []
    for f in st.frames[:-1]:
        out += [(f.fid, i) for i in range(len(f.body.locals)) if (f.fid, i) in st.heap]
    f = st.frames[-1]
    live = f.body.live_in(f.bb)
    out += [(f.fid, i) for i in sorted(live) if (f.fid, i) in st.heap]
    return out


def arrive(E, st, fr):
    bb = fr.bb
    w = fr.widened.get(bb)
    if w == "off":
        return
    r = nrec(st)
    if w is not None:
        return check(E, st, fr, w, r)
    hist = fr.hist.get(bb, ())
    if hist and hist[-1][0] == r:
        return plain(E, st, fr, r)
    fr.hist[bb, "plain"] = ((E.forks_seen(st), st.heap.copy()),)
    if len(hist) >= 2 and r - hist[-1][0] == hist[-1][0] - hist[-2][0]:
        if attempt(E, st, fr, hist[-2], hist[-1], r):
            return
    fr.hist[bb] = hist[-1:] + ((r, st.heap.copy()),)


def plain(E, st, fr, r):
    """A loop that handles no nested items; summarised when it runs over a list of unknown length."""
    k = (fr.bb, "plain")
    n = E.forks_seen(st)
    hist = fr.hist.get(k, ())
    if st.ind is None or hist and hist[-1][0] == n and fr.visits[fr.bb][2] < 10:
        return
    if len(hist) == 2 and attempt(E, st, fr, hist[0], hist[1], r, True):
        return
    fr.hist[k] = hist[-1:] + ((n, st.heap.copy()),)


def attempt(E, st, fr, h0, h1, r, flat=False):
    if flat:
        s0 = s1 = s2 = (None, None)
    else:
        sp = E.resume
        s0 = sp.advance(st, sp.start(st), h0[0])
        s1 = sp.advance(st, s0, h1[0] - h0[0])
        s2 = sp.advance(st, s1, r - h1[0])
        if not s0[0] == s1[0] == s2[0] == "loop":
            return False
    depth = 0 if st.ind is None else st.ind[0] + 1
    if depth > 5:
        return False
    site = (fr.inst.dpath, fr.bb)
    g = Gen(st, site, depth)
    g.h0, g.h1, g.h2 = h0[1], h1[1], st.heap
    try:
        spec = g.val(s0[1], s1[1], s2[1])
    except Mismatch:
        return False
    g.machine, g.flat = True, flat
    roots = roots_of(st)
    try:
        for a in roots:
            g.addr(a, a, a)
    except Mismatch:
        return False
    w = W()
    w.t, w.atoms, w.gheap, w.roots, w.spec = g.t, g.atoms, g.gheap, roots, spec
    w.r, w.dr, w.doomed, w.depth, w.site, w.taint, w.plain = r, 0 if flat else r - h1[0], False, depth, site, frozenset(g.taint), flat
    # candidate invariants: linear bounds that hold in both rounds
    cands = list(g.must)
    ns = [n for n in g.consts if len(n.ts) >= 1]
    seen = set()
    for x, v1, v2 in g.varying:
        if taints(x, w.taint):
            continue
        for n in ns[:12]:
            cands.append((sub(x, n), sub(v1, n), sub(v2, n)))
            cands.append((sub(n, x), sub(n, v1), sub(n, v2)))
        cands.append((scale(x, -1), scale(v1, -1), scale(v2, -1)))
    w.invs = []
    for e, e1, e2 in cands:
        if isinstance(e, int) or e in seen or irange(e)[1] <= 0:
            continue
        seen.add(e)
        key = ("inv", site, depth, repr(e))
        if key in E.dropped:
            continue
        if st.q_le(e1, 0) is True and st.q_le(e2, 0) is True:
            w.invs.append((e, key))
    enter(E, st, fr, w, st.ind[1] if flat else ("loop", spec))
    return True


def enter(E, st, fr, w, spec):
    """Replaces the state by the general one."""
    f = st.frames[-1]
    keep = set(w.gheap)
    for i in range(len(f.body.locals)):
        if (f.fid, i) not in keep:
            st.heap.pop((f.fid, i), None)
    for a, v in w.gheap.items():
        st.heap[a] = v
    st.ind = (w.depth, spec)
    st.taint = st.taint | w.taint
    fr.widened[fr.bb] = w
    fr.visits.pop(fr.bb, None)
    fr.hist.pop(fr.bb, None)
    fr.hist.pop((fr.bb, "plain"), None)
    for e, _ in w.invs:
        if not st.assume(("le", e)):
            raise Undecided("loop invariant contradicts the path")


def check(E, st, fr, w, r):
    d = r - w.r
    if d < w.dr:
        return
    spec = st.ind[1]
    if spec[0] == "loop" and not w.doomed and not w.plain:
        spec = E.resume.advance(st, spec, d)
    try:
        if d != w.dr:
            raise Mismatch("number of nested items")
        m = Match(st, w)
        if spec[0] == "loop" and not w.doomed and not w.plain:
            m.val(w.spec, spec[1])
        m.machine(w)
        sigma = m.solve()
    except Mismatch:
        st.ind = (w.depth, spec)
        fr.widened[fr.bb] = "off"
        fr.visits[fr.bb] = (max(0, E.max_unroll - 3), E.forks_seen(st), 0)
        return
    for e, key in w.invs:
        if st.q_le(subst(e, sigma), 0) is not True:
            E.dropped.add(key)
            raise Restart()
    for a, lo, hi in w.atoms:
        l, h = st.rng(sigma[a.ts[0][0]])
        if l < lo or h > hi:
            if ("range",) + a.ts[0][0].key in E.dropped:
                # fewer than 2^70 rounds, each of which changes the number by less than 2^69
                l, h = st.rng(sub(sigma[a.ts[0][0]], a))
                if -(1 << 69) < l and h < 1 << 69:
                    continue
                raise Undecided("range of a number that varies in a loop")
            E.dropped.add(("range",) + a.ts[0][0].key)
            raise Restart()
    if spec[0] == "loop" or w.doomed or w.plain:
        raise Pruned()
    # the specification is finished but the program goes on: an arbitrary later round of that
    w2 = rename(E, w)
    if w2.depth > 3:
        raise Undecided("nested loop summaries")
    w2.r = r
    w2.doomed = True
    enter(E, st, fr, w2, spec)


class Match:
    """Is the current state an instance of the general one, for the next round?"""

    def __init__(self, st, w):
        self.st, self.w = st, w
        self.amap, self.todo = {}, []
        self.eqs = []
        self.fresh = {a.ts[0][0] for a, _, _ in w.atoms}
        self.sigma = {w.t.ts[0][0]: add(w.t, 1)}

    def machine(self, w):
        for a in w.roots:
            self.addr(a, a)
        while self.todo:
            a, b = self.todo.pop()
            if b not in self.st.heap:
                if isinstance(w.gheap[a], Top):
                    continue
                raise Mismatch("unset")
            self.val(w.gheap[a], self.st.heap[b])

    def addr(self, a, b):
        if a in self.amap:
            if self.amap[a] != b:
                raise Mismatch("addresses")
            return
        self.amap[a] = b
        if a in self.w.gheap:
            self.todo.append((a, b))
        elif a != b:
            raise Mismatch("addresses")

    def lin(self, g, v):
        self.eqs.append((g, v))

    def name(self, a, b):
        if isinstance(a, (int, Lin)) and isinstance(b, (int, Lin)):
            return self.lin(a, b)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            for x, y in zip(a, b):
                self.name(x, y)
            return
        if a != b:
            raise Mismatch("names")

    def val(self, g, v):
        if isinstance(g, Top):
            return
        if isinstance(g, (int, Lin)) and isinstance(v, (int, Lin)):
            return self.lin(g, v)
        if g is None and v is None:
            return
        if type(g) is not type(v):
            raise Mismatch("kinds")
        if isinstance(g, Sym):
            return self.name(g.name, v.name)
        if isinstance(g, Agg):
            if g.v != v.v or len(g.f) != len(v.f):
                raise Mismatch("variants")
            for x, y in zip(g.f, v.f):
                self.val(x, y)
        elif isinstance(g, Lst):
            self.lst(g, v)
        elif isinstance(g, Ptr):
            if len(g.p) != len(v.p) or (g.m is None) != (v.m is None):
                raise Mismatch("pointers")
            for x, y in zip(g.p, v.p):
                if x[0] != y[0]:
                    raise Mismatch("pointers")
                self.name(x[1], y[1])
            if g.m is not None:
                self.lin(g.m[0], v.m[0])
                self.lin(g.m[1], v.m[1])
            self.addr(g.a, v.a)
        elif isinstance(g, Nat):
            if g.kind != v.kind or len(g.d) != len(v.d):
                raise Mismatch("iterators")
            for x, y in zip(g.d, v.d):
                self.val(x, y)
        elif isinstance(g, tuple):
            if len(g) != len(v):
                raise Mismatch("tuples")
            for x, y in zip(g, v):
                self.val(x, y)
        elif isinstance(g, Dsc):
            self.val(g.sym, v.sym)
        elif g != v:
            raise Mismatch("values")

    def seg(self, a, b):
        if a[0] != b[0]:
            raise Mismatch("segments")
        if a[0] == "e":
            return self.val(a[1], b[1])
        self.name(a[1].name, b[1].name)
        self.lin(a[2], b[2])
        self.lin(a[3], b[3])

    def lst(self, g, v):
        k = next((i for i, s in enumerate(g.segs) if s[0] == "s" and s[1].name[0] == "acc" and s[1].name[1:3] == self.w.site and s[1].name[3] == self.w.depth), None)
        v = fold(self.st, v)
        if k is None:
            g = fold(self.st, g)
            if len(g.segs) != len(v.segs):
                raise Mismatch("lists")
            for a, b in zip(g.segs, v.segs):
                self.seg(a, b)
            return
        n = len(g.segs)
        if v.segs[:n] != g.segs or len(v.segs) != n + (n - k - 1):
            raise Mismatch("lists")
        for a, b in zip(g.segs[k + 1:], v.segs[n:]):
            self.seg(a, b)
        c = g.segs[k][3]
        self.lin(c, add(c, self.st.llen(Lst(g.segs[k + 1:]))))

    def solve(self):
        eqs, sg = self.eqs, self.sigma
        done = False
        while not done:
            done = True
            for g, v in eqs:
                if not isinstance(g, Lin):
                    continue
                open_ = [(a, k) for a, k in g.ts if a in self.fresh and a not in sg]
                if len(open_) == 1 and open_[0][1] in (1, -1):
                    a, k = open_[0]
                    rest = subst(add(g, Lin(0, ((a, 1),)), -k), sg)
                    sg[a] = scale(sub(v, rest), k)
                    done = False
        for a in self.fresh:
            if a not in sg:
                raise Mismatch("unbound")
        for g, v in eqs:
            if self.st.q_eq(subst(g, sg), v) is not True:
                raise Mismatch("numbers")
        return sg


def subst(g, sg):
    if isinstance(g, int):
        return g
    r = g
    for a, k in g.ts:
        if a in sg:
            r = add(r, sub(sg[a], Lin(0, ((a, 1),))), k)
    return r


def rename(E, w):
    """The same general state with new names for its unknowns."""
    d = w.depth + 1
    n = lambda a: Lin(0, ((Atom.get(("gen",) + w.site + (d, a.key[-1]), a.lo, a.hi), 1),))
    sg = {w.t.ts[0][0]: n(w.t.ts[0][0])}
    for a, _, _ in w.atoms:
        sg[a.ts[0][0]] = n(a.ts[0][0])

    def name(x):
        if isinstance(x, Lin):
            return subst(x, sg)
        if isinstance(x, tuple):
            if x[:1] == ("acc",) and x[1:3] == w.site and x[3] == w.depth:
                return x[:3] + (d,) + x[4:]
            return tuple(name(y) for y in x)
        return x

    def val(v):
        if isinstance(v, (int, Lin)):
            return subst(v, sg)
        if isinstance(v, Sym):
            return Sym(name(v.name), v.ty)
        if isinstance(v, Agg):
            return Agg(v.v, [val(x) for x in v.f], v.ty)
        if isinstance(v, Lst):
            return Lst([("e", val(s[1])) if s[0] == "e" else ("s", base(s[1]), val(s[2]), val(s[3])) for s in v.segs])
        if isinstance(v, Ptr):
            return Ptr(v.a, tuple(("x", val(e[1])) if e[0] == "x" else e for e in v.p), None if v.m is None else (val(v.m[0]), val(v.m[1])))
        if isinstance(v, Nat):
            return Nat(v.kind, *[val(x) for x in v.d])
        if isinstance(v, tuple):
            return tuple(val(x) for x in v)
        if isinstance(v, Dsc):
            return Dsc(val(v.sym))
        return v

    def base(b):
        n = name(b.name)
        if n == b.name:
            return b
        b = Base(n, b.ety, b.tmpl)
        E.bases[n] = b
        return b
    w2 = W()
    w2.t, w2.atoms = sg[w.t.ts[0][0]], [(sg[a.ts[0][0]], lo, hi) for a, lo, hi in w.atoms]
    w2.gheap = {a: val(v) for a, v in w.gheap.items()}
    w2.roots, w2.spec, w2.r, w2.dr, w2.doomed, w2.depth, w2.site, w2.plain = w.roots, None, w.r, w.dr, w.doomed, d, w.site, False
    w2.taint = frozenset(sg[a].ts[0][0] for a in w.taint)
    w2.invs = [(subst(e, sg), ("inv", w.site, d, repr(subst(e, sg)))) for e, _ in w.invs]
    w2.invs = [x for x in w2.invs if x[1] not in E.dropped]
    return w2


# ---- what a verdict on a summarised loop may rest on
def taints(x, ts):
    """Does x mention one of the atoms?"""
    if isinstance(x, Lin):
        return any(a in ts or any(taints(y, ts) for y in a.key) for a, _ in x.ts)
    if isinstance(x, tuple):
        return any(taints(y, ts) for y in x)
    if isinstance(x, Sym):
        return taints(x.name, ts)
    if isinstance(x, Agg):
        return any(taints(y, ts) for y in x.f)
    return False


def unsure(st):
    """Facts of the path about numbers of the program the specification has no counterpart for, or about earlier
    entries of lists built in a summarised loop (whose properties are forgotten)."""
    ts = st.taint
    facts = [Lin(0, k) for k in list(st.bnd) + list(st.ne)] + list(st.picks) + [x for p in list(st.rel) + st.eqs + st.neqs for x in p]
    if ts and any(taints(x, ts) for x in facts):
        return True
    facts += list(st.binds) + list(st.excl) + list(st.eqb)
    return any(earlier(x) for x in facts)


def earlier(x):
    if isinstance(x, Lin):
        return any(any(earlier(y) for y in a.key) for a, _ in x.ts)
    if isinstance(x, tuple):
        return x[:1] == ("acc",) or any(earlier(y) for y in x)
    if isinstance(x, Sym):
        return earlier(x.name)
    if isinstance(x, Agg):
        return any(earlier(y) for y in x.f)
    if isinstance(x, Lst):
        return any(earlier(s[1]) if s[0] == "e" else earlier(s[1].name) for s in x.segs)
    return False
