"""Compares the outcomes of an abstract run with a specification, refining path facts until both sides are decided."""
import collections
from vals import *
from state import *
from state import IMAX


class Diverge(Exception):
    pass


DEBUG = False
UNKNOWN, EQUAL, DIFFERENT = "unknown", "equal", "different"


def has_op(x):
    if isinstance(x, Lin):
        return any(has_op(("atom",) + (a.key,)) for a, _ in x.ts)
    if isinstance(x, tuple):
        if x and x[0] == "atom":
            k = x[1]
            if k[0] == "op":
                return True
            return any(has_op(y) for y in k if isinstance(y, Lin))
        return any(has_op(y) for y in x)
    return False


def compare(st, a, b):
    """Do two canonical terms designate equal values under st's facts?"""
    if a == b:
        return EQUAL
    if isinstance(a, (int, Lin)) and isinstance(b, (int, Lin)):
        q = st.q_eq(a, b)
        if q is True:
            return EQUAL
        if q is False:
            return DIFFERENT
        if has_op(a) or has_op(b):
            return UNKNOWN
        try:
            st.assume_probe = None
        except AttributeError:
            pass
        return ("ints", a, b)
    if st.eqs:
        rep = st.classes()
        if rep(a) == rep(b):
            return EQUAL
    ka, kb = kind(a), kind(b)
    if "T" in (ka, kb) or "?" in (ka, kb):
        return UNKNOWN
    if ka == "L" and kb == "L":
        return cmp_list(st, a, b)
    if ka == "A" and kb == "A":
        if a[1] != b[1]:
            return DIFFERENT
        if len(a[2]) != len(b[2]):
            return UNKNOWN
        r = EQUAL
        for x, y in zip(a[2], b[2]):
            c = compare(st, x, y)
            if c == DIFFERENT:
                return DIFFERENT
            if c == UNKNOWN:
                r = UNKNOWN
            elif c != EQUAL and r == EQUAL:
                r = c
        return r
    if ka == "R" and kb == "R":
        return compare(st, a[1], b[1])
    if ka == "R":
        return compare(st, a[1], b)
    if kb == "R":
        return compare(st, a, b[1])
    if ka == "S" and kb == "S":
        return DIFFERENT
    if {ka, kb} <= {"S", "A", "L", "i"}:
        if {ka, kb} == {"S", "L"} or "i" in (ka, kb):
            return UNKNOWN
        return DIFFERENT
    return UNKNOWN


def kind(t):
    if isinstance(t, (int, Lin)):
        return "i"
    if isinstance(t, tuple) and t:
        return t[0]
    return "?"


def seglen(st, s):
    return 1 if s[0] == "e" else st.simp(sub(s[3], s[2]))


def cmp_list(st, a, b):
    la, lb = 0, 0
    for s in a[1:]:
        la = add(la, seglen(st, s))
    for s in b[1:]:
        lb = add(lb, seglen(st, s))
    q = st.q_eq(la, lb)
    if q is False:
        return DIFFERENT
    if len(a) == len(b):
        r = EQUAL
        for x, y in zip(a[1:], b[1:]):
            if x == y:
                continue
            if x[0] == "e" and y[0] == "e":
                c = compare(st, x[1], y[1])
            elif x[0] == "s" and y[0] == "s":
                if x[1] != y[1] and "acc" in (x[1][0], y[1][0]):
                    c = UNKNOWN
                elif x[1] != y[1]:
                    # two opaque runs with different names; same length does not make them equal
                    c = DIFFERENT if st.q_eq(seglen(st, x), 0) is False or st.q_eq(seglen(st, y), 0) is False else UNKNOWN
                    if c == DIFFERENT and "enc" not in (x[1][0], y[1][0]):
                        c = DIFFERENT
                else:
                    c1, c2 = compare(st, x[2], y[2]), compare(st, x[3], y[3])
                    c = EQUAL if c1 == c2 == EQUAL else (DIFFERENT if DIFFERENT in (c1, c2) else (c1 if c1 != EQUAL else c2))
            else:
                return UNKNOWN if q is None else UNKNOWN
            if c == DIFFERENT:
                return DIFFERENT
            if c == UNKNOWN:
                r = UNKNOWN
            elif c != EQUAL and r == EQUAL:
                r = c
        return r
    if q is None:
        if has_op(la) or has_op(lb):
            return UNKNOWN
        return ("ints", la, lb)
    return UNKNOWN


# ---- a model of the integer facts of a path: confirms that the path is feasible before anything is reported
def base_atoms(x, out):
    if isinstance(x, Lin):
        for a, _ in x.ts:
            if a.key[0] == "sl":
                base_atoms(a.key[1], out)
            elif a.key[0] == "op":
                out["#op"] = True
                for y in a.key:
                    base_atoms(y, out)
            else:
                out[a] = True
    elif isinstance(x, tuple):
        for y in x:
            base_atoms(y, out)


def ev(x, m):
    if isinstance(x, int):
        return x
    r = x.c
    for a, k in x.ts:
        if a.key[0] == "sl":
            r += k * ((ev(a.key[1], m) >> a.key[2]) & ((1 << a.key[3]) - 1))
        else:
            r += k * m[a]
    return r


def check_model(st, m):
    for key, (lo, hi) in st.bnd.items():
        v = ev(Lin(0, key), m)
        if lo is not None and v < lo or hi is not None and v > hi:
            return False
    for key, ex in st.ne.items():
        if ev(Lin(0, key), m) in ex:
            return False
    for a, v in m.items():
        if not a.lo <= v <= a.hi:
            return False
    return True


def only(x, a):
    d = {}
    base_atoms(x, d)
    return list(d) == [a]


def find_model(st, extra=(), tries=400):
    """An assignment satisfying every integer fact of the path (or None)."""
    if not st.consistent():
        return None
    atoms = {}
    for key in list(st.bnd) + list(st.ne):
        base_atoms(Lin(0, key), atoms)
    for x in extra:
        base_atoms(x, atoms)
    if atoms.pop("#op", None):
        return None
    order = [a for a in atoms if st.arng(a)[0] != st.arng(a)[1]]
    budget = [tries]

    def tight(s, a):
        """Range of a under the facts that tie it to other numbers, given their present ranges."""
        lo, hi = s.arng(a)
        for key, (bl, bh) in s.bnd.items():
            k = dict(key).get(a)
            if k is None or len(key) == 1:
                continue
            ol = oh = 0
            for x, c in key:
                if x is not a:
                    l, h = s.arng(x)
                    ol += min(c * l, c * h)
                    oh += max(c * l, c * h)
            # bl <= k*a + others <= bh
            if bh is not None:
                t = bh - ol
                if k > 0:
                    hi = min(hi, t // k)
                else:
                    lo = max(lo, -(t // -k))
            if bl is not None:
                t = bl - oh
                if k > 0:
                    lo = max(lo, -((-t) // k))
                else:
                    hi = min(hi, (-t) // -k)
        return lo, hi

    def cands(s, a):
        lo, hi = tight(s, a)
        ex = s.ne.get(((a, 1),), ())
        c = []
        sls = [(k[0][0], b) for k, b in s.bnd.items() if len(k) == 1 and k[0][0].key[0] == "sl" and only(k[0][0].key[1], a)]
        nes = [(k[0][0], b) for k, b in s.ne.items() if len(k) == 1 and k[0][0].key[0] == "sl" and only(k[0][0].key[1], a)]
        if (sls or nes) and hi - lo <= 65535:
            for v in range(lo, hi + 1):
                m = {a: v}
                if v not in ex and all((b[0] is None or ev(Lin(0, ((x, 1),)), m) >= b[0]) and (b[1] is None or ev(Lin(0, ((x, 1),)), m) <= b[1]) for x, b in sls) \
                        and all(ev(Lin(0, ((x, 1),)), m) not in b for x, b in nes):
                    c.append(v)
                    if len(c) >= 6:
                        break
            return c
        for v in (lo, lo + 1, hi, hi - 1, (lo + hi) // 2, lo + 2, lo + 3, lo + 7, lo + 24, lo + 256, hi // 3):
            if lo <= v <= hi and v not in ex and v not in c:
                c.append(v)
        return c

    def go(s, i):
        if budget[0] <= 0:
            return None
        if i == len(order):
            m = {a: s.arng(a)[0] for a in atoms}
            return m if check_model(st, m) else None
        a = order[i]
        for v in cands(s, a):
            budget[0] -= 1
            if budget[0] <= 0:
                return None
            s2 = s.clone()
            try:
                if not s2.assume(("eq", sub(Lin(0, ((a, 1),)), v))):
                    continue
            except Infeasible:
                continue
            r = go(s2, i + 1)
            if r is not None:
                return r
        return None
    return go(st.clone(), 0)


def distinct_ints(st, a, b):
    """A feasible assignment under which a and b differ."""
    for alt in (("gt", sub(a, b)), ("gt", sub(b, a))):
        s = st.clone()
        try:
            if not s.assume(alt):
                continue
        except Infeasible:
            continue
        m = find_model(s, (a, b))
        if m is not None and ev(a, m) != ev(b, m):
            return m
    return None


class Report:
    """Result of one obligation job (picklable)."""

    def __init__(self, name):
        self.name = name
        self.paths = self.decided = self.undecided = 0
        self.why = collections.Counter()
        self.viol = []
        self.fns, self.rules = set(), set()
        self.calls = self.stmts = 0
        self.samples = []
        self.error = None

    def violation(self, kind, why, what, msg, where, trace=(), fn=None):
        key = "%s: %s%s" % (what, kind, " (%s)" % why if why else "")
        self.viol.append({"kind": kind, "why": why, "key": key, "msg": msg, "where": where or "", "path": list(trace), "fn": fn})

    def undec(self, why):
        self.undecided += 1
        self.why[why] += 1

    def stats(self, E):
        self.fns |= E.stats["fns"]
        self.calls += E.stats["calls"]
        self.stmts += E.stats["stmts"]


def trace_of(st, n=24):
    out = []
    t = st.trace
    while t and len(out) < n:
        alt, loc = t[2], t[3]
        out.append("%s: %s" % (loc, show_alt(alt)[:300]))
        t = t[1]
    return out[::-1]


def show_alt(alt):
    try:
        k = alt[0]
        if k == "var":
            s = alt[1]
            vs = s.ty.vs
            return "%r is %s" % (s, vs[alt[2]]["n"] if vs else alt[2])
        if k == "nvar":
            return "%r is none of %s" % (alt[1], ", ".join(alt[1].ty.vs[i]["n"] for i in alt[2]))
        if k == "le":
            return "%r <= 0" % (alt[1],)
        if k == "gt":
            return "%r > 0" % (alt[1],)
        if k == "eq":
            return "%r == 0" % (alt[1],)
        if k == "ne":
            return "%r != 0" % (alt[1],)
        if k == "pick":
            return "%s := %s" % (show(alt[1])[:80], alt[2])
        if k == "ord":
            return "%r %s %r" % (alt[1], alt[3], alt[2])
        if k in ("oeq", "one"):
            return "%r %s %r" % (alt[1], "==" if k == "oeq" else "!=", alt[2])
    except Exception:
        pass
    return str(alt)[:80]


def refine(st, f, limit=40000):
    """Evaluate f(st), splitting st on NeedFork; yields (state, value)."""
    work = [st]
    n = 0
    while work:
        s = work.pop()
        n += 1
        if n > limit:
            raise Undecided("refinement limit")
        s.log.clear()
        mark = (s.ctr, s.events)
        try:
            v = f(s)
        except NeedFork as nf:
            s.rollback(0, *mark)
            for alt in reversed(nf.alts):
                s2 = s.clone()
                s2.trace = (s.trace[0] + 1 if s.trace else 1, s.trace, alt, "spec")
                try:
                    if s2.assume(alt):
                        work.append(s2)
                except Infeasible:
                    pass
            continue
        except Infeasible:
            continue
        yield s, v


def judge(E, rep, outs, spec, what, ctx=None, allow_panic=None, post=None, norm=None):
    """spec(st) -> ('ok', v) | ('err',) | ('val', v) | ('skip',); outs: outcomes of the run."""
    import engine
    for o in outs:
        rep.paths += 1
        st = o.st
        if o.kind == "pruned":   # back at the loop head in a state the general iteration covers
            rep.decided += 1
            continue
        if o.kind == "undecided":
            rep.undecided += 1
            rep.why[o.why] += 1
            continue
        if o.kind == "panic":
            if allow_panic is not None and allow_panic(st, o):
                rep.decided += 1
                continue
            try:
                bad = [s for s, v in refine(st, lambda s: spec(s)) if v[0] != "skip"]
            except Undecided as u:
                rep.undecided += 1
                rep.why[str(u)] += 1
                continue
            if st.ind is not None:
                import widen
                bad = [s for s in bad if not widen.unsure(s)]
            s = next((s for s in bad if find_model(s) is not None), None)
            if s is None:
                rep.undecided += 1
                rep.why["panic path not confirmed feasible"] += 1
                continue
            rep.violation("panic", strip_loc(o.where), what, "panics: %s" % o.why, o.where, trace_of(s), engine.callee(o.where))
            continue
        try:
            n = 0
            for s, exp in refine(st, lambda s: evaluate(E, s, o, spec, norm)):
                n += 1
                verdict(E, rep, s, o, exp, what)
                if post is not None and exp[1][0] != "skip":
                    post(s, o, rep)
            if n == 0:
                rep.decided += 1
        except Undecided as u:
            rep.undecided += 1
            rep.why[str(u)] += 1


def strip_loc(w):
    return (w or "?").split(" (")[0]


def evaluate(E, s, o, spec, norm=None):
    nm = norm or (lambda t: t)
    exp = spec(s)
    if exp[0] == "skip":
        return None, exp, None
    v = s.force(o.val) if exp[0] in ("ok", "err") else o.val
    if isinstance(v, Top):
        raise Undecided("result: " + v.why)
    if exp[0] in ("ok", "err"):
        if not isinstance(v, Agg):
            raise Undecided("result is not a Result")
        if v.v == 0 and exp[0] == "ok":
            return nm(s.term(v.f[0])), exp, nm(s.term(exp[1]))
        return v, exp, None
    return nm(s.term(v)), exp, nm(s.term(exp[1]))


def verdict(E, rep, s, o, r, what):
    if s.ind is not None:
        import widen
        n = len(rep.viol)
        verdict1(E, rep, s, o, r, what)
        if len(rep.viol) > n and widen.unsure(s):
            del rep.viol[n:]
            rep.undec("difference rests on a number of a loop without counterpart in the specification")
        return
    verdict1(E, rep, s, o, r, what)


def verdict1(E, rep, s, o, r, what):
    act, exp, want = r
    if exp[0] == "skip":
        rep.decided += 1
        return
    if exp[0] in ("ok", "err"):
        got = "ok" if not isinstance(act, Agg) or want is not None else ("ok" if act.v == 0 else "err")
        if want is None and isinstance(act, Agg):
            got = "ok" if act.v == 0 else "err"
        if got != exp[0]:
            m = find_model(s)
            if m is None:
                if not s.consistent():
                    return
                rep.undecided += 1
                rep.why["result kind differs on a path not confirmed feasible"] += 1
                if DEBUG:
                    print("UNCONF", got, exp, [(Lin(0, k), v) for k, v in s.bnd.items()], [(Lin(0, k), v) for k, v in s.ne.items()], s.picks, *trace_of(s), sep="\n    ")
                return
            msg = ("succeeds where it must fail%s" % reason(exp) if got == "ok" else "fails where it must succeed%s" % reason(exp))
            rep.violation("accept" if got == "ok" else "reject", exp[1] if exp[0] == "err" and len(exp) > 1 else exp[2] if exp[0] == "ok" and len(exp) > 2 else "", what, msg, s.lastloc or "", trace_of(s))
            return
        if got == "err":
            rep.decided += 1
            return
    c = compare(s, act, want)
    if c == EQUAL:
        rep.decided += 1
        return
    if isinstance(c, tuple):
        m = distinct_ints(s, c[1], c[2])
        c = DIFFERENT if m is not None else UNKNOWN
    elif c == DIFFERENT and find_model(s) is None:
        c = UNKNOWN
    if c == UNKNOWN:
        if not s.consistent():
            return
        rep.undecided += 1
        rep.why["result not comparable with the specification"] += 1
        if DEBUG:
            print("UNCOMP", short(act), short(want), *trace_of(s), sep="\n    ")
        return
    msg = "result differs from the specified one%s: got %s, want %s" % (reason(exp), short(act), short(want))
    rep.violation("wrong", exp[2] if len(exp) > 2 else "", what, msg, s.lastloc or "", trace_of(s))


def reason(exp):
    i = 2 if exp[0] in ("ok", "val") else 1
    return " (%s)" % exp[i] if len(exp) > i else ""


def short(t, n=300):
    r = show_term(t)
    return r if len(r) < n else r[:n] + "..."


def show_term(t):
    if isinstance(t, tuple) and t:
        if t[0] == "A":
            return "#%s(%s)" % (t[1], ",".join(show_term(x) for x in t[2]))
        if t[0] == "S":
            return show(t[1])
        if t[0] == "L":
            return "[" + ", ".join(show_term(x[1]) if x[0] == "e" else "%s[%r..%r]" % (show(x[1]), x[2], x[3]) for x in t[1:]) + "]"
        if t[0] == "R":
            return "&" + show_term(t[1])
    return str(t)
