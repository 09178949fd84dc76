"""Jobs on the wire layer. A job takes the program P and returns a Report."""
from vals import *
from state import *
import contracts
import judge as J
import natives as N
import obl_wire as W
from engine import Engine

READ = {"strict": ("vh::r_wire::read_strict", True), "lax": ("vh::r_wire::read_lax", False)}


def nest_atoms(E):
    return {("s", ("f", E.inputNest.name, 1, 0))}


def delta_rule(E, rep, outs, what):
    """Every recursive call must use up exactly one nesting level and change no other setting."""
    seen = set()
    for o in outs:
        for ev in o.st.all_events():
            if ev[0] != "recurse":
                continue
            _, kind, key, inst, diff, where = ev
            if diff is None:
                continue
            ns = o.st.binds.get(o.st.resolve(E.inputNest))
            limited = ns is not None and ns.v == 1
            k = (where, diff, limited)
            if k in seen:
                continue
            seen.add(k)
            good = True
            ints = [d for d in diff if d[1] == "int"]
            if any(d[1] != "int" for d in diff):
                good = False
            elif limited:
                good = len(ints) == 1
                if good:
                    old, d = ints[0][2], ints[0][3]
                    want = -1 if isinstance(old, Lin) or old != 0 else 1
                    good = d == want
            else:
                good = all(isinstance(d[3], int) and abs(d[3]) <= 1 for d in ints)
            rep.paths += 1
            if good:
                rep.decided += 1
            else:
                rep.violation("delta", "", what, "a nested item is processed with settings changed by %s instead of exactly one nesting level less" % (
                    [(d[0], d[1], repr(d[2]), repr(d[3])) for d in diff],), where, J.trace_of(o.st), J.strip_loc(where))


SMALL = 4096


def alloc_rule(E, rep, outs, what):
    """Memory set aside in advance is bounded by a small constant or by the length of the input."""
    seen = set()
    for o in outs:
        for ev in o.st.all_events():
            if ev[0] != "alloc":
                continue
            _, path, n, where, _ = ev
            rep.paths += 1
            if isinstance(n, int) and n <= SMALL:
                rep.decided += 1
                continue
            if not isinstance(n, (int, Lin)):
                rep.undec("size of an allocation")
                continue
            s = o.st.clone()
            try:
                bad = s.assume(("gt", sub(n, SMALL))) and s.assume(("gt", sub(n, E.inputL)))
            except Infeasible:
                bad = False
            except (NeedFork, Undecided):
                rep.undec("size of an allocation")
                continue
            if not bad:
                rep.decided += 1
            elif J.find_model(s, (n, E.inputL)) is None:
                rep.undec("size of an allocation")
            elif where not in seen:
                seen.add(where)
                rep.violation("alloc", path, what, "sets aside memory for %r elements, which the input announces but does not have to contain" % (n,), where, J.trace_of(s), J.strip_loc(where))


def cast_rule(E, rep, what):
    """No number that may exceed 32 bits is cut to the pointer width."""
    for where, (good, unk) in E.casts.items():
        rep.paths += good + unk
        rep.decided += good
        for _ in range(unk):
            rep.undec("range of a converted number")
    for where, tr in E.badcasts.items():
        rep.violation("cast", "", what, "a number that may exceed the pointer width of a 32-bit target is cut: " + tr[-1], where, tr, J.strip_loc(where))


def width_rule(E, rep, outs, what):
    """Numbers that a 32-bit target would refuse as lengths are not in results that are accepted."""
    seen = set()
    for o in outs:
        if o.kind != "ret" or o.st.ind is not None:
            continue
        v = o.st.force(o.val)
        if not isinstance(v, Agg) or v.v != 0:
            continue
        for ev in o.st.all_events():
            if ev[0] != "ptr" or ev[3] in seen:
                continue
            _, n, lim, where = ev
            L = 0 if E.inputL is None else E.inputL
            if any(a.key[0] in ("len", "op") for a, _ in n.ts) and E.inputL is None:
                continue
            s = o.st.clone()
            try:
                bad = s.assume(("le", sub(L, (1 << 31) - 1))) and s.assume(("gt", sub(n, lim)))
            except (Infeasible, NeedFork, Undecided):
                continue
            if bad and (E.inputL is None or s.q_le(n, L) is not True) and J.find_model(s, (n, L)) is not None:
                seen.add(where)
                rep.violation("cast", "", what, "accepts a number that a 32-bit target refuses as too wide for its pointers: %r" % (n,), where, J.trace_of(s), J.strip_loc(where))


def read_job(P, mode, lo, hi, unroll=4, deadline=None, nesting=True, widen=False):
    E = Engine(P)
    E.deadline = deadline
    root, strict = READ[mode]
    what = "reading a %s item, first byte 0x%02x..0x%02x" % (mode, lo, hi)
    rep = J.Report(what)
    spec = W.spec_read(E, strict, strict, maxn=unroll)
    if widen:
        what = rep.name = what + ", any number of entries"
        E.resume = spec
    outs = W.run_reader(E, root, strict, pre=W.byte_range(lo, hi), unroll=unroll)
    J.judge(E, rep, outs, spec, what)
    if nesting:
        delta_rule(E, rep, outs, what)
    alloc_rule(E, rep, outs, what)
    cast_rule(E, rep, what)
    width_rule(E, rep, outs, what)
    rep.stats(E)
    return rep


def long_job(P, mode, major, n, deadline=None):
    """A container of many entries, of which the last is arbitrary."""
    E = Engine(P)
    E.deadline = deadline
    root, strict = READ[mode]
    what = "reading a %s %s of %d entries" % (mode, "map" if major == 5 else "array", n)
    rep = J.Report(what)
    spec = W.spec_read(E, strict, strict, maxn=n)
    J.judge(E, rep, W.run_reader(E, root, strict, pre=W.long_input(major, n), unroll=n + 1), spec, what)
    rep.stats(E)
    return rep


def write_job(P, variant, nel=None, big=False, widen=False, deadline=None):
    E = Engine(P)
    E.deadline = deadline
    what = "writing %s%s" % (variant, "" if nel is None else " of %d entries" % nel)
    rep = J.Report(what)
    if nel is not None:
        E.max_unroll = max(4, nel + 1)
    spec = W.spec_write(E, maxn=max(4, nel or 0))
    if widen:
        what = rep.name = what + " of any number of entries"
        E.resume = spec
    E.castjob = True
    outs = W.run_writer(E, "vh::r_wire::write_nested", variant, nel, big=big)
    W.judge_writer(E, rep, outs, spec, what)
    delta_rule(E, rep, outs, what)
    cast_rule(E, rep, what)
    rep.stats(E)
    return rep


def cmp_job(P, root, va, vb, nel=None, deadline=None):
    E = Engine(P)
    E.deadline = deadline
    what = "%s of %s and %s" % (root, va, vb) + (" of %d and %d entries" % tuple(nel) if nel else "")
    E.max_unroll = max(4, *[n + 2 for n in nel or (0,0)])
    rep = J.Report(what)
    E.castjob = True
    outs, a, b = W.run_pair(E, "vh::r_wire::" + root, va, vb, nel)
    f = W.spec_cmp(E, a, b)
    ot = E.P.ty(E.P.sig(E.P.root("vh::r_wire::cmp"))["out"])

    def spec(st):
        o = f(st)
        if root == "eq":
            return ("val", 1 if o == "eq" else 0)
        v = N.ordv(ot, o)
        if root == "partial_cmp":
            v = Agg(1, (v,))
        return ("val", v)
    J.judge(E, rep, outs, spec, what)
    cast_rule(E, rep, what)
    rep.stats(E)
    return rep


def clone_job(P, v, nel=None, deadline=None):
    E = Engine(P)
    E.deadline = deadline
    what = "clone of %s" % v
    E.max_unroll = max(4, (nel or 0) + 2)
    rep = J.Report(what)
    r = E.P.root("vh::r_wire::clone")
    st = State(E)
    st.expandroots = frozenset(("clone",))
    a = W.setup_value(E, st, "a", v, nel)
    what += "" if nel is None else " of %d entries" % nel
    st.heap[("pa",)] = a
    E.push(st, r, [Ptr(("pa",))], None, None)
    J.judge(E, rep, E.run(st), lambda st: ("val", a), what)
    rep.stats(E)
    return rep


# ---- top-level entry points: which settings do they start the reader/writer with?
def recursive_insts(P, kind):
    """Instances that recurse in the reader/writer, found by running it on an array."""
    E = Engine(P)
    if kind == "read":
        outs = W.run_reader(E, READ["strict"][0], True, pre=W.byte_range(0x81, 0x81), unroll=2)
    elif kind == "lax":
        outs = W.run_reader(E, READ["lax"][0], True, pre=W.byte_range(0x81, 0x81), unroll=2)
    else:
        outs = W.run_writer(E, "vh::r_wire::write_nested", "Array", 1)
    return {ev[3] for o in outs for ev in o.st.all_events() if ev[0] == "recurse"}


def entry_snaps(E, outs):
    seen = []
    for o in outs:
        for ev in o.st.all_events():
            if ev[0] == "entry":
                seen.append((o.st, ev[1], ev[2]))
                break
    return seen


def run_entry(P, insts, root, args, deadline):
    E = Engine(P)
    E.deadline = deadline
    E.entry_insts = frozenset(insts)
    r = P.root(root)
    sig = P.sig(r)
    st = State(E)
    base = Base(("in", "data"), E.u8())
    E.bases[base.name] = base
    L = atom_of(("len", ("in", "data")), 0, IMAX)
    st.heap[("dat",)] = Lst((("s", base, 0, L),))
    st.heap[("out",)] = Lst(())
    E.inputL = L
    vals = []
    for a, t in zip(args, sig["in"]):
        t = P.ty(t)
        if a == "data":
            vals.append(Ptr(("dat",), (), (0, L)))
        elif a == "out":
            vals.append(Ptr(("out",)))
        elif a == "x":
            vals.append(Sym(("in", "x"), t))
        elif a == "&x":
            st.heap[("x",)] = Sym(("in", "x"), P.ty(t.t))
            vals.append(Ptr(("x",)))
        else:
            vals.append(Agg(1, (a,), t) if a is not None else Agg(0, (), t))
    E.push(st, r, vals, None, None)
    return E, E.run(st)


def limit_job(P, root, args, ref, refargs, kind, limit, deadline=None):
    """root must enter the recursive reader/writer with the same settings as ref given the documented limit."""
    what = "settings %s starts with" % root.replace("vh::", "")
    rep = J.Report(what)
    insts = recursive_insts(P, kind)
    if not insts:
        rep.undec("no recursive function found in the " + kind)
        return rep
    E1, o1 = run_entry(P, insts, root, args, deadline)
    E2, o2 = run_entry(P, insts, ref, refargs, deadline)
    s1, s2 = entry_snaps(E1, o1), entry_snaps(E2, o2)
    if not s1 or not s2:
        rep.undec("the recursive function is not reached")
        return rep
    st2, i2, snap2 = s2[0]
    for st1, i1, snap1 in s1:
        rep.paths += 1
        if i1 != i2 or len(snap1) != len(snap2):
            rep.undec("different recursive function")
            continue
        out = []
        for i, (a, b) in enumerate(zip(snap2, snap1)):
            contracts.diff(E1, st1, a, b, (i,), out, True)
        if not out:
            rep.decided += 1
        else:
            rep.violation("limit", "", what, "does not start with the documented nesting limit %d: differs from it by %s" % (limit, [(d[0], d[1], repr(d[2]), repr(d[3])) for d in out]),
                          st1.lastloc or "", ())
    rep.stats(E1)
    return rep


def top_job(P, root, kind, deadline=None):
    """from_slice of a leaf type: Ok exactly when one item makes up the whole input and it decodes."""
    what = root.replace("vh::", "")
    rep = J.Report(what)
    insts = recursive_insts(P, "lax" if kind.endswith("lax") else "read")
    if not insts:
        rep.undec("no recursive function found in the reader")
        return rep
    E, outs = run_entry(P, insts, root, ["data"], deadline)
    import oracle as O
    import serde_oracle as SO

    def spec(st):
        L = E.inputL
        if not st.pick(("itemok", 0), (True, False)):
            return ("err", "malformed item")
        w = atom_of(("ilen", 0), 1, IMAX)
        if not st.le(w, L):
            raise Infeasible()
        if not kind.endswith("lax") and not st.eq(w, L):
            return ("err", "trailing data")
        v = Sym(("item", 0), W.vt(E))
        rt = E.P.ty(E.P.sig(E.P.root(root))["out"])
        t = E.P.ty(rt.vs[0]["f"][0][1])
        return O.decode_default(E, st, t, v) if not kind.startswith("serde") else SO.decode(E, st, t, v)
    J.judge(E, rep, outs, spec, what)
    rep.stats(E)
    return rep


def ffi_job(P, root, deadline=None):
    """The exported entry point of the differential fuzzer: 0 exactly when the library decodes the bytes."""
    rep = J.Report(root.replace("vh::", ""))
    insts = recursive_insts(P, "lax") | recursive_insts(P, "read")
    if not insts:
        rep.undec("no recursive function found in the reader")
        return rep
    E = Engine(P)
    E.deadline = deadline
    E.entry_insts = frozenset(insts)
    r = P.root(root)
    st = State(E)
    base = Base(("in", "data"), E.u8())
    E.bases[base.name] = base
    L = atom_of(("len", ("in", "data")), 0, IMAX)
    st.heap[("dat",)] = Lst((("s", base, 0, L),))
    E.inputL = L
    E.push(st, r, [Ptr(("dat",)), L], None, None)
    outs = E.run(st)
    ref = entry_snaps(*run_entry(P, recursive_insts(P, "lax"), "vh::r_wire::read_lax", ["data", 64], deadline))
    rep.paths += 1
    got = entry_snaps(E, outs)
    if got and ref:
        d = []
        for a, b in zip(ref[0][2], got[0][2]):
            contracts.diff(E, got[0][0], a, b, (), d, True)
        if got[0][1] != ref[0][1]:
            rep.undec("different recursive function")
        elif d:
            rep.violation("limit", "", rep.name, "does not decode like the library's non-strict entry point: settings differ by %s" % ([(x[0], x[1], repr(x[2]), repr(x[3])) for x in d],), got[0][0].lastloc or "")
        else:
            rep.decided += 1
    else:
        rep.undec("the recursive function is not reached")
    J.judge(E, rep, outs, lambda s: ("val", 0 if s.pick(("itemok", 0), (True, False)) else 1), rep.name)
    rep.stats(E)
    return rep
