"""Path-partitioned abstract interpreter over monomorphised MIR (no code of the analysed crates is run)."""
import re
import time
from vals import *
from state import *
from state import IMAX
import contracts
import widen

STD = ("core", "alloc", "std")
REPO_CRATES = ("oasis_cbor", "oasis_cbor_value", "oasis_cbor_derive")
WIDTHOPS = ("Add", "Mul", "Shl", "AddWithOverflow", "MulWithOverflow", "AddUnchecked", "MulUnchecked", "ShlUnchecked")


def callee(where):
    return (where or "").split(" (")[0]


class Outcome:
    __slots__ = ("kind", "val", "st", "why", "where")

    def __init__(self, kind, st, val=None, why=None, where=None):
        self.kind, self.st, self.val, self.why, self.where = kind, st, val, why, where

    def __repr__(self):
        return "<%s %r %s %s>" % (self.kind, self.val, self.why or "", self.where or "")


class Frame:
    __slots__ = ("fid", "inst", "body", "bb", "si", "dest", "ret", "visits", "loc", "post", "widened", "entry", "hist")

    def copy(self):
        f = Frame.__new__(Frame)
        f.fid, f.inst, f.body, f.bb, f.si, f.dest, f.ret, f.loc, f.post = self.fid, self.inst, self.body, self.bb, self.si, self.dest, self.ret, self.loc, self.post
        f.entry = self.entry
        f.visits = dict(self.visits)
        f.widened = dict(self.widened)
        f.hist = dict(self.hist)
        return f


class Panic(Exception):
    def __init__(self, why):
        self.why = why


class CallInst(Exception):
    """Raised by a native: interpret this instance (a model) with these args instead."""

    def __init__(self, inst, args):
        self.inst, self.args = inst, args


class Engine:
    def __init__(self, P):
        self.P = P
        self.bases = {}
        self.busy = set()
        self.stats = {"stmts": 0, "calls": 0, "fns": set(), "paths": 0, "natives": set(), "unmodelled": {}}
        self.max_unroll = 4
        self.max_steps = 400000
        self.max_paths = 4000
        self.deadline = None
        self.entry_insts = frozenset()
        self.contracts = {}
        self._u8 = None
        self._pair = {}
        self.nat_cache = {}
        self.resume = None      # specification to follow along loops that read or write nested items
        self.dropped = set()    # candidate invariants that turned out not to be inductive
        self.assume_len = {}
        self.nested_max = None
        import natives
        self.N = natives
        self.encof, self.swof = {}, {}
        self._vt = None
        self.inputL = None
        self.castjob = False   # there is no input of bytes: numbers come from values
        self.decoded = False    # values come out of a reader: negative numbers are negative
        self.casts, self.badcasts = {}, {}

    # ---- types
    def u8(self):
        if self._u8 is None:
            r = self.P.root("vh::models::tys")
            self._u8 = self.P.ty(self.P.ty(self.P.sig(r)["in"][0]).t)
            self._u8 = self.P.ty(self._u8.t) if self._u8.k == "slice" else self._u8
        return self._u8

    def value_ty(self):
        if self._vt is None:
            r = self.P.root("vh::r_wire::integer")
            self._vt = self.P.ty(self.P.sig(r)["out"])
        return self._vt

    def pair(self, t):
        """(K, V) tuple type of a map type."""
        if t.id not in self._pair:
            r = self.P.root("vh::models::pair_of", t.args[:2])
            self._pair[t.id] = self.P.ty(self.P.sig(r)["out"])
        return self._pair[t.id]

    def opaque_ty(self, t):
        return t.k == "struct" and (t.path.startswith("vh::opq::Opq") or t.path.startswith("core::fmt") or t.path in ("std::hash::random::RandomState",))

    def sym_range(self, name):
        return None

    def list_len(self, st, name):
        n = self.assume_len.get(name)
        if n is not None:
            return n
        hi = IMAX
        if self.nested_max and name[0] == "f" and len(name) == 4 and name[2] in (4, 5) and name[3] == 0:
            hi = self.nested_max[name[2] - 4]   # containers inside the container under analysis
        return atom_of(("len", name), 0, hi)

    # ---- memory
    def load(self, st, a):
        try:
            return st.heap[a]
        except KeyError:
            raise Undecided("read of uninitialised %s" % (a,))

    def nav(self, st, v, e):
        k = e[0]
        if k == "f":
            v = st.force(v)
            if isinstance(v, Agg):
                if e[1] < len(v.f):
                    return v.f[e[1]]
                raise Undecided("field %d of %r" % (e[1], v))
            if isinstance(v, (Ptr, Nat, Lst, int, Lin, Fn)):
                return v   # newtype-like std wrapper (Box/Unique/NonNull/ManuallyDrop/MaybeUninit)
            if isinstance(v, Top):
                return v
            raise Undecided("field of %r" % (v,))
        if k == "d":
            v = st.force(v)
            return v
        if k == "x":
            v = st.force(v)
            if isinstance(v, Lst):
                return st.lget(v, e[1])
            if isinstance(v, Top):
                return v
            raise Undecided("index of %r" % (v,))
        raise Undecided("nav %r" % (e,))

    def read(self, st, p):
        """Value a pointer designates (a Lst for slices)."""
        if isinstance(p, Top):
            raise Undecided(p.why)
        v = self.load(st, p.a)
        for e in p.p:
            v = self.nav(st, v, e)
        if p.m is not None:
            v = st.force(v)
            if isinstance(v, Lst):
                return st.lsub(v, p.m[0], p.m[1])
        return v

    def upd(self, st, v, path, new):
        if not path:
            return new
        e = path[0]
        if e[0] == "f":
            v = st.force(v)
            if isinstance(v, Agg):
                f = list(v.f)
                f[e[1]] = self.upd(st, f[e[1]], path[1:], new)
                return Agg(v.v, f, v.ty)
            if v is None:
                return self.upd(st, v, path[1:], new)
            if isinstance(v, (Ptr, Nat, Lst, int, Lin)):
                return self.upd(st, v, path[1:], new)
            raise Undecided("write field of %r" % (v,))
        if e[0] == "d":
            v = st.force(v)
            return self.upd(st, v, path[1:], new)
        if e[0] == "x":
            v = st.force(v)
            return st.lset(v, e[1], self.upd(st, st.lget(v, e[1]), path[1:], new) if path[1:] else new)
        raise Undecided("upd")

    def write(self, st, p, new):
        if isinstance(p, Top):
            raise Undecided(p.why)
        if p.m is not None:
            old = st.force(self.read(st, Ptr(p.a, p.p)))
            a, r = st.lsplit(old, p.m[0])
            _, b = st.lsplit(r, p.m[1])
            st.hset(p.a, self.upd(st, self.load(st, p.a), p.p, Lst(a.segs + new.segs + b.segs)))
            return
        if not p.p:
            st.hset(p.a, new)
        else:
            st.hset(p.a, self.upd(st, st.heap.get(p.a), p.p, new))

    def place(self, st, fr, pl):
        """Resolve a MIR place to a Ptr."""
        a, path, m = (fr.fid, pl[0]), (), None
        for e in pl[1]:
            if e == "*":
                v = self.read(st, Ptr(a, path, None) if m is None else Ptr(a, path, None))
                v = st.force(v)
                while isinstance(v, Agg) and len(v.f) >= 1 and not isinstance(v, Ptr):
                    v = st.force(v.f[0])
                if isinstance(v, Top):
                    raise Undecided(v.why)
                if not isinstance(v, Ptr):
                    raise Undecided("deref of %r" % (v,))
                a, path, m = v.a, v.p, v.m
            elif e[0] == "f":
                path, m = path + (("f", e[1]),), None
            elif e[0] == "d":
                path = path + (("d", e[1]),)
            elif e[0] == "x":
                i = st.heap[(fr.fid, e[1])]
                i = st.force(i)
                if m is not None:
                    i = add(m[0], i)
                path, m = path + (("x", i),), None
            elif e[0] == "c":
                l = self.read(st, Ptr(a, path, m))
                l = st.force(l)
                ln = m[1] if m is not None else st.llen(l)
                i = sub(ln, e[1]) if e[2] else e[1]
                if m is not None:
                    i = add(m[0], i)
                path, m = path + (("x", i),), None
            elif e[0] == "s":
                l = st.force(self.read(st, Ptr(a, path, m)))
                ln = m[1] if m is not None else st.llen(l)
                start = e[1]
                n = sub(sub(ln, e[1]), e[2]) if e[3] else e[2] - e[1]
                m = (add(m[0], start) if m is not None else start, n)
            else:
                raise Undecided("projection %r" % (e,))
        return Ptr(a, path, m)

    def const(self, st, c):
        k = c[0]
        if k == "i":
            return c[2]
        if k == "fn":
            t = self.P.ty(c[1])
            return Fn(t.inst) if t.inst is not None else Top("unresolved fn")
        if k == "z":
            t = self.P.ty(c[1])
            if t.k == "array":
                return Lst(())
            if t.k == "struct" and t.path in LISTLIKE:
                return Lst(())
            if t.k in ("struct",) and t.vs:
                return Agg(0, tuple(self.zst(self.P.ty(ft)) for _, ft in t.vs[0]["f"]), t)
            return self.zst(t)
        if k == "a":
            t = self.P.ty(c[1])
            if t.k == "struct" and t.path in LISTLIKE:
                return Lst(())   # only empty collections exist as constants
            return Agg(c[2], tuple(self.const(st, x) for x in c[3]), t if t.k in ("enum", "struct") else None)
        if k == "l":
            return Lst(tuple(("e", self.const(st, x)) for x in c[2]))
        if k == "s":
            key = ("str", tuple(c[2]))
            if key not in st.heap:
                st.heap[key] = Lst(tuple(("e", b) for b in c[2]))
            return Ptr(key, (), (0, len(c[2])))
        if k == "r":
            v = self.const(st, c[2])
            key = ("const", repr(c[2]))
            if key not in st.heap:
                st.heap[key] = v
            if isinstance(v, Lst) and c[2][0] == "l" and self.P.ty(c[2][1]).k == "slice":
                return Ptr(key, (), (0, st.llen(v)))
            return Ptr(key)
        if k == "fp":
            return Fn(c[2])
        return Top("const %s %s" % (self.P.ty(c[1]).s, c[2:]))

    def zst(self, t):
        if t.k == "fndef":
            return Fn(t.inst)
        if t.k == "tuple":
            return Agg(0, tuple(self.zst(self.P.ty(x)) for x in t.ts))
        if t.k == "struct" and t.vs:
            return Agg(0, tuple(self.zst(self.P.ty(ft)) for _, ft in t.vs[0]["f"]), t)
        if t.k == "enum":
            return Agg(0, (), t)
        if t.k == "array":
            return Lst(())
        return UNIT

    def operand(self, st, fr, o):
        k = o[0]
        if k == "k":
            return self.const(st, o[1])
        if k == "rc":
            return 1 if o[1] == "OverflowChecks" else 0
        p = self.place(st, fr, o[1])
        v = self.read(st, p)
        return v

    # ---- arithmetic
    def wrap(self, st, v, t):
        """Reduce a mathematical integer to type t with wrap-around (forks when it straddles)."""
        lo, hi = ty_range(t)
        v = st.simp(v)
        if isinstance(v, int):
            m = hi - lo + 1
            return (v - lo) % m + lo
        l, h = st.rng(v)
        if l >= lo and h <= hi:
            return v
        m = hi - lo + 1
        ql, qh = (l - lo) // m, (h - lo) // m
        if ql == qh:
            return sub(v, ql * m)
        if lo == 0 and l >= 0:
            return mk_slice(v, 0, m.bit_length() - 1)
        if qh - ql <= 4:
            for q in range(ql, qh):
                # v < lo + (q+1)*m ?
                if st.lt(v, lo + (q + 1) * m):
                    return sub(v, q * m)
            return sub(v, qh * m)
        if lo == 0:
            return atom_of(("op", "wrap", v, m), lo, hi)
        return atom_of(("op", "swrap", v, m), lo, hi)

    def bitand(self, st, a, b, t):
        if isinstance(a, int) and isinstance(b, int):
            return a & b
        if isinstance(a, int):
            a, b = b, a
        if isinstance(b, int):
            if b < 0:
                b &= (1 << t.bits) - 1
            if st.rng(a)[0] < 0:
                return atom_of(("op", "and", a, b), 0, b)
            r, lo = 0, 0
            while (b >> lo):
                if (b >> lo) & 1:
                    n = 0
                    while (b >> (lo + n)) & 1:
                        n += 1
                    r = add(r, scale(mk_slice(a, lo, n), 1 << lo))
                    lo += n
                else:
                    lo += 1
            return st.simp(r)
        if a == b:
            return a
        return atom_of(("op", "and", a, b), 0, min(st.rng(a)[1], st.rng(b)[1]))

    def bitor(self, st, a, b, t, xor=False):
        if isinstance(a, int) and isinstance(b, int):
            return a ^ b if xor else a | b
        if a == 0:
            return b
        if b == 0:
            return a

        def low(v):
            if isinstance(v, int):
                k = 0
                while v and not (v >> k) & 1:
                    k += 1
                return k
            g = v.c
            ks = [low(k) for _, k in v.ts] + ([low(v.c)] if v.c else [])
            return min(ks)
        for x, y in ((a, b), (b, a)):
            l, h = st.rng(x)
            if l >= 0 and st.rng(y)[0] >= 0 and h < (1 << low(y)):
                return add(x, y)
        if xor and a == b:
            return 0
        if not xor and a == b:
            return a
        bits = max(st.rng(a)[1], st.rng(b)[1]).bit_length()
        ka, kb = (a, b) if repr(a) < repr(b) else (b, a)
        return atom_of(("op", "xor" if xor else "or", ka, kb), 0, (1 << bits) - 1)

    def binop(self, st, op, a, b, t):
        """t: type of the result (for compare: unused)."""
        a, b = st.force(a), st.force(b)
        if isinstance(a, Top) or isinstance(b, Top):
            return a if isinstance(a, Top) else b
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge", "Cmp"):
            if isinstance(a, (Ptr, Fn)) or isinstance(b, (Ptr, Fn)):
                if op == "Eq" and a == b:
                    return 1
                if op == "Ne" and a == b:
                    return 0
                return Top("pointer comparison")
            if isinstance(a, Agg) and isinstance(b, Agg) and a == b:
                return {"Eq": 1, "Ne": 0}.get(op, Top("cmp agg"))
            if not isinstance(a, (int, Lin)) or not isinstance(b, (int, Lin)):
                return Top("cmp of %r %r" % (a, b))
            if op == "Eq":
                return int(st.eq(a, b))
            if op == "Ne":
                return int(not st.eq(a, b))
            if op == "Lt":
                return int(st.lt(a, b))
            if op == "Le":
                return int(st.le(a, b))
            if op == "Gt":
                return int(st.lt(b, a))
            if op == "Ge":
                return int(st.le(b, a))
            # Ordering
            if st.lt(a, b):
                return Agg(0, (), t)
            return Agg(1, (), t) if st.eq(a, b) else Agg(2, (), t)
        if op == "Offset":
            return Top("ptr offset")
        if not isinstance(a, (int, Lin)) or not isinstance(b, (int, Lin)):
            return Top("arith on %r %r" % (a, b))
        if op.endswith("WithOverflow"):
            t0 = self.P.ty(t.ts[0])
            r = self.arith(st, op[:3], a, b)
            lo, hi = ty_range(t0)
            if st.lt(r, lo) or st.lt(hi, r):
                return Agg(0, (self.wrap(st, r, t0), 1))
            return Agg(0, (st.simp(r), 0))
        if op in ("Add", "Sub", "Mul", "AddUnchecked", "SubUnchecked", "MulUnchecked"):
            return self.wrap(st, self.arith(st, op[:3], a, b), t)
        if op in ("Shl", "ShlUnchecked"):
            b = st.simp(b)
            if not isinstance(b, int):
                b = self.concretize(st, b)
            if t.signed:
                return self.wrap(st, scale(a, 1 << (b % t.bits)), t)
            b %= t.bits
            l, h = st.rng(a)
            if h < (1 << (t.bits - b)):
                return scale(a, 1 << b)
            return scale(mk_slice(st.simp(a), 0, t.bits - b), 1 << b)
        if op in ("Shr", "ShrUnchecked"):
            b = st.simp(b)
            if not isinstance(b, int):
                b = self.concretize(st, b)
            b %= (t.bits or 8)
            if isinstance(a, int):
                return a >> b
            if st.rng(a)[0] >= 0:
                return st.simp(mk_slice(st.simp(a), b, t.bits - b))
            return atom_of(("op", "sar", a, b), st.rng(a)[0] >> b, st.rng(a)[1] >> b)
        if op == "BitAnd":
            return self.bitand(st, st.simp(a), st.simp(b), t)
        if op == "BitOr":
            return self.bitor(st, st.simp(a), st.simp(b), t)
        if op == "BitXor":
            if t.k == "int" and not t.signed and b == (1 << t.bits) - 1:
                return sub(b, a)
            return self.bitor(st, st.simp(a), st.simp(b), t, True)
        if op in ("Div", "Rem"):
            a, b = st.simp(a), st.simp(b)
            if isinstance(a, int) and isinstance(b, int) and b:
                q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                return q if op == "Div" else a - q * b
            if isinstance(b, int) and b > 0 and (b & (b - 1)) == 0 and st.rng(a)[0] >= 0:
                k = b.bit_length() - 1
                h = max(st.rng(a)[1].bit_length() - k, 1)
                return st.simp(mk_slice(a, k, h) if op == "Div" else mk_slice(a, 0, k))
            if op == "Rem":
                m = max(abs(x) for x in st.rng(b))
                return atom_of(("op", "rem", a, b), -m if st.rng(a)[0] < 0 else 0, m)
            m = max(abs(x) for x in st.rng(a))
            return atom_of(("op", "div", a, b), -m if (st.rng(a)[0] < 0 or st.rng(b)[0] < 0) else 0, m)
        return Top("binop " + op)

    def concretize(self, st, v):
        l, h = st.rng(v)
        if h - l > 130:
            raise Undecided("symbolic shift")
        for x in range(l, h):
            if st.eq(v, x):
                return x
        return h

    def arith(self, st, op, a, b):
        a, b = st.simp(a), st.simp(b)
        if op == "Add":
            return add(a, b)
        if op == "Sub":
            return sub(a, b)
        if isinstance(a, int):
            return scale(b, a)
        if isinstance(b, int):
            return scale(a, b)
        ka, kb = (a, b) if repr(a) < repr(b) else (b, a)
        la, ha = st.rng(a)
        lb, hb = st.rng(b)
        c = [la * lb, la * hb, ha * lb, ha * hb]
        return atom_of(("op", "mul", ka, kb), min(c), max(c))

    def cast_int(self, st, v, t):
        v = st.force(v)
        if isinstance(v, (int, Lin)):
            return self.wrap(st, v, t)
        if isinstance(v, Agg) and v.ty is not None and v.ty.k == "enum":
            return self.wrap(st, v.ty.vs[v.v]["d"], t)
        return Top("int cast of %r" % (v,))

    # ---- rvalues
    def rvalue(self, st, fr, r, t):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, r[1])
        if k == "ref":
            return self.place(st, fr, r[2])
        if k == "addr":
            return self.place(st, fr, r[1])
        if k == "bin":
            a, b = self.operand(st, fr, r[2]), self.operand(st, fr, r[3])
            if r[1] in WIDTHOPS:
                self.note_width(st, fr, r[1], a, b, t)
            return self.binop(st, r[1], a, b, t)
        if k == "un":
            v = st.force(self.operand(st, fr, r[2]))
            if isinstance(v, Top):
                return v
            if r[1] == "Not":
                if t.k == "bool":
                    return sub(1, v)
                if t.signed:
                    return sub(-1, v)
                return sub((1 << t.bits) - 1, v)
            if r[1] == "Neg":
                return self.wrap(st, scale(v, -1), t)
            if r[1] == "PtrMetadata":
                while isinstance(v, Agg):
                    v = v.f[0]
                return v.m[1] if isinstance(v, Ptr) and v.m is not None else UNIT
            return Top("unop")
        if k == "discr":
            v = st.resolve(self.read(st, self.place(st, fr, r[1])))
            if isinstance(v, Sym) and v not in st.binds and v.ty.k == "enum" and len(st.cands(v)) > 2:
                return Dsc(v)
            v = st.force(v)
            if isinstance(v, Agg):
                if v.ty is not None and v.ty.k == "enum":
                    return v.ty.vs[v.v]["d"]
                return v.v
            if isinstance(v, Top):
                return v
            if isinstance(v, (int, Lin)):
                return v
            return Top("discriminant of %r" % (v,))
        if k == "agg":
            if r[1] == "union":
                return self.operand(st, fr, r[3][0])
            fs = tuple(self.operand(st, fr, o) for o in r[3])
            if r[1] == "array":
                return Lst(tuple(("e", x) for x in fs))
            if r[1] == "adt":
                if t.k == "struct" and t.path in LISTLIKE:
                    for x in fs:
                        if isinstance(x, Lst):
                            return x
                if t.k == "struct" and (t.box or t.path in ("core::ptr::non_null::NonNull", "core::ptr::unique::Unique")):
                    return fs[0]
                return Agg(r[2], fs, t)
            if r[1] == "tuple" or r[1] == "closure":
                return Agg(0, fs, t if r[1] == "closure" else None)
            if r[1] == "rawptr":
                p, m = fs
                if isinstance(p, Ptr):
                    if isinstance(m, (int, Lin)):
                        return Ptr(p.a, p.p, (p.m[0] if p.m else 0, m))
                    return p
                return Top("rawptr agg")
            return Top("aggregate")
        if k == "cast":
            v = self.operand(st, fr, r[2])
            ck = r[1]
            if ck == "IntToInt":
                if t.s in ("usize", "isize"):
                    self.note_cast(st, fr, v, t)
                return self.cast_int(st, v, t)
            if ck.startswith("PointerCoercion(Unsize"):
                v = st.force(v)
                while isinstance(v, Agg) and len(v.f) >= 1:
                    v = st.force(v.f[0])
                if isinstance(v, Ptr) and v.m is None:
                    tgt = self.P.ty(t.t) if t.t is not None else (self.P.ty(t.args[0]) if t.k == "struct" and t.args else None)
                    if tgt is not None and tgt.k == "dyn":
                        return v
                    c = st.force(self.read(st, v))
                    if isinstance(c, Lst):
                        return Ptr(v.a, v.p, (0, st.llen(c)))
                return v
            if ck.startswith("PointerCoercion"):
                v = st.force(v)
                if isinstance(v, Agg) and v.ty is not None and v.ty.k == "closure":
                    return Fn(v.ty.inst)
                return v
            if ck in ("PtrToPtr", "FnPtrToPtr", "Subtype"):
                v = st.force(v)
                if isinstance(v, Ptr) and v.m is not None:
                    tgt = self.P.ty(t.t) if t.t is not None else None
                    if tgt is not None and tgt.k not in ("slice", "str", "dyn"):
                        return Top("thin pointer to list")
                return v
            if ck in ("Transmute", "BoxDerefTransmute"):
                v = st.force(v)
                if t.k in ("ref", "ptr") or (t.k == "struct" and (t.box or "NonNull" in t.path or "Unique" in t.path)):
                    while isinstance(v, Agg) and len(v.f) >= 1:
                        v = st.force(v.f[0])
                    return v
                if isinstance(v, (int, Lin)) and is_int(t):
                    return self.wrap(st, v, t)
                if isinstance(v, (int, Lin)) and t.k == "struct" and t.vs and len(t.vs[0]["f"]) == 1:
                    return Agg(0, (v,), t)
                if isinstance(v, Agg) and is_int(t):
                    while isinstance(v, Agg) and len(v.f) == 1:
                        v = st.force(v.f[0])
                    if isinstance(v, (int, Lin)):
                        return v
                if isinstance(v, Lst) and t.k in ("array",):
                    return v
                if isinstance(v, (Lst, Nat)) and t.k in ("struct", "union"):
                    return v
                if isinstance(v, Agg) and t.k == "union":
                    return v
                return Top("transmute to %s" % t.s)
            return Top("cast " + ck)
        if k == "rep":
            v = self.operand(st, fr, r[1])
            n = r[2]
            if n is None or n > 65536:
                return Top("repeat")
            return Lst((("e", v),) * n)
        return Top("rvalue " + k)

    # ---- calls
    def note_cast(self, st, fr, v, t):
        """Records conversions to the pointer width of numbers that may need more than 32 bits."""
        v = st.force(v)
        lim = (1 << 32) - 1 if t.s == "usize" else (1 << 31) - 1
        if not isinstance(v, (int, Lin)) or fr.inst.krate not in REPO_CRATES + ("vh",):
            return
        where = "%s (%s)" % (fr.inst.dpath, fr.loc or fr.inst.loc)
        if isinstance(v, int):
            fits = 0 <= v <= lim
        else:
            L = self.inputL
            if self.castjob and not any(a.key[0] in ("len", "op") or a.key[0] == "sl" and not isinstance(a.key[1], int) and any(b.key[0] in ("len", "op") for b, _ in a.key[1].ts) for a, _ in v.ts):
                L = 0
            if L is None or where in self.badcasts:
                return
            fits = st.rng(v)[1] <= lim or st.q_le(v, L) is True
            if not fits:
                s = st.clone()
                try:
                    bad = s.assume(("le", sub(L, (1 << 31) - 1))) and s.assume(("gt", sub(v, lim)))
                except (Infeasible, Undecided, NeedFork):
                    bad = None
                if bad is False:
                    fits = True
                elif bad:
                    import judge
                    if judge.find_model(s, (v, L)) is not None:
                        self.badcasts[where] = judge.trace_of(s) + ["%r converted to %s" % (v, t.s)]
                        return
                    fits = None
                else:
                    fits = None
        c = self.casts.setdefault(where, [0, 0])
        c[0 if fits else 1] += 1

    def note_width(self, st, fr, op, a, b, t):
        """The same for sums, products and shifts computed in the pointer width."""
        if fr.inst.krate not in REPO_CRATES or self.inputL is None:
            return
        if t.k == "tuple":
            t = self.P.ty(t.ts[0])
        if t.s not in ("usize", "isize"):
            return
        a, b = st.simp(st.force(a)), st.simp(st.force(b))
        lim = (1 << 32) - 1 if t.s == "usize" else (1 << 31) - 1
        if op[:3] == "Shl":
            if not isinstance(b, int) or not isinstance(a, Lin):
                return
            v = scale(a, 1 << (b % 64))
        elif op[:3] == "Mul":
            if isinstance(a, int) == isinstance(b, int) or not isinstance(a, (int, Lin)) or not isinstance(b, (int, Lin)):
                return
            v = scale(a, b) if isinstance(b, int) else scale(b, a)
        else:
            if not isinstance(a, (int, Lin)) or not isinstance(b, (int, Lin)):
                return
            v = add(a, b)
        if isinstance(v, Lin):
            self.note_cast(st, fr, v, t)

    def callee_where(self, st):
        for f in reversed(st.frames):
            if f.inst.krate in REPO_CRATES:
                return "%s (%s)" % (f.inst.dpath, f.loc or f.inst.loc)
        for f in reversed(st.frames):
            if f.inst.krate == "vh":
                return "%s (%s)" % (f.inst.dpath, f.loc or f.inst.loc)
        return "?"

    def chain(self, st):
        return [f.inst.dpath for f in st.frames]

    def push(self, st, inst, args, dest, ret):
        I = self.P.inst(inst) if isinstance(inst, int) else inst
        body = self.P.body(I.id)
        if body is None:
            raise Undecided("no MIR for %s" % I.path)
        if len(st.frames) > 120:
            raise Undecided("call depth")
        self.stats["fns"].add(I.dpath)
        f = Frame()
        st.ctr += 1
        f.fid = ("F", st.ctr)
        f.inst, f.body, f.bb, f.si, f.dest, f.ret, f.visits, f.loc, f.post, f.widened, f.hist = I, body, 0, 0, dest, ret, {}, None, None, {}, {}
        f.entry = [contracts.snapshot(self, st, a) for a in args] if I.krate in REPO_CRATES else None
        for i, a in enumerate(args):
            st.hset((f.fid, i + 1), a)
        st.frames.append(f)
        return f

    def do_call(self, st, I, args, dest, ret, atys, dt):
        """Perform a resolved call. Either writes the result and continues at ret or pushes a frame."""
        self.stats["calls"] += 1
        if I.ik == "shim:closureonce":
            clo = st.force(args[0])
            ct = self.P.ty(atys[0]) if atys else None
            if ct is None or ct.k != "closure":
                ct = clo.ty
            p = Ptr(st.alloc(clo))
            tup = st.force(args[1])
            return self.push(st, ct.inst, [p] + list(tup.f), dest, ret)
        if I.ik == "shim:fnptr" or (I.name in ("call_once", "call_mut", "call") and I.k in ("timpl", "tdef") and I.ik != "item"):
            f = args[0]
            while isinstance(f, Ptr):
                f = self.read(st, f)
            f = st.force(f)
            if isinstance(f, Agg) and f.ty is not None and f.ty.k == "closure":
                return self.call_value(st, f, args[1], dest, ret)
            if isinstance(f, Fn):
                tup = st.force(args[1])
                return self.do_call(st, self.P.inst(f.inst), list(tup.f), dest, ret, None, dt)
            raise Undecided("call through %r" % (f,))
        if I.k == "closure" and I.ik == "item":
            # rust-call ABI: (closure, tuple)
            if len(args) == 2 and len(self.P.body(I.id).locals) > 1:
                b = self.P.body(I.id)
                tup = st.force(args[1])
                if b.spread is None and isinstance(tup, Agg):
                    args = [args[0]] + list(tup.f)
            return self.push(st, I, args, dest, ret)
        try:
            r = self.N.dispatch(self, st, I, args, atys, dt)
        except CallInst as c:
            return self.push(st, c.inst, c.args, dest, ret)
        if r is not self.N.NOTNATIVE:
            if r is self.N.PUSHED:
                f = st.frames[-1]
                f.dest, f.ret = dest, ret
                return
            self.stats["natives"].add(I.path)
            self.finish(st, r, dest, ret)
            return
        if I.krate not in STD and (I.id in self.entry_insts or any(f.inst.id == I.id for f in st.frames)):
            r = contracts.contract(self, st, I, args)
            if I.id in self.entry_insts:
                st.event("entry", I.id, tuple(contracts.snapshot(self, st, a) for a in args))
            if r is not None:
                self.finish(st, r, dest, ret)
                return
        if I.ik == "virtual" or not I.body:
            return self.unmodelled(st, I, args, dest, ret)
        if I.krate in ("core", "alloc", "std") and self.N.opaque_std(I):
            return self.unmodelled(st, I, args, dest, ret)
        self.push(st, I, args, dest, ret)

    def call_value(self, st, f, tup, dest, ret):
        ct = f.ty
        body = self.P.body(ct.inst)
        tup = st.force(tup)
        self_t = self.P.ty(body.locals[1])
        a0 = Ptr(st.alloc(f)) if self_t.k == "ref" else f
        return self.push(st, ct.inst, [a0] + list(tup.f), dest, ret)

    def unmodelled(self, st, I, args, dest, ret):
        k = I.path
        self.stats["unmodelled"][k] = self.stats["unmodelled"].get(k, 0) + 1
        raise Undecided("unmodelled call %s [%s]" % (I.path, I.head or ""))

    def finish(self, st, v, dest, ret):
        if ret is None:
            raise Undecided("call without return target")
        self.write(st, dest, v)
        fr = st.frames[-1]
        self.goto(st, fr, ret)

    def goto(self, st, fr, bb):
        fr.bb, fr.si = bb, 0
        if bb in fr.body.loop_heads():
            self.loop_head(st, fr, bb)

    def measure(self, st):
        return (len(st.bnd), len(st.ne), len(st.picks), len(st.binds), len(st.rel), sum(len(x) for x in st.excl.values()))

    def loop_head(self, st, fr, bb):
        v = fr.visits.get(bb)
        m = self.forks_seen(st)
        if v is None:
            fr.visits[bb] = (0, m, 0)
            st.pending = self.resume is not None
            return
        n, m0, tot = v
        if m != m0:
            n += 1
        fr.visits[bb] = (n, m, tot + 1)
        if tot > 2000:
            raise Undecided("loop bound in %s" % fr.inst.path)
        if self.resume is not None:
            st.pending = True
        if n > self.max_unroll:
            raise Undecided("loop not summarised in %s" % fr.inst.path)

    def forks_seen(self, st):
        return st.trace[0] if st.trace else 0

    # ---- stepping
    def step(self, st):
        fr = st.frames[-1]
        stmts, term = fr.body.blocks[fr.bb]
        st.mark = (st.ctr, st.events)
        while fr.si < len(stmts):
            s = stmts[fr.si]
            self.stats["stmts"] += 1
            st.nsteps += 1
            if s[0] == "=":
                fr.loc = s[4]
                t = self.P.ty(s[3])
                v = self.rvalue(st, fr, s[2], t)
                pl = s[1]
                if not pl[1]:
                    st.hset((fr.fid, pl[0]), v)
                else:
                    self.write(st, self.place(st, fr, pl), v)
            elif s[0] == "sd":
                p = self.place(st, fr, s[1])
                t = self.P.ty(s[3])
                try:
                    old = self.read(st, p)
                except Undecided:
                    old = None
                self.write(st, p, Agg(s[2], old.f if isinstance(old, Agg) else (), t))
            else:
                raise Undecided("stmt %s" % s[0])
            fr.si += 1
            st.log.clear()
            st.mark = (st.ctr, st.events)
        if fr.inst.krate in REPO_CRATES and fr.loc:
            st.lastloc = "%s (%s)" % (fr.inst.dpath, fr.loc)
        self.stats["stmts"] += 1
        st.nsteps += 1
        if st.nsteps > self.max_steps:
            raise Undecided("step limit")
        return self.terminator(st, fr, term)

    def terminator(self, st, fr, t):
        k = t[0]
        if k == "goto":
            self.goto(st, fr, t[1])
        elif k == "switch":
            fr.loc = t[5]
            v = self.operand(st, fr, t[1])
            ty = self.P.ty(t[4])
            if isinstance(v, Dsc):
                b = self.switch_variant(st, v, t)
                if b is not None:
                    return self.goto(st, fr, b)
            v = st.force(v)
            if isinstance(v, Agg):
                v = v.ty.vs[v.v]["d"] if v.ty is not None and v.ty.k == "enum" else v.v
            if isinstance(v, Top):
                raise Undecided("branch on " + v.why)
            v = st.simp(v)
            conv = (lambda x: x)
            if ty.k == "int" and ty.signed:
                half, full = 1 << (ty.bits - 1), 1 << ty.bits
                conv = (lambda x: x - full if x >= half else x)
            if isinstance(v, int):
                for val, b in t[2]:
                    if conv(val) == v:
                        return self.goto(st, fr, b)
                return self.goto(st, fr, t[3])
            for val, b in t[2]:
                if st.eq(v, conv(val)):
                    return self.goto(st, fr, b)
            return self.goto(st, fr, t[3])
        elif k == "ret":
            v = st.heap.get((fr.fid, 0), UNIT)
            if len(st.frames) == 1:
                st.frames.pop()
                return ("ret", v)
            keep = fr.fid
            self.write(st, fr.dest, v)
            st.frames.pop()
            if not self.escapes(st, keep):
                for i in range(len(fr.body.locals)):
                    kk = (keep, i)
                    if kk in st.heap:
                        st.log.append((kk, st.heap[kk]))
                        del st.heap[kk]
            self.goto(st, st.frames[-1], fr.ret)
        elif k == "call":
            fr.loc = t[5]
            args = [self.operand(st, fr, a) for a in t[2]]
            dest = self.place(st, fr, t[3]) if t[4] is not None else None
            dt = self.P.ty(t[6])
            if isinstance(t[1], int):
                I = self.P.inst(t[1])
                self.do_call(st, I, args, dest, t[4], t[7], dt)
            elif t[1][0] == "dyn":
                f = st.force(self.operand(st, fr, t[1][1]))
                if isinstance(f, Fn):
                    self.do_call(st, self.P.inst(f.inst), args, dest, t[4], t[7], dt)
                else:
                    raise Undecided("indirect call")
            else:
                raise Undecided("unresolved call %s" % t[1][1])
        elif k == "assert":
            fr.loc = t[6]
            if t[4] == "ub":   # alignment/null checks on references the compiler made itself
                return self.goto(st, fr, t[3])
            c = st.force(self.operand(st, fr, t[1]))
            if isinstance(c, Top):
                raise Undecided("assert on " + c.why)
            ok = st.eq(c, 1 if t[2] else 0)
            if ok:
                self.goto(st, fr, t[3])
            elif t[4] == "ub":
                self.goto(st, fr, t[3])
            else:
                raise Panic("%s: %s" % (t[4], t[5][:80]))
        elif k == "drop":
            self.goto(st, fr, t[2])
        elif k == "unreach":
            raise Infeasible()
        else:
            raise Undecided("terminator %s" % k)
        return None

    def switch_variant(self, st, d, t):
        """Target block of a match on an unsplit enum symbol: one partition per named variant, one for the others."""
        s = st.resolve(d.sym)
        if not isinstance(s, Sym) or s in st.binds:
            return None
        cand = st.cands(s)
        bydisc = {}
        for i in cand:
            bydisc[s.ty.vs[i]["d"]] = i
        mask = (1 << self.P.ty(t[4]).bits) - 1
        hits = []
        for val, b in t[2]:
            for dv, i in bydisc.items():
                if dv & mask == val & mask:
                    hits.append((i, b))
        rest = [i for i in cand if i not in [h[0] for h in hits]]
        if len(cand) <= 1:
            return None
        if not hits:
            return t[3]
        raise NeedFork([("var", s, i) for i, _ in hits] + ([("nvar", s, tuple(h[0] for h in hits))] if rest else []))

    def escapes(self, st, fid):
        return False

    def run(self, st, limit=None):
        """Explore all partitions from st; yields Outcomes."""
        work = [st]
        out = []
        while work:
            st = work.pop()
            if len(out) + len(work) > (limit or self.max_paths):
                out.append(Outcome("undecided", st, why="path limit"))
                break
            if self.deadline is not None and time.monotonic() > self.deadline:
                out.append(Outcome("undecided", st, why="time limit"))
                break
            while True:
                nfr = len(st.frames)
                fr = st.frames[-1]
                try:
                    st.log.clear()
                    if st.pending:
                        st.mark = (st.ctr, st.events)
                        widen.arrive(self, st, fr)
                        st.pending = False
                    r = self.step(st)
                    if r is not None:
                        out.append(Outcome("ret", st, val=r[1]))
                        break
                except NeedFork as nf:
                    # undo the partially executed instruction, then split
                    st.rollback(0, *st.mark)
                    del st.frames[nfr:]
                    n = (st.trace[0] if st.trace else 0) + 1
                    succ = []
                    for alt in nf.alts:
                        s2 = st.clone()
                        s2.trace = (n, st.trace, alt, fr.loc)
                        try:
                            if s2.assume(alt):
                                succ.append(s2)
                        except Infeasible:
                            pass
                    work.extend(reversed(succ))
                    break
                except Infeasible:
                    break
                except Panic as p:
                    out.append(Outcome("panic", st, why=p.why, where=self.callee_where(st)))
                    break
                except Undecided as u:
                    out.append(Outcome("undecided", st, why=str(u), where=self.callee_where(st)))
                    break
                except widen.Pruned:
                    out.append(Outcome("pruned", st))
                    break
        self.stats["paths"] += len(out)
        return out

    def start(self, root, args, tys=()):
        st = State(self)
        r = self.P.root(root, tys)
        if r is None:
            raise KeyError("root %s missing" % root)
        self.push(st, r, args, None, None)
        return st

    def root_args(self, root, names, tys=()):
        """Symbolic arguments for a root, by its signature."""
        r = self.P.root(root, tys)
        sig = self.P.sig(r)
        return [Sym(("in", n), self.P.ty(t)) for n, t in zip(names, sig["in"])]

