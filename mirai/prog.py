"""Client of the mirserve driver: the resolved, monomorphised program of the current tree."""
import json, os, subprocess, threading
from multiprocessing import Lock


class Ty:
    __slots__ = ("id", "s", "k", "bits", "signed", "t", "mut", "ts", "n", "path", "args", "box", "vs", "dt", "inst", "ups", "ck", "size", "head")

    def __init__(self, d):
        for a in self.__slots__:
            setattr(self, a, d.get(a))

    def __repr__(self):
        return self.s


class Inst:
    __slots__ = ("id", "ik", "body", "local", "name", "dpath", "krate", "loc", "gargs", "k", "path", "self", "head", "targs", "shimty")

    def __init__(self, d):
        for a in self.__slots__:
            setattr(self, a, d.get(a))

    def __repr__(self):
        return "%s#%d" % (self.path, self.id)


class Body:
    __slots__ = ("argc", "locals", "spread", "blocks", "heads", "err", "live")

    def __init__(self, d):
        self.argc = d["argc"]
        self.locals = d["locals"]
        self.spread = d["spread"]
        self.blocks = [(b["s"], b["t"]) for b in d["blocks"]]
        self.heads = self.live = None

    def succs(self, b):
        t = self.blocks[b][1]
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [x[1] for x in t[2]] + [t[3]]
        if k == "drop":
            return [t[2]]
        if k == "assert":
            return [t[3]]
        if k == "call":
            return [] if t[4] is None else [t[4]]
        return []

    def loop_heads(self):
        if self.heads is None:
            heads, color = set(), {}
            stack = [(0, iter(self.succs(0)))]
            color[0] = 1
            while stack:
                b, it = stack[-1]
                for s in it:
                    c = color.get(s, 0)
                    if c == 1:
                        heads.add(s)
                    elif c == 0:
                        color[s] = 1
                        stack.append((s, iter(self.succs(s))))
                        break
                else:
                    color[b] = 2
                    stack.pop()
            self.heads = heads
        return self.heads

    def live_in(self, bb):
        """Locals that may be read before they are overwritten when control is at the start of bb."""
        if self.live is None:
            n = len(self.blocks)
            use, kill = [], []
            for ss, t in self.blocks:
                u, d = set(), set()
                for s in ss:
                    if s[0] == "=":
                        reads(s[2], u, d)
                        write(s[1], u, d)
                    else:
                        place(s[1], u, d)
                if t[0] == "ret":
                    if 0 not in d:
                        u.add(0)
                elif t[0] == "switch":
                    reads(t[1], u, d)
                elif t[0] == "call":
                    reads(t[1], u, d)
                    reads(t[2], u, d)
                    write(t[3], u, d)
                elif t[0] == "assert":
                    reads(t[1], u, d)
                use.append(u)
                kill.append(d)
            live = [set(u) for u in use]
            changed = True
            while changed:
                changed = False
                for b in range(n - 1, -1, -1):
                    x = set()
                    for s in self.succs(b):
                        x |= live[s]
                    x = (x - kill[b]) | use[b]
                    if x != live[b]:
                        live[b], changed = x, True
            self.live = live
        return self.live[bb]


def place(p, u, d):
    if p[0] not in d:
        u.add(p[0])
    for e in p[1]:
        if e != "*" and e[0] == "x" and e[1] not in d:
            u.add(e[1])


def write(p, u, d):
    if p[1]:
        place(p, u, d)
    else:
        d.add(p[0])


def reads(x, u, d):
    """Places read by an operand, an rvalue or a list of them."""
    if not isinstance(x, list) or not x:
        return
    if x[0] in ("mv", "cp", "addr", "discr", "len"):
        place(x[1], u, d)
    elif x[0] == "ref":
        place(x[2], u, d)
    elif x[0] in ("k", "rc"):
        return
    else:
        for y in x:
            reads(y, u, d)


class Prog:
    def __init__(self, recorded, driver, libdir):
        rec = self.rec = json.load(open(recorded))
        self.libdir = libdir
        env = dict(os.environ)
        env.update(rec["env"])
        env["LD_LIBRARY_PATH"] = libdir
        env.pop("MIRSERVE_RECORD", None)
        args, skip = [], False
        for a in rec["args"]:
            if a.startswith("--error-format") or a.startswith("--json"):
                continue
            if a.startswith("incremental="):
                args.pop()
                continue
            args.append(a)
        self.p = subprocess.Popen([driver] + args, cwd=rec["cwd"], env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, bufsize=0)
        self.lock = Lock()
        self.buf = b""
        line = self._readline()
        if line.strip() != b"READY":
            raise RuntimeError("driver did not start: %r" % line[:200])
        self.tys, self.insts, self.bodies = {}, {}, {}
        self._sig, self._root, self._misc = {}, {}, {}

    def _readline(self):
        fd = self.p.stdout.fileno()
        chunks = []
        while True:
            c = os.read(fd, 1 << 20)
            if not c:
                raise RuntimeError("driver died")
            chunks.append(c)
            if c.endswith(b"\n"):
                return b"".join(chunks)

    def ask(self, *a):
        with self.lock:
            self.p.stdin.write(("\t".join(str(x) for x in a) + "\n").encode())
            return json.loads(self._readline())

    def ty(self, i):
        t = self.tys.get(i)
        if t is None:
            t = self.tys[i] = Ty(self.ask("ty", i))
        return t

    def inst(self, i):
        t = self.insts.get(i)
        if t is None:
            t = self.insts[i] = Inst(self.ask("inst", i))
        return t

    def body(self, i):
        b = self.bodies.get(i)
        if b is None:
            d = self.ask("body", i)
            b = self.bodies[i] = (None if "err" in d else Body(d))
        return b

    def sig(self, i):
        s = self._sig.get(i)
        if s is None:
            s = self._sig[i] = self.ask("sig", i)
        return s

    def root(self, path, tys=()):
        k = (path, tuple(tys))
        if k not in self._root:
            self._root[k] = self.ask("root", path, ",".join(map(str, tys)))
        return self._root[k]

    def misc(self, *a):
        if a not in self._misc:
            self._misc[a] = self.ask(*a)
        return self._misc[a]

    def close(self):
        try:
            self.p.stdin.write(b"quit\n")
            self.p.stdin.close()
            self.p.wait(timeout=5)
        except Exception:
            self.p.kill()
