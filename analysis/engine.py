"""A path-partitioned abstract interpreter for the exported MIR.

Integers live in a difference-bound (zone) domain, structures are tracked by shape (one abstract
state per combination of discriminants), loops are solved by join/widening at their heads, and
recursive functions by summaries computed to a fixpoint from bottom.  No program input is ever
chosen and no path is handed to a solver.
"""
import heapq
import time

INF = None
DEADLINE = time.monotonic() + 480


class Undecided(Exception):
    pass


class Infeasible(Exception):
    pass


# ---------------------------------------------------------------- zone
class Zone:
    __slots__ = ("e", "_d")

    def __init__(self, e=None):
        self.e = e if e is not None else {}
        self._d = {}

    def dist(self, u):
        d = self._d.get(u)
        if d is not None:
            return d
        d = {u: 0}
        wl = [u]
        e = self.e
        while wl:
            x = wl.pop(0)
            dx = d[x]
            for v, c in e.get(x, {}).items():
                n = dx + c
                o = d.get(v)
                if o is None or n < o:
                    d[v] = n
                    if v not in wl:
                        wl.append(v)
        self._d[u] = d
        return d

    def ub(self, u, v):
        """least c with u - v <= c, or None"""
        if u == v:
            return 0
        return self.dist(u).get(v)

    def add(self, u, v, c):
        if u == v:
            return self if c >= 0 else None
        o = self.ub(u, v)
        if o is not None and o <= c:
            return self
        b = self.ub(v, u)
        if b is not None and b + c < 0:
            return None
        e = dict(self.e)
        m = dict(e.get(u, {}))
        m[v] = c
        e[u] = m
        return Zone(e)


# ---------------------------------------------------------------- values
def I(s, c=0):
    return ("i", s, c)


def K(c):
    return ("i", 0, c)


TRUE = ("b", 1)
FALSE = ("b", 0)


def B(x):
    return TRUE if x else FALSE


UNIT = ("a", 0, 0, ())
UNK = ("?",)


def shift(l, d):
    return ("i", l[1], l[2] + d)


def syms_of(v, acc):
    if v[0] == "i":
        acc.add(v[1])
        return
    for x in v:
        if isinstance(x, tuple) and x:
            syms_of(x, acc)


def rename(v, f):
    """apply f to every linear value inside v"""
    if not v:
        return v
    if v[0] == "i" and len(v) == 3:
        return f(v)
    ch = False
    out = []
    for x in v:
        if isinstance(x, tuple) and x:
            y = rename(x, f)
            if y is not x:
                ch = True
            out.append(y)
        else:
            out.append(x)
    return tuple(out) if ch else v


def shape(v):
    t = v[0] if v else None
    if t == "i" and len(v) == 3:
        return "i"
    if t == "ch":
        return "ch"
    return tuple(shape(x) if isinstance(x, tuple) and x else x for x in v)


def shape_in(v, leaf):
    t = v[0] if v else None
    if t == "i" and len(v) == 3:
        return leaf.get(v[1], "i")
    if t == "ch":
        return "ch"
    return tuple(shape_in(x, leaf) if isinstance(x, tuple) and x else x for x in v)


class State:
    __slots__ = ("mem", "z", "mask", "tokf", "tokr", "bf", "facts", "taint", "flip", "cross", "cov", "diff")

    def __init__(self):
        self.mem = {}
        self.z = Zone()
        self.mask = {}
        self.tokf = {}
        self.tokr = {}
        self.bf = {}
        self.facts = frozenset()
        self.taint = frozenset()
        self.flip = 0
        self.cross = 0
        self.cov = None
        self.diff = {}          # symbol -> (a, b): it is a - b

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.z = self.z
        s.mask = dict(self.mask)
        s.tokf = dict(self.tokf)
        s.tokr = dict(self.tokr)
        s.bf = dict(self.bf)
        s.facts = self.facts
        s.taint = self.taint
        s.flip = self.flip
        s.cross = self.cross
        s.cov = self.cov
        s.diff = dict(self.diff)
        return s

    # -- integers
    def ubl(self, a, b):
        """least c with a - b <= c"""
        u = self.z.ub(a[1], b[1])
        if u is None:
            return None
        return u + a[2] - b[2]

    def le(self, a, b, d=0):
        u = self.ubl(a, b)
        return u is not None and u <= d

    def eq(self, a, b):
        return a == b or (self.le(a, b) and self.le(b, a))

    def lt(self, a, b):
        return self.le(a, b, -1)

    def const(self, a):
        if a[1] == 0:
            return a[2]
        u = self.ubl(a, K(0))
        if u is None:
            return None
        l = self.ubl(K(0), a)
        if l is not None and l == -u:
            return u
        return None


class Engine:
    unroll = False               # loops with constant bounds are followed step by step, nothing is joined
    delay = 3                    # joins at a loop head before widening

    def __init__(self, prog, client=None):
        self.p = prog
        self.nsym = 0
        self.client = client
        self.models = {}
        self.stack = []          # bodies on the (abstract) call stack
        self.callpos = []
        self.findings = {}
        self.stats = {"bodies": set(), "instances": set(), "states": 0, "joins": 0, "calls": 0, "panic_sites": set(),
                      "obligations": set(), "unmodelled": {}, "loops": set(), "blocks": set()}
        self.summaries = {}
        self.insum = []
        self.maxdepth = 60
        self.maxpart = 400
        self.nonneg = set()
        self.deadline = DEADLINE
        import models
        self.nsym = 10
        self.promdepth = {}
        models.install(self)

    # ------------------------------------------------ symbols
    def sym(self, st, nonneg=True):
        self.nsym += 1
        s = self.nsym
        if nonneg:
            st.z = st.z.add(0, s, 0)
        return I(s, 0)

    # ------------------------------------------------ findings
    def where(self):
        for b in reversed(self.stack):
            if b.local:
                return b
        return self.stack[-1] if self.stack else None

    def fnname(self):
        b = self.where()
        return (b.parent or b.path) if b else "?"

    def report(self, prop, st, what, key=None, span=None):
        fn = self.fnname()
        k = (prop, key or what, fn)
        t = bool(st.taint) if st is not None else False
        chain = " <- ".join(b.path for b in reversed(self.stack) if b.local)
        if st is not None and self.dbg and self.dbg in repr(k):
            self.dump(st, k)
        old = self.findings.get(k)
        if old is None or (old["tainted"] and not t):
            self.findings[k] = dict(prop=prop, what=what, key=key or what, fn=fn, span=span or self.curspan, tainted=t,
                                    taint=sorted(st.taint) if st is not None else [], chain=chain)

    def taint(self, st, why):
        st.taint = st.taint | {why}
        self.stats["unmodelled"][why] = self.stats["unmodelled"].get(why, 0) + 1

    def giveup(self, fn, e):
        self.stats["unmodelled"]["gave up in %s: %s" % (fn, e)] = 1
        import os, traceback
        if os.environ.get("DBG"):
            traceback.print_exc()

    # ------------------------------------------------ types
    def T(self, i):
        return self.p.types[i]

    def lazy(self, ty):
        t = self.p.types[ty]
        if t["k"] == "tuple" or (t["k"] == "struct" and "vs" in t and not t["vs"][0]["f"] and t.get("local")):
            if t["k"] == "tuple":
                return ("a", ty, 0, tuple(self.lazy(x) for x in t["fs"]))
            return ("a", ty, 0, ())
        if t["k"] == "fndef":
            return ("fn", t.get("inst"), ty)
        return ("L", ty)

    def fieldty(self, ty, variant, i):
        t = self.p.types[ty]
        k = t["k"]
        if k == "tuple":
            return t["fs"][i]
        if k == "closure":
            return t["up"][i]
        return t["vs"][variant]["f"][i][1]

    def expand(self, ty, variant):
        t = self.p.types[ty]
        k = t["k"]
        if k == "tuple":
            fs = t["fs"]
        elif k == "closure":
            fs = t["up"]
        elif "vs" in t:
            fs = [f[1] for f in t["vs"][variant]["f"]]
        else:
            return None
        return ("a", ty, variant, tuple(self.lazy(f) for f in fs))

    # ------------------------------------------------ memory
    def child(self, st, v, e):
        k = e[0]
        t = v[0]
        if t == "a":
            if k == "f":
                return v[3][e[1]] if e[1] < len(v[3]) else UNK
            if k == "v":
                return v if v[2] == e[1] else UNK
            if k == "ix":
                c = st.const(e[1])
                if c is not None and 0 <= c < len(v[3]):
                    return v[3][c]
                return UNK
        elif t == "L":
            ty = self.p.types[v[1]]
            if k == "f":
                if ty["k"] in ("struct", "tuple", "closure"):
                    x = self.expand(v[1], 0)
                    return x[3][e[1]] if x else UNK
                return UNK
            if k == "v":
                return self.expand(v[1], e[1]) or UNK
            return UNK
        elif k == "t":
            return v[e[1]] if e[1] < len(v) else UNK
        elif self.client is not None:
            return self.client.child(self, st, v, e)
        return UNK

    def load(self, st, obj, path):
        v = st.mem.get(obj, UNK)
        for i, e in enumerate(path):
            v = self.child(st, v, e)
        if v[0] == "L":
            v = self.concretize(st, obj, path, v)
        return v

    def concretize(self, st, obj, path, v):
        t = self.p.types[v[1]]
        k = t["k"]
        if k in ("int", "uint"):
            n = self.sym(st, nonneg=(k == "uint"))
            self.store(st, obj, path, n, hook=False)
            return n
        if k == "struct" and "vs" in t and t.get("local"):
            pass
        return v

    def setpath(self, st, v, path, new):
        if not path:
            return new
        e = path[0]
        k = e[0]
        if v[0] == "L":
            ty = self.p.types[v[1]]
            variant = e[1] if k == "v" else 0
            x = self.expand(v[1], variant)
            if x is None:
                return UNK
            v = x
        if v[0] == "a":
            if k == "v":
                if v[2] != e[1]:
                    v = self.expand(v[1], e[1]) or v
                return self.setpath(st, v, path[1:], new)
            i = e[1]
            if k == "ix":
                i = st.const(e[1])
                if i is None:
                    return ("a", v[1], v[2], tuple(UNK for _ in v[3]))
            fs = list(v[3])
            if i >= len(fs):
                return v
            fs[i] = self.setpath(st, fs[i], path[1:], new)
            return ("a", v[1], v[2], tuple(fs))
        if k == "t":
            l = list(v)
            l[e[1]] = self.setpath(st, l[e[1]], path[1:], new)
            return tuple(l)
        if self.client is not None:
            return self.client.setpath(self, st, v, path, new)
        return UNK

    def store(self, st, obj, path, val, hook=True):
        if hook and self.client is not None:
            if self.client.pre_store(self, st, obj, path, val):
                return
        if not path:
            st.mem[obj] = val
        else:
            base = st.mem.get(obj)
            if base is None:
                base = UNK
            st.mem[obj] = self.setpath(st, base, path, val)

    # place -> (obj, path) or None
    def place(self, st, depth, pl):
        obj = (depth, pl[0])
        path = ()
        b = self.stack[-1]
        ty = b.locals[pl[0]]
        for e in pl[1]:
            k = e[0]
            if k == "d":
                v = self.load(st, obj, path)
                if v[0] == "r":
                    obj, path = v[1], v[2]
                elif v[0] == "sl":
                    obj, path = v[1], v[2] + (("sub", v[3], v[4]),)
                elif v[0] in ("s", "cb"):
                    # a str reference dereferenced: keep the reference itself
                    path = path + (("str",),)
                elif v[0] == "L" and self.p.types[v[1]]["k"] in ("ref", "ptr"):
                    inner = self.p.types[v[1]]["t"]
                    ik = self.p.types[inner]["k"]
                    if ik == "str":
                        path = path + (("str",),)
                    else:
                        tgt = ("lz", obj, path)
                        if tgt not in st.mem:
                            st.mem[tgt] = self.lazy(inner)
                        nv = ("r", tgt, ())
                        self.store(st, obj, path, nv, hook=False)
                        obj, path = tgt, ()
                else:
                    return None
            elif k == "f":
                path = path + (("f", e[1]),)
            elif k == "v":
                path = path + (("v", e[1]),)
            elif k == "i":
                iv = self.load(st, (depth, e[1]), ())
                if iv[0] == "o" and self.client is not None and getattr(self.client, "term_index", False):
                    if path and path[-1][0] == "sub" and path[-1][1] == K(0):
                        path = path[:-1]
                    path = path + (("ix", iv),)
                    continue
                if iv[0] != "i":
                    return None
                path = self.index_path(path, iv, st)
            elif k == "ci":
                if e[3]:
                    if path and path[-1][0] == "sub":
                        path = path[:-1] + (("ix", shift(path[-1][2], -e[1])),)
                    else:
                        v = self.load(st, obj, path)
                        n = self.seqlen(st, v)
                        if n is None:
                            if e[1] == 1 and v[0] == "V":
                                path = path + (("last",),)
                                continue
                            return None
                        path = path + (("ix", shift(n, -e[1])),)
                else:
                    path = self.index_path(path, K(e[1]))
            elif k == "ss":
                if path and path[-1][0] == "sub":
                    lo, hi = path[-1][1], path[-1][2]
                    path = path[:-1]
                else:
                    v = self.load(st, obj, path)
                    n = self.seqlen(st, v)
                    if n is None:
                        return None
                    lo, hi = K(0), n
                nhi = shift(hi, -e[2]) if e[3] else shift(lo, e[2])
                path = path + (("sub", shift(lo, e[1]), nhi),)
            elif k in ("oc", "pd", "ub"):
                pass
            else:
                return None
        return obj, path

    def index_path(self, path, iv, st=None):
        if path and path[-1][0] == "sub":
            lo = path[-1][1]
            # lo + iv : representable when one of them is constant
            if iv[1] == 0:
                return path[:-1] + (("ix", shift(lo, iv[2])),)
            if lo[1] == 0:
                return path[:-1] + (("ix", shift(iv, lo[2])),)
            if st is not None:
                return path[:-1] + (("ix", self.add(st, lo, iv)),)
            return path[:-1] + (("ixu",),)
        return path + (("ix", iv),)

    def seqlen(self, st, v):
        if v[0] == "a" and self.p.types[v[1]]["k"] == "array":
            return K(len(v[3]))
        if v[0] == "sl":
            return self.sub(st, v[4], v[3])
        if self.client is not None:
            return self.client.seqlen(self, st, v)
        return None

    def sub(self, st, a, b):
        if a[1] == b[1]:
            return K(a[2] - b[2])
        if b[1] == 0:
            return shift(a, -b[2])
        ca, cb = st.const(a), st.const(b)
        if cb is not None:
            return shift(a, -cb)
        if self.client is not None:
            r = self.client.sub(self, st, a, b)
            if r is not None:
                return r
        u = st.ubl(a, b)
        l = st.ubl(b, a)
        if u is not None and l is not None and u == -l:
            return K(u)
        for s, (x, y) in st.diff.items():
            if (x == a or st.eq(x, a)) and (y == b or st.eq(y, b)):
                return I(s)
        n = self.sym(st, nonneg=False)
        st.diff[n[1]] = (a, b)
        if u is not None:
            st.z = st.z.add(n[1], 0, u)
        if l is not None:
            st.z = st.z.add(0, n[1], l)
        return n

    def add(self, st, a, b):
        if a[1] == 0:
            return shift(b, a[2])
        if b[1] == 0:
            return shift(a, b[2])
        ca, cb = st.const(a), st.const(b)
        if cb is not None:
            return shift(a, cb)
        if ca is not None:
            return shift(b, ca)
        for x, y in ((a, b), (b, a)):
            dd = st.diff.get(y[1])
            if dd is not None and (dd[1] == x or st.eq(dd[1], x)):
                return shift(dd[0], y[2])
        if self.client is not None and hasattr(self.client, "addhook"):
            r = self.client.addhook(self, st, a, b)
            if r is not None:
                return r
        n = self.sym(st, nonneg=False)
        # n = a + b ; with lower/upper bounds of b relative to 0
        for x, y in ((a, b), (b, a)):
            lo = st.ubl(K(0), y)
            if lo is not None:
                st.z = st.z.add(x[1], n[1], lo - x[2]) or st.z
            hi = st.ubl(y, K(0))
            if hi is not None:
                st.z = st.z.add(n[1], x[1], hi + x[2]) or st.z
        return n

    # ------------------------------------------------ comparisons
    def assume(self, st, op, a, b):
        """refine a copy of st with a op b; None when infeasible"""
        s = st.copy()
        if op == "Eq":
            cons = [(a, b, 0), (b, a, 0)]
        elif op == "Ne":
            cons = []
            if s.eq(a, b):
                return None
            # strict when a bound is tight
            if s.le(a, b):
                cons = [(a, b, -1)]
            elif s.le(b, a):
                cons = [(b, a, -1)]
        elif op == "Lt":
            cons = [(a, b, -1)]
        elif op == "Le":
            cons = [(a, b, 0)]
        elif op == "Gt":
            cons = [(b, a, -1)]
        elif op == "Ge":
            cons = [(b, a, 0)]
        for x, y, d in cons:
            if x[1] == y[1]:
                if x[2] - y[2] > d:
                    return None
                continue
            z = s.z.add(x[1], y[1], d - x[2] + y[2])
            if z is None:
                return None
            s.z = z
        if self.client is not None:
            return self.client.refine_cmp(self, s, op, a, b)
        return s

    NEG = {"Eq": "Ne", "Ne": "Eq", "Lt": "Ge", "Ge": "Lt", "Le": "Gt", "Gt": "Le"}

    def compare(self, st, op, a, b):
        """list of (state, bool)"""
        r = []
        if a[0] == "i" and b[0] == "i":
            s1 = self.assume(st, op, a, b)
            s0 = self.assume(st, self.NEG[op], a, b)
            if s1 is not None:
                r.append((s1, TRUE))
            if s0 is not None:
                r.append((s0, FALSE))
            return r
        if a[0] == "b" and b[0] == "b":
            x, y = a[1], b[1]
            v = {"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[op]
            return [(st, B(v))]
        if self.client is not None:
            r = self.client.compare(self, st, op, a, b)
            if r is not None:
                return r
        return [(st, TRUE), (st.copy(), FALSE)]

    def truth(self, st, v):
        """split on a boolean value: list of (state, 0/1)"""
        if v[0] == "b":
            return [(st, v[1])]
        if v[0] == "i":
            c = st.const(v)
            if c is not None:
                return [(st, c)]
        if self.client is not None:
            r = self.client.truth(self, st, v)
            if r is not None:
                return r
        return [(st, 1), (st.copy(), 0)]

    # ------------------------------------------------ operands / rvalues
    def operand(self, st, depth, o):
        """single value (no splitting)"""
        k = o[0]
        if k in ("cp", "mv"):
            pl = self.place(st, depth, o[1])
            if pl is None:
                return UNK
            obj, path = pl
            if path and path[-1][0] == "str":
                return self.load(st, obj, path[:-1])
            v = self.load(st, obj, path)
            if k == "mv" and not o[1][1] and False:
                st.mem.pop(obj, None)
            return v
        if k == "k":
            return self.const(st, o[1])
        if k == "rt":
            return FALSE
        return UNK

    def const(self, st, c):
        v = self.const0(st, c)
        if v[0] == "L" and "tree" in c:
            return self.tree(st, c["tree"])
        return v

    def tree(self, st, c):
        """a constant the exporter took apart"""
        k = c["c"]
        if k == "agg":
            t = self.p.types[c["ty"]]
            if t["k"] == "tuple" and not c["fs"]:
                return UNIT
            return ("a", c["ty"] if t["k"] != "tuple" else 0, c["k"], tuple(self.tree(st, f) for f in c["fs"]))
        if k in ("refto", "slice"):
            v = self.tree(st, c["to"])
            if k == "refto" and v[0] == "s":
                obj = ("kst", v)
                st.mem[obj] = v
                return ("r", obj, ())
            obj = ("kst", v)
            st.mem[obj] = v
            return ("r", obj, ()) if k == "refto" else ("sl", obj, (), K(0), K(len(v[3])))
        if k == "fn":
            return ("fn", c["inst"])
        return self.const0(st, c)

    def const0(self, st, c):
        k = c["c"]
        ty = c["ty"]
        t = self.p.types[ty]
        if k == "int":
            if t["k"] == "bool":
                return B(c["v"])
            if t["k"] in ("int", "uint"):
                return K(c["v"])
            if t["k"] == "char":
                return self.client.charconst(c["v"]) if hasattr(self.client, "charconst") else K(c["v"])
            if t["k"] == "enum" and all(not v["f"] for v in t.get("vs", [])) and "vs" in t:
                for i, v in enumerate(t["vs"]):
                    if v["d"] == c["v"]:
                        return ("a", ty, i, ())
            return ("L", ty)
        if k == "zst":
            if t["k"] == "fndef":
                return ("fn", t.get("inst"), ty)
            if t["k"] == "closure":
                return ("a", ty, 0, ())
            if t["k"] == "tuple":
                return UNIT
            if t["k"] == "struct" and "vs" in t:
                return ("a", ty, 0, tuple(self.lazy(f[1]) for f in t["vs"][0]["f"]))
            return ("L", ty)
        if k == "bytes":
            b = bytes(c["v"])
            if t["k"] == "ref" and self.p.types[t["t"]]["k"] == "str":
                return ("s", ("lit", b.decode("utf8", "replace")))
            return ("L", ty)
        if k == "promoted":
            body = self.stack[-1]
            # promoteds belong to the defining body (same instance)
            pb = body.prom[c["i"]] if c["i"] < len(body.prom) else None
            if pb is None:
                return ("L", ty)
            obj = ("prom", body.key, c["i"])
            if obj not in st.mem:
                pd = self.promdepth.setdefault(obj, 3000 + 10 * len(self.promdepth))
                r = self.exec_body(pb, [], State(), pd, keep=True)
                if len(r) != 1:
                    return ("L", ty)
                s2, v = r[0]
                # the promoted's value may point at its own locals, which live on
                for o, x in s2.mem.items():
                    if o not in st.mem:
                        st.mem[o] = x
                st.mem[obj] = v
            return st.mem[obj]
        if k == "ptrbytes" and t["k"] == "ref":
            inner = self.p.types[t["t"]]
            if inner["k"] == "array":
                return ("cb", bytes(c["v"]))
            if inner["k"] == "str":
                return ("s", ("lit", bytes(c["v"]).decode("utf8", "replace")))
        if k == "mem":
            return self.mem_const(st, c, ty)
        return ("L", ty)

    def mem_const(self, st, c, ty):
        """constants stored in memory: structs/enums of plain integers (e.g. range consts)"""
        return ("L", ty)

    def rvalue(self, st, depth, r):
        """list of (state, value)"""
        k = r[0]
        if k == "use":
            return [(st, self.operand(st, depth, r[1]))]
        if k == "ref" or k == "raw":
            pl = self.place(st, depth, r[1])
            if pl is None:
                return [(st, UNK)]
            obj, path = pl
            if path:
                if path[-1][0] == "str":
                    return [(st, self.load(st, obj, path[:-1]))]
                if path[-1][0] == "sub":
                    return [(st, ("sl", obj, path[:-1], path[-1][1], path[-1][2]))]
            return [(st, ("r", obj, path))]
        if k == "discr":
            return self.discr(st, depth, r[1])
        if k == "agg":
            vals = tuple(self.operand(st, depth, o) for o in r[4])
            kind = r[1]
            if kind == "adt":
                if self.client is not None:
                    x = self.client.agg(self, st, r[2], r[3], vals)
                    if x is not None:
                        return [(st, x)]
                return [(st, ("a", r[2], r[3], vals))]
            if kind == "closure":
                return [(st, ("a", r[2], 0, vals))]
            if kind == "tuple":
                return [(st, ("a", 0, 0, vals))]
            if kind == "array":
                return [(st, ("a", self.arrty(r[2]), 0, vals))]
            return [(st, UNK)]
        if k == "bin":
            return self.binop(st, r[1], self.operand(st, depth, r[2]), self.operand(st, depth, r[3]))
        if k == "un":
            v = self.operand(st, depth, r[2])
            if r[1] == "Not":
                if v[0] == "b":
                    return [(st, B(not v[1]))]
                return [(s, B(not x)) for s, x in self.truth(st, v)]
            if r[1] == "PtrMetadata":
                n = self.seqlen(st, v)
                if n is None:
                    if v[0] == "s":
                        return self.client.strlen(self, st, v)
                    if v[0] == "r" and self.client is not None and getattr(self.client, "item_paths", False):
                        x = self.load(st, v[1], v[2])
                        m = self.client.len_of(self, st, v[1], v[2], x)
                        if m is not None:
                            return m
                    return [(st, self.sym(st))]
                return [(st, n)]
            if r[1] == "Neg" and v[0] == "i" and v[1] == 0:
                return [(st, K(-v[2]))]
            return [(st, self.sym(st, False))]
        if k == "cast":
            v = self.operand(st, depth, r[2])
            t = self.p.types[r[3]]
            if hasattr(self.client, "cast"):
                x = self.client.cast(self, st, r[1], v, r[3])
                if x is not None:
                    return [(st, x)]
            if r[1].startswith("IntToInt"):
                if v[0] == "i":
                    c = st.const(v)
                    if c is not None:
                        bits = t.get("bits", 64)
                        if t["k"] == "uint":
                            return [(st, K(c & ((1 << bits) - 1)))]
                        if t["k"] == "int" and -(1 << (bits - 1)) <= c < (1 << (bits - 1)):
                            return [(st, K(c))]
                    bits = t.get("bits", 64)
                    if bits >= 32:
                        return [(st, v)]
                    return [(st, self.sym(st, t["k"] == "uint"))]
                if v[0] == "b":
                    return [(st, K(v[1]))]
                return [(st, v)]
            if "Unsize" in r[1]:
                if v[0] == "r":
                    x = self.load(st, v[1], v[2])
                    n = self.seqlen(st, x)
                    if n is not None:
                        return [(st, ("sl", v[1], v[2], K(0), n))]
                return [(st, v)]
            if "ReifyFnPointer" in r[1] or "ClosureFnPointer" in r[1]:
                return [(st, v)]
            if r[1].startswith("PtrToPtr") or "Transmute" in r[1] or r[1].startswith("Pointer"):
                return [(st, v if v[0] in ("r", "sl", "s", "fn") else UNK)]
            return [(st, UNK)]
        if k == "repeat":
            n = r[2]
            v = self.operand(st, depth, r[1])
            if n is not None and n <= 16:
                return [(st, ("a", self.arrty(0), 0, (v,) * n))]
            return [(st, UNK)]
        return [(st, UNK)]

    _arr = None

    def arrty(self, elem):
        if self._arr is None:
            for i, t in enumerate(self.p.types):
                if t["k"] == "array":
                    self._arr = i
                    break
            else:
                self.p.types.append({"k": "array", "s": "[_]", "t": elem})
                self._arr = len(self.p.types) - 1
        return self._arr

    def discr(self, st, depth, pl):
        p = self.place(st, depth, pl)
        if p is None:
            return [(st, self.sym(st, False))]
        obj, path = p
        v = self.load(st, obj, path)
        return self.discr_at(st, obj, path, v)

    def discr_at(self, st, obj, path, v):
        if v[0] == "a":
            t = self.p.types[v[1]]
            if t["k"] == "enum" and "vs" in t:
                return [(st, K(t["vs"][v[2]]["d"]))]
            return [(st, K(0))]
        if v[0] == "L":
            t = self.p.types[v[1]]
            if t["k"] == "enum" and "vs" in t:
                out = []
                for i, vv in enumerate(t["vs"]):
                    if any(self.uninhabited(f[1]) for f in vv["f"]):
                        continue
                    s = st.copy()
                    self.store(s, obj, path, self.expand(v[1], i), hook=False)
                    out.append((s, K(vv["d"])))
                return out
        if self.client is not None:
            r = self.client.discr(self, st, obj, path, v)
            if r is not None:
                return r
        return [(st, self.sym(st, False))]

    def uninhabited(self, ty):
        t = self.p.types[ty]
        return t["k"] == "never" or (t["k"] == "enum" and "vs" in t and not t["vs"])

    def binop(self, st, op, a, b):
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            return self.compare(st, op, a, b)
        if hasattr(self.client, "binop"):
            r = self.client.binop(self, st, op, a, b)
            if r is not None:
                return r
        if self.client is not None:
            a, b = self.client.toint(self, st, a), self.client.toint(self, st, b)
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        wo = op.endswith("WithOverflow")
        if base in ("BitAnd", "BitOr", "BitXor") and a[0] in ("b", "bt") or b[0] in ("b", "bt"):
            out = []
            for s, x in self.truth(st, a):
                for s2, y in self.truth(s, b):
                    v = {"BitAnd": x & y, "BitOr": x | y, "BitXor": x ^ y}.get(base)
                    out.append((s2, B(v)))
            return out
        if a[0] == "i" and b[0] == "i":
            if base == "Add":
                v = self.add(st, a, b)
                return [(st, ("a", 0, 0, (v, FALSE)) if wo else v)]
            if base == "Sub":
                if wo:
                    # underflow is an obligation: split on a >= b for unsigned operands
                    out = []
                    s1 = self.assume(st, "Ge", a, b)
                    if s1 is not None:
                        v = self.sub(s1, a, b)
                        if v[0] == "i":
                            s1.z = s1.z.add(0, v[1], v[2]) or s1.z
                        out.append((s1, ("a", 0, 0, (v, FALSE))))
                    s0 = self.assume(st, "Lt", a, b)
                    if s0 is not None:
                        out.append((s0, ("a", 0, 0, (UNK, ("b", 1), ("neg", self.sub(s0, a, b))))))
                    return out
                return [(st, self.sub(st, a, b))]
            if base == "Mul":
                ca, cb = st.const(a), st.const(b)
                if ca is not None and cb is not None:
                    v = K(ca * cb)
                elif ca == 1:
                    v = b
                elif cb == 1:
                    v = a
                else:
                    v = self.sym(st)
                return [(st, ("a", 0, 0, (v, FALSE)) if wo else v)]
            if base in ("Div", "Rem", "Shl", "Shr", "BitAnd", "BitOr", "BitXor"):
                ca, cb = st.const(a), st.const(b)
                if ca is not None and cb is not None and (cb or base not in ("Div", "Rem")):
                    v = {"Div": lambda: int(ca / cb), "Rem": lambda: ca - cb * int(ca / cb), "Shl": lambda: ca << cb, "Shr": lambda: ca >> cb,
                         "BitAnd": lambda: ca & cb, "BitOr": lambda: ca | cb, "BitXor": lambda: ca ^ cb}[base]()
                    return [(st, ("a", 0, 0, (K(v), FALSE)) if wo else K(v))]
                v = self.sym(st)
                if base == "Rem" and cb:
                    st.z = st.z.add(v[1], 0, cb - 1) or st.z
                if base in ("Div", "Shr", "BitAnd"):
                    st.z = st.z.add(v[1], a[1], a[2]) or st.z
                return [(st, ("a", 0, 0, (v, FALSE)) if wo else v)]
        if wo:
            return [(st, ("a", 0, 0, (self.sym(st, False), FALSE)))]
        return [(st, UNK)]

    # ------------------------------------------------ shapes, joins
    def key(self, st, depth):
        items = []
        leaf = {s: r[0] for s, r in st.tokr.items()}
        for o in sorted(st.mem, key=repr):
            items.append((o, shape_in(st.mem[o], leaf) if leaf else shape(st.mem[o])))
        eqp = ()
        b = self.stack[-1] if self.stack else None
        if b is not None and b.local:
            lins = []
            for l in sorted(b.named):
                v = st.mem.get((depth, l))
                if v is not None and v[0] == "i":
                    lins.append(v)
            eqp = tuple(tuple(1 if lins[i] == lins[j] else 0 for j in range(i)) for i in range(len(lins)))
        ex = self.client.shape_extra(self, st) if self.client is not None else None
        return (tuple(items), bool(st.taint), eqp, ex)

    def prepare(self, st):
        if self.client is not None:
            self.client.normalize(self, st)

    def unify_val(self, a, b, ctx):
        if a is b:
            self.note(a, ctx)
            return a
        ta = a[0] if a else None
        if ta == "i" and len(a) == 3:
            if a == b:
                self.note(a, ctx)
                return a
            k = (a, b)
            n = ctx["pairs"].get(k)
            if n is None:
                self.nsym += 1
                n = I(self.nsym, 0)
                ctx["pairs"][k] = n
                if a[2] == 0 and b[2] == 0:
                    ra, rb = ctx["s1"].tokr.get(a[1]), ctx["s2"].tokr.get(b[1])
                    if ra and rb and ra[0] == rb[0]:
                        ctx["tokr"][n[1]] = (ra[0], self.unify_val(ra[1], rb[1], ctx))
            return n
        if ta == "ch":
            return self.client.chjoin(a, b)
        out = []
        for x, y in zip(a, b):
            if isinstance(x, tuple) and x:
                out.append(self.unify_val(x, y, ctx))
            else:
                out.append(x)
        return tuple(out)

    def note(self, v, ctx):
        s = set()
        syms_of(v, s)
        ctx["same"] |= s
        for x in s:
            r = ctx["s1"].tokr.get(x)
            if r and x not in ctx["tokr"]:
                r2 = ctx["s2"].tokr.get(x)
                if r2 == r:
                    ctx["tokr"][x] = r
                    self.note(r[1], ctx)

    def join(self, s1, s2, widen=False):
        """join two states of equal shape"""
        self.stats["joins"] += 1
        r = State()
        ctx = {"pairs": {}, "same": set(), "s1": s1, "s2": s2, "tokr": {}}
        for o in s1.mem:
            r.mem[o] = self.unify_val(s1.mem[o], s2.mem[o], ctx)
        same = ctx["same"]
        same.discard(0)
        r.tokr = ctx["tokr"]
        slots = [(I(0), K(0), K(0))] + [(I(s), I(s), I(s)) for s in sorted(same)] + [(n, a, b) for (a, b), n in ctx["pairs"].items()]
        e = {}
        for (ni, ai, bi) in slots:
            d1 = s1.z.dist(ai[1])
            d2 = s2.z.dist(bi[1])
            row = {}
            for (nj, aj, bj) in slots:
                if ni is nj:
                    continue
                u1 = d1.get(aj[1])
                if u1 is None:
                    continue
                u2 = d2.get(bj[1])
                if u2 is None:
                    continue
                u1 += ai[2] - aj[2]
                u2 += bi[2] - bj[2]
                if widen and u2 > u1:
                    for thr in (-1, 0, 1):
                        if u2 <= thr:
                            row[nj[1]] = thr
                            break
                    continue
                row[nj[1]] = max(u1, u2)
            if row:
                e[ni[1]] = row
        r.z = Zone(e)
        if self.client is not None:
            self.client.join_facts(self, s1, s2, r, slots)
        r.taint = s1.taint | s2.taint
        same.add(0)
        r.diff = {s: ab for s, ab in s1.diff.items() if s2.diff.get(s) == ab and s in same and ab[0][1] in same and ab[1][1] in same}
        if ctx["pairs"] and getattr(self.client, "relate", False):
            self.relate(s1, s2, r, slots)
        return r

    def lin(self, st, v, n=3):
        """a linear value with its known differences written out: (constant, {symbol: coefficient})"""
        c, f = v[2], {}
        if v[1] == 0:
            return c, f
        d = st.diff.get(v[1]) if n else None
        if d is None:
            rep = (v[1], 0)         # the oldest value it is known to differ from by a constant
            for y, u in st.z.dist(v[1]).items():
                if y < rep[0] and st.z.ub(y, v[1]) == -u:
                    rep = (y, u)
            return (c + rep[1], {rep[0]: 1} if rep[0] else {})
        for x, sg in ((d[0], 1), (d[1], -1)):
            c2, f2 = self.lin(st, x, n - 1)
            c += sg * c2
            for y, k in f2.items():
                f[y] = f.get(y, 0) + sg * k
                if not f[y]:
                    del f[y]
        return c, f

    def minus(self, p, q):
        f = dict(p[1])
        for y, k in q[1].items():
            f[y] = f.get(y, 0) - k
            if not f[y]:
                del f[y]
        return p[0] - q[0], f

    def relate(self, s1, s2, r, slots):
        """a joined value that is the same difference of two others on both sides keeps it"""
        l1 = [self.lin(s1, x[1]) for x in slots]
        l2 = [self.lin(s2, x[2]) for x in slots]
        at = {}
        for k, (c, f) in enumerate(l1):
            if len(f) == 1 and list(f.values()) == [1] and slots[k][0][1]:
                at.setdefault(next(iter(f)), []).append(k)
        idx = [i for i, x in enumerate(slots) if x[1] != x[2]]
        lead = self.client.leading(r)
        idx.sort(key=lambda i: slots[i][0][1] != lead)
        for i in idx:
            n = slots[i][0]
            if n[1] == lead:
                continue
            if n[1] in r.diff:
                continue
            for j in idx:
                if i == j or len(l1[j][1]) != 1:
                    continue
                d1 = self.minus(l1[i], l1[j])
                if len(d1[1]) != 1 or list(d1[1].values()) != [-1]:
                    continue
                for k in at.get(next(iter(d1[1])), ()):
                    if k in (i, j):
                        continue
                    c = d1[0] + l1[k][0]
                    d2 = self.minus(l2[i], l2[j])
                    x = self.minus(d2, (-l2[k][0], {y: -q for y, q in l2[k][1].items()}))
                    if not x[1] and x[0] == c:
                        r.diff[n[1]] = (shift(slots[j][0], c), slots[k][0])
                        break
                if n[1] in r.diff:
                    break

    def subsumes(self, inv, st):
        """every concrete state of st is described by inv (same shape)"""
        m = {0: K(0)}
        def walk(a, b):
            ta = a[0] if a else None
            if ta == "i" and len(a) == 3:
                if a[1] == 0:
                    return st.eq(a, b)
                o = m.get(a[1])
                nb = shift(b, -a[2])
                if o is None:
                    m[a[1]] = nb
                    ra = inv.tokr.get(a[1])
                    if ra is not None:
                        rb = st.tokr.get(nb[1]) if nb[2] == 0 else None
                        if rb is None or rb[0] != ra[0] or not walk(ra[1], rb[1]):
                            return False
                    return True
                return st.eq(o, nb)
            if ta == "ch":
                return self.client.chle(a, b)
            for x, y in zip(a, b):
                if isinstance(x, tuple) and x:
                    if not walk(x, y):
                        return False
            return True
        for o in inv.mem:
            if not walk(inv.mem[o], st.mem[o]):
                return False
        for u, row in inv.z.e.items():
            if u not in m:
                continue
            for v, c in row.items():
                if v not in m:
                    continue
                x = st.ubl(m[u], m[v])
                if x is None or x > c:
                    return False
        if not (st.taint <= inv.taint):
            return False
        for s, (a, b) in inv.diff.items():
            if s in m and a[1] in m and b[1] in m:
                x = st.diff.get(m[s][1]) if m[s][2] == 0 else None
                if getattr(self.client, "relate", False):
                    d = self.minus(self.lin(st, shift(m[a[1]], a[2])), self.lin(st, shift(m[b[1]], b[2])))
                    if self.minus(self.lin(st, m[s]), d) == (0, {}):
                        continue
                if x is None or not st.eq(x[0], shift(m[a[1]], a[2])) or not st.eq(x[1], shift(m[b[1]], b[2])):
                    return False
        if self.client is not None:
            return self.client.sub_facts(self, inv, st, m)
        return True

    def gc(self, st):
        acc = set()
        for v in st.mem.values():
            syms_of(v, acc)
        for x in list(acc):
            r = st.tokr.get(x)
            if r:
                acc.add(r[1][1])
        acc.discard(0)
        keep = acc | {0}
        if self.client is not None:
            self.client.rekey(st, keep)
        e = {}
        for u in keep:
            d = st.z.dist(u)
            row = {v: c for v, c in d.items() if v in keep and v != u}
            if row:
                e[u] = row
        st.z = Zone(e)
        if st.diff:
            st.diff = {s: ab for s, ab in st.diff.items() if s in keep and ab[0][1] in keep and ab[1][1] in keep}
        if self.client is not None:
            self.client.gc_facts(self, st, keep)

    def merge(self, states, depth):
        """merge equal-shape states (non-loop)"""
        if len(states) <= 1 or self.unroll:
            return states
        g = {}
        for s in states:
            self.prepare(s)
            if len(states) > 8 and len(s.z.e) > 60:
                self.gc(s)
            k = self.key(s, depth)
            if k in g:
                if self.subsumes(g[k], s):
                    continue
                g[k] = self.join(g[k], s)
            else:
                g[k] = s
        return list(g.values())

    # ------------------------------------------------ execution
    curspan = None
    curblk = None

    def exec_body(self, body, args, st, depth, keep=False):
        if (depth > 1800 and not keep) or len(self.stack) > self.maxdepth:
            raise Undecided("call depth exceeded in %s" % body.key)
        self.stats["bodies"].add(body.key)
        self.stats["calls"] += 1
        if body.spread is not None and len(args) != body.argc:
            head = args[: body.spread - 1]
            args = head + [("a", 0, 0, tuple(args[body.spread - 1:]))]
        elif len(args) != body.argc and args and args[-1][0] == "a" and len(args) - 1 + len(args[-1][3]) == body.argc:
            args = args[:-1] + list(args[-1][3])
        for i, a in enumerate(args):
            st.mem[(depth, i + 1)] = a
        self.stack.append(body)
        try:
            return self._run(body, st, depth, keep)
        finally:
            self.stack.pop()

    def _run(self, body, st, depth, keep=False):
        pending = {0: [st]}
        heap = [(body.order[0], 0)]
        inv = {}
        visits = {}
        finals = []
        rows = {}
        saved = self.curspan
        guard = 0
        while heap:
            _, b = heapq.heappop(heap)
            states = pending.pop(b, None)
            if not states:
                continue
            guard += 1
            if time.monotonic() > self.deadline:
                raise Undecided("out of time")
            if guard > 20000:
                raise Undecided("no fixpoint in %s" % body.key)
            if b in body.heads and not self.unroll:
                if body.local:
                    self.stats["loops"].add((body.path, b))
                todo = []
                ks = inv.setdefault(b, {})
                for s in states:
                    self.check_progress(body, b, s, depth, rows)
                    s.mem.pop(("g", depth, b), None)
                    self.prepare(s)
                    k = self.key(s, depth)
                    old = ks.get(k)
                    if old is None:
                        s = s.copy()
                        self.gc(s)
                        ks[k] = s
                        todo.append(k)
                    elif self.subsumes(old, s):
                        continue
                    else:
                        n = visits.get((b, k), 0) + 1
                        visits[(b, k)] = n
                        if n > 40:
                            raise Undecided("widening does not stabilise in %s" % body.key)
                        ks[k] = self.join(old, s, widen=n > self.delay)
                        todo.append(k)
                if len(ks) > self.maxpart:
                    self.dbg_keys(ks)
                    raise Undecided("too many partitions in %s" % body.key)
                seen = set()
                work = []
                for k in todo:
                    if k not in seen:
                        seen.add(k)
                        s = ks[k].copy()
                        self.set_progress(body, b, s, depth)
                        work.append(s)
            else:
                work = self.merge(states, depth)
            for s in work:
                self.stats["states"] += 1
                for nb, ns in self.run_block(body, b, s, depth):
                    if nb == "ret":
                        finals.append(ns)
                        continue
                    for h in body.loops:
                        if nb not in body.loops[h]:
                            ns.mem.pop(("g", depth, h), None)
                    L = body.live[nb]
                    for o in [o for o in ns.mem if o[0] == depth and isinstance(o[1], int) and o[1] not in L and o[1] not in body.borrowed]:
                        del ns.mem[o]
                    if nb not in pending:
                        pending[nb] = []
                        heapq.heappush(heap, (body.order[nb], nb))
                    pending[nb].append(ns)
        if rows:
            self.solve_progress(body, rows)
        out = []
        for s in finals:
            rv = s.mem.get((depth, 0), UNIT)
            for o in [o for o in s.mem if not keep and (o[0] == depth) or (o[0] == "g" and o[1] == depth) or (o[0] == "lz" and o[1][0] == depth)]:
                if o[0] == "lz" and self.refers(rv, o):
                    continue
                del s.mem[o]
            s.mem[("ret", depth)] = rv
            out.append(s)
        out = self.merge(out, depth)
        res = []
        for s in out:
            rv = s.mem.pop(("ret", depth))
            if len(s.z.e) > 40:
                s.mem[("ret", depth)] = rv
                self.gc(s)
                s.mem.pop(("ret", depth))
            res.append((s, rv))
        self.curspan = saved
        return res

    dbg = None

    def dump(self, st, k):
        print("=== ", k, [b.path for b in self.stack][-4:])
        for o, v in st.mem.items():
            print("   ", o, "=", v)
        for u in sorted(st.z.e):
            for v, c in st.z.dist(u).items():
                if v in st.z.e or v in (0, 1):
                    print("      s%d - s%d <= %d" % (u, v, c)) if u != v and not (v != 0 and u == 0) or c else None
        if self.client:
            for i, m in st.mask.items():
                print("      mask", i, self.client.cls.show(m))
            for i, m in st.facts:
                print("      fact", i, self.client.cls.show(m))
            print("      bf", st.bf, "tokr", st.tokr)

    def dbg_keys(self, ks):
        import os
        if not os.environ.get("DBG"):
            return
        d = {}
        for k in ks:
            for o, sh in k[0]:
                d.setdefault(o, {}).setdefault(sh, 0)
                d[o][sh] += 1
            for i in (1, 2, 3):
                d.setdefault(("key", i), {}).setdefault(k[i], 0)
                d[("key", i)][k[i]] += 1
        for o, m in d.items():
            if len(m) > 1 or sum(m.values()) != len(ks):
                print("KEY", o, len(m), list(m.items())[:8])

    def refers(self, v, obj):
        if not v:
            return False
        if v[0] == "r" and v[1] == obj:
            return True
        return any(isinstance(x, tuple) and x and self.refers(x, obj) for x in v)

    # progress ghosts -------------------------------------------------
    def slots(self, body, st, depth):
        r = {}
        def walk(v, p, dep):
            if v[0] == "i" and len(v) == 3:
                r[p] = v
            elif v[0] == "b":
                r[p] = K(v[1])
            elif v[0] == "dqi":
                r[p] = K(len(v))
            elif v[0] in ("a", "sit", "map", "filter", "enumerate", "skip", "take", "rev", "win", "peek", "chain", "zip", "cloned", "chars", "b8", "vit") and dep < 6:
                for i, x in enumerate(v):
                    if isinstance(x, tuple) and x:
                        if v[0] == "a" and i == 3:
                            for j, y in enumerate(x):
                                walk(y, p + (j,), dep + 1)
                        elif v[0] != "a":
                            walk(x, p + ("t", i), dep + 1)
        for o, v in st.mem.items():
            if o[0] == depth and isinstance(o[1], int):
                walk(v, ("l", o[1]), 0)
        if self.client is not None:
            for k, v in self.client.progress_slots(self, st).items():
                r[("c", k)] = v
        return r

    def set_progress(self, body, b, st, depth):
        if not body.local:
            return
        sl = self.slots(body, st, depth)
        ks = sorted(sl, key=repr)
        st.mem[("g", depth, b)] = ("G", tuple(ks_tuple(k) for k in ks), tuple(sl[k] for k in ks))

    def check_progress(self, body, b, st, depth, rows):
        """record what one way round the loop does to every counter"""
        g = st.mem.get(("g", depth, b))
        if g is None or not body.local:
            return
        self.stats["obligations"].add(("progress", body.path, b))
        now = self.slots(body, st, depth)
        same = set()
        rel = {}
        for k, old in zip(g[1], g[2]):
            v = now.get(k)
            if v is None:
                continue
            up, dn = st.ubl(old, v), st.ubl(v, old)
            f = set()
            if up is not None and up <= 0:
                f.add("i")
            if dn is not None and dn <= 0:
                f.add("d")
            if up is not None and up < 0:
                f.add("I")
            if dn is not None and dn < 0 and st.le(K(0), old):
                f.add("D")
            rel[k] = [f, v, None]
            if "i" in f and "d" in f:
                same.add(k)
        for k, r in rel.items():
            if "I" in r[0]:
                if self.client is not None and self.client.bounded(self, st, k, r[1]) or st.ubl(r[1], K(0)) is not None:
                    r[2] = True
                else:
                    r[2] = {k2 for k2 in same if st.ubl(r[1], now[k2]) is not None}
        rows.setdefault(b, []).append((rel, same, bool(st.taint), st))

    def solve_progress(self, body, rows):
        """lexicographic ranking over the counters of each loop"""
        for b, rs in rows.items():
            rem = list(rs)
            going = True
            while rem and going:
                going = False
                keys = set.intersection(*[set(r[0]) for r in rem])
                for k in sorted(keys, key=repr):
                    for lo, hi in (("i", "I"), ("d", "D")):
                        if not all(lo in r[0][k][0] for r in rem):
                            continue
                        drop = []
                        for r in rem:
                            if hi not in r[0][k][0]:
                                continue
                            if hi == "I":
                                bd = r[0][k][2]
                                if bd is not True and not any(all(k2 in q[1] for q in rem) for k2 in bd or ()):
                                    continue
                            drop.append(r)
                        if drop:
                            rem = [r for r in rem if r not in drop]
                            going = True
                            break
                    if going:
                        break
            if rem:
                st = next((r[3] for r in rem if not r[2]), rem[0][3])
                self.report("progress", st, "a loop iteration can complete without advancing", key="loop-no-progress",
                            span=body.blocks[b].span)

    # ------------------------------------------------------------
    def run_block(self, body, b, st, depth):
        blk = body.blocks[b]
        states = [st]
        for s in blk.stmts:
            k = s[0]
            if k == "=":
                self.curspan = s[3] or self.curspan
                ns = []
                for x in states:
                    for x2, v in self.rvalue(x, depth, s[2]):
                        pl = self.place(x2, depth, s[1])
                        if pl is None:
                            self.taint(x2, "store through unknown reference in " + body.path)
                        else:
                            if v[0] == "a" and v[1] == 0 and not pl[1]:
                                # give tuples their type
                                v = ("a", body.locals[s[1][0]] if not s[1][1] else 0, v[2], v[3])
                            self.store(x2, pl[0], pl[1], v)
                        ns.append(x2)
                states = ns
            elif k == "dead":
                for x in states:
                    x.mem.pop((depth, s[1]), None)
            elif k == "sd":
                for x in states:
                    pl = self.place(x, depth, s[1])
                    if pl:
                        v = self.load(x, pl[0], pl[1])
                        ty = v[1] if v[0] in ("a", "L") else None
                        if ty is not None:
                            self.store(x, pl[0], pl[1], self.expand(ty, s[2]))
            elif k == "assume":
                ns = []
                for x in states:
                    for x2, t in self.truth(x, self.operand(x, depth, s[1])):
                        if t:
                            ns.append(x2)
                states = ns
        if blk.span:
            self.curspan = blk.span
        out = []
        for x in states:
            out.extend(self.run_term(body, blk, b, x, depth))
        return out

    def run_term(self, body, blk, b, st, depth):
        t = blk.term
        k = t[0]
        if k == "goto":
            return [(t[1], st)]
        if k == "ret":
            return [("ret", st)]
        if k in ("unreachable", "resume"):
            return []
        if k == "switch":
            return self.switch(body, t, st, depth)
        if k == "assert":
            return self.do_assert(body, t, st, depth)
        if k == "call":
            out = []
            args = [self.operand(st, depth, a) for a in t[2]]
            sp = self.curspan
            self.curblk = (body, b)
            for s, v in self.call(st, depth, t[1], args, body):
                self.curspan = sp
                if t[4] is None:
                    continue
                pl = self.place(s, depth, t[3])
                if pl is None:
                    self.taint(s, "store through unknown reference in " + body.path)
                else:
                    if v[0] == "a" and not pl[1]:
                        lt = body.locals[t[3][0]] if not t[3][1] else None
                        if lt is not None and self.p.types[lt]["k"] in ("enum", "struct", "tuple") and self.p.types[lt].get("p") == self.p.types[v[1]].get("p") and v[1] != lt:
                            v = ("a", lt) + v[2:]
                    self.store(s, pl[0], pl[1], v)
                out.append((t[4], s))
            return out
        self.taint(st, "terminator %s" % k)
        return []

    def switch(self, body, t, st, depth):
        v = self.operand(st, depth, t[1])
        out = []
        if v[0] in ("b",):
            for val, tgt in t[2]:
                if val == v[1]:
                    return [(tgt, st)]
            return [(t[3], st)]
        if v[0] == "i":
            c = st.const(v)
            if c is not None:
                for val, tgt in t[2]:
                    if val == c:
                        return [(tgt, st)]
                return [(t[3], st)]
            if getattr(self.client, "item_paths", False):
                self.taint(st, "a number the terms do not describe")
            rest = st
            for val, tgt in t[2]:
                s1 = self.assume(rest, "Eq", v, K(val))
                if s1 is not None:
                    out.append((tgt, s1))
                rest = self.assume(rest, "Ne", v, K(val))
                if rest is None:
                    break
            if rest is not None:
                out.append((t[3], rest))
            return out
        if self.client is not None:
            r = self.client.switch(self, st, v, t)
            if r is not None:
                return r
        tk = self.p.types[t[4]]["k"] if isinstance(t[4], int) else None
        # unknown scrutinee
        if tk == "bool":
            for s, x in self.truth(st, v):
                for val, tgt in t[2]:
                    if val == x:
                        out.append((tgt, s))
                        break
                else:
                    out.append((t[3], s))
            return out
        for val, tgt in t[2]:
            out.append((tgt, st.copy()))
        out.append((t[3], st))
        return out

    def do_assert(self, body, t, st, depth):
        m = t[4]
        if m[0] == "other" and ("Misaligned" in str(m[1]) or "NullPointer" in str(m[1]) or "InvalidEnum" in str(m[1])):
            return [(t[3], st)]         # compiler-inserted checks of pointers the borrow checker vouches for
        v = self.operand(st, depth, t[1])
        out = []
        site = ("assert", body.path, m[0])
        if body.local:
            self.stats["obligations"].add(("assert", body.key, self.curspan, m[0]))
        for s, x in self.truth(st, v):
            if bool(x) == bool(t[2]):
                out.append((t[3], s))
            else:
                what = m[0]
                if m[0] == "overflow":
                    what = "%s overflow" % m[1]
                elif m[0] == "bounds":
                    what = "index out of bounds"
                if v[0] not in ("b",) and m[0] == "overflow" and m[1] != "Sub":
                    continue
                self.panic(s, what)
        return out

    def panic(self, st, what):
        self.report("panic", st, "can panic: " + what, key="panic:" + what)

    # ------------------------------------------------ calls
    def call(self, st, depth, callee, args, body):
        """list of (state, value)"""
        if "dyn" in callee:
            f = self.operand(st, depth, self.p._op(callee["dyn"]))
            return self.call_value(st, depth, f, args)
        path = callee["p"]
        rp = callee.get("rp") or path
        m = self.models.get(rp) or self.models.get(path)
        ctx = {"callee": callee, "rp": rp, "p": path, "body": body}
        if m is not None:
            r = m(self, st, depth, args, ctx)
            if r is not None:
                return r
        inst = callee.get("inst")
        b = self.p.bodies.get(inst) if inst else None
        if b is not None:
            return self.call_body(b, args, st, depth, ctx)
        return self.unknown(st, depth, rp, args, ctx)

    def call_body(self, b, args, st, depth, ctx=None):
        if self.client is not None:
            r = self.client.call_hook(self, b, args, st, depth)
            if r is not None:
                return r
        if sum(1 for x in self.stack if x is b) > 2:
            return self.unknown(st, depth, "recursion: " + b.path, args, ctx)
        return self.exec_body(b, list(args), st, depth + 1)

    def call_value(self, st, depth, f, args):
        """call a function value with already-untupled args"""
        if f[0] == "r":
            f2 = self.load(st, f[1], f[2])
            if f2[0] in ("fn",) or (f2[0] == "a" and self.p.types[f2[1]]["k"] == "closure"):
                if f2[0] == "fn":
                    return self.call_value(st, depth, f2, args)
                inst = self.p.types[f2[1]].get("inst")
                b = self.p.bodies.get(inst)
                if b is None:
                    return self.unknown(st, depth, "closure", args, {})
                t1 = self.p.types[b.locals[1]]
                first = f if t1["k"] == "ref" else f2
                return self.call_body(b, [first] + list(args), st, depth)
        if f[0] == "fn":
            inst = f[1]
            ty = self.p.types[f[2]] if len(f) > 2 else {}
            rp = ty.get("rp") or ty.get("p")
            m = self.models.get(rp) or self.models.get(ty.get("p"))
            if m is not None:
                r = m(self, st, depth, list(args), {"callee": {"args": ty.get("args", []), "p": rp, "rp": rp}, "rp": rp, "p": rp, "body": None})
                if r is not None:
                    return r
            b = self.p.bodies.get(inst)
            if b is not None:
                return self.call_body(b, list(args), st, depth)
            return self.unknown(st, depth, inst or "fn", args, {})
        if f[0] == "a" and self.p.types[f[1]]["k"] == "closure":
            inst = self.p.types[f[1]].get("inst")
            b = self.p.bodies.get(inst)
            if b is None:
                return self.unknown(st, depth, "closure", args, {})
            t1 = self.p.types[b.locals[1]]
            if t1["k"] == "ref":
                obj = (depth, "cl")
                n = 0
                while obj in st.mem:
                    n += 1
                    obj = (depth, "cl%d" % n)
                st.mem[obj] = f
                r = self.call_body(b, [("r", obj, ())] + list(args), st, depth)
                for s, v in r:
                    s.mem.pop(obj, None)
                return r
            return self.call_body(b, [f] + list(args), st, depth)
        return self.unknown(st, depth, "unknown function value", args, {})

    def unknown(self, st, depth, name, args, ctx):
        self.taint(st, name)
        # everything reachable through the arguments may change
        for a in args:
            self.havoc(st, a, set())
        return [(st, UNK)]

    def havoc(self, st, v, seen):
        if not v:
            return
        if v[0] in ("r", "sl") and len(v) > 2:
            k = (v[1], v[2])
            if k in seen:
                return
            seen.add(k)
            # shared references cannot be told apart here; the state is tainted anyway
            return
        for x in v:
            if isinstance(x, tuple) and x:
                self.havoc(st, x, seen)

    # ------------------------------------------------ python-level loops (iterator consumers)
    def loop(self, st, depth, step, slot):
        """step(state) -> (continue_states, exits[(state, value)]); the loop state lives in memory"""
        exits = []
        inv = {}
        visits = {}
        work = [st]
        n = 0
        while work:
            dirty = []
            for s in work:
                if self.unroll:
                    inv[len(inv)] = s
                    dirty.append(len(inv) - 1)
                    continue
                self.prepare(s)
                k = self.key(s, depth)
                old = inv.get(k)
                if old is None:
                    s = s.copy()
                    self.gc(s)
                    inv[k] = s
                elif self.subsumes(old, s):
                    continue
                else:
                    c = visits.get(k, 0) + 1
                    visits[k] = c
                    if c > 40:
                        raise Undecided("iterator loop widening")
                    inv[k] = self.join(old, s, widen=c > self.delay)
                if k not in dirty:
                    dirty.append(k)
            work = []
            for k in dirty:
                n += 1
                if n > 3000:
                    raise Undecided("iterator loop does not stabilise")
                cont, ex = step(inv[k].copy())
                work.extend(cont)
                exits.extend(ex)
        # merge exits by value
        out = []
        tmp = []
        for s, v in exits:
            s.mem[("ex", depth)] = v
            tmp.append(s)
        for s in self.merge(tmp, depth):
            v = s.mem.pop(("ex", depth))
            out.append((s, v))
        return out


def ks_tuple(k):
    return k
