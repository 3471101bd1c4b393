"""Loading and preprocessing of the exported MIR (see driver/src/main.rs)."""
import json


def tup(x):
    if isinstance(x, list):
        return tuple(tup(y) for y in x)
    return x


class Body:
    __slots__ = ("key", "path", "local", "span", "argc", "spread", "locals", "names", "blocks", "prom",
                 "parent", "order", "heads", "live", "borrowed", "named", "loops", "nloops")

    def __repr__(self):
        return "<Body %s>" % self.key

    def cyclic(self, b):
        """whether a block lies on a cycle"""
        return any(b in l for l in (self.loops.values() if isinstance(self.loops, dict) else self.loops))


class Block:
    __slots__ = ("stmts", "term", "span")


class Prog:
    def __init__(self, path):
        with open(path) as f:
            d = json.load(f)
        self.raw = d
        self.types = d["types"]
        self.bodies = {}
        for b in d["bodies"]:
            self.bodies[b["k"]] = self._body(b["k"], b, b["b"])
        self.impls = d["impls"]
        self.items = d["items"]
        self.leaves = dict((k, p) for k, p in d["leaves"])
        self.by_path = {}
        for b in self.bodies.values():
            self.by_path.setdefault(b.path, b)

    # ------------------------------------------------------------------
    def _body(self, key, b, m):
        r = Body()
        r.key = key
        r.path = b.get("p")
        r.local = b.get("local", False)
        r.span = b.get("sp")
        r.parent = b.get("parent")
        r.argc = m["argc"]
        r.spread = m["spread"]
        r.locals = m["locals"]
        r.names = [(n, tup(p)) for n, p in m["names"]]
        r.blocks = []
        for bl in m["blocks"]:
            x = Block()
            x.stmts = [tup(s) if s[0] != "=" else ("=", tup(s[1]), self._rv(s[2]), s[3]) for s in bl["s"]]
            x.term = self._term(bl["t"])
            x.span = bl["sp"]
            if bl["cl"]:
                x.stmts = []
                x.term = ("resume",)
            r.blocks.append(x)
        b2 = {k: v for k, v in b.items() if k != "prom"}
        r.prom = [self._body(key + "::promoted[%d]" % i, b2, p) for i, p in enumerate(b.get("prom", []))]
        self._prepare(r)
        return r

    def _op(self, o):
        if o[0] in ("cp", "mv"):
            return (o[0], tup(o[1]))
        if o[0] == "k":
            return ("k", o[1])
        return tup(o)

    def _rv(self, r):
        k = r[0]
        if k == "use":
            return ("use", self._op(r[1]))
        if k == "repeat":
            return ("repeat", self._op(r[1]), r[2])
        if k == "cast":
            return ("cast", r[1], self._op(r[2]), r[3])
        if k == "bin":
            return ("bin", r[1], self._op(r[2]), self._op(r[3]))
        if k == "un":
            return ("un", r[1], self._op(r[2]))
        if k == "agg":
            return ("agg", r[1], r[2], r[3], tuple(self._op(o) for o in r[4]))
        return tup(r)

    def _term(self, t):
        k = t[0]
        if k == "drop":
            return ("goto", t[2])
        if k == "switch":
            return ("switch", self._op(t[1]), tuple((v, b) for v, b in t[2]), t[3], t[4])
        if k == "call":
            return ("call", t[1], tuple(self._op(a) for a in t[2]), tup(t[3]), t[4])
        if k == "tailcall":
            return ("call", t[1], tuple(self._op(a) for a in t[2]), (0, ()), "ret")
        if k == "assert":
            m = t[4]
            if m[0] == "bounds":
                m = ("bounds", self._op(m[1]), self._op(m[2]))
            elif m[0] == "overflow":
                m = ("overflow", m[1], self._op(m[2]), self._op(m[3]))
            else:
                m = tuple(m)
            return ("assert", self._op(t[1]), t[2], t[3], m)
        return tup(t)

    def _succ(self, t):
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [b for _, b in t[2]] + [t[3]]
        if k == "call":
            return [t[4]] if isinstance(t[4], int) else []
        if k == "assert":
            return [t[3]]
        return []

    def _prepare(self, r):
        B = r.blocks
        # collapse empty goto chains
        def res(b, seen=()):
            while True:
                x = B[b]
                if x.term[0] == "goto" and not any(s[0] in ("=", "sd") for s in x.stmts) and x.term[1] != b and b not in seen:
                    seen = seen + (b,)
                    b = x.term[1]
                else:
                    return b
        # switches on drop flags: all targets equal after chain collapse -> goto
        changed = True
        while changed:
            changed = False
            for x in B:
                if x.term[0] == "switch":
                    ts = {res(b) for b in self._succ(x.term) if B[b].term[0] != "unreachable"}
                    if len(ts) == 1:
                        x.term = ("goto", next(iter(ts)))
                        changed = True
        # natural loops (back edges by DFS), then an RPO in which loop exits come after loop bodies
        n = len(B)
        succ = [self._succ(x.term) for x in B]
        state = [0] * n
        back = []
        st = [(0, iter(succ[0]))]
        state[0] = 1
        while st:
            b, it = st[-1]
            for s in it:
                if state[s] == 0:
                    state[s] = 1
                    st.append((s, iter(succ[s])))
                    break
                elif state[s] == 1:
                    back.append((b, s))
            else:
                state[b] = 2
                st.pop()
        preds = [[] for _ in range(n)]
        for b in range(n):
            if state[b]:
                for s in succ[b]:
                    preds[s].append(b)
        loops = {}
        for u, h in back:
            body = loops.setdefault(h, {h})
            wl = [u]
            while wl:
                x = wl.pop()
                if x in body:
                    continue
                body.add(x)
                wl.extend(preds[x])
        r.loops = loops
        r.heads = set(loops)
        depth_of = lambda b: [h for h in loops if b in loops[h]]
        r.nloops = len(loops)
        order = []
        seen = set()

        def visit(b):
            stack = [(b, None)]
            seen.add(b)
            while stack:
                x, it = stack.pop()
                if it is None:
                    ss = succ[x]
                    inl = [h for h in loops if x in loops[h]]
                    # successors leaving more loops are visited first => placed later in RPO
                    ss = sorted(ss, key=lambda s: sum(1 for h in inl if s in loops[h]))
                    it = iter(ss)
                pushed = False
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        stack.append((x, it))
                        stack.append((s, None))
                        pushed = True
                        break
                if not pushed:
                    order.append(x)
        visit(0)
        order.reverse()
        r.order = {b: i for i, b in enumerate(order)}
        # borrowed locals
        bor = set()
        for x in B:
            for s in x.stmts:
                if s[0] == "=" and s[2][0] in ("ref", "raw"):
                    pl = s[2][1]
                    if not any(e[0] == "d" for e in pl[1]):
                        bor.add(pl[0])
        r.borrowed = bor
        # liveness
        def uses_place(p, acc):
            acc.add(p[0])
            for e in p[1]:
                if e[0] == "i":
                    acc.add(e[1])
        def uses_op(o, acc):
            if o[0] in ("cp", "mv"):
                uses_place(o[1], acc)
        def uses_rv(v, acc):
            k = v[0]
            if k in ("use",):
                uses_op(v[1], acc)
            elif k == "repeat":
                uses_op(v[1], acc)
            elif k in ("ref", "raw", "discr"):
                uses_place(v[1], acc)
            elif k == "cast":
                uses_op(v[2], acc)
            elif k == "bin":
                uses_op(v[2], acc); uses_op(v[3], acc)
            elif k == "un":
                uses_op(v[2], acc)
            elif k == "agg":
                for o in v[4]:
                    uses_op(o, acc)
        live = [set() for _ in range(n)]
        ch = True
        po = order[::-1]
        while ch:
            ch = False
            for b in po:
                x = B[b]
                L = set()
                for s in succ[b]:
                    L |= live[s]
                t = x.term
                if t[0] == "ret":
                    L.add(0)
                acc = set()
                if t[0] == "switch":
                    uses_op(t[1], acc)
                elif t[0] == "call":
                    if not t[3][1]:
                        L.discard(t[3][0])
                    else:
                        uses_place(t[3], acc)
                    if t[4] == "ret":
                        pass
                    for o in t[2]:
                        uses_op(o, acc)
                    if "dyn" in t[1]:
                        uses_op(self._op(t[1]["dyn"]), acc)
                elif t[0] == "assert":
                    uses_op(t[1], acc)
                    for o in t[4][1:]:
                        if isinstance(o, tuple):
                            uses_op(o, acc)
                L |= acc
                for s in reversed(x.stmts):
                    if s[0] == "=":
                        if not s[1][1]:
                            L.discard(s[1][0])
                        acc = set()
                        if s[1][1]:
                            uses_place(s[1], acc)
                        uses_rv(s[2], acc)
                        L |= acc
                    elif s[0] == "sd":
                        L.add(s[1][0])
                    elif s[0] == "assume":
                        uses_op(s[1], L)
                if L - live[b]:
                    live[b] |= L
                    ch = True
        r.live = live
        r.named = {p[0] for nme, p in r.names if not p[1]}

    # ------------------------------------------------------------------
    def ty(self, i):
        return self.types[i]

    def find_type(self, suffix):
        for i, t in enumerate(self.types):
            if t.get("p", "").endswith(suffix) and t.get("k") in ("struct", "enum"):
                return i
        return None
