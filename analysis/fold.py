"""The fold of the event stream into the tree: one-step transfer of every event kind from an arbitrary stack."""
from engine import Engine, State, I, K, B, TRUE, FALSE, UNIT, UNK, shift, Undecided
import models, terms
from models import some, none, target
from terms import FACTS, TermClient, has
from parser_client import Missing

OP = ("curop",)
ROWS_GUARD = 20000


class Restart(Exception):
    pass


class Row:
    __slots__ = ("op", "facts", "stack", "kind", "val", "taint", "note")


class FoldClient(TermClient):
    """stack value: ("fst", below, entries, taken): `taken` frames of the unknown stack were looked at,
    `entries` are the known frames now on top of `below`, which is "any" (the root frame and zero or
    more others) or "none"."""

    def __init__(self, prog):
        super().__init__(prog)
        self.frame_ty = None
        self.root = None
        self.rows = []
        self.arrived = 0
        self.typed = {}
        self.ints = None
        self.vary = set()

    # ------------------------------------------------------------ stack
    def fr(self, st, j):
        return ("o", self.frame_ty, ("fr", j))

    def take(self, E, st, x):
        """look at one more frame of the unknown part: (state, value of stack)"""
        _, below, ent, n = x
        if below == "none":
            return []
        s1, s2 = st, st.copy()
        term = ("fr", n)
        self.learn(s1, ("disc", term, self.vname(self.frame_ty, self.root)))
        self.learn(s2, ("ndisc", term, self.vname(self.frame_ty, self.root)))
        return [(s1, ("fst", "none", (self.fr(s1, n),) + ent, n + 1)), (s2, ("fst", "any", (self.fr(s2, n),) + ent, n + 1))]

    def tops(self, E, st, obj, path, x):
        """(state, index of the top entry or None), stack stored back"""
        if x[2]:
            return [(st, len(x[2]) - 1)]
        if x[1] == "none":
            return [(st, None)]
        out = []
        for s, v in self.take(E, st, x):
            E.store(s, obj, path, v, hook=False)
            out.append((s, len(v[2]) - 1))
        return out

    def child(self, E, st, v, e):
        if v == ("opsv",):
            if e[0] == "ix" and e[1][0] == "o" and e[1][2] == ("opix",):
                return st.mem[OP]
            if self.ints is None:
                raise Undecided("the events are not visited one by one")
            E.taint(st, "another event than the current one")
            return UNK
        if v[0] == "fst" and e[0] == "en":
            return v[2][e[1]] if e[1] < len(v[2]) else UNK
        return super().child(E, st, v, e)

    def setpath(self, E, st, v, path, new):
        if v[0] == "fst" and path[0][0] == "en":
            j = path[0][1]
            if j >= len(v[2]):
                E.taint(st, "store below the known frames")
                return v
            ent = list(v[2])
            ent[j] = E.setpath(st, ent[j], path[1:], new)
            return ("fst", v[1], tuple(ent), v[3])
        return super().setpath(E, st, v, path, new)

    def vec_push(self, E, st, obj, path, x, v, ctx):
        if x[0] == "fst":
            if len(x[2]) > 6:
                raise Undecided("an event pushes an unbounded number of frames")
            E.store(st, obj, path, ("fst", x[1], x[2] + (v,), x[3]), hook=False)
            return [(st, UNIT)]
        return super().vec_push(E, st, obj, path, x, v, ctx)

    def vec_pop(self, E, st, obj, path, x, ctx):
        if x[0] == "fst":
            out = []
            for s, j in self.tops(E, st, obj, path, x):
                if j is None:
                    out.append((s, none(E)))
                    continue
                y = E.load(s, obj, path)
                E.store(s, obj, path, ("fst", y[1], y[2][:-1], y[3]), hook=False)
                out.append((s, some(E, y[2][-1])))
            return out
        return super().vec_pop(E, st, obj, path, x, ctx)

    def len_of(self, E, st, obj, path, x):
        if x[0] == "fst":
            # height: the unknown part counts as ("height",)
            d = len(x[2]) - x[3]
            if x[1] == "none":
                return [(st, K(len(x[2])))]
            t = ("height",) if d == 0 else ("add", ("height",), ("int", d))
            return [(st, ("o", self.usize(), t))]
        return super().len_of(E, st, obj, path, x)

    def m_deref(self, E, st, d, args, ctx):
        v = args[0]
        if v[0] == "r":
            x = E.load(st, v[1], v[2])
            if x[0] == "fst":
                return [(st, v)]
        return super().m_deref(E, st, d, args, ctx)

    # ------------------------------------------------------------ events
    def it_hook(self, E, st, d, it, back):
        rng = models.is_range(E, it) and it[0] == "a" and len(it[3]) == 2
        if rng and it[3][1] == I(9):
            lo, hi = it[3]
        elif it[0] == "sit" and it[1] == ("ops",):
            lo, hi = it[3], it[4]
        else:
            return None
        if back or hi != I(9):
            raise Undecided("the events are not visited in order")
        self.carried(E, st)
        self.step(E, st, "next")
        out = []
        for s, t in E.compare(st, "Lt", lo, hi):
            s.mem.pop(FACTS, None)
            for o in [o for o in s.mem if o[0] == "tm"]:
                if not any(E.refers(v, o) for v in s.mem.values()):
                    del s.mem[o]
            s.taint = frozenset()
            if t == TRUE:
                s.mem[OP] = ("o", self.op_ty, OP)
                if rng:
                    out.append((s, ("a", it[1], it[2], (shift(lo, 1), hi)), ("o", self.usize(), ("opix",))))
                else:
                    out.append((s, ("sit", it[1], it[2], shift(lo, 1), hi), ("r", OP, ())))
            else:
                s.mem[OP] = ("end",)
                out.append((s, it, None))
        return out

    term_index = True

    def compare(self, E, st, op, a, b):
        if op == "Lt" and a[0] == "o" and a[2] == ("opix",) and b == I(9):
            return [(st, TRUE)]
        return super().compare(E, st, op, a, b)

    def carried(self, E, st):
        """a number kept from one event to the next is not related to the stack: forget what it is"""
        now = {o: v for o, v in st.mem.items() if v and v[0] == "i" and len(o) == 2 and isinstance(o[1], int)}
        if self.ints is None:
            self.ints = now
        for o in self.vary:
            if o in st.mem:
                st.mem[o] = ("o", self.entry.locals[o[1]], ("carried", o))
        for o, v in now.items():
            if o in self.vary:
                continue
            if self.ints.get(o) != v:
                self.vary.add(o)
                raise Restart()

    def binop(self, E, st, op, a, b):
        r = super().binop(E, st, op, a, b)
        if r is not None and has(tuple(v for _, v in r), "carried"):
            for s, _ in r:
                E.taint(s, "arithmetic on a number kept from one event to the next")
        return r

    def step(self, E, st, kind, val=None):
        """an event has been handled: record its effect and forget it"""
        found = []
        for o, v in sorted(st.mem.items(), key=repr):
            if o[0] == "ret":
                continue
            nv = self.scan(E, st, v, found)
            if nv is not v:
                st.mem[o] = nv
        self.arrived += 1
        if not found and kind == "next":
            raise Undecided("no stack of open nodes")
        if kind == "next" and len(found) > 1:
            raise Undecided("more than one stack of open nodes")
        r = Row()
        r.op = st.mem.get(OP)
        r.facts = self.facts(st)
        r.stack = found[0] if found else None
        if r.stack is not None and r.stack[0] == "fst":
            r.stack = ("fst", r.stack[1], tuple(self.reify(E, st, x) for x in r.stack[2]), r.stack[3])
        r.kind = kind
        r.val = val
        r.taint = st.taint
        r.note = None
        if r.op is not None or (found and found[0][0] == "init"):
            self.rows.append(r)
            if len(self.rows) > ROWS_GUARD:
                raise Undecided("too many cases")

    def scan(self, E, st, v, found):
        """replace the stack inside a value by an arbitrary one"""
        if not v:
            return v
        if v[0] == "fst":
            found.append(v)
            return ("fst", "any", (), 0)
        if v[0] == "V" and self.is_stack(v):
            found.append(("init", v[2]))
            x = v[2]
            if not (x[0] == "snoc" and x[1] == ("nil",) and x[2][0] == "con"):
                raise Undecided("the stack does not start with one frame")
            self.frame_ty, k, _ = x[2][1]
            self.root = k
            self.root_init = x[2]
            return ("fst", "any", (), 0)
        ch = False
        out = []
        for x in v:
            if isinstance(x, tuple) and x and isinstance(x[0], (str, tuple)):
                y = self.scan(E, st, x, found)
                ch = ch or y is not x
                out.append(y)
            else:
                out.append(x)
        return tuple(out) if ch else v

    def is_stack(self, v):
        t = self.T[v[1]] if isinstance(v[1], int) else {}
        return t.get("k") == "enum" and t.get("local") and len(t.get("vs", [])) >= 12 and v[2][0] == "snoc"

    def mem_take(self, E, st, obj, path, x):
        if x[0] == "o" and x[1] == self.frame_ty:
            return None
        return super().mem_take(E, st, obj, path, x)


def install(E, C):
    M = E.models
    SL = "core::slice::<impl [T]>::"

    def over(name, f):
        g = M.get(name)

        def m(E, st, d, args, ctx):
            r = f(E, st, d, args, ctx)
            return r if r is not None else (g(E, st, d, args, ctx) if g else None)
        M[name] = m

    def fst(E, st, v):
        x = target(E, st, v)
        if x and x[2][0] == "fst":
            return x
        if x and x[2][0] == "r":
            return fst(E, st, x[2])
        return None

    def m_last(E, st, d, args, ctx):
        x = fst(E, st, args[0])
        if not x:
            return None
        out = []
        for s, j in C.tops(E, st, *x):
            out.append((s, none(E) if j is None else some(E, ("r", x[0], x[1] + (("en", j),)))))
        return out
    over(SL + "last", m_last)
    over(SL + "last_mut", m_last)

    def m_is_empty(E, st, d, args, ctx):
        x = fst(E, st, args[0])
        if not x:
            return None
        return [(st, B(not x[2][2] and x[2][1] == "none"))]
    over(SL + "is_empty", m_is_empty)
    over("alloc::vec::Vec::<T, A>::is_empty", m_is_empty)

    # counting frames: stack.iter().filter(p).count()
    def m_iter(E, st, d, args, ctx):
        x = fst(E, st, args[0])
        if not x:
            return None
        y = x[2]
        if y[2] and not (len(y[2]) == y[3] and all(e == C.fr(st, y[3] - 1 - i) for i, e in enumerate(y[2]))):
            return None
        return [(st, ("it", ("frames",)))]
    over(SL + "iter", m_iter)

    def m_into(E, st, d, args, ctx):
        return m_iter(E, st, d, args, ctx)
    over("core::iter::traits::collect::IntoIterator::into_iter", m_into)
    IT = "core::iter::traits::iterator::Iterator::"
    fl = M[IT + "filter"]

    def variants_of(E, st, d, f):
        l = C.lam(E, st, d, f, C.frame_ty)
        if l is None:
            return None
        pos = set()
        for fs, b in l:
            if any(x[0] != "disc" or x[1] != ("elem",) for x in fs):
                return None
            if b:
                pos |= {x[2] for x in fs}
                if not fs:
                    pos = {v["n"] for v in C.T[C.frame_ty]["vs"]}
        return tuple(sorted(pos))

    def m_filter(E, st, d, args, ctx):
        if args[0] == ("it", ("frames",)):
            # a &&Frame predicate: the closure gets a reference to the item
            ft = C.frame_ty
            tmp = models.fresh_obj(st, d, "flt")
            s0 = st.copy()
            s0.mem[tmp] = ("o", ft, ("elem",))
            s0.mem[(d, "fltr")] = ("r", tmp, ())
            base = len(C.facts(s0))
            pos = set()
            for s, r in E.call_value(s0, d, args[1], [("r", (d, "fltr"), ())]):
                for s2, b in E.truth(s, r):
                    fs = C.facts(s2)[base:]
                    if s2.taint - st.taint or any(x[0] != "disc" or x[1] != ("elem",) for x in fs):
                        return None
                    if b:
                        pos |= {x[2] for x in fs} if fs else {v["n"] for v in C.T[ft]["vs"]}
            return [(st, ("it", ("frames", tuple(sorted(pos)))))]
        return fl(E, st, d, args, ctx)
    M[IT + "filter"] = m_filter
    cnt = M[IT + "count"]

    def m_count(E, st, d, args, ctx):
        if args[0][0] == "it" and args[0][1][0] == "frames":
            vs = args[0][1][1] if len(args[0][1]) > 1 else None
            return [(st, ("o", C.usize(), ("height",) if vs is None else ("nframes", vs)))]
        return cnt(E, st, d, args, ctx)
    M[IT + "count"] = m_count
    M["<core::iter::adapters::filter::Filter<I, P> as core::iter::traits::iterator::Iterator>::count"] = m_count


def find(prog):
    """the fold: fn(&[Op], &str) -> Result<Yamd, _>"""
    T = prog.types
    for b in prog.bodies.values():
        if not b.local or b.argc != 2 or b.parent:
            continue
        r, a, s = T[b.locals[0]], T[b.locals[1]], T[b.locals[2]]
        if r.get("p") == "core::result::Result" and (T[r["args"][0]].get("p") or "").endswith("::Yamd") and a["k"] == "ref" and \
                T[a["t"]]["k"] == "slice" and (T[T[a["t"]]["t"]].get("p") or "").endswith("::Op") and s["k"] == "ref" and T[s["t"]]["k"] == "str":
            yield b


def run(prog):
    bs = list(find(prog))
    if not bs:
        raise Missing("a function from (&[Op], &str) to Result<Yamd, _>")
    vary = set()
    while True:
        try:
            return run1(prog, bs[0], vary)
        except Restart:
            pass


def run1(prog, b, vary):
    C = FoldClient(prog)
    C.vary = vary
    C.entry = b
    E = Engine(prog, C)
    terms.install(E, C)
    install(E, C)
    E.maxpart = 20000
    C.op_ty = prog.types[prog.types[b.locals[1]]["t"]]["t"]
    st = State()
    st.z = st.z.add(0, 9, 0)
    st.mem[("ops",)] = ("opsv",)
    res = []
    C.error = None
    try:
        res = E.exec_body(b, [("sl", ("ops",), (), K(0), I(9)), ("s", ("source",))], st, 1)
        for s, v in res:
            C.step(E, s, "ret", v)
            C.rows[-1].val = None if v[0] != "a" else (v[2], C.reify(E, s, v[3][0]) if v[3] else None)
            if v[0] == "o":
                C.rows[-1].val = ("?",)
    except Restart:
        raise
    except Undecided as e:
        C.error = str(e)
    except Exception as e:          # the analysis met something it does not know
        import os, traceback
        if os.environ.get("DBG"):
            traceback.print_exc()
        C.error = "%s: %s" % (type(e).__name__, e)
    C.E = E
    return C


if __name__ == "__main__":
    import sys, mir
    P = mir.Prog(sys.argv[1])
    C = run(P)
    print("error", C.error, "rows", len(C.rows), "frame", C.frame_ty and P.types[C.frame_ty]["s"], C.root)
    print(C.E.stats["unmodelled"])
    for f in C.E.findings.values():
        print(f)
    for r in C.rows[: int(sys.argv[2]) if len(sys.argv) > 2 else 30]:
        print(r.kind, r.op, r.facts, "\n    ", r.stack, r.val, sorted(r.taint))
