"""The lexer against the documented token rules.

The lexer's MIR is interpreted over an arbitrary character stream.  Characters are classes (every
character the code or the documentation singles out, and "any other" of each UTF-8 width); offsets,
columns and rows are symbols of the zone domain.  A reference lexer that follows the documented
rules consumes the same classes in lock step, and every token the code returns is compared with it
and with the place where the previous token ended.
"""
import time

import engine
from engine import I, K, B, TRUE, FALSE, UNIT, UNK, shift, Undecided
import models
from models import some, none, target, fresh_obj

GH = ("lexghost",)
LX = ("lexer",)
RUNS = {"~": "Tilde", "*": "Star", "}": "RightCurlyBrace", "{": "LeftCurlyBrace", " ": "Space", "-": "Minus", "#": "Hash",
        ">": "GreaterThan", "!": "Bang", "`": "Backtick", "+": "Plus"}
SINGLE = {"[": "LeftSquareBracket", "]": "RightSquareBracket", "(": "LeftParenthesis", ")": "RightParenthesis", "_": "Underscore",
          "|": "Pipe"}
KINDS = sorted(set(RUNS.values()) | set(SINGLE.values()) | {"Terminator", "Eol", "CollapsibleStart", "CollapsibleEnd", "Literal"})
SPECIALS = sorted(set(RUNS) | set(SINGLE) | set("\n\r%\\"))
PROBES = "\t\x0b\x0c\x00a0A\x7f\u0085\u00a0\u00e9\u0661\u2028\u3000\uff01\U0001f600"
END = "end"
NONE = ("none",)
KEPT = ("Eol", "Terminator", "Literal")      # kinds still told apart once compared
STR = "core::str::<impl str>::"


class Missing(Exception):
    pass


def width(c):
    if isinstance(c, str):
        return int(c[1])
    return 1 if c < 0x80 else 2 if c < 0x800 else 3 if c < 0x10000 else 4


def show(c):
    return repr(chr(c)) if isinstance(c, int) else "another character of %s byte(s)" % c[1]


class LexClient:
    pruned = False
    relate = True

    def __init__(self, prog):
        self.p = prog
        self.T = prog.types
        self.find()
        cs = {ord(c) for c in SPECIALS} | self.consts()
        if self.probing:
            cs |= {ord(c) for c in PROBES}
        self.all = frozenset(cs) | {"o1", "o2", "o3", "o4"}
        self.full = self.all | {END}
        self.checked = 0
        self.kinds_seen = set()

    # ------------------------------------------------------------ anchors
    def find(self):
        T = self.T
        self.next = self.new = self.tok = None
        for b in self.p.bodies.values():
            if not b.local or b.argc != 1 or not b.path.endswith("core::iter::traits::iterator::Iterator>::next"):
                continue
            r, a = T[b.locals[0]], T[b.locals[1]]
            if r.get("p") != "core::option::Option" or a["k"] != "ref":
                continue
            tk = T[r["args"][0]]
            if tk["k"] != "struct" or not tk.get("local"):
                continue
            fs = [f[0] for f in tk["vs"][0]["f"]]
            if {"kind", "range", "position", "escaped"} <= set(fs):
                self.next, self.tok, self.lex = b, r["args"][0], a["t"]
        if self.next is None:
            raise Missing("the iterator of tokens")
        for b in self.p.bodies.values():
            if b.local and b.argc == 1 and b.locals[0] == self.lex or b.local and b.argc == 1 and T[b.locals[0]].get("p") == T[self.lex].get("p"):
                t = T[b.locals[1]]
                if t["k"] == "ref" and T[t["t"]]["k"] == "str" and not b.parent:
                    if self.new is None or b.path.endswith("::new"):
                        self.new = b
        if self.new is None:
            raise Missing("the constructor of the lexer")
        fs = {f[0]: (i, f[1]) for i, f in enumerate(T[self.tok]["vs"][0]["f"])}
        self.F = {n: fs[n][0] for n in fs}
        self.kind_ty = fs["kind"][1]
        self.pos = {f[0]: i for i, f in enumerate(T[fs["position"][1]]["vs"][0]["f"])}
        self.kname = [v["n"] for v in T[self.kind_ty]["vs"]]
        # what the lexer's own code calls
        seen, todo, self.probing = set(), [self.next, self.new], False
        while todo:
            b = todo.pop()
            if b.key in seen:
                continue
            seen.add(b.key)
            for bl in b.blocks:
                if bl.term[0] != "call":
                    continue
                c = bl.term[1]
                q = c.get("rp") or c.get("p") or ""
                if q.startswith("core::char::") or "<impl char>" in q or "is_ascii" in q:
                    self.probing = True
                nb = self.p.bodies.get(c.get("inst"))
                if nb is not None and nb.local:
                    todo.append(nb)
            for k in self.p.bodies.values():
                if k.parent and (k.parent == b.path or k.parent == b.key) and k.local:
                    todo.append(k)
        self.code = seen
        self.sites = {}                 # where each kind is built
        for k in sorted(seen):
            b = self.p.bodies[k]
            for bl in b.blocks:
                for x in bl.stmts:
                    r = x[2] if x[0] == "=" else None
                    if r and r[0] == "agg" and r[1] == "adt" and r[2] == self.kind_ty and x[3]:
                        self.sites.setdefault(self.kname[r[3]], set()).add("%s (%s)" % (b.path, x[3]))

    def consts(self):
        out = set()

        def walk(x):
            if isinstance(x, dict):
                if x.get("c") == "int" and self.T[x["ty"]]["k"] == "char":
                    out.add(x["v"])
                for y in x.values():
                    walk(y)
            elif isinstance(x, (list, tuple)):
                for y in x:
                    walk(y)
        for k in self.code:
            b = self.p.bodies[k]
            for bb in [b] + [q for q in b.prom if q is not None]:
                for bl in bb.blocks:
                    walk(bl.stmts)
                    walk(bl.term)
                    if bl.term[0] == "switch" and isinstance(bl.term[4], int) and self.T[bl.term[4]]["k"] == "char":
                        out |= {v for v, _ in bl.term[2]}
        return {c for c in out if 0 <= c < 0x110000}

    # ------------------------------------------------------------ ghost
    def g(self, st):
        return dict(zip(("gp", "L", "cov", "row", "col", "pend", "hold", "bs", "done", "gaps", "la"), st.mem[GH][1:]))

    def put(self, st, g):
        st.mem[GH] = ("gh", g["gp"], g["L"], g["cov"], g["row"], g["col"], g["pend"], g["hold"], g["bs"], g["done"], g["gaps"], g["la"])

    def mask(self, g, k):
        la = g["la"]
        return la[k + 1] if k + 1 < len(la) else self.full

    def setmask(self, g, k, m):
        la = list(g["la"])
        while len(la) <= k + 1:
            la.append(self.full)
        la[k + 1] = m
        while len(la) > 1 and la[-1] == self.full:
            la.pop()
        g["la"] = tuple(la)

    def narrow(self, st, k, m):
        """the k-th character ahead is one of m; None when it cannot be"""
        g = self.g(st)
        m = self.mask(g, k) & m
        if not m:
            return None
        st = st.copy()
        self.setmask(g, k, m)
        self.put(st, g)
        if k == 0:
            z = st.z
            if m == {END}:
                z = z.add(g["L"][1], g["gp"][1], g["gp"][2] - g["L"][2])
                z = z and z.add(g["gp"][1], g["L"][1], g["L"][2] - g["gp"][2])
            elif END not in m:
                w = min(width(c) for c in m)
                z = z.add(g["gp"][1], g["L"][1], g["L"][2] - g["gp"][2] - w)
            if z is None:
                return None
            st.z = z
        return st

    # the reference lexer --------------------------------------------
    def complete(self, g):
        if g["pend"] != NONE:
            g["done"] = g["done"] + (g["pend"],)
            g["pend"] = NONE

    def lit(self, g, start, end, row, col):
        p = g["pend"]
        if p[0] == "gt" and p[1] == "Literal":
            g["pend"] = p[:3] + (end,) + p[4:]
        else:
            self.complete(g)
            g["pend"] = ("gt", "Literal", start, end, 0, row, col, 0)

    def flush_hold(self, g):
        h = g["hold"]
        if h != NONE:
            g["hold"] = NONE
            self.lit(g, h[2], shift(h[2], 1), h[3], h[4])

    def newline(self, g, s, e, row, col):
        p = g["pend"]
        if p[0] == "gt" and p[1] == "Eol":
            g["done"] = g["done"] + (("gt", "Terminator", p[2], e, 0, p[5], p[6], 0),)
            g["pend"] = NONE
        else:
            self.complete(g)
            g["pend"] = ("gt", "Eol", s, e, 0, row, col, 0)
        g["row"] = shift(row, 1)
        g["col"] = K(0)

    def step(self, g, c):
        """the documented rules, one character"""
        at, row, col = g["gp"], g["row"], g["col"]
        w = width(c)
        g["gp"] = shift(at, w)
        ch = chr(c) if isinstance(c, int) else None
        if g["bs"]:
            g["bs"] = 0
            g["pend"] = ("gt", "Literal", at, shift(at, w), 1, row, col, 0)
            g["col"] = shift(col, 1)
            return
        if ch != "\\":
            g["col"] = shift(col, 1)
        h = g["hold"]
        if h != NONE:
            if h[1] == ord("%") and ch == "}":
                g["hold"] = NONE
                self.complete(g)
                g["done"] = g["done"] + (("gt", "CollapsibleEnd", h[2], shift(at, 1), 0, h[3], h[4], 0),)
                return
            if h[1] == ord("\r") and ch == "\n":
                g["hold"] = NONE
                self.newline(g, h[2], shift(at, 1), h[3], h[4])
                return
            self.flush_hold(g)
        p = g["pend"]
        pk = p[1] if p[0] == "gt" else None
        if ch == "\n":
            self.newline(g, at, shift(at, 1), row, col)
        elif ch == "%" and pk == "LeftCurlyBrace" and p[7] == 1:
            g["pend"] = NONE
            g["done"] = g["done"] + (("gt", "CollapsibleStart", p[2], shift(at, 1), 0, p[5], p[6], 0),)
        elif ch in ("\r", "%"):
            g["hold"] = ("h", c, at, row, col)
        elif ch == "\\":
            self.complete(g)
            g["gaps"] = g["gaps"] + (at,)
            g["bs"] = 1
        elif ch == " " and pk == "Literal":
            self.lit(g, at, shift(at, 1), row, col)
        elif ch in RUNS:
            if pk == RUNS[ch]:
                g["pend"] = p[:3] + (shift(at, 1),) + p[4:7] + (0,)
            else:
                self.complete(g)
                g["pend"] = ("gt", RUNS[ch], at, shift(at, 1), 0, row, col, 1 if ch == "{" else 0)
        elif ch in SINGLE:
            self.complete(g)
            g["done"] = g["done"] + (("gt", SINGLE[ch], at, shift(at, 1), 0, row, col, 0),)
        else:
            self.lit(g, at, shift(at, w), row, col)

    def settle(self, g):
        """close what the known next character cannot extend"""
        m = self.mask(g, 0)
        if g["bs"]:
            return
        h = g["hold"]
        if h != NONE and (ord("}") if h[1] == ord("%") else ord("\n")) not in m:
            self.flush_hold(g)
        if g["hold"] != NONE:
            return
        p = g["pend"]
        if p == NONE:
            return
        k = p[1]
        if k == "Eol":
            more = {ord("\n"), ord("\r")}
        elif k == "Literal":
            more = self.all - {ord(c) for c in SPECIALS if c not in " \r%"}
        else:
            more = {ord(c) for c in RUNS if RUNS[c] == k}
            if p[7]:
                more.add(ord("%"))
        if not (more & m):
            self.complete(g)

    # consumption ----------------------------------------------------
    def consume(self, E, st):
        """the lexer takes the next character: list of (state, None | (offset, class))"""
        out = []
        g0 = self.g(st)
        if len(g0["done"]) > 6:
            self.pruned = True          # tokens held back further than the analysis follows
            return out
        for c in sorted(self.mask(g0, 0), key=str):
            s = self.narrow(st, 0, frozenset({c}))
            if s is None:
                continue
            g = self.g(s)
            if c == END:
                self.settle(g)
                self.put(s, g)
                out.append((s, None))
                continue
            at = g["gp"]
            la = g["la"]
            g["la"] = ("la",) + la[2:]
            self.step(g, c)
            z = s.z.add(g["gp"][1], g["L"][1], g["L"][2] - g["gp"][2])
            if z is None:
                continue
            s.z = z
            self.settle(g)
            self.put(s, g)
            self.shift_ahead(s, c)
            out.append((s, (at, c)))
        return out

    def shift_ahead(self, st, c):
        """slots count from the next character; the one just taken becomes its class"""
        def f(v):
            if not v:
                return v
            t = v[0]
            if t == "lm":
                return ("lc", c) if v[1] == 0 else ("lm", v[1] - 1)
            if t == "chit":
                return ("chit", v[1] - 1) + v[2:]
            if t == "r" and v[1][0] == "lap":
                return ("r", ("lap", v[1][1] - 1)) + v[2:]
            if t == "i" or t == "la":
                return v
            ch, o = False, []
            for x in v:
                y = f(x) if isinstance(x, tuple) and x else x
                ch = ch or y is not x
                o.append(y)
            return tuple(o) if ch else v
        laps = {}
        for o in list(st.mem):
            v = st.mem[o]
            n = f(v)
            if n is not v:
                st.mem[o] = n
            if o[0] == "lap":
                laps[("lap", o[1] - 1)] = st.mem.pop(o)
        st.mem.update(laps)

    # ------------------------------------------------------------ engine hooks
    def charconst(self, c):
        return ("lc", c)

    def leading(self, st):
        return st.mem[GH][1][1]

    def child(self, E, st, v, e):
        if v[0] == "dq" and e[0] == "ix":
            c = st.const(e[1])
            if c is not None and 0 <= c < len(v) - 1:
                return v[c + 1]
        if v[0] == "mt" and e[0] == "f":
            if e[1] == self.F["kind"]:
                return ("mk", v[2])
            for i, n in enumerate(("range", "position", "escaped")):
                if e[1] == self.F[n]:
                    return v[3 + i]
        return UNK

    def mkcase(self, E, st, grp, disc):
        """whether a kind no longer told apart is this one: list of (state, bool)"""
        vs = self.T[self.kind_ty]["vs"]
        n = [v["n"] for v in vs if v["d"] == disc]
        if grp == "kept" and n[0:1] and n[0] in KEPT or not n:
            return [(st, 0)]
        E.taint(st, "the kind of a token already compared with the reference")
        return [(st, 1), (st.copy(), 0)]

    def setpath(self, E, st, v, path, new):
        if v[0] == "dq" and path and path[0][0] == "ix":
            c = st.const(path[0][1])
            if c is not None and 0 <= c < len(v) - 1:
                x = E.setpath(st, v[c + 1], path[1:], new) if len(path) > 1 else new
                return v[:c + 1] + (x,) + v[c + 2:]
        return UNK

    def pre_store(self, E, st, obj, path, val):
        return False

    def seqlen(self, E, st, v):
        if v[0] == "dq":
            return K(len(v) - 1)
        return None

    def sub(self, E, st, a, b):
        return None

    def toint(self, E, st, v):
        return v

    def refine_cmp(self, E, s, op, a, b):
        return s

    def chars(self, st, v):
        """(slot, possible classes) of a character value"""
        if v[0] == "lc":
            return None, frozenset({v[1]})
        if v[0] == "lm":
            return v[1], self.mask(self.g(st), v[1]) - {END}
        return None

    def split(self, E, st, v, pred):
        """split on a predicate over classes: pred(c) -> True/False/None"""
        slot, m = self.chars(st, v)
        out = []
        for want in (1, 0):
            part = frozenset(c for c in m if pred(c) in (bool(want), None))
            if not part:
                continue
            s = self.narrow(st, slot, part) if slot is not None else st.copy()
            if s is None:
                continue
            if any(pred(c) is None for c in part):
                E.taint(s, "a predicate over characters the classes do not tell apart")
            out.append((s, want))
        return out

    def compare(self, E, st, op, a, b):
        if a[0] in ("lc", "lm") and b[0] in ("lc", "lm"):
            if b[0] == "lm" and a[0] == "lc":
                a, b = b, a
                op = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(op, op)
            if b[0] == "lc" and isinstance(b[1], int):
                k = b[1]

                def pred(c):
                    if not isinstance(c, int):
                        if op in ("Eq", "Ne"):
                            return op == "Ne"
                        lo, hi = {"o1": (0, 0x7f), "o2": (0x80, 0x7ff), "o3": (0x800, 0xffff), "o4": (0x10000, 0x10ffff)}[c]
                        x, y = cmpop(op, lo, k), cmpop(op, hi, k)
                        return x if x == y else None
                    return cmpop(op, c, k)
                return [(s, B(x)) for s, x in self.split(E, st, a, pred)]
            if b[0] == "lc" and op in ("Eq", "Ne"):
                return [(s, B(x)) for s, x in self.split(E, st, a, lambda c: None if c == b[1] else op == "Ne")]
            E.taint(st, "two characters of the input compared")
            return [(st, TRUE), (st.copy(), FALSE)]
        if b[0] == "mkd":
            a, b = b, a
        if a[0] == "mkd" and b[0] == "i" and op in ("Eq", "Ne") and st.const(b) is not None:
            return [(s, B(bool(x) == (op == "Eq"))) for s, x in self.mkcase(E, st, a[1], st.const(b))]
        return None

    def truth(self, E, st, v):
        return None

    def switch(self, E, st, v, t):
        if v[0] == "mkd":
            out = []
            for val, tgt in t[2]:
                keep = None
                for s, x in self.mkcase(E, st, v[1], val):
                    if x:
                        out.append((tgt, s))
                    else:
                        keep = s
                st = keep
            out.append((t[3], st))
            return out
        if v[0] not in ("lc", "lm"):
            return None
        slot, m = self.chars(st, v)
        out = []
        for val, tgt in t[2]:
            if val in m:
                s = self.narrow(st, slot, frozenset({val})) if slot is not None else st.copy()
                if s is not None:
                    out.append((tgt, s))
                m = m - {val}
        if m:
            s = self.narrow(st, slot, m) if slot is not None else st
            if s is not None:
                out.append((t[3], s))
        return out

    def cast(self, E, st, kind, v, ty):
        if v[0] == "lc" and isinstance(v[1], int):
            t = self.T[ty]
            if t["k"] == "uint":
                return K(v[1] & ((1 << t.get("bits", 64)) - 1))
        if v[0] == "i" and self.T[ty]["k"] == "char":
            c = st.const(v)
            if c is not None:
                return ("lc", c)
        return None

    def strlen(self, E, st, v):
        if v == ("s", ("src",)):
            return [(st, self.g(st)["L"])]
        return [(st, E.sym(st))]

    def discr(self, E, st, obj, path, v):
        if v[0] == "mk":
            return [(st, ("mkd", v[1]))]
        return None

    def agg(self, E, st, ty, variant, vals):
        return None

    def call_hook(self, E, b, args, st, depth):
        return None

    def shape_extra(self, E, st):
        return None

    def normalize(self, E, st):
        g = self.g(st)
        self.settle(g)
        g["gaps"] = g["gaps"][:1] + tuple(x for x in g["gaps"][1:] if not st.lt(x, g["cov"]))
        self.seal(st, g)
        self.put(st, g)
        used = set()

        def refs(v):
            if v[0] == "r" and v[1][0] == "lap":
                used.add(v[1])
            for x in v:
                if isinstance(x, tuple) and x:
                    refs(x)
        laps = [o for o in st.mem if o[0] == "lap"]
        if laps:
            for v in st.mem.values():
                refs(v)
            for o in laps:
                if o not in used:
                    del st.mem[o]

    def seal(self, st, g):
        """a stored token that is the reference's token needs no further telling apart from others"""
        lx = st.mem.get(LX)
        if lx is None or len(g["done"]) == 1:
            return
        done = list(g["done"])

        def tok(x, indq):
            for j, t in enumerate(done):
                if j and t[0] == "gt" and (indq or t[1] not in KEPT) and self.matches(st, x, t):
                    self.kinds_seen.add(t[1])
                    done[j] = ("mt", t[2], t[3], j, t[5], t[6])
                    f = x[3]
                    return ("mt", j, "any" if indq else "kept", f[self.F["range"]], f[self.F["position"]], f[self.F["escaped"]])
            return x

        def f(v, indq):
            if v[0] == "a" and v[1] == self.tok:
                return tok(v, indq)
            if v[0] in ("i", "chit"):
                return v
            if v[0] == "mt":
                return v[:2] + ("any",) + v[3:] if indq and v[2] != "any" else v
            q = v[0] == "dq"
            return tuple(f(x, indq or q) if isinstance(x, tuple) and x else x for x in v)
        last = g["done"][-1]
        n = f(lx, False)
        st.mem[LX] = n
        g["done"] = tuple(done)
        if done[-1] != last and g["pend"] == NONE and g["hold"] == NONE and not g["bs"]:
            # that the next character does not continue it is all the lookahead says
            cont = {ord(c) for c in RUNS if RUNS[c] == last[1]} | ({ord("%")} if last[1] == "LeftCurlyBrace" else set())
            m = self.mask(g, 0)
            if cont and len(g["la"]) == 2 and self.all - m and (self.all - m) <= cont and not self.mentions(st):
                g["la"] = ("la",)

    def mentions(self, st):
        """whether a value still talks about a character ahead"""
        def f(v):
            if v[0] == "lm" or v[0] == "r" and v[1][0] == "lap":
                return True
            return v[0] != "i" and any(isinstance(x, tuple) and x and f(x) for x in v)
        return any(f(v) for o, v in st.mem.items() if o[0] != "lap" and o != GH)

    def matches(self, st, v, t):
        f = v[3]
        kind, rng, pos, esc = f[self.F["kind"]], f[self.F["range"]], f[self.F["position"]], f[self.F["escaped"]]
        if kind[0] != "a" or rng[0] != "a" or pos[0] != "a" or esc[0] != "b" or any(x[0] != "i" for x in rng[3] + pos[3]):
            return False
        return self.kname[kind[2]] == t[1] and esc[1] == t[4] and st.eq(rng[3][0], t[2]) and st.eq(rng[3][1], t[3])

    def unseal(self, st, g):
        """the first finished token is gone: the others move up"""
        g["done"] = ("dn",) + tuple(t if t[0] == "gt" else t[:3] + (t[3] - 1,) + t[4:] for t in g["done"][2:])

        def f(v):
            if v[0] == "mt":
                return ("mt", v[1] - 1) + v[2:]
            if v[0] in ("i", "chit"):
                return v
            return tuple(f(x) if isinstance(x, tuple) and x else x for x in v)
        for o in (LX,):
            st.mem[o] = f(st.mem[o])

    def join_facts(self, E, s1, s2, r, slots):
        pass

    def sub_facts(self, E, inv, st, m):
        return True

    def gc_facts(self, E, st, keep):
        pass

    def rekey(self, st, keep):
        pass

    def progress_slots(self, E, st):
        return {"offset": st.mem[GH][1]}

    def bounded(self, E, st, k, v):
        return k == ("c", "offset")

    def trange(self, E, st, v):
        return None

    def to_iter(self, E, st, v):
        if v[0] == "dqi":
            return v
        if v[0] == "r":
            x = E.load(st, v[1], v[2])
            if x[0] in ("dqi", "chit"):
                return ("byref", v)
        return None

    def it_next(self, E, st, d, it, back):
        if it[0] == "dqi":
            if len(it) == 1:
                return [(st, it, None)]
            return [(st, it[:-1] if back else it[:1] + it[2:], it[-1] if back else it[1])]
        return None

    # lists of tokens kept in a vector
    def vec_push(self, E, st, obj, path, x, v, ctx):
        if x[0] != "dq":
            return None
        if len(x) > 8:
            raise Undecided("a queue that grows without being drained")
        E.store(st, obj, path, x + (v,), hook=False)
        return [(st, UNIT)]

    def vec_pop(self, E, st, obj, path, x, ctx):
        if x[0] != "dq":
            return None
        if len(x) == 1:
            return [(st, none(E))]
        E.store(st, obj, path, x[:-1], hook=False)
        return [(st, some(E, x[-1]))]

    def vec_truncate(self, E, st, obj, path, x, n, ctx):
        c = st.const(n) if n[0] == "i" else None
        if x[0] != "dq" or c is None:
            return None
        E.store(st, obj, path, x[:c + 1], hook=False)
        return [(st, UNIT)]

    def vec_insert(self, E, st, obj, path, x, i, v, ctx):
        c = st.const(i) if i[0] == "i" else None
        if x[0] != "dq" or c is None or c >= len(x) or len(x) > 8:
            return None
        E.store(st, obj, path, x[:c + 1] + (v,) + x[c + 1:], hook=False)
        return [(st, UNIT)]

    def vec_extend(self, E, st, obj, path, x, src, ctx):
        if x[0] != "dq":
            return None
        if src[0] == "a" and src[1] == E.OPT or src[0] == "a" and (self.T[src[1]].get("p") == "core::option::Option"):
            new = src[3] if src[2] == 1 else ()
        elif src[0] in ("dq", "dqi"):
            new = src[1:]
        elif src[0] == "a" and self.T[src[1]]["k"] == "array":
            new = src[3]
        else:
            return None
        if len(x) + len(new) > 9:
            raise Undecided("a queue that grows without being drained")
        E.store(st, obj, path, x + tuple(new), hook=False)
        return [(st, UNIT)]

    def len_of(self, E, st, obj, path, x):
        if x[0] == "dq":
            return [(st, K(len(x) - 1))]
        return None

    def mem_take(self, E, st, obj, path, x):
        if x[0] == "dq":
            E.store(st, obj, path, ("dq",), hook=False)
            return [(st, x)]
        return None

    def m_deref(self, E, st, d, args, ctx):
        return None

    def m_into_iter(self, E, st, d, args, ctx):
        v = args[0]
        if v[0] in ("chit", "dqi"):
            return [(st, v)]
        return None

    def m_next(self, E, st, d, args, ctx):
        t = target(E, st, args[0])
        if t and t[2][0] == "dqi":
            out = []
            for s, i, y in self.it_next(E, st, d, t[2], False):
                E.store(s, t[0], t[1], i, hook=False)
                out.append((s, none(E) if y is None else some(E, y)))
            return out
        return m_chnext(self, E, st, d, args, ctx)

    def vec_new(self, E, st, ctx):
        return [(st, ("dq",))]

    def eq_values(self, E, st, a, b, neg):
        if a[0] in ("lc", "lm") and b[0] in ("lc", "lm"):
            return self.compare(E, st, "Ne" if neg else "Eq", a, b)
        return None


def cmpop(op, a, b):
    return {"Eq": a == b, "Ne": a != b, "Lt": a < b, "Le": a <= b, "Gt": a > b, "Ge": a >= b}[op]


# ---------------------------------------------------------------- models
def cursor(E, st, ref):
    """the character iterator behind a reference"""
    t = target(E, st, ref)
    if t and t[2][0] == "chit":
        return t
    return None


def item(v, off, c):
    """what an iterator of this flavour yields"""
    return ("a", 0, 0, (off, c)) if v[2] == "ci" else c


def ahead_off(C, E, st, k):
    """offset of the k-th character ahead: list of (state, offset)"""
    out = [(st, C.g(st)["gp"])]
    for i in range(k):
        nx = []
        for s, o in out:
            by = {}
            for c in C.mask(C.g(s), i) - {END}:
                by.setdefault(width(c), set()).add(c)
            for w, m in sorted(by.items()):
                s2 = C.narrow(s, i, frozenset(m))
                if s2 is not None:
                    nx.append((s2, shift(o, w)))
        out = nx
    return out


def take1(C, E, st, ref):
    """advance a cursor: list of (state, item | None)"""
    obj, path, v = cursor(E, st, ref)
    k = v[1]
    if k < 0:
        E.taint(st, "an iterator left behind")
        return [(st, UNK)]
    if obj == LX:
        if k:
            E.taint(st, "the lexer's iterator is not at the lexer's position")
        out = []
        for s, r in C.consume(E, st):
            if r is None:
                out.append((s, None))
            else:
                # the cursor moved with the stream: it stays at the next character
                E.store(s, obj, path, v, hook=False)
                out.append((s, item(v, r[0], ("lc", r[1]))))
        return out
    if k > 4:
        raise Undecided("an iterator running ahead of the lexer")
    out = []
    for s, x in look(C, E, st, k, v):
        if x is not None:
            E.store(s, obj, path, ("chit", k + 1) + v[2:], hook=False)
        out.append((s, x))
    return out


def look(C, E, st, k, v):
    out = []
    s = C.narrow(st, k, frozenset({END}))
    if s is not None and not (k and END in C.mask(C.g(st), k - 1)):
        out.append((s, None))
    s = C.narrow(st, k, C.all)
    if s is not None:
        for s2, o in ahead_off(C, E, s, k):
            out.append((s2, item(v, o, ("lm", k))))
    return out


def m_chnext(C, E, st, d, args, ctx):
    t = cursor(E, st, args[0])
    if not t:
        return None
    return [(s, none(E) if x is None else some(E, x)) for s, x in take1(C, E, st, args[0])]


def install(E, C):
    M = E.models
    T = E.p.types

    def nxt(E, st, d, args, ctx):
        return m_chnext(C, E, st, d, args, ctx)

    def peek(E, st, d, args, ctx):
        t = cursor(E, st, args[0])
        if not t or t[2][1] < 0:
            return None
        out = []
        for s, x in look(C, E, st, t[2][1], t[2]):
            if x is None:
                out.append((s, none(E)))
            else:
                o = ("lap", t[2][1])
                s.mem[o] = x
                out.append((s, some(E, ("r", o, ()))))
        return out

    def next_if(E, st, d, args, ctx):
        t = cursor(E, st, args[0])
        if not t or t[2][1] < 0:
            return None
        out = []
        for s, x in look(C, E, st, t[2][1], t[2]):
            if x is None:
                out.append((s, none(E)))
                continue
            o = fresh_obj(s, d, "nif")
            s.mem[o] = x
            for s2, v in E.call_value(s, d, args[1], [("r", o, ())]):
                for s3, b in E.truth(s2, v):
                    s3.mem.pop(o, None)
                    if b:
                        out.extend((s4, none(E) if y is None else some(E, y)) for s4, y in take1(C, E, s3, args[0]))
                    else:
                        out.append((s3, none(E)))
        return out

    def next_if_eq(E, st, d, args, ctx):
        t = cursor(E, st, args[0])
        w = target(E, st, args[1])
        if not t or t[2][1] < 0 or not w:
            return None
        out = []
        for s, x in look(C, E, st, t[2][1], t[2]):
            if x is None:
                out.append((s, none(E)))
                continue
            for s2, v in models.eq_values(E, s, (None, (), x), (None, (), w[2])) or ():
                for s3, b in E.truth(s2, v):
                    if b:
                        out.extend((s4, none(E) if y is None else some(E, y)) for s4, y in take1(C, E, s3, args[0]))
                    else:
                        out.append((s3, none(E)))
        return out

    def start(flavour):
        def m(E, st, d, args, ctx):
            if args[0] == ("s", ("src",)):
                return [(st, ("chit", 0, flavour))]
            return None
        return m

    def same(E, st, d, args, ctx):
        return [(st, args[0])] if args[0][0] == "chit" else None

    def strlen(E, st, d, args, ctx):
        if args[0] == ("s", ("src",)):
            return [(st, C.g(st)["L"])]
        if args[0][0] == "s" and args[0][1][0] == "lit":
            return [(st, K(len(args[0][1][1].encode())))]
        return None

    def strempty(E, st, d, args, ctx):
        if args[0] == ("s", ("src",)):
            return E.compare(st, "Eq", C.g(st)["L"], K(0))
        return None

    def offset(E, st, d, args, ctx):
        t = cursor(E, st, args[0])
        if t and t[2][1] >= 0 and t[2][2] == "ci":
            return ahead_off(C, E, st, t[2][1])
        return None

    def pred(f):
        def m(E, st, d, args, ctx):
            v = args[0]
            if v[0] == "r":
                v = E.load(st, v[1], v[2])
            if C.chars(st, v) is None:
                return None
            return [(s, B(x)) for s, x in C.split(E, st, v, lambda c: bool(f(chr(c))) if isinstance(c, int) else None)]
        return m

    def len_utf8(E, st, d, args, ctx):
        v = args[0]
        if C.chars(st, v) is None:
            return None
        slot, m = C.chars(st, v)
        by = {}
        for c in m:
            by.setdefault(width(c), set()).add(c)
        out = []
        for w, mm in sorted(by.items()):
            s = C.narrow(st, slot, frozenset(mm)) if slot is not None else st.copy()
            if s is not None:
                out.append((s, K(w)))
        return out

    P = "core::iter::adapters::peekable::Peekable::<I>::"
    I_ = "core::iter::traits::iterator::Iterator::"
    M["<core::iter::adapters::peekable::Peekable<I> as core::iter::traits::iterator::Iterator>::next"] = nxt
    M["<core::str::iter::CharIndices<'a> as core::iter::traits::iterator::Iterator>::next"] = nxt
    M["<core::str::iter::Chars<'a> as core::iter::traits::iterator::Iterator>::next"] = nxt
    M[P + "peek"] = peek
    M[P + "peek_mut"] = peek
    M[P + "next_if"] = next_if
    M[P + "next_if_eq"] = next_if_eq
    M["core::str::iter::CharIndices::<'a>::offset"] = offset
    M[STR + "char_indices"] = start("ci")
    M[STR + "chars"] = start("ch")
    M[I_ + "peekable"] = same
    M[I_ + "fuse"] = same
    M[I_ + "by_ref"] = models.m_ident
    M[STR + "len"] = strlen
    M[STR + "is_empty"] = strempty
    for n, f in (("is_whitespace", str.isspace), ("is_alphabetic", str.isalpha), ("is_alphanumeric", str.isalnum),
                 ("is_numeric", str.isnumeric), ("is_control", lambda c: ord(c) < 32 or 127 <= ord(c) < 160),
                 ("is_ascii", str.isascii),
                 ("is_ascii_punctuation", lambda c: c.isascii() and c.isprintable() and not c.isalnum() and c != " "),
                 ("is_ascii_whitespace", lambda c: c in " \t\n\r\x0c"),
                 ("is_ascii_alphanumeric", lambda c: c.isascii() and c.isalnum()),
                 ("is_ascii_alphabetic", lambda c: c.isascii() and c.isalpha()),
                 ("is_ascii_digit", lambda c: c.isascii() and c.isdigit()),
                 ("is_ascii_control", lambda c: ord(c) < 32 or ord(c) == 127),
                 ("is_ascii_graphic", lambda c: "!" <= c <= "~")):
        M["core::char::methods::<impl char>::" + n] = pred(f)
    M["core::char::methods::<impl char>::len_utf8"] = len_utf8

    def clone_it(E, st, d, args, ctx):
        t = target(E, st, args[0])
        return [(st, t[2])] if t and t[2][0] in ("chit", "dqi") else None

    M["<core::iter::adapters::peekable::Peekable<I> as core::clone::Clone>::clone"] = clone_it
    M["<core::str::iter::CharIndices<'a> as core::clone::Clone>::clone"] = clone_it
    M["<core::str::iter::Chars<'a> as core::clone::Clone>::clone"] = clone_it

    # short arrays are walked element by element: which one is next is part of the state's shape
    def elems(E, st, v):
        if v[0] == "a" and T[v[1]]["k"] == "array" and len(v[3]) <= 64:
            return v[3]
        if v[0] == "dq":
            return v[1:]
        s = models.as_slice(E, st, v) if v[0] in ("r", "sl") else None
        if s is not None:
            lo, hi = st.const(s[3]), st.const(s[4])
            if lo is not None and hi is not None and 0 <= hi - lo <= 64:
                x = E.load(st, s[1], s[2])
                if x[0] in ("a", "dq"):
                    return tuple(("r", s[1], s[2] + (("ix", K(i)),)) for i in range(lo, hi))
        return None

    def walk(old):
        def m(E, st, d, args, ctx):
            e = elems(E, st, args[0])
            if e is not None:
                return [(st, ("dqi",) + tuple(e))]
            return old(E, st, d, args, ctx) if old else None
        return m

    def anext(E, st, d, args, ctx):
        return C.m_next(E, st, d, args, ctx)

    for n in ("core::iter::traits::collect::IntoIterator::into_iter", "core::slice::<impl [T]>::iter"):
        M[n] = walk(M[n])
    for n in ("core::array::iter::<impl core::iter::traits::collect::IntoIterator for [T; N]>::into_iter",
              "core::array::<impl core::iter::traits::collect::IntoIterator for &'a [T; N]>::into_iter",
              "core::slice::iter::<impl core::iter::traits::collect::IntoIterator for &'a [T]>::into_iter",
              "<&'a alloc::vec::Vec<T, A> as core::iter::traits::collect::IntoIterator>::into_iter",
              "<alloc::vec::Vec<T, A> as core::iter::traits::collect::IntoIterator>::into_iter",
              "alloc::collections::vec_deque::VecDeque::<T, A>::iter"):
        M[n] = walk(M.get(n))
    for n in ("<core::array::iter::IntoIter<T, N> as core::iter::traits::iterator::Iterator>::next",
              "<core::slice::iter::Iter<'a, T> as core::iter::traits::iterator::Iterator>::next"):
        M[n] = anext
    for n in ("core::intrinsics::assert_inhabited",):
        M[n] = lambda E, st, d, args, ctx: [(st, UNIT)]

    # queues of tokens
    V = "alloc::vec::Vec::<T, A>::"
    SL = "core::slice::<impl [T]>::"

    def q(ref, st):
        if ref[0] == "sl":
            t = (ref[1], ref[2], E.load(st, ref[1], ref[2]))
            return t if t[2][0] == "dq" and st.const(ref[3]) == 0 and st.const(ref[4]) == len(t[2]) - 1 else None
        t = target(E, st, ref)
        return t if t and t[2][0] == "dq" else None

    def dq_new(E, st, d, args, ctx):
        return [(st, ("dq",))]

    def dq_push(front):
        def m(E, st, d, args, ctx):
            t = q(args[0], st)
            if not t:
                return None
            if len(t[2]) > 8:
                raise Undecided("a queue that grows without being drained")
            E.store(st, t[0], t[1], ("dq", args[1]) + t[2][1:] if front else t[2] + (args[1],), hook=False)
            return [(st, UNIT)]
        return m

    def dq_pop(front):
        def m(E, st, d, args, ctx):
            t = q(args[0], st)
            if not t:
                return None
            if len(t[2]) == 1:
                return [(st, none(E))]
            v = t[2][1] if front else t[2][-1]
            E.store(st, t[0], t[1], ("dq",) + (t[2][2:] if front else t[2][1:-1]), hook=False)
            return [(st, some(E, v))]
        return m

    def dq_empty(E, st, d, args, ctx):
        t = q(args[0], st)
        return [(st, B(len(t[2]) == 1))] if t else None

    def dq_len(E, st, d, args, ctx):
        t = q(args[0], st)
        return [(st, K(len(t[2]) - 1))] if t else None

    def dq_end(last):
        def m(E, st, d, args, ctx):
            t = q(args[0], st)
            if not t:
                return None
            if len(t[2]) == 1:
                return [(st, none(E))]
            return [(st, some(E, ("r", t[0], t[1] + (("ix", K(len(t[2]) - 2 if last else 0)),))))]
        return m

    def dq_get(E, st, d, args, ctx):
        t = q(args[0], st)
        c = st.const(args[1]) if args[1][0] == "i" else None
        if not t or c is None:
            return None
        if c + 1 >= len(t[2]):
            return [(st, none(E))]
        return [(st, some(E, ("r", t[0], t[1] + (("ix", K(c)),))))]

    def dq_append(E, st, d, args, ctx):
        t, u = q(args[0], st), q(args[1], st)
        if not t or not u:
            return None
        if len(t[2]) + len(u[2]) > 9:
            raise Undecided("a queue that grows without being drained")
        E.store(st, t[0], t[1], t[2] + u[2][1:], hook=False)
        E.store(st, u[0], u[1], ("dq",), hook=False)
        return [(st, UNIT)]

    def dq_remove(opt):
        def m(E, st, d, args, ctx):
            t = q(args[0], st)
            c = st.const(args[1]) if args[1][0] == "i" else None
            if not t or c is None:
                return None
            if c + 1 >= len(t[2]):
                if opt:
                    return [(st, none(E))]
                E.panic(st, "removing past the end")
                return []
            x = t[2][c + 1]
            E.store(st, t[0], t[1], t[2][:c + 1] + t[2][c + 2:], hook=False)
            return [(st, some(E, x) if opt else x)]
        return m

    def dq_clear(E, st, d, args, ctx):
        t = q(args[0], st)
        if not t:
            return None
        E.store(st, t[0], t[1], ("dq",), hook=False)
        return [(st, UNIT)]

    D = "alloc::collections::vec_deque::VecDeque::<T, A>::"
    for n in ("new", "with_capacity"):
        M["alloc::collections::vec_deque::VecDeque::<T>::" + n] = dq_new
    M["<alloc::collections::vec_deque::VecDeque<T> as core::default::Default>::default"] = dq_new
    M[D + "push_back"] = dq_push(False)
    M[D + "push_front"] = dq_push(True)
    M[D + "pop_front"] = dq_pop(True)
    M[D + "pop_back"] = dq_pop(False)
    M[D + "is_empty"] = dq_empty
    M[D + "len"] = dq_len
    M[D + "front"] = dq_end(False)
    M[D + "back"] = dq_end(True)
    M[D + "clear"] = dq_clear
    M[V + "clear"] = dq_clear
    M[D + "get"] = M[D + "get_mut"] = dq_get
    M[D + "append"] = M[V + "append"] = dq_append
    for n in ("first", "first_mut"):
        M[SL + n] = dq_end(False)
    for n in ("last", "last_mut"):
        M[SL + n] = dq_end(True)
    M[D + "front_mut"] = dq_end(False)
    M[D + "back_mut"] = dq_end(True)
    M[D + "remove"] = dq_remove(True)
    M[V + "remove"] = dq_remove(False)
    for n, m in (("is_empty", dq_empty), ("len", dq_len)):
        M[V + n] = M[SL + n] = m
    M["<alloc::collections::vec_deque::VecDeque<T, A> as core::iter::traits::collect::Extend<T>>::extend"] = models.m_extend


# ---------------------------------------------------------------- driver
def check_token(C, E, st, v):
    """one returned token against the reference; False when the path is not worth following"""
    C.checked += 1
    E.curspan = C.next.span
    g = C.g(st)
    if v[0] == "mt":
        t = g["done"][v[1]]
        ok = True
        for s, why in tile(C, st, g, t[1], t[2]):
            E.report("tile", st, why, key="tile:" + why)
            ok = False
        if v[1] != 1:
            E.report("kinds", st, "tokens are returned out of order", key="order")
            return False
        ok = positions(C, E, st, v[4][3], t[1], t[4], t[5], "token") and ok
        C.unseal(st, g)
        g["cov"] = t[2]
        g["gaps"] = g["gaps"][:1] + tuple(x for x in g["gaps"][1:] if not st.lt(x, t[2]))
        C.put(st, g)
        return ok
    if v[0] != "a" or v[1] != C.tok:
        E.taint(st, "a token the analysis cannot see into")
        return False
    f = v[3]
    kind, rng, pos, esc = f[C.F["kind"]], f[C.F["range"]], f[C.F["position"]], f[C.F["escaped"]]
    if kind[0] != "a" or rng[0] != "a" or pos[0] != "a":
        E.taint(st, "a token the analysis cannot see into")
        return False
    kn = C.kname[kind[2]]
    a, b = rng[3][0], rng[3][1]
    if a[0] != "i" or b[0] != "i":
        E.taint(st, "a token range the analysis cannot see into")
        return False
    ok = True
    # tiling
    for s, why in tile(C, st, g, a, b):
        E.report("tile", st, why, key="tile:" + why)
        ok = False
    # kind and extent
    if not g["done"][1:]:
        C.settle(g)
    if not g["done"][1:]:
        if g["pend"] != NONE:
            E.report("kinds", st, "a %s token is returned although the next character may still belong to %s" % (
                kn, g["pend"][1]), key="early:" + kn)
        else:
            E.report("kinds", st, "a %s token is returned that the input does not contain" % kn, key="extra:" + kn)
        return False
    t = g["done"][1]
    if t[0] == "mt":
        E.report("kinds", st, "tokens are returned out of order", key="order")
        return False
    C.unseal(st, g)
    if kn != t[1]:
        E.report("kinds", st, "a %s token is returned where the documented rules give %s" % (kn, t[1]), key="kind:%s:%s" % (t[1], kn))
        ok = False
    elif not (st.eq(a, t[2]) and st.eq(b, t[3])):
        E.report("kinds", st, "a %s token does not have the extent the documented rules give it" % kn, key="extent:" + kn)
        ok = False
    if esc[0] == "b":
        if bool(esc[1]) != bool(t[4]):
            E.report("kinds", st, "a %s token is %sflagged as escaped" % (kn, "" if esc[1] else "not "), key="escaped:" + kn)
            ok = False
    else:
        E.taint(st, "an escape flag the analysis cannot see into")
    # positions
    if ok or st.eq(a, t[2]):
        ok = positions(C, E, st, pos[3], a, t[5], t[6], t[1] + " token") and ok
    if ok:
        C.kinds_seen.add(t[1])
    g["cov"] = b
    g["gaps"] = g["gaps"][:1] + tuple(x for x in g["gaps"][1:] if not st.lt(x, b))
    C.put(st, g)
    return ok


def positions(C, E, st, p, at, row, col, what):
    ok = True
    for n, want in (("byte_index", at), ("row", row), ("column", col)):
        x = p[C.pos[n]]
        if x[0] != "i":
            E.taint(st, "a position the analysis cannot see into")
        elif not st.eq(x, want):
            E.report("pos", st, "the %s of a %s is not that of its first character" % (n, what), key="pos:" + n)
            ok = False
    return ok


def tile(C, st, g, a, b):
    cov = g["cov"]
    if not st.lt(a, b):
        yield st, "a token may be empty"
    start = st.eq(a, cov)
    used = None
    if not start:
        for x in g["gaps"][1:]:
            if st.eq(x, cov) and st.eq(a, shift(x, 1)):
                start, used = True, x
    if not start:
        yield st, "a token does not start where the previous one ended"
    for x in g["gaps"][1:]:
        if x is not used and not st.le(b, x) and not st.lt(x, a):
            yield st, "a token covers the backslash of an escape"
    if not st.le(b, g["L"]):
        yield st, "a token may end after the end of the input"


def check_end(C, E, st):
    E.curspan = C.next.span
    g = C.g(st)
    if C.mask(g, 0) != {END}:
        E.report("tile", st, "the lexer stops before the end of its input", key="tile:stops")
        return
    cov = g["cov"]
    if not st.eq(cov, g["L"]):
        if not any(st.eq(x, cov) and st.eq(shift(x, 1), g["L"]) for x in g["gaps"][1:]):
            E.report("tile", st, "the last characters belong to no token", key="tile:tail")
    C.settle(g)
    if g["pend"] != NONE:
        C.complete(g)
    for t in g["done"][1:]:
        E.report("kinds", st, "a token is not returned", key="missing:" + str(t[1] if t[0] == "gt" else ""))


class LexRun:
    pass


def run(prog):
    R = LexRun()
    C = R.C = LexClient(prog)
    E = R.E = engine.Engine(prog, C)
    E.maxpart = 4000
    E.delay = 0
    install(E, C)
    st = engine.State()
    L = E.sym(st)
    z = K(0)
    st.mem[GH] = ("gh", z, L, z, z, z, NONE, NONE, 0, ("dn",), ("gp",), ("la",))
    E.deadline = min(E.deadline, time.monotonic() + 300)
    R.ended = False
    R.outs = 0

    def step(s):
        cont, ex = [], []
        for s2, v in E.call_body(C.next, [("r", LX, ())], s, 10):
            for s3, o in models.opt_cases(E, hold(s2, v), ("nx",), ()):
                s3.mem.pop(("nx",), None)
                if o[0] != "a":
                    E.taint(s3, "a result the analysis cannot see into")
                    R.C.tainted_out = True
                    continue
                if o[2] == 0:
                    check_end(C, E, s3)
                    ex.append((s3, UNIT))
                elif check_token(C, E, s3, o[3][0]):
                    cont.append(s3)
        return cont, ex

    def hold(s, v):
        s.mem[("nx",)] = v
        return s
    E.stack.append(C.next)              # findings about what is returned name the iterator
    try:
        starts = E.exec_body(C.new, [("s", ("src",))], st, 1)
        for s, v in starts:
            s.mem[LX] = v
            R.ended = True
            for s2, _ in E.loop(s, 5, step, None):
                R.outs += 1
                # asked again at the end of its input, the lexer stays at the end
                for s3, v2 in E.call_body(C.next, [("r", LX, ())], s2, 10):
                    if v2[0] == "a" and v2[2] != 0:
                        E.report("tile", s3, "a token is returned after the end was reported", key="tile:after-end")
    except Exception as e:
        E.giveup(C.next.path, e)
    E.stack = []
    R.gaveup = [k for k in E.stats["unmodelled"] if k.startswith("gave up")]
    return R
