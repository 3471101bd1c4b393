"""A provenance domain: every value the analysed code computes is a term over the values it was given.

Strings, vectors and AST values are terms; a branch on something the terms do not settle splits the
abstract state and records the fact the branch established.  Used where a property says what is
built from what (the fold of the event stream, the printers), not how often or at which index.
"""
from engine import I, K, B, TRUE, FALSE, UNIT, UNK, shift, Undecided
import models
from models import some, none, target, fresh_obj

FACTS = ("facts",)
EMPTY = ("lit", "")


def cat(*ts):
    out = []
    for t in ts:
        for p in (t[1:] if t[0] == "cat" else (t,)):
            if p == EMPTY:
                continue
            if p[0] == "lit" and out and out[-1][0] == "lit":
                out[-1] = ("lit", out[-1][1] + p[1])
            else:
                out.append(p)
    if not out:
        return EMPTY
    return out[0] if len(out) == 1 else ("cat",) + tuple(out)


def snoc(v, x):
    return ("snoc", v, x)


def setlast(v, x):
    if v[0] == "setlast":
        v = v[1]
    if v[0] == "snoc":
        return ("snoc", v[1], x)
    if x == ("last", v):
        return v
    return ("setlast", v, x)


def last(v):
    if v[0] == "snoc":
        return v[2]
    if v[0] == "setlast":
        return v[2]
    return ("last", v)


def init(v):
    if v[0] == "snoc":
        return v[1]
    if v[0] == "setlast":
        return ("init", v[1])
    return ("init", v)


def ext(v, w):
    if v == ("nil",):
        return w
    if w == ("nil",):
        return v
    if w[0] == "snoc":
        return snoc(ext(v, w[1]), w[2])
    return ("ext", v, w)


def has(t, sub):
    return t == sub or (isinstance(t, tuple) and any(has(x, sub) for x in t))


def subst(t, m):
    """replace whole subterms"""
    if t in m:
        return m[t]
    if isinstance(t, tuple):
        return tuple(subst(x, m) if isinstance(x, tuple) else x for x in t)
    return t


SIDES = {"trim": "se", "trim_start": "s", "trim_end": "e", "trim_matches": "se", "trim_start_matches": "s", "trim_end_matches": "e"}


def trimmed(name, t, ps):
    """trimming is idempotent, and trimming both ends is trimming one and then the other"""
    if t[0] in SIDES and t[2:] == ps and name in SIDES and (("_m" in name) == ("_m" in t[0])):
        both = set(SIDES[name]) | set(SIDES[t[0]])
        base = {"se": "trim", "s": "trim_start", "e": "trim_end"}["".join(c for c in "se" if c in both)]
        return (base + ("_matches" if "_m" in name else ""), t[1]) + ps
    return (name, t) + ps


class TermClient:
    def __init__(self, prog):
        self.p = prog
        self.T = prog.types

    # ------------------------------------------------------------ types
    def tpath(self, ty):
        return self.T[ty].get("p") or ""

    def short(self, ty):
        return self.tpath(ty).rsplit("::", 1)[-1]

    def vname(self, ty, k):
        return self.T[ty]["vs"][k]["n"]

    def elem(self, ty):
        """element type of a Vec or slice type, or None"""
        t = self.T[ty]
        if t["k"] == "struct" and self.tpath(ty) == "alloc::vec::Vec":
            return t["args"][0]
        if t["k"] in ("slice", "array"):
            return t.get("t")
        return None

    # ------------------------------------------------------------ terms <-> values
    def mk(self, E, st, ty, term):
        t = self.T[ty]
        k = t["k"]
        if k in ("int", "uint", "char"):
            return K(term[1]) if term[0] == "int" else ("o", ty, term)
        if k == "bool":
            return B(term[1]) if term[0] == "int" else ("bt", term)
        if k == "tuple":
            if term[0] == "con":
                return ("a", ty, 0, tuple(self.mk(E, st, f, x) for f, x in zip(t["fs"], term[2:])))
            return ("a", ty, 0, tuple(self.mk(E, st, f, ("fld", term, "", i)) for i, f in enumerate(t["fs"])))
        if k == "ref":
            inner = self.T[t["t"]]
            if inner["k"] == "str":
                return ("s", term)
            obj = ("tm", term)
            if obj not in st.mem:
                st.mem[obj] = self.mk(E, st, t["t"], term)
            return ("r", obj, ())
        if k == "struct" and self.tpath(ty) == "alloc::string::String":
            return ("S", term)
        e = self.elem(ty)
        if e is not None:
            return ("V", e, term)
        if k == "struct" and self.tpath(ty) == "alloc::boxed::Box":
            obj = ("tm", term)
            if obj not in st.mem:
                st.mem[obj] = self.mk(E, st, t["args"][0], term)
            return ("r", obj, ())
        if k in ("struct", "enum") and "vs" in t:
            if term[0] == "con" and term[1][0] == ty:
                kk = term[1][1]
                fs = t["vs"][kk]["f"]
                return ("a", ty, kk, tuple(self.mk(E, st, f[1], x) for f, x in zip(fs, term[2:])))
            if k == "struct" and len(t["vs"]) == 1 and not t["vs"][0]["f"]:
                return ("a", ty, 0, ())
            return ("o", ty, term)
        return ("o", ty, term)

    def reify(self, E, st, v):
        k = v[0]
        if k in ("S", "s"):
            return v[1]
        if k == "V":
            return v[2]
        if k == "o":
            return v[2]
        if k == "bt":
            return v[1]
        if k == "i":
            c = st.const(v)
            if c is None:
                E.taint(st, "a number the terms do not describe")
                return ("?",)
            return ("int", c)
        if k == "b":
            return ("int", v[1])
        if k == "a":
            fs = tuple(self.reify(E, st, x) for x in v[3])
            t = self.T[v[1]] if v[1] else {"k": "tuple"}
            if t["k"] == "tuple" or not v[1]:
                return ("con", (0, 0, "tuple")) + fs
            if t["k"] == "closure":
                return ("fn", t.get("inst")) + fs
            if fs and t["k"] in ("enum", "struct"):
                vn = self.vname(v[1], v[2]) if t["k"] == "enum" else ""
                b = fs[0][1] if fs[0][0] == "fld" else None
                if b is not None and b[0] != "con" and all(f == ("fld", b, vn, i) for i, f in enumerate(fs)) and self.typed.get(b) == v[1]:
                    return b
            return ("con", (v[1], v[2], self.conname(v[1], v[2]))) + fs
        if k == "r":
            return self.reify(E, st, E.load(st, v[1], v[2]))
        if k == "L":
            E.taint(st, "a value the terms do not describe")
            return ("?",)
        if k == "fn":
            return ("fn", v[1])
        if k == "it":
            return v[1]
        E.taint(st, "a value the terms do not describe (%s)" % k)
        return ("?",)

    typed = None

    def conname(self, ty, k):
        t = self.T[ty]
        n = self.short(ty)
        return n + "::" + t["vs"][k]["n"] if t["k"] == "enum" else n

    # ------------------------------------------------------------ facts
    def facts(self, st):
        return st.mem.get(FACTS, ())

    def learn(self, st, f):
        fs = st.mem.get(FACTS, ())
        if f not in fs:
            st.mem[FACTS] = fs + (f,)

    def ask(self, E, st, cond):
        """split on a boolean condition"""
        if cond[0] == "eq":
            a, b = cond[1], cond[2]
            if a[0] == "len" and b == ("int", 0) or a[0] == "len" and b == ("len", EMPTY):
                return self.ask(E, st, ("empty", a[1]))
            if b == EMPTY:
                return self.ask(E, st, ("empty", a))
            if a == b:
                return [(st, 1)]
            if a[0] in ("int", "lit") and b[0] in ("int", "lit"):
                return [(st, 0)]
        if cond[0] == "lt" and cond[1][0] == "len" and cond[2][0] == "len" and cond[1][1][0] in ("trim_start_matches", "trim_end_matches") and cond[1][1][1] == cond[2][1]:
            # a trimmed text is shorter exactly when there was something to trim
            return self.ask(E, st, ("starts_with" if "start" in cond[1][1][0] else "ends_with", cond[2][1], cond[1][1][2]))
        if cond[0] == "eq" and cond[1][0] == "len" and cond[2][0] == "len":
            for x, y in ((cond[1][1], cond[2][1]), (cond[2][1], cond[1][1])):
                if x[0] in ("trim_start_matches", "trim_end_matches") and x[1] == y:
                    return [(s, 1 - v) for s, v in self.ask(E, st, ("starts_with" if "start" in x[0] else "ends_with", y, x[2]))]
        if cond[0] == "lt" and cond[2] == ("int", 1) and cond[1][0] == "len" or cond[0] == "le" and cond[2] == ("int", 0) and cond[1][0] == "len":
            return self.ask(E, st, ("empty", cond[1][1]))
        if cond[0] == "lt" and cond[1] == ("int", 0) and cond[2][0] == "len" or cond[0] == "le" and cond[1] == ("int", 1) and cond[2][0] == "len":
            return [(s, 1 - x) for s, x in self.ask(E, st, ("empty", cond[2][1]))]
        if cond[0] == "empty":
            t = cond[1]
            if t[0] == "lit":
                return [(st, int(t[1] == ""))]
            if t == ("nil",):
                return [(st, 1)]
            if t[0] in ("snoc", "setlast"):
                return [(st, 0)]
            if t[0] == "cat" and any(x[0] == "lit" and x[1] for x in t[1:]):
                return [(st, 0)]
        for f in self.facts(st):
            if f[0] == "is" and f[1] == cond:
                return [(st, f[2])]
            if f[0] == "is" and f[2] == 1 and cond[0] == "eq" and f[1][0] == "eq" and f[1][1] == cond[1] and \
                    f[1][2][0] == "int" and cond[2][0] == "int" and f[1][2] != cond[2]:
                return [(st, 0)]
        s1, s0 = st, st.copy()
        self.learn(s1, ("is", cond, 1))
        self.learn(s0, ("is", cond, 0))
        return [(s1, 1), (s0, 0)]

    def askv(self, E, st, cond):
        return [(s, B(x)) for s, x in self.ask(E, st, cond)]

    def variants(self, st, ty, term):
        """variants the facts leave open"""
        n = len(self.T[ty]["vs"])
        known = None
        no = set()
        for f in self.facts(st):
            if f[0] == "disc" and f[1] == term:
                known = f[2]
            elif f[0] == "ndisc" and f[1] == term:
                no.add(f[2])
        names = [self.vname(ty, i) for i in range(n)]
        if known is not None:
            return [i for i in range(n) if names[i] == known]
        return [i for i in range(n) if names[i] not in no]

    def cases(self, E, st, ty, term):
        """(state, variant index) for an opaque enum"""
        vs = self.variants(st, ty, term)
        if len(vs) == 1:
            if ("disc", term, self.vname(ty, vs[0])) not in self.facts(st):
                self.learn(st, ("disc", term, self.vname(ty, vs[0])))
            return [(st, vs[0])]
        out = []
        for i in vs:
            if any(E.uninhabited(f[1]) for f in self.T[ty]["vs"][i]["f"]):
                continue
            s = st.copy()
            self.learn(s, ("disc", term, self.vname(ty, i)))
            out.append((s, i))
        return out

    def opened(self, E, st, v, k=0):
        """an opaque struct/enum value as an aggregate"""
        if v[0] != "o":
            return v
        ty, term = v[1], v[2]
        t = self.T[ty]
        if term[0] == "con":
            return self.mk(E, st, ty, term)
        if self.typed is None:
            self.typed = {}
        self.typed[term] = ty
        vn = t["vs"][k]["n"] if t["k"] == "enum" else ""
        return ("a", ty, k, tuple(self.mk(E, st, f[1], ("fld", term, vn, i)) for i, f in enumerate(t["vs"][k]["f"])))

    def opt_split(self, E, st, v):
        """(state, None | payload) for an Option value"""
        if v[0] == "a":
            return [(st, None if v[2] == 0 else v[3][0])]
        if v[0] == "o":
            return [(s, None if k == 0 else self.opened(E, s, v, 1)[3][0]) for s, k in self.cases(E, st, v[1], v[2])]
        return None

    # ------------------------------------------------------------ engine hooks
    def child(self, E, st, v, e):
        k = e[0]
        if v[0] == "r" and k == "f":
            return v
        if v[0] == "o":
            if k == "v":
                return self.opened(E, st, v, e[1])
            if k == "f":
                t = self.T[v[1]]
                if t["k"] == "struct" and "vs" in t:
                    return self.opened(E, st, v)[3][e[1]]
        if v[0] == "V":
            if k == "last":
                return self.mk(E, st, v[1], last(v[2]))
            if k == "at":
                return self.mk(E, st, v[1], ("at", v[2], e[1]))
            if k == "ix" and e[1][0] == "i" and st.const(e[1]) is not None:
                return self.mk(E, st, v[1], ("at", v[2], st.const(e[1])))
        if v[0] in ("it", "V", "S", "s", "bt", "fst", "o"):
            E.taint(st, "a part of a value the terms do not describe")
        return UNK

    def setpath(self, E, st, v, path, new):
        e = path[0]
        if v[0] == "o":
            t = self.T[v[1]]
            if "vs" not in t:
                return UNK
            x = self.opened(E, st, v, e[1] if e[0] == "v" else 0)
            if e[0] == "v":
                return E.setpath(st, x, path, new)
            if t["k"] == "struct":
                return E.setpath(st, x, path, new)
            return UNK
        if v[0] == "cell" and all(x[0] == "f" for x in path):
            return ("cell", new)
        if v[0] == "V" and e[0] == "last":
            x = E.setpath(st, self.mk(E, st, v[1], last(v[2])), path[1:], new)
            return ("V", v[1], setlast(v[2], self.reify(E, st, x)))
        E.taint(st, "a store the terms do not describe")
        return UNK

    def pre_store(self, E, st, obj, path, val):
        return False

    def seqlen(self, E, st, v):
        return None

    def sub(self, E, st, a, b):
        return None

    def toint(self, E, st, v):
        return v

    def refine_cmp(self, E, s, op, a, b):
        return s

    def termval(self, st, v):
        if v[0] == "o":
            return v[2]
        if v[0] == "i":
            c = st.const(v)
            return None if c is None else ("int", c)
        if v[0] == "bt":
            return v[1]
        if v[0] == "b":
            return ("int", v[1])
        return None

    def compare(self, E, st, op, a, b):
        x, y = self.termval(st, a), self.termval(st, b)
        if x is None or y is None:
            if a[0] in ("s", "S") and b[0] in ("s", "S") and op in ("Eq", "Ne"):
                x, y = a[1], b[1]
            else:
                E.taint(st, "a comparison the terms do not describe")
                return None
        neg = op in ("Ne", "Ge", "Gt")
        base = {"Eq": "eq", "Ne": "eq", "Lt": "lt", "Ge": "lt", "Le": "le", "Gt": "le"}[op]
        if x[0] == "int" and y[0] == "int":
            r = {"eq": x[1] == y[1], "lt": x[1] < y[1], "le": x[1] <= y[1]}[base]
            return [(st, B(r != neg))]
        if base == "eq" and (x[0] in ("int", "lit")):
            x, y = y, x
        return [(s, B(bool(r) != neg)) for s, r in self.ask(E, st, (base, x, y))]

    def truth(self, E, st, v):
        if v[0] == "bt":
            return self.ask(E, st, v[1])
        return None

    def switch(self, E, st, v, t):
        if v[0] == "bt":
            out = []
            for s, x in self.ask(E, st, v[1]):
                for val, tgt in t[2]:
                    if val == x:
                        out.append((tgt, s))
                        break
                else:
                    out.append((t[3], s))
            return out
        if v[0] == "o":
            out = []
            rest = [st]
            for val, tgt in t[2]:
                nr = []
                for s in rest:
                    for s2, x in self.ask(E, s, ("eq", v[2], ("int", val))):
                        if x:
                            out.append((tgt, s2))
                        else:
                            nr.append(s2)
                rest = nr
            return out + [(t[3], s) for s in rest]
        return None

    def discr(self, E, st, obj, path, v):
        if v[0] == "o" and self.T[v[1]]["k"] == "enum":
            return [(s, K(self.T[v[1]]["vs"][k]["d"])) for s, k in self.cases(E, st, v[1], v[2])]
        if v[0] == "o" and self.T[v[1]]["k"] == "struct":
            return [(st, K(0))]
        return None

    def binop(self, E, st, op, a, b):
        x, y = self.termval(st, a), self.termval(st, b)
        if x is None or y is None or (x[0] == "int" and y[0] == "int"):
            return None
        base = op.replace("WithOverflow", "").replace("Unchecked", "").lower()
        ty = a[1] if a[0] == "o" else b[1] if b[0] == "o" else None
        if ty is None:
            return None
        v = ("o", ty, (base, x, y))
        if op.endswith("WithOverflow"):
            return [(st, ("a", 0, 0, (v, FALSE)))]
        return [(st, v)]

    def cast(self, E, st, kind, v, ty):
        if v[0] == "o":
            t = self.T[ty]
            if kind.startswith("IntToInt"):
                s = self.T[v[1]]
                if t["k"] in ("int", "uint") and s["k"] in ("int", "uint") and t.get("bits", 64) >= s.get("bits", 64) and t["k"] == s["k"]:
                    return ("o", ty, v[2])
                return ("o", ty, ("cast", t["s"], v[2]))
        return None

    def agg(self, E, st, ty, k, vals):
        return None

    def call_hook(self, E, b, args, st, depth):
        return None

    def shape_extra(self, E, st):
        return None

    def normalize(self, E, st):
        pass

    def join_facts(self, E, s1, s2, r, slots):
        pass

    def sub_facts(self, E, inv, st, m):
        return True

    def gc_facts(self, E, st, keep):
        pass

    def rekey(self, st, keep):
        pass

    def progress_slots(self, E, st):
        return {}

    def bounded(self, E, st, k, v):
        return False

    def strlen(self, E, st, v):
        return [(st, ("o", self.usize(), ("len", v[1])))]

    def usize(self):
        for i, t in enumerate(self.T):
            if t["s"] == "usize":
                return i
        return 0

    def trange(self, E, st, v):
        return None

    def to_iter(self, E, st, v):
        return None

    def len_of(self, E, st, obj, path, x):
        if x[0] in ("V", "S"):
            t = x[2] if x[0] == "V" else x[1]
            return [(st, ("o", self.usize(), ("len", t)))]
        return None

    def mem_take(self, E, st, obj, path, x):
        if x[0] == "S":
            E.store(st, obj, path, ("S", EMPTY))
            return [(st, x)]
        if x[0] == "V":
            E.store(st, obj, path, ("V", x[1], ("nil",)))
            return [(st, x)]
        if x[0] == "o" and self.tpath(x[1]) == "core::option::Option":
            E.store(st, obj, path, ("a", x[1], 0, ()))
            return [(st, x)]
        return None

    def m_deref(self, E, st, d, args, ctx):
        v = args[0]
        if v[0] == "s":
            return [(st, v)]
        if v[0] == "r":
            x = E.load(st, v[1], v[2])
            if x[0] in ("S", "s"):
                return [(st, ("s", x[1]))]
            if x[0] == "V":
                return [(st, v)]
            if x[0] == "r":
                return [(st, x)]
        return None

    def vec_new(self, E, st, ctx):
        a = ctx["callee"].get("args") or []
        if a and isinstance(a[0], int):
            return [(st, ("V", a[0], ("nil",)))]
        return None

    def vec_push(self, E, st, obj, path, x, v, ctx):
        if x[0] == "V":
            E.store(st, obj, path, ("V", x[1], snoc(x[2], self.reify(E, st, v))))
            return [(st, UNIT)]
        return None

    def nonempty(self, E, st, term):
        return [(s, 1 - x) for s, x in self.ask(E, st, ("empty", term))]

    def vec_pop(self, E, st, obj, path, x, ctx):
        if x[0] == "V":
            out = []
            for s, ne in self.nonempty(E, st, x[2]):
                if ne:
                    E.store(s, obj, path, ("V", x[1], init(x[2])))
                    out.append((s, some(E, self.mk(E, s, x[1], last(x[2])))))
                else:
                    out.append((s, none(E)))
            return out
        return None

    def vec_truncate(self, E, st, obj, path, x, n, ctx):
        return None

    def vec_insert(self, E, st, obj, path, x, i, v, ctx):
        return None

    def vec_extend(self, E, st, obj, path, x, src, ctx):
        if x[0] != "V":
            return None
        if src[0] == "r":
            src = E.load(st, src[1], src[2])
        if src[0] == "V":
            E.store(st, obj, path, ("V", x[1], ext(x[2], src[2])))
            return [(st, UNIT)]
        if src[0] in ("a", "o") and self.tpath(src[1]) == "core::option::Option":
            out = []
            for s, p in self.opt_split(E, st, src):
                if p is not None:
                    E.store(s, obj, path, ("V", x[1], snoc(x[2], self.reify(E, s, p))))
                out.append((s, UNIT))
            return out
        return None

    def m_into_iter(self, E, st, d, args, ctx):
        return None

    def m_next(self, E, st, d, args, ctx):
        return None

    def it_next(self, E, st, d, it, back):
        return None

    def eq_values(self, E, st, a, b, neg):
        if a[0] in ("S", "s") and b[0] in ("S", "s"):
            return [(s, B(bool(x) != neg)) for s, x in self.ask(E, st, ("eq", a[1], b[1]))]
        x, y = self.termval(st, a), self.termval(st, b)
        if x is not None and y is not None:
            return self.compare(E, st, "Ne" if neg else "Eq", a, b)
        return None

    # ------------------------------------------------------------ closures as terms
    def lam(self, E, st, d, f, elemty, elem=("elem",), as_ref=True):
        """the boolean function f computes of one element, as a set of (facts, result); None when unknown"""
        s0 = st.copy()
        base = len(self.facts(s0))
        v = self.mk(E, s0, elemty, elem)
        tmp = fresh_obj(s0, d, "lam")
        s0.mem[tmp] = v
        out = set()
        try:
            res = E.call_value(s0.copy(), d, f, [("r", tmp, ()) if as_ref else v])
        except Undecided:
            return None
        for s, r in res:
            for s2, b in E.truth(s, r):
                if s2.taint - st.taint:
                    return None
                out.add((tuple(sorted(self.facts(s2)[base:], key=repr)), int(b)))
        return tuple(sorted(out, key=repr))


# ------------------------------------------------------------------ models
def install(E, C):
    M = E.models

    def sarg(st, v):
        """string term behind a &str / &String / String"""
        if v[0] in ("s", "S"):
            return v[1]
        if v[0] == "r":
            x = E.load(st, v[1], v[2])
            if x[0] in ("s", "S"):
                return x[1]
            if x[0] == "r":
                return sarg(st, x)
        return None

    def pat(st, d, v):
        """a pattern argument as a term"""
        if v[0] == "i":
            c = st.const(v)
            return None if c is None else ("lit", chr(c))
        t = sarg(st, v)
        if t is not None:
            return t
        if v[0] == "o":
            return v[2]
        if v[0] == "a" and C.T[v[1]]["k"] == "array":
            cs = [st.const(x) if x[0] == "i" else None for x in v[3]]
            return None if None in cs else ("lit", chr(cs[0])) if len(set(cs)) == 1 else ("anyof",) + tuple(sorted(chr(c) for c in cs))
        if v[0] == "fn" and len(v) > 2:
            n = (C.T[v[2]].get("rp") or C.T[v[2]].get("p") or "")
            if n.startswith("core::char::methods::<impl char>::is_"):
                return ("class", n.rsplit("::", 1)[1])
        if v[0] in ("fn",) or v[0] == "a" and C.T[v[1]]["k"] == "closure":
            ch = next((i for i, t in enumerate(C.T) if t["k"] == "char"), None)
            if ch is None:
                return None
            l = C.lam(E, st, d, v, ch, as_ref=False)
            if l is None:
                return None
            one = {f[0][1][2] for f, b in l if b and len(f) == 1 and f[0][0] == "is" and f[0][1][0] == "eq" and f[0][2] == 1 and f[0][1][1] == ("elem",)}
            if len(l) == 2 and len(one) == 1:
                return ("lit", chr(next(iter(one))[1]))
            return ("lam", l)
        return None

    def owned(E, st, d, args, ctx):
        t = sarg(st, args[0])
        return None if t is None else [(st, ("S", t))]

    def strref(E, st, d, args, ctx):
        t = sarg(st, args[0])
        return None if t is None else [(st, ("s", t))]

    def fn1(name, wrap="s"):
        def m(E, st, d, args, ctx):
            t = sarg(st, args[0])
            if t is None:
                return None
            ps = []
            for a in args[1:]:
                p = pat(st, d, a)
                if p is None:
                    return None
                ps.append(p)
            if t[0] == "lit" and not t[1]:
                return [(st, (wrap, EMPTY))]
            return [(st, (wrap, trimmed(name, t, tuple(ps))))]
        return m

    def pred(name):
        def m(E, st, d, args, ctx):
            t = sarg(st, args[0])
            if t is None:
                return None
            ps = []
            for a in args[1:]:
                p = pat(st, d, a)
                if p is None:
                    return None
                ps.append(p)
            if t[0] == "lit" and all(p[0] == "lit" for p in ps):
                f = {"starts_with": lambda a, b: a.startswith(b), "ends_with": lambda a, b: a.endswith(b),
                     "contains": lambda a, b: b in a}.get(name)
                if f:
                    return [(st, B(f(t[1], ps[0][1])))]
            return C.askv(E, st, (name, t) + tuple(ps))
        return m

    def is_empty(E, st, d, args, ctx):
        t = sarg(st, args[0])
        if t is None:
            x = target(E, st, args[0])
            if x and x[2][0] == "V":
                t = x[2][2]
        return None if t is None else C.askv(E, st, ("empty", t))

    S = "core::str::<impl str>::"
    AS = "alloc::str::<impl str>::"
    ST = "alloc::string::String::"
    for p in ("alloc::str::<impl alloc::borrow::ToOwned for str>::to_owned", "<alloc::string::String as core::convert::From<&str>>::from",
              "alloc::string::<impl core::convert::From<&str> for alloc::string::String>::from",
              "<alloc::string::String as core::clone::Clone>::clone", AS + "into_string", AS + "to_owned",
              "<str as alloc::string::SpecToString>::spec_to_string", "<alloc::string::String as alloc::string::SpecToString>::spec_to_string",
              "<alloc::string::String as core::convert::From<&alloc::string::String>>::from",
              "<alloc::string::String as core::convert::From<&mut str>>::from"):
        M[p] = owned
    for p in (ST + "as_str", "<alloc::string::String as core::ops::deref::Deref>::deref", "<alloc::string::String as core::convert::AsRef<str>>::as_ref",
              "<str as core::convert::AsRef<str>>::as_ref", ST + "as_mut_str", "<alloc::string::String as core::borrow::Borrow<str>>::borrow",
              "core::str::<impl core::convert::AsRef<str> for str>::as_ref"):
        M[p] = strref
    for n in ("trim", "trim_start", "trim_end", "trim_matches", "trim_end_matches", "trim_start_matches"):
        M[S + n] = fn1(n)
    for n in ("to_lowercase", "to_uppercase"):
        M[AS + n] = fn1(n, "S")
    M[S + "is_empty"] = is_empty
    M[ST + "is_empty"] = is_empty
    for n in ("starts_with", "ends_with", "contains"):
        M[S + n] = pred(n)

    def m_str_eq(neg):
        def m(E, st, d, args, ctx):
            a, b = sarg(st, args[0]), sarg(st, args[1])
            if a is None or b is None:
                return None
            if a[0] == "lit" and b[0] == "lit":
                return [(st, B((a[1] == b[1]) != neg))]
            if a[0] == "lit":
                a, b = b, a
            return [(s, B(bool(x) != neg)) for s, x in C.ask(E, st, ("eq", a, b))]
        return m
    for p in ("<str as core::cmp::PartialEq>", "core::str::traits::<impl core::cmp::PartialEq for str>", "<alloc::string::String as core::cmp::PartialEq>",
              "<alloc::string::String as core::cmp::PartialEq<str>>", "<alloc::string::String as core::cmp::PartialEq<&str>>",
              "<alloc::string::String as core::cmp::PartialEq<&'a str>>", "<str as core::cmp::PartialEq<alloc::string::String>>",
              "<&str as core::cmp::PartialEq<alloc::string::String>>", "<&'a str as core::cmp::PartialEq<alloc::string::String>>",
              "alloc::string::<impl core::cmp::PartialEq for alloc::string::String>", "alloc::string::<impl core::cmp::PartialEq<str> for alloc::string::String>",
              "alloc::string::<impl core::cmp::PartialEq<&'a str> for alloc::string::String>", "alloc::string::<impl core::cmp::PartialEq<alloc::string::String> for str>",
              "alloc::string::<impl core::cmp::PartialEq<alloc::string::String> for &'a str>"):
        M[p + "::eq"] = m_str_eq(False)
        M[p + "::ne"] = m_str_eq(True)

    # character classes
    CH = "core::char::methods::<impl char>::"

    def m_cls(name):
        def m(E, st, d, args, ctx):
            v = args[0]
            if v[0] == "r":
                v = E.load(st, v[1], v[2])
            t = C.termval(st, v)
            return None if t is None else C.askv(E, st, ("cls", t, name))
        return m
    for n in ("is_whitespace", "is_alphabetic", "is_alphanumeric", "is_numeric", "is_control", "is_uppercase", "is_lowercase",
              "is_ascii_whitespace", "is_ascii_punctuation", "is_ascii_digit", "is_ascii_alphabetic", "is_ascii_alphanumeric", "is_ascii_control"):
        M[CH + n] = m_cls(n)

    def strip_aff(name, test):
        def m(E, st, d, args, ctx):
            t, p = sarg(st, args[0]), pat(st, d, args[1])
            if t is None or p is None:
                return None
            return [(s, some(E, ("s", (name, t, p))) if x else none(E)) for s, x in C.ask(E, st, (test, t, p))]
        return m
    M[S + "strip_suffix"] = strip_aff("strip_suffix", "ends_with")
    M[S + "strip_prefix"] = strip_aff("strip_prefix", "starts_with")

    def m_new(E, st, d, args, ctx):
        return [(st, ("S", EMPTY))]
    for p in (ST + "new", "<alloc::string::String as core::default::Default>::default", ST + "with_capacity"):
        M[p] = m_new

    def m_push_str(E, st, d, args, ctx):
        t = target(E, st, args[0])
        a = sarg(st, args[1])
        if args[1][0] == "i" and st.const(args[1]) is not None:
            a = ("lit", chr(st.const(args[1])))
        elif args[1][0] == "o":
            a = ("char", args[1][2])
        if not t or t[2][0] != "S" or a is None:
            return None
        E.store(st, t[0], t[1], ("S", cat(t[2][1], a)))
        return [(st, UNIT)]
    M[ST + "push_str"] = m_push_str
    M[ST + "push"] = m_push_str
    M["<alloc::string::String as core::ops::arith::AddAssign<&str>>::add_assign"] = m_push_str

    def m_add(E, st, d, args, ctx):
        a, b = sarg(st, args[0]), sarg(st, args[1])
        return None if a is None or b is None else [(st, ("S", cat(a, b)))]
    M["<alloc::string::String as core::ops::arith::Add<&str>>::add"] = m_add

    def m_sinsert(E, st, d, args, ctx):
        t = target(E, st, args[0])
        a = sarg(st, args[2])
        if args[2][0] == "i" and st.const(args[2]) is not None:
            a = ("lit", chr(st.const(args[2])))
        if not t or t[2][0] != "S" or a is None or args[1][0] != "i" or st.const(args[1]) != 0:
            return None
        E.store(st, t[0], t[1], ("S", cat(a, t[2][1])))
        return [(st, UNIT)]
    M[ST + "insert"] = m_sinsert
    M[ST + "insert_str"] = m_sinsert

    def m_sclear(E, st, d, args, ctx):
        t = target(E, st, args[0])
        if t and t[2][0] == "S":
            E.store(st, t[0], t[1], ("S", EMPTY))
            return [(st, UNIT)]
        return None
    M[ST + "clear"] = m_sclear

    def m_strunc(E, st, d, args, ctx):
        t = target(E, st, args[0])
        n = C.termval(st, args[1])
        if not t or t[2][0] != "S" or n is None:
            return None
        old = t[2][1]
        if n == ("int", 0):
            new = EMPTY
        elif n[0] == "len" and n[1][0] in ("trim_end", "trim_end_matches") and n[1][1] == old:
            new = n[1]
        else:
            E.taint(st, "String::truncate")
            new = ("truncate", old, n)
        E.store(st, t[0], t[1], ("S", new))
        return [(st, UNIT)]
    M[ST + "truncate"] = m_strunc

    def m_spop(E, st, d, args, ctx):
        t = target(E, st, args[0])
        if not t or t[2][0] != "S":
            return None
        out = []
        for s, ne in C.nonempty(E, st, t[2][1]):
            if ne:
                E.taint(s, "String::pop")
                E.store(s, t[0], t[1], ("S", ("pop", t[2][1]) if t[2][1][0] not in ("pop", "edited") else ("edited",)))
                out.append((s, some(E, UNK)))
            else:
                out.append((s, none(E)))
        return out
    M[ST + "pop"] = m_spop

    def m_replace(E, st, d, args, ctx):
        t = sarg(st, args[0])
        a, b = pat(st, d, args[1]), sarg(st, args[2])
        if t is None or a is None or b is None:
            return None
        if t[0] == "lit" and a[0] == "lit" and b[0] == "lit" and a[1]:
            return [(st, ("S", ("lit", t[1].replace(a[1], b[1]))))]
        return [(st, ("S", ("replace", t, a, b)))]
    M[AS + "replace"] = m_replace

    def m_repeat(E, st, d, args, ctx):
        t = sarg(st, args[0])
        if t is None:
            return None
        n = C.termval(st, args[1])
        if n is None:
            return None
        if t[0] == "lit" and n[0] == "int" and n[1] * len(t[1]) < 200:
            return [(st, ("S", ("lit", t[1] * n[1])))]
        return [(st, ("S", ("repeat", t, n)))]
    M[AS + "repeat"] = m_repeat

    def m_slen(E, st, d, args, ctx):
        t = sarg(st, args[0])
        if t is None:
            return None
        if t[0] == "lit":
            return [(st, K(len(t[1].encode())))]
        return [(st, ("o", C.usize(), ("len", t)))]
    M[S + "len"] = m_slen
    M[ST + "len"] = m_slen

    def m_str_index(E, st, d, args, ctx):
        t = sarg(st, args[0])
        r = args[1]
        if t is None:
            return None
        if r[0] == "o":
            return [(st, ("s", ("slice", t, r[2])))]
        if r[0] == "a":
            if getattr(C, "free_text", False):
                fixed_cut(E, st, t, r)
            return [(st, ("s", ("slice", t, C.reify(E, st, r))))]
        return None

    def fixed_cut(E, st, t, r):
        """text of an arbitrary string cut at a fixed byte: there may be no character boundary there, or no such byte"""
        E.stats["obligations"].add(("slice", E.fnname(), E.curspan))
        if t[0] == "lit":
            return
        cs = [st.const(x) for x in r[3] if x[0] == "i"]
        if not any(c for c in cs if c):
            return

        def about(x):
            """whether a condition says more about the text than its length"""
            if x == t:
                return True
            if isinstance(x, tuple):
                if x[:1] == ("len",) and len(x) == 2 and x[1] == t:
                    return False
                return any(about(y) for y in x)
            return False
        if t[0] != "fld" or any(about(f) for f in C.facts(st)):
            E.taint(st, "text cut at a fixed byte")
            return
        E.panic(st, "text cut at a fixed byte")
    for p in ("core::str::traits::<impl core::ops::index::Index<I> for str>::index", "<alloc::string::String as core::ops::index::Index<I>>::index"):
        M[p] = m_str_index

    def m_str_get(E, st, d, args, ctx):
        t = sarg(st, args[0])
        r = args[1]
        if t is None or r[0] not in ("o", "a"):
            return None
        rt = r[2] if r[0] == "o" else C.reify(E, st, r)
        out = []
        for s, x in C.ask(E, st, ("inside", t, rt)):
            out.append((s, some(E, ("s", ("slice", t, rt))) if x else none(E)))
        return out
    M[S + "get"] = m_str_get

    def m_range_is_empty(E, st, d, args, ctx):
        t = target(E, st, args[0])
        if t and t[2][0] == "o":
            return C.askv(E, st, ("emptyrange", t[2][2]))
        return None
    base_rie = M["core::ops::range::Range::<Idx>::is_empty"]
    M["core::ops::range::Range::<Idx>::is_empty"] = lambda E, st, d, a, c: m_range_is_empty(E, st, d, a, c) or base_rie(E, st, d, a, c)
    M["<core::ops::range::Range<Idx> as core::clone::Clone>::clone"] = M["core::clone::Clone::clone"]
    M["<alloc::vec::Vec<T, A> as core::clone::Clone>::clone"] = M["core::clone::Clone::clone"]
    M["<core::option::Option<T> as core::clone::Clone>::clone"] = M["core::clone::Clone::clone"]
    M["<alloc::boxed::Box<T, A> as core::clone::Clone>::clone"] = M["core::clone::Clone::clone"]

    # char sequences and counting
    def m_chars(kind):
        def m(E, st, d, args, ctx):
            t = sarg(st, args[0])
            return None if t is None else [(st, ("it", (kind, t)))]
        return m
    M[S + "chars"] = m_chars("chars")
    M[S + "bytes"] = m_chars("bytes")
    chty = next((i for i, t in enumerate(C.T) if t["k"] == "char"), None)

    def itelem(t):
        while t[0] in ("takewhile", "filter", "rev", "skip", "take"):
            t = t[1]
        if t[0] == "chars":
            return chty
        return None

    def wrapit(name, base):
        def m(E, st, d, args, ctx):
            if args[0][0] == "it":
                e = itelem(args[0][1])
                if name in ("takewhile", "filter"):
                    if e is None:
                        return None
                    l = C.lam(E, st, d, args[1], e)
                    return None if l is None else [(st, ("it", (name, args[0][1], l)))]
                n = C.termval(st, args[1])
                return None if n is None else [(st, ("it", (name, args[0][1], n)))]
            return base(E, st, d, args, ctx) if base else None
        return m
    IT = "core::iter::traits::iterator::Iterator::"
    for n, m in (("take_while", "takewhile"), ("filter", "filter"), ("take", "take"), ("skip", "skip")):
        M[IT + n] = wrapit(m, M.get(IT + n))
    cnt = M[IT + "count"]

    def m_count(E, st, d, args, ctx):
        if args[0][0] == "it":
            return [(st, ("o", C.usize(), ("count", args[0][1])))]
        return cnt(E, st, d, args, ctx)
    M[IT + "count"] = m_count
    M["<core::iter::adapters::filter::Filter<I, P> as core::iter::traits::iterator::Iterator>::count"] = m_count

    # vectors
    def m_first(E, st, d, args, ctx, ix=0):
        x = target(E, st, args[0])
        if not x or x[2][0] != "V":
            return None
        out = []
        v = x[2][2]
        for s, b in C.ask(E, st, ("longer", v, ("int", ix))):
            out.append((s, some(E, ("r", x[0], x[1] + (("at", ix),))) if b else none(E)))
        return out

    def orelse(f, g):
        def m(E, st, d, args, ctx):
            r = f(E, st, d, args, ctx)
            return r if r is not None else (g(E, st, d, args, ctx) if g else None)
        return m
    SL = "core::slice::<impl [T]>::"
    M[SL + "first"] = orelse(m_first, M.get(SL + "first"))

    def m_get(E, st, d, args, ctx):
        c = st.const(args[1]) if args[1][0] == "i" else None
        return None if c is None else m_first(E, st, d, args, ctx, c)
    M[SL + "get"] = orelse(m_get, M.get(SL + "get"))

    def m_last(E, st, d, args, ctx):
        x = target(E, st, args[0])
        if not x or x[2][0] != "V":
            return None
        out = []
        for s, ne in C.nonempty(E, st, x[2][2]):
            out.append((s, some(E, ("r", x[0], x[1] + (("last",),))) if ne else none(E)))
        return out
    for n in ("last", "last_mut"):
        M[SL + n] = orelse(m_last, M.get(SL + n))
    M[SL + "is_empty"] = orelse(is_empty, M.get(SL + "is_empty"))
    M["alloc::vec::Vec::<T, A>::is_empty"] = orelse(is_empty, M.get("alloc::vec::Vec::<T, A>::is_empty"))

    # vectors by value: the items in order
    def m_viter(E, st, d, args, ctx):
        v = args[0]
        if v[0] == "V":
            return [(st, ("it", ("viter", v[2], 0, v[1])))]
        return None
    VI = "<alloc::vec::Vec<T, A> as core::iter::traits::collect::IntoIterator>::into_iter"
    M[VI] = orelse(m_viter, M.get(VI))
    M["core::iter::traits::collect::IntoIterator::into_iter"] = orelse(m_viter, M.get("core::iter::traits::collect::IntoIterator::into_iter"))

    def vnext(E, st, r, n):
        x = E.load(st, r[1], r[2])
        if x[0] != "it" or x[1][0] != "viter":
            return None
        _, v, i, ety = x[1]
        if n + i > 8:
            raise Undecided("a loop over the items of a vector")
        out = []
        for s, b in C.ask(E, st, ("longer", v, ("int", i + n))):
            E.store(s, r[1], r[2], ("it", ("viter", v, i + n + 1, ety)), hook=False)
            out.append((s, some(E, C.mk(E, s, ety, ("at", v, i + n))) if b else none(E)))
        return out

    def m_vnext(E, st, d, args, ctx):
        return vnext(E, st, args[0], 0) if args[0][0] == "r" else None

    def m_vnth(E, st, d, args, ctx):
        c = st.const(args[1]) if args[1][0] == "i" else None
        return vnext(E, st, args[0], c) if c is not None and args[0][0] == "r" else None
    for n, f in (("next", m_vnext), ("nth", m_vnth)):
        for p in ("core::iter::traits::iterator::Iterator::" + n, "<alloc::vec::into_iter::IntoIter<T, A> as core::iter::traits::iterator::Iterator>::" + n):
            M[p] = orelse(f, M.get(p))

    def m_append(E, st, d, args, ctx):
        a, b = target(E, st, args[0]), target(E, st, args[1])
        if not a or not b or a[2][0] != "V" or b[2][0] != "V":
            return None
        E.store(st, a[0], a[1], ("V", a[2][1], ext(a[2][2], b[2][2])))
        E.store(st, b[0], b[1], ("V", b[2][1], ("nil",)))
        return [(st, UNIT)]
    M["alloc::vec::Vec::<T, A>::append"] = m_append

    def m_vclear(E, st, d, args, ctx):
        x = target(E, st, args[0])
        if not x or x[2][0] != "V":
            return None
        E.store(st, x[0], x[1], ("V", x[2][1], ("nil",)))
        return [(st, UNIT)]
    M["alloc::vec::Vec::<T, A>::clear"] = m_vclear

    # vec![..]
    def m_new_uninit(E, st, d, args, ctx):
        n = 0
        while ("box", n) in st.mem:
            n += 1
        st.mem[("box", n)] = ("cell", UNK)
        return [(st, ("r", ("box", n), ()))]
    M["alloc::boxed::Box::<T>::new_uninit"] = m_new_uninit

    def m_box_new(E, st, d, args, ctx):
        r = m_new_uninit(E, st, d, args, ctx)
        st.mem[r[0][1][1]] = args[0]
        return r
    M["alloc::boxed::Box::<T>::new"] = m_box_new

    def m_into_vec(E, st, d, args, ctx):
        v = args[0]
        if v[0] != "r":
            return None
        x = E.load(st, v[1], v[2])
        if x[0] == "cell":
            x = x[1]
        while x[0] == "a" and C.T[x[1]]["k"] != "array" and len(x[3]) == 1:
            x = x[3][0]
        if x[0] != "a" or C.T[x[1]]["k"] != "array":
            return None
        st.mem.pop(v[1], None)
        a = ctx["callee"].get("args") or []
        el = next((i for i in a if isinstance(i, int)), None)
        if x[3] and x[3][0][0] == "a" and x[3][0][1]:
            el = x[3][0][1]
        t = ("nil",)
        for y in x[3]:
            t = snoc(t, C.reify(E, st, y))
        return [(st, ("V", el, t))]
    for p in ("alloc::boxed::box_assume_init_into_vec_unsafe", "alloc::slice::<impl [T]>::into_vec"):
        M[p] = m_into_vec

    def m_unwrap_or_default(E, st, d, args, ctx):
        cs = C.opt_split(E, st, args[0])
        if cs is None:
            return None
        a = ctx["callee"].get("args") or []
        t = C.T[a[0]] if a and isinstance(a[0], int) else {}
        out = []
        for s, p in cs:
            if p is not None:
                out.append((s, p))
            elif t.get("p") == "alloc::string::String":
                out.append((s, ("S", EMPTY)))
            elif t.get("p") == "alloc::vec::Vec":
                out.append((s, ("V", t["args"][0], ("nil",))))
            elif t.get("p") == "core::option::Option":
                out.append((s, none(E)))
            elif t.get("k") in ("int", "uint"):
                out.append((s, K(0)))
            elif t.get("k") == "bool":
                out.append((s, FALSE))
            elif t.get("k") == "ref" and C.T[t["t"]]["k"] == "str":
                out.append((s, ("s", EMPTY)))
            else:
                return None
        return out
    M["core::option::Option::<T>::unwrap_or_default"] = m_unwrap_or_default

    def m_cloned(E, st, d, args, ctx):
        cs = C.opt_split(E, st, args[0])
        if cs is None:
            return None
        out = []
        for s, p in cs:
            if p is None:
                out.append((s, none(E)))
            elif p[0] == "r":
                out.append((s, some(E, E.load(s, p[1], p[2]))))
            else:
                out.append((s, some(E, p)))
        return out
    for n in ("cloned", "copied"):
        M["core::option::Option::<&T>::" + n] = m_cloned
        M["core::option::Option::<&mut T>::" + n] = m_cloned

    def m_clone(E, st, d, args, ctx):
        if args[0][0] in ("s", "S"):
            return [(st, args[0])]
        t = target(E, st, args[0])
        return [(st, t[2])] if t else None
    M["core::clone::Clone::clone"] = m_clone

    # options held opaquely
    def opt_ref(E, st, d, args, ctx):
        r = args[0]
        if r[0] != "r":
            return None
        v = E.load(st, r[1], r[2])
        if v[0] == "a":
            return [(st, none(E) if v[2] == 0 else some(E, ("r", r[1], r[2] + (("v", 1), ("f", 0)))))]
        if v[0] == "o":
            return [(s, none(E) if k == 0 else some(E, ("r", r[1], r[2] + (("v", 1), ("f", 0))))) for s, k in C.cases(E, st, v[1], v[2])]
        return None
    O = "core::option::Option::<T>::"
    M[O + "as_ref"] = opt_ref
    M[O + "as_mut"] = opt_ref

    def opt_deref(E, st, d, args, ctx):
        r = opt_ref(E, st, d, args, ctx)
        if r is None:
            return None
        out = []
        for s, v in r:
            if v[2] == 0:
                out.append((s, v))
                continue
            x = E.load(s, v[3][0][1], v[3][0][2])
            if x[0] in ("S", "s"):
                out.append((s, some(E, ("s", x[1]))))
            elif x[0] == "V":
                out.append((s, v))
            else:
                return None
        return out
    M[O + "as_deref"] = opt_deref

    def opt_is(neg):
        def m(E, st, d, args, ctx):
            r = opt_ref(E, st, d, args, ctx)
            return None if r is None else [(s, B((v[2] == 0) != neg)) for s, v in r]
        return m
    M[O + "is_none"] = opt_is(False)
    M[O + "is_some"] = opt_is(True)

    def unwrap(what):
        def m(E, st, d, args, ctx):
            v = args[0]
            if v[0] == "o" and C.tpath(v[1]) == "core::option::Option":
                out = []
                for s, p in C.opt_split(E, st, v):
                    if p is None:
                        E.panic(s, what)
                    else:
                        out.append((s, p))
                return out
            return None
        return m
    for n in ("unwrap", "expect"):
        M[O + n] = orelse(unwrap(n + " on None"), M[O + n])

    def m_minmax(small):
        def m(E, st, d, args, ctx):
            if len(args) != 2:
                return None
            a, b = C.termval(st, args[0]), C.termval(st, args[1])
            if a is None or b is None or a[0] == "int" and b[0] == "int":
                return None
            return [(s, (args[0] if v else args[1]) if small else (args[1] if v else args[0])) for s, v in C.ask(E, st, ("le", a, b))]
        return m
    for n in ("min", "max"):
        for p in ("core::cmp::Ord::" + n, "core::cmp::" + n, "core::intrinsics::integer_" + n):
            M[p] = orelse(m_minmax(n == "min"), M.get(p))

    def opt_take(E, st, d, args, ctx):
        r = args[0]
        if r[0] != "r":
            return None
        v = E.load(st, r[1], r[2])
        if v[0] not in ("a", "o"):
            return None
        E.store(st, r[1], r[2], ("a", v[1], 0, ()))
        return [(st, v)]
    M[O + "take"] = opt_take

    def m_into(E, st, d, args, ctx):
        v = args[0]
        a = ctx["callee"].get("args") or []
        tys = [C.T[i] for i in a if isinstance(i, int)]
        if len(tys) == 2 and tys[1].get("p") == "alloc::string::String" and v[0] in ("s", "S", "r"):
            t = sarg(st, v)
            if t is not None:
                return [(st, ("S", t))]
        if len(tys) == 2 and a[0] == a[1]:
            return [(st, v)]
        return None
    M["core::convert::Into::into"] = m_into
    M["<T as core::convert::Into<U>>::into"] = m_into
    M["<T as core::convert::From<T>>::from"] = models.m_ident
    M["<I as core::iter::traits::collect::IntoIterator>::into_iter"] = models.m_ident
