"""Rules over the one-step transfer table of the fold (fold.py)."""
import parser_tables as PT
from parser_client import Missing
from terms import EMPTY, subst, trimmed
from fold import OP

AST = {"UnorderedList": "List", "OrderedList": "List"}
TRANSPARENT = ("Title", "Destination", "Modifier", "Icon", "Metadata", "Document")


class Table:
    def __init__(self, C):
        self.C = C
        T = C.T
        op = T[C.op_ty]["vs"][0]["f"]
        self.fk = self.fc = None
        for i, (n, ty) in enumerate(op):
            t = T[ty]
            if t["k"] == "enum" and {v["n"] for v in t["vs"]} >= {"Start", "End", "Value"}:
                self.fk = i
                self.kind_ty = ty
            else:
                self.fc = i
        if self.fk is None or self.fc is None:
            raise Missing("the kind and content of an Op")
        self.node_ty = next(v["f"][0][1] for v in T[self.kind_ty]["vs"] if v["n"] == "Start")
        self.nodes = [v["n"] for v in T[self.node_ty]["vs"]]
        self.kt = ("fld", OP, "", self.fk)
        self.ct = ("fld", OP, "", self.fc)
        self.rootname = None if C.root is None else C.vname(C.frame_ty, C.root)
        self.init = [r for r in C.rows if r.stack is not None and r.stack[0] == "init"]
        self.rows = []
        for r in C.rows:
            if r in self.init and r.op is None:
                continue
            self.rows.append(self.decode(r))
        self.F = {}

    def disc(self, r, term):
        for f in r.facts:
            if f[0] == "disc" and f[1] == term:
                return f[2]
        return None

    def isf(self, r, cond):
        for f in r.facts:
            if f[0] == "is" and f[1] == cond:
                return f[2]
        return None

    def decode(self, r):
        d = {"r": r, "taint": r.taint, "facts": r.facts, "out": r.kind if r.kind != "ret" else self.outcome(r)}
        if r.op == ("end",):
            d["kind"], d["node"] = "end", None
        else:
            k = self.disc(r, self.kt)
            d["kind"] = k
            d["node"] = self.disc(r, ("fld", self.kt, k, 0)) if k in ("Start", "End") else None
        c = self.disc(r, self.ct)
        d["text"] = None
        if c == "Materialized":
            d["text"] = ("fld", self.ct, "Materialized", 0)
        elif c == "Span":
            rt = ("fld", self.ct, "Span", 0)
            d["text"] = EMPTY if self.emptyrange(r, rt) else self.slice(r, rt)
        if r.stack is not None and r.stack[0] == "fst":
            d["below"], d["ent"], d["n"] = r.stack[1], r.stack[2], r.stack[3]
        else:
            d["below"] = d["ent"] = d["n"] = None
        d["top"] = self.disc(r, ("fr", 0))
        d["par"] = self.disc(r, ("fr", 1))
        return d

    def emptyrange(self, r, rt):
        lo, hi = ("fld", rt, "", 0), ("fld", rt, "", 1)
        return self.isf(r, ("emptyrange", rt)) == 1 or self.isf(r, ("lt", lo, hi)) == 0 or self.isf(r, ("le", hi, lo)) == 1 or \
            self.isf(r, ("eq", lo, hi)) == 1 or self.isf(r, ("eq", hi, lo)) == 1

    def slice(self, r, rt):
        t = ("slice", ("source",), rt)
        lo, hi = ("fld", rt, "", 0), ("fld", rt, "", 1)
        found = []

        def walk(x):
            if isinstance(x, tuple):
                if x[:2] == ("slice", ("source",)) and len(x) == 3 and x[2][0] == "con" and x[2][2:4] == (lo, hi):
                    found.append(x)
                for y in x:
                    walk(y)
        if r.stack and r.stack[0] == "fst":
            walk(r.stack[2])
        return found[0] if found else t

    def outcome(self, r):
        if r.val is None or r.val == ("?",):
            return "?"
        return "Ok" if r.val[0] == 0 else "Err"

    def desc(self, d):
        return "%s%s on top of %s" % (d["kind"], "(%s)" % d["node"] if d["node"] else "", d["top"] or "any frame")

    # ------------------------------------------------------------ which frame a node opens
    def frames(self):
        for d in self.rows:
            if d["kind"] == "Start" and d["node"] and d["out"] == "next" and d["ent"] and len(d["ent"]) == d["n"] + 1:
                t = d["ent"][-1]
                if t[0] == "con":
                    self.F.setdefault(d["node"], {}).setdefault(t[1][2].split("::")[-1], []).append((t, d))
        return self.F

    def vfields(self, vn):
        for v in self.C.T[self.C.frame_ty]["vs"]:
            if v["n"] == vn:
                return v["f"]
        return []

    def variant_of(self, d, j):
        """variant name of entry j counted from the top, after the event"""
        t = d["ent"][-1 - j]
        if t[0] == "con":
            return t[1][2].split("::")[-1]
        if t[0] == "fr":
            return self.disc(d["r"], t)
        return None


def table(S):
    C = S.fold()
    T = Table(C)
    T.frames()
    return C, T


def unclean(C, rep):
    if C.error:
        rep.undecided("fold", C.error)
        return True
    if any(r.taint for r in C.rows):
        # a case may be missing because the analysis lost track of it
        t = sorted({t for r in C.rows for t in r.taint})
        req = rep.require
        rep.require = lambda cond, key, what: req(True, key, what) if cond else rep.undecided(key, "%s (%s)" % (what, "; ".join(t[:3])))
    return False


def common(C, rep):
    rep.cov["cases"] = len(C.rows)
    rep.cov["functions_analysed"] = sorted(b for b in C.E.stats["bodies"] if b.startswith("yamd::") or "<yamd" in b)[:80]
    rep.cov["entry"] = C.entry.path
    if C.E.stats["unmodelled"]:
        rep.cov["unmodelled"] = {k: v for k, v in sorted(C.E.stats["unmodelled"].items())[:40]}


def p11(S, rep):
    C, T = table(S)
    common(C, rep)
    if unclean(C, rep):
        return
    fn = C.entry.path
    rep.require(len(T.init) == 1 and C.root is not None, "init", "%s does not start with one root frame" % fn)
    for (p, key, f), x in sorted(C.E.findings.items(), key=repr):
        if p == "panic":
            if x["tainted"]:
                rep.undecided("%s in %s" % (key, f), "; ".join(x["taint"][:3]))
            else:
                rep.bad("panic:%s:%s" % (key, f.split("::")[-1]), "%s: %s (%s)" % (f, x["what"], x["span"]))
    def emit(d, key, text, o):
        if d["taint"]:
            rep.undecided(o, "; ".join(sorted(d["taint"])[:3]))
        else:
            rep.bad(key, "%s: %s" % (fn, text), o)
    seen = set()
    for d in T.rows:
        k, n = d["kind"], d["node"]
        o = T.desc(d)
        if k == "Start":
            o = "Start(%s)" % n
            seen.add(o)
            if d["out"] != "next":
                emit(d, "start-rejected:%s" % n, "a Start(%s) makes the fold return (%s)" % (n, d["out"]), o)
                continue
            if n is None:
                emit(d, "start-any", "every Start is handled alike", o)
                continue
            same = d["ent"] is not None and len(d["ent"]) == d["n"] + 1 and all(
                T.variant_of(d, 1 + j) in (None, T.disc(d["r"], ("fr", j))) for j in range(d["n"]))
            if not same:
                emit(d, "start-height:%s" % n, "a Start(%s) does not push exactly one frame" % n, o)
                continue
            vs = set(T.F.get(n, {}))
            if len(vs) != 1:
                emit(d, "start-frame:%s" % n, "Start(%s) pushes different frames: %s" % (n, sorted(vs)), o)
            elif vs == {T.rootname}:
                emit(d, "start-root:%s" % n, "Start(%s) pushes the root's frame" % n, o)
            else:
                rep.ok(o)
        elif k == "Value":
            seen.add("Value")
            if d["out"] == "Err" and d["top"] == T.rootname:
                rep.ok(o)
                continue
            if d["out"] == "Err" and d["top"]:
                ns = [m for m, v in T.F.items() if d["top"] in v]
                if ns and not any("Value" in PT.CHILDREN.get(m, ("", ""))[1] or "Value" in " ".join(PT.CHILDREN.get(m, ("", ""))[1]) for m in ns):
                    rep.ok(o)       # the grammar never puts a Value there
                    continue
            if d["out"] != "next":
                emit(d, "value-rejected:%s" % d["top"], "a Value inside %s makes the fold return (%s)" % (d["top"], d["out"]), o)
            elif d["ent"] is None or len(d["ent"]) != d["n"] or (d["n"] and T.variant_of(d, 0) not in (None, d["top"])):
                emit(d, "value-height:%s" % d["top"], "a Value inside %s opens or closes a node" % d["top"], o)
            else:
                rep.ok(o)
        elif k == "End":
            ns = [n] if n else T.nodes
            for m in ns:
                seen.add("End(%s)" % m)
            match = n is not None and d["top"] is not None and set(T.F.get(n, {})) == {d["top"]}
            if match:
                if d["out"] == "Err":
                    kids = T.par_node(d) if hasattr(T, "par_node") else None
                    pn = [m for m, v in T.F.items() if d["par"] in v]
                    if d["par"] == T.rootname and n in ("Document", "Metadata") or any(allowed(p, n) for p in pn) or d["par"] is None:
                        emit(d, "end-rejected:%s" % n, "an End(%s) that closes its own frame inside %s is rejected" % (n, d["par"] or "any frame"), o)
                    else:
                        rep.ok(o)
                elif d["out"] != "next":
                    emit(d, "end-returns:%s" % n, "End(%s) makes the fold return (%s)" % (n, d["out"]), o)
                elif d["ent"] is None or len(d["ent"]) != d["n"] - 1:
                    emit(d, "end-height:%s" % n, "End(%s) does not close exactly one frame" % n, o)
                elif d["ent"] and T.variant_of(d, 0) not in (None, d["par"]):
                    emit(d, "end-parent:%s" % n, "End(%s) replaces the frame of its parent" % n, o)
                else:
                    rep.ok(o)
            elif d["out"] == "Err":
                rep.ok(o)
            else:
                emit(d, "end-unmatched:%s" % n, "an End(%s) that meets %s is not rejected (%s)" % (n or "any node", d["top"] or "any frame", d["out"]), o)
        elif k == "end":
            seen.add("end")
            if d["out"] == "Ok" and d["top"] != T.rootname:
                emit(d, "unclosed", "a stream that leaves %s open is accepted" % (d["top"] or "nodes"), o)
            elif d["out"] == "Err" and d["top"] == T.rootname and d["below"] == "none":
                emit(d, "complete-rejected", "a complete stream is rejected", o)
            elif d["out"] in ("Ok", "Err"):
                rep.ok(o)
            else:
                emit(d, "end-unknown", "the result at the end of the stream is %s" % d["out"], o)
        else:
            if d["out"] in ("Ok", "Err"):
                emit(d, "early-return", "the fold returns %s without looking at the event" % d["out"], "event")
            else:
                emit(d, "ignored", "an event is skipped without looking at it", "event")
    for n in T.nodes:
        for o in ("Start(%s)" % n, "End(%s)" % n):
            rep.require(o in seen, "case:" + o, "no case of the fold handles %s" % o)
    for o in ("Value", "end"):
        rep.require(o in seen, "case:" + o, "no case of the fold handles %s" % o)
    inv = {}
    for n, vs in T.F.items():
        for v in vs:
            inv.setdefault(v, []).append(n)
    for v, ns in sorted(inv.items()):
        if len(ns) > 1:
            rep.bad("frame-shared:%s" % v, "%s: the nodes %s share one frame, so one's End closes the other" % (fn, ", ".join(sorted(ns))))
        else:
            rep.ok("frame %s belongs to %s" % (v, ns[0]))


def allowed(parent, child):
    k, w = PT.CHILDREN.get(parent, ("set", ""))
    return child in (w.split() if k == "set" else " ".join(w).split())


# ------------------------------------------------------------------ what is built from what
class Build:
    def __init__(self, C, T):
        self.C, self.T = C, T
        self.roles = {}
        for n in T.nodes:
            self.find_roles(n)

    def vn(self, node):
        vs = sorted(self.T.F.get(node, {}))
        return vs[0] if len(vs) == 1 else None

    def cons(self, t, name, out):
        if isinstance(t, tuple):
            if t[:1] == ("con",) and t[1][2] == name:
                out.append(t)
            for x in t:
                self.cons(x, name, out)
        return out

    def ast_fields(self, ty):
        return [f[0] for f in self.C.T[ty]["vs"][0]["f"]]

    def find_roles(self, n):
        T = self.T
        vn = self.vn(n)
        if vn is None:
            return
        fs = T.vfields(vn)
        if n in TRANSPARENT:
            self.roles[n] = {i: "it" for i in range(len(fs))} if len(fs) == 1 else {}
            return
        r = self.roles[n] = {}
        for d in T.rows:
            if d["kind"] == "End" and d["node"] == n and d["top"] == vn and d["ent"]:
                for c in self.cons(d["ent"][-1], AST.get(n, n), []):
                    for name, arg in zip(self.ast_fields(c[1][0]), c[2:]):
                        for i in range(len(fs)):
                            t = ("fld", ("fr", 0), vn, i)
                            if i not in r and contains(arg, t):
                                r[i] = name

    def root_roles(self):
        T = self.T
        r = {}
        for d in T.rows:
            if d["kind"] == "end" and d["out"] == "Ok" and d["r"].val[1]:
                c = d["r"].val[1]
                if c[0] == "con" and c[1][2] == "Yamd":
                    for name, arg in zip(self.ast_fields(c[1][0]), c[2:]):
                        for i in range(len(T.vfields(T.rootname))):
                            if i not in r and contains(arg, ("fld", ("fr", 0), T.rootname, i)):
                                r[i] = name
        return r

    def rename(self, t, d, node, parent):
        """frame fields by role: the closed node's are ("c", role), its parent's ("p", role)"""
        m = {}
        if node is not None:
            vn = self.vn(node)
            for i in range(len(self.T.vfields(vn))):
                m[("fld", ("fr", 0), vn, i)] = ("c", self.roles[node].get(i))
        j = 1 if node is not None else 0
        pv, pr = (self.T.rootname, self.root_roles()) if parent == "Yamd" else (self.vn(parent), self.roles[parent])
        for i in range(len(self.T.vfields(pv))):
            m[("fld", ("fr", j), pv, i)] = ("p", pr.get(i))
        return subst(t, m)

    def effect(self, d, node, parent):
        """what the event changes in the parent's frame: role -> term"""
        j = 1 if node is not None else 0
        t = d["ent"][-1]
        if t == ("fr", j):
            return {}
        pv, pr = (self.T.rootname, self.root_roles()) if parent == "Yamd" else (self.vn(parent), self.roles[parent])
        if t[0] != "con" or t[1][2].split("::")[-1] != pv:
            return None
        eff = {}
        for i, x in enumerate(t[2:]):
            if x == ("fld", ("fr", j), pv, i):
                continue
            eff[pr.get(i)] = self.rename(x, d, node, parent)
        return eff

    def facts(self, d, node, parent):
        return [self.rename(f, d, node, parent) for f in d["facts"]]


def contains(t, s):
    return t == s or (isinstance(t, tuple) and any(contains(x, s) for x in t))


def strip(t):
    """constructor names only (type indices vary)"""
    if isinstance(t, tuple):
        if t and t[0] == "con":
            return ("con", t[1][2]) + tuple(strip(x) for x in t[2:])
        return tuple(strip(x) for x in t)
    return t


class Facts:
    def __init__(self, fs):
        self.fs = [strip(f) for f in fs]

    def disc(self, t):
        for f in self.fs:
            if f[0] == "disc" and f[1] == t:
                return f[2]
        return None

    def is_(self, c):
        for f in self.fs:
            if f[0] == "is" and f[1] == c:
                return f[2]
        return None


NL = ("lit", "\n")


def some(x):
    return ("con", "Option::Some", x)


NONE = ("con", "Option::None")


def trimmed_body(F, b):
    """a paragraph's content with the line break that ends its block removed"""
    if F.is_(("empty", b)) == 1:
        return {b}
    l = ("last", b)
    k = F.disc(l)
    if k is not None and k != "Text":
        return {b}
    t = ("trim_end_matches", ("fld", l, "Text", 0), NL)
    e = F.is_(("empty", t))
    if e == 1:
        return {("init", b)}
    if e == 0:
        return {("setlast", b, ("con", "ParagraphNodes::Text", t))}
    return set()


def node_terms(B, n, F):
    """acceptable terms for the AST node that a closed node n becomes (over its own roles); None: not expressible"""
    name = AST.get(n, n)
    ty = next((i for i, t in enumerate(B.C.T) if t["k"] == "struct" and (t.get("p") or "").startswith("yamd::nodes") and B.C.short(i) == name), None)
    if ty is None:
        raise Missing("the AST node " + name)
    args = []
    for f, fty in B.C.T[ty]["vs"][0]["f"]:
        c = ("c", f)
        opts = {c}
        if n == "Code" and f == "code":
            opts = {("trim_end_matches", c, NL)}
        elif name == "List" and f == "list_type":
            opts = {("con", "ListTypes::Unordered" if n == "UnorderedList" else "ListTypes::Ordered")}
        elif n == "Embed" and f == "kind":
            opts = {("at", ("c", "kind"), 0)}
        elif n == "Embed" and f == "args":
            opts = {("at", ("c", "kind"), 2)}
        if B.C.tpath(fty) == "core::option::Option":
            if F.disc(c) == "None":
                opts.add(NONE)
            if F.disc(c) == "Some":
                opts.add(some(("fld", c, "Some", 0)))
        args.append(opts)
    return name, args


def is_node(B, n, F, t):
    """t is the AST node n becomes, possibly inside a wrapper enum's variant for it"""
    name, args = node_terms(B, n, F)
    if t[0] == "con" and "::" in t[1] and len(t) == 3:
        t = t[2]
    if t[0] != "con" or t[1] != name or len(t) != 2 + len(args):
        return False
    return all(x in o for x, o in zip(t[2:], args))


def snocs(t, old):
    return t[2] if t[0] == "snoc" and t[1] == old else None


TEXT_APPEND = {"Italic": None, "Strikethrough": None, "CodeSpan": None, "Emphasis": None, "Title": "it", "Destination": "it",
               "Modifier": "it", "Icon": "it", "Metadata": "it", "Code": "code"}
TEXT_NODE = {"Heading": ("body", "HeadingNodes::Text"), "Paragraph": ("body", "ParagraphNodes::Text"), "Bold": ("body", "BoldNodes::Text")}


def show(t, depth=0):
    if isinstance(t, dict):
        return "{" + ", ".join("%s: %s" % (k, show(v)) for k, v in sorted(t.items(), key=repr)) + "}" if t else "nothing"
    if not isinstance(t, tuple):
        return repr(t)
    if depth > 6:
        return ".."
    k = t[0]
    s = lambda x: show(x, depth + 1)
    if k == "c":
        return "its %s" % t[1]
    if k == "p":
        return "the parent's %s" % t[1]
    if k == "con":
        n = t[1] if isinstance(t[1], str) else t[1][2]
        return n + ("(%s)" % ", ".join(s(x) for x in t[2:]) if len(t) > 2 else "")
    if k == "lit":
        return repr(t[1])
    if k == "int":
        return str(t[1])
    if k == "fld":
        return "%s.%s" % (s(t[1]), t[3])
    if k == "TEXT":
        return "the event's text"
    return "%s(%s)" % (k, ", ".join(s(x) if isinstance(x, tuple) else repr(x) for x in t[1:]))


def value_ok(B, n, eff, text):
    if n in TEXT_APPEND:
        r = TEXT_APPEND[n] or next(iter(B.roles[n].values()), None)
        if text == EMPTY:
            return eff in ({}, {r: EMPTY})
        return eff in ({r: ("cat", ("p", r), text)}, {r: text}) if n != "Code" else eff == {r: ("cat", ("p", r), text)} or eff == {r: text}
    if n in TEXT_NODE:
        r, c = TEXT_NODE[n]
        return eff == {r: ("snoc", ("p", r), ("con", c, text))}
    if n == "Embed":
        return eff == {"kind": ("snoc", ("p", "kind"), text)}
    return eff == {}


def child_ok(B, p, n, eff, F):
    c = ("c", "it")
    one = lambda r: eff.get(r) if set(eff) == {r} else None
    if p == "Yamd":
        if n == "Document":
            return one("body") in (("ext", ("p", "body"), c), c)
        if n == "Metadata":
            return one("metadata") == some(("trim_matches", c, NL))
    if n == "Document":
        return one("body") in (c, ("ext", ("p", "body"), c))
    if n == "Modifier":
        if p == "Highlight":
            return one("title") == some(c)
        return one("lang" if p == "Code" else "title") in (c, ("cat", ("p", "lang" if p == "Code" else "title"), c))
    if n == "Icon":
        return one("icon") == some(c)
    if n == "Title":
        return one("text" if p == "Anchor" else "alt") == c
    if n == "Destination":
        return one("url" if p == "Anchor" else "src") == c
    if p == "ListItem" and n == "Paragraph":
        return one("text") in trimmed_body(F, ("c", "body"))
    if p == "ListItem" and AST.get(n) == "List":
        t = one("nested_list")
        return t is not None and t[:2] == ("con", "Option::Some") and is_node(B, n, F, t[2])
    if p == "Highlight" and n == "Paragraph":
        t = one("body")
        x = snocs(t, ("p", "body")) if t else None
        return x is not None and x[:2] == ("con", "Paragraph") and x[2] in trimmed_body(F, ("c", "body"))
    role = "it" if p == "Document" else "body"
    t = one(role)
    x = snocs(t, ("p", role)) if t else None
    return x is not None and is_node(B, n, F, x)


# ------------------------------------------------------------------ what the tree should be, on values
def domain(B, ty):
    import ceval as V
    C = B.C
    t = C.T[ty]
    p = C.tpath(ty)
    if p == "alloc::string::String":
        return list(V.STR)
    if p == "core::option::Option":
        return [V.NONE, V.some("s"), V.some("\n")] if C.tpath(t["args"][0]) == "alloc::string::String" else [V.NONE, V.some("x")]
    e = C.elem(ty)
    if e is not None:
        if C.tpath(e) == "alloc::string::String":
            return [("vec", "k", "|", "v"), ("vec", "k", "|", "")]
        n = C.short(e)
        if C.T[e]["k"] == "enum" and any(v["n"] == "Text" for v in C.T[e]["vs"]):
            T = lambda s: ("con", n + "::Text", s)
            o = ("con", n + "::" + next(v["n"] for v in C.T[e]["vs"] if v["n"] != "Text"), "x")
            return [("vec",), ("vec", T("")), ("vec", T("a")), ("vec", T("a\n")), ("vec", T("a \n")), ("vec", T("a\r\n")), ("vec", T("\n\n")), ("vec", T(" a\tB")), ("vec", o), ("vec", o, T("\n")), ("vec", T("b\n"), o),
                    ("vec", T("a\n"), T("c\n")), ("vec", T("a"), T("\n"))]
        return [("vec",), ("vec", "x"), ("vec", "x", "y")]
    return [0, 1, 2]


def ref_node(B, n, c):
    name = AST.get(n, n)
    ty = next(i for i, t in enumerate(B.C.T) if t["k"] == "struct" and (t.get("p") or "").startswith("yamd::nodes") and B.C.short(i) == name)
    args = []
    for f, _ in B.C.T[ty]["vs"][0]["f"]:
        if n == "Code" and f == "code":
            v = c["code"].rstrip("\n")
        elif name == "List" and f == "list_type":
            v = ("con", "ListTypes::" + ("Unordered" if n == "UnorderedList" else "Ordered"))
        elif n == "Embed":
            v = c["kind"][1 if f == "kind" else 3]
        else:
            v = c[f]
        args.append(v)
    return ("con", name) + tuple(args)


def ref_body(b):
    if len(b) > 1 and b[-1][:2] == ("con", "ParagraphNodes::Text"):
        t = b[-1][2].rstrip("\n")
        return b[:-1] + ((("con", "ParagraphNodes::Text", t),) if t else ())
    return b


def ref(B, p, n, c, old, text):
    """what a frame of p holds after the event, on values"""
    import ceval as V
    o = dict(old)
    if n == "Value":
        if p in TEXT_APPEND:
            r = TEXT_APPEND[p] or next(iter(B.roles[p].values()), None)
            o[r] = o[r] + text
        elif p in TEXT_NODE:
            r, k = TEXT_NODE[p]
            o[r] = o[r] + (("con", k, text),)
        elif p == "Embed":
            o["kind"] = o["kind"] + (text,)
        return o
    it = c.get("it")
    if n == "Document":
        o["body"] = o["body"] + it[1:]
    elif n == "Metadata":
        o["metadata"] = V.some(it.strip("\n"))
    elif n == "Modifier":
        if p == "Highlight":
            o["title"] = V.some(it)
        else:
            o["lang" if p == "Code" else "title"] = it
    elif n == "Icon":
        o["icon"] = V.some(it)
    elif n == "Title":
        o["text" if p == "Anchor" else "alt"] = it
    elif n == "Destination":
        o["url" if p == "Anchor" else "src"] = it
    elif p == "ListItem" and n == "Paragraph":
        o["text"] = ref_body(c["body"])
    elif p == "ListItem":
        o["nested_list"] = V.some(ref_node(B, n, c))
    elif p == "Highlight":
        o["body"] = o["body"] + (("con", "Paragraph", ref_body(c["body"])),)
    else:
        r = "it" if p == "Document" else "body"
        o[r] = o[r] + (ref_node(B, n, c),)
    return o


# roles that are still empty when the event adds to them: the grammar gives the parent at most one such child
ONCE = {("Collapsible", "Document"): "body", ("Code", "Modifier"): "lang", ("Collapsible", "Modifier"): "title", ("ListItem", "Paragraph"): "text"}


def witness(B, p, n, eff, facts, text):
    """(True, example) when some value shows the difference, (False, None) when none does, (None, why) when not evaluable"""
    import ceval as V
    try:
        doms = {}
        if n != "Value":
            for i, (_, ty) in enumerate(B.T.vfields(B.vn(n))):
                doms[("c", B.roles[n].get(i))] = domain(B, ty)
        pv, pr = (B.T.rootname, B.root_roles()) if p == "Yamd" else (B.vn(p), B.roles[p])
        for i, (_, ty) in enumerate(B.T.vfields(pv)):
            d = domain(B, ty)
            r = pr.get(i)
            if ONCE.get((p, n)) == r or n != "Value" and r in ("metadata", "nested_list"):
                d = d[:1]
            if p == "Embed" and n == "Value":
                d = [("vec",), ("vec", "k"), ("vec", "k", "|")]
            doms[("p", r)] = d[:2] if n != "Value" and B.C.elem(ty) is not None else d
        if None in {k[1] for k in doms}:
            return None, "a field of the frame has no place in the tree"
        fs = [f for f in facts if V.leaves(f, set(doms), set())]
        if text is not None and text != EMPTY:
            eff = {k: subst(v, {text: ("TEXT",)}) for k, v in eff.items()}
            doms[("TEXT",)] = ["t", "\n", "t\n"]
            fs = [subst(f, {text: ("TEXT",)}) for f in fs]
        n_ok = 0
        for a in V.assignments(doms):
            try:
                if not all(V.fact(f, a) for f in fs):
                    continue
            except V.Unknown as e:
                if str(e) in ("field", "item of nothing", "last of nothing"):
                    continue            # the facts before it already exclude this value
                return None, str(e)
            old = {k[1]: v for k, v in a.items() if k[0] == "p"}
            new = dict(old)
            for r, t in eff.items():
                new[r] = V.ev(t, a)
            want = ref(B, p, n, {k[1]: v for k, v in a.items() if k[0] == "c"}, old, a.get(("TEXT",), ""))
            n_ok += 1
            for r in want:
                if V.norm(new.get(r)) != V.norm(want[r]):
                    return True, "with %s its %s is %s, not %s" % (", ".join(
                        "%s %s = %s" % ("the parent's" if k[0] == "p" else "the node's" if k[0] == "c" else "the", k[1] if len(k) > 1 else "text", vshow(v))
                        for k, v in sorted(a.items(), key=repr) if V.leaves(eff.get(r, ()), {k}, set()) or V.leaves(tuple(fs), {k}, set())) or "any value", r, vshow(new.get(r)), vshow(want[r]))
        return (False, None) if n_ok else (None, "no value satisfies the case")
    except V.Unknown as e:
        return None, str(e)


def vshow(v):
    if isinstance(v, tuple) and v[:1] == ("vec",):
        return "[%s]" % ", ".join(vshow(x) for x in v[1:])
    if isinstance(v, tuple) and v[:1] == ("con",):
        return v[1] + ("(%s)" % ", ".join(vshow(x) for x in v[2:]) if len(v) > 2 else "")
    return repr(v)


def pairs():
    yield "Yamd", "Document"
    yield "Yamd", "Metadata"
    for p, (k, w) in sorted(PT.CHILDREN.items()):
        for c in sorted(set(w.split() if k == "set" else " ".join(w).split())):
            yield p, c


def p15(S, rep):
    C, T = table(S)
    common(C, rep)
    if unclean(C, rep):
        return
    fn = C.entry.path
    B = Build(C, T)

    def emit(d, key, text, o):
        if d["taint"]:
            rep.undecided(o, "; ".join(sorted(d["taint"])[:3]))
        else:
            rep.bad(key, "%s: %s" % (fn, text), o)
    rr = B.root_roles()
    mi = next((i for i, r in rr.items() if r == "metadata"), None)
    mf = ("fld", ("fr", 0), T.rootname, mi)
    ends = [d for d in T.rows if d["kind"] == "end" and d["out"] == "Ok" and d["r"].val[1] and Facts(d["facts"]).disc(mf) != "None"]
    trims = bool(ends) and all(contains(strip(d["r"].val[1]), some(("trim_matches", ("fld", mf, "Some", 0), NL))) for d in ends)
    for p, n in pairs():
        o = "%s in %s" % (n, p)
        pv = T.rootname if p == "Yamd" else B.vn(p)
        if pv is None or (n != "Value" and B.vn(n) is None):
            rep.bad("frame:" + o, "%s: no frame for %s" % (fn, o), o)
            continue
        hit = 0
        for d in T.rows:
            if d["out"] != "next":
                continue
            if n == "Value":
                if d["kind"] != "Value" or d["top"] != pv:
                    continue
            elif d["kind"] != "End" or d["node"] != n or d["top"] != B.vn(n) or d["par"] not in (pv, None):
                continue
            if any(f[0] == "is" and (f[1][0] == "longer" and f[2] == 0 or f[1][0] == "inside" and f[2] == 0) for f in d["facts"]):
                continue            # the grammar gives every embed its three values; spans lie inside the source
            hit += 1
            if not d["ent"]:
                if n == "Value" or d["par"] is None:
                    # the parent was never looked at: nothing was added to it
                    if n == "Value" and not value_ok(B, p, {}, d["text"]) or n != "Value":
                        emit(d, "lost:%s:%s" % (p, n), "a %s inside a %s is dropped" % (n, p), o)
                    else:
                        rep.ok(o)
                continue
            if n == "Value":
                eff = B.effect(d, None, p)
                eff = None if eff is None else {k: strip(v) for k, v in eff.items()}
                good = eff is not None and value_ok(B, p, eff, d["text"])
                if not good and eff is not None and d["text"] is None and p not in TEXT_APPEND and p not in TEXT_NODE and p != "Embed":
                    good = eff == {}
            else:
                eff = B.effect(d, n, p)
                eff = None if eff is None else {k: strip(v) for k, v in eff.items()}
                if (p, n) == ("Yamd", "Metadata") and eff and trims and eff.get("metadata", ())[:2] == ("con", "Option::Some"):
                    eff["metadata"] = some(trimmed("trim_matches", eff["metadata"][2], (NL,)))      # what the result trims anyway
                good = eff is not None and child_ok(B, p, n, eff, Facts(B.facts(d, n, p)))
            if good:
                rep.ok(o)
            else:
                e = {} if eff is None else subst_text(eff, d["text"])
                ex = None
                if eff is not None and not d["taint"]:
                    w, ex = witness(B, p, n, eff, Facts(B.facts(d, None if n == "Value" else n, p)).fs, d["text"])
                    if w is None:
                        rep.undecided(o, "what is built cannot be compared: %s (%s)" % (show(e), ex))
                        continue
                    if w is False:
                        rep.undecided(o, "built in a form the rule does not know, but no value tells it apart: %s" % show(e))
                        continue
                emit(d, "build:%s:%s" % (p, n), "a %s inside a %s does not end up where it belongs: it changes %s" % (
                    n, p, "the kind of frame" if eff is None else show(e) + (" - " + ex if ex else "")), o)
        rep.require(hit > 0, "pair:%s:%s" % (p, n), "%s: no case adds a %s to a %s" % (fn, n, p))
    # what a node starts with
    for n in T.nodes:
        vn = B.vn(n)
        if vn is None:
            continue
        o = "empty " + n
        for t, d in T.F[n][vn]:
            for i, x in enumerate(t[2:]):
                role = B.roles[n].get(i)
                if role == "level":
                    continue
                if strip(x) not in (EMPTY, ("nil",), NONE):
                    emit(d, "initial:%s:%s" % (n, role), "a new %s does not start with an empty %s: %s" % (n, role or "field", show(x)), o)
                else:
                    rep.ok(o)
    for r in T.init:
        ok = all(strip(x) in (EMPTY, ("nil",), NONE) for x in C.root_init[2:])
        (rep.ok("empty root") if ok else rep.bad("initial:root", "%s: the root does not start empty" % fn))
    # the heading's level, evaluated over every marker the parser can produce
    level(C, T, B, rep, emit)
    # the result
    rr = B.root_roles()
    for d in T.rows:
        if d["kind"] == "end" and d["out"] == "Ok":
            t = d["r"].val[1]
            F = Facts(d["facts"])
            o = "result"
            good = t is not None and t[0] == "con" and t[1][2] == "Yamd"
            if good:
                for name, x in zip(B.ast_fields(t[1][0]), t[2:]):
                    i = next((i for i, r in rr.items() if r == name), None)
                    f = ("fld", ("fr", 0), T.rootname, i)
                    x = strip(x)
                    # the metadata was trimmed when its node closed: trimming it again changes nothing
                    pay = ("fld", f, "Some", 0)
                    good = good and i is not None and (x == f or x == NONE and F.disc(f) == "None" or x in (
                        some(pay), some(("trim_matches", pay, NL)) if name == "metadata" else None))
            if good:
                rep.ok(o)
            else:
                emit(d, "result", "the tree returned is not the root that was built: %s" % (show(t) if t else "?"), o)


def subst_text(eff, text):
    if text is None or text == EMPTY:
        return eff
    return {k: subst(v, {text: ("TEXT",)}) for k, v in eff.items()}


def level(C, T, B, rep, emit):
    import teval
    vn = B.vn("Heading")
    o = "level of Heading"
    if vn is None:
        return
    n = 0
    for t, d in T.F["Heading"][vn]:
        for i, x in enumerate(t[2:]):
            if B.roles["Heading"].get(i) != "level":
                continue
            if d["text"] == EMPTY:
                continue                        # a heading's marker is never empty
            n += 1
            if d["taint"]:
                rep.undecided(o, "; ".join(sorted(d["taint"])[:3]))
                continue
            for h in range(1, 7):
                try:
                    v = teval.ev(x, {d["text"]: "#" * h + " "})
                    if not all(teval.ev(f[1], {d["text"]: "#" * h + " "}) == bool(f[2]) for f in d["facts"] if f[0] == "is" and contains(f[1], d["text"])):
                        continue
                except teval.Unknown as e:
                    rep.undecided(o, "the level is computed in a way the rule does not read: %s" % e)
                    break
                if v != h:
                    emit(d, "level:heading", "the level of a heading marked by %d hashes is %s" % (h, v), o)
                    break
            else:
                rep.ok(o)
    rep.require(n > 0, "heading-level", "no case of the fold gives a heading its level")


def p12(S, rep):
    C, T = table(S)
    common(C, rep)
    if unclean(C, rep):
        return
    fn = C.entry.path
    B = Build(C, T)
    lists = {B.vn("UnorderedList"), B.vn("OrderedList")}
    for n, kind in (("UnorderedList", "Unordered"), ("OrderedList", "Ordered")):
        vn = B.vn(n)
        if vn is None:
            rep.bad("frame:" + n, "%s: no frame for %s" % (fn, n))
            continue
        o = "level of " + n
        hit = 0
        for t, d in T.F[n][vn]:
            for i, x in enumerate(t[2:]):
                if B.roles[n].get(i) != "level":
                    continue
                hit += 1
                if d["taint"]:
                    rep.undecided(o, "; ".join(sorted(d["taint"])[:3]))
                elif x == ("nframes", tuple(sorted(lists))):
                    rep.ok(o)
                elif x[0] == "nframes" or x[0] in ("int", "add", "sub", "height"):
                    rep.bad("level:" + n, "%s: the level of a %s is %s, not the number of lists it is nested in" % (fn, n, show(x)), o)
                else:
                    rep.undecided(o, "the level is computed in a way the rule does not read: %s" % show(x))
        rep.require(hit > 0, "level:" + n, "%s: a %s is not given its level when it opens" % (fn, n))
        o = "kind and level kept by " + n
        hit = 0
        for d in T.rows:
            if d["kind"] == "End" and d["node"] == n and d["top"] == vn and d["ent"] and d["out"] == "next":
                for c in B.cons(d["ent"][-1], "List", []):
                    hit += 1
                    fs = dict(zip(B.ast_fields(c[1][0]), c[2:]))
                    lt, lv = strip(fs.get("list_type", ("?",))), fs.get("level")
                    i = next((i for i, r in B.roles[n].items() if r == "level"), None)
                    if d["taint"]:
                        rep.undecided(o, "; ".join(sorted(d["taint"])[:3]))
                    elif lt != ("con", "ListTypes::" + kind):
                        rep.bad("kind:" + n, "%s: a %s becomes a list of kind %s" % (fn, n, show(lt)), o)
                    elif lv != ("fld", ("fr", 0), vn, i):
                        rep.bad("level-kept:" + n, "%s: the level of a %s is changed when it closes: %s" % (fn, n, show(lv)), o)
                    else:
                        rep.ok(o)
        rep.require(hit > 0, "list:" + n, "%s: closing a %s builds no list" % (fn, n))
