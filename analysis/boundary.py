"""What each stop condition means, and which of them are in force where: the boundaries between constructs."""
from engine import shift, K
from parser_client import NSYM

LEVELS = 4


def conds(C, E, variant):
    """the values of one stop condition: [(description of the numbers and kinds, value)]"""
    T = C.p.types
    out = [((), [])]
    for f in T[C.stop_ty]["vs"][variant]["f"]:
        t = T[f[1]]
        nxt = []
        for d, vs in out:
            if t["k"] in ("int", "uint"):
                nxt += [(d + (n,), vs + [K(n)]) for n in range(LEVELS)]
            elif t["k"] == "enum" and all(not v["f"] for v in t["vs"]):
                nxt += [(d + ("#%d" % i,), vs + [("a", f[1], i, ())]) for i in range(len(t["vs"]))]
            else:
                return None
        out = nxt
    return [(d, ("a", C.stop_ty, variant, tuple(vs))) for d, vs in out]


def windows(C, E, b, cond):
    """[(holds?, classes of the token asked about and of the two after it, as far as there are)]; None when not followed"""
    st, p0 = C.entry_state(E)
    st.mem[("cnd",)] = cond
    st.z = st.z.add(p0[1], NSYM, -1)
    args = [("r", ("cnd",), ()), ("r", ("P",), (("f", C.f_tok), ("ix", p0))), ("r", ("P",), ())]
    sv = E.stack, E.unroll
    E.stack, E.unroll = [], True
    out = []
    try:
        for s, v in E.exec_body(b, args, st, 100):
            for s2, x in E.truth(s, v):
                if s2.taint:
                    return None
                w = []
                for k in range(3):
                    i = shift(p0, k)
                    w.append(0 if s2.le((("i"), NSYM, 0), i) else C.cls.proj(C.mget(s2, i)) & C.cls.inner)
                out.append((bool(x), tuple(w)))
    except Exception as e:
        return None
    finally:
        E.stack, E.unroll = sv
    return out


MARKS = {"Terminator": "a blank line", "CollapsibleEnd": "%} at the start of a line", "HighlightEnd": "!! at the start of a line",
         "ListBoundary": "a list marker at the start of a line"}


class Patterns:
    def __init__(self, cls):
        self.cls = cls
        self.any = cls.inner

    def tok(self, kind, n=None, col0=False):
        i = self.cls.kinds.index(kind)
        return self.cls.sel(lambda c: c[0] == i and (n is None or c[2] == c[3] == n) and (not col0 or c[1] == 1)) & self.cls.inner

    def marker(self, level, kinds):
        out = []
        for k in kinds:
            if level:
                out.append((self.tok("Space", level, True), self.tok(k, 1), self.tok("Space", 1)))
            else:
                out.append((self.tok(k, 1, True), self.tok("Space", 1), self.any))
        return out

    def documented(self, role, d, own):
        """(windows that are this end mark, windows that may be taken for it)"""
        a = self.any
        if role == "Terminator":
            w = [(self.tok("Terminator"), a, a)]
        elif role == "CollapsibleEnd":
            e = self.tok("CollapsibleEnd", None, True)
            w = [(e, a, a), (self.tok("Eol"), e, a)]
        elif role == "HighlightEnd":
            w = [(self.tok("Bang", 2, True), a, a)]
        else:
            level = next(x for x in d if isinstance(x, int))
            must, may = [], []
            for l in range(level + 2):
                both = self.marker(l, ("Minus", "Plus"))
                may += both
                must += self.marker(l, (own,)) if l == level else both
            return must, may
        return w, w

    def meets(self, w, p):
        return all(x & y for x, y in zip(w, p))

    def inside(self, w, ps):
        """is every text the window allows one of the patterns"""
        bits = lambda m: [1 << i for i in range(m.bit_length()) if m >> i & 1]
        fits = lambda x, y: y == self.any or x and not x & ~y
        for b0 in bits(w[0]):
            cand = [p for p in ps if p[0] & b0]
            if any(fits(w[1], p[1]) and fits(w[2], p[2]) for p in cand):
                continue
            if not w[1] or w[1] & ~self.union(p[1] for p in cand):
                return False
            for b1 in bits(w[1]):
                if not any(p[1] & b1 and fits(w[2], p[2]) for p in cand):
                    return False
        return True

    def union(self, ms):
        m = 0
        for x in ms:
            m |= x
        return m

    def show(self, w):
        out = []
        for x in w:
            out.append("anything" if x == self.any else self.cls.show(x) if x else "the end")
        while out and out[-1] == "anything":
            out.pop()
        return " then ".join(out) or "anything"


def roles(C, E, b, rep):
    """which documented end mark each stop condition is; every deviation is reported"""
    P = Patterns(C.cls)
    T = C.p.types[C.stop_ty]["vs"]
    out = {}
    for i, v in enumerate(T):
        cs = conds(C, E, i)
        ws = [(d, windows(C, E, b, c)) for d, c in cs or ()]
        if not ws or any(w is None for _, w in ws):
            rep.undecided("meaning of stop condition %s" % v["n"], "its fields or its test are not followed")
            continue
        role = None
        if v["f"]:
            d0 = ws[0][0]
            if sum(isinstance(x, int) for x in d0) == 1 and len(d0) == 2:
                role = "ListBoundary"
        else:
            for r in ("Terminator", "CollapsibleEnd", "HighlightEnd"):
                must, may = P.documented(r, (), None)
                if any(x for _, w in ws for x, _ in w) and all(P.inside(m, may) for _, w in ws for x, m in w if x):
                    role = r
            role = role or (v["n"] if v["n"] in MARKS else None)
        if role is None:
            rep.undecided("meaning of stop condition %s" % v["n"], "it is none of the documented end marks")
            continue
        out[i] = role
        own = {}
        if role == "ListBoundary":
            # the marker of a kind: what ends an item of that kind at its own level
            for d, w in ws:
                k = next(x for x in d if not isinstance(x, int))
                l = next(x for x in d if isinstance(x, int))
                if l == 0:
                    own[k] = {n for n in ("Minus", "Plus") if any(x and m[0] & P.tok(n, 1, True) for x, m in w)}
            for k in list(own):
                own[k] = next(iter(own[k])) if len(own[k]) == 1 else None
            if None in own.values() or len(set(own.values())) != 2:
                rep.bad("mark:ListBoundary:kinds", "stop condition %s: an item at level 0 does not end at a marker of its own kind alone: %s" % (v["n"], own),
                        "meaning of stop condition %s" % v["n"])
                continue
            C.kind_marker = own
        for d, w in ws:
            o = "stop condition %s%s is %s" % (v["n"], list(d) if d else "", MARKS[role])
            must, may = P.documented(role, d, own.get(next((x for x in d if not isinstance(x, int)), None)))
            rep.ok(o)
            for x, m in w:
                if x and not P.inside(m, may):
                    rep.bad("mark:%s:extra" % role, "%s: the condition %s%s holds at: %s, which is not %s" % (b.path, v["n"], list(d) if d else "", P.show(m), MARKS[role]), o)
                if not x:
                    for p in must:
                        if P.meets(m, p):
                            q = tuple(y & z for y, z in zip(m, p))
                            rep.bad("mark:%s:missed" % role, "%s: the condition %s%s can fail at: %s, which is %s" % (b.path, v["n"], list(d) if d else "", P.show(q), MARKS[role]), o)
    return out


def asks(C, E, b, rep):
    """a position is a boundary exactly when one of all the conditions in force holds, or the text is over"""
    T = C.p.types
    paths = {x.path: x for x in C.p.bodies.values() if x.local}
    fns = {}
    for x in C.p.bodies.values():
        if x.local and any(bl.term[0] == "call" and bl.term[1].get("inst") == b.key for bl in x.blocks):
            while x.parent and x.parent in paths:
                x = paths[x.parent]
            fns[x.key] = x
    n = 0
    for x in fns.values():
        o = "%s asks every stop condition in force" % x.path
        t = T[x.locals[1]] if x.argc == 1 else {"k": None}
        if T[x.locals[0]]["k"] != "bool" or t["k"] != "ref" or t["t"] not in C.parser_tys:
            rep.undecided(o, "it is not a question about the parser's position alone")
            continue
        bad = None
        for k in (0, 1, 2, 6):
            st, p0 = C.entry_state(E)
            ps = st.mem[("P",)]
            fs = list(ps[3])
            cs = [("Cnd", i) for i in range(k)]
            fs[C.f_eof] = ("vec", tuple(cs))
            st.mem[("P",)] = ("a", ps[1], ps[2], tuple(fs))
            sv = E.stack, E.unroll
            E.stack, E.unroll = [], True
            try:
                for s, v in E.exec_body(x, [("r", ("P",), ())], st, 100):
                    for s2, r in E.truth(s, v):
                        if s2.taint:
                            bad = bad or "?"
                            continue
                        n += 1
                        over = s2.le(("i", NSYM, 0), p0)
                        held = [C.bfget(s2, c, p0) for c in cs]
                        if r and not over and 1 not in held:
                            bad = "%s can take a position for a boundary though none of %d stop conditions in force holds there" % (x.path, k)
                        if not r and (over or any(h != 0 for h in held)):
                            bad = "%s can pass over a position %s" % (x.path, "after the last token" if over else
                                                                      "without asking all of the %d stop conditions in force" % k)
            except Exception as e:
                bad = bad or "?"
            finally:
                E.stack, E.unroll = sv
        if bad == "?":
            rep.undecided(o, "not followed")
        elif bad:
            rep.bad("asks:%s" % x.path.split("::")[-1], bad, o)
        else:
            rep.ok(o)
    rep.cov["outcomes_of_boundary_questions"] = n


# end marks that must be in force while a child is read inside a parent
FORCE = {("Document", "Heading"): {"Terminator"}, ("Document", "Paragraph"): {"Terminator"}, ("Document", "Images"): {"Terminator"},
         ("Document", "OrderedList"): {"Terminator"}, ("Document", "UnorderedList"): {"Terminator"},
         ("Collapsible", "Document"): {"CollapsibleEnd"}, ("Highlight", "Paragraph"): {"Terminator", "HighlightEnd"},
         ("ListItem", "Paragraph"): {"ListBoundary"}}
# delimiters of a construct that an end mark of the same spelling around it does not end
OWN = {"Collapsible": ("Eol", "Space", "CollapsibleEnd"), "Embed": ("Eol", "Space"), "Highlight": ("Eol", "Space", "Bang"), "Icon": ("Eol", "Space"), "Image": ("Eol", "Space"),
       "Images": ("Eol", "Space"), "Heading": ("Space",), "ListItem": ("Eol", "Space", "Minus", "Plus"), "OrderedList": ("Eol", "Space", "Minus", "Plus"),
       "UnorderedList": ("Eol", "Space", "Minus", "Plus"), "Metadata": ("Eol",)}
ENDS = ("Paragraph", "Heading", "Images", "Document", "ListItem", "OrderedList", "UnorderedList", "Image", "Code", "Embed")


def decide(S, rep):
    R = S.parser()
    C, E = R.C, R.E
    cls = C.cls
    b = C.matcher()
    if b is None:
        rep.undecided("stop conditions", "no single function tells whether a stop condition holds")
        return
    for fn, t in sorted(C.tainted.items()):
        rep.undecided("exits of " + fn, "; ".join(sorted(t)[:3]))
    P = Patterns(cls)
    role = roles(C, E, b, rep)
    asks(C, E, b, rep)
    T = C.p.types[C.stop_ty]["vs"]
    full = lambda m: m | m << cls.half
    # what is in force where
    seen = set()
    for (par, child, me, fn), ps in sorted(C.force.items(), key=repr):
        o = "%s inside %s (%s calls %s)" % (child, par, me, fn)
        if me in C.tainted or fn in C.tainted:
            rep.undecided(o, "imprecise summaries")
            continue
        rep.ok(o)
        seen.add((par, child))
        for push, base in ps:
            if not base and "Code" != par:
                rep.bad("force:%s:%s:around" % (par, child), "%s reads a %s inside a %s with the end marks of the constructs around it switched off" % (me, child, par), o)
            have = {role.get(i) for i in push}
            for r in sorted(FORCE.get((par, child), set()) - have):
                if r not in role.values():
                    rep.undecided(o, "no stop condition is known to be %s" % MARKS[r])
                elif any(C.sites.get((x, me)) and r in {role.get(i) for i in C.sites[x, me]} for x, y in C.sites if y == me):
                    rep.undecided(o, "%s is put in force by a caller of %s" % (MARKS[r], me))
                else:
                    rep.bad("force:%s:%s:%s" % (par, child, r), "%s reads a %s inside a %s without stopping at %s" % (me, child, par, MARKS[r]), o)
    for k in FORCE:
        if k not in seen:
            rep.undecided("%s inside %s" % (k[1], k[0]), "no call reads it while the parent is open")
    # the list item's own level and kind
    for (me, i, d), ws in sorted(C.pushed.items(), key=repr):
        level = next((x for x in d if isinstance(x, int)), None)
        kind = next((x for x in d if isinstance(x, str)), None)
        if role.get(i) != "ListBoundary" or level is None or kind not in getattr(C, "kind_marker", {}):
            continue
        o = "%s: the item's text ends at markers for level %d, %s" % (me, level, C.kind_marker[kind])
        if me in C.tainted:
            rep.undecided(o, "imprecise summary")
            continue
        rep.ok(o)
        p = P.marker(level, (C.kind_marker[kind],))[0]
        for w in ws:
            if any(x & ~y for x, y in zip(w, p)):
                if level and w[0] == w[1] == P.any:
                    rep.undecided(o, "the item's marker is not known")
                else:
                    rep.bad("item:%s" % me.split("::")[-1], "%s stops the text of an item marked %s at the markers that end an item of level %d marked %s" %
                            (me, P.show(w), level, C.kind_marker[kind]), o)
    # and the same at levels that are not followed one by one
    for (me, i, j), rels in sorted(C.pushrel.items()):
        if role.get(i) != "ListBoundary" or me in C.tainted:
            continue
        base = {r[1] for r in rels if r[0] == "by" and r[2]}
        if len(base) != 1:
            continue
        k = base.pop()
        o = "%s: the level at which an item's text ends is that of the item, however deep" % me
        rep.ok(o)
        for r in sorted(rels):
            if r[0] == "by" and r[1] != k or r[0] == "same" and k:
                rep.bad("level:%s" % me.split("::")[-1], "%s can end the text of an item %+d levels off the item's own level" % (me, r[1] - k if r[0] == "by" else -k), o)
            elif r[0] == "fixed":
                rep.bad("level:%s" % me.split("::")[-1], "%s ends the text of an item of any level at the markers for level %d or less" % (me, r[1]), o)
            elif r[0] == "?":
                rep.undecided(o, "the level is not followed")
    # nothing reads across an end mark
    poss = C.possible & cls.bound
    for (fn, nodes), (m, span) in sorted(C.crossed.items(), key=lambda x: (x[0][0], sorted(x[0][1]))):
        o = "%s (%s) stays inside what is around it" % (fn, ", ".join(sorted(nodes)) or "nothing")
        if fn in C.tainted:
            rep.undecided(o, "imprecise summary")
            continue
        if "Code" in nodes or not nodes:
            continue
        if m & C.unseen:
            rep.undecided(o, "tokens passed in a way the analysis does not follow")
            continue
        own = 0
        for n in nodes:
            for k in OWN.get(n, ()):
                own |= cls.name(k)
        rep.ok(o)
        bad = m & poss & ~own
        if bad:
            rep.bad("crossed:%s" % "+".join(sorted(nodes)), "%s reads past the end of a construct around it: %s at which a stop condition holds is taken into the %s (%s)" %
                    (fn, cls.show(bad), "/".join(sorted(nodes)), span), o)
    # and text goes on to the next end mark
    for (node, fn), (m, span) in sorted(C.ends.items()):
        if node not in ENDS:
            continue
        o = "%s ends at a boundary (%s)" % (node, fn)
        if fn in C.tainted:
            rep.undecided(o, "imprecise summary")
            continue
        rep.ok(o)
        ok = cls.bound
        if node != "Document":
            ok |= cls.name("Terminator")
        if node in ("ListItem", "OrderedList", "UnorderedList"):
            ok |= full(P.tok("Space", None, True) | P.tok("Minus", 1, True) | P.tok("Plus", 1, True))
        if m & ~ok:
            rep.bad("end:%s" % node, "%s can end a %s before %s, which ends nothing that is open (%s)" % (fn, node, cls.show(m & ~ok), span), o)
    rep.cov["stop_conditions"] = {T[i]["n"]: MARKS[r] for i, r in role.items()}
    rep.cov["calls_under_stop_conditions"] = len(C.force)
    rep.cov["functions_checked_for_reading_past"] = len(C.crossed)
