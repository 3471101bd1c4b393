"""Recursion: every cycle of the call graph must go one level deeper into the text's or the tree's nesting."""


def sccs(g):
    """strongly connected components with a cycle, of {node: set(node)}"""
    idx, low, st, on, out = {}, {}, [], set(), []
    n = [0]
    for root in sorted(g):
        if root in idx:
            continue
        work = [(root, iter(sorted(g[root])))]
        idx[root] = low[root] = n[0]
        n[0] += 1
        st.append(root)
        on.add(root)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in g:
                    continue
                if w not in idx:
                    idx[w] = low[w] = n[0]
                    n[0] += 1
                    st.append(w)
                    on.add(w)
                    work.append((w, iter(sorted(g[w]))))
                    break
                if w in on:
                    low[v] = min(low[v], idx[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    c = set()
                    while True:
                        w = st.pop()
                        on.discard(w)
                        c.add(w)
                        if w == v:
                            break
                    if len(c) > 1 or v in g[v]:
                        out.append(c)
    return out


def fn_consts(x):
    if isinstance(x, dict):
        yield x
        for v in x.values():
            yield from fn_consts(v)
    elif isinstance(x, (list, tuple)):
        for v in x:
            yield from fn_consts(v)


class Graph:
    def __init__(self, prog):
        self.prog = prog
        self.disp = {}
        for im in prog.impls:
            for m, k in im["ms"]:
                if m == "fmt":
                    self.disp.setdefault((im["self"], im["trait"].split("::")[-1]), []).append(k)
        self.raw = {k: self._calls(b) for k, b in prog.bodies.items()}
        self.local = {k for k, b in prog.bodies.items() if b.local}
        self.edges = {k: self._contract(k) for k in self.local}
        self.local_types = {i for i, t in enumerate(prog.types) if t and t.get("local") and t["k"] in ("struct", "enum")}
        self.fmt_types = {i for i, t in enumerate(prog.types) if t and ("core::fmt::Formatter" in t["s"] or "core::fmt::Arguments" in t["s"])}

    def base(self, i):
        t = self.prog.types[i]
        while t and t["k"] in ("ref", "ptr"):
            i = t["t"]
            t = self.prog.types[i]
        return i

    def targets(self, t):
        """bodies a call enters or hands on"""
        f, args = t[1], t[2]
        out = set()
        if f.get("inst"):
            out.add(f["inst"])
        q = f.get("rp") or f.get("p") or ""
        if "rt::Argument" in q:
            tr = {"new_display": "Display", "new_debug": "Debug"}.get(q.split("::")[-1])
            for a in f.get("args", ()):
                out.update(self.disp.get((self.base(a), tr), ()))
        for c in fn_consts(f.get("dyn", ())):
            if c.get("inst"):
                out.add(c["inst"])
        for a in f.get("args", ()):
            ty = self.prog.types[a]
            if ty and ty["k"] in ("closure", "fndef") and ty.get("inst"):
                out.add(ty["inst"])
        for c in fn_consts(args):
            ty = self.prog.types[c["ty"]] if isinstance(c.get("ty"), int) else None
            if ty and ty["k"] in ("fndef", "closure") and ty.get("inst"):
                out.add(ty["inst"])
            if c.get("c") == "fn" and c.get("inst"):
                out.add(c["inst"])
        return out

    def _calls(self, b):
        out = set()
        for bl in b.blocks:
            if bl.term[0] == "call":
                out |= self.targets(bl.term)
            for s in bl.stmts:
                if s[0] == "=":
                    if s[2][0] == "agg" and s[2][1] == "closure":
                        ty = self.prog.types[s[2][2]]
                        if ty and ty.get("inst"):
                            out.add(ty["inst"])
                    for c in fn_consts(s[2]):
                        ty = self.prog.types[c["ty"]] if isinstance(c.get("ty"), int) else None
                        if ty and ty["k"] == "fndef" and ty.get("inst"):
                            out.add(ty["inst"])
                        if c.get("c") == "fn" and c.get("inst"):
                            out.add(c["inst"])
        return out

    def through(self, k):
        """local bodies entered by entering k"""
        seen, todo, out = set(), [k], set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x in self.local:
                out.add(x)
            elif x in self.raw:
                todo.extend(self.raw[x])
        return out

    def _contract(self, k):
        out = set()
        for x in self.raw[k]:
            out |= self.through(x)
        return out


def arcs(G, key):
    """for each call of a function: the local function entered, and for each of its parameters the one parameter of the
    caller it derives from, with whether a field of one of the crate's types (a level deeper) was taken on the way.
    Captures of a closure are parameters of their own: ("c", k)."""
    prog = G.prog
    b = prog.bodies[key]
    LOCAL = G.local_types
    none = frozenset()
    tn = [none] * len(b.locals)
    env = None
    for i in range(1, b.argc + 1):
        tn[i] = frozenset([(i, False)])
    if b.parent:
        env = 1
        tn[1] = none

    def placetaint(p):
        l, pr = p
        v = tn[l]
        t = b.locals[l]
        cap = l == env
        for e in pr:
            ty = prog.types[t] if t is not None else None
            if e[0] == "d":
                t = ty.get("t") if ty else None
            elif e[0] == "f":
                if cap and ty and ty["k"] == "closure":
                    v = frozenset([(("c", e[1]), False)])
                    cap = False
                elif t in LOCAL:
                    v = frozenset((i, True) for i, _ in v)
                t = e[2]
            elif e[0] == "v":
                pass
            elif e[0] in ("i", "ci"):
                t = ty.get("t") if ty else None
            else:
                t = None
        return v

    def optaint(o):
        return placetaint(o[1]) if o[0] in ("cp", "mv") else none

    def rvtaint(r):
        k = r[0]
        if k in ("use", "repeat"):
            return optaint(r[1])
        if k == "cast":
            return optaint(r[2])
        if k in ("ref", "raw"):
            return placetaint(r[1])
        if k == "agg":
            v = none
            for o in r[4]:
                v |= optaint(o)
            return v
        return none            # numbers, comparisons, discriminants
    clos = {}
    for bl in b.blocks:
        for s in bl.stmts:
            if s[0] == "=" and s[2][0] == "agg" and s[2][1] == "closure" and not s[1][1]:
                clos[s[1][0]] = s[2]
    num = lambda l: (prog.types[b.locals[l]] or {}).get("k") in ("bool", "char", "int", "uint", "never")
    changed = True
    while changed:
        changed = False
        for bl in b.blocks:
            for s in bl.stmts:
                if s[0] == "=" and not num(s[1][0]):
                    v = rvtaint(s[2]) | tn[s[1][0]]
                    if v != tn[s[1][0]]:
                        tn[s[1][0]] = v
                        changed = True
            if bl.term[0] == "call":
                d = bl.term[3][0]
                v = tn[d]
                for a in bl.term[2]:
                    if a[0] in ("cp", "mv") and a[1][0] in clos:
                        continue
                    v |= optaint(a)
                if v != tn[d] and not num(d):
                    tn[d] = v
                    changed = True

    def single(v):
        ps = {i for i, _ in v}
        if len(ps) != 1:
            return None
        return (next(iter(ps)), all(d for _, d in v))
    skip = G.fmt_types
    out = []
    for bl in b.blocks:
        if bl.term[0] != "call":
            continue
        f, args = bl.term[1], bl.term[2]
        direct = f.get("inst") if f.get("inst") in G.local else None
        cl = [(a[1][0], clos[a[1][0]]) for a in args if a[0] in ("cp", "mv") and a[1][0] in clos]
        joint = none
        for a in args:
            if a[0] in ("cp", "mv") and a[1][0] not in clos and not num(a[1][0]) and b.locals[a[1][0]] not in skip:
                joint |= optaint(a)
        for l, r in cl:
            ty = prog.types[r[2]]
            if not ty or not ty.get("inst"):
                continue
            ar = {}
            for k, o in enumerate(r[4]):
                x = single(optaint(o))
                if x:
                    ar[("c", k)] = x
            x = single(joint)
            cb = prog.bodies.get(ty["inst"])
            if x and cb is not None:
                for j in range(2, cb.argc + 1):
                    ar[j] = x
            for k in G.through(ty["inst"]):
                out.append((k, ar if k == ty["inst"] else {}, bl.span))
        for x0 in G.targets(bl.term):
            ty0 = [1 for l, r in cl if (prog.types[r[2]] or {}).get("inst") == x0]
            if ty0:
                continue
            for k in G.through(x0):
                cb = prog.bodies[k]
                ar = {}
                if k == direct:
                    for j, a in enumerate(args):
                        x = single(optaint(a))
                        if x and not (a[0] in ("cp", "mv") and num(a[1][0])):
                            ar[j + 1] = x
                    if cb.parent and cb.argc and args and args[0][0] in ("cp", "mv"):
                        # a closure called by name: its captures are those it was made with
                        src = clos.get(args[0][1][0])
                        for k2, o in enumerate(src[4] if src else ()):
                            x = single(optaint(o))
                            if x:
                                ar[("c", k2)] = x
                else:
                    x = single(joint)
                    if x:
                        for j in range(1, cb.argc + 1):
                            if not num_ty(prog, cb.locals[j]) and cb.locals[j] not in skip:
                                ar[j] = x
                out.append((k, ar, bl.span))
    # closures called through a reference kept in a local of their own
    for l, r in clos.items():
        ty = prog.types[r[2]]
        if ty and ty.get("inst"):
            inst = ty["inst"]
            if not any(k == inst for k, _, _ in out):
                ar = {}
                for k2, o in enumerate(r[4]):
                    x = single(optaint(o))
                    if x:
                        ar[("c", k2)] = x
                out.append((inst, ar, ""))
    return out


def num_ty(prog, i):
    return (prog.types[i] or {}).get("k") in ("bool", "char", "int", "uint", "never")


def size_change(calls):
    """calls: [(f, g, {param of g: (param of f, deeper)}, where)]; the functions that can call themselves, along some chain of
    calls, with no parameter that is a deeper part of what it was (size-change principle)"""
    def norm(ar):
        return frozenset((i, j, d) for j, (i, d) in ar.items())
    gs = {(f, g, norm(ar)) for f, g, ar, _ in calls}
    todo = list(gs)
    byf = {}
    for x in gs:
        byf.setdefault(x[0], set()).add(x)
    base = list(gs)
    while todo:
        f, g, a = todo.pop()
        for (_, h, c) in [x for x in base if x[0] == g]:
            r = {}
            for i, j, d in a:
                for i2, k, d2 in c:
                    if i2 == j:
                        r[(i, k)] = r.get((i, k), False) or d or d2
            x = (f, h, frozenset((i, k, d) for (i, k), d in r.items()))
            if x not in gs:
                gs.add(x)
                todo.append(x)
                if len(gs) > 20000:
                    return None
    bad = set()
    for f, g, a in gs:
        if f != g:
            continue
        comp = {}
        for i, j, d in a:
            for i2, k, d2 in a:
                if i2 == j:
                    comp[(i, k)] = comp.get((i, k), False) or d or d2
        if frozenset((i, k, d) for (i, k), d in comp.items()) != a:
            continue            # only idempotent graphs decide
        if not any(i == j and d for i, j, d in a):
            bad.add(f)
    return bad


def check(S, rep):
    prog = S.prog
    G = Graph(prog)
    R = S.parser()
    C = R.C
    summ = {k[0] for k in C.summ}
    derived = {k for im in prog.impls if im.get("derived") for _, k in im["ms"]}
    comps = sccs(G.edges)
    rep.cov["functions_in_call_graph"] = len(G.local)
    rep.cov["recursive_components"] = [sorted(prog.bodies[k].path for k in c) for c in comps]
    rec = set()
    for c in comps:
        rec |= c
    for k in sorted(G.local - rec):
        rep.ok("not recursive: " + k)
    for c in comps:
        if c & summ:
            continue
        if c <= derived:
            for k in sorted(c):
                rep.ok("derived, follows the value's own structure: " + k)
            continue
        calls = []
        for k in sorted(c):
            calls += [(k, x, ar, sp) for x, ar, sp in arcs(G, k) if x in c]
        bad = size_change(calls)
        if bad is None:
            rep.undecided("recursion of " + min(c), "too many call chains")
            continue
        for f, g, ar, _ in calls:
            rep.ok("call %s -> %s" % (f, g))
        for k in sorted(c - bad):
            rep.ok("recursive through parts only: " + k)
        if bad:
            k = min(bad)
            names = sorted(prog.bodies[x].path for x in bad)
            sp = next((sp for f, g, ar, sp in calls if f == k and sp), "")
            rep.bad("recursion:" + "->".join(n.split("::")[-1] for n in names),
                    "%s calls itself%s without going into a part of what it was given (%s): its depth follows the amount of data, not its nesting" % (
                        names[0], " by way of " + ", ".join(names[1:]) if len(names) > 1 else "", sp), "recursion of " + k)
    # the parsing functions: between a call and a nested call of the same function a node must have been opened
    g = {}
    for (a, b), op in C.opened.items():
        if not op:
            g.setdefault(a, set()).add(b)
            g.setdefault(b, set())
        rep.ok("parser call %s -> %s" % (a, b))
    for z in sccs(g):
        names = sorted(z)
        o = "parser recursion of " + names[0]
        if any(x in C.tainted for x in z):
            rep.undecided(o, "imprecise summaries")
        else:
            rep.bad("recursion:" + "->".join(n.split("::")[-1] for n in names),
                    "%s can be re-entered with no construct opened in between (%s): the depth of the calls follows the length of the text, not its nesting" % (
                        names[0], " -> ".join(names + names[:1])), o)
    return comps
