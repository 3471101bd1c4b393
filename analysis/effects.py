"""What the code may depend on besides its arguments: shared state, the outside world, hash seeds, addresses, the build profile."""
import re

WORLD = [
    (r"\bstd::(time|fs|net|process|os|sys|random|backtrace)\b", "reaches outside the program"),
    (r"\bstd::env\b", "reads the environment"),
    (r"\bstd::io\b", "reads or writes a stream"),
    (r"\bstd::hash::random\b", "uses a hasher seeded at random"),
    (r"\bcore::fmt::rt::Argument::<[^>]*>::new_pointer\b", "prints an address"),
    (r"::(expose_provenance|addr)$", "looks at an address"),
    (r"\bcore::(core_)?arch\b", "executes a machine instruction of its own"),
    (r"\bstd::thread::(functions::)?(current|park|park_timeout|sleep|yield_now|available_parallelism)", "depends on the running thread"),
]
HASH_ITER = {"iter", "iter_mut", "keys", "values", "values_mut", "into_keys", "into_values", "into_iter", "drain", "extract_if",
             "union", "intersection", "difference", "symmetric_difference"}
ORDERED = re.compile(r"::(sort\w*|count|len|any|all|sum|product|max\w*|min\w*|is_empty|contains\w*)$|BTree(Map|Set)|BinaryHeap")
CELLS = re.compile(r"\bcore::cell::|\bstd::sync::|\bcore::sync::|\balloc::sync::.*Weak|\bstd::thread::local\b")
CELL_TYPES = re.compile(r"\b(Cell|RefCell|UnsafeCell|OnceCell|LazyCell|OnceLock|LazyLock|Mutex|RwLock|ReentrantLock|Atomic\w*)\b(<|$|::)|\bcore::sync::atomic::Atomic")


def consts(x):
    """every constant of an operand, rvalue or terminator"""
    if isinstance(x, dict):
        yield x
        for v in x.values():
            yield from consts(v)
    elif isinstance(x, (list, tuple)):
        for v in x:
            yield from consts(v)


def uses(b, local):
    """whether a local is read in a body"""
    def hit(x):
        if isinstance(x, (list, tuple)):
            if len(x) == 2 and x[0] in ("cp", "mv") and isinstance(x[1], (list, tuple)) and x[1] and x[1][0] == local:
                return True
            if len(x) >= 2 and x[0] in ("ref", "raw", "discr", "len") and isinstance(x[1], (list, tuple)) and x[1] and x[1][0] == local:
                return True
            return any(hit(y) for y in x)
        return False
    for bl in b.blocks:
        for s in bl.stmts:
            if s[0] == "=" and hit(s[2]):
                return True
        t = bl.term
        if t[0] == "call" and hit(t[2]) or t[0] in ("switch", "assert") and hit(t[1:]):
            return True
    return local == 0


def external(t):
    q = t.get("rp") or t.get("p") or ""
    return q


def statics_of(prog):
    return {s["p"]: s for s in prog.raw["statics"]}


def kind_of_static(prog, s):
    ts = prog.types[s["ty"]]["s"]
    if s["mut"]:
        return "static mut"
    if s["tls"]:
        return "thread local"
    if re.match(r"(std::sync::lazy_lock::LazyLock|core::cell::lazy::LazyCell)<", ts):
        inner = ts[ts.index("<") + 1:]
        return None if not CELL_TYPES.search(inner.split(", fn()")[0]) else "lazy mutable"
    if re.match(r"(std::sync::once_lock::OnceLock|core::cell::once::OnceCell)<", ts):
        return "once"
    if s["freeze"]:
        return None
    if re.search(r"\bAtomic\w*", ts) and not re.search(r"Mutex|RwLock|Cell", ts):
        return "atomic"
    return "mutable"


def scan(prog, rep):
    st = statics_of(prog)
    for p, s in sorted(st.items()):
        rep.ok("static %s (%s)" % (p, s["sp"]))
    n = 0
    for b in sorted((b for b in prog.bodies.values() if b.local), key=lambda b: b.key):
        n += 1
        fn = b.path
        ob = "effects of " + b.key
        found = []
        callees = [external(bl.term[1]) for bl in b.blocks if bl.term[0] == "call"]
        for bl in b.blocks:
            items = [s[2] for s in bl.stmts if s[0] == "="] + [bl.term[1:]]
            for it in items:
                for c in consts(it):
                    if c.get("c") == "static" and c.get("def") in st:
                        s = st[c["def"]]
                        k = kind_of_static(prog, s)
                        if k is None:
                            continue
                        if k == "once" and once_ok(prog, b):
                            continue
                        if k == "atomic" and write_only(b):
                            continue
                        found.append(("state:" + s["p"], "%s: uses %s (%s, %s), which outlives the call and is written by other calls" % (fn, s["p"], k, s["sp"]), bl.span))
                if isinstance(it, tuple) and it and it[0] == "tls":
                    found.append(("state:" + it[1], "%s: uses the thread-local %s, which outlives the call" % (fn, it[1]), bl.span))
                if isinstance(it, tuple) and it and it[0] == "cast" and ("ExposeProvenance" in it[1]):
                    found.append(("address:" + fn, "%s: turns a reference into a number" % fn, bl.span))
            t = bl.term
            if t[0] != "call":
                continue
            q = external(t[1])
            if not q and "dyn" in t[1]:
                continue
            if q.startswith("yamd::"):
                continue
            key = t[1].get("inst") or ""
            if "std::thread::local::LocalKey" in q:
                if not ("::{constant" in fn):
                    found.append(("state:thread-local", "%s: uses thread-local state, which outlives the call" % fn, bl.span))
                continue
            if re.search(r"\bhash::(map|set)::|\bhash_(map|set)::|Hash(Map|Set)<", q) or re.search(r"std::collections::hash::(map|set)::Hash(Map|Set)<.* as core::iter::traits::collect::IntoIterator", key):
                m = q.split("::")[-1]
                if m in HASH_ITER:
                    if any(ORDERED.search(c) for c in callees):
                        rep.undecided(ob, "a hash table is walked, perhaps in a way its order does not matter for (%s)" % bl.span)
                    else:
                        found.append(("hash-order:" + fn, "%s: walks a hash table, whose order differs from run to run" % fn, bl.span))
                elif m in ("retain", "fmt"):
                    rep.undecided(ob, "a hash table is walked by %s (%s)" % (m, bl.span))
                continue
            for r, what in WORLD:
                if re.search(r, q):
                    found.append(("world:" + fn, "%s: calls %s, which %s" % (fn, q, what), bl.span))
                    break
            else:
                if not re.search(r"\b(core|alloc)::", q) and not re.search(r"\bstd::(collections|sync|thread::local|panicking::begin_panic|ascii|error|ffi|path|string|num)\b", q):
                    if not re.match(r"^<.* as yamd::", q) and "yamd::" not in q:
                        rep.undecided(ob, "a call the rule does not know: %s (%s)" % (q, bl.span))
        seen = set()
        for k, what, sp in found:
            if k not in seen:
                seen.add(k)
                rep.bad("%s:%s" % (k, fn.split("::")[-1]), "%s (%s)" % (what, sp), ob)
        if not found:
            rep.ok(ob)
    for sp in prog.raw["unsafe_blocks"]:
        rep.undecided("unsafe block at %s" % sp, "the rule relies on the guarantees of safe code")
    rep.cov["functions_scanned"] = n
    rep.cov["statics"] = len(st)
    return n


def once_ok(prog, b):
    """a OnceLock filled by a closure without captures holds the same value whatever call fills it"""
    for bl in b.blocks:
        if bl.term[0] == "call":
            q = external(bl.term[1])
            if re.search(r"Once(Lock|Cell)", q) and q.split("::")[-1] in ("set", "take", "get_or_init", "get_or_try_init", "get_mut", "try_insert"):
                if q.split("::")[-1] != "get_or_init":
                    return False
                for a in bl.term[1].get("args", ()):
                    ty = prog.types[a]
                    if ty and ty["k"] == "closure" and ty.get("up"):
                        return False
    return True


def write_only(b):
    for bl in b.blocks:
        if bl.term[0] == "call" and "core::sync::atomic" in external(bl.term[1]):
            m = external(bl.term[1]).split("::")[-1]
            if m == "store":
                continue
            if uses(b, bl.term[3][0]):
                return False
    return True


def plain(prog, rep, roots):
    """the types a caller holds contain no interior mutability"""
    seen = set()
    todo = list(roots)
    while todo:
        i, way = todo.pop()
        if i in seen:
            continue
        seen.add(i)
        t = prog.types[i]
        if not t:
            continue
        if CELL_TYPES.search(t["s"].split("<")[0] + "<") and not t.get("local"):
            rep.bad("cell:" + way, "%s holds a %s: reading it (printing it, comparing it) can change it" % (way, t["s"]), "plain data: " + way)
            continue
        if t["k"] == "ptr":
            rep.undecided("plain data: " + way, "holds a raw pointer")
        for a in t.get("args", ()):
            todo.append((a, way))
        for f in ("t",):
            if f in t:
                todo.append((t[f], way))
        for a in t.get("fs", ()) if t["k"] == "tuple" else ():
            todo.append((a, way))
        if t.get("local"):
            for v in t.get("vs", ()):
                for name, ft in v["f"]:
                    todo.append((ft, "%s.%s" % (t["p"].split("::")[-1], name)))
            rep.ok("plain data: " + t["p"])


# ------------------------------------------------------------------ build profiles
def live_calls(prog, b):
    """calls on paths from entry to return, constant branches decided"""
    succ = {}
    defs = {}
    for bl in b.blocks:
        for s in bl.stmts:
            if s[0] == "=":
                defs.setdefault(s[1][0], []).append(s[2] if not s[1][1] else None)
        if bl.term[0] == "call":
            defs.setdefault(bl.term[3][0], []).append(None)

    def val(o, n=0):
        if o[0] == "k":
            return o[1]["v"] if o[1].get("c") == "int" else None
        if o[0] not in ("cp", "mv") or o[1][1] or n > 6:
            return None
        d = defs.get(o[1][0], ())
        if len(d) != 1 or d[0] is None:
            return None
        r = d[0]
        if r[0] == "use":
            return val(r[1], n + 1)
        if r[0] == "un" and r[1] == "Not":
            v = val(r[2], n + 1)
            ty = prog.types[b.locals[o[1][0]]]
            return 1 - v if v is not None and ty and ty["k"] == "bool" else None
        return None
    for i, bl in enumerate(b.blocks):
        t = bl.term
        if t[0] == "switch":
            v = val(t[1])
            if v is not None:
                succ[i] = [next((tb for tv, tb in t[2] if tv == v), t[3])]
                continue
        succ[i] = prog._succ(t)
    fwd, todo = set(), [0]
    while todo:
        x = todo.pop()
        if x in fwd:
            continue
        fwd.add(x)
        todo += succ[x]
    back = {i for i in fwd if b.blocks[i].term[0] == "ret" or b.blocks[i].term[0] == "call" and b.blocks[i].term[4] == "ret"}
    while True:
        more = {i for i in fwd if i not in back and any(s in back for s in succ[i])}
        if not more:
            break
        back |= more
    out = {}
    for i in back:
        t = b.blocks[i].term
        if t[0] == "call":
            q = t[1].get("inst") or t[1].get("p") or "?"
            if "panic" in q:
                continue
            out.setdefault(q, []).append((b.blocks[i].span, t))
    stores = {}
    for i in back:
        for s in b.blocks[i].stmts:
            if s[0] == "=" and any(p[0] == "d" for p in s[1][1] if isinstance(p, tuple)):
                stores.setdefault("store", []).append((s[3], s))
    out.update(stores)
    return out


def same_in_release(dbg, rel, rep):
    rb = {b.key: b for b in rel.bodies.values() if b.local}
    n = 0
    for b in sorted((b for b in dbg.bodies.values() if b.local), key=lambda b: b.key):
        o = "build profile: " + b.key
        r = rb.pop(b.key, None)
        if r is None:
            rep.undecided(o, "the function exists in one build profile only")
            continue
        n += 1
        d, e = live_calls(dbg, b), live_calls(rel, r)
        bad = None
        for q in sorted(set(d) | set(e)):
            x, y = d.get(q, ()), e.get(q, ())
            if len(y) > len(x):
                bad = (q, y[0][0], "only without debug assertions")
                break
            if len(x) > len(y) and (q == "store" or any(takes_mut(dbg, b, t) for _, t in x)):
                sp = [s for s, _ in x if s not in {u for u, _ in y}] or [x[0][0]]
                bad = (q, sp[0], "only with debug assertions")
                break
        if bad:
            rep.bad("profile:" + b.path.split("::")[-1], "%s: %s (%s) happens %s" % (b.path, bad[0], bad[1], bad[2]), o)
        else:
            rep.ok(o)
    rep.cov["functions_compared_across_profiles"] = n


def takes_mut(prog, b, t):
    """whether a call is given something to write that lives longer than the expression it stands in"""
    named = {p[0] for _, p in b.names}
    for a in t[2]:
        if a[0] in ("cp", "mv"):
            ty = prog.types[b.locals[a[1][0]]]
            if ty and ty["k"] == "ref" and ty.get("mut") and not a[1][1]:
                src = [s[2] for bl in b.blocks for s in bl.stmts if s[0] == "=" and s[1] == (a[1][0], ())]
                if src and all(r[0] == "ref" and not r[1][1] and r[1][0] not in named and r[1][0] > b.argc for r in src):
                    continue
                return True
    return False
