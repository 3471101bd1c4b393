"""Rules about constructors, conversions, comparisons and entry points.

Every function in question is executed on arbitrary arguments; what it returns is a term over them.
The term is compared with the documented one: equal as terms (under the facts of the row) is
discharged, different on some concrete arguments is a violation, anything else is undecided."""
import itertools
import build, ceval, fold
import terms
from ceval import Unknown
from engine import K, UNIT, Undecided
from show import EMPTY
from terms import FACTS

# type -> {field: argument position of `new`}; a pair (position, stage) is what the documentation says is removed
NEW = {
    "Anchor": {"text": 0, "url": 1}, "Bold": {"body": 0}, "Code": {"lang": 0, "code": (1, "trim_end_matches")}, "CodeSpan": {"0": 0},
    "Collapsible": {"title": 0, "body": 1}, "Embed": {"kind": 0, "args": 1}, "Emphasis": {"0": 0}, "Heading": {"level": 0, "body": 1},
    "Highlight": {"title": 0, "icon": 1, "body": 2}, "Image": {"alt": 0, "src": 1}, "Images": {"body": 0}, "Italic": {"0": 0},
    "List": {"list_type": 0, "level": 1, "body": 2}, "ListItem": {"text": 0, "nested_list": 1}, "Paragraph": {"body": 0},
    "Strikethrough": {"0": 0}, "ThematicBreak": {}, "Yamd": {"metadata": (0, "trim_matches"), "body": 1},
    "Token": {"kind": 0, "range": 1, "position": 2, "escaped": None},
}
TEXTS = ("", "a", "b", " ", "\t", "a\nb", "Ab c", "`|*[{\\_~-+#!>()]}", "\n", "a\n", "\na", "\n\nb\n\n", " a ", "\r\n", "a\r\n", "\ufeffa", "a\x00", "\u00a0a\u00a0", "a ", "\ta", "\x7fa\x7f",
         "\u00e9\U0001f914", "%}", "---\nx\n---")
NUMS = (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 31, 32, 63, 64, 99, 100, 127, 128, 254, 255, 256, 999, 1000, 65535, 65536)
LIMIT = 60000


# ------------------------------------------------------------------ concrete values
class Dom:
    def __init__(self, prog, extra=(), nums=()):
        self.T = prog.types
        self.extra = tuple(extra)
        self.nums = tuple(dict.fromkeys(k for n in nums for k in (n - 1, n, n + 1)))
        self.memo = {}

    def values(self, ty, depth=3):
        k = (ty, depth)
        if k not in self.memo:
            self.memo[k] = ()
            self.memo[k] = tuple(self._values(ty, depth))
        return self.memo[k]

    def name(self, ty, k=None):
        n = self.T[ty]["p"].rsplit("::", 1)[-1]
        return n if k is None else n + "::" + self.T[ty]["vs"][k]["n"]

    def _values(self, ty, depth):
        t = self.T[ty]
        p = t.get("p") or ""
        if t["k"] == "ref":
            return self.values(t["t"], depth)
        if t["k"] == "str" or p == "alloc::string::String":
            return (TEXTS + self.extra) if depth == 3 else ("", "a", " b\n") + self.extra[:6]
        if t["k"] == "uint":
            w = {"u8": 255, "u16": 65535}.get(t.get("s"), 1 << 70)
            return [n for n in dict.fromkeys((NUMS if depth == 3 else (0, 1, 7)) + self.nums) if n <= w]
        if t["k"] == "int":
            return NUMS[:20]
        if t["k"] == "bool":
            return (0, 1)
        if t["k"] == "char":
            return ("a", "\n")
        if p == "alloc::boxed::Box":
            return self.values(t["args"][0], depth)
        if p == "alloc::vec::Vec" or t["k"] == "slice":
            el = t["args"][0] if p == "alloc::vec::Vec" else t["t"]
            if depth <= 0:
                return (("vec",),)
            xs = self.values(el, depth - 1)[:6]
            out = [("vec",)] + [("vec", x) for x in xs] + [("vec", x, y) for x in xs[:3] for y in xs[:3]]
            if xs:
                out += [("vec", xs[0], xs[-1], xs[0]), ("vec",) + (xs[-1],) * 20, ("vec",) + (xs[0],) * 1200]
            return out
        if p.endswith("ops::range::Range"):
            return [("con", "Range", a, b) for a, b in ((0, 0), (0, 1), (1, 2), (0, 3), (2, 2), (5, 3), (2, 3))]
        if t["k"] in ("struct", "enum") and "vs" in t:
            if depth <= 0 and t["k"] == "struct" and any(f for f in t["vs"][0]["f"]):
                pass
            out = []
            for k, v in enumerate(t["vs"]):
                ds = [self.values(f[1], depth - 1) for f in v["f"]]
                if any(not d for d in ds):
                    continue
                nm = self.name(ty, k) if t["k"] == "enum" else self.name(ty)
                if depth >= 3 and (p == "core::option::Option" or len(ds) == 1):
                    ds = [self.values(f[1], depth) for f in v["f"]]
                if depth >= 2:
                    base = tuple(d[0] for d in ds)
                    out.append(("con", nm) + base)
                    # one field varied at a time: comparisons of two such values see every single difference
                    for i, d in enumerate(ds):
                        for x in d[1:]:
                            out.append(("con", nm) + base[:i] + (x,) + base[i + 1:])
                            if len(out) > 200:
                                break
                    alt = tuple(d[-1] for d in ds)
                    out.append(("con", nm) + alt)
                else:
                    out.append(("con", nm) + tuple(d[0] for d in ds))
                    if len(ds):
                        out.append(("con", nm) + tuple(d[-1] for d in ds))
            return list(dict.fromkeys(out))
        return ()


def plain(t):
    """constructor heads reduced to their names"""
    if isinstance(t, tuple):
        if t and t[0] == "con":
            return ("con", t[1] if isinstance(t[1], str) else t[1][2]) + tuple(plain(x) for x in t[2:])
        return tuple(plain(x) for x in t)
    return t


def under(t, facts):
    """t with the options (and enums) the facts name taken apart"""
    m = {}
    for f in facts:
        if f[0] == "disc" and f[2] in ("None", "Some"):
            m[plain(f[1])] = ("con", "Option::" + f[2]) + ((("fld", plain(f[1]), "Some", 0),) if f[2] == "Some" else ())

    def go(x, top=True):
        if x in m:
            return m[x]
        if isinstance(x, tuple) and x and x[0] != "fld":
            return tuple(go(y) if isinstance(y, tuple) else y for y in x)
        return x
    return go(plain(t))


def fuse(t, dom):
    """a struct rebuilt from all the fields of one value is that value"""
    if not isinstance(t, tuple):
        return t
    t = tuple(fuse(x, dom) for x in t)
    if len(t) == 3 and t[0] == "con" and t[1] == "Option::Some" and isinstance(t[2], tuple) and t[2][:1] == ("fld",) and t[2][2:] == ("Some", 0):
        return t[2][1]
    return t


def literals(t, out):
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] == "lit" and isinstance(t[1], str):
            for s in (t[1], t[1] + "a", "a" + t[1], t[1] + "a" + t[1]):
                out.add(s)
        elif len(t) == 2 and t[0] == "int" and isinstance(t[1], int):
            pass
        else:
            for x in t:
                literals(x, out)
    return out


def words(v):
    s = show(v)
    return s if len(s) < 120 else s[:117] + "..."


def show(v):
    if isinstance(v, str):
        return repr(v)
    if isinstance(v, tuple) and v and v[0] == "con":
        return v[1] + ("(%s)" % ", ".join(show(x) for x in v[2:]) if len(v) > 2 else "")
    if isinstance(v, tuple) and v and v[0] == "vec":
        return "[%s]" % ", ".join(show(x) for x in v[1:8]) + (" (%d items)" % (len(v) - 1) if len(v) > 8 else "")
    return str(v)


class Panic(Unknown):
    pass


def evp(f, *a):
    """a value, or that there is none because it panics"""
    try:
        return f(*a)
    except Panic:
        return ("panic",)


def ev(t, env):
    k = t[0]
    if t in env:
        return env[t]
    if k == "slice":
        s, r = ev(t[1], env), ev(t[2], env)
        if not isinstance(s, str) or not isinstance(r, tuple):
            raise Unknown("slice")
        b = s.encode()
        if not r[2] <= r[3] <= len(b):
            raise Panic("a slice that does not exist")
        try:
            return b[r[2]:r[3]].decode()
        except UnicodeDecodeError:
            raise Panic("a slice inside a character")
    if k == "emptyrange":
        r = ev(t[1], env)
        return not r[2] < r[3]
    if k == "con":
        return ("con", t[1] if isinstance(t[1], str) else t[1][2]) + tuple(ev(x, env) for x in t[2:])
    if k == "snoc":
        return ceval.vec(ev(t[1], env)) + (ev(t[2], env),)
    if k == "ext":
        return ceval.vec(ev(t[1], env)) + ceval.vec(ev(t[2], env))[1:]
    if k == "fld":
        v = ev(t[1], env)
        if not (isinstance(v, tuple) and v[:1] == ("con",)) or (t[2] and v[1].split("::")[-1] != t[2]) or len(v) <= 2 + t[3]:
            raise Unknown("field")
        return v[2 + t[3]]
    if k in ("taken", "skipped"):
        n = ev(t[2], env)
        x = ceval.vec(ev(t[1], env))[1:]
        return ("vec",) + (x[:n] if k == "taken" else x[n:])
    if k in ("any", "all"):
        v = []
        for x in (ev(t[1][1], env) if t[1][0] == "chars" else ceval.vec(ev(t[1], env))[1:]):
            e = dict(env)
            e[("el", t[1])] = x
            hit = [r for r in t[2] if all(holds(f, e) for f in order(r[0]))]
            if len(hit) != 1:
                raise Unknown("cases of a condition")
            b = hit[0][1]
            v.append(bool(b) if isinstance(b, int) else bool(ev(b, e)))
        return any(v) if k == "any" else all(v)
    if k in ("chars", "str"):
        return ev(t[1], env)
    if k == "cls":
        from teval import cls
        return cls(t[2], ev(t[1], env))
    if k == "vmap":
        out = []
        for i, x in enumerate(ceval.vec(ev(t[1], env))[1:]):
            e = dict(env)
            e[("el", t[1])], e[("ix", t[1])] = x, i
            hit = [r for r in t[2] if all(holds(f, e) for f in order(r[0]))]
            if len(hit) != 1:
                raise Unknown("%d cases for an item" % len(hit))
            out += [ev(y, e) for y in hit[0][1]]
        return ("vec",) + tuple(out)
    if k == "eq":
        a, b = ev(t[1], env), ev(t[2], env)
        if isinstance(a, str) and isinstance(b, int) and len(a) == 1:
            a = ord(a)
        return a == b
    if k in ("min", "max"):
        return (min if k == "min" else max)(ev(t[1], env), ev(t[2], env))
    if k in ("lt", "le", "add", "sub", "mul", "rem", "div"):
        a, b = ev(t[1], env), ev(t[2], env)
        a, b = (ord(x) if isinstance(x, str) and len(x) == 1 else x for x in (a, b))
        if not (isinstance(a, int) and isinstance(b, int)):
            raise Unknown("numbers")
        if k in ("rem", "div"):
            if b == 0:
                raise Panic("division by zero")
            return a % b if k == "rem" else a // b
        return {"lt": a < b, "le": a <= b, "add": a + b, "sub": a - b, "mul": a * b}[k]
    if k in ("len", "empty", "last", "at", "longer"):
        env = dict(env)
        u = []
        for i, x in enumerate(t[1:]):
            if isinstance(x, tuple):
                env[("sub", i)] = ev(x, env)
                u.append(("sub", i))
            else:
                u.append(x)
        return ceval.ev((k,) + tuple(u), env)
    if k in ("cat", "trim", "trim_start", "trim_end", "lower", "to_lowercase", "to_uppercase", "replace", "strip_prefix", "strip_suffix", "starts_with", "ends_with", "contains",
             "trim_matches", "trim_start_matches", "trim_end_matches"):
        # the text operations see their first argument as a value
        env = dict(env)
        u = [k]
        for i, x in enumerate(t[1:]):
            if isinstance(x, tuple) and x[0] not in ("lam", "anyof", "class", "lit"):
                env[("sub", i)] = ev(x, env)
                u.append(("sub", i))
            else:
                u.append(x)
        return ceval.ev(tuple(u), env)
    return ceval.ev(t, env)


def holds(f, env):
    if f[0] == "is":
        return bool(ev(f[1], env)) == bool(f[2])
    if f[0] in ("disc", "ndisc"):
        v = ev(f[1], env)
        if not (isinstance(v, tuple) and v[:1] == ("con",)):
            raise Unknown("variant")
        return (v[1].split("::")[-1] == f[2]) == (f[0] == "disc")
    raise Unknown("fact")


def same(a, b):
    return ceval.norm(a) == ceval.norm(b) or (isinstance(a, (bool, int)) and isinstance(b, (bool, int)) and int(a) == int(b))


def order(facts):
    """facts about the shape of a value before the facts about its parts"""
    return sorted(facts, key=lambda f: (0 if f[0] == "disc" else 1, len(repr(f))))


def envs(rows, dom, tys):
    doms = [dom.values(t) for t in tys]
    if any(not d for d in doms):
        raise Unknown("an argument has no sample values")
    n = 1
    for d in doms:
        n *= len(d)
    if n <= LIMIT:
        for vs in itertools.product(*doms):
            yield vs
        return
    base = [d[min(1, len(d) - 1)] for d in doms]
    for i, d in enumerate(doms):
        for x in d:
            yield tuple(base[:i] + [x] + base[i + 1:])
    for i, j in itertools.combinations(range(len(doms)), 2):
        for x in doms[i][:60]:
            for y in doms[j][:60]:
                v = list(base)
                v[i], v[j] = x, y
                yield tuple(v)


def numbers(t, out):
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] == "int" and isinstance(t[1], int):
            out.add(t[1])
        else:
            for x in t:
                numbers(x, out)
    return out


def judge(rep, o, where, rows, want, prog, tys, what, exact=None):
    """want: a term, or fn(env) -> value with exact(facts, term) -> the row is right on all arguments"""
    dom0 = Dom(prog)
    lits, nums = set(), set()
    for f, t, taint in rows:
        literals((f, t), lits)
        numbers((f, t), nums)
    dom = Dom(prog, sorted(x for x in lits if x not in TEXTS)[:12], sorted(x for x in nums if 1 < x < 1 << 32)[:6])
    if not rows:
        rep.undecided(o, "it never returns")
        return
    todo = []
    for f, t, taint in rows:
        if taint:
            rep.undecided(o, "; ".join(sorted(taint))[:200])
            return
        if exact is not None and exact(f, t):
            continue
        if isinstance(want, tuple) and fuse(under(t, f), dom0) == fuse(under(want, f), dom0):
            continue
        todo.append((f, t))
    if not todo:
        rep.ok(o)
        return
    why = None
    for vs in envs(todo, dom, tys):
        env = {("arg", i): v for i, v in enumerate(vs)}
        for f, t in todo:
            try:
                if not all(holds(x, env) for x in order(f)):
                    continue
                a = evp(ev, t, env)
                b = evp(ev, want, env) if isinstance(want, tuple) else evp(want, env)
            except Unknown as e:
                why = why or str(e)
                continue
            except (TypeError, IndexError, ValueError, AttributeError) as e:
                why = why or repr(e)
                continue
            if ("panic",) in (a, b):
                continue
            if not same(a, b):
                rep.bad("build:%s" % where, "%s: %s: with %s it is %s, not %s" % (
                    where, what, ", ".join("argument %d = %s" % (i + 1, words(v)) for i, v in enumerate(vs)) or "no arguments", words(a), words(b)), o)
                return
    rep.undecided(o, "built in a form the rule does not know, but no value tells it apart" + (" (%s)" % why if why else ""))


# ------------------------------------------------------------------ which functions
def short(prog, ty):
    return (prog.types[ty].get("p") or "").rsplit("::", 1)[-1]


def node_types(prog):
    """the types a caller holds: everything reachable from the document and the event, and tokens"""
    T = prog.types
    todo = [i for i, t in enumerate(T) if t and t.get("local") and (t.get("p") or "").rsplit("::", 1)[-1] in ("Yamd", "Op", "Token", "TokenKind")]
    seen = set()
    while todo:
        i = todo.pop()
        if i in seen:
            continue
        seen.add(i)
        t = T[i]
        for v in t.get("vs") or ():
            todo += [f[1] for f in v["f"]]
        todo += [a for a in t.get("args") or () if isinstance(a, int)]
        if t["k"] in ("ref", "slice"):
            todo.append(t["t"])
    return {i for i in seen if T[i].get("local")}


def run(prog, b, rep, o, **kw):
    try:
        return build.execute(prog, b, **kw)
    except Exception as e:
        rep.undecided(o, "%s: %s" % (type(e).__name__, str(e)[:160]))
        return None


def zero(prog, ty):
    t = prog.types[ty]
    p = t.get("p") or ""
    if p == "alloc::string::String" or t["k"] == "str":
        return ""
    if p == "alloc::vec::Vec":
        return ("vec",)
    if p == "core::option::Option":
        return ("con", "Option::None")
    if t["k"] in ("uint", "int", "bool"):
        return 0
    if t["k"] == "struct":
        fs = [zero(prog, f[1]) for f in t["vs"][0]["f"]]
        return None if None in fs else ("con", short(prog, ty)) + tuple(fs)
    return None


def constructors(prog, rep):
    T = prog.types
    got = set()
    for b in sorted(prog.bodies.values(), key=lambda b: str(b.key)):
        if not b.local or b.parent:
            continue
        name = b.path.rsplit("::", 1)[-1]
        r = b.locals[0]
        n = short(prog, r)
        if name == "new" and n in NEW and T[r].get("local") and b.path.rsplit("::", 2)[-2].split("<")[0] in (n, ""):
            fs = [f[0] for f in T[r]["vs"][0]["f"]]
            o = "new %s" % n
            if set(fs) != set(NEW[n]):
                rep.undecided(o, "its fields are %s" % ", ".join(fs))
                got.add(n)
                continue
            want = ["con", n]
            for f in fs:
                s = NEW[n][f]
                if s is None:
                    want.append(("int", 0))
                elif isinstance(s, tuple):
                    if T[b.locals[s[0] + 1]].get("p") == "core::option::Option":
                        want.append(("opt", s))
                    else:
                        want.append((s[1], ("arg", s[0]), ("lit", "\n")))
                else:
                    want.append(("arg", s))
            x = run(prog, b, rep, o)
            got.add(n)
            if x is None:
                continue
            tys = [b.locals[i + 1] for i in range(b.argc)]
            opt = [i for i, w in enumerate(want) if isinstance(w, tuple) and w[0] == "opt"]
            rows = x[2]
            if opt:
                i = opt[0]
                j, stage = want[i][1]
                for v in ("None", "Some"):
                    w = list(want)
                    w[i] = ("con", "Option::None") if v == "None" else ("con", "Option::Some", (stage, ("fld", ("arg", j), "Some", 0), ("lit", "\n")))
                    part = [r for r in rows if not any(f[0] == "disc" and f[1] == ("arg", j) and f[2] != v for f in r[0])]
                    judge(rep, o + " (%s)" % v, b.path, [(r[0] + (("disc", ("arg", j), v),), r[1], r[2]) for r in part], tuple(w), prog, tys,
                          "the value is not made of what it is given")
            else:
                judge(rep, o, b.path, rows, tuple(want), prog, tys, "the value is not made of what it is given")
    rep.require(len(got) >= 17, "constructors", "fewer than 17 constructors (%s)" % ", ".join(sorted(got)))


def op_constructors(prog, rep):
    n = 0
    for b in sorted(prog.bodies.values(), key=lambda b: str(b.key)):
        name = b.path.rsplit("::", 1)[-1]
        if not b.local or b.parent or name not in ("new_start", "new_end", "new_value") or short(prog, b.locals[0]) != "Op":
            continue
        n += 1
        o = "%s" % b.key
        x = run(prog, b, rep, o)
        if x is None:
            continue
        last = b.argc - 1
        if short(prog, b.locals[b.argc]) == "Content":
            kind = {"new_start": ("con", "OpKind::Start", ("arg", 0)), "new_end": ("con", "OpKind::End", ("arg", 0)), "new_value": ("con", "OpKind::Value")}[name]
            fs = [f[0] for f in prog.types[b.locals[0]]["vs"][0]["f"]]
            if set(fs) != {"kind", "content"}:
                rep.undecided(o, "its fields are %s" % ", ".join(fs))
                continue
            want = ("con", "Op") + tuple({"kind": kind, "content": ("arg", last)}[f] for f in fs)
            judge(rep, o, b.path, x[2], want, prog, [b.locals[i + 1] for i in range(b.argc)], "the event is not made of what it is given")
    rep.require(n >= 1, "events", "no constructor of events")


def conversions(prog, rep):
    T = prog.types
    own = node_types(prog)
    n = 0
    for im in prog.impls:
        if not im["trait"].endswith("convert::From") or im["self"] not in own or short(prog, im["self"]) in ("Content",):
            continue
        ms = dict(im["ms"])
        b = prog.bodies.get(ms.get("from"))
        if b is None or not im["targs"][1:]:
            continue
        src, dst = im["targs"][1], im["self"]
        o = "%s from %s" % (short(prog, dst), T[src].get("s", "?").replace("yamd::nodes::", ""))
        t = T[dst]
        if t["k"] == "enum":
            fit = [k for k, v in enumerate(t["vs"]) if len(v["f"]) == 1 and v["f"][0][1] == src]
            if len(fit) != 1:
                rep.undecided(o, "no single variant holds such a value")
                continue
            arg = ("con", short(prog, src)) if T[src]["k"] == "struct" and T[src].get("local") and not T[src]["vs"][0]["f"] else ("arg", 0)
            want = ("con", short(prog, dst) + "::" + t["vs"][fit[0]]["n"], arg)
        else:
            f = t["vs"][0]["f"]
            if len(f) != 1 or f[0][1] != src:
                rep.undecided(o, "it has other fields than the one it is made from")
                continue
            want = ("con", short(prog, dst), ("arg", 0))
        n += 1
        x = run(prog, b, rep, o)
        if x:
            judge(rep, o, b.path, x[2], want, prog, [src], "the conversion does not keep what it is given")
    rep.require(n >= 20, "conversions", "fewer than 20 conversions between nodes")


def defaults(prog, rep):
    own = node_types(prog)
    n = 0
    for im in prog.impls:
        if not im["trait"].endswith("default::Default") or im["self"] not in own:
            continue
        n += 1
        o = "default %s" % short(prog, im["self"])
        if im["derived"]:
            rep.ok(o)
            continue
        z = zero(prog, im["self"])
        b = prog.bodies.get(dict(im["ms"]).get("default"))
        if z is None or b is None:
            rep.undecided(o, "a default the rule does not know")
            continue
        x = run(prog, b, rep, o)
        if x:
            judge(rep, o, b.path, x[2], lambda env: z, prog, [], "the default is not empty", lambda f, t: same(ev(t, {}), z))
    rep.require(n >= 1, "defaults", "no default value")


def comparisons(prog, rep):
    T = prog.types
    own = node_types(prog)
    n = 0
    for im in prog.impls:
        tr = im["trait"].rsplit("::", 1)[-1]
        if im["self"] not in own or im["trait"] not in ("core::cmp::PartialEq", "core::clone::Clone", "core::cmp::Eq"):
            continue
        if im["trait"] == "core::cmp::PartialEq" and im["targs"][1:] and im["targs"][1] != im["self"]:
            continue
        n += 1
        o = "%s of %s" % ({"PartialEq": "equality", "Eq": "equality is total", "Clone": "copy"}[tr], short(prog, im["self"]))
        if im["derived"] or tr == "Eq":
            rep.ok(o)
            continue
        for m, key in im["ms"]:
            b = prog.bodies.get(key)
            if b is None:
                rep.undecided(o, "no body for %s" % m)
                continue
            x = run(prog, b, rep, o, eqs=True)
            if x is None:
                continue
            s = im["self"]
            if m in ("eq", "ne"):
                neg = m == "ne"

                def exact(f, t, neg=neg, t0=T[s]):
                    if t[0] != "int" or t0["k"] not in ("struct", "enum"):
                        return False
                    vs = [v for v in t0["vs"] if t0["k"] == "struct" or all(("disc", ("arg", i), v["n"]) in f for i in (0, 1))]
                    eqs = {y[1][1:] for y in f if y[0] == "is" and y[2] == 1 and y[1][0] == "eq"}
                    nes = {y[1][1:] for y in f if y[0] == "is" and y[2] == 0 and y[1][0] == "eq"}
                    if bool(t[1]) != neg:
                        return len(vs) == 1 and all(any(p in eqs for p in pair(vs[0] if t0["k"] == "enum" else {"n": ""}, i)) for i in range(len(vs[0]["f"])))
                    if not vs:
                        return True
                    return len(vs) == 1 and any(p in nes for i in range(len(vs[0]["f"])) for p in pair(vs[0] if t0["k"] == "enum" else {"n": ""}, i))

                def pair(v, i):
                    a, b = ("fld", ("arg", 0), v["n"], i), ("fld", ("arg", 1), v["n"], i)
                    return (a, b), (b, a)
                judge(rep, o, b.path, x[2], lambda env, neg=neg: int((env[("arg", 0)] == env[("arg", 1)]) != neg), prog, [s, s],
                      "two values are compared by something else than their parts", exact)
            elif m == "clone":
                judge(rep, o, b.path, x[2], ("arg", 0), prog, [s], "a copy is not equal to the original")
            else:
                rep.undecided(o, "a method the rule does not know: %s" % m)
    rep.require(n >= 30, "comparisons", "fewer than 30 comparisons and copies")


def contents(prog, rep):
    T = prog.types
    n = 0
    A = ("arg", 0)
    for b in sorted(prog.bodies.values(), key=lambda b: str(b.key)):
        if not b.local or b.parent or not b.argc:
            continue
        name = b.path.rsplit("::", 1)[-1]
        s = T[b.locals[1]]
        selfc = s["k"] == "ref" and short(prog, s["t"]) == "Content"
        vs = T[s["t"]]["vs"] if selfc else None
        if selfc and {v["n"] for v in vs} != {"Span", "Materialized"}:
            rep.undecided(b.path, "other kinds of content")
            continue
        tys = [b.locals[i + 1] for i in range(b.argc)]
        r = T[b.locals[0]]
        if selfc and b.argc == 2 and (r["k"] == "ref" or r.get("p") == "alloc::string::String") and name in ("as_str", "to_string"):
            n += 1
            x = run(prog, b, rep, b.path)
            if x:
                def want(env):
                    c = env[A]
                    if c[1].endswith("Materialized"):
                        return c[2]
                    if not c[2][2] < c[2][3]:
                        return ""
                    return ev(("slice", ("arg", 1), ("fld", A, "Span", 0)), env)
                def exact(f, t):
                    if ("disc", A, "Materialized") in f:
                        return t == ("fld", A, "Materialized", 0)
                    e = ("emptyrange", ("fld", A, "Span", 0))
                    if ("disc", A, "Span") not in f:
                        return False
                    return t == (EMPTY if ("is", e, 1) in f else ("slice", ("arg", 1), e[1]))
                judge(rep, b.path, b.path, x[2], want, prog, tys, "the text is not the content's own", exact)
        elif selfc and b.argc == 1 and r["k"] == "bool" and name == "is_empty":
            n += 1
            x = run(prog, b, rep, b.path)
            if x:
                def want(env):
                    c = env[A]
                    return int(c[2] == "") if c[1].endswith("Materialized") else int(not c[2][2] < c[2][3])
                def exact(f, t):
                    for v, c in (("Materialized", "empty"), ("Span", "emptyrange")):
                        q = (c, ("fld", A, v, 0))
                        if ("disc", A, v) in f:
                            return t == q or any(t == ("int", k) and ("is", q, k) in f for k in (0, 1))
                    return False
                judge(rep, b.path, b.path, x[2], want, prog, tys, "whether the content is empty is misjudged", exact)
        elif short(prog, b.locals[0]) == "Content" and name == "from" and b.argc == 1:
            t = s
            while t["k"] == "ref":
                t = T[t["t"]]
            el = t.get("t") if t["k"] in ("slice", "array") else (t.get("args") or [None])[0] if t.get("p") == "alloc::vec::Vec" else None
            if el is None or short(prog, el) != "Token":
                continue
            n += 1
            x = run(prog, b, rep, b.key)
            if not x:
                continue
            fs = [f[0] for f in T[el]["vs"][0]["f"]]
            ri = fs.index("range") if "range" in fs else None
            ok = ri is not None
            if any(taint for _, _, taint in x[2]):
                rep.undecided(b.key, "; ".join(sorted({y for r in x[2] for y in r[2]}))[:160])
                continue
            for f, t, taint in x[2]:
                e = ("is", ("empty", A), 1) in f
                w0 = ("con", "Content::Span", ("con", "Range", ("int", 0), ("int", 0)))
                first = ("fld", ("at", A, 0), "", ri)
                w1 = ("con", "Content::Span", ("con", "Range", ("fld", first, "", 0), ("fld", ("fld", ("last", A), "", ri), "", 1)))
                if plain(t) != (w0 if e else w1):
                    ok = False
                    break
            if ok:
                rep.ok(b.key)
            elif ok is False:
                bad = False
                tok = lambda i, j: ("con", "Token") + tuple(("con", "Range", i, j) if f == "range" else 0 for f in fs)
                for toks in ((), (tok(2, 5),), (tok(2, 5), tok(5, 6)), (tok(0, 1), tok(1, 4), tok(4, 9))):
                    env = {A: ("vec",) + toks}
                    w = ("con", "Content::Span", ("con", "Range", toks[0][2 + ri][2], toks[-1][2 + ri][3]) if toks else ("con", "Range", 0, 0))
                    for f, t, taint in x[2]:
                        try:
                            if all(holds(y, env) for y in f) and not same(ev(t, env), w):
                                rep.bad("build:" + b.path, "%s: the span is not the one from the first token to the last: for tokens at %s it is %s" % (
                                    b.path, [(y[2 + ri][2], y[2 + ri][3]) for y in toks], words(ev(t, env))), b.key)
                                bad = True
                        except (Unknown, TypeError, IndexError):
                            continue
                if not bad:
                    rep.undecided(b.key, "built in a form the rule does not know, but no value tells it apart")
    rep.require(n >= 4, "contents", "fewer than 4 functions of event contents")


# ------------------------------------------------------------------ entry points
def strs(prog, ty):
    t = prog.types[ty]
    return t["k"] == "ref" and prog.types[t["t"]]["k"] == "str"


def differs(t):
    """a text the term does not leave as it is"""
    lits = set()
    literals(t, lits)
    for s in list(TEXTS) + sorted(lits) + [a + b for a in ("\ufeff", "\x00", " ", "\n", "\u2028") for b in ("a", "a\nb")] + [b + a for a in ("\ufeff", "\x00", " ", "\n") for b in ("a",)]:
        try:
            if ev(t, {("arg", 0): s}) != s:
                return s
        except (Unknown, TypeError, ValueError):
            continue
    return None


def satisfies(facts, s):
    try:
        return all(holds(f, {("arg", 0): s}) for f in facts)
    except Exception:
        return None


def mentions(t, x):
    return t == x or isinstance(t, tuple) and any(mentions(y, x) for y in t)


def text_is(rep, key, o, where, t, facts, A, what):
    """t must be the caller's text itself"""
    if t == A:
        rep.ok(o)
        return
    if mentions(t, ("?",)):
        rep.undecided(o, "a text the terms do not describe")
        return
    sub = {A: ("arg", 0)}

    def go(x):
        return sub.get(x) or (tuple(go(y) for y in x) if isinstance(x, tuple) else x)
    s = None
    for c in list(TEXTS) + sorted(literals((t, facts), set())):
        try:
            if satisfies([go(f) for f in facts], c) and ev(go(t), {("arg", 0): c}) != c:
                s = c
                break
        except (Unknown, TypeError, ValueError):
            continue
    if s is None:
        rep.undecided(o, "a text in a form the rule does not know, but none tells it apart")
    else:
        rep.bad(key, "%s: %s: of %r only %r is used" % (where, what, s, ev(go(t), {("arg", 0): s})), o)


def token_loss(prog, tok, t, A):
    """a plausible token sequence that does not reach the parser as it is"""
    fs = [f[0] for f in prog.types[tok]["vs"][0]["f"]]
    if set(fs) != {"kind", "range", "position", "escaped"}:
        return None
    pos = [f[0] for f in prog.types[prog.types[tok]["vs"][0]["f"][fs.index("position")][1]]["vs"][0]["f"]]

    def token(kind, at, row, col, esc=0):
        d = {"kind": ("con", "TokenKind::" + kind), "range": ("con", "Range", at, at + 1), "escaped": esc,
             "position": ("con", "Position") + tuple({"byte_index": at, "column": col, "row": row}.get(x, 0) for x in pos)}
        return ("con", "Token") + tuple(d[x] for x in fs)
    big = [n for n in numbers(t, set()) if 0 < n < 1 << 22] + [3]
    for n in sorted(big)[:4] + [max(big)]:
        one = [token(("Literal", "Space")[i % 2], i, 0, i) for i in range(n + 2)]
        two = [token(("Literal", "Eol")[i % 2], i, i // 2, i % 2) for i in range(min(n, 5000) + 2)]
        esc = [token("Literal", 1, 0, 1, 1), token("Eol", 2, 0, 2)]
        allk = [token(k["n"], i, 0, i) for i, k in enumerate(prog.types[prog.types[tok]["vs"][0]["f"][fs.index("kind")][1]]["vs"]) if k["n"] != "Terminator"]
        for what, xs in (("words and spaces", one), ("words and line ends", two), ("an escaped character and a line end", esc), ("one of each kind", allk)):
            try:
                v = ev(t, {("tokens", A): ("vec",) + tuple(xs)})
            except (Unknown, TypeError, IndexError, RecursionError, AttributeError):
                continue
            if v != ("vec",) + tuple(xs):
                return len(xs), what, "%d arrive" % (len(v) - 1) if len(v) - 1 != len(xs) else "some arrive changed"
    return None


def event_loss(prog, op, t, facts, last):
    """events as the parser records them that do not come back as they are"""
    src = ("events", last)
    if not mentions(t, src):
        return None
    fs = [f[0] for f in prog.types[op]["vs"][0]["f"]]
    if set(fs) != {"kind", "content"}:
        return None
    kt = prog.types[op]["vs"][0]["f"][fs.index("kind")][1]
    nodes = prog.types[prog.types[kt]["vs"][0]["f"][0][1]]["vs"]

    def mk(kind, content):
        return ("con", "Op") + tuple({"kind": kind, "content": content}[x] for x in fs)

    def span(a, b):
        return ("con", "Content::Span", ("con", "Range", a, b))
    value = ("con", "OpKind::Value")
    runs = []
    for n in nodes:
        s, e = ("con", "OpKind::Start", ("con", "Node::" + n["n"])), ("con", "OpKind::End", ("con", "Node::" + n["n"]))
        for a, b in ((span(0, 0), span(0, 0)), (span(0, 2), span(5, 7)), (span(0, 1), span(0, 0)), (span(0, 0), span(3, 4))):
            runs.append((mk(s, a), mk(value, span(2, 5)), mk(e, b)))
        runs.append((mk(s, span(0, 0)), mk(value, ("con", "Content::Materialized", "a*b")), mk(e, span(0, 0))))
        runs.append((mk(s, span(0, 0)), mk(e, span(0, 0))))
    runs += [(mk(("con", "OpKind::Start", ("con", "Node::Paragraph")), span(0, 0)), mk(value, span(4, 5)), mk(("con", "OpKind::End", ("con", "Node::Paragraph")), span(0, 0)))]
    for n in sorted(x for x in numbers((t, facts), set()) if 3 < x < 1 << 21)[:3]:
        runs.append((runs[0] * (n // 3 + 2)))
    for r in runs:
        env = {src: ("vec",) + r, ("arg", 0): "some text"}
        try:
            if all(holds(f, env) for f in order(facts)):
                v = ev(t, env)
                if v != ("vec",) + r:
                    return len(r), "(%s ...) %s" % (words(r[0]), "%d are left" % (len(v) - 1) if len(v) - 1 != len(r) else "some are changed")
        except (Unknown, TypeError, IndexError, AttributeError):
            continue
    return None


def parse_entry(prog, rep, label="entry"):
    """parse hands the lexer and the parser the text itself, and returns the parser's events as they are"""
    T = prog.types
    o = "%s: parse reads its whole text" % label
    lexer_ty = next((i for i, t in enumerate(T) if t and t.get("local") and (t.get("p") or "").endswith("lexer::Lexer")), None)
    pars = {i for i, t in enumerate(T) if t and t.get("local") and t["k"] == "struct" and (t.get("p") or "").rsplit("::", 1)[-1] == "Parser"}
    op = next((i for i, t in enumerate(T) if t and t.get("local") and (t.get("p") or "").endswith("::Op")), None)
    tok = next((i for i, t in enumerate(T) if t and t.get("local") and (t.get("p") or "").endswith("::Token")), None)
    entry = [b for b in prog.bodies.values() if b.local and not b.parent and b.argc == 1 and b.path.endswith("::parse") and strs(prog, b.locals[1]) and
             T[b.locals[0]].get("p") == "alloc::vec::Vec" and T[b.locals[0]]["args"][0] == op]
    if lexer_ty is None or not pars or op is None or tok is None or len(entry) != 1:
        rep.undecided(o, "no single entry point parse(&str) -> Vec<Op> over a Lexer and a Parser")
        return None
    body = entry[0]
    seen = []
    hooks = {}

    def reads(b):
        return any(T[b.locals[i + 1]]["k"] == "ref" and T[b.locals[i + 1]].get("mut") and T[b.locals[i + 1]]["t"] in pars for i in range(b.argc))

    def lex(C, E, st, args, b):
        t = C.reify(E, st, args[0])
        return [(st, ("o", lexer_ty, ("lexer", t)))]

    def step(C, E, st, args, b):
        n = st.const(st.mem.get(("nsteps",), K(0))) or 0
        st.mem[("nsteps",)] = K(n + 1)
        for a in args:
            if a[0] == "r":
                v = E.load(st, a[1], a[2])
                if v[0] == "a" and v[1] in pars:
                    fs = T[v[1]]["vs"][0]["f"]
                    seen.append((b.path, n, C.facts(st), frozenset(st.taint), {f[0]: (f[1], C.reify(E, st.copy(), x)) for f, x in zip(fs, v[3])}))
                    new = []
                    for f, x in zip(fs, v[3]):
                        if T[f[1]].get("p") == "alloc::vec::Vec" and T[f[1]]["args"][0] == op:
                            x = ("V", op, ("events", n))
                        elif T[f[1]]["k"] == "uint":
                            x = ("o", f[1], ("cursor", n))
                        new.append(x)
                    E.store(st, a[1], a[2], ("a", v[1], v[2], tuple(new)))
                elif v[0] == "o" and v[1] in pars:
                    E.taint(st, "the parser's own state is not known")
        r = T[b.locals[0]]
        return [(st, UNIT if r["k"] == "tuple" and not r["fs"] else C.mk(E, st, b.locals[0], ("parsed", n)))]
    for b in prog.bodies.values():
        if not b.local or b.parent or b is body:
            continue
        if b.path.endswith("Lexer::new") or (b.argc == 1 and b.locals[0] == lexer_ty and strs(prog, b.locals[1])) or \
                (T[b.locals[0]].get("p", "").endswith("lexer::Lexer") and b.argc == 1 and strs(prog, b.locals[1])):
            hooks[b.key] = lex
        elif reads(b):
            hooks[b.key] = step

    def setup(E, C):
        old = {}

        def m_collect(E, st, d, args, ctx):
            v = args[0]
            if v[0] == "o" and v[2][0] == "lexer":
                return [(st, ("V", tok, ("tokens", v[2][1])))]
            f = old["collect"]
            return f(E, st, d, args, ctx) if f else None
        k = "core::iter::traits::iterator::Iterator::collect"
        old["collect"] = E.models.get(k)
        E.models[k] = m_collect
        gen = C.gen_of

        def gen_of(E, st, v):
            if v[0] == "o" and v[2][0] == "lexer":
                return ("gen", ("tokens", v[2][1]), tok, 0, 0, None)
            return gen(E, st, v)
        C.gen_of = gen_of
    x = run(prog, body, rep, o, hooks=hooks, setup=setup)
    if x is None:
        return body
    if not seen:
        rep.undecided(o, "no function of the parser is called")
        return body
    A = ("arg", 0)
    where = body.path
    for path, n, facts, taint, fs in seen:
        if n:
            continue
        if taint:
            rep.undecided(o, "; ".join(sorted(taint))[:200])
            continue
        for f, (ty, t) in fs.items():
            if strs(prog, ty):
                text_is(rep, "entry:source", "%s: the parser's source is the text (%s)" % (label, f), where, t, facts, A, "the parser does not keep the text it is called with as its source")
            elif T[ty].get("p") == "alloc::vec::Vec" and T[ty]["args"][0] == tok:
                o2 = "%s: the parser's tokens are all the text's (%s)" % (label, f)
                if t[0] == "tokens":
                    text_is(rep, "entry:tokens", o2, where, t[1], facts, A, "the lexer does not read the text parse is called with")
                elif t == ("ext", ("nil",), ("tokens", A)) or t == ("each", ("tokens", A)):
                    rep.ok(o2)
                elif t == ("nil",):
                    # a path on which the text is not read at all
                    hit = [s for s in ("a", "b") if satisfies(facts, s)]
                    if hit:
                        rep.bad("entry:tokens", "%s: the lexer is not asked about %r" % (where, hit[0]), o2)
                    else:
                        rep.undecided(o2, "the parser starts without tokens")
                else:
                    lose = token_loss(prog, tok, t, A)
                    if lose:
                        rep.bad("entry:tokens", "%s: the parser is not given all the text's tokens: of %d tokens (%s) %s" % ((where,) + lose), o2)
                    else:
                        rep.undecided(o2, "tokens in a form the rule does not know: %s" % words(plain(t)))
            elif T[ty]["k"] == "uint":
                o2 = "%s: parsing starts at the first token (%s)" % (label, f)
                if t == ("int", 0):
                    rep.ok(o2)
                elif t[0] == "int":
                    rep.bad("entry:start", "%s: parsing starts at token %d" % (where, t[1]), o2)
                else:
                    rep.undecided(o2, "the first token is %s" % words(t))
            elif T[ty].get("p") == "alloc::vec::Vec":
                o2 = "%s: nothing is recorded or in force at the start (%s)" % (label, f)
                if t == ("nil",):
                    rep.ok(o2)
                else:
                    rep.undecided(o2, "%s starts as %s" % (f, words(plain(t))))
    last = max(n for _, n, _, _, _ in seen)
    for f, t, taint in x[2]:
        if taint:
            rep.undecided(o, "; ".join(sorted(taint))[:200])
        elif t[0] == "events" and isinstance(t[1], int):
            n = max((m for _, m, fa, _, _ in seen if set(fa) <= set(f)), default=last)
            if t[1] == n:
                rep.ok(o)
            else:
                rep.undecided(o, "the events of an earlier step are returned")
        elif (lost := event_loss(prog, op, t, f, last)):
            rep.bad("entry:events", "%s: the events are not returned as the parser recorded them: of %d events %s" % ((where,) + lost), o)
        else:
            hit = [s for s in TEXTS if s and satisfies(f, s)]
            if not mentions(t, A) and not any(isinstance(y, tuple) and y[:1] == ("events",) for y in walk(t)) and len([s for s in hit if s in ("a", "b")]) == 2:
                rep.bad("entry:parse", "%s: the events do not depend on the text: %r and %r both give %s" % (where, "a", "b", words(plain(t))), o)
            elif t == ("nil",) and hit and not mentions(t, A):
                rep.bad("entry:parse", "%s: parse(%r) is given no events at all" % (where, hit[0]), o)
            elif not hit and t == ("nil",) and satisfies(f, ""):
                rep.undecided(o, "the empty text has no events of its own")
            else:
                rep.undecided(o, "the events are not returned as the parser recorded them: %s" % words(plain(t)))
    return body


def lexer_entry(prog, rep, label="entry"):
    """the lexer reads the text it is created from, all of it"""
    T = prog.types
    A = ("arg", 0)
    n = 0
    for b in sorted(prog.bodies.values(), key=lambda b: str(b.key)):
        if not b.local or b.parent or b.argc != 1 or not strs(prog, b.locals[1]) or not (T[b.locals[0]].get("p") or "").endswith("lexer::Lexer"):
            continue
        n += 1
        fs = T[b.locals[0]]["vs"][0]["f"]

        def setup(E, C):
            def m_it(name):
                def m(E, st, d, args, ctx):
                    t = C.reify(E, st, args[0]) if args[0][0] in ("s", "S") else None
                    return None if t is None else [(st, ("it", (name, t)))]
                return m
            E.models["core::str::<impl str>::char_indices"] = m_it("char_indices")
            E.models["core::str::<impl str>::chars"] = m_it("chars")
            E.models["core::str::<impl str>::bytes"] = m_it("bytes")

            def ident(E, st, d, args, ctx):
                return [(st, args[0])] if args[0][0] == "it" else None
            for k in ("peekable", "fuse", "by_ref"):
                E.models["core::iter::traits::iterator::Iterator::" + k] = ident

            def empty(E, st, d, args, ctx):
                return [(st, ("V", 0, ("nil",)))]
            for q in ("alloc::collections::vec_deque::VecDeque::<T>::", "alloc::vec::Vec::<T>::"):
                for k in ("new", "with_capacity"):
                    E.models[q + k] = empty
        o = "%s: the lexer reads its whole text" % label
        x = run(prog, b, rep, o, setup=setup)
        if x is None:
            continue
        for f, t, taint in x[2]:
            if taint or t[0] != "con":
                rep.undecided(o, "; ".join(sorted(taint))[:200] or words(plain(t)))
                continue
            read = 0
            for (name, ty), v in zip(fs, t[2:]):
                o2 = "%s (%s)" % (o, name)
                if not mentions(v, A):
                    continue
                if v[0] in ("char_indices", "chars", "bytes", "len"):
                    read += v[0] != "len"
                    text_is(rep, "entry:lexer", o2, b.path, v[1], f, A, "the lexer does not read all of the text it is created from")
                elif strs(prog, ty):
                    text_is(rep, "entry:lexer", o2, b.path, v, f, A, "the lexer does not keep the text it is created from")
                else:
                    rep.undecided(o2, "the text is kept in a form the rule does not know: %s" % words(plain(v)))
            if not read and not any(strs(prog, ty) for _, ty in fs):
                rep.undecided(o, "no field holds the text")
    rep.require(n >= 1, "lexer", "no function makes a lexer from a text")


def walk(t):
    yield t
    if isinstance(t, tuple):
        for x in t:
            yield from walk(x)


def tree_entries(prog, rep, parse):
    """deserialize and to_yamd are parse and the fold over the very same text"""
    T = prog.types
    fs = list(fold.find(prog))
    if not fs:
        rep.undecided("entry points", "no function from (&[Op], &str) to Result<Yamd, _>")
        return
    res_ty = fs[0].locals[0]
    op = T[T[fs[0].locals[1]]["t"]]["t"]
    yamd = T[res_ty]["args"][0]

    def h_parse(C, E, st, args, b):
        return [(st, ("V", op, ("ops", C.reify(E, st, args[0]))))]

    def h_fold(C, E, st, args, b):
        return [(st, ("o", res_ty, ("fold", C.reify(E, st, args[0]), C.reify(E, st, args[1]))))]

    def setup(E, C):
        def unwrap(old):
            def m(E, st, d, args, ctx):
                v = args[0]
                if v[0] == "o" and v[2][0] == "fold":
                    return [(st, C.mk(E, st, yamd, ("fld", v[2], "Ok", 0)))]
                return old(E, st, d, args, ctx) if old else None
            return m
        for n in ("unwrap", "expect"):
            k = "core::result::Result::<T, E>::" + n
            E.models[k] = unwrap(E.models.get(k))
    n = 0
    for b in sorted(prog.bodies.values(), key=lambda b: str(b.key)):
        if not b.local or b.parent or b.locals[0] != yamd or b is parse:
            continue
        if b.argc == 1 and strs(prog, b.locals[1]):
            want = ("fld", ("fold", ("ops", ("arg", 0)), ("arg", 0)), "Ok", 0)
            src = ("arg", 0)
        elif b.argc == 2 and strs(prog, b.locals[2]) and T[b.locals[1]]["k"] == "ref" and T[T[b.locals[1]]["t"]]["k"] == "slice" and T[T[b.locals[1]]["t"]]["t"] == op:
            want = ("fld", ("fold", ("arg", 0), ("arg", 1)), "Ok", 0)
            src = ("arg", 1)
        else:
            continue
        n += 1
        o = "entry: %s" % b.path
        hooks = {f.key: h_fold for f in fs}
        if parse is not None:
            hooks[parse.key] = h_parse
        x = run(prog, b, rep, o, hooks=hooks, setup=setup)
        if x is None:
            continue
        if not x[2]:
            rep.undecided(o, "it never returns")
        for f, t, taint in x[2]:
            f = tuple(y for y in f if not mentions(y, "Ok") and not mentions(y, "Err"))
            if t == want:
                rep.ok(o)
                continue
            if taint:
                rep.undecided(o, "; ".join(sorted(taint))[:200])
                continue
            t0 = t
            while t0[0] == "con" and len(t0) > 2 and t0[2][0] == "fld" and t0[2][1][0] == "fld":
                t0 = t0[2][1]
            if t0 == want:
                rep.ok(o)
            elif t[0] == "fld" and t[1][0] == "fold":
                ops, s = t[1][1], t[1][2]
                text_is(rep, "entry:%s" % b.path, o, b.path, s, f, src, "the tree is made from another text")
                if b.argc == 1:
                    if ops[0] == "ops":
                        text_is(rep, "entry:%s" % b.path, o, b.path, ops[1], f, src, "another text is parsed")
                    else:
                        rep.undecided(o, "the events are not those of parse: %s" % words(plain(ops)))
                elif ops != ("arg", 0):
                    rep.undecided(o, "the events are not the ones given: %s" % words(plain(ops)))
            elif not mentions(t, src) and not mentions(t, ("arg", 0)):
                pair = next(((a, c) for a, c in (("a", "b"), (" ", "\t"), ("\t", "\x0c"), ("\x00", "\x01"), ("\ufeff", "\u00a0")) if b.argc == 1 and satisfies(f, a) and satisfies(f, c)), None)
                if pair:
                    rep.bad("entry:%s" % b.path, "%s: the tree does not depend on the text: %r and %r both give %s" % (b.path, pair[0], pair[1], words(plain(t))), o)
                elif b.argc == 1 and all(satisfies(f, s) is False for s in TEXTS if s) and satisfies(f, ""):
                    if plain(t) == ("con", "Yamd", ("con", "Option::None"), ("nil",)):
                        rep.ok(o)
                    else:
                        rep.undecided(o, "the empty text has a tree of its own")
                elif b.argc == 2 and any(y == ("is", ("empty", ("arg", 0)), 1) for y in f) and plain(t) == ("con", "Yamd", ("con", "Option::None"), ("nil",)):
                    rep.ok(o)
                else:
                    rep.undecided(o, "a tree that does not come from the fold")
            else:
                rep.undecided(o, "a tree in a form the rule does not know: %s" % words(plain(t)))
    rep.require(n >= 2, "entries", "fewer than two functions that return a document")


def decide(S, rep):
    prog = S.prog
    constructors(prog, rep)
    op_constructors(prog, rep)
    conversions(prog, rep)
    defaults(prog, rep)
    comparisons(prog, rep)
    contents(prog, rep)
    lexer_entry(prog, rep)
    p = parse_entry(prog, rep)
    tree_entries(prog, rep, p)
