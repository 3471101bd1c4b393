"""Small-domain evaluation of terms: tells a term that is wrong (some value makes it differ from the
specification) from one that only looks different.  Used to phrase and to confirm a reported mismatch."""
import itertools
from teval import Unknown, ev as tev

STR = ("", "a", "a\nb", "Ab c", "`|*[{\\", "\n", "a\n", "\n\nb\n\n", " a ", "\r\n")
NONE = ("con", "Option::None")


def some(x):
    return ("con", "Option::Some", x)


def norm(v):
    """drop the wrapper enum around a node: Enum::Node(Node(..)) is Node(..)"""
    if isinstance(v, tuple) and v and v[0] == "con":
        if len(v) == 3 and "::" in v[1] and isinstance(v[2], tuple) and v[2][:1] == ("con",) and v[2][1] == v[1].split("::")[-1]:
            return norm(v[2])
        return ("con", v[1]) + tuple(norm(x) for x in v[2:])
    if isinstance(v, tuple) and v and v[0] == "vec":
        return ("vec",) + tuple(norm(x) for x in v[1:])
    return v


def vec(v):
    if not (isinstance(v, tuple) and v and v[0] == "vec"):
        raise Unknown("not a vector")
    return v


def ev(t, env):
    if t in env:
        return env[t]
    k = t[0]
    if k == "con":
        return ("con", t[1] if isinstance(t[1], str) else t[1][2]) + tuple(ev(x, env) for x in t[2:])
    if k == "nil":
        return ("vec",)
    if k == "snoc":
        return vec(ev(t[1], env)) + (ev(t[2], env),)
    if k == "ext":
        return vec(ev(t[1], env)) + vec(ev(t[2], env))[1:]
    if k == "init":
        return vec(ev(t[1], env))[:-1] if len(ev(t[1], env)) > 1 else ("vec",)
    if k == "setlast":
        v = vec(ev(t[1], env))
        if len(v) < 2:
            raise Unknown("last of nothing")
        return v[:-1] + (ev(t[2], env),)
    if k in ("last", "at"):
        v = vec(ev(t[1], env))
        i = len(v) - 2 if k == "last" else t[2] if isinstance(t[2], int) else ev(t[2], env)
        if not 0 <= i < len(v) - 1:
            raise Unknown("item of nothing")
        return v[1 + i]
    if k == "fld":
        v = ev(t[1], env)
        if not (isinstance(v, tuple) and v[:1] == ("con",)) or (t[2] and v[1].split("::")[-1] != t[2]) or len(v) <= 2 + t[3]:
            raise Unknown("field")
        return v[2 + t[3]]
    if k == "empty":
        v = ev(t[1], env)
        return v in ("", ("vec",))
    if k == "longer":
        v, i = ev(t[1], env), ev(t[2], env)
        return len(vec(v)) - 1 > i
    if k == "len":
        v = ev(t[1], env)
        return len(v.encode()) if isinstance(v, str) else len(vec(v)) - 1
    if k in ("replace", "strip_suffix", "strip_prefix", "starts_with", "ends_with", "contains"):
        if k in ("starts_with", "ends_with", "contains") and t[2][0] in ("lam", "anyof", "class"):
            from teval import pats
            s, f = ev(t[1], env), pats(t[2])
            return any(f(c) for c in (s if k == "contains" else s[:1] if k == "starts_with" else s[-1:]))
        v = [ev(x, env) for x in t[1:]]
        if not all(isinstance(x, str) for x in v):
            raise Unknown("pattern")
        return {"replace": str.replace, "strip_suffix": str.removesuffix, "strip_prefix": str.removeprefix, "starts_with": str.startswith,
                "ends_with": str.endswith, "contains": str.__contains__}[k](*v)
    if k in ("lower", "to_lowercase", "to_uppercase"):
        return ev(t[1], env).upper() if k == "to_uppercase" else ev(t[1], env).lower()
    if k in ("cat", "eq", "lt", "le", "add", "sub", "trim", "trim_start", "trim_end", "trim_matches", "trim_end_matches", "trim_start_matches",
             "starts_with", "ends_with", "contains", "replace"):
        m = {}
        u = [k]
        for i, x in enumerate(t[1:]):
            if isinstance(x, tuple) and x and x[0] not in ("lam", "anyof", "class") and (x[0] != "lit" or k not in ("trim_matches", "trim_end_matches", "trim_start_matches") or i == 0):
                m[("arg", i)] = ev(x, env)
                u.append(("arg", i))
            else:
                u.append(x)
        return tev(tuple(u), m)
    if k in ("lit", "int"):
        return t[1]
    if k in ("rem", "mul", "div"):
        a, b = ev(t[1], env), ev(t[2], env)
        if not isinstance(a, int) or not isinstance(b, int) or k != "mul" and b == 0:
            raise Unknown("arithmetic")
        return a * b if k == "mul" else a % b if k == "rem" else a // b
    if k == "pop":
        return ev(t[1], env)[:-1]
    raise Unknown("term %s" % k)


def fact(f, env):
    if f[0] == "is":
        return bool(ev(f[1], env)) == bool(f[2])
    if f[0] in ("disc", "ndisc"):
        v = ev(f[1], env)
        if not (isinstance(v, tuple) and v[:1] == ("con",)):
            raise Unknown("variant")
        return (v[1].split("::")[-1] == f[2]) == (f[0] == "disc")
    raise Unknown("fact")


def leaves(t, ls, out):
    if t in ls:
        out.add(t)
    elif isinstance(t, tuple):
        for x in t:
            leaves(x, ls, out)
    return out


def assignments(doms, limit=20000):
    ks = sorted(doms, key=repr)
    n = 1
    for k in ks:
        n *= len(doms[k])
    if n > limit:
        raise Unknown("too many values")
    for vs in itertools.product(*(doms[k] for k in ks)):
        yield dict(zip(ks, vs))
