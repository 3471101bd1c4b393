"""Rules over the printers' terms: P13 (escaping) and P14 (every field printed once, in the documented form)."""
import itertools
import ceval as V
from teval import Unknown
import transduce as TR
from show import SELF
from terms import cat

A1, A2, A3 = "\ue001", "\ue002", "\ue003"


# ------------------------------------------------------------------ P14: reference printers
def opt(v):
    return None if v[1].endswith("None") else v[2]


def shown(v):
    """text of a child value of the small domain"""
    if isinstance(v, str):
        return v
    if v[0] == "con" and v[1] == "node":
        return v[3]
    if v[0] == "con" and len(v) == 3:
        return shown(v[2])
    raise Unknown("child")


def items(v):
    return [shown(x) for x in v[1:]]


def ref_bold(f):
    has = any(not (x[1].endswith("::Text") and x[2] == "") for x in f["body"][1:])
    return "**" + "".join(items(f["body"])) + "**" if has else ""


def ref_highlight(f):
    t, i = opt(f["title"]), opt(f["icon"])
    return "!!" + ("" if t is None else " " + t) + "\n" + ("" if i is None else "! " + i + "\n") + "\n\n".join(items(f["body"])) + "\n!!"


def ref_yamd(f):
    m = opt(f["metadata"])
    b = "\n\n".join(items(f["body"]))
    return b if m is None else "---\n" + m + ("" if m.endswith("\n") else "\n") + "---\n\n" + b


def ref_list(f):
    mk = "-" if f["list_type"][1].endswith("Unordered") else "+"
    return "\n".join(" " * f["level"] + mk + " " + x for x in items(f["body"]))


def ref_item(f):
    n = opt(f["nested_list"])
    return "".join(items(f["text"])) + ("" if n is None else "\n" + shown(n))


REF = {
    "Anchor": lambda f: "[%s](%s)" % (f["text"], f["url"]),
    "Bold": ref_bold,
    "Code": lambda f: "```%s\n%s\n```" % (f["lang"], f["code"]),
    "CodeSpan": lambda f: "`%s`" % f["0"] if f["0"] else "",
    "Collapsible": lambda f: "{%% %s\n%s\n%%}" % (f["title"], "\n\n".join(items(f["body"]))),
    "Embed": lambda f: "{{%s|%s}}" % (f["kind"], f["args"]),
    "Emphasis": lambda f: "*%s*" % f["0"],
    "Heading": lambda f: "#" * f["level"] + " " + "".join(items(f["body"])),
    "Highlight": ref_highlight,
    "Image": lambda f: "![%s](%s)" % (f["alt"], f["src"]),
    "Images": lambda f: "\n".join(items(f["body"])),
    "Italic": lambda f: "_%s_" % f["0"],
    "List": ref_list,
    "ListItem": ref_item,
    "Paragraph": lambda f: "".join(items(f["body"])),
    "Strikethrough": lambda f: "~~%s~~" % f["0"],
    "ThematicBreak": lambda f: "-----",
    "Yamd": ref_yamd,
}
ENUMS = ("BoldNodes", "HeadingNodes", "ParagraphNodes", "YamdNodes", "ListTypes")
STRS = (A1, "", " ", "\n", "#", " %s " % A1, "- %s" % A1, "\n%s\n" % A1, "!!%s" % A1, "a*b_c~d`e[f]g(h)i{j}k|l%%}m#n!o+p-q %s" % A1, "%s\n\n%s" % (A1, A2), "---%s---" % A1, "# %s" % A1)


class Show(object):
    def __init__(s, S):
        s.S = S
        s.R, s.names = S.show()
        s.T = S.prog.types
        s.key = {n: ty for n, (b, ty) in s.names.items()}

    def fields(s, n):
        return [(f[0], f[1]) for f in s.T[s.key[n]]["vs"][0]["f"]]

    def file(s, n):
        b = s.names[n][0]
        return "%s" % b.span if getattr(b, "span", None) else b.key

    # -------------------------------------------------------- small domain values of a type
    bounds = ()

    def domain(s, ty, tag, rich):
        t = s.T[ty]
        p = t.get("p", "")
        n = p.rsplit("::", 1)[-1]
        if p == "alloc::string::String":
            return [x.replace(A1, tag).replace(A2, tag + "2") for x in (STRS if rich else STRS[:2])]
        if p == "alloc::vec::Vec":
            d = s.domain(t["args"][0], tag, False)
            one = s.domain(t["args"][0], tag + "a", rich)
            two = [x for x in s.domain(t["args"][0], tag + "b", False)]
            out = [("vec",)] + [("vec", x) for x in one] + [("vec", x, y) for x in d for y in two]
            out += [("vec", d[0], two[0], s.domain(t["args"][0], tag + "c", False)[0])]
            # as many items as the printer itself counts, and one more
            return out + [("vec",) + (d[0],) * k for n in s.bounds for k in (n, n + 1) if 3 < k < 5000]
        if p == "core::option::Option":
            return [("con", "Option::None")] + [("con", "Option::Some", x) for x in s.domain(t["args"][0], tag, rich)]
        if p == "alloc::boxed::Box":
            return s.domain(t["args"][0], tag, rich)
        if t["k"] in ("uint", "int"):
            return [0, 1, 2, 3, 6] + [k for n in s.bounds for k in (n - 1, n, n + 1) if k > 6 and k <= {"u8": 6}.get(t.get("s"), 5000)] if rich else [0, 1, 2]
        if t["k"] == "enum" and "vs" in t:
            out = []
            for v in t["vs"]:
                if not v["f"]:
                    out.append(("con", n + "::" + v["n"]))
                else:
                    for x in s.domain(v["f"][0][1], tag, rich):
                        out.append(("con", n + "::" + v["n"], x))
            return out
        if t["k"] == "struct" and not t["vs"][0]["f"]:
            return [("con", "node", n, REF[n]({}))]
        if t["k"] == "struct":
            return [("con", "node", n, tag)] + ([("con", "node", n, "")] + [("con", "node", n, x + tag) for x in ("- ", "+ ", "# ", "!!", "---", "%}", "\n- ")] if rich else [])
        raise Unknown("values of " + n)

    # -------------------------------------------------------- evaluation of a printed text
    def text(s, t, env):
        k = t[0]
        if t in env:
            v = env[t]
            if isinstance(v, str):
                return v
            raise Unknown("text")
        if k == "lit":
            return t[1]
        if k == "cat":
            return "".join(s.text(x, env) for x in t[1:])
        if k == "each":
            return "".join(s.text(x, e) for x, e in s.each(t[1], t[2], env))
        if k == "join":
            return s.text(t[2], env).join(shown(x) if not isinstance(x, str) else x for x in V.vec(s.val(t[1], env))[1:])
        if k == "replace":
            x = s.text(t[1], env)
            if t[2][0] != "lit":
                from teval import pats
                f, r = pats(t[2]), s.text(t[3], env)
                return "".join(r if f(c) else c for c in x)
            return x.replace(s.text(t[2], env), s.text(t[3], env))
        if k == "repeat":
            return s.text(t[1], env) * s.val(t[2], env)
        if k == "dec":
            return str(s.val(t[1], env))
        if k == "str":
            return s.text(t[1], env)
        if k == "show":
            return s.shown(t[1], s.val(t[2], env))
        v = s.val(t, env)
        if not isinstance(v, str):
            raise Unknown("text of %s" % k)
        return v

    def shown(s, n, v):
        if isinstance(v, tuple) and v[:2] == ("con", "node"):
            return v[3]
        if isinstance(v, tuple) and v[0] == "con" and len(v) == 2:
            return s.printed(n, v)
        return shown(v)

    def each(s, src, rows, env):
        if src[0] == "chars":
            it = list(s.text(src[1], env))
        elif src[0] == "range":
            it = range(s.val(src[1], env), s.val(src[2], env))
        else:
            it = V.vec(s.val(src, env))[1:]
        for i, x in enumerate(it):
            e = dict(env)
            e[("el", src)] = x
            e[("ix", src)] = i
            e[("ix1", src)] = i + 1
            hit = [r for r in rows if all(s.fact(f, e) for f in r[0])]
            if len(hit) != 1:
                raise Unknown("%d cases for an item" % len(hit))
            yield hit[0][1], e

    def val(s, t, env):
        if t in env:
            return env[t]
        k = t[0]
        if k == "vmap":
            out = []
            for xs, e in s.each(t[1], t[2], env):
                out += [s.val(x, e) for x in xs]
            return ("vec",) + tuple(out)
        if k in ("any", "all"):
            v = []
            src = t[1]
            it = list(s.text(src[1], env)) if src[0] == "chars" else V.vec(s.val(src, env))[1:]
            for x in it:
                e = dict(env)
                e[("el", src)] = x
                hit = [r for r in t[2] if all(s.fact(f, e) for f in r[0])]
                if len(hit) != 1:
                    raise Unknown("cases of a condition")
                b = hit[0][1]
                v.append(bool(b) if isinstance(b, int) else bool(s.val(b, e)))
            return any(v) if k == "any" else all(v)
        if k == "cls" and isinstance(t[1], tuple):
            from teval import cls
            return cls(t[2], s.val(t[1], env))
        if k in ("eq", "lt", "le"):
            a, b = s.val(t[1], env), s.val(t[2], env)
            if isinstance(a, str) and isinstance(b, int):
                a = ord(a) if len(a) == 1 else a
            if isinstance(b, str) and isinstance(a, int):
                b = ord(b) if len(b) == 1 else b
            if type(a) is not type(b) and not (isinstance(a, int) and isinstance(b, int)):
                raise Unknown("comparison")
            return a == b if k == "eq" else a < b if k == "lt" else a <= b
        if k in ("taken", "skipped"):
            n = s.val(t[2], env)
            if not isinstance(n, int):
                raise Unknown("a number of items")
            if t[1][0] == "chars":
                x = s.text(t[1][1], env)
                return ("vec",) + tuple(x[:n] if k == "taken" else x[n:])
            x = V.vec(s.val(t[1], env))[1:]
            return ("vec",) + (x[:n] if k == "taken" else x[n:])
        if k == "tail":
            return ("vec",) + V.vec(s.val(t[1], env))[2:]
        if k in ("cat", "each", "join", "repeat", "dec", "show", "str", "replace"):
            return s.text(t, env)
        if k in ("starts_with", "ends_with", "contains", "empty", "eq", "trim", "trim_start", "trim_end", "trim_matches", "trim_end_matches", "trim_start_matches",
                 "strip_prefix", "strip_suffix", "len", "lt", "le", "add", "sub", "rem", "mul", "div", "fld", "at", "last", "snoc", "ext", "con", "longer"):
            # evaluate the operands here, the operator there
            m, u = {}, [k]
            for i, x in enumerate(t[1:]):
                if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] not in ("lam", "anyof", "class", "lit", "int"):
                    m[("arg", i)] = s.val(x, env)
                    u.append(("arg", i))
                else:
                    u.append(x)
            return V.ev(tuple(u), m)
        return V.ev(t, env)

    def fact(s, f, env):
        if f[0] == "is":
            return bool(s.val(f[1], env)) == bool(f[2])
        if f[0] in ("disc", "ndisc"):
            v = s.val(f[1], env)
            if not (isinstance(v, tuple) and v[:1] == ("con",)):
                raise Unknown("variant")
            return (v[1].split("::")[-1] == f[2]) == (f[0] == "disc")
        raise Unknown("fact")

    def printed(s, n, v):
        k, rows = s.R[n][:2]
        if k != "rows":
            raise Unknown(rows)
        env = {SELF: v}
        hit = [r for r in rows if all(s.fact(f, env) for f in r[0])]
        if len(hit) != 1:
            raise Unknown("%d cases for a value" % len(hit))
        f, t, ok, taint = hit[0]
        if taint:
            raise Unknown("; ".join(sorted(taint)))
        if not ok:
            return None
        return s.text(t, env)


def constants(rows):
    """the numbers a printer compares or counts with"""
    out = set()

    def go(t):
        if isinstance(t, tuple):
            if len(t) == 2 and t[0] == "int" and isinstance(t[1], int):
                out.add(t[1])
            else:
                for x in t:
                    go(x)
    for r in rows:
        go(r[:2])
    return sorted(x for x in out if 3 < x < 5000)[:6]


def p14(S, rep):
    W = Show(S)
    for n in sorted(set(REF) | set(ENUMS)):
        o = "printer of " + n
        if n not in W.R:
            rep.require(False, "printer:" + n, "no Display implementation of %s was found" % n)
            continue
        if W.R[n][0] != "rows":
            rep.undecided(o, W.R[n][1])
            continue
        W.bounds = constants(W.R[n][1])
        try:
            if n in REF:
                fs = W.fields(n)
                doms = [W.domain(ty, chr(0xe010 + 0x10 * i), True) for i, (_, ty) in enumerate(fs)]
                thin = [W.domain(ty, chr(0xe010 + 0x10 * i), False) for i, (_, ty) in enumerate(fs)]
                vals = set(itertools.product(*thin)) if len(fs) < 3 else set(itertools.product(*[d[:12] + d[-1:] for d in thin]))
                for i, d in enumerate(doms):
                    for x in d:
                        for base in (tuple(t[0] for t in thin), tuple(t[-1] for t in thin)):
                            vals.add(base[:i] + (x,) + base[i + 1:])
                cases = [(("con", n) + v, REF[n](dict(zip([f[0] for f in fs], v)))) for v in sorted(vals, key=repr)]
            else:
                cases = []
                for v in W.domain(W.key[n], chr(0xe010), True):
                    cases.append((v, {"Unordered": "-", "Ordered": "+"}[v[1].split("::")[-1]] if n == "ListTypes" else shown(v)))
        except Unknown as e:
            rep.undecided(o, str(e))
            continue
        except KeyError as e:
            rep.require(False, "fields:" + n, "%s has no field %s" % (n, e))
            continue
        unk, done, bad = None, 0, None
        for v, want in cases:
            try:
                got = W.printed(n, v)
            except (Unknown, TypeError, ValueError, IndexError, KeyError, AttributeError) as e:
                unk = unk or str(e) or type(e).__name__
                continue
            done += 1
            if got is None:
                bad = bad or ("error", v, None, want)
            elif got.replace("\\", "") != want:
                bad = bad or ("differs", v, got, want)
        rep.cov["cases_" + n] = done
        if bad:
            k, v, got, want = bad
            rep.bad("print:%s" % n, "%s: a %s with the fields %s is printed as %s; its documented form is %s" % (
                W.file(n), n, pretty(v), "an error" if got is None else repr(plain(got)), repr(plain(want))), o)
        elif unk:
            rep.undecided(o, unk)
        else:
            rep.ok(o)


def plain(x):
    """private-use atoms as letters"""
    return "".join(c if not 0xe000 <= ord(c) < 0xf000 else "<%X>" % (ord(c) - 0xe000) for c in x)


def pretty(v):
    if isinstance(v, str):
        return repr(plain(v))
    if isinstance(v, int):
        return str(v)
    if v[0] == "vec":
        return "[%s]" % ", ".join(pretty(x) for x in v[1:])
    if v[1] == "node":
        return "%s printed as %r" % (v[2], plain(v[3]))
    return "%s%s" % (v[1], "(%s)" % ", ".join(pretty(x) for x in v[2:]) if len(v) > 2 else "")


# ------------------------------------------------------------------ P13
class Need:
    def __init__(s, pre=None, post=None, **kw):
        s.nospace = kw.pop("nospace", False)       # texts that start with a space are outside the statement
        s.noline = kw.pop("noline", False)         # nor ones that start with a line feed
        s.nonempty = kw.pop("nonempty", False)     # the empty text is documented not to come back
        s.pre, s.post, s.kw = pre, post, kw


INLINE = ["Terminator"]
BLOCK = ["Terminator", "Eol"]
NEED = {
    ("Anchor", "text"): Need(forbidden=["RightSquareBracket"] + INLINE, closing="RightSquareBracket"),
    ("Anchor", "url"): Need(forbidden=["RightParenthesis", "LeftParenthesis"] + INLINE, closing="RightParenthesis"),
    ("Image", "alt"): Need(forbidden=["RightSquareBracket"] + INLINE, closing="RightSquareBracket"),
    ("Image", "src"): Need(forbidden=["RightParenthesis", "LeftParenthesis"] + INLINE, closing="RightParenthesis"),
    ("CodeSpan", "0"): Need(forbidden=["Backtick#1"] + INLINE, opening="Backtick", closing="Backtick#1"),
    ("Emphasis", "0"): Need(nonempty=True, forbidden=["Star#1"] + INLINE, opening="Star", closing="Star#1"),
    ("Italic", "0"): Need(forbidden=["Underscore"] + INLINE, closing="Underscore"),
    ("Strikethrough", "0"): Need(nonempty=True, forbidden=["Tilde#2"] + INLINE, opening="Tilde", closing="Tilde#2"),
    ("Code", "lang"): Need(forbidden=["Backtick#3@0"] + BLOCK, opening="Backtick"),
    ("Code", "code"): Need(forbidden=["Backtick#3@0"], closing="Backtick#3@0"),
    ("Embed", "kind"): Need(forbidden=["Pipe"], opening="LeftCurlyBrace", closing="Pipe"),
    ("Embed", "args"): Need(forbidden=["RightCurlyBrace#2"], closing="RightCurlyBrace#2"),
    ("Collapsible", "title"): Need(forbidden=BLOCK + ["CollapsibleEnd@0"], nospace=True),
    ("Highlight", "title"): Need(forbidden=BLOCK, nospace=True),
    ("Highlight", "icon"): Need(forbidden=BLOCK, nospace=True),
    ("Yamd", "metadata"): Need(forbidden=["Minus#3@0"], closing="Minus#3@0"),
    ("BoldNodes", "Text"): Need(forbidden=["Star#2", "Underscore", "Tilde#2"] + INLINE, edge=[]),
    ("HeadingNodes", "Text"): Need(forbidden=["LeftSquareBracket"] + INLINE),
    ("ParagraphNodes", "Text"): Need(forbidden=["Star#1-2", "Underscore", "Tilde#2", "Backtick#1", "LeftSquareBracket", "CollapsibleEnd@0"] + INLINE),
}
# texts joined side by side with others: a run at either end would grow
EDGES = {("BoldNodes", "Text"): "*_~", ("ParagraphNodes", "Text"): "*_~`["}
STARTS = [("Hash#1-6", "Space#1"), ("Minus#1", "Space#1"), ("Plus#1", "Space#1"), ("Bang#2", "Space#1|Eol"), ("Bang#1", "LeftSquareBracket"), ("Minus#5",)]
ITEMS = {
    # what stands between the items of a container, and what an item's text must not hold
    ("Yamd", "Paragraph"): dict(start=STARTS + [("Minus#3",)], forbidden=[]),
    ("Collapsible", "Paragraph"): dict(start=STARTS, forbidden=[]),
    ("Highlight", "Paragraph"): dict(start=STARTS + [("Bang#1", "Space#1")], forbidden=["Bang#2@0"]),
    ("List", "ListItem"): dict(start=[], forbidden=[]),
}


class Edge(TR.Monitor):
    """as Monitor, and no bare run of the given characters at either end of the field"""


def slots(W, n):
    """(row facts, literal before, text, literal after) of every text a printer writes"""
    for f, t, ok, taint in W.R[n][1]:
        parts = list(t[1:]) if t[0] == "cat" else [t]
        for i, p in enumerate(parts):
            if p[0] == "lit":
                continue
            pre = parts[i - 1][1] if i and parts[i - 1][0] == "lit" else ""
            post = parts[i + 1][1] if i + 1 < len(parts) and parts[i + 1][0] == "lit" else ""
            yield f, pre, p, post, taint, ("start" if i == 0 else "", "end" if i + 1 == len(parts) else "")


def field_of(W, n, t):
    """name of the string field a term is, or None"""
    if t[0] != "fld":
        return None
    if t[1] == SELF:
        ty = W.key[n]
        if W.T[ty]["k"] == "enum":
            v = next((v for v in W.T[ty]["vs"] if v["n"] == t[2]), None)
            if v and len(v["f"]) == 1 and W.T[v["f"][0][1]].get("p") == "alloc::string::String":
                return t[2]
            return None
        nm, fty = W.fields(n)[t[3]]
        return nm if W.T[fty].get("p") == "alloc::string::String" else None
    if t[2] == "Some" and t[1][0] == "fld" and t[1][1] == SELF and W.T[W.key[n]]["k"] == "struct":
        nm, fty = W.fields(n)[t[1][3]]
        a = W.T[fty].get("args") or []
        return nm if a and W.T[a[0]].get("p") == "alloc::string::String" else None
    return None


def leafs(t, pred, out):
    if isinstance(t, tuple):
        if t and pred(t):
            out.add(t)
        else:
            for x in t:
                leafs(x, pred, out)
    return out


def search(rep, W, n, what, t, facts, pre, post, need, key, o, shown=None, edge=""):
    """decide one slot; True when decided"""
    base = None

    def isbase(x):
        return x == what
    try:
        b, ss = TR.chain(t, isbase)
        ws = []
        for f in facts:
            w = TR.watch(f, isbase)
            if w is not None:
                ws.append((w[1], w[2], w[3]))
            elif TR.mentions(f, isbase):
                # a condition the machine does not follow: both outcomes are assumed possible, so a witness may be impossible
                raise Unknown("a condition on the text: %s" % (f[1][0] if isinstance(f[1], tuple) else f[0],))
        if need.nonempty:
            ws.append(([], TR.Watch("empty", None), False))
        if need.noline:
            ws.append(([], TR.Watch("starts_with", "\n"), False))
        if need.nospace:
            ws.append(([], TR.Watch("starts_with", " "), False))
        slot = TR.Slot(ss, pre, post, ws, shown)
        kw = dict(need.kw)
        kw.pop("edge", None)
        chars = set("\n") | set(spec_chars(kw))
        mon = EdgeMonitor(edge, **kw) if edge else TR.Monitor(**kw)
        r = TR.explore(slot, mon, slot.alphabet(chars | set(edge)))
        rep.cov["states"] = rep.cov.get("states", 0) + getattr(TR.explore, "states", 0)
        if r is not None:
            rep.bad(key, "%s: %s of %s, for example %r: %s" % (W.file(n), o, n, r[0], r[1]), o)
        else:
            rep.ok(o)
        return r is None, set(getattr(TR.explore, "escs", ()))
    except Unknown as e:
        rep.undecided(o, str(e))
        return None, set()


class EdgeMonitor(TR.Monitor):
    """tokens made of the given characters may not be the first or the last of the field"""

    def __init__(s, chars, **kw):
        super().__init__(**kw)
        s.kinds = {TR.RUNS.get(c) or TR.ONE.get(c) for c in chars}
        s.init = s.init + ((0, None),)

    def token(s, m, t):
        r = super().token(m[:3], t)
        if r[:1] == ("bad",):
            return r
        first, lastk = m[3]
        if t[3] == 1:
            if first == 0 and t[0] in s.kinds:
                return ("bad", "the printed text begins with a bare %s, which joins one printed before it" % t[0])
            lastk = t[0]
            first = 1
        return r + ((first, lastk),)

    def finish(s, m):
        if m[3][1] in s.kinds:
            return "the printed text ends with a bare %s, which joins one printed after it" % m[3][1]
        return super().finish(m[:3])


KCH = {v: k for k, v in list(TR.RUNS.items()) + list(TR.ONE.items())}


def spec_chars(kw):
    out = set()
    ss = list(kw.get("forbidden", ())) + [kw.get("opening") or "", kw.get("closing") or ""]
    for sq in list(kw.get("start", ())) + list(kw.get("seqs", ())):
        ss += list(sq)
    for x in ss:
        for a in x.split("|"):
            k = a.split("#")[0].split("@")[0]
            if k in KCH:
                out.add(KCH[k])
            if k.startswith("Collapsible"):
                out |= set("{%}")
    return out


def p13(S, rep):
    W = Show(S)
    escs = {}
    found = set()
    for n in sorted(set(x for x, _ in NEED)):
        if n not in W.R:
            rep.require(False, "printer:" + n, "no Display implementation of %s was found" % n)
            continue
        if W.R[n][0] != "rows":
            rep.undecided("printer of " + n, W.R[n][1])
            continue
        for f, pre, t, post, taint, ends in slots(W, n):
            fs = leafs(t, lambda x: field_of(W, n, x) is not None, set())
            if not fs:
                continue
            o = "text of %s.%s" % (n, "/".join(sorted(field_of(W, n, x) for x in fs)))
            if len(fs) > 1:
                rep.undecided(o, "several fields in one text")
                continue
            x = fs.pop()
            nm = field_of(W, n, x)
            found.add((n, nm))
            if taint:
                rep.undecided(o, "; ".join(sorted(taint)))
                continue
            need = NEED.get((n, nm))
            if need is None:
                rep.undecided(o, "a field without a documented delimiter")
                continue
            _, es = search(rep, W, n, x, t, f, pre, post, need, "escape:%s.%s" % (n, nm), o, edge=EDGES.get((n, nm), ""))
            escs.setdefault(n, set()).update(es)
    for n, nm in sorted(set(NEED) - found):
        if n in W.R and W.R[n][0] == "rows":
            ok = all(not r[3] for r in W.R[n][1])
            (rep.bad("unprinted:%s.%s" % (n, nm), "%s: %s of %s is never printed" % (W.file(n), nm, n), "text of %s.%s" % (n, nm)) if ok
             else rep.undecided("text of %s.%s" % (n, nm), "imprecise"))
    containers(W, rep, set().union(*escs.values()) if escs else set())


def containers(W, rep, esc):
    """texts that are printed already and then changed by the node that holds them"""
    for (n, child), kw in sorted(ITEMS.items()):
        o = "%s inside %s" % (child, n)
        if n not in W.R or W.R[n][0] != "rows":
            rep.undecided(o, "not analysed")
            continue
        seen = 0
        for f, t, ok, taint in W.R[n][1]:
            for facts, txt, pre, post in item_texts(t, f):
                bs = leafs(txt, lambda x: x[:2] == ("show", child), set())
                other = leafs(txt, lambda x: x[:1] == ("show",) and x[1].endswith("Nodes"), set())
                if not bs and not other:
                    continue
                if not bs:
                    # printed through the enum: the variant decides
                    vs = [g[2] for g in facts if g[0] == "disc" and g[1] == next(iter(other))[2]]
                    if vs and vs[0] != child:
                        continue
                    bs = other
                if taint:
                    rep.undecided(o, "; ".join(sorted(taint)))
                    continue
                seen += 1
                b = bs.pop()
                k2 = dict(kw)
                ctx = ("\n", "\n\n")
                if n == "List":
                    lt = next((g[2] for g in f if g[0] == "disc" and g[2] in ("Ordered", "Unordered")), None)
                    mk = {"Ordered": "Plus#1@0", "Unordered": "Minus#1@0"}.get(lt)
                    k2["seqs"] = [(m, "Space#1") for m in ([mk] if mk else ["Plus#1@0", "Minus#1@0"])]
                    ctx = ({"Ordered": "+ ", "Unordered": "- "}.get(lt, "- "), "\n")
                    txt = strip_marker(txt, b)
                    if txt is None:
                        rep.undecided(o, "the text of an item is not one piece")
                        continue
                search(rep, W, n, b, txt, facts, ctx[0], ctx[1], Need(noline=True, **k2), "item:%s.%s" % (n, child), o, shown=set(esc) | set("\\"))
        if not seen:
            rep.undecided(o, "no text of such an item was found")


def strip_marker(t, b):
    if t[0] == "cat":
        mid = [x for x in t[1:] if leafs(x, lambda y: y == b, set())]
        return mid[0] if len(mid) == 1 else None
    return t


def item_texts(t, facts):
    """(facts, text, before, after) of every item a printed text writes for a vector"""
    if not isinstance(t, tuple):
        return
    if t[0] == "vmap" or t[0] == "each" and t[1][0] != "chars":
        for fs, x in t[2]:
            for y in (x if t[0] == "vmap" else (x,)):
                # line feeds around an item separate it from its neighbours
                if y[0] == "cat":
                    ps = list(y[1:])
                    if ps[0][0] == "lit":
                        ps[0] = ("lit", ps[0][1].lstrip("\n"))
                    if ps[-1][0] == "lit":
                        ps[-1] = ("lit", ps[-1][1].rstrip("\n"))
                    y = cat(*ps)
                yield tuple(facts) + tuple(fs), y, "", ""
        return
    for x in t:
        if isinstance(x, tuple):
            yield from item_texts(x, facts)
