"""Sequential transducers read off printing terms, and their exploration against the token rules.

A field's printed text is a chain of one-pass stages over the field's characters (replacements,
character maps, fixed text before and after).  Each stage is a finite machine, so what a chain can
print for *some* string is decided by searching the product of the chain, the documented token
rules and the un-escaping of the lexer; the search is over machine states, not over sample strings.
"""
from collections import deque
from teval import Unknown, lam, pats


# ------------------------------------------------------------------ stages
class Replace:
    def __init__(s, pat, rep):
        s.pat, s.rep = pat, rep
        s.chars = set(pat + rep)

    init = ""

    def step(s, b, c):
        b += c
        if b == s.pat:
            return "", s.rep
        out = ""
        while b and not s.pat.startswith(b):
            out += b[0]
            b = b[1:]
        return b, out

    def end(s, b):
        return b


class Map:
    """one character at a time"""
    init = ()

    def __init__(s, f, chars):
        s.f, s.chars = f, set(chars)

    def step(s, q, c):
        return q, s.f(c)

    def end(s, q):
        return ""


class Around:
    init = 0

    def __init__(s, pre, post):
        s.pre, s.post, s.chars = pre, post, set(pre + post)

    def step(s, q, c):
        return 1, c if q else s.pre + c

    def end(s, q):
        return s.post if q else s.pre + s.post


class TrimStart:
    init = 0

    def __init__(s, f, chars):
        s.f, s.chars = f, set(chars)

    def step(s, q, c):
        if not q and s.f(c):
            return 0, ""
        return 1, c

    def end(s, q):
        return ""


class TrimEnd:
    init = ""
    LIM = 6

    def __init__(s, f, chars):
        s.f, s.chars = f, set(chars)

    def step(s, b, c):
        if s.f(c):
            if len(b) >= s.LIM:
                raise Unknown("a long run to trim")
            return b + c, ""
        return "", b + c

    def end(s, b):
        return ""


class StripStart:
    def __init__(s, p):
        s.p, s.chars = p, set(p)

    init = (0, "")

    def step(s, q, c):
        if q[0]:
            return q, c
        b = q[1] + c
        if b == s.p:
            return (1, ""), ""
        if s.p.startswith(b):
            return (0, b), ""
        return (1, ""), b

    def end(s, q):
        return q[1]


class StripEnd:
    init = ""

    def __init__(s, p):
        s.p, s.chars = p, set(p)

    def step(s, b, c):
        b += c
        n = len(s.p)
        return (b[-n:], b[:-n]) if len(b) > n else (b, "")

    def end(s, b):
        return "" if b == s.p else b


CLS_REPR = {"is_whitespace": " \n\t", "is_ascii_whitespace": " \n\t", "is_uppercase": "A", "is_lowercase": "a", "is_ascii_punctuation": "*", "is_ascii_digit": "1",
            "is_alphabetic": "a", "is_alphanumeric": "a1", "is_ascii_alphanumeric": "a1", "is_ascii_alphabetic": "a"}


def rep_chars(p):
    """characters that tell the classes of a predicate apart"""
    out = set()

    def go(t):
        if not isinstance(t, tuple):
            return
        if t and t[0] == "int" and isinstance(t[1], int) and 0 <= t[1] < 0x110000:
            out.update(chr(x) for x in (t[1] - 1, t[1], t[1] + 1) if 0 < x < 0x110000 and not 0xd800 <= x < 0xe000)
        elif t and t[0] in ("cls", "class"):
            out.update(CLS_REPR.get(t[2] if t[0] == "cls" else t[1], ""))
        elif t and t[0] in ("lit", "anyof"):
            for x in t[1:]:
                if isinstance(x, str):
                    out.update(x)
        for x in t:
            go(x)
    go(p)
    return out


def lit(t):
    if t[0] == "lit":
        return t[1]
    raise Unknown("a text that is not constant")


def chain(t, isbase):
    """(base term, stages) of a text"""
    if isbase(t):
        return t, []
    k = t[0]
    if k == "replace":
        b, ss = chain(t[1], isbase)
        p = t[2]
        if p[0] == "lit" and len(p[1]) >= 1 and t[3][0] == "lit":
            return b, ss + [Replace(p[1], t[3][1])]
        f, r = pats(p), lit(t[3])
        return b, ss + [Map(lambda c: r if f(c) else c, rep_chars(p) | set(r))]
    if k == "cat":
        mid = [x for x in t[1:] if x[0] != "lit"]
        if len(mid) != 1:
            raise Unknown("several texts")
        i = t.index(mid[0])
        b, ss = chain(mid[0], isbase)
        return b, ss + [Around("".join(x[1] for x in t[1:i]), "".join(x[1] for x in t[i + 1:]))]
    if k == "each" and t[1][0] == "chars":
        b, ss = chain(t[1][1], isbase)
        el = ("el", t[1])
        cs = rep_chars(t[2])

        def f(c, rows=t[2]):
            for fs, txt in rows:
                if all(charfact(g, el, c) for g in fs):
                    return chartext(txt, el, c)
            raise Unknown("no case for a character")
        return b, ss + [Map(f, cs)]
    if k == "filter" and t[1][0] == "chars":
        b, ss = chain(t[1][1], isbase)
        return b, ss + [Map(lambda c: c if lam(t[2], c) else "", rep_chars(t[2]))]
    if k in ("chars",):
        return chain(t[1], isbase)
    if k in ("trim", "trim_start", "trim_end"):
        b, ss = chain(t[1], isbase)
        ws = lambda c: c in " \t\n\r"
        return b, ss + ([TrimStart(ws, " \n")] if k != "trim_end" else []) + ([TrimEnd(ws, " \n")] if k != "trim_start" else [])
    if k in ("trim_matches", "trim_end_matches", "trim_start_matches"):
        b, ss = chain(t[1], isbase)
        f, cs = pats(t[2]), rep_chars(t[2])
        return b, ss + ([TrimStart(f, cs)] if k != "trim_end_matches" else []) + ([TrimEnd(f, cs)] if k != "trim_start_matches" else [])
    if k == "strip_prefix":
        b, ss = chain(t[1], isbase)
        return b, ss + [StripStart(lit(t[2]))]
    if k == "strip_suffix":
        b, ss = chain(t[1], isbase)
        return b, ss + [StripEnd(lit(t[2]))]
    if k in ("lower", "to_lowercase", "to_uppercase"):
        b, ss = chain(t[1], isbase)
        return b, ss + [Map(str.upper if k == "to_uppercase" else str.lower, "aA")]
    raise Unknown("a text built by %s" % k)


def charfact(f, el, c):
    if f[0] != "is":
        raise Unknown("case of a character")
    t = f[1]
    if t[0] == "cls" and t[1] == el:
        return lam((((("is", ("cls", ("elem",)) + t[2:], 1),), 1), ((), 0)), c) == bool(f[2])
    if t[0] in ("eq", "lt", "le") and t[1] == el and t[2][0] == "int":
        o, k = ord(c), t[2][1]
        return {"eq": o == k, "lt": o < k, "le": o <= k}[t[0]] == bool(f[2])
    if t[0] == "contains" and t[1][0] == "lit" and t[2] in (("str", el), el):
        return (c in t[1][1]) == bool(f[2])
    raise Unknown("case of a character")


def chartext(t, el, c):
    if t == ("str", el) or t == el:
        return c
    if t[0] == "lit":
        return t[1]
    if t[0] == "cat":
        return "".join(chartext(x, el, c) for x in t[1:])
    raise Unknown("text of a character")


# ------------------------------------------------------------------ what a condition says about the text read so far
class Watch:
    """a condition on a text, decided when the text ends"""

    def __init__(s, kind, arg):
        s.kind, s.arg = kind, arg
        s.init = {"starts_with": 0, "ends_with": "", "contains": "", "empty": True, "eq": 0, "startsf": None, "endsf": None, "containsf": False}[kind]
        s.chars = set(arg) if isinstance(arg, str) else set()

    def step(s, q, c):
        k, a = s.kind, s.arg
        if k in ("starts_with", "eq"):
            if q == -1 or (k == "starts_with" and q == len(a)):
                return q
            return q + 1 if q < len(a) and a[q] == c else -1
        if k == "ends_with":
            return (q + c)[-len(a):] if a else ""
        if k == "contains":
            if q is True:
                return q
            q += c
            while q and not a.startswith(q):
                q = q[1:]
            return True if q == a else q
        if k == "empty":
            return False
        if k == "startsf":
            return a(c) if q is None else q
        if k == "endsf":
            return a(c)
        return q or a(c)

    def value(s, q):
        k = s.kind
        if k in ("starts_with", "eq"):
            return q == len(s.arg)
        if k == "ends_with":
            return q == s.arg
        if k == "contains":
            return q is True or s.arg == ""
        return bool(q)


def watch(f, isbase):
    """(base, stages, watch, expected) of a condition, None when it is not about a text of the base"""
    if f[0] != "is":
        return None
    t = f[1]
    if t[0] not in ("starts_with", "ends_with", "contains", "empty", "eq") or len(t) < 2:
        return None
    if not mentions(t, isbase):
        return None
    b, ss = chain(t[1], isbase)
    if t[0] == "empty":
        return b, ss, Watch("empty", None), bool(f[2])
    p = t[2]
    if p[0] == "lit":
        return b, ss, Watch(t[0], p[1]), bool(f[2])
    if t[0] == "eq":
        raise Unknown("comparison of texts")
    w = Watch({"starts_with": "startsf", "ends_with": "endsf", "contains": "containsf"}[t[0]], pats(p))
    w.chars = rep_chars(p)
    return b, ss, w, bool(f[2])


def mentions(t, isbase):
    return isinstance(t, tuple) and ((t and isbase(t)) or any(mentions(x, isbase) for x in t))


class Run:
    """a chain at work"""

    def __init__(s, stages):
        s.ss = stages
        s.init = tuple(x.init for x in stages)
        s.chars = set().union(*[x.chars for x in stages]) if stages else set()

    def step(s, q, text):
        q = list(q)
        for i, x in enumerate(s.ss):
            out = ""
            for c in text:
                q[i], o = x.step(q[i], c)
                out += o
            text = out
        return tuple(q), text

    def end(s, q):
        q = list(q)
        text = ""
        for i, x in enumerate(s.ss):
            out = ""
            for c in text:
                q[i], o = x.step(q[i], c)
                out += o
            text = out + x.end(q[i])
        return text


# ------------------------------------------------------------------ the documented tokens
RUNS = {"~": "Tilde", "*": "Star", "}": "RightCurlyBrace", "{": "LeftCurlyBrace", " ": "Space", "-": "Minus", "#": "Hash", ">": "GreaterThan", "!": "Bang",
        "`": "Backtick", "+": "Plus"}
ONE = {"[": "LeftSquareBracket", "]": "RightSquareBracket", "(": "LeftParenthesis", ")": "RightParenthesis", "_": "Underscore", "|": "Pipe"}
PAIR = {"{%": "CollapsibleStart", "%}": "CollapsibleEnd"}
CAP = 8


class Lex:
    """the documented token rules, one character at a time; a token is (kind, length, at column 0, region it starts in, region it ends in).
    Regions: 0 before the field, 1 in it, 2 after it."""
    #       pending (kind char, length, col0, region, end region) | None, escape pending, column 0 now, literal open
    init = (None, False, True, False)

    def step(s, q, c, reg):
        p, esc, col0, litn = q
        out = []
        if esc:
            if p:
                out.append(s.tok(p))
                p = None
            if not litn or True:
                out.append(("Literal", 1, False, reg, reg))
            return (None, False, False, True), out
        if p:
            k = p[0]
            if k == "{" and p[1] == 1 and c == "%" and not p[5]:
                out.append(("CollapsibleStart", 2, p[2], p[3], reg))
                return (None, False, False, False), out
            if k == "%" and c == "}":
                out.append(("CollapsibleEnd", 2, p[2], p[3], reg))
                return (None, False, False, False), out
            if k == "\n":
                if c == "\n":
                    out.append(("Terminator", 2, p[2], p[3], reg))
                    return (None, False, True, False), out
            elif k != "%" and k == c:
                return ((k, min(p[1] + 1, CAP), p[2], p[3], reg, False), False, False, False), out
            if k == "%":
                out.append(("Literal", 1, p[2], p[3], p[4]))
                litn = True
            else:
                out.append(s.tok(p))
                litn = False
            p = None
        if c == "\\":
            return (None, True, col0, litn), out
        if c == "\n":
            return (("\n", 1, col0, reg, reg, False), False, True, False), out
        if c == "%":
            return (("%", 1, col0, reg, reg, False), False, False, litn), out
        if c in ONE:
            out.append((ONE[c], 1, col0, reg, reg))
            return (None, False, False, False), out
        if c in RUNS and not (c == " " and litn):
            return ((c, 1, col0, reg, reg, False), False, False, False), out
        if not litn:
            out.append(("Literal", 1, col0, reg, reg))
        return (None, False, False, True), out

    def tok(s, p):
        if p[0] == "\n":
            return ("Eol", 1, p[2], p[3], p[4])
        return (RUNS[p[0]], p[1], p[2], p[3], p[4])

    def end(s, q):
        p = q[0]
        if not p:
            return []
        if p[0] == "%":
            return [("Literal", 1, p[2], p[3], p[4])]
        return [s.tok(p)]


def tokens(text):
    L, q, out = Lex(), Lex.init, []
    for c in text:
        q, o = L.step(q, c, 1)
        out += o
    return out + L.end(q)


def match(tok, spec):
    """spec: Kind[#a-b][@0]"""
    for alt in spec.split("|"):
        col0 = alt.endswith("@0")
        a = alt[:-2] if col0 else alt
        lo, hi = 1, 99
        if "#" in a:
            a, r = a.split("#")
            lo, hi = (int(x) for x in (r.split("-") if "-" in r else (r, r)))
        if tok[0] == a and lo <= tok[1] <= hi and (not col0 or tok[2]):
            return True
    return False


# ------------------------------------------------------------------ the search
class Slot:
    """one field inside one printed form"""

    def __init__(s, stages, pre, post, watches=(), shown=None):
        s.run = Run(stages)
        s.pre, s.post = pre, post
        s.watches = [(Run(ss), w, e) for ss, w, e in watches]
        s.shown = shown                       # set of characters that may come escaped, None for a raw string

    def alphabet(s, extra=()):
        cs = set("a\\") | s.run.chars | set(extra)
        for r, w, _ in s.watches:
            cs |= r.chars | w.chars
        return sorted(cs)


def explore(slot, monitor, alphabet, limit=400000, bad_start=()):
    """first violation as (input text, output text, what) or None; monitor(tokens-so-far state, token) -> state | ("bad", what)"""
    L = Lex()
    q0, m0, outside = Lex.init, monitor.init, None
    r = feed(L, q0, m0, slot.pre, 0, monitor)
    if r[2]:
        return ("", slot.pre, r[2])
    ws0 = tuple((r_.init, w.init) for r_, w, _ in slot.watches)
    start = (slot.run.init, ws0, "", "", False, r[0], r[1], None)
    seen = {start: None}
    todo = deque([start])
    inputs = [(c, c) for c in alphabet if not (slot.shown is not None and c == "\\")]
    if slot.shown is not None:
        inputs += [("\\" + c, c) for c in alphabet if c in slot.shown or c == "\\"]
    escs = set()
    while todo:
        st = todo.popleft()
        rq, ws, want, got, esc, lq, ms, bad = st
        # the text may end here
        if all(w.value(wend(r_, w, q)) == e for (r_, w, e), q in zip(slot.watches, ws)):
            out = slot.run.end(rq)
            b, want2, got2, esc2 = unescape(out, want, got, esc, bad, escs)
            if b is None and (want2 or got2):
                b = "un-escaping the printed text does not give the text back"
            if b is None and esc2:
                b = "the printed text ends with a bare backslash, which escapes what follows"
            x = feed(L, lq, ms, out, 1, monitor)
            if b is None and x[2]:
                b = x[2]
            if b is None:
                y = feed(L, x[0], x[1], slot.post, 2, monitor)
                b = y[2]
                if b is None:
                    m = y[1]
                    for t in L.end(y[0]):
                        if b is None:
                            m = monitor.token(m, t)
                            if m[:1] == ("bad",):
                                b = m[1]
                    if b is None:
                        b = monitor.finish(m)
            if b is not None:
                text, _ = spell(seen, st, inputs)
                return text, b
        for inp, plain in inputs:
            try:
                rq2, out = slot.run.step(rq, inp)
                ws2 = []
                for (r_, w, e), (a, z) in zip(slot.watches, ws):
                    a, o = r_.step(a, inp)
                    for c in o:
                        z = w.step(z, c)
                    ws2.append((a, z))
            except Unknown:
                raise
            if dead(slot.watches, ws2):
                continue
            b, want2, got2, esc2 = unescape(out, want + plain, got, esc, bad, escs)
            if len(want2) > 24 or len(got2) > 24:
                b = b or "un-escaping the printed text does not give the text back"
                want2 = got2 = ""
            lq2, ms2, b2 = feed(L, lq, ms, out, 1, monitor) if bad is None else (lq, ms, None)
            b = b or b2
            if b is not None:
                # the rest does not matter
                want2 = got2 = ""
                esc2 = False
                lq2, ms2 = Lex.init, monitor.init
            n = (rq2, tuple(ws2), want2, got2, esc2, lq2, ms2, b)
            if n not in seen:
                if len(seen) >= limit:
                    raise Unknown("too many machine states")
                seen[n] = (st, inp)
                todo.append(n)
    explore.states = len(seen)
    explore.escs = escs
    return None


def dead(watches, ws):
    for (r_, w, e), (a, z) in zip(watches, ws):
        if w.kind in ("starts_with", "eq") and z == -1 and e:
            return True
        if w.kind == "starts_with" and z == len(w.arg) and not e:
            return True
        if w.kind == "contains" and z is True and not e:
            return True
        if w.kind == "empty" and z is False and e:
            return True
    return False


def wend(r_, w, q):
    a, z = q
    for c in r_.end(a):
        z = w.step(z, c)
    return z


def unescape(out, want, got, esc, bad, escs):
    """compare the printed text without its escaping backslashes with the text read"""
    if bad is not None:
        return bad, "", "", False
    for c in out:
        if esc:
            got += c
            esc = False
            escs.add(c)
        elif c == "\\":
            esc = True
        else:
            got += c
    n = 0
    while n < len(want) and n < len(got) and want[n] == got[n]:
        n += 1
    want, got = want[n:], got[n:]
    if want and got:
        return "un-escaping the printed text does not give the text back", "", "", False
    return None, want, got, esc


def feed(L, q, m, text, reg, monitor):
    for c in text:
        q, ts = L.step(q, c, reg)
        for t in ts:
            m = monitor.token(m, t)
            if m[:1] == ("bad",):
                return q, m, m[1]
    return q, m, None


def spell(seen, st, inputs):
    out = []
    while seen[st] is not None:
        st, inp = seen[st]
        out.append(inp)
    return "".join(out[::-1]), None


class Monitor:
    """forbidden: specs no token that starts in the field may have; opening: spec of the token that must end where the field begins;
    closing: spec of a token that must start after the field; start: sequences of specs the field's first tokens must not have"""

    def __init__(s, forbidden=(), opening=None, closing=None, start=(), edge=(), seqs=()):
        s.forbidden, s.opening, s.closing, s.start, s.edge, s.seqs = tuple(forbidden), opening, closing, tuple(start), tuple(edge), tuple(seqs)
        #          closing seen, alternatives of start still alive, previous token for seqs
        s.init = (not closing, tuple((i, 0) for i in range(len(s.start))), ())

    def token(s, m, t):
        closed, alive, prev = m
        kind, n, col0, a, b = t
        name = "%s%s%s" % (kind, "#%d" % n if kind in RUNS.values() else "", "@0" if col0 else "")
        if a == 0 and b > 0 and s.opening and match((kind, n, col0), s.opening.split("#")[0].split("@")[0]):
            return ("bad", "the text runs into the opening delimiter (%s)" % name)
        if a == 1 or (a == 0 and b >= 1 and kind not in ("Space",)):
            for f in s.forbidden:
                if match((kind, n, col0), f):
                    return ("bad", "the printed text contains a bare %s" % name)
        if a <= 1 <= b and a != b:
            for f in s.edge:
                if match((kind, n, col0), f):
                    return ("bad", "%s at the edge of the text joins what stands next to it" % name)
        if a == 2 and s.closing and match((kind, n, col0), s.closing):
            closed = True
        if a >= 1:
            al = []
            for i, j in alive:
                sq = s.start[i]
                if match((kind, n, col0), sq[j]):
                    if j + 1 == len(sq):
                        return ("bad", "the printed text begins with %s" % " ".join(sq))
                    al.append((i, j + 1))
            alive = tuple(al)
        p = []
        for i, sq in enumerate(s.seqs):
            for j in [0] + [x[1] for x in prev if x[0] == i]:
                if match((kind, n, col0), sq[j]) and a >= 1:
                    if j + 1 == len(sq):
                        if a == 1:
                            return ("bad", "the printed text contains %s" % " ".join(sq))
                    elif a == 1:
                        p.append((i, j + 1))
        return (closed, alive, tuple(sorted(set(p))))

    def finish(s, m):
        if not m[0]:
            return "the closing delimiter is not recognised after the text"
        return None
