"""The documented grammar: delimiters, children and text exclusions of every node."""

EOL = [("Eol",)]


def mask(C, spec):
    """spec: alternatives separated by |, each Kind[#len[-len]][@0]"""
    m = 0
    for alt in spec.split("|"):
        col0 = alt.endswith("@0")
        if col0:
            alt = alt[:-2]
        lo = hi = None
        if "#" in alt:
            alt, r = alt.split("#")
            lo, hi = (int(x) for x in (r.split("-") if "-" in r else (r, r)))
        ki = C.kinds.index(alt)
        m |= C.sel(lambda c: c[0] == ki and (not col0 or c[1] == 1) and (lo is None or (c[2] >= lo and c[3] <= hi)))
    return m


# node -> (start sequences, end sequences); "" is an operation without tokens
DELIMS = {
    "Anchor": ([""], [""]),
    "Bold": (["Star#2"], ["Star#2"]),
    "Code": (["Backtick#3@0", "Backtick#3@0 Eol"], ["Backtick#3@0", "Backtick#3@0 Eol"]),
    "CodeSpan": (["Backtick#1"], ["Backtick#1"]),
    "Collapsible": (["CollapsibleStart@0 Space|Eol"], ["CollapsibleEnd@0", "CollapsibleEnd@0 Eol"]),
    "Destination": (["LeftParenthesis"], ["RightParenthesis"]),
    "Document": ([""], [""]),
    "Embed": (["LeftCurlyBrace#2@0"], ["RightCurlyBrace#2", "RightCurlyBrace#2 Eol"]),
    "Emphasis": (["Star#1"], ["Star#1"]),
    "Heading": (["Hash#1-6@0 Space#1"], [""]),
    "Highlight": (["Bang#2@0 Space#1|Eol"], ["Bang#2@0", "Bang#2@0 Eol"]),
    "Icon": (["Bang#1@0 Space#1"], ["Eol"]),
    "Image": (["Bang#1"], ["", "Eol"]),
    "Images": ([""], [""]),
    "Italic": (["Underscore"], ["Underscore"]),
    "ListItem": (["Minus#1@0|Plus#1@0 Space#1", "Space@0 Minus#1|Plus#1 Space#1"], [""]),
    "Metadata": (["Minus#3@0"], ["Minus#3@0"]),
    "Modifier": ([""], ["Eol|Terminator"]),
    "OrderedList": ([""], [""]),
    "Paragraph": ([""], [""]),
    "Strikethrough": (["Tilde#2"], ["Tilde#2"]),
    "ThematicBreak": ([""], [""]),
    "Title": (["LeftSquareBracket"], ["RightSquareBracket"]),
    "UnorderedList": ([""], [""]),
}

# (node, index of the value) -> token classes its text must not contain / may only contain
EXCLUDES = {
    ("Metadata", 0): "Minus#3@0", ("Modifier", 0): "Eol|Terminator", ("Code", 0): "Backtick#3@0", ("Code", 1): "Backtick#3@0",
    ("Embed", 0): "Pipe", ("Embed", 2): "RightCurlyBrace#2", ("Icon", 0): "Eol", ("Strikethrough", 0): "Tilde#2",
    ("Italic", 0): "Underscore", ("Title", 0): "RightSquareBracket", ("CodeSpan", 0): "Backtick#1", ("Emphasis", 0): "Star#1",
}
ONLY = {("ThematicBreak", 0): "Minus#5@0", ("Embed", 1): "Pipe", ("Document", None): "Terminator", ("Highlight", None): "Terminator"}

CHILDREN = {
    "Anchor": ("seq", ["Title Destination"]),
    "Bold": ("set", "Italic Strikethrough Value"),
    "Code": ("seq", ["Value", "Modifier Value"]),
    "CodeSpan": ("seq", ["Value"]),
    "Collapsible": ("seq", ["Document", "Modifier Document"]),
    "Destination": ("seq", ["Value"]),
    "Document": ("set", "Code Collapsible Embed Heading Highlight Image Images OrderedList Paragraph ThematicBreak UnorderedList Value"),
    "Embed": ("seq", ["Value Value Value"]),
    "Emphasis": ("seq", ["Value"]),
    "Heading": ("set", "Anchor Value"),
    "Highlight": ("set", "Icon Modifier Paragraph Value"),
    "Icon": ("seq", ["Value"]),
    "Image": ("seq", ["Title Destination"]),
    "Images": ("set", "Image"),
    "Italic": ("seq", ["Value"]),
    "ListItem": ("seq", ["Paragraph", "Paragraph UnorderedList", "Paragraph OrderedList"]),
    "Metadata": ("seq", ["Value"]),
    "Modifier": ("seq", ["Value"]),
    "OrderedList": ("set", "ListItem"),
    "Paragraph": ("set", "Anchor Bold CodeSpan Emphasis Italic Strikethrough Value"),
    "Strikethrough": ("seq", ["Value"]),
    "ThematicBreak": ("seq", ["Value"]),
    "Title": ("seq", ["Value"]),
    "UnorderedList": ("set", "ListItem"),
}


def tainted_in(R, fns):
    ts = [f for f in R.C.tainted if f in fns or f.rsplit("::", 1)[0] in fns]
    return bool(R.C.tainted) or bool(R.E.stats["unmodelled"])


def delimiters(R, rep, clean):
    C = R.C
    cls = C.cls
    for n in C.nodes:
        if n not in DELIMS:
            rep.bad("table:" + n, "node %s is not in the documented delimiter table" % n)
            continue
        rec = C.closes.get(n)
        if rec is None:
            continue
        for side, specs in zip(("start", "end"), DELIMS[n]):
            exp = {}
            for sp in specs:
                ts = [mask(cls, x) for x in sp.split()]
                exp.setdefault(len(ts), []).append(ts)
            o = "%s of %s" % (side, n)
            got = rec[side]
            if "?" in got:
                (rep.undecided if not clean else rep.bad)(*((o, "length unknown") if not clean else
                    ("delim:%s:%s:length" % (n, side), "the %s of a %s has no fixed number of tokens" % (side, n), o)))
                continue
            bad = False
            for ln, tuples in sorted(got.items()):
                want = exp.get(ln)
                if want is None:
                    rep.bad("delim:%s:%s:len%d" % (n, side, ln), "the %s of a %s can be built from %d tokens: %s (in %s)" % (
                        side, n, ln, [[cls.show(m) for m in t] for t in sorted(tuples)], ", ".join(sorted(rec["fns"]))), o)
                    bad = True
                    continue
                for t in sorted(tuples):
                    if not any(all(m & ~w == 0 for m, w in zip(t, ws)) for ws in want):
                        rep.bad("delim:%s:%s:wider" % (n, side), "the %s of a %s can be built from %s, which is not its delimiter %s (in %s)" % (
                            side, n, " ".join(cls.show(m) for m in t), specs, ", ".join(sorted(rec["fns"]))), o)
                        bad = True
            if clean:
                for ln, wants in sorted(exp.items()):
                    for ws in wants:
                        have = [0] * ln
                        for t in got.get(ln, ()):
                            if all(m & w for m, w in zip(t, ws)):
                                have = [h | m for h, m in zip(have, t)]
                        miss = [w & ~h for w, h in zip(ws, have)]
                        if ln not in got or any(miss):
                            rep.bad("delim:%s:%s:narrower" % (n, side), "the %s of a %s is never built from %s (in %s)" % (
                                side, n, " ".join(cls.show(m) for m in (miss if ln in got and ln else ws)) or "nothing", ", ".join(sorted(rec["fns"]))), o)
                            bad = True
            if not bad:
                if rec["n"] and not got:
                    rep.undecided(o, "every path is imprecise")
                else:
                    rep.ok(o)
    for (n, i), spec in sorted(EXCLUDES.items(), key=repr):
        o = "text of %s, value %s, excludes %s" % (n, i, spec)
        m = C.values.get((n, i))
        if m is None:
            if n == "Code" and i == 1 or not clean:
                rep.undecided(o, "no such value")
            else:
                rep.bad("text:%s:%s:missing" % (n, i), "no value number %s of a %s is ever emitted" % (i, n), o)
        elif m & mask(cls, spec):
            rep.bad("text:%s:%s" % (n, i), "the text of a %s (value %s) can contain its own delimiter %s: the first one does not end it" % (n, i, spec), o)
        else:
            rep.ok(o)
    for (n, i), spec in sorted(ONLY.items(), key=repr):
        o = "text of %s is %s" % (n, spec)
        ms = [m for (a, b), m in C.values.items() if a == n and (i is None or b == i)]
        m = 0
        for x in ms:
            m |= x
        if m & ~mask(cls, spec):
            rep.bad("only:%s:%s" % (n, i), "a value of a %s can be built from %s" % (n, cls.show(m & ~mask(cls, spec))), o)
        elif not ms:
            (rep.bad("only:%s:%s:missing" % (n, i), "no such value is emitted", o) if clean else rep.undecided(o, "no such value"))
        else:
            rep.ok(o)


def children(R, rep, clean):
    C = R.C
    for n in C.nodes:
        if n not in CHILDREN:
            rep.bad("table:" + n, "node %s is not in the documented grammar" % n)
            continue
        rec = C.closes.get(n)
        if rec is None:
            continue
        kind, want = CHILDREN[n]
        o = "children of " + n
        got = {C.nname(i) for i in range(64) if rec["ch"] >> i & 1}
        fns = ", ".join(sorted(rec["fns"]))
        bad = False
        ws = set(want.split()) if kind == "set" else {x for q in want for x in q.split()}
        for x in sorted(got - ws):
            rep.bad("child:%s:%s" % (n, x), "a %s can hold a %s (emitted in %s)" % (n, x, fns), o)
            bad = True
        if clean:
            for x in sorted(ws - got):
                rep.bad("child-lost:%s:%s" % (n, x), "a %s never holds a %s (in %s)" % (n, x, fns), o)
                bad = True
        if kind == "seq" and not bad:
            if rec["seqs"] is None:
                if clean:
                    rep.bad("seq:%s:unbounded" % n, "a %s can hold more children than its grammar %s (in %s)" % (n, want, fns), o)
                else:
                    rep.undecided(o, "unbounded sequence")
                continue
            gs = {" ".join(C.nname(i) for i in q) for q in rec["seqs"]}
            for q in sorted(gs - set(want)):
                rep.bad("seq:%s:%s" % (n, q), "a %s can hold the children [%s] (in %s)" % (n, q, fns), o)
                bad = True
            if clean:
                for q in sorted(set(want) - gs):
                    rep.bad("seq-lost:%s:%s" % (n, q), "a %s never holds the children [%s] (in %s)" % (n, q, fns), o)
                    bad = True
        if not bad:
            rep.ok(o)
