"""Serialising and deserialising are inverse: the serde attributes of every type, judged by what serde_derive makes of them."""
import re

HARMLESS = {"bound", "crate", "expecting", "deny_unknown_fields", "borrow", "default", "transparent"}


def words(args):
    """a = "b", c(d = "e"), f  ->  [(a, "b"), (c, [(d, "e")]), (f, None)]"""
    tok = re.findall(r'"(?:[^"\\]|\\.)*"|[A-Za-z_][A-Za-z0-9_]*|[(),=]|::', args)
    pos = [0]

    def lst(end):
        out = []
        while pos[0] < len(tok) and tok[pos[0]] != end:
            w = tok[pos[0]]
            pos[0] += 1
            if w == ",":
                continue
            if pos[0] < len(tok) and tok[pos[0]] == "=":
                v = tok[pos[0] + 1]
                pos[0] += 2
                out.append((w, v[1:-1] if v[0] == '"' else v))
            elif pos[0] < len(tok) and tok[pos[0]] == "(":
                pos[0] += 1
                out.append((w, lst(")")))
            else:
                out.append((w, None))
        pos[0] += 1
        return out
    return lst(None)


def attrs(at):
    out = []
    for p, a in at:
        if p == "serde":
            out += words(a)
    return out


def camel(parts):
    return parts[0].lower() + "".join(p.capitalize() for p in parts[1:])


def renamed(rule, name, variant):
    """the case rules of serde_derive"""
    if variant:
        parts = re.findall(r"[A-Z][a-z0-9]*|[a-z0-9]+", name)
        return {
            "lowercase": name.lower(), "UPPERCASE": name.upper(), "PascalCase": name, "camelCase": name[:1].lower() + name[1:],
            "snake_case": "_".join(p.lower() for p in parts), "SCREAMING_SNAKE_CASE": "_".join(p.upper() for p in parts),
            "kebab-case": "-".join(p.lower() for p in parts), "SCREAMING-KEBAB-CASE": "-".join(p.upper() for p in parts),
        }.get(rule)
    parts = [p for p in name.split("_") if p]
    return {
        "lowercase": name, "UPPERCASE": name.upper(), "PascalCase": "".join(p.capitalize() for p in parts), "camelCase": camel(parts),
        "snake_case": name, "SCREAMING_SNAKE_CASE": name.upper(), "kebab-case": name.replace("_", "-"),
        "SCREAMING-KEBAB-CASE": name.upper().replace("_", "-"),
    }.get(rule)


class Rules:
    def __init__(self, d, rep):
        self.rep = rep
        self.adts = {a["p"]: a for a in d["adts"] if "::_::<impl" not in a["p"]}
        self.impls = {}
        for i in d["impls"]:
            t = i["trait"].split("::")[-1]
            if i["trait"].startswith("serde") and t in ("Serialize", "Deserialize"):
                self.impls.setdefault(i["self"], {})[t] = i
        self.short = lambda p: p.split("::")[-1]

    # -- names
    def pair(self, at, key):
        """(when writing, when reading)"""
        w = r = None
        for k, v in at:
            if k == key:
                if isinstance(v, list):
                    d = dict(v)
                    w, r = d.get("serialize", w), d.get("deserialize", r)
                else:
                    w = r = v
        return w, r

    def names(self, owner, ents, variant, key="rename_all"):
        """written and accepted names of the fields or variants of a type"""
        oat = owner
        rw, rr = self.pair(oat, key)
        out = []
        for n, at in ents:
            w, r = self.pair(at, "rename")
            if w is None:
                w = renamed(rw, n, variant) if rw else n
            if r is None:
                r = renamed(rr, n, variant) if rr else n
            acc = {r} | {v for k, v in at if k == "alias" and isinstance(v, str)}
            out.append((n, w, acc))
        return out

    def clash(self, what, names, o):
        rep = self.rep
        for n, w, acc in names:
            if w is None:
                rep.undecided(o, "a renaming rule the check does not know")
                continue
            if w not in acc:
                rep.bad("rename:%s.%s" % (what, n), "%s.%s is written as \"%s\" but read as %s" % (what, n, w, " or ".join('"%s"' % a for a in sorted(map(str, acc)))), o)
            for n2, w2, acc2 in names:
                if n2 != n and w in acc2:
                    rep.bad("clash:%s.%s" % (what, n), "%s.%s is written as \"%s\", which %s.%s also answers to" % (what, n, w, what, n2), o)

    def field(self, what, f, at, cat, o):
        """attributes of one field; what they do to a value on its way out and in again"""
        rep = self.rep
        keys = dict((k, v) for k, v in at)
        ty = f["ty"]
        phantom = "core::marker::PhantomData" in ty
        dflt = "default" in keys or any(k == "default" for k, v in cat)
        custom = keys.get("default") or dict(cat).get("default")
        opt = ty.startswith("core::option::Option<")
        for k, v in at:
            if k in ("skip", "skip_serializing", "skip_deserializing") and not phantom:
                rep.bad("skip:" + what, "%s is left out when it is %s (%s)" % (what, "read" if k == "skip_deserializing" else "written", k), o)
            elif k == "skip_serializing_if":
                ok = {"Option::is_none": "core::option::Option", "Vec::is_empty": "alloc::vec::Vec", "String::is_empty": "alloc::string::String",
                      "str::is_empty": "alloc::string::String", "std::option::Option::is_none": "core::option::Option", "<[_]>::is_empty": "alloc::vec::Vec"}.get(v)
                if opt and v and v.endswith("is_none") and not custom:
                    continue
                if not dflt:
                    rep.bad("skip_if:" + what, "%s may be left out when it is written (%s) but has no default when it is read" % (what, v), o)
                elif custom or not (ok and ty.startswith(ok)):
                    rep.undecided(o, "%s: whether the default is the value that was left out" % what)
            elif k in ("with", "serialize_with", "deserialize_with", "getter"):
                rep.undecided(o, "%s is written or read by code of its own (%s)" % (what, k))
            elif k == "flatten":
                rep.undecided(o, "%s is flattened" % what)
            elif k in ("rename", "alias", "other", "untagged") or k in HARMLESS:
                pass
            else:
                rep.undecided(o, "%s: an attribute the rule does not know: %s" % (what, k))

    # -- shapes, for representations without a tag around the value
    def shape(self, ty, depth=0):
        if depth > 8:
            return ("any",)
        if ty in ("alloc::string::String", "&str", "char"):
            return ("str",)
        if re.match(r"(u|i)(8|16|32|64|128|size)$", ty):
            return ("num",)
        if ty == "bool":
            return ("bool",)
        m = re.match(r"alloc::vec::Vec<(.*)>$", ty)
        if m:
            return ("seq", m.group(1))
        m = re.match(r"core::option::Option<(.*)>$", ty)
        if m:
            return ("opt", m.group(1))
        m = re.match(r"alloc::boxed::Box<(.*)>$", ty)
        if m:
            return self.shape(m.group(1), depth + 1)
        if ty.startswith("core::ops::range::Range<"):
            return ("map", {"start": True, "end": True}, ty)
        a = self.adts.get(ty)
        if a is None:
            return ("any",)
        at = attrs(a["at"])
        if a["enum"]:
            return ("enum", ty)
        v = a["vs"][0]
        if v["ctor"] == "tuple" and len(v["f"]) == 1 or any(k == "transparent" for k, _ in at) and len(v["f"]) == 1:
            return self.shape(v["f"][0]["ty"], depth + 1)
        if v["ctor"] == "unit":
            return ("null",)
        if v["ctor"] == "tuple":
            return ("seq", "?")
        ns = self.names(at, [(f["n"], attrs(f["at"])) for f in v["f"]], False)
        req = {}
        for f, (n, w, acc) in zip(v["f"], ns):
            fat = attrs(f["at"])
            req[w] = not (any(k == "default" for k, _ in fat + at) or f["ty"].startswith("core::option::Option<"))
        return ("map", req, ty)

    def accepts(self, a, b):
        """whether a value of shape b could be read as shape a: True, False or None (cannot tell)"""
        if "any" in (a[0], b[0]):
            return None
        if a[0] == "opt" or b[0] == "opt" or "enum" in (a[0], b[0]):
            return None
        if a[0] != b[0]:
            if {a[0], b[0]} == {"seq", "map"}:
                return None if a[0] == "map" else False
            return False
        if a[0] == "map":
            return all(not r or n in b[1] for n, r in a[1].items())
        return True         # text as text, list as list (an empty one at least)

    def type(self, p):
        a = self.adts[p]
        rep = self.rep
        o = "representation of " + p
        sh = self.short(p)
        im = self.impls.get(p, {})
        for t in ("Serialize", "Deserialize"):
            if t not in im:
                rep.bad("missing:%s:%s" % (t, sh), "%s (%s) does not implement %s" % (p, a["sp"], t), o)
                return
        hand = [t for t in im if not im[t]["derived"]]
        if hand:
            rep.undecided(o, "%s is written by hand (%s)" % (" and ".join(sorted(hand)), im[hand[0]]["sp"]))
            return
        at = attrs(a["at"])
        tag = content = None
        untagged = False
        for k, v in at:
            if k == "tag":
                tag = v
            elif k == "content":
                content = v
            elif k == "untagged":
                untagged = True
            elif k in ("rename", "rename_all", "rename_all_fields") or k in HARMLESS:
                pass
            else:
                rep.undecided(o, "an attribute the rule does not know: %s" % k)
        if not a["enum"]:
            v = a["vs"][0]
            ents = [(f["n"], attrs(f["at"])) for f in v["f"]]
            if v["ctor"] == "named":
                self.clash(sh, self.names(at, [e for e, f in zip(ents, v["f"])], False), o)
            for f in v["f"]:
                self.field("%s.%s" % (sh, f["n"]), f, attrs(f["at"]), at, o)
            rep.ok(o)
            return
        if tag and content and tag == content:
            rep.bad("tag:" + sh, "%s: tag and content have the same name" % sh, o)
        self.clash(sh, self.names(at, [(v["n"], attrs(v["at"])) for v in a["vs"]], True), o)
        shapes = []
        for v in a["vs"]:
            vat = attrs(v["at"])
            w = "%s::%s" % (sh, v["n"])
            for k, x in vat:
                if k in ("skip", "skip_serializing", "skip_deserializing"):
                    rep.bad("skip:" + w, "%s cannot be %s (%s)" % (w, "read" if k == "skip_deserializing" else "written", k), o)
                elif k == "untagged":
                    untagged = None
                elif k in ("with", "serialize_with", "deserialize_with"):
                    rep.undecided(o, "%s is written or read by code of its own" % w)
                elif k == "other":
                    rep.bad("other:" + w, "%s stands for every unknown variant" % w, o) if v["ctor"] != "unit" else None
                elif k in ("rename", "rename_all", "alias") or k in HARMLESS:
                    pass
                else:
                    rep.undecided(o, "%s: an attribute the rule does not know: %s" % (w, k))
            if v["ctor"] == "named":
                self.clash(w, self.names(vat if any(k == "rename_all" for k, _ in vat) else [("rename_all", x) for k, x in at if k == "rename_all_fields"],
                                         [(f["n"], attrs(f["at"])) for f in v["f"]], False), o)
            for f in v["f"]:
                self.field("%s.%s" % (w, f["n"]), f, attrs(f["at"]), [], o)
            if v["ctor"] == "unit":
                s = ("null",)
            elif v["ctor"] == "tuple" and len(v["f"]) == 1:
                s = self.shape(v["f"][0]["ty"])
            elif v["ctor"] == "tuple":
                s = ("seq", "?")
            else:
                s = ("map", {f["n"]: not f["ty"].startswith("core::option::Option<") for f in v["f"]}, w)
            shapes.append((w, s, v))
        if tag and not content and not untagged:
            for w, s, v in shapes:
                if v["ctor"] == "unit":
                    continue
                if s[0] in ("str", "num", "bool", "seq"):
                    rep.bad("internal:" + w, "%s cannot be written: its value is not an object the tag \"%s\" could be put into" % (w, tag), o)
                elif s[0] == "map" and tag in s[1]:
                    rep.bad("internal:" + w, "%s: the tag \"%s\" collides with a field of that name" % (w, tag), o)
                elif s[0] not in ("map", "null"):
                    rep.undecided(o, "%s: whether the tag fits its value" % w)
        if untagged:
            for i in range(len(shapes)):
                for j in range(i + 1, len(shapes)):
                    r = self.accepts(shapes[i][1], shapes[j][1])
                    if r:
                        rep.bad("untagged:%s" % sh, "%s, written without a tag, can be read back as %s" % (shapes[j][0], shapes[i][0]), o)
                    elif r is None:
                        rep.undecided(o, "whether %s can be read back as %s" % (shapes[j][0], shapes[i][0]))
        elif untagged is None:
            rep.undecided(o, "some variants have no tag")
        rep.ok(o)

    def reach(self, roots):
        seen, todo = set(), list(roots)
        while todo:
            p = todo.pop()
            if p in seen:
                continue
            seen.add(p)
            for v in self.adts[p]["vs"]:
                for f in v["f"]:
                    for q in re.findall(r"yamd::[A-Za-z0-9_:]+", f["ty"]):
                        if q in self.adts:
                            todo.append(q)
        return seen


def check(S, rep):
    import export, json
    with open(export.types(S.repo, S.dir)) as f:
        d = json.load(f)
    R = Rules(d, rep)
    roots = [p for p in R.adts if p.split("::")[-1] in ("Yamd", "Op") and R.adts[p]["vis"]]
    rep.require(len(roots) == 2, "types", "no Yamd and Op types")
    ts = R.reach(roots)
    # every exported node type, whether or not it is reached
    for p, a in R.adts.items():
        if a["vis"] and p.startswith("yamd::nodes::"):
            ts.add(p)
    for p in sorted(ts):
        R.type(p)
    rep.cov["types_checked"] = sorted(ts)
    rep.cov["serde_attributes"] = sum(len(attrs(a["at"])) + sum(len(attrs(v["at"])) + sum(len(attrs(f["at"])) for f in v["f"]) for v in a["vs"]) for a in R.adts.values())
