"""Evaluate a term over a finite set of strings it can be about (the markers the parser can produce)."""


class Unknown(Exception):
    pass


def cls(name, c):
    f = {"is_whitespace": str.isspace, "is_alphabetic": str.isalpha, "is_alphanumeric": str.isalnum, "is_uppercase": str.isupper, "is_lowercase": str.islower,
         "is_ascii_whitespace": lambda c: c in " \t\n\r\x0c", "is_ascii_digit": lambda c: c in "0123456789",
         "is_ascii_punctuation": lambda c: 32 < ord(c) < 127 and not c.isalnum(), "is_ascii_alphabetic": lambda c: c.isascii() and c.isalpha(),
         "is_ascii_alphanumeric": lambda c: c.isascii() and c.isalnum(), "is_numeric": str.isnumeric,
         "is_control": lambda c: ord(c) < 32 or 127 <= ord(c) < 160, "is_ascii_control": lambda c: ord(c) < 32 or ord(c) == 127,
         "is_ascii_uppercase": lambda c: "A" <= c <= "Z", "is_ascii_lowercase": lambda c: "a" <= c <= "z"}.get(name)
    if f is None:
        raise Unknown(name)
    return f(c)


def lam(l, c):
    """value of a one-character predicate"""
    for fs, b in l:
        ok = True
        for f in fs:
            if f[0] == "is" and f[1][0] == "cls" and f[1][1] == ("elem",):
                ok = ok and cls(f[1][2], c) == bool(f[2])
                continue
            if f[0] != "is" or f[1][0] not in ("eq", "lt", "le") or f[1][1] != ("elem",) or f[1][2][0] != "int":
                raise Unknown("predicate")
            o, k = ord(c), f[1][2][1]
            v = {"eq": o == k, "lt": o < k, "le": o <= k}[f[1][0]]
            if v != bool(f[2]):
                ok = False
        if ok:
            return bool(b)
    raise Unknown("predicate")


def pats(p):
    if p[0] == "lit" and len(p[1]) == 1:
        return lambda c: c == p[1]
    if p[0] == "anyof":
        return lambda c: c in p[1:]
    if p[0] == "class":
        return lambda c: cls(p[1], c)
    if p[0] == "lam":
        return lambda c: lam(p[1], c)
    raise Unknown("pattern")


def ev(t, env):
    if t in env:
        return env[t]
    k = t[0]
    if k in ("lit", "int"):
        return t[1]
    if k == "cat":
        return "".join(ev(x, env) for x in t[1:])
    if k in ("chars", "bytes"):
        return ev(t[1], env)
    if k == "takewhile":
        s = ev(t[1], env)
        i = 0
        while i < len(s) and lam(t[2], s[i]):
            i += 1
        return s[:i]
    if k == "filter":
        return "".join(c for c in ev(t[1], env) if lam(t[2], c))
    if k == "take":
        return ev(t[1], env)[: ev(t[2], env)]
    if k == "skip":
        return ev(t[1], env)[ev(t[2], env):]
    if k in ("count", "len"):
        return len(ev(t[1], env))
    if k == "cast":
        v = ev(t[2], env)
        if t[1] in ("u8", "u16", "u32", "u64", "usize"):
            return v & ((1 << {"u8": 8, "u16": 16, "u32": 32}.get(t[1], 64)) - 1)
        raise Unknown("cast to " + t[1])
    if k in ("add", "sub", "mul"):
        a, b = ev(t[1], env), ev(t[2], env)
        return {"add": a + b, "sub": a - b, "mul": a * b}[k]
    if k in ("eq", "lt", "le"):
        a, b = ev(t[1], env), ev(t[2], env)
        return {"eq": a == b, "lt": a < b, "le": a <= b}[k]
    if k == "empty":
        return not ev(t[1], env)
    if k in ("trim", "trim_start", "trim_end"):
        s = ev(t[1], env)
        return {"trim": s.strip, "trim_start": s.lstrip, "trim_end": s.rstrip}[k](" \t\n\r")
    if k in ("trim_matches", "trim_end_matches", "trim_start_matches"):
        s, f = ev(t[1], env), pats(t[2])
        if k != "trim_start_matches":
            while s and f(s[-1]):
                s = s[:-1]
        if k != "trim_end_matches":
            while s and f(s[0]):
                s = s[1:]
        return s
    if k in ("starts_with", "ends_with", "contains"):
        a, b = ev(t[1], env), ev(t[2], env)
        return {"starts_with": a.startswith(b), "ends_with": a.endswith(b), "contains": b in a}[k]
    raise Unknown(k)
