"""Native models of the standard-library operations the crate uses (containers, iterators, options)."""
from engine import I, K, B, TRUE, FALSE, UNIT, UNK, shift, Undecided


def some(E, v):
    return ("a", E.OPT, 1, (v,))


def none(E):
    return ("a", E.OPT, 0, ())


def optty(E):
    E.p.types.append({"k": "enum", "p": "core::option::Option", "s": "Option<_>", "args": [],
                      "vs": [{"n": "None", "f": [], "d": 0}, {"n": "Some", "f": [["0", 0]], "d": 1}]})
    E.OPT = len(E.p.types) - 1
    E.p.types.append({"k": "enum", "p": "core::result::Result", "s": "Result<_>", "args": [],
                      "vs": [{"n": "Ok", "f": [["0", 0]], "d": 0}, {"n": "Err", "f": [["0", 0]], "d": 1}]})
    E.RES = len(E.p.types) - 1
    E.p.types.append({"k": "struct", "p": "core::ops::range::Range", "s": "Range<_>", "args": [],
                      "vs": [{"n": "Range", "f": [["start", 0], ["end", 0]], "d": 0}]})
    E.RNG = len(E.p.types) - 1


# ------------------------------------------------------------------ containers
def target(E, st, ref):
    """(obj, path, value) behind a reference"""
    if ref[0] == "r":
        return ref[1], ref[2], E.load(st, ref[1], ref[2])
    return None


def as_slice(E, st, v):
    """view a reference to a sequence as a slice"""
    if v[0] == "sl":
        return v
    if v[0] == "r":
        x = E.load(st, v[1], v[2])
        if x[0] in ("r", "sl"):
            return as_slice(E, st, x)
        n = seq_len(E, st, x)
        if n is not None:
            return ("sl", v[1], v[2], K(0), n)
    return None


def seq_len(E, st, x):
    if x[0] == "vec":
        if any(e == ("Base",) for e in x[1]):
            return K(len(x[1]))
        return K(len(x[1]))
    return E.seqlen(st, x)


def m_deref(E, st, d, args, ctx):
    v = args[0]
    if v[0] == "r":
        x = E.load(st, v[1], v[2])
        if x[0] == "vec" or seq_len(E, st, x) is not None:
            return [(st, ("sl", v[1], v[2], K(0), seq_len(E, st, x)))]
    if v[0] == "sl":
        return [(st, v)]
    return E.client.m_deref(E, st, d, args, ctx) if E.client else None


def m_len(E, st, d, args, ctx):
    v = args[0]
    if v[0] == "sl":
        return [(st, E.sub(st, v[4], v[3]))]
    t = target(E, st, v)
    if t:
        r = E.client.len_of(E, st, *t)
        if r is not None:
            return r
        n = seq_len(E, st, t[2])
        if n is not None:
            return [(st, n)]
    return None


def m_vec_new(E, st, d, args, ctx):
    r = E.client.vec_new(E, st, ctx) if E.client else None
    return r if r is not None else [(st, ("vec", ()))]


def m_push(E, st, d, args, ctx):
    t = target(E, st, args[0])
    if not t:
        return None
    obj, path, x = t
    r = E.client.vec_push(E, st, obj, path, x, args[1], ctx)
    if r is not None:
        return r
    if x[0] == "vec" and len(x[1]) < 12:
        E.store(st, obj, path, ("vec", x[1] + (args[1],)), hook=False)
        return [(st, UNIT)]
    return None


def m_pop(E, st, d, args, ctx):
    t = target(E, st, args[0])
    if not t:
        return None
    obj, path, x = t
    r = E.client.vec_pop(E, st, obj, path, x, ctx)
    if r is not None:
        return r
    if x[0] == "vec":
        if not x[1]:
            return [(st, none(E))]
        if x[1][-1] != ("Base",):
            E.store(st, obj, path, ("vec", x[1][:-1]), hook=False)
            return [(st, some(E, x[1][-1]))]
    return None


def m_truncate(E, st, d, args, ctx):
    t = target(E, st, args[0])
    if not t:
        return None
    obj, path, x = t
    r = E.client.vec_truncate(E, st, obj, path, x, args[1], ctx)
    if r is not None:
        return r
    if x[0] == "vec":
        c = st.const(args[1]) if args[1][0] == "i" else None
        if c is not None and ("Base",) not in x[1]:
            E.store(st, obj, path, ("vec", x[1][:c]), hook=False)
            return [(st, UNIT)]
    return None


def m_insert(E, st, d, args, ctx):
    t = target(E, st, args[0])
    if not t:
        return None
    obj, path, x = t
    r = E.client.vec_insert(E, st, obj, path, x, args[1], args[2], ctx)
    if r is not None:
        return r
    return None


def m_clear(E, st, d, args, ctx):
    t = target(E, st, args[0])
    if t and t[2][0] == "vec":
        E.store(st, t[0], t[1], ("vec", ()), hook=False)
        return [(st, UNIT)]
    return None


def m_extend(E, st, d, args, ctx):
    """Vec::extend / extend_from_slice with a short explicit source"""
    t = target(E, st, args[0])
    if not t:
        return None
    obj, path, x = t
    r = E.client.vec_extend(E, st, obj, path, x, args[1], ctx)
    if r is not None:
        return r
    if x[0] == "vec":
        s = as_slice(E, st, args[1])
        if s is not None:
            lo, hi = st.const(s[3]), st.const(s[4])
            if lo is not None and hi is not None and hi - lo <= 8:
                new = x[1] + tuple(E.load(st, s[1], s[2] + (("ix", K(i)),)) for i in range(lo, hi))
                E.store(st, obj, path, ("vec", new), hook=False)
                return [(st, UNIT)]
    return None


def range_of(E, st, v):
    """(lo, hi) of a range value; None for an open end"""
    if v[0] == "trng":
        return E.client.trange(E, st, v)
    if v[0] != "a":
        return None
    p = E.p.types[v[1]].get("p") or ""
    n = p.rsplit("::", 1)[-1]
    f = v[3]
    if n == "Range" and len(f) >= 2:
        return f[0], f[1]
    if n == "RangeFrom":
        return f[0], None
    if n == "RangeTo":
        return None, f[0]
    if n == "RangeFull":
        return None, None
    if n == "RangeInclusive" and f[0][0] == "i" and f[1][0] == "i":
        return f[0], shift(f[1], 1)
    if n == "RangeToInclusive":
        return None, shift(f[0], 1)
    return None


def m_slice_get(E, st, d, args, ctx):
    s = as_slice(E, st, args[0])
    if s is None:
        return None
    ix = args[1]
    if ix[0] == "i":
        n = E.sub(st, s[4], s[3])
        out = []
        for s2, t in E.compare(st, "Lt", ix, n):
            if t == TRUE:
                at = E.add(s2, s[3], ix)
                out.append((s2, some(E, ("r", s[1], s[2] + (("ix", at),)))))
            else:
                out.append((s2, none(E)))
        return out
    r = range_of(E, st, ix)
    if r is not None:
        out = []
        for s2, lo, hi, ok in sub_range(E, st, s, r):
            out.append((s2, some(E, ("sl", s[1], s[2], lo, hi)) if ok else none(E)))
        return out
    return None


def sub_range(E, st, s, r):
    """(state, lo, hi, in-bounds?) of s[r]"""
    lo = s[3] if r[0] is None else E.add(st, s[3], r[0])
    hi = s[4] if r[1] is None else E.add(st, s[3], r[1])
    out = []
    for s1, a in E.compare(st, "Le", lo, hi):
        if a == FALSE:
            out.append((s1, lo, hi, False))
            continue
        for s2, b in E.compare(s1, "Le", hi, s[4]):
            out.append((s2, lo, hi, b == TRUE))
    return out


def m_index(E, st, d, args, ctx):
    s = as_slice(E, st, args[0])
    if s is None:
        return None
    ix = args[1]
    out = []
    if ix[0] == "i":
        n = E.sub(st, s[4], s[3])
        for s2, t in E.compare(st, "Lt", ix, n):
            if t == TRUE:
                out.append((s2, ("r", s[1], s[2] + (("ix", E.add(s2, s[3], ix)),))))
            else:
                E.panic(s2, "index out of bounds")
        return out
    r = range_of(E, st, ix)
    if r is None:
        return None
    for s2, lo, hi, ok in sub_range(E, st, s, r):
        if ok:
            out.append((s2, ("sl", s[1], s[2], lo, hi)))
        else:
            E.panic(s2, "slice index out of range")
    return out


def ends(last):
    def m(E, st, d, args, ctx):
        s = as_slice(E, st, args[0])
        if s is None:
            return None
        out = []
        for s2, t in E.compare(st, "Lt", s[3], s[4]):
            if t == TRUE:
                at = shift(s[4], -1) if last else s[3]
                out.append((s2, some(E, ("r", s[1], s[2] + (("ix", at),)))))
            else:
                out.append((s2, none(E)))
        return out
    return m


def m_slice_is_empty(E, st, d, args, ctx):
    s = as_slice(E, st, args[0])
    if s is None:
        return None
    return E.compare(st, "Ge", s[3], s[4])


def m_split_at(E, st, d, args, ctx):
    s = as_slice(E, st, args[0])
    if s is None or args[1][0] != "i":
        return None
    mid = E.add(st, s[3], args[1])
    out = []
    for s2, t in E.compare(st, "Le", mid, s[4]):
        if t == TRUE:
            out.append((s2, ("a", 0, 0, (("sl", s[1], s[2], s[3], mid), ("sl", s[1], s[2], mid, s[4])))))
        else:
            E.panic(s2, "split_at out of bounds")
    return out


# ------------------------------------------------------------------ iterators
ITS = ("sit", "map", "filter", "enumerate", "rev", "skip", "take", "win", "copied", "chain", "takewhile", "zip", "once")


def to_iter(E, st, v):
    if v[0] in ITS:
        return v
    if v[0] == "sl":
        return ("sit",) + v[1:]
    if v[0] == "r":
        x = E.load(st, v[1], v[2])
        if x[0] in ITS or is_range(E, x):
            return ("byref", v)
        s = as_slice(E, st, v)
        if s is not None:
            return ("sit",) + s[1:]
    if is_range(E, v):
        return v
    return None


def is_range(E, v):
    if v[0] == "trng":
        return True
    return v[0] == "a" and (E.p.types[v[1]].get("p") or "").startswith("core::ops::range::Range")


def it_next(E, st, d, it, back=False):
    """list of (state, next iterator, item or None)"""
    k = it[0]
    if hasattr(E.client, "it_hook"):
        r = E.client.it_hook(E, st, d, it, back)
        if r is not None:
            return r
    if k == "sit":
        out = []
        for s, t in E.compare(st, "Lt", it[3], it[4]):
            if t == TRUE:
                if back:
                    e = shift(it[4], -1)
                    out.append((s, ("sit", it[1], it[2], it[3], e), ("r", it[1], it[2] + (("ix", e),))))
                else:
                    out.append((s, ("sit", it[1], it[2], shift(it[3], 1), it[4]), ("r", it[1], it[2] + (("ix", it[3]),))))
            else:
                out.append((s, it, None))
        return out
    if k == "win" and not back:
        out = []
        n = it[5]
        for s, t in E.compare(st, "Le", shift(it[3], n), it[4]):
            if t == TRUE:
                out.append((s, ("win", it[1], it[2], shift(it[3], 1), it[4], n), ("sl", it[1], it[2], it[3], shift(it[3], n))))
            else:
                out.append((s, it, None))
        return out
    if k == "rev":
        return [(s, ("rev", i2), x) for s, i2, x in it_next(E, st, d, it[1], not back)]
    if k == "map":
        out = []
        for s, i2, x in it_next(E, st, d, it[1], back):
            if x is None:
                out.append((s, ("map", i2, it[2]), None))
            else:
                for s2, y in E.call_value(s, d, it[2], [x]):
                    out.append((s2, ("map", i2, it[2]), y))
        return out
    if k == "copied":
        out = []
        for s, i2, x in it_next(E, st, d, it[1], back):
            if x is not None and x[0] == "r":
                x = E.load(s, x[1], x[2])
            out.append((s, ("copied", i2), x))
        return out
    if k == "enumerate" and not back:
        out = []
        for s, i2, x in it_next(E, st, d, it[1]):
            if x is None:
                out.append((s, ("enumerate", i2, it[2]), None))
            else:
                out.append((s, ("enumerate", i2, shift(it[2], 1)), ("a", 0, 0, (it[2], x))))
        return out
    if k == "filter":
        # one underlying step per call; a rejected element is skipped by looping in the consumer
        out = []
        for s, i2, x in it_next(E, st, d, it[1], back):
            if x is None:
                out.append((s, ("filter", i2, it[2]), None))
                continue
            tmp = fresh_obj(s, d, "flt")
            s.mem[tmp] = x
            for s2, v in E.call_value(s, d, it[2], [("r", tmp, ())]):
                for s3, b in E.truth(s2, v):
                    y = s3.mem.get(tmp)
                    s3.mem.pop(tmp, None)
                    out.append((s3, ("filter", i2, it[2]), y if b else ("SKIP",)))
        return out
    if k == "takewhile" and not back:
        out = []
        if it[3] == 1:
            return [(st, it, None)]
        for s, i2, x in it_next(E, st, d, it[1]):
            if x is None or x == ("SKIP",):
                out.append((s, ("takewhile", i2, it[2], it[3]), x))
                continue
            tmp = fresh_obj(s, d, "tkw")
            s.mem[tmp] = x
            for s2, v in E.call_value(s, d, it[2], [("r", tmp, ())]):
                for s3, b in E.truth(s2, v):
                    y = s3.mem.get(tmp)
                    s3.mem.pop(tmp, None)
                    out.append((s3, ("takewhile", i2, it[2], 0 if b else 1), y if b else None))
        return out
    if k == "take" and not back:
        out = []
        for s, t in E.compare(st, "Gt", it[2], K(0)):
            if t == FALSE:
                out.append((s, it, None))
            else:
                for s2, i2, x in it_next(E, s, d, it[1]):
                    out.append((s2, ("take", i2, shift(it[2], -1) if x != ("SKIP",) else it[2]), x))
        return out
    if k == "skip" and not back and it[1][0] == "sit":
        s0 = it[1]
        nl = E.add(st, s0[3], it[2])
        out = []
        for s, t in E.compare(st, "Le", nl, s0[4]):
            lo = nl if t == TRUE else s0[4]
            out.extend(it_next(E, s, d, ("sit", s0[1], s0[2], lo, s0[4])))
        return out
    if k == "chain" and not back:
        out = []
        for s, i2, x in it_next(E, st, d, it[1]):
            if x is not None:
                out.append((s, ("chain", i2, it[2]), x))
            else:
                out.extend(it_next(E, s, d, it[2]))
        return out
    if k == "zip" and not back:
        out = []
        for s, i2, x in it_next(E, st, d, it[1]):
            if x is None or x == ("SKIP",):
                out.append((s, ("zip", i2, it[2]), x))
                continue
            for s2, j2, y in it_next(E, s, d, it[2]):
                if y == ("SKIP",):
                    raise Undecided("zip over filter")
                out.append((s2, ("zip", i2, j2), None if y is None else ("a", 0, 0, (x, y))))
        return out
    if k == "once":
        return [(st, ("once", None), it[1])] if it[1] is not None else [(st, it, None)]
    if k == "byref":
        r = it[1]
        x = E.load(st, r[1], r[2])
        out = []
        for s, i2, y in it_next(E, st, d, x, back):
            E.store(s, r[1], r[2], i2, hook=False)
            out.append((s, it, y))
        return out
    if k == "trng" and E.client:
        lo, hi = E.client.trange(E, st, it)
        return it_next(E, st, d, ("a", E.RNG, 0, (lo, hi)), back)
    if k == "a" and is_range(E, it):
        n = E.p.types[it[1]]["p"].rsplit("::", 1)[-1]
        f = it[3]
        if n == "Range" and f[0][0] == "i" and f[1][0] == "i":
            out = []
            for s, t in E.compare(st, "Lt", f[0], f[1]):
                if t == TRUE:
                    if back:
                        e = shift(f[1], -1)
                        out.append((s, ("a", it[1], 0, (f[0], e)), e))
                    else:
                        out.append((s, ("a", it[1], 0, (shift(f[0], 1), f[1])), f[0]))
                else:
                    out.append((s, it, None))
            return out
        if n == "RangeFrom" and f[0][0] == "i" and not back:
            return [(st, ("a", it[1], 0, (shift(f[0], 1),)), f[0])]
        if n == "RangeInclusive" and f[0][0] == "i" and f[1][0] == "i" and len(f) == 3 and not back:
            out = []
            for s, ex in E.truth(st, f[2]):
                if ex:
                    out.append((s, it, None))
                    continue
                for s2, t in E.compare(s, "Le", f[0], f[1]):
                    if t == FALSE:
                        out.append((s2, it, None))
                        continue
                    for s3, u in E.compare(s2, "Lt", f[0], f[1]):
                        if u == TRUE:
                            out.append((s3, ("a", it[1], 0, (shift(f[0], 1), f[1], FALSE)), f[0]))
                        else:
                            out.append((s3, ("a", it[1], 0, (f[0], f[1], TRUE)), f[0]))
            return out
    if E.client:
        r = E.client.it_next(E, st, d, it, back)
        if r is not None:
            return r
    raise Undecided("iterator %s" % (it[0],))


def fresh_obj(st, d, tag):
    n = 0
    while (d, "%s%d" % (tag, n)) in st.mem:
        n += 1
    return (d, "%s%d" % (tag, n))


def m_iter(E, st, d, args, ctx):
    s = as_slice(E, st, args[0])
    if s is None:
        return None
    return [(st, ("sit",) + s[1:])]


def m_into_iter(E, st, d, args, ctx):
    it = to_iter(E, st, args[0])
    if it is None:
        if E.client:
            return E.client.m_into_iter(E, st, d, args, ctx)
        return None
    if it[0] == "byref":
        return [(st, args[0])]
    return [(st, it)]


def m_windows(E, st, d, args, ctx):
    s = as_slice(E, st, args[0])
    c = st.const(args[1]) if args[1][0] == "i" else None
    if s is None or not c:
        return None
    return [(st, ("win", s[1], s[2], s[3], s[4], c))]


def adaptor(kind, extra=None):
    def m(E, st, d, args, ctx):
        it = to_iter(E, st, args[0])
        if it is None:
            if E.client:
                it = E.client.to_iter(E, st, args[0])
            if it is None:
                return None
        if extra is not None:
            return [(st, (kind, it) + extra)]
        if kind in ("chain", "zip"):
            j = to_iter(E, st, args[1])
            if j is None:
                return None
            return [(st, (kind, it, j))]
        if kind == "takewhile":
            return [(st, (kind, it, args[1], 0))]
        return [(st, (kind, it) + tuple(args[1:]))]
    return m


def m_next(E, st, d, args, ctx, back=False):
    r = args[0]
    if r[0] != "r":
        return None
    x = E.load(st, r[1], r[2])
    if not (x[0] in ITS or is_range(E, x) or x[0] == "byref"):
        if E.client:
            return E.client.m_next(E, st, d, args, ctx)
        return None
    if x[0] in ("filter",):
        return consume(E, st, d, ("byref", r), lambda s, y: ([], [(s, some(E, y))]), lambda s: [(s, none(E))])
    out = []
    for s, i2, y in it_next(E, st, d, x, back):
        if y == ("SKIP",):
            raise Undecided("filtered iterator")
        E.store(s, r[1], r[2], i2, hook=False)
        out.append((s, none(E) if y is None else some(E, y)))
    return out


def m_next_back(E, st, d, args, ctx):
    return m_next(E, st, d, args, ctx, True)


def consume(E, st, d, it, on, end, extra=None):
    """run an iterator to completion; on(state, item) -> (continue states, exits)"""
    slot = fresh_obj(st, d, "it")
    st.mem[slot] = it

    def step(s):
        cont, ex = [], []
        cur = s.mem[slot]
        for s2, i2, y in it_next(E, s, d, cur):
            s2.mem[slot] = i2
            if y is None:
                for s3, v in end(s2):
                    s3.mem.pop(slot, None)
                    ex.append((s3, v))
            elif y == ("SKIP",):
                cont.append(s2)
            else:
                c, x = on(s2, y)
                cont.extend(c)
                for s3, v in x:
                    s3.mem.pop(slot, None)
                    ex.append((s3, v))
        return cont, ex
    return E.loop(st, d, step, slot)


def getit(E, st, args):
    it = to_iter(E, st, args[0])
    if it is None and E.client:
        it = E.client.to_iter(E, st, args[0])
    return it


def m_any(E, st, d, args, ctx):
    it = getit(E, st, args)
    if it is None:
        return None
    f = args[1]

    def on(s, y):
        c, x = [], []
        for s2, v in E.call_value(s, d, f, [y]):
            for s3, b in E.truth(s2, v):
                (x if b else c).append((s3, TRUE) if b else s3)
        return c, x
    return consume(E, st, d, it, on, lambda s: [(s, FALSE)])


def m_all(E, st, d, args, ctx):
    it = getit(E, st, args)
    if it is None:
        return None
    f = args[1]

    def on(s, y):
        c, x = [], []
        for s2, v in E.call_value(s, d, f, [y]):
            for s3, b in E.truth(s2, v):
                if b:
                    c.append(s3)
                else:
                    x.append((s3, FALSE))
        return c, x
    return consume(E, st, d, it, on, lambda s: [(s, TRUE)])


def m_find(E, st, d, args, ctx):
    it = getit(E, st, args)
    if it is None:
        return None
    f = args[1]

    def on(s, y):
        c, x = [], []
        tmp = fresh_obj(s, d, "fnd")
        s.mem[tmp] = y
        for s2, v in E.call_value(s, d, f, [("r", tmp, ())]):
            for s3, b in E.truth(s2, v):
                z = s3.mem.pop(tmp, y)
                if b:
                    x.append((s3, some(E, z)))
                else:
                    c.append(s3)
        return c, x
    return consume(E, st, d, it, on, lambda s: [(s, none(E))])


def m_position(E, st, d, args, ctx):
    it = getit(E, st, args)
    if it is None:
        return None
    cnt = fresh_obj(st, d, "cnt")
    st.mem[cnt] = K(0)
    f = args[1]

    def on(s, y):
        c, x = [], []
        for s2, v in E.call_value(s, d, f, [y]):
            for s3, b in E.truth(s2, v):
                n = s3.mem[cnt]
                if b:
                    s3.mem.pop(cnt)
                    x.append((s3, some(E, n)))
                else:
                    s3.mem[cnt] = shift(n, 1)
                    c.append(s3)
        return c, x

    def end(s):
        s.mem.pop(cnt)
        return [(s, none(E))]
    return consume(E, st, d, it, on, end)


def m_count(E, st, d, args, ctx):
    it = getit(E, st, args)
    if it is None:
        return None
    cnt = fresh_obj(st, d, "cnt")
    st.mem[cnt] = K(0)

    def on(s, y):
        s.mem[cnt] = shift(s.mem[cnt], 1)
        return [s], []

    def end(s):
        return [(s, s.mem.pop(cnt))]
    return consume(E, st, d, it, on, end)


def m_for_each(E, st, d, args, ctx):
    it = getit(E, st, args)
    if it is None:
        return None

    def on(s, y):
        return [s2 for s2, v in E.call_value(s, d, args[1], [y])], []
    return consume(E, st, d, it, on, lambda s: [(s, UNIT)])


def m_last(E, st, d, args, ctx):
    it = getit(E, st, args)
    if it is None or it[0] != "sit":
        return None
    return ends(True)(E, st, d, [("sl",) + it[1:]], ctx)


# ------------------------------------------------------------------ ranges
def m_range_is_empty(E, st, d, args, ctx):
    t = target(E, st, args[0])
    if not t:
        return None
    r = range_of(E, st, t[2])
    if r is None or r[0] is None or r[1] is None or r[0][0] != "i" or r[1][0] != "i":
        return None
    return E.compare(st, "Ge", r[0], r[1])


def m_range_contains(E, st, d, args, ctx):
    t = target(E, st, args[0])
    x = target(E, st, args[1])
    if not t or not x:
        return None
    v = x[2]
    if t[2][0] == "a" and v[0] in ("tlen", "tcol", "i"):
        r = range_of(E, st, t[2])
        if r is None:
            return None
        out = []
        cur = [(st, TRUE)]
        if r[0] is not None:
            cur = E.compare(st, "Ge", v, r[0])
        for s, b in cur:
            if b == FALSE:
                out.append((s, FALSE))
            elif r[1] is None:
                out.append((s, TRUE))
            else:
                out.extend(E.compare(s, "Lt", v, r[1]))
        return out
    return None


def m_range_len(E, st, d, args, ctx):
    t = target(E, st, args[0])
    if not t:
        return None
    v = t[2]
    if v[0] == "trng":
        return [(st, ("tlen", v[1]))]
    if v[0] == "sit":
        return [(st, E.sub(st, v[4], v[3]))]
    r = range_of(E, st, v)
    if r is None or r[0] is None or r[1] is None or r[0][0] != "i" or r[1][0] != "i":
        return None
    out = []
    for s, b in E.compare(st, "Lt", r[0], r[1]):
        out.append((s, E.sub(s, r[1], r[0]) if b == TRUE else K(0)))
    return out


def m_rangeincl_new(E, st, d, args, ctx):
    ty = None
    for i, t in enumerate(E.p.types):
        if t["k"] == "struct" and (t.get("p") or "").endswith("RangeInclusive"):
            ty = i
            break
    if ty is None:
        return None
    return [(st, ("a", ty, 0, (args[0], args[1], FALSE)))]


# ------------------------------------------------------------------ options
def opt_cases(E, st, obj, path):
    """resolve the Option at a location: list of (state, None | payload ref)"""
    v = E.load(st, obj, path)
    if v[0] == "L":
        out = []
        for s, dv in E.discr_at(st, obj, path, v):
            out.append((s, E.load(s, obj, path)))
        return out
    return [(st, v)]


def m_get_or_insert(E, st, d, args, ctx):
    r = args[0]
    if r[0] != "r":
        return None
    out = []
    for s, v in opt_cases(E, st, r[1], r[2]):
        if v[0] != "a":
            return None
        if v[2] == 0:
            E.store(s, r[1], r[2], ("a", v[1], 1, (args[1],)), hook=False)
        out.append((s, ("r", r[1], r[2] + (("v", 1), ("f", 0)))))
    return out


def m_get_or_insert_with(E, st, d, args, ctx):
    r = args[0]
    if r[0] != "r":
        return None
    out = []
    for s, v in opt_cases(E, st, r[1], r[2]):
        if v[0] != "a":
            return None
        if v[2] == 0:
            for s2, x in E.call_value(s, d, args[1], []):
                E.store(s2, r[1], r[2], ("a", v[1], 1, (x,)), hook=False)
                out.append((s2, ("r", r[1], r[2] + (("v", 1), ("f", 0)))))
        else:
            out.append((s, ("r", r[1], r[2] + (("v", 1), ("f", 0)))))
    return out


def m_opt_take(E, st, d, args, ctx):
    r = args[0]
    if r[0] != "r":
        return None
    out = []
    for s, v in opt_cases(E, st, r[1], r[2]):
        if v[0] != "a":
            return None
        E.store(s, r[1], r[2], ("a", v[1], 0, ()), hook=False)
        out.append((s, v))
    return out


def m_opt_replace(E, st, d, args, ctx):
    r = args[0]
    if r[0] != "r":
        return None
    out = []
    for s, v in opt_cases(E, st, r[1], r[2]):
        if v[0] != "a":
            return None
        E.store(s, r[1], r[2], ("a", v[1], 1, (args[1],)), hook=False)
        out.append((s, v))
    return out


def m_opt_insert(E, st, d, args, ctx):
    r = args[0]
    if r[0] != "r":
        return None
    v = E.load(st, r[1], r[2])
    ty = v[1] if v[0] in ("a", "L") else E.OPT
    E.store(st, r[1], r[2], ("a", ty, 1, (args[1],)), hook=False)
    return [(st, ("r", r[1], r[2] + (("v", 1), ("f", 0))))]


def m_opt_isnone(neg):
    def m(E, st, d, args, ctx):
        r = args[0]
        if r[0] != "r":
            return None
        out = []
        for s, v in opt_cases(E, st, r[1], r[2]):
            if v[0] != "a":
                return None
            out.append((s, B((v[2] == 0) != neg)))
        return out
    return m


def m_unwrap(what, good):
    def m(E, st, d, args, ctx):
        v = args[0]
        tmp = fresh_obj(st, d, "unw")
        st.mem[tmp] = v
        out = []
        for s, x in opt_cases(E, st, tmp, ()):
            s.mem.pop(tmp, None)
            if x[0] != "a":
                return None
            if x[2] == good:
                out.append((s, x[3][0]))
            else:
                E.panic(s, what)
        return out
    return m


def m_mem_take(E, st, d, args, ctx):
    t = target(E, st, args[0])
    if not t:
        return None
    obj, path, x = t
    r = E.client.mem_take(E, st, obj, path, x)
    if r is not None:
        return r
    if x[0] == "vec":
        E.store(st, obj, path, ("vec", ()), hook=False)
        return [(st, x)]
    if x[0] == "a" and E.p.types[x[1]].get("p") == "core::option::Option":
        E.store(st, obj, path, ("a", x[1], 0, ()), hook=False)
        return [(st, x)]
    if x[0] == "i":
        E.store(st, obj, path, K(0), hook=False)
        return [(st, x)]
    if x[0] == "b":
        E.store(st, obj, path, FALSE, hook=False)
        return [(st, x)]
    if x[0] == "str":
        E.store(st, obj, path, ("str", ("empty",)), hook=False)
        return [(st, x)]
    return None


def m_mem_replace(E, st, d, args, ctx):
    t = target(E, st, args[0])
    if not t:
        return None
    obj, path, x = t
    E.store(st, obj, path, args[1])
    return [(st, x)]


def m_mem_swap(E, st, d, args, ctx):
    t, u = target(E, st, args[0]), target(E, st, args[1])
    if not t or not u:
        return None
    E.store(st, t[0], t[1], u[2])
    E.store(st, u[0], u[1], t[2])
    return [(st, UNIT)]


def m_discriminant(E, st, d, args, ctx):
    r = args[0]
    if r[0] != "r":
        return None
    return E.discr_at(st, r[1], r[2], E.load(st, r[1], r[2]))


def m_clone(E, st, d, args, ctx):
    t = target(E, st, args[0])
    if not t:
        if args[0][0] == "s":
            return [(st, args[0])]
        return None
    return [(st, t[2])]


def m_ident(E, st, d, args, ctx):
    return [(st, args[0])]


def m_panic(E, st, d, args, ctx):
    E.panic(st, "explicit panic")
    return []


def m_ptr_eq(neg):
    """<&A as PartialEq<&B>>::eq : compare the referents"""
    def m(E, st, d, args, ctx):
        ts = [target(E, st, a) for a in args]
        if not all(ts):
            return None
        a, b = ts[0][2], ts[1][2]
        c = ctx["callee"].get("args") or []
        if a[0] == "r" and b[0] == "r":
            return m_value_eq(neg)(E, st, d, [a, b], ctx)
        return None
    return m


def m_value_eq(neg):
    def m(E, st, d, args, ctx):
        ts = [target(E, st, a) for a in args]
        if not all(ts):
            return None
        a, b = ts[0][2], ts[1][2]
        return eq_values(E, st, ts[0], ts[1], neg)
    return m


def eq_values(E, st, t1, t2, neg=False):
    a, b = t1[2], t2[2]
    simple = ("i", "b", "tlen", "tcol", "bt", "td")
    if a[0] in simple and b[0] in simple:
        return E.compare(st, "Ne" if neg else "Eq", a, b)
    if a[0] == "a" and b[0] == "a" and E.p.types[a[1]]["k"] == "enum":
        if a[2] != b[2]:
            return [(st, B(neg))]
        if not a[3]:
            return [(st, B(not neg))]
    if a[0] == "a" and b[0] == "a" and a[2] == b[2] and len(a[3]) == len(b[3]):
        states = [(st, True)]
        for i, (x, y) in enumerate(zip(a[3], b[3])):
            ns = []
            for s, ok in states:
                if not ok:
                    ns.append((s, False))
                    continue
                r = eq_values(E, s, (None, None, x), (None, None, y))
                if r is None:
                    return None
                for s2, v in r:
                    for s3, t in E.truth(s2, v):
                        ns.append((s3, bool(t)))
            states = ns
        return [(s, B(ok != neg)) for s, ok in states]
    if E.client:
        return E.client.eq_values(E, st, a, b, neg)
    return None


def m_minmax(mx):
    def m(E, st, d, args, ctx):
        a, b = args
        if a[0] != "i" or b[0] != "i":
            return None
        out = []
        for s, t in E.compare(st, "Le", a, b):
            out.append((s, (b if mx else a) if t == TRUE else (a if mx else b)))
        return out
    return m


def m_satsub(E, st, d, args, ctx):
    a, b = args
    if a[0] != "i" or b[0] != "i":
        return None
    out = []
    for s, t in E.compare(st, "Ge", a, b):
        out.append((s, E.sub(s, a, b) if t == TRUE else K(0)))
    return out


def m_satadd(E, st, d, args, ctx):
    a, b = args
    if a[0] != "i" or b[0] != "i":
        return None
    return [(st, E.add(st, a, b))]


def m_checked_sub(E, st, d, args, ctx):
    a, b = args
    if a[0] != "i" or b[0] != "i":
        return None
    out = []
    for s, t in E.compare(st, "Ge", a, b):
        out.append((s, some(E, E.sub(s, a, b)) if t == TRUE else none(E)))
    return out


def m_checked_add(E, st, d, args, ctx):
    r = m_satadd(E, st, d, args, ctx)
    return r and [(s, some(E, v)) for s, v in r]


def m_fn_call(E, st, d, args, ctx):
    """Fn::call(&f, (args,)) and friends on values the engine can see through"""
    f = args[0]
    tup = args[1]
    if tup[0] == "a":
        return E.call_value(st, d, f, list(tup[3]))
    return None


def m_opt_as_ref(E, st, d, args, ctx):
    r = args[0]
    if r[0] != "r":
        return None
    out = []
    for s, v in opt_cases(E, st, r[1], r[2]):
        if v[0] != "a":
            return None
        out.append((s, none(E) if v[2] == 0 else some(E, ("r", r[1], r[2] + (("v", 1), ("f", 0))))))
    return out


def m_opt_copied(E, st, d, args, ctx):
    v = args[0]
    if v[0] != "a":
        return None
    if v[2] == 0:
        return [(st, none(E))]
    x = v[3][0]
    if x[0] == "r":
        return [(st, some(E, E.load(st, x[1], x[2])))]
    return None


def install(E):
    optty(E)
    M = E.models
    V = "alloc::vec::Vec::<T, A>::"
    for n in ("len",):
        M[V + n] = m_len
    M["alloc::vec::Vec::<T>::new"] = m_vec_new
    M["alloc::vec::Vec::<T>::with_capacity"] = m_vec_new
    M["<alloc::vec::Vec<T> as core::default::Default>::default"] = m_vec_new
    M[V + "push"] = m_push
    M[V + "pop"] = m_pop
    M[V + "truncate"] = m_truncate
    M[V + "insert"] = m_insert
    M[V + "clear"] = m_clear
    M[V + "extend_from_slice"] = m_extend
    M["<alloc::vec::Vec<T, A> as core::iter::traits::collect::Extend<&'a T>>::extend"] = m_extend
    M["<alloc::vec::Vec<T, A> as core::iter::traits::collect::Extend<T>>::extend"] = m_extend
    M[V + "as_slice"] = m_deref
    M[V + "as_mut_slice"] = m_deref
    M[V + "is_empty"] = m_slice_is_empty
    M["<alloc::vec::Vec<T, A> as core::ops::deref::Deref>::deref"] = m_deref
    M["<alloc::vec::Vec<T, A> as core::ops::deref::DerefMut>::deref_mut"] = m_deref
    M["core::convert::AsRef::as_ref"] = m_deref
    M["core::borrow::Borrow::borrow"] = m_deref
    M["<alloc::vec::Vec<T, A> as core::ops::index::Index<I>>::index"] = m_index
    M["<alloc::vec::Vec<T, A> as core::ops::index::IndexMut<I>>::index_mut"] = m_index
    M["core::slice::index::<impl core::ops::index::Index<I> for [T]>::index"] = m_index
    M["core::slice::index::<impl core::ops::index::IndexMut<I> for [T]>::index_mut"] = m_index
    S = "core::slice::<impl [T]>::"
    M[S + "get"] = m_slice_get
    M[S + "get_mut"] = m_slice_get
    M[S + "first"] = ends(False)
    M[S + "first_mut"] = ends(False)
    M[S + "last"] = ends(True)
    M[S + "last_mut"] = ends(True)
    M[S + "iter"] = m_iter
    M[S + "iter_mut"] = m_iter
    M[S + "windows"] = m_windows
    M[S + "len"] = m_len
    M[S + "is_empty"] = m_slice_is_empty
    M[S + "split_at"] = m_split_at
    M["core::iter::traits::collect::IntoIterator::into_iter"] = m_into_iter
    T = "core::iter::traits::iterator::Iterator::"
    M[T + "next"] = m_next
    M["core::iter::traits::double_ended::DoubleEndedIterator::next_back"] = m_next_back
    M[T + "any"] = m_any
    M[T + "all"] = m_all
    M[T + "find"] = m_find
    M[T + "position"] = m_position
    M[T + "count"] = m_count
    M[T + "for_each"] = m_for_each
    M[T + "last"] = m_last
    M[T + "map"] = adaptor("map")
    M[T + "filter"] = adaptor("filter")
    M[T + "rev"] = adaptor("rev")
    M[T + "take"] = adaptor("take")
    M[T + "skip"] = adaptor("skip")
    M[T + "chain"] = adaptor("chain")
    M[T + "zip"] = adaptor("zip")
    M[T + "take_while"] = adaptor("takewhile")
    M[T + "enumerate"] = adaptor("enumerate", (K(0),))
    M[T + "copied"] = adaptor("copied", ())
    M[T + "cloned"] = adaptor("copied", ())
    M[T + "by_ref"] = m_ident
    M["core::iter::traits::exact_size::ExactSizeIterator::len"] = m_range_len
    M["core::ops::range::Range::<Idx>::is_empty"] = m_range_is_empty
    M["core::iter::traits::exact_size::ExactSizeIterator::is_empty"] = m_range_is_empty
    M["core::ops::range::Range::<Idx>::contains"] = m_range_contains
    M["core::ops::range::RangeInclusive::<Idx>::contains"] = m_range_contains
    M["core::ops::range::RangeInclusive::<Idx>::new"] = m_rangeincl_new
    O = "core::option::Option::<T>::"
    M[O + "get_or_insert"] = m_get_or_insert
    M[O + "get_or_insert_with"] = m_get_or_insert_with
    M[O + "take"] = m_opt_take
    M[O + "replace"] = m_opt_replace
    M[O + "insert"] = m_opt_insert
    M[O + "is_none"] = m_opt_isnone(False)
    M[O + "is_some"] = m_opt_isnone(True)
    M[O + "as_ref"] = m_opt_as_ref
    M[O + "as_mut"] = m_opt_as_ref
    M["core::option::Option::<&T>::copied"] = m_opt_copied
    M["core::option::Option::<&T>::cloned"] = m_opt_copied
    M[O + "unwrap"] = m_unwrap("unwrap on None", 1)
    M[O + "expect"] = m_unwrap("expect on None", 1)
    M["core::result::Result::<T, E>::unwrap"] = m_unwrap("unwrap on Err", 0)
    M["core::result::Result::<T, E>::expect"] = m_unwrap("expect on Err", 0)
    M["core::mem::take"] = m_mem_take
    M["core::mem::replace"] = m_mem_replace
    M["core::mem::swap"] = m_mem_swap
    M["core::intrinsics::discriminant_value"] = m_discriminant
    M["core::clone::Clone::clone"] = m_clone
    M["core::convert::Into::into"] = lambda E, st, d, a, c: None
    M["core::convert::identity"] = m_ident
    M["core::hint::must_use"] = m_ident
    M["core::hint::black_box"] = m_ident
    M["core::cmp::impls::<impl core::cmp::PartialEq<&B> for &A>::eq"] = m_ptr_eq(False)
    M["core::cmp::impls::<impl core::cmp::PartialEq<&B> for &A>::ne"] = m_ptr_eq(True)
    M["<core::option::Option<T> as core::cmp::PartialEq>::eq"] = m_value_eq(False)
    M["core::cmp::min"] = m_minmax(False)
    M["core::cmp::max"] = m_minmax(True)
    M["core::cmp::Ord::min"] = m_minmax(False)
    M["core::cmp::Ord::max"] = m_minmax(True)
    M["core::num::<impl usize>::saturating_sub"] = m_satsub
    M["core::num::<impl usize>::saturating_add"] = m_satadd
    M["core::num::<impl usize>::wrapping_add"] = m_satadd
    M["core::num::<impl usize>::checked_sub"] = m_checked_sub
    M["core::num::<impl usize>::checked_add"] = m_checked_add
    for p in ("core::panicking::panic_fmt", "core::panicking::panic", "core::panicking::panic_nounwind",
              "core::option::unwrap_failed", "core::option::expect_failed", "core::result::unwrap_failed",
              "core::panicking::unreachable_display", "core::panicking::panic_display", "core::panicking::panic_str_2015",
              "core::panicking::assert_failed", "std::rt::begin_panic", "core::panicking::panic_explicit",
              "alloc::alloc::handle_alloc_error"):
        M[p] = m_panic
    for p in ("core::ops::function::Fn::call", "core::ops::function::FnMut::call_mut", "core::ops::function::FnOnce::call_once"):
        M[p] = m_fn_call

    def silent(E, st, d, args, ctx):
        return [(st, UNK)]
    for p in ("core::fmt::Arguments::<'a>::new", "core::fmt::Arguments::<'a>::from_str", "core::fmt::rt::Argument::<'_>::new_display",
              "core::fmt::rt::Argument::<'_>::new_debug"):
        M[p] = silent
