"""The printers: what each Display implementation of a node writes, as a term over the node."""
import sys
from engine import Engine, State, I, K, B, TRUE, FALSE, UNIT, UNK, Undecided
import models, terms
from models import some, none, target, fresh_obj
from terms import EMPTY, FACTS, TermClient, cat, ext, has, snoc

models.ITS = models.ITS + ("gen",)
FMT = ("fmtr",)
SELF = ("self",)


class Again(Exception):
    pass


class ShowClient(TermClient):
    item_paths = True

    def __init__(self, prog):
        super().__init__(prog)
        self.typed = {}
        self.loops = {}          # loop key -> rows of one iteration
        self.peel = set()
        self.shows = {}          # body key of a Display implementation -> type
        self.fresh = {}
        self.unknown = set()
        self.broken = set()
        self.root = None

    # ------------------------------------------------------------ printing
    def show_term(self, E, st, v, ty):
        """what `{}` prints for a value of type ty"""
        t = self.T[ty]
        n = 0
        while v and v[0] == "r" and n < 6:
            if t["k"] == "ref":
                ty, t = t["t"], self.T[t["t"]]
            v = E.load(st, v[1], v[2])
            n += 1
        while t["k"] == "ref":
            ty, t = t["t"], self.T[t["t"]]
        if v[0] in ("s", "S"):
            return v[1]
        if v[0] == "i" and t["k"] == "char":
            c = st.const(v)
            return None if c is None else ("lit", chr(c))
        if v[0] == "i":
            c = st.const(v)
            return None if c is None else ("lit", str(c))
        if v[0] == "o" and t["k"] == "char":
            return ("str", v[2])
        if v[0] == "o" and t["k"] in ("int", "uint"):
            return ("dec", v[2])
        if t["k"] in ("struct", "enum") and t.get("p") != "alloc::string::String":
            return ("show", t.get("p", "").rsplit("::", 1)[-1], self.reify(E, st, v))
        return None

    def call_hook(self, E, b, args, st, depth):
        if b.key in self.shows and len(args) == 2 and len(E.stack) > 0:
            s = self.show_term(E, st, args[0], self.shows[b.key])
            if s is None:
                return None
            return self.append(E, st, args[1], s)
        return None

    def append(self, E, st, f, s):
        x = target(E, st, f)
        while x and x[2][0] == "r":
            x = target(E, st, x[2])
        if not x or x[2][0] != "S":
            return None
        E.store(st, x[0], x[1], ("S", cat(x[2][1], s)))
        return [(st, self.ok(E))]

    def ok(self, E):
        return ("a", self.res_ty, 0, (UNIT,))

    # ------------------------------------------------------------ loops over the items of a vector
    def gen_of(self, E, st, v):
        if v[0] == "r":
            x = E.load(st, v[1], v[2])
            n = 0
            while x[0] == "r" and n < 5:
                x = E.load(st, x[1], x[2])
                n += 1
            if x[0] == "V":
                return ("gen", x[2], x[1], 1, 0, None)
            return None
        if v[0] == "V":
            return ("gen", v[2], v[1], 0, 0, None)
        if v[0] == "it" and v[1][0] == "chars":
            return ("gen", v[1], self.chty, 0, 0, None)
        if v[0] == "a" and v[1] and self.tpath(v[1]).startswith("core::ops::range::Range") and len(v[3]) >= 2 and any(x[0] == "o" for x in v[3][:2]):
            lo, hi = self.termval(st, v[3][0]), self.termval(st, v[3][1])
            if lo is not None and hi is not None and "Inclusive" not in self.tpath(v[1]):
                return ("gen", ("range", lo, hi), (v[3][0] if v[3][0][0] == "o" else v[3][1])[1], 0, 0, None)
        if v[0] == "it" and v[1][0] == "viter" and v[1][2] == 0:
            return ("gen", v[1][1], v[1][3], 0, 0, None)
        return None

    def to_iter(self, E, st, v):
        return self.gen_of(E, st, v)

    def m_into_iter(self, E, st, d, args, ctx):
        g = self.gen_of(E, st, args[0])
        return None if g is None else [(st, g)]

    def item(self, E, st, g, term, ix=None):
        """an item of a generic iteration; g[3]: 1 by reference, 2 with its index"""
        if g[3] & 2:
            return ("a", 0, 0, (ix, self.item(E, st, g[:3] + (g[3] & 1,) + g[4:], term)))
        if g[3]:
            obj = ("tm", term)
            if obj not in st.mem:
                st.mem[obj] = self.mk(E, st, g[2], term)
            return ("r", obj, ())
        return self.mk(E, st, g[2], term)

    def index(self, src):
        """position of the current item; ix1 counts from one, after a first item taken apart"""
        return ("o", self.usize(), ("ix1" if src[0] == "tail" else "ix", src))

    def it_next(self, E, st, d, it, back):
        if it[0] != "gen":
            return None
        if back:
            raise Undecided("items visited from the end")
        _, src, ety, ref, phase, key = it
        if src == ("nil",) or src == EMPTY or src == ("chars", EMPTY):
            return [(st, it, None)]
        if src[0] == "snoc" or phase == "list":
            items, v = [], src
            while v[0] == "snoc":
                items.append(v[2])
                v = v[1]
            if v != ("nil",):
                raise Undecided("items of a vector that is partly known")
            i = key or 0
            if i >= len(items):
                return [(st, it, None)]
            return [(st, it[:4] + ("list", i + 1), self.item(E, st, it, items[::-1][i], K(i)))]
        if phase == 0:
            key = self.loopkey(E, st, src)
            if key in self.peel and src[0] != "tail":
                out = []
                for s, e in self.ask(E, st, ("empty", src)):
                    if e:
                        out.append((s, it, None))
                    else:
                        out.append((s, it[:4] + ("peeled", None), self.item(E, s, it, ("at", src, 0), K(0))))
                return out
            return self.start(E, st, it, key, ("el", src))
        if phase == "peeled":
            key = self.loopkey(E, st, ("tail", src))
            return self.start(E, st, it, key, ("el", ("tail", src)))
        # second visit: the state differs from the one the iteration started in by what one item does
        self.second(E, st, key)
        return []

    def loopkey(self, E, st, src):
        return (tuple(b.key for b in E.stack), E.curspan, src, tuple(sorted(((o, v) for o, v in st.mem.items()), key=repr)), bool(st.taint))

    def start(self, E, st, it, key, el):
        src = el[1]
        if key in self.loops:
            return [(self.finish(E, st, key, src), it[:4] + ("done", None), None)] if it[4] != "done" else []
        for o in st.mem:
            if o[0] == "inloop":
                if self.fresh[o[1]][1] == src:
                    raise Undecided("a loop inside a loop over the same items")
                self.broken.add(o[1])
        self.fresh[key] = (st.copy(), src, el)
        self.unknown.add(key)
        s = st.copy()
        s.mem[("inloop", key)] = TRUE
        return [(s, it[:4] + (1, key), self.item(E, s, it, el, self.index(src)))]

    def second(self, E, st, key):
        s0, src, el = self.fresh[key]
        base = s0.mem
        row = {}
        for o, v in st.mem.items():
            if o == ("inloop", key) or o == FACTS or o[0] in ("tm", "prom", "box", "g"):
                continue
            old = base.get(o)
            if old is None or old == v:
                continue
            if self.is_gen(v, key):
                continue
            if old[0] == "S" and v[0] == "S":
                a, b = self.parts(old[1]), self.parts(v[1])
                d = self.delta(a, b)
                if d is not None:
                    row[o] = ("S", d)
                    continue
            if old[0] == "V" and v[0] == "V":
                items, x = [], v[2]
                while x != old[2] and x[0] == "snoc":
                    items.append(x[2])
                    x = x[1]
                if x == old[2]:
                    row[o] = ("V", tuple(items[::-1]))
                    continue
            if v[0] in ("b", "i", "a", "o", "bt") and el[1][0] != "tail" and self.kind(E, v) and not self.live_temp(E, o):
                if src not in [k for k in self.peel] and key not in self.peel:
                    self.peel.add(key)
                    raise Again()
            row[o] = ("?",)
        n = len(s0.mem.get(FACTS, ()))
        fs = st.mem.get(FACTS, ())[n:]
        self.rows.setdefault(key, [])
        r = (fs, tuple(sorted(row.items(), key=repr)), bool(st.taint - s0.taint))
        if r not in self.rows[key]:
            self.rows[key].append(r)

    def kind(self, E, v):
        return v[0] in ("b", "i", "bt") or v[0] == "o" or v[0] == "a"

    def live_temp(self, E, o):
        """a compiler temporary: not a variable of the source"""
        b = E.stack[-1] if E.stack else None
        return b is not None and len(o) == 2 and isinstance(o[1], int) and o[1] not in b.named

    def is_gen(self, v, key):
        return v[0] == "gen" and v[5] == key or any(isinstance(x, tuple) and x and self.is_gen(x, key) for x in v)

    def parts(self, t):
        return list(t[1:]) if t[0] == "cat" else [] if t == EMPTY else [t]

    def delta(self, a, b):
        if not a:
            return cat(*b) if b else EMPTY
        if len(b) < len(a) or a[:-1] != b[:len(a) - 1]:
            return None
        x, y = a[-1], b[len(a) - 1]
        if x == y:
            return cat(*b[len(a):]) if b[len(a):] else EMPTY
        if x[0] == "lit" and y[0] == "lit" and y[1].startswith(x[1]):
            return cat(("lit", y[1][len(x[1]):]), *b[len(a):])
        return None

    def finish(self, E, st, key, src):
        rows = self.loops[key]
        s = st.copy()
        objs = {o for _, r, _ in rows for o, _ in r}
        if any(t for _, _, t in rows):
            E.taint(s, "something unmodelled in a loop")
        for o in sorted(objs, key=repr):
            if o not in s.mem:
                continue
            ds = [(fs, dict(r).get(o)) for fs, r, _ in rows]
            v = s.mem[o]
            if any(d is not None and d[0] == "?" for _, d in ds):
                s.mem[o] = UNK
            elif v[0] == "S" and src[0] == "range" and src[1] == ("int", 0) and len(ds) == 1 and ds[0][1] and not has(ds[0][1][1], ("el", src)):
                s.mem[o] = ("S", cat(v[1], ("repeat", ds[0][1][1], src[2])))
            elif v[0] == "S":
                e = tuple(sorted(((tuple(fs), d[1] if d else EMPTY) for fs, d in ds), key=repr))
                s.mem[o] = ("S", cat(v[1], ("each", src, e)))
            else:
                e = tuple(sorted(((tuple(fs), d[1] if d else ()) for fs, d in ds), key=repr))
                s.mem[o] = ("V", v[1], ext(v[2], ("vmap", src, e)))
        return s

    # ------------------------------------------------------------ one printer
    def run(self, E, body, ty):
        self.root = body
        for _ in range(40):
            self.rows = {}
            self.fresh = {}
            self.unknown = set()
            self.broken = set()
            st = State()
            st.mem[SELF] = self.mk(E, st, ty, SELF)
            st.mem[FMT] = ("S", EMPTY)
            try:
                res = E.exec_body(body, [("r", SELF, ()), ("r", FMT, ())], st, 1)
            except Again:
                continue
            new = [k for k in self.unknown if k not in self.broken]
            if not self.unknown:
                out = []
                for s, v in res:
                    early = any(o[0] == "inloop" for o in s.mem)
                    if early:
                        E.taint(s, "a loop is left early")
                    x = s.mem[FMT]
                    ok = v[0] == "a" and v[2] == 0
                    out.append((self.facts(s), x[1] if x[0] == "S" else ("?",), ok, s.taint))
                return out
            for k in new:
                self.loops[k] = self.rows.get(k, [])
            if not new:
                raise Undecided("loops that do not close")
        raise Undecided("loops that do not settle")


def install(E, C):
    M = E.models
    IT = "core::iter::traits::iterator::Iterator::"
    SL = "core::slice::<impl [T]>::"

    def over(name, f):
        g = M.get(name)

        def m(E, st, d, args, ctx):
            r = f(E, st, d, args, ctx)
            return r if r is not None else (g(E, st, d, args, ctx) if g else None)
        M[name] = m

    def sarg(st, v):
        n = 0
        while v[0] == "r" and n < 6:
            v = E.load(st, v[1], v[2])
            n += 1
        return v[1] if v[0] in ("s", "S") else None

    # format_args!
    def m_arg(E, st, d, args, ctx):
        a = ctx["callee"].get("args") or []
        ty = next((x for x in a if isinstance(x, int)), None)
        if ty is None or args[0][0] not in ("r", "s"):
            return None
        s = C.show_term(E, st, args[0] if args[0][0] == "r" else args[0], ty)
        return None if s is None else [(st, ("farg", s))]
    M["core::fmt::rt::Argument::<'_>::new_display"] = m_arg

    def m_args(E, st, d, args, ctx):
        tp, ar = args[0], args[1]
        if tp[0] == "r":
            tp = E.load(st, tp[1], tp[2])
        if ar[0] == "r":
            ar = E.load(st, ar[1], ar[2])
        if tp[0] != "cb" or ar[0] != "a":
            return None
        b, vs = tp[1], ar[3]
        out, i, n = [], 0, 0
        while i < len(b):
            c = b[i]
            i += 1
            if c == 0:
                break
            if c < 128:
                out.append(("lit", b[i:i + c].decode()))
                i += c
            elif c == 128:
                k = b[i] | b[i + 1] << 8
                out.append(("lit", b[i + 2:i + 2 + k].decode()))
                i += 2 + k
            else:
                if c & 0x37:
                    return None
                if c & 8:
                    n = b[i] | b[i + 1] << 8
                    i += 2
                if n >= len(vs) or vs[n][0] != "farg":
                    return None
                out.append(vs[n][1])
                n += 1
        return [(st, ("fa", cat(*out)))]
    M["core::fmt::Arguments::<'a>::new"] = m_args

    def m_from_str(E, st, d, args, ctx):
        t = sarg(st, args[0])
        return None if t is None else [(st, ("fa", t))]
    for n in ("from_str", "from_str_nonconst"):
        M["core::fmt::Arguments::<'a>::" + n] = m_from_str

    def m_write_fmt(E, st, d, args, ctx):
        if args[1][0] != "fa":
            return None
        return C.append(E, st, args[0], args[1][1])
    for p in ("core::fmt::Formatter::<'a>::write_fmt", "core::fmt::Write::write_fmt", "<core::fmt::Formatter<'_> as core::fmt::Write>::write_fmt",
              "<&mut W as core::fmt::Write>::write_fmt"):
        M[p] = m_write_fmt

    def m_write_str(E, st, d, args, ctx):
        t = sarg(st, args[1])
        return None if t is None else C.append(E, st, args[0], t)
    for p in ("core::fmt::Formatter::<'a>::write_str", "core::fmt::Write::write_str", "<core::fmt::Formatter<'_> as core::fmt::Write>::write_str",
              "<alloc::string::String as core::fmt::Write>::write_str", "core::fmt::Formatter::<'a>::pad", "core::fmt::Write::write_str"):
        M[p] = m_write_str

    def chterm(st, v):
        if v[0] == "i":
            c = st.const(v)
            return None if c is None else ("lit", chr(c))
        return ("str", v[2]) if v[0] == "o" else None

    def m_write_char(E, st, d, args, ctx):
        t = chterm(st, args[1])
        return None if t is None else C.append(E, st, args[0], t)
    for p in ("core::fmt::Formatter::<'a>::write_char", "core::fmt::Write::write_char", "<core::fmt::Formatter<'_> as core::fmt::Write>::write_char",
              "<alloc::string::String as core::fmt::Write>::write_char"):
        M[p] = m_write_char

    def m_spush(E, st, d, args, ctx):
        t = chterm(st, args[1])
        x = target(E, st, args[0])
        if t is None or not x or x[2][0] != "S":
            return None
        E.store(st, x[0], x[1], ("S", cat(x[2][1], t)))
        return [(st, UNIT)]
    over("alloc::string::String::push", m_spush)

    def m_format(E, st, d, args, ctx):
        return [(st, ("S", args[0][1]))] if args[0][0] == "fa" else None
    M["alloc::fmt::format"] = m_format

    def m_to_string(E, st, d, args, ctx):
        a = ctx["callee"].get("args") or []
        ty = next((x for x in a if isinstance(x, int)), None)
        if ty is None:
            return None
        s = C.show_term(E, st, args[0], ty)
        return None if s is None else [(st, ("S", s))]
    for p in ("alloc::string::ToString::to_string", "<T as alloc::string::ToString>::to_string", "<T as alloc::string::SpecToString>::spec_to_string",
              "<str as alloc::string::SpecToString>::spec_to_string", "<char as alloc::string::SpecToString>::spec_to_string"):
        over(p, m_to_string)

    def m_display(E, st, d, args, ctx):
        a = ctx["callee"].get("args") or []
        ty = next((x for x in a if isinstance(x, int)), None)
        if ty is None:
            return None
        s = C.show_term(E, st, args[0], ty)
        return None if s is None else C.append(E, st, args[1], s)
    for p in ("core::fmt::Display::fmt", "<alloc::string::String as core::fmt::Display>::fmt", "<str as core::fmt::Display>::fmt", "<char as core::fmt::Display>::fmt"):
        M[p] = m_display

    # iterators over vectors and characters
    def m_iter(E, st, d, args, ctx):
        g = C.gen_of(E, st, args[0])
        return None if g is None else [(st, g)]
    over(SL + "iter", m_iter)
    for p in ("<&'a alloc::vec::Vec<T, A> as core::iter::traits::collect::IntoIterator>::into_iter",
              "<alloc::vec::Vec<T, A> as core::iter::traits::collect::IntoIterator>::into_iter"):
        over(p, lambda E, st, d, a, c: m_iter(E, st, d, a, c) or ([(st, a[0])] if a[0][0] in models.ITS else None))

    def m_tnext(E, st, d, args, ctx):
        r = args[0]
        if r[0] != "r":
            return None
        x = E.load(st, r[1], r[2])
        if x[0] == "it" or x[0] == "a":
            g = C.gen_of(E, st, x)
            if g is None:
                return None if x[0] == "it" else models.m_next(E, st, d, args, ctx)
            E.store(st, r[1], r[2], g, hook=False)
            x = g
        if x[0] == "gen" and x[4] == 0 and x[3] < 2 and x[1][0] != "range" and E.curblk is not None and not E.curblk[0].cyclic(E.curblk[1]):
            # taken outside any loop: the first item, then the rest
            if repr(x[1]).count("'tail'") > 4:
                raise Undecided("items taken one by one")
            out = []
            for s, e in C.ask(E, st, ("empty", x[1])):
                if e:
                    out.append((s, none(E)))
                else:
                    E.store(s, r[1], r[2], x[:1] + (("tail", x[1]),) + x[2:], hook=False)
                    out.append((s, some(E, C.item(E, s, x, ("at", x[1], 0)))))
            return out
        return models.m_next(E, st, d, args, ctx)
    for p in (IT + "next", "<core::slice::iter::Iter<'a, T> as core::iter::traits::iterator::Iterator>::next",
              "<core::str::iter::Chars<'a> as core::iter::traits::iterator::Iterator>::next",
              "<alloc::vec::into_iter::IntoIter<T, A> as core::iter::traits::iterator::Iterator>::next",
              "core::iter::range::<impl core::iter::traits::iterator::Iterator for core::ops::range::Range<A>>::next"):
        over(p, m_tnext)
    def m_tlast(E, st, d, args, ctx):
        """the last character of a text"""
        v = args[0]
        if v[0] == "r":
            v = E.load(st, v[1], v[2])
        g = C.gen_of(E, st, v) if v[0] == "it" else None
        if g is None or g[1][0] != "chars":
            return models.m_last(E, st, d, args, ctx) if ctx["callee"].get("p", "").endswith("::last") else models.m_next_back(E, st, d, args, ctx)
        out = []
        for s, e in C.ask(E, st, ("empty", g[1])):
            if args[0][0] == "r" and not e:
                E.taint(s, "characters taken from the end")
            out.append((s, none(E) if e else some(E, C.item(E, s, g, ("at", g[1], -1)))))
        return out
    CH = "<core::str::iter::Chars<'a> as core::iter::traits::"
    for p in (IT + "last", CH + "iterator::Iterator>::last", "core::iter::traits::double_ended::DoubleEndedIterator::next_back",
              CH + "double_ended::DoubleEndedIterator>::next_back"):
        over(p, m_tlast)
    for n in ("map", "filter", "enumerate", "chain"):
        base = M.get(IT + n)

        def m(E, st, d, args, ctx, base=base, n=n):
            a = list(args)
            if a[0][0] == "it":
                g = C.gen_of(E, st, a[0])
                if g is not None and g[1][0] != "chars" or g is not None and n in ("map", "enumerate"):
                    a[0] = g
            if n == "enumerate" and a[0][0] == "gen" and a[0][4] == 0 and a[0][3] < 2:
                return [(st, a[0][:3] + (a[0][3] | 2,) + a[0][4:])]
            return base(E, st, d, a, ctx)
        M[IT + n] = m

    for n in ("take", "skip"):
        base = M.get(IT + n)

        def m(E, st, d, args, ctx, base=base, n=n):
            a = list(args)
            if a[0][0] in ("it", "o", "V", "r"):
                g = C.gen_of(E, st, a[0])
                if g is not None and g[1][0] != "chars":
                    a[0] = g
            c = C.termval(st, a[1])
            if a[0][0] == "gen" and a[0][4] == 0 and a[0][1][0] != "range" and c is not None and (a[0][3] < 2 or n == "take"):
                return [(st, a[0][:1] + (("taken" if n == "take" else "skipped", a[0][1], c),) + a[0][2:])]
            return base(E, st, d, a, ctx) if base else None
        M[IT + n] = m

    def quant(name):
        base = M.get(IT + name)

        def m(E, st, d, args, ctx):
            v = args[0]
            if v[0] == "r":
                x = E.load(st, v[1], v[2])
                if x[0] in ("gen", "it"):
                    v = x
            g = v if v[0] == "gen" else C.gen_of(E, st, v) if v[0] == "it" else None
            if g is None or g[4] != 0 or g[3] & 2:
                return base(E, st, d, args, ctx)
            l = C.lam(E, st, d, args[1], g[2], elem=("el", g[1]), as_ref=g[3])
            if l is None:
                return None
            return C.askv(E, st, (name, g[1], l))
        M[IT + name] = m
        M["<core::slice::iter::Iter<'a, T> as core::iter::traits::iterator::Iterator>::" + name] = m
    quant("any")
    quant("all")

    def m_collect(E, st, d, args, ctx):
        it = models.getit(E, st, args)
        if it is None and args[0][0] == "it":
            it = args[0] if args[0][1][0] == "split" else C.gen_of(E, st, args[0])
        if it is None:
            return None
        a = [x for x in (ctx["callee"].get("args") or []) if isinstance(x, int)]
        t = C.T[a[-1]]
        isS = t.get("p") == "alloc::string::String"
        if it[0] == "it" and it[1][0] == "split" and t.get("p") == "alloc::vec::Vec":
            return [(st, ("V", t["args"][0], it[1]))]
        if not isS and t.get("p") != "alloc::vec::Vec":
            return None
        acc = fresh_obj(st, d, "acc")
        st.mem[acc] = ("S", EMPTY) if isS else ("V", t["args"][0], ("nil",))

        def on(s, y):
            x = s.mem[acc]
            if isS:
                n = 0
                while y[0] == "r" and n < 5:
                    y = E.load(s, y[1], y[2])
                    n += 1
                p = y[1] if y[0] in ("s", "S") else chterm(s, y)
                if p is None:
                    E.taint(s, "collecting something that is not text")
                    p = ("?",)
                s.mem[acc] = ("S", cat(x[1], p))
            else:
                s.mem[acc] = ("V", x[1], snoc(x[2], C.reify(E, s, y)))
            return [s], []

        def end(s):
            return [(s, s.mem.pop(acc))]
        return models.consume(E, st, d, it, on, end)
    M[IT + "collect"] = m_collect
    M["<alloc::string::String as core::iter::traits::collect::FromIterator<alloc::string::String>>::from_iter"] = m_collect

    def m_retain(E, st, d, args, ctx):
        x = target(E, st, args[0])
        if not x or x[2][0] != "V":
            return None
        g = C.gen_of(E, st, x[2])
        acc = fresh_obj(st, d, "acc")
        st.mem[acc] = ("V", x[2][1], ("nil",))

        def on(s, y):
            s.mem[acc] = ("V", x[2][1], snoc(s.mem[acc][2], C.reify(E, s, y)))
            return [s], []

        def end(s):
            E.store(s, x[0], x[1], s.mem.pop(acc), hook=False)
            return [(s, UNIT)]
        return models.consume(E, st, d, ("filter", g, args[1]), on, end)
    VEC = "alloc::vec::Vec::<T, A>::"
    over(VEC + "retain", m_retain)

    def m_opaque(name):
        def m(E, st, d, args, ctx):
            x = target(E, st, args[0])
            if not x or x[2][0] != "V":
                return None
            E.taint(st, name)
            E.store(st, x[0], x[1], ("V", x[2][1], ("?",)), hook=False)
            return [(st, UNIT)]
        return m
    for n in ("dedup", "dedup_by", "dedup_by_key", "retain_mut", "reverse"):
        over(VEC + n, m_opaque("Vec::" + n))
    for n in ("reverse", "sort", "sort_by", "sort_by_key", "sort_unstable", "sort_unstable_by", "sort_unstable_by_key", "rotate_left", "rotate_right", "swap"):
        over("core::slice::<impl [T]>::" + n, m_opaque("slice::" + n))
        over("alloc::slice::<impl [T]>::" + n, m_opaque("slice::" + n))

    def m_sextend(E, st, d, args, ctx):
        x = target(E, st, args[0])
        if not x or x[2][0] != "S":
            return None
        a = [z for z in (ctx["callee"].get("args") or []) if isinstance(z, int)]
        it = models.to_iter(E, st, args[1]) or C.gen_of(E, st, args[1])
        if it is None:
            return None
        obj, path = x[0], x[1]

        def on(s, y):
            n = 0
            while y[0] == "r" and n < 5:
                y = E.load(s, y[1], y[2])
                n += 1
            p = y[1] if y[0] in ("s", "S") else chterm(s, y)
            if p is None:
                E.taint(s, "extending by something that is not text")
                p = ("?",)
            E.store(s, obj, path, ("S", cat(E.load(s, obj, path)[1], p)))
            return [s], []
        return models.consume(E, st, d, it, on, lambda s: [(s, UNIT)])
    for p in ("core::iter::traits::collect::Extend::extend", "<alloc::string::String as core::iter::traits::collect::Extend<char>>::extend",
              "<alloc::string::String as core::iter::traits::collect::Extend<alloc::string::String>>::extend",
              "<alloc::string::String as core::iter::traits::collect::Extend<&'a str>>::extend"):
        over(p, m_sextend)

    def m_fold(E, st, d, args, ctx):
        it = models.getit(E, st, args)
        if it is None:
            return None
        acc = fresh_obj(st, d, "acc")
        st.mem[acc] = args[1]

        def on(s, y):
            out = []
            a = s.mem[acc]
            for s2, v in E.call_value(s, d, args[2], [a, y]):
                s2.mem[acc] = v
                out.append(s2)
            return out, []
        return models.consume(E, st, d, it, on, lambda s: [(s, s.mem.pop(acc))])
    M[IT + "fold"] = m_fold
    M["<core::slice::iter::Iter<'a, T> as core::iter::traits::iterator::Iterator>::fold"] = m_fold

    def m_try_for_each(E, st, d, args, ctx):
        v = args[0]
        it = models.getit(E, st, args)
        if it is None:
            return None

        def on(s, y):
            c, x = [], []
            for s2, r in E.call_value(s, d, args[1], [y]):
                if r[0] == "a" and r[1] == C.res_ty:
                    (c.append(s2) if r[2] == 0 else x.append((s2, r)))
                else:
                    E.taint(s2, "try_for_each")
                    c.append(s2)
            return c, x
        return models.consume(E, st, d, it, on, lambda s: [(s, C.ok(E))])
    M[IT + "try_for_each"] = m_try_for_each

    def m_join(E, st, d, args, ctx):
        x = target(E, st, args[0])
        if x and x[2][0] == "r":
            x = target(E, st, x[2])
        sep = sarg(st, args[1]) if len(args) > 1 else EMPTY
        if not x or sep is None:
            return None
        if x[2][0] == "V" and x[2][2][0] == "split":
            return [(st, ("S", ("replace", x[2][2][1], x[2][2][2], sep)))]
        if x[2][0] == "V":
            v = x[2][2]
        elif x[2][0] == "a" and C.T[x[2][1]]["k"] == "array":
            v = ("nil",)
            for y in x[2][3]:
                v = snoc(v, C.reify(E, st, y))
        else:
            return None
        items, u = [], v
        while u[0] == "snoc":
            items.append(u[2])
            u = u[1]
        if u == ("nil",):
            out = []
            for i, y in enumerate(items[::-1]):
                out += ([sep] if i else []) + [y]
            return [(st, ("S", cat(*out)))]
        return [(st, ("S", ("join", v, sep)))]
    def m_split(E, st, d, args, ctx):
        t, p = sarg(st, args[0]), pat1(st, args[1])
        return None if t is None or p is None else [(st, ("it", ("split", t, p)))]

    def pat1(st, v):
        if v[0] == "i":
            c = st.const(v)
            return None if c is None else ("lit", chr(c))
        t = sarg(st, v)
        return t if t is not None and t[0] == "lit" and t[1] else None
    M["core::str::<impl str>::split"] = m_split

    for n in ("join", "concat"):
        M["alloc::slice::<impl [T]>::" + n] = m_join

    def m_split_first(E, st, d, args, ctx):
        x = target(E, st, args[0])
        if not x or x[2][0] != "V":
            return None
        v = x[2][2]
        out = []
        for s, e in C.ask(E, st, ("empty", v)):
            if e:
                out.append((s, none(E)))
            else:
                o1, o2 = ("tm", ("at", v, 0)), ("tm", ("tail", v))
                s.mem[o1] = C.mk(E, s, x[2][1], ("at", v, 0))
                s.mem[o2] = ("V", x[2][1], ("tail", v))
                out.append((s, some(E, ("a", 0, 0, (("r", o1, ()), ("r", o2, ()))))))
        return out
    over(SL + "split_first", m_split_first)


def printers(prog):
    """(body, type) of every Display implementation of the crate"""
    T = prog.types
    for im in prog.impls:
        if im["trait"] != "core::fmt::Display":
            continue
        for n, k in im["ms"]:
            b = prog.bodies.get(k)
            if n == "fmt" and b is not None and T[im["self"]].get("p"):
                yield b, im["self"]


class Printers(dict):
    pass


def run(prog):
    """type name -> rows (facts, text, ok, taint) or an error"""
    out = Printers()
    out.bodies, out.obligations = set(), set()
    names = {}
    for b, ty in printers(prog):
        C = ShowClient(prog)
        C.free_text = True
        C.chty = next((i for i, t in enumerate(prog.types) if t["k"] == "char"), None)
        C.res_ty = b.locals[0]
        for b2, t2 in printers(prog):
            C.shows[b2.key] = t2
        E = Engine(prog, C)
        terms.install(E, C)
        install(E, C)
        E.maxpart = 4000
        name = C.short(ty)
        names[name] = (b, ty)
        try:
            out[name] = ("rows", C.run(E, b, ty))
        except Undecided as e:
            out[name] = ("error", str(e))
        except Exception as e:
            import os, traceback
            if os.environ.get("DBG"):
                traceback.print_exc()
            out[name] = ("error", "%s: %s" % (type(e).__name__, e))
        out.bodies |= E.stats["bodies"]
        out.obligations |= {o for o in E.stats["obligations"] if o[0] in ("assert", "slice")}
        out[name] += (dict(E.stats["unmodelled"]), [f for f in E.findings.values()])
    return out, names


if __name__ == "__main__":
    import suite
    S = suite.Suite(sys.argv[1] if len(sys.argv) > 1 else "/repo")
    r, _ = run(S.prog)
    for n, (k, rows, un, fi) in sorted(r.items()):
        print("==", n, k, rows if k == "error" else len(rows), un, fi)
        if k == "rows":
            for f, t, ok, taint in rows[:6]:
                print("   ", f, "\n       ", t, ok, sorted(taint))
    S.close()
