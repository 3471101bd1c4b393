"""Models of the operations only the parser side needs: the lexer as a token vector, and text of tokens."""
from engine import I, K, B, TRUE, FALSE, UNIT, UNK, shift, Undecided
import models
from parser_client import NSYM


def install(E, C):
    M = E.models
    T = E.p.types

    def m_collect(E, st, d, args, ctx):
        v = args[0]
        if v[0] in ("a", "L") and T[v[1]].get("local") and T[v[1]]["k"] == "struct" and \
                (T[v[1]].get("p") or "").endswith("::Lexer"):
            E.stats["collect"] = E.stats.get("collect", 0) + 1
            return [(st, ("tvec", I(NSYM)))]
        targs = ctx["callee"].get("args") or []
        tgt = T[targs[-1]] if targs and isinstance(targs[-1], int) else {}
        if (tgt.get("p") or "").endswith("string::String"):
            r = text_of(E, st, d, v)
            if r is not None:
                return r
        return None

    def text_of(E, st, d, it):
        if it[0] == "map" and it[1][0] == "sit":
            src = it[1]
            base = E.load(st, src[1], src[2])
            if base[0] != "tvec":
                return None
            lo, hi = src[3], src[4]
            out = []
            for s, t in E.compare(st, "Lt", lo, hi):
                if t == FALSE:
                    out.append((s, ("str", ("empty",))))
                    continue
                k = E.sym(s)
                s.z = s.z.add(lo[1], k[1], k[2] - lo[2]) or s.z
                s.z = s.z.add(k[1], hi[1], hi[2] - 1) or s.z
                for s2, v in E.call_value(s.copy(), d, it[2], [("r", src[1], src[2] + (("ix", k),))]):
                    if v[0] == "s" and v[1][0] == "txt" and s2.eq(v[1][1], k) and s2.eq(v[1][2], k):
                        s.taint |= s2.taint
                    else:
                        E.report("cover", s2, "materialised content is not the text of its tokens", key="materialised-text")
                        s.taint = s.taint | {"materialised text"}
                out.append((s, ("str", ("toks", lo, hi))))
            return out
        return None

    def m_str_index(E, st, d, args, ctx):
        s, r = args
        if s[0] != "s":
            return None
        rr = models.range_of(E, st, r)
        if rr is None:
            return None
        a, b = rr
        if s[1] == ("src",) and a is not None and b is not None and a[0] == "i" and b[0] == "i":
            x, y = st.tokr.get(a[1]), st.tokr.get(b[1])
            E.stats["obligations"].add(("slice", E.fnname(), E.curspan))
            if x and y and x[0] == "ts" and y[0] == "te" and a[2] == 0 and b[2] == 0:
                if not st.le(x[1], y[1]):
                    E.panic(st, "source slice with end before start")
                return [(st, ("s", ("txt", x[1], y[1])))]
        E.panic(st, "source slice at offsets that are not token boundaries")
        return [(st, ("s", ("?",)))]

    def m_string_new(E, st, d, args, ctx):
        return [(st, ("str", ("empty",)))]

    def m_push_str(E, st, d, args, ctx):
        t = models.target(E, st, args[0])
        if not t or t[2][0] != "str":
            return None
        cur, v = t[2][1], args[1]
        if v[0] == "s" and v[1][0] == "txt" and st.eq(v[1][1], v[1][2]):
            k = v[1][1]
            if cur == ("empty",):
                new = ("toks", k, shift(k, 1))
            elif cur[0] == "toks" and st.eq(cur[2], k):
                new = ("toks", cur[1], shift(k, 1))
            else:
                new = None
            if new is not None:
                E.store(st, t[0], t[1], ("str", new), hook=False)
                return [(st, UNIT)]
        return None

    M["core::iter::traits::iterator::Iterator::collect"] = m_collect
    M["core::str::traits::<impl core::ops::index::Index<I> for str>::index"] = m_str_index
    M["<alloc::string::String as core::ops::index::Index<I>>::index"] = m_str_index
    M["alloc::string::String::new"] = m_string_new
    M["alloc::string::String::with_capacity"] = m_string_new
    M["<alloc::string::String as core::default::Default>::default"] = m_string_new
    M["alloc::string::String::push_str"] = m_push_str

    def m_lexer_new(E, st, d, args, ctx):
        # the lexer itself is analysed separately; here it stands for the token sequence of its input
        for i, t in enumerate(T):
            if t["k"] == "struct" and t.get("local") and (t.get("p") or "").endswith("::Lexer"):
                return [(st, ("a", i, 0, ()))]
        return None
    for it in E.p.items:
        if it["p"].endswith("::Lexer::<'input>::new") or (it["p"].endswith("::new") and "Lexer" in it["p"]):
            M[it["p"]] = m_lexer_new
