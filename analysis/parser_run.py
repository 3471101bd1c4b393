"""Abstract interpretation of `parse` over an arbitrary token vector."""
import engine, parser_client, parser_models
from engine import I, K
from parser_client import NSYM


class ParserRun:
    pass


def run(prog):
    """a function that opens a node for its caller to close (or closes one for it) is analysed as part of its callers"""
    inl = set()
    for n in range(12):
        try:
            R = run1(prog, inl, n < 11)
            break
        except parser_client.Restart as e:
            inl.add(e.args[0])
    R.inlined = inl
    return R


def run1(prog, inl, may_restart):
    R = ParserRun()
    C = R.C = parser_client.ParserClient(prog, inl, may_restart)
    E = R.E = engine.Engine(prog, C)
    parser_models.install(E, C)
    root = None
    for b in prog.bodies.values():
        if b.local and b.path.endswith("::parse") and b.argc == 1 and not b.parent:
            t = prog.types[b.locals[1]]
            r = prog.types[b.locals[0]]
            if t["k"] == "ref" and prog.types[t["t"]]["k"] == "str" and r.get("p") == "alloc::vec::Vec" and r["args"][0] == C.op_ty:
                root = b
    if root is None:
        raise parser_client.Missing("the public entry point parse(&str) -> Vec<Op>")
    R.root = root
    st = engine.State()
    st.z = st.z.add(0, NSYM, 0)
    try:
        R.res = E.exec_body(root, [("s", ("src",))], st, 1)
    except Exception as e:
        E.giveup(root.path, e)
        R.res = []
    # what the stream as a whole looks like when parse returns
    sv = E.stack
    E.stack = [root]
    R.roots = []
    for s, v in R.res:
        if v[0] != "ops":
            E.taint(s, "the returned vector is not the parser's operation log")
            E.report("nesting", s, "parse does not return the operation log", key="root-log")
            continue
        ent = [e for e in v[1] if e[0] != "B"]
        segs = [e for e in ent if e[0] == "S"]
        opens = [e for e in ent if e[0] == "O"]
        if opens:
            E.report("nesting", s, "parse returns with %s open" % ", ".join(C.nodes[e[1]] for e in opens), key="root-open")
        if len(segs) > 1:
            E.report("cover", s, "parse leaves tokens between top-level operations uncovered", key="root-gap")
        if segs and not (s.eq(segs[0][1], K(0)) and s.eq(segs[-1][2], I(NSYM))):
            E.report("cover", s, "parse does not cover the document from its first to its last token", key="root-span")
        if not segs and not s.eq(I(NSYM), K(0)):
            E.report("cover", s, "parse covers nothing of a document that is not empty", key="root-span")
        ch = ("ch", 0, frozenset([()]))
        for e in ent:
            if e[0] == "S":
                ch = C.chcat(ch, e[3])
            elif e[0] == "Z":
                ch = C.chcat(ch, e[1])
        R.roots.append((ch, bool(s.taint)))
    E.stack = sv
    return R
