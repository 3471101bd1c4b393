"""What constructors, conversions, comparisons and entry points make of what they are given."""
import time
from engine import Engine, State, K, Undecided
import show, terms
from show import ShowClient, Again
from terms import EMPTY


class BuildClient(ShowClient):
    """arguments are terms ("arg", i); a hooked function returns a term over its arguments"""

    hooks = None
    eqs = False
    item_paths = True

    def call_hook(self, E, b, args, st, depth):
        if self.hooks and b.key in self.hooks and E.stack:
            return self.hooks[b.key](self, E, st, args, b)
        if self.eqs and E.stack and b.argc == 2 and b.path.rsplit("::", 1)[-1] in ("eq", "ne") and "PartialEq" in str(b.key):
            # comparing parts is comparing their terms: what the comparison itself does is judged at its own implementation
            s = st.copy()
            n = len(s.taint)
            x, y = self.reify(E, s, args[0]), self.reify(E, s, args[1])
            if len(s.taint) == n and ("?",) not in (x, y):
                neg = b.path.endswith("ne")
                return [(s2, ("b", v ^ 1 if neg else v)) for s2, v in self.ask(E, st, ("eq", x, y))]
        return super().call_hook(E, b, args, st, depth)


def execute(prog, body, hooks=None, setup=None, eqs=False):
    """rows (facts, result term, taint) of one function from arbitrary arguments"""
    C = BuildClient(prog)
    C.free_text = True
    C.chty = next((i for i, t in enumerate(prog.types) if t["k"] == "char"), None)
    C.res_ty = None
    C.hooks = hooks
    C.eqs = eqs
    for b2, t2 in show.printers(prog):
        C.shows[b2.key] = t2
        C.res_ty = b2.locals[0]
    E = Engine(prog, C)
    terms.install(E, C)
    show.install(E, C)
    if setup:
        setup(E, C)
    E.maxpart = 4000
    E.deadline = min(E.deadline, time.monotonic() + 40)
    C.root = body
    for _ in range(40):
        C.rows, C.fresh, C.unknown, C.broken = {}, {}, set(), set()
        st = State()
        args = [C.mk(E, st, body.locals[i + 1], ("arg", i)) for i in range(body.argc)]
        try:
            res = E.exec_body(body, args, st, 1)
        except Again:
            continue
        new = [k for k in C.unknown if k not in C.broken]
        if not C.unknown:
            out = []
            for s, v in res:
                if any(o[0] == "inloop" for o in s.mem):
                    E.taint(s, "a loop is left early")
                t = C.reify(E, s, v)
                out.append((C.facts(s), t, frozenset(s.taint)))
            return C, E, out
        for k in new:
            C.loops[k] = C.rows.get(k, [])
        if not new:
            raise Undecided("loops that do not close")
    raise Undecided("loops that do not settle")


if __name__ == "__main__":
    import sys, suite, traceback
    S = suite.Suite("/repo")
    p = S.prog
    for b in sorted(p.bodies.values(), key=lambda b: str(b.key)):
        n = b.path.split("::")[-1]
        if b.local and n in sys.argv[1].split(",") and (len(sys.argv) < 3 or sys.argv[2] in b.path):
            try:
                C, E, rows = execute(p, b)
                print(b.key)
                for r in rows[:12]:
                    print("    ", r)
                if E.stats["unmodelled"]:
                    print("   UN", dict(E.stats["unmodelled"]))
            except Exception as e:
                print(b.key, "FAIL", repr(e))
                if len(sys.argv) > 3:
                    traceback.print_exc()
    S.close()
