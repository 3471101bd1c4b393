#!/usr/bin/env python3
"""check.py PROP [--thorough] [--repo DIR]: decide one property of /repo's current source."""
import os, sys, time
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "analysis"))
sys.setrecursionlimit(20000)
import threading
threading.stack_size(512 << 20)


def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv else os.environ.get("VERIF_TIER", "quick")
    repo = sys.argv[sys.argv.index("--repo") + 1] if "--repo" in sys.argv else "/repo"
    import core, suite, checks
    S = suite.Suite(repo)
    rc = 0
    props = sorted(checks.RULES) if prop == "ALL" else prop.split(",")
    try:
        S.prog
        for p in props:
            rep = core.Report()
            try:
                checks.run(p, S, rep, tier == "thorough")
            except Exception as e:
                import traceback
                traceback.print_exc()
                rep.undecided("the whole property", "the analysis failed: %r" % e)
            rc = max(rc, core.finish(p, rep, tier, t0, checks.META[p]))
    finally:
        S.close()
    return rc


rc = [2]


def guarded():
    try:
        rc[0] = main()
    except SystemExit as e:
        rc[0] = e.code
    except BaseException:
        import traceback
        traceback.print_exc()


t = threading.Thread(target=guarded)
t.start()
t.join()
sys.stdout.flush()
os._exit(rc[0] if isinstance(rc[0], int) else 2)
