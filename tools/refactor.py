"""refactor.py SPEC.py [NAME..] [-p PROPS] [-t]: apply behaviour-preserving edits to a scratch copy; the checks must stay quiet.
SPEC defines R = {name: [(file, old, new), ...]}; -t also runs the tests."""
import os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
R = ns["R"]
args = sys.argv[2:]
props = "ALL"
if "-p" in args:
    i = args.index("-p")
    props = args[i + 1]
    del args[i:i + 2]
tests = "-t" in args
args = [a for a in args if a != "-t"]


def one(name):
    d = "/tmp/rf_" + name
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    if tests:
        subprocess.run(["cp", "-a", "/repo/.", d], check=True)
    else:
        subprocess.run(["cp", "-a", "/repo/src", "/repo/Cargo.toml", d], check=True)
    try:
        for f, a, b in R[name]:
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(a) < 1:
                return name, "NOMATCH in %s: %r" % (f, a[:60])
            s = s.replace(a, b) if b.startswith("ALL:") else s.replace(a, b, 1)
            open(p, "w").write(s.replace("ALL:", ""))
        out = ""
        if tests:
            r = subprocess.run("CARGO_NET_OFFLINE=true cargo test --offline --lib 2>&1 | grep -E '^test result|error|FAILED|panicked' | head -5", shell=True, cwd=d, capture_output=True, text=True)
            out += "   tests: " + r.stdout.replace("\n", " | ") + "\n"
        import time; t0 = time.time()
        r = subprocess.run(["python3", "check.py", props, "--repo", d], cwd=ROOT, capture_output=True, text=True)
        keep = [l for l in r.stdout.splitlines() if "broken:" in l or l.startswith("UNDECIDED") or "VIOLATION" in l]
        und = [l for l in keep if l.startswith("UNDECIDED")]
        rest = [l for l in keep if not l.startswith("UNDECIDED")]
        err = r.stderr[-600:] if r.returncode not in (0, 1) or "Traceback" in r.stderr else ""
        out += "\n".join(["   " + x for x in rest[:14]] + ["   (%d undecided) %s" % (len(und), "\n        ".join(und[:6]))]) + ("\n" + err if err else "")
        return name, "rc=%d %ds\n%s" % (r.returncode, time.time() - t0, out)
    finally:
        shutil.rmtree(d, ignore_errors=True)


names = args or sorted(R)
with ThreadPoolExecutor(7) as ex:
    for n, o in ex.map(one, names):
        print("###", n, o, flush=True)
