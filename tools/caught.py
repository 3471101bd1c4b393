#!/usr/bin/env python3
"""caught.py [ID..]: run each planted bug's own check (in a scratch copy) and say whether it is reported."""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(ROOT, "seeded")
args = sys.argv[1:]
allp = "-a" in args
args = [a for a in args if a != "-a"]


def one(b):
    d = "/tmp/cg_" + b
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    try:
        subprocess.run(["cp", "-a", "/repo/src", "/repo/Cargo.toml", d], check=True)
        subprocess.run(["git", "apply", "--unsafe-paths", "--directory", d, os.path.join(S, b, "patch.diff")], check=True, cwd="/")
        p = json.load(open(os.path.join(S, b, "meta.json")))["property"]
        r = subprocess.run(["python3", "check.py", "ALL" if allp else p, "--repo", d], cwd=ROOT, capture_output=True, text=True)
        hit = sorted({l.split("property=")[1].split()[0] for l in r.stdout.splitlines() if l.startswith("VIOLATION")})
        und = sum(l.startswith("UNDECIDED") for l in r.stdout.splitlines())
        det = [l for l in r.stdout.splitlines() if "broken:" in l][:2]
        return "%-34s %s %-8s by %s (%d undecided)\n%s" % (b, p, "CAUGHT" if p in hit else "missed", ",".join(hit), und, "\n".join(det))
    finally:
        shutil.rmtree(d, ignore_errors=True)


with ThreadPoolExecutor(5) as ex:
    for o in ex.map(one, args or sorted(os.listdir(S))):
        print(o, flush=True)
