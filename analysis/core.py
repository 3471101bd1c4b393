"""What every check shares: verdicts, evidence, known findings."""
import json, os, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report:
    """outcome of deciding one property"""

    def __init__(self):
        self.oblig = {}          # obligation -> "ok" | "undecided: why" | "broken"
        self.findings = {}       # key -> text
        self.cov = {}
        self.notes = []

    def ok(self, o):
        self.oblig.setdefault(str(o), "ok")

    def undecided(self, o, why):
        if self.oblig.get(str(o)) != "broken":
            self.oblig[str(o)] = "undecided: " + str(why)

    def bad(self, key, text, o=None):
        self.findings.setdefault(key, text)
        self.oblig[str(o or key)] = "broken"

    def require(self, cond, key, text):
        """an anchor or floor the rule depends on; fails closed"""
        if cond:
            self.ok("floor " + key)
        else:
            self.bad("anchor:" + key, "the analysis cannot find what the property is anchored in: " + text)


def known():
    with open(os.path.join(ROOT, "known_findings.json")) as f:
        return json.load(f)


def finish(prop, rep, tier, t0, meta):
    kn = {x["key"]: x for x in known()["findings"] if x["property"] == prop}
    ev = os.path.join(ROOT, "evidence")
    os.makedirs(ev, exist_ok=True)
    new = {k: v for k, v in rep.findings.items() if k not in kn}
    und = {k: v for k, v in rep.oblig.items() if v.startswith("undecided")}
    okn = sum(1 for v in rep.oblig.values() if v == "ok")
    cov = {
        "explanation": meta["explanation"],
        "rule": meta["rule"],
        "obligations": len(rep.oblig),
        "discharged": okn,
        "undecided": und,
        "broken": {k: rep.findings[k] for k in sorted(rep.findings)},
        "samples": sorted(rep.oblig)[:12],
    }
    cov.update(rep.cov)
    out = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
        "coverage": cov, "assumptions": meta.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(new),
    }
    tmp = os.path.join(ev, "%s.json.tmp%d" % (prop, os.getpid()))
    with open(tmp, "w") as f:
        json.dump(out, f, indent=1, sort_keys=True)
    os.replace(tmp, os.path.join(ev, prop + ".json"))
    for k in sorted(kn):
        if k in rep.findings:
            print("KNOWN-FINDING: property=%s %s" % (prop, kn[k]["what"]))
    for k, v in sorted(und.items()):
        print("UNDECIDED property=%s %s: %s" % (prop, k, v))
    print("%s: %d obligations, %d discharged, %d undecided, %d broken (%d listed as known) in %.1f s" % (
        prop, len(rep.oblig), okn, len(und), len(rep.findings), len(rep.findings) - len(new), time.time() - t0))
    if new:
        rp = os.path.join(ev, "%s.violation.txt" % prop)
        with open(rp, "w") as f:
            f.write("property %s is broken at:\n" % prop)
            for k, v in sorted(new.items()):
                f.write("\n[%s]\n%s\n" % (k, v))
        for k, v in sorted(new.items()):
            print("  broken: %s" % v)
        print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(rp, ROOT)))
        return 1
    return 0
