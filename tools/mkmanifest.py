"""Writes /verif/MANIFEST.json from the registered rules."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(root, "analysis"))
sys.dont_write_bytecode = True
import checks
NA = {
    "P21": "Equality of two trees obtained by printing and re-parsing relates runtime strings through the whole grammar; no sound static argument in reach "
           "bounds it, and it is in fact false today for some texts (DESIGN.md lists the escape gaps found by reading). The structural clauses that can be decided are claimed separately (P13, P14).",
    "P22": "Running time is a numerical property of inputs, and it is false today: constructs scan ahead to the end of the text and back off, so unclosed openers cost quadratic time. "
           "Only termination (P02) has a static answer here.",
}
props = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "./build_driver.sh serde", "checks": [], "not_applicable": []}
for p in props:
    if p in checks.RULES:
        M = checks.META[p]
        m["checks"].append({"property": p, "quick_cmd": "python3 check.py %s" % p, "thorough_cmd": "python3 check.py %s --thorough" % p,
                            "technique": "static analysis: " + M["technique"], "level": "other", "level_note": M["note"]})
    else:
        m["not_applicable"].append({"property": p, "reason": NA[p]})
m["notes"] = "All checks read the MIR of /repo's current source (exported on every run by a rustc_private driver, driver/) and decide the property by abstract interpretation or queries over it; nothing of /repo is executed."
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not applicable")
