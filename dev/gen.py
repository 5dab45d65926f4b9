#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from dev/props.py (the one place they are edited)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = set()
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in props.PROPS:
        assert p["id"] not in ids and len(p["title"]) <= 80, p["id"]
        ids.add(p["id"])
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["q"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]},
        }) + "\n")
m = {"version": 1,
     "setup_cmd": "python3 -c 'import lib; lib.build_analyzer()'",
     "checks": [{"property": p["id"],
                 "quick_cmd": "python3 check.py %s quick" % p["id"],
                 "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                 "technique": p["technique"], "level": "other", "level_note": p["note"],
                 "evidence_file": "evidence/%s.json" % p["id"]} for p in props.PROPS if not p.get("na")],
     "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in props.PROPS if p.get("na")]}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not applicable")

D = lambda n: open(os.path.join(V, "dev", n)).read()
sys.argv = ["seed.py", "none"]
def seeds():
    S = {"SEEDS": []}
    import glob
    for f in sorted(glob.glob(os.path.join(V, "dev/seeds/*.py"))):
        exec(open(f).read(), S)
    return S["SEEDS"]
o = D("design_head.md")
for p in props.PROPS:
    if not p.get("na"):
        o += "\n### %s %s\n\n%s\n" % (p["id"], p["title"], p["design"].strip())
o += "\n## Not applicable\n\n"
for p in props.PROPS:
    if p.get("na"):
        o += "* %s %s: %s\n" % (p["id"], p["title"], p["na"])
o += D("design_tail.md")
o += "\n| planted bug | property | caught by |\n|---|---|---|\n"
for s in seeds():
    o += "| %s | %s | %s |\n" % (s["id"], s["prop"], s.get("caught", "check of " + s["prop"]))
if os.path.exists(os.path.join(V, "dev/design_fixes.md")):
    o += D("design_fixes.md")
open(os.path.join(V, "DESIGN.md"), "w").write(o)
