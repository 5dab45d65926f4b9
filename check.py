#!/usr/bin/env python3
"""check.py <property> <quick|thorough>: decide one property on /repo's current source.

Compiles the current working tree to LLVM IR in a scratch directory, runs the
static analyser's rules for the property, and reports.  Exit 0 held, 1 violation,
2 the check could not decide (source does not compile, anchors vanished).
"""
import json, os, shutil, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib


def load_known():
    p = os.path.join(lib.VERIF, "known-findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []


def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else "quick")
    t0 = time.time()
    ev_dir = os.path.join(lib.VERIF, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="mbsa_")
    try:
        exe = lib.build_analyzer()
        libbc, allbc, tus = lib.bitcode(scratch)
        out = os.path.join(scratch, "out.json")
        bc = allbc
        log = lib.run([exe, bc, lib.REPO, prop, tier, out])
        r = json.load(open(out))
    except lib.Err as e:
        print("ERROR property=%s %s" % (prop, e))
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    known = [k for k in load_known() if k["property"] == prop]
    hit, new = [], []
    for f in r["findings"]:
        k = next((k for k in known if k["id"] == f["id"]), None)
        (hit if k else new).append((f, k))
    rules = sorted({o.split(":")[0] for o in r["obligations"] if ":" in o})
    nob = len(r["obligations"])
    cov = {
        "explanation": "static analysis of the LLVM IR of every library and mbc translation unit of the current tree",
        "rules": rules,
        "obligations": nob,
        "violated": len(r["findings"]),
        "functions_analysed": len(r["functions"]),
        "sites": len(r["sites"]),
        "translation_units": len(tus),
        "counts": r["counts"],
        "samples": {"obligations": r["obligations"][:400], "functions": r["functions"][:400], "sites": r["sites"][:400]},
        "notes": r["notes"],
    }
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": "other", "coverage": cov,
        "assumptions": ["see DESIGN.md, trusted base: LLVM front end, boundary models named in the rule"],
        "tools": ["clang 18 front end", "mbanalyze (/verif/analyzer)"],
        "exit_code": 2 if r["errors"] else (1 if new else 0),
        "wall_s": round(time.time() - t0, 2),
    }
    rd = os.path.join(ev_dir, "replay")
    if r["findings"]:
        os.makedirs(rd, exist_ok=True)
        json.dump(r["findings"], open(os.path.join(rd, prop + ".json"), "w"), indent=1)
    json.dump(ev, open(os.path.join(ev_dir, prop + ".json"), "w"), indent=1)
    for f, k in hit:
        print("KNOWN-FINDING: property=%s %s (%s:%d %s)" % (prop, k.get("what", f["msg"]), f["file"], f["line"], f["func"]))
    for f, _ in new:
        print("%s:%d: in %s: [%s] %s" % (f["file"], f["line"], f["func"], f["rule"], f["msg"]))
        if f["trace"]:
            print("    via " + f["trace"])
        print("    id: " + f["id"])
    for e in r["errors"]:
        print("ERROR property=%s %s" % (prop, e))
    if new:
        print("VIOLATION property=%s replay=%s" % (prop, os.path.join(rd, prop + ".json")))
        return 1
    if r["errors"] or nob == 0:
        print("ERROR property=%s undecided (%d obligations)" % (prop, nob))
        return 2
    print("OK property=%s tier=%s obligations=%d functions=%d sites=%d in %.1fs" % (
        prop, tier, nob, len(r["functions"]), len(r["sites"]), time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
