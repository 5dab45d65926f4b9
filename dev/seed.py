#!/usr/bin/env python3
"""seed.py make [id]     : write seeded/<id>/ from dev/seeds/*.py
   seed.py confirm [id]  : build, stable tests, demo with and without the patch (in /repo, undone)
   seed.py check [id]    : run the property's check with the patch applied"""
import os, sys, glob, json, shutil, subprocess, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
SEEDS = []
for f in sorted(glob.glob(os.path.join(V, "dev/seeds/*.py"))):
    exec(open(f).read())
HEAD = '''#!/bin/bash
# run with cwd /repo after the build; exit 0 when the property's behaviour holds
here=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demoXXXXXX)
trap 'rm -rf "$T"' EXIT
so=$(find "$PWD/_build" -name 'libmabain.so' | head -1)
lib=$(dirname "$so")
g++ -std=c++17 -O1 -w -D__LOCK_FREE__ -DMB_ENABLE_TRAVERSAL_LIMIT -I"$PWD/src" -I"$PWD/src/util" -I"$PWD/src/detail" "$here/%s" -o "$T/demo" -L"$lib" -lmabain -Wl,-rpath,"$lib" -lpthread -ldl || exit 9
'''
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def make(s):
    d = os.path.join(V, "seeded", s["id"]); os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix="seed_")
    sh("git -C %s archive HEAD | tar -x -C %s && cd %s && git init -q && git add -A && git -c user.name=a -c user.email=a@b commit -qm x" % (R, t, t))
    for f, o, n in s["edits"]:
        p = os.path.join(t, f); x = open(p).read()
        assert x.count(o) >= 1, (s["id"], f, o)
        if x.count(o) > 1 and not s.get("first"): print("note: %s: %d matches, first used" % (s["id"], x.count(o)))
        open(p, "w").write(x.replace(o, n, 1))
    open(os.path.join(d, "patch.diff"), "w").write(sh("git -C %s diff" % t).stdout)
    shutil.rmtree(t)
    src = s["src"]
    shutil.copy(os.path.join(V, "dev/demo", src), os.path.join(d, src))
    for x in s.get("more", []): shutil.copy(os.path.join(V, "dev/demo", x), os.path.join(d, x))
    p = os.path.join(d, "demo.sh"); open(p, "w").write(HEAD % src + s["run"] + "\n"); os.chmod(p, 0o755)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
def build():
    p = sh("bash /opt/vp/build.sh"); return p.returncode, p.stdout[-1500:]
def demo(s):
    try: p = sh("bash %s/seeded/%s/demo.sh" % (V, s["id"]), cwd=R, timeout=300); return p.returncode, p.stdout[-600:]
    except subprocess.TimeoutExpired: return 124, "timeout"
def confirm(s):
    if sh("git -C %s status --porcelain" % R).stdout.strip(): sys.exit("repo not clean")
    out = [s["id"]]
    build(); rc0, o0 = demo(s); out.append("clean demo %d" % rc0)
    if rc0: out.append(o0)
    a = sh("git -C %s apply %s/seeded/%s/patch.diff" % (R, V, s["id"]))
    if a.returncode: print("\n".join(out), "DOES NOT APPLY", a.stdout); return
    try:
        rc, o = build()
        if rc: out.append("BUILD FAILS " + o)
        else:
            rc1, o1 = demo(s); out.append("patched demo %d: %s" % (rc1, o1.strip()[-300:]))
            sh("bash /opt/vp/test.sh /tmp/seedres.json")
            r = json.load(open("/tmp/seedres.json")); b = json.load(open("/opt/vp/BASELINE.json"))
            miss = set(b["stable"]) - set(r["passed"]); out.append("tests missing: %s" % sorted(miss)[:5])
    finally: sh("git -C %s checkout -- ." % R)
    print(" | ".join(out), flush=True)
def check(s):
    a = sh("git -C %s apply %s/seeded/%s/patch.diff" % (R, V, s["id"])); assert a.returncode == 0, a.stdout
    try: p = sh("python3 check.py %s quick" % s["prop"], cwd=V); print(s["id"], p.returncode, [l for l in p.stdout.splitlines() if l.startswith(("VIOL", "ERR", "    id"))][:4], flush=True)
    finally: sh("git -C %s checkout -- ." % R)
if sys.argv[1] != "make" and "ISO" not in os.environ: # a private copy of /repo, so that a running vcheck is not disturbed
    os.environ["ISO"] = "1"
    c = "mount --make-rprivate / && rm -rf /tmp/isorepo && cp -a /repo /tmp/isorepo && mount --bind /tmp/isorepo /repo && mkdir -p /tmp/isovar && mount --bind /tmp/isovar /var/tmp && exec python3 %s %s" % (os.path.abspath(__file__), " ".join(sys.argv[1:]))
    sys.exit(subprocess.call(["unshare", "-m", "bash", "-c", c]))
cmd = sys.argv[1]; flt = sys.argv[2] if len(sys.argv) > 2 else ""
sel = [s for s in SEEDS if flt in s["id"]]
for s in sel:
    {"make": make, "confirm": confirm, "check": check}[cmd](s)
if cmd == "confirm": build()
