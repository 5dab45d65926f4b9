"""Shared: compile /repo's current source to one bitcode module (scratch dir)."""
import json, os, shlex, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MB_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
DEF = ["-D__LOCK_FREE__", "-DMB_ENABLE_TRAVERSAL_LIMIT"]
CC = ["clang++", "-std=c++17", "-O1", "-Xclang", "-disable-llvm-passes", "-g", "-fno-inline",
      "-fstandalone-debug", "-flto", "-fwhole-program-vtables", "-fvisibility=hidden", "-w"]


class Err(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        raise Err("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return p.stdout


def build_analyzer():
    import fcntl
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        run(["make", "-C", os.path.join(VERIF, "analyzer"), "-j8", "-s"])
    return os.path.join(BUILD, "mbanalyze")


def compile_db(scratch):
    """(source, flags) list from cmake's own view of the project; fallback: the documented flags."""
    out = []
    bd = os.path.join(scratch, "cm")
    try:
        run(["cmake", "-S", REPO, "-B", bd, "-G", "Ninja", "-DCMAKE_EXPORT_COMPILE_COMMANDS=ON",
             "-DCMAKE_C_COMPILER=gcc", "-DCMAKE_CXX_COMPILER=g++"])
        for e in json.load(open(os.path.join(bd, "compile_commands.json"))):
            a = shlex.split(e["command"])
            fl = [x for x in a if x.startswith(("-D", "-I", "-isystem"))]
            out.append((e["file"], fl, e["directory"]))
    except Exception as ex:
        print("note: cmake compile database unavailable (%s); using fallback flags" % str(ex)[:200])
        src = os.path.join(REPO, "src")
        for d in ("", "util", "detail"):
            dd = os.path.join(src, d)
            for f in sorted(os.listdir(dd)):
                if f.endswith(".cpp") and f != "lb_range_cache_shared.cpp":
                    out.append((os.path.join(dd, f), DEF + ["-I" + src, "-I" + src + "/util"], src))
        bd = os.path.join(REPO, "binaries")
        for f in sorted(os.listdir(bd)):
            if f.endswith(".cpp"):
                out.append((os.path.join(bd, f), ["-I" + src, "-I" + src + "/util"], src))
    return out


def bitcode(scratch):
    """Compile; returns (lib module, mbc module, list of TUs)."""
    db = compile_db(scratch)
    lib, mbc = [], []
    jobs = []
    for i, (f, fl, d) in enumerate(db):
        rel = os.path.relpath(f, REPO)
        o = os.path.join(scratch, "%02d_%s.bc" % (i, os.path.basename(f)))
        (lib if rel.startswith("src/") else mbc).append((rel, o))
        jobs.append((f, fl, d, o))
    if not lib:
        raise Err("no library sources found")

    def one(j):
        f, fl, d, o = j
        run(CC + fl + ["-emit-llvm", "-c", f, "-o", o + ".c"], cwd=d)
        run([os.path.join(BUILD, "mbanalyze"), "--protect", o + ".c", o])
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, jobs))
    res = []
    for name, objs in (("lib", lib), ("all", lib + mbc)):
        l = os.path.join(scratch, name + ".l.bc")
        p = os.path.join(scratch, name + ".bc")
        run(["llvm-link-18" if os.path.exists("/usr/bin/llvm-link-18") else "llvm-link"] + [o for _, o in objs] + ["-o", l])
        run(["opt-18" if os.path.exists("/usr/bin/opt-18") else "opt",
             "-passes=function(sroa,simplifycfg<no-switch-to-lookup;no-speculate-blocks;no-simplify-cond-branch>,early-cse)", l, "-o", p])
        res.append(p)
    return res[0], res[1], [r for r, _ in lib + mbc]
