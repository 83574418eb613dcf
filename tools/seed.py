#!/usr/bin/env python3
"""Makes and tries planted bugs.
  seed.py new FILE.py      FILE.py defines SEEDS: dicts id, prop, file, edits [(old,new[,count])], demo (C++ source or None with sh), needs, breaks[, sh]
                           each is confirmed in a scratch copy of /repo and written to /verif/seeded/<id>/
  seed.py check [ID...]    runs the check of each seed's property against a scratch copy with the patch
  seed.py all ID           runs every check against that seed
"""
import json, os, shutil, subprocess, sys, concurrent.futures as cf
V = "/verif"; S = "/tmp/seedwork"
HDEMO = """#!/bin/bash
set -e
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=c++11 -O1 -g -w %s-I_build -Iinclude -I/usr/include/hdf5/serial "$d/demo.cpp" %s -o "$t/demo" -L/usr/lib/x86_64-linux-gnu/hdf5/serial -lhdf5_hl -lhdf5 -lgsl -lgslcblas -lm -lpthread
r=$PWD; cd "$t"; timeout 60 ./demo "$r"
"""
def sh(c, **k): return subprocess.run(c, shell=isinstance(c, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def copy(tag):
    d = os.path.join(S, tag); shutil.rmtree(d, ignore_errors=True); os.makedirs(S, exist_ok=True)
    sh(["cp", "-a", "/repo", d]); return d
def build(d): return sh("make -f /opt/vp/nusquids.mk -j4", cwd=d)
def tests(d):
    env = dict(os.environ, CXX="g++", CFLAGS="-I/usr/include/hdf5/serial", CXXFLAGS="-std=c++11", LC_ALL="C", LD_LIBRARY_PATH=d + "/_build/lib",
               LDFLAGS="-L%s/_build/lib -Wl,-rpath -Wl,%s/_build/lib -lnuSQuIDS -lpthread -lgsl -lgslcblas -lm -L/usr/lib/x86_64-linux-gnu/hdf5/serial -lhdf5_hl -lhdf5" % (d, d))
    sh("./run_tests tools_", cwd=d + "/test", env=env); t = open(d + "/test/Report.txt").read()
    import re; return all(re.search(n + r"\s*: Pass", t) for n in ("tools_integrator", "tools_tricubic")), t
def new(seed):
    i = seed["id"]; out = os.path.join(V, "seeded", i); d = copy("new_" + i)
    try:
        shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
        if seed.get("demo"): open(out + "/demo.cpp", "w").write(seed["demo"])
        for n, t in seed.get("files", {}).items():
            os.makedirs(os.path.dirname(os.path.join(out, n)), exist_ok=True); open(os.path.join(out, n), "w").write(t)
        open(out + "/demo.sh", "w").write(seed.get("sh") or HDEMO % (seed.get("flags", "") + " ", seed.get("lib", "_build/lib/libnuSQuIDS.a")))
        os.chmod(out + "/demo.sh", 0o755)
        json.dump(dict(property=seed["prop"], needs=seed["needs"], what_it_breaks=seed["breaks"]), open(out + "/meta.json", "w"), indent=1)
        r = build(d)
        if r.returncode: return i, "base build failed"
        r = sh(["bash", out + "/demo.sh"], cwd=d)
        if r.returncode: return i, "DEMO FAILS ON BASE: " + r.stdout[-800:]
        for e in seed["edits"]:
            f = os.path.join(d, e[3] if len(e) > 3 else seed["file"]); t = open(f).read(); n = e[2] if len(e) > 2 else 1
            if n is None: n = 1
            if t.count(e[0]) != n: return i, "EDIT: %d matches of %r" % (t.count(e[0]), e[0][:60])
            open(f, "w").write(t.replace(e[0], e[1]))
        df = sh(["git", "diff"], cwd=d).stdout; open(out + "/patch.diff", "w").write(df)
        r = build(d)
        if r.returncode: return i, "PATCHED BUILD FAILS " + r.stdout[-800:]
        ok, t = tests(d)
        if not ok: return i, "TESTS FAIL " + t[:500]
        r = sh(["bash", out + "/demo.sh"], cwd=d)
        if r.returncode == 0: return i, "DEMO PASSES WITH PATCH"
        return i, "ok (demo: %s)" % r.stdout.strip()[-100:].replace("\n", " | ")
    finally:
        shutil.rmtree(d, ignore_errors=True)
def check(i, prop=None):
    m = json.load(open(os.path.join(V, "seeded", i, "meta.json"))); prop = prop or m["property"]
    d = copy("chk_" + i + prop)
    try:
        r = sh(["git", "apply", os.path.join(V, "seeded", i, "patch.diff")], cwd=d)
        if r.returncode: return i, prop, "PATCH DOES NOT APPLY"
        env = dict(os.environ, VERIF_REPO=d, VERIF_BUILD=d + "/vb", VERIF_EVID=d)
        r = sh(["python3", "check.py", prop], cwd=V, env=env)
        ks = [l.strip()[:160] for l in r.stdout.split("\n") if l.startswith("  [")]
        return i, prop, ("CAUGHT " if r.returncode == 1 and "VIOLATION property=%s" % prop in r.stdout else "MISSED rc=%d " % r.returncode) + (" ## ".join(ks[:2]) if ks else r.stdout[-300:])
    finally:
        shutil.rmtree(d, ignore_errors=True)
if __name__ == "__main__":
    if sys.argv[1] == "new":
        g = {}; exec(open(sys.argv[2]).read(), g)
        sel = [s for s in g["SEEDS"] if len(sys.argv) < 4 or s["id"] in sys.argv[3:]]
        with cf.ThreadPoolExecutor(4) as ex:
            for i, m in ex.map(new, sel): print(i, m, flush=True)
    elif sys.argv[1] == "check":
        ids = sys.argv[2:] or sorted(os.listdir(V + "/seeded"))
        for i in ids: print(*check(i), flush=True)
    elif sys.argv[1] == "all":
        sys.path.insert(0, V); import registry
        for p in registry.PROPS: print(*check(sys.argv[2], p), flush=True)
