#!/usr/bin/env python3
"""C15: which directory the data files come from, for every combination of
compiler, optimisation, kind of library, installed or not, and history of the
environment variable.  The library is built from the working tree and installed
the way the makefile configure writes does it (the flag in the binary is
rewritten with configure's own sed expression)."""
import itertools, json, os, re, subprocess, sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
a = sys.argv[1:]
opt = {a[i][2:]: a[i + 1] for i in range(0, len(a) - 1, 2)}
tier, tmp = opt.get("tier", "quick"), opt["tmp"]
only = int(opt["replay"]) if "replay" in opt else None
shard, nsh = map(int, opt.get("shard", "0/1").split("/"))
res = dict(cases=0, ran=0, evaluations=0, transitions=0, traces=0, states=[], outcomes=[], samples=[], notes={}, violations=[], done=True)
hb = 0


def beat():
    global hb
    hb += 1
    if "beat" in opt:
        open(opt["beat"], "wb").write((res["cases"]).to_bytes(8, "little") + hb.to_bytes(8, "little"))


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **k)


def header(prefix, d):
    """resource_paths.h with configure's own text, and its sed expression"""
    os.makedirs(os.path.join(d, "build"), exist_ok=True)
    os.makedirs(os.path.join(d, "lib"), exist_ok=True)
    t = sh(["sed", "-n", r"/^INSTALL_FLAG_PREFIX=/,/> build\/resource_paths.h$/p", os.path.join(REPO, "configure")]).stdout.decode()
    r = sh(["bash", "-e", "-c", "SOURCE_PATH=%s; PREFIX='%s'; cd '%s'\n%s\nprintf %%s \"$REPLACE_INSTALL_FLAG\" > sedexpr" % (REPO, prefix, d, t)])
    if r.returncode:
        raise SystemExit("configure's header text: " + r.stderr.decode())
    os.replace(os.path.join(d, "build", "resource_paths.h"), os.path.join(d, "resource_paths.h"))
    return open(os.path.join(d, "sedexpr")).read()


VALUES = ["", "/", "/data/dir", "/data/dir/", "relative", "with space/x", "/very/" + "l" * 4000 + "/", "B", "A", "\u00e9\u4e2d", "$HOME", "~", "/usr/local/share/nuSQuIDS/", "NUSQUIDS_DATA_PATH"]
configs = [(cxx, o, shared, inst) for cxx in ("g++", "clang++") for o in ("-O0", "-O2", "-O3") for shared in (True, False) for inst in (False, True)]
PREFIX = "/opt/some prefix"
n = -1
for ci, (cxx, o, shared, inst) in enumerate(configs):
    n += 1
    res["cases"] += 1
    if only is not None and n != only or only is None and n % nsh != shard:
        continue
    beat()
    res["ran"] += 1
    d = os.path.join(tmp, "c%d" % ci)
    os.makedirs(d)
    expr = header(PREFIX, d)
    base = [cxx, "-std=c++11", o, "-fPIC", "-I" + d, "-I" + os.path.join(REPO, "include")]
    name = "%s %s %s %s" % (cxx, o, "shared" if shared else "static", "installed" if inst else "in place")

    def bad(key, msg):
        res["violations"].append(dict(key=key, msg=name + ": " + msg, case=n))
        print(key, name, msg)

    steps = [base + ["-c", os.path.join(REPO, "src/resources.cpp"), "-o", os.path.join(d, "resources.o")]]
    lib = os.path.join(d, "lib", "libr.so" if shared else "libr.a")
    steps.append([cxx, "-shared", os.path.join(d, "resources.o"), "-o", lib] if shared else ["ar", "-rcs", lib, os.path.join(d, "resources.o")])
    for s in steps:
        r = sh(s)
        if r.returncode:
            raise SystemExit("build failed: %s\n%s" % (" ".join(s), r.stderr.decode()))
    if inst:
        data = open(lib, "rb").read()
        r = sh(["sed", expr], input=data, env=dict(os.environ, LC_ALL="C"))
        if r.returncode or r.stdout == data or len(r.stdout) != len(data):
            bad("install", "the library cannot be marked as installed")
            continue
        os.unlink(lib)
        open(lib, "wb").write(r.stdout)
    exe = os.path.join(d, "drv")
    r = sh(base + [os.path.join(HERE, "respath.cpp"), lib, "-Wl,-rpath," + os.path.dirname(lib), "-o", exe])
    if r.returncode:
        raise SystemExit("link failed " + r.stderr.decode())
    default = PREFIX + "/share/nuSQuIDS/" if inst else REPO + "/data/"
    # every history of up to 3 (thorough 4) settings of the variable in one process, asking after each
    acts = [None] + VALUES
    hists = [h for k in range(0, 4 if tier == "thorough" else 3) for h in itertools.product(acts, repeat=k)]
    for h0 in (None, "/inherited"):
        env = {k: v for k, v in os.environ.items() if not k.startswith("NUSQUIDS")}
        if h0 is not None:
            env["NUSQUIDS_DATA_PATH"] = h0
        lines, want = ["g"], [h0 if h0 is not None else default]
        for h in hists:
            for v in h:
                lines.append("u" if v is None else "s" + v)
                lines.append("g")
                want.append(default if v is None else v)
                lines.append("g")
                want.append(want[-1])
            res["states"].append(hash((ci, h0, h)) & 0xffffffffffff)
        beat()
        r = sh([exe], input=("\n".join(lines) + "\n").encode(), env=env, cwd=d)
        got = [bytes.fromhex(x[1:].decode()).decode("utf-8", "replace") for x in r.stdout.split(b"\n") if x]
        res["transitions"] += len(want)
        res["traces"] += len(hists)
        res["evaluations"] += len(want)
        if r.returncode or len(got) != len(want):
            bad("crash", "exit status %s, %d answers of %d" % (r.returncode, len(got), len(want)))
            continue
        for i, (g, w) in enumerate(zip(got, want)):
            if g != w:
                bad("path", "answer %d was %r, expected %r" % (i, g[:80], w[:80]))
                break
        res["outcomes"].append(hash((name, h0)) & 0xffffffffffff)
    res["samples"] = res["samples"][:2] + [name + " -> " + default]
json.dump(res, open(opt["out"], "w"))
sys.exit(3 if res["violations"] else 0)
