#!/usr/bin/env python3
"""Runs the checks of one property: builds its harnesses from the working tree
of /repo, explores, compares the violations with known_findings.txt, writes
evidence/<id>.json.

  check.py C01                     the check (tier from VERIF_TIER, default quick)
  check.py C01 --tier thorough
  check.py C01 --replay FILE       run again the case a replay file names
"""
import glob, json, os, re, shutil, signal, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILDROOT = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
sys.path.insert(0, HERE)
import registry

HDF5_INC = "/usr/include/hdf5/serial"
HDF5_LIB = "/usr/lib/x86_64-linux-gnu/hdf5/serial"
SAN = ["-fsanitize=address", "-fsanitize=bounds,null,shift,signed-integer-overflow,integer-divide-by-zero,return",
       "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
JOBS = 8


def log(*a):
    print(*a, flush=True)


def die(msg, code=2):
    log("ERROR:", msg)
    sys.exit(code)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def gen_headers(bd):
    """The two headers configure writes: resource_paths.h (with configure's own text) and version.h."""
    g = os.path.join(bd, "gen")
    os.makedirs(os.path.join(g, "build"), exist_ok=True)
    os.makedirs(os.path.join(g, "lib"), exist_ok=True)
    os.makedirs(os.path.join(g, "nuSQuIDS"), exist_ok=True)
    script = ("set -e\nSOURCE_PATH=%s; PREFIX=/usr/local; cd %s\n" % (REPO, g))
    r = sh(["sed", "-n", r"/^INSTALL_FLAG_PREFIX=/,/> build\/resource_paths.h$/p", os.path.join(REPO, "configure")])
    r = sh(["bash", "-e", "-c", script + r.stdout])
    src = os.path.join(g, "build", "resource_paths.h")
    if not os.path.exists(src):
        die("could not generate resource_paths.h: " + r.stdout)
    shutil.move(src, os.path.join(g, "resource_paths.h"))
    t = open(os.path.join(REPO, "configure"), errors="replace").read()
    m = re.search(r'^\s*VERSION_NUM="?(\d+)', t, re.M)
    num = int(m.group(1)) if m else 101201
    vs = "%d.%d.%d" % (num // 100000, num // 100 % 1000, num % 100)
    t = open(os.path.join(REPO, "resources", "version.h.in")).read()
    t = t.replace("__NUSQUIDS_VERSION_STR__", vs).replace("__NUSQUIDS_VERSION__", str(num))
    open(os.path.join(g, "nuSQuIDS", "version.h"), "w").write(t)
    return g


def build(h, bd, gen):
    """Compile one harness with the repository's sources it needs."""
    od = os.path.join(bd, h["name"])
    os.makedirs(od, exist_ok=True)
    cxx = h.get("cxx", "g++")
    base = [cxx, h.get("std", "-std=c++11"), h.get("opt", "-O1"), "-g1", "-w", "-pthread"]
    san = h.get("san", SAN)
    inc = []
    for d in h.get("inc_first", []):
        inc += ["-I" + os.path.join(HERE, d)]
    for d in h.get("repo_incs", []):
        inc += ["-I" + os.path.join(REPO, d)]
    inc += ["-I" + gen, "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(HERE, "lib"),
            "-I" + os.path.join(HERE, "stubs"), "-I" + HDF5_INC]
    jobs = []
    for s in h.get("repo_srcs", []):
        jobs.append((os.path.join(REPO, s), os.path.join(od, s.replace("/", "_") + ".o"), h.get("cflags", []) + san + h.get("src_flags", {}).get(s, [])))
    for s in [h["src"]] + h.get("extra_srcs", []):
        jobs.append((os.path.join(HERE, s), os.path.join(od, os.path.basename(s) + ".o"), h.get("cflags", []) + h.get("hflags", []) + san))
    for s in h.get("plain_srcs", []):
        jobs.append((os.path.join(HERE, s), os.path.join(od, os.path.basename(s) + ".o"), []))
    return base, inc, jobs, od


def compile_all(hs, bd, gen):
    todo, links = [], []
    for h in hs:
        if h.get("python"):
            continue
        base, inc, jobs, od = build(h, bd, gen)
        for src, obj, fl in jobs:
            todo.append(base + inc + fl + ["-c", src, "-o", obj])
        exe = os.path.join(od, "harness")
        links.append((h, base, inc, jobs, od, [h.get("cxx", "g++")] + h.get("san", SAN) + ["-pthread", "-g1"] + [o for _, o, _ in jobs] + h.get("ldflags", []) +
                     ["-L" + HDF5_LIB, "-lhdf5_hl", "-lhdf5", "-lgsl", "-lgslcblas", "-lm", "-ldl", "-o", exe]))
        h["exe"] = exe
    with ThreadPoolExecutor(JOBS) as ex:
        for cmd, r in zip(todo, ex.map(sh, todo)):
            if r.returncode:
                die("compile failed: %s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
        for l in list(links):
            h, base, inc, jobs, od, cmd = l
            r = sh(cmd)
            if r.returncode and "undefined reference" in r.stdout:
                # code may have moved between the sources: take in the others of the same folders
                mine, more = set(s for s, _, _ in jobs), []
                for d in sorted(set(["src"] + [os.path.dirname(s) for s in h.get("repo_srcs", [])])):
                    for f in sorted(glob.glob(os.path.join(REPO, d, "*.cpp"))):
                        if f not in mine and not re.search(r"^\s*int\s+main\s*\(", open(f, errors="replace").read(), re.M):
                            more.append((f, os.path.join(od, "more_" + os.path.basename(f) + ".o")))
                cc = [base + inc + h.get("cflags", []) + h.get("san", SAN) + ["-c", s, "-o", o] for s, o in more]
                objs = [o for (s, o), q in zip(more, ex.map(sh, cc)) if not q.returncode]
                k = cmd.index("-pthread")
                r = sh(cmd[:k] + objs + cmd[k:])
            if r.returncode:
                die("link failed: %s\n%s" % (" ".join(cmd), r.stdout[-6000:]))


def env_for(h):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = h.get("asan", "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0")
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
    for k in list(e):
        if k.startswith("NUSQUIDS"):
            del e[k]
    e["VERIF_REPO"] = REPO
    return e


class Shard:
    def __init__(self, h, bd, i, n, tier, only=None):
        self.h, self.i, self.n, self.only = h, i, n, only
        tag = "s%d" % i if only is None else "r%d" % only
        self.dir = os.path.join(bd, h["name"], "run_" + tag)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.out = os.path.join(self.dir, "result.json")
        self.beat = os.path.join(self.dir, "beat")
        self.logf = os.path.join(self.dir, "log")
        if h.get("python"):
            cmd = [h.get("interp", sys.executable), os.path.join(HERE, h["python"])]
        else:
            cmd = [h["exe"]]
        cmd += ["--tier", tier, "--out", self.out, "--beat", self.beat, "--tmp", self.dir]
        cmd += ["--replay", str(only)] if only is not None else ["--shard", "%d/%d" % (i, n)]
        cmd += h.get("args", [])
        self.cmd = cmd

    def run(self, deadline, stall):
        """-> (status, detail); status: ok, crash, hang, timeout"""
        with open(self.logf, "w") as lf:
            p = subprocess.Popen(self.cmd, stdout=lf, stderr=subprocess.STDOUT, cwd=self.dir, env=env_for(self.h), start_new_session=True)
            last, lastt = None, time.time()
            while True:
                try:
                    p.wait(timeout=0.05 if time.time() - lastt < 1 else 0.3)
                    break
                except subprocess.TimeoutExpired:
                    pass
                b = self.heartbeat()
                if b != last:
                    last, lastt = b, time.time()
                st = None
                if time.time() - lastt > stall:
                    st = "hang"
                elif time.time() > deadline:
                    st = "timeout"
                if st:
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except OSError:
                        pass
                    p.wait()
                    return st, self.tail()
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
        if p.returncode in (0, 3) and os.path.exists(self.out):
            return "ok", ""
        return "crash", "exit status %s\n%s" % (p.returncode, self.tail())

    def heartbeat(self):
        try:
            return open(self.beat, "rb").read(16)
        except OSError:
            return b""

    def case(self):
        b = self.heartbeat()
        return int.from_bytes(b[:8], "little") - 1 if len(b) == 16 else -1

    def tail(self):
        try:
            t = open(self.logf, errors="replace").read()
        except OSError:
            return ""
        m = re.search(r"ERROR: AddressSanitizer|runtime error:|terminate called|Assertion", t)
        return t[max(0, m.start() - 200):m.start() + 2500] if m else t[-2500:]

    def result(self):
        return json.load(open(self.out))


def crash_key(detail):
    m = re.search(r"AddressSanitizer: ([\w-]+)", detail)
    if m:
        return "crash:asan:" + m.group(1)
    m = re.search(r"runtime error: ([^\n]{0,60})", detail)
    if m:
        return "crash:ubsan:" + re.sub(r"[^a-z]+", "-", m.group(1).lower())[:40]
    m = re.search(r"exit status (-?\d+)", detail)
    return "crash:" + (m.group(1) if m else "?")


def load_known(prop):
    known = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                known[m.group(2)] = m.group(3)
    return known


def main():
    args = sys.argv[1:]
    prop = args.pop(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    while args:
        a = args.pop(0)
        if a == "--tier":
            tier = args.pop(0)
        elif a == "--replay":
            replay = args.pop(0)
    t0 = time.time()
    spec = registry.PROPS[prop]
    bd = os.path.join(BUILDROOT, prop)
    shutil.rmtree(bd, ignore_errors=True)
    os.makedirs(bd)
    gen = gen_headers(bd)
    hs = [dict(h) for h in spec["harnesses"]]
    if replay:
        r = json.load(open(replay))
        hs = [h for h in hs if h["name"] == r["harness"]]
        tier = r["tier"]
    compile_all(hs, bd, gen)
    tbuild = time.time() - t0
    budget = spec.get("budget", {}).get(tier, 600 if tier == "quick" else 3000)
    deadline = t0 + budget
    if replay:
        s = Shard(hs[0], bd, 0, 1, tier, only=r["case"])
        st, det = s.run(deadline, hs[0].get("stall", 60) * 2)
        log(open(s.logf, errors="replace").read()[-8000:])
        bad = st != "ok" or s.result()["violations"]
        log("replay:", st, "violation reproduced" if bad else "no violation")
        sys.exit(1 if bad else 0)

    shards = []
    for h in hs:
        n = h.get("shards", JOBS)
        for i in range(n):
            shards.append(Shard(h, bd, i, n, tier))
    viol, results, errors = [], [], []
    with ThreadPoolExecutor(JOBS) as ex:
        outs = list(ex.map(lambda s: s.run(deadline, s.h.get("stall", 60)), shards))
    for s, (st, det) in zip(shards, outs):
        if st == "ok":
            res = s.result()
            results.append((s, res))
            for v in res["violations"]:
                viol.append(dict(key=v["key"], msg=v["msg"], case=v["case"], s=s))
            continue
        c = s.case()
        if st == "timeout":
            errors.append("%s shard %d ran out of time at case %d" % (s.h["name"], s.i, c))
            continue
        # replay before reporting: alone, then if need be the whole shard again
        confirmed = None
        if c >= 0:
            r1 = Shard(s.h, bd, 0, 1, tier, only=c)
            st1, det1 = r1.run(time.time() + 400, s.h.get("stall", 60) * 2)
            if st1 in ("crash", "hang"):
                confirmed = (st1, det1)
            elif st1 == "ok" and r1.result()["violations"]:
                confirmed = ("crash", det)
        if confirmed is None:
            r2 = Shard(s.h, bd, s.i, s.n, tier)
            st2, det2 = r2.run(time.time() + 400, s.h.get("stall", 60) * 2)
            if st2 in ("crash", "hang"):
                confirmed, c = (st2, det2), r2.case()
            elif st2 == "ok":
                results.append((r2, r2.result()))
                for v in r2.result()["violations"]:
                    viol.append(dict(key=v["key"], msg=v["msg"], case=v["case"], s=s))
                continue
        if confirmed is None:
            errors.append("%s shard %d: %s not reproduced: %s" % (s.h["name"], s.i, st, det[-1500:]))
            continue
        key = crash_key(confirmed[1]) if confirmed[0] == "crash" else "hang"
        viol.append(dict(key=key, msg=confirmed[0] + ": " + confirmed[1], case=c, s=s))

    known = load_known(prop)
    new, seen = [], set()
    for v in viol:
        k = v["key"]
        if k in known:
            if k not in seen:
                log("KNOWN-FINDING: property=%s %s" % (prop, known[k]))
                seen.add(k)
        else:
            new.append(v)

    cov = dict(evaluations=0, transitions=0, traces_validated_against_impl=0, cases=0)
    states, outcomes, samples, notes = set(), set(), [], {}
    per = {}
    for s, r in results:
        cov["evaluations"] += r["evaluations"]
        cov["transitions"] += r["transitions"]
        cov["traces_validated_against_impl"] += r["traces"]
        cov["cases"] += r["ran"]
        nm = s.h["name"]
        states |= {(nm, x) for x in r["states"]}
        outcomes |= {(nm, x) for x in r["outcomes"]}
        if sum(1 for q in samples if q.startswith(nm + ": ")) < 3:
            samples += [nm + ": " + x for x in r["samples"][:2]]
        for k, n in r["notes"].items():
            notes[k] = notes.get(k, 0) + n
        per[nm] = per.get(nm, 0) + r["ran"]
    lvl = spec["level"]
    cov.update(states=len(states), distinct_nontrivial=len(outcomes) or len(states), samples=samples, notes=notes,
               cases_per_harness=per, exhaustive=not errors, rule=spec["rule"], bounds=spec.get("bounds", {}).get(tier, spec.get("bounds", {}).get("quick", "")))
    if lvl != "model_checking":
        if not cov["states"]:
            cov.pop("states")
        for k in ("transitions", "traces_validated_against_impl"):
            if not cov[k]:
                cov.pop(k)
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level=lvl, coverage=cov,
              assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(new))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(os.environ.get("VERIF_EVID", os.path.join(HERE, "evidence")), prop + ".json"), "w"), indent=1)
    log("%s %s: %d cases, %d states, %d transitions, %d evaluations, %d distinct outcomes, build %.1fs, total %.1fs" % (
        prop, tier, cov["cases"], len(states), cov["transitions"], cov["evaluations"], len(outcomes), tbuild, time.time() - t0))
    for k in sorted(notes):
        log("   %s: %d" % (k, notes[k]))

    if new:
        rd = os.path.join(HERE, "replays")
        os.makedirs(rd, exist_ok=True)
        done = set()
        for v in new:
            if v["key"] in done:
                continue
            done.add(v["key"])
            if len(done) > 8:
                break
            fn = os.path.join(rd, "%s_%s.json" % (prop, re.sub(r"[^A-Za-z0-9]+", "-", v["key"])[:60]))
            json.dump(dict(property=prop, harness=v["s"].h["name"], tier=tier, case=v["case"], key=v["key"], what=v["msg"],
                           replay="python3 %s/check.py %s --replay %s" % (HERE, prop, fn)), open(fn, "w"), indent=1)
            log("  [%s] case %d: %s" % (v["key"], v["case"], v["msg"][:1500]))
            log("VIOLATION property=%s replay=%s" % (prop, fn))
        keep = 1
    else:
        keep = 0
    if not os.environ.get("VERIF_KEEP"):
        shutil.rmtree(bd, ignore_errors=True)
    if new:
        sys.exit(1)
    if errors:
        die("; ".join(errors))
    if not results:
        die("nothing ran")
    sys.exit(0)


if __name__ == "__main__":
    main()
