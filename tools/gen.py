#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and registry.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path[:0] = [HERE, V]
import props, registry
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for d, _, _ in props.TEXT:
        assert len(d["title"]) <= 80, (d["id"], len(d["title"]))
        assert d["statement"].count(". ") <= 2, d["id"]
        f.write(json.dumps(d) + "\n")
checks, na = [], []
for d, tech, note in props.TEXT:
    i = d["id"]
    if i in registry.PROPS:
        checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
                           technique=tech, level=registry.PROPS[i]["level"], level_note=note))
    else:
        na.append(dict(property=i, reason=props.NA.get(i, "no check yet")))
m = dict(version=1, setup_cmd="python3 -m py_compile check.py registry.py", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the harnesses use the public interface and interpose library calls. Each check rebuilds from /repo's working tree (VERIF_REPO overrides). See DESIGN.md and known_findings.txt.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
# the per-property section of DESIGN.md
dm = os.path.join(V, "DESIGN.md")
t = open(dm).read()
a, b = "<!-- properties -->\n", "<!-- end properties -->\n"
body = ""
for d, tech, note in props.TEXT:
    r = registry.PROPS.get(d["id"])
    body += "### %s %s\n%s\n\n" % (d["id"], d["title"], d["statement"])
    if r:
        body += "- decided by: %s. %s\n- counted: %s\n- quick: %s\n- thorough: %s\n" % (tech, note, r["rule"], r["bounds"]["quick"], r["bounds"]["thorough"])
        for x in r["assumptions"]:
            body += "- assumes: %s\n" % x
    else:
        body += "- not applicable: %s\n" % props.NA.get(d["id"], "no check yet")
    body += "- beyond the tests: %s\n\n" % d["why_tests_cant"]
if a in t:
    i, j = t.index(a) + len(a), t.index(b)
    t = t[:i] + body + t[j:]
else:
    t += "## Properties\n\n" + a + body + b
# the table of planted bugs
a, b = "<!-- seeds -->\n", "<!-- end seeds -->"
sd = os.path.join(V, "seeded")
if a in t and os.path.isdir(sd):
    by = {}
    for s in sorted(os.listdir(sd)):
        by.setdefault(json.load(open(os.path.join(sd, s, "meta.json")))["property"], []).append("`%s`" % s)
    i, j = t.index(a) + len(a), t.index(b)
    t = t[:i] + "| property | planted bugs |\n|---|---|\n" + "".join("| %s | %s |\n" % (k, ", ".join(by[k])) for k in sorted(by)) + t[j:]
open(dm, "w").write(t)
