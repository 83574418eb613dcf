#!/usr/bin/env python3
"""Rewrites the fixed: lines of known_findings.txt from /repo's fix: commits (one property each); finding: lines are kept."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RULES = [("solar radius of the SunASnu", "C16"), ("solar", "C31"), ("Python", "C30"), ("progress bar as it was", "C27"), ("failures of the parallel evolution", "C27"), ("whose reading failed takes no", "C28"), ("damaged files of atmospheric", "C28"), ("atmospheric state can be added", "C28"), ("new atmospheric object", "C26"), ("moved atmospheric object", "C26"), ("paths of an atmospheric object", "C26"), ("zeniths which do not exist", "C26"), ("compositions of flavors, types", "C26"), ("single zenith or energy", "C26"), ("solved in the mass basis are evaluated", "C26"), ("interactions without tables", "C25"), ("buffers of the interactions", "C21"), ("interaction tables keep their targets", "C24"), ("a moved object keeps", "C24"), ("a track which is not there", "C25"), ("mixing parameters of a state which does not", "C25"), ("the composition of flavors, nodes", "C25"), ("an initial state is required", "C25"), ("read into an object already in use", "C22"), ("before the first evolution", "C22"), ("need no padding", "C22"), ("used object can be given tables", "C22"), ("holds several values", "C23"), ("bodies and tracks which could not", "C23"), ("a state which could not be stored", "C23"), ("stored states are refused", "C23"), ("stays unusable until", "C23"), ("old state files", "C23"), ("basis in which it was being solved", "C22"), ("another number of neutrinos", "C22"), ("a state file cannot combine", "C23"), ("cross sections, tau regeneration and the Glashow", "C21"), ("attributed to each target", "C21"), ("neutrino sources are counted once", "C21"), ("interaction tables which could not", "C21"), ("energies at which the Glashow", "C21"), ("neutral-current potential", "C20"), ("solver step points", "C20"), ("positivity steps", "C20"), ("constant density shortcut", "C20"), ("GetHamiltonian", "C20"), ("switching oscillations", "C20"), ("Glashow", "C19"), ("V1 does not read past", "C19"), ("ross section", "C18"), ("V1 tables", "C18"), ("ThreadPool", "C01"), ("releases the new buffer of a failed", "C03"), ("wrong size leaked", "C03"), ("whose construction failed", "C03"), ("division", "C04"), ("atan2", "C04"),
         ("aligned_allocator", "C05"), ("TriCubic", "C07"), ("quickread", "C08"), ("quickwrite", "C08"), ("compress an array", "C09"), ("empty string attribute", "C09"),
         ("Workspace", "C12"), ("integrate does", "C12"), ("AdaptiveQuad", "C13"), ("TauDecay", "C14"), ("H5", "C10"), ("string attributes", "C10"),
         ("string type made for body", "C17"), ("impact parameter of SunASnu", "C17"), ("end points of EarthAtm", "C17"), ("EarthAtm", "C16"), ("SunASnu", "C16"), ("marray", "C02")]
out = []
for l in subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.split("\n"):
    h, _, s = l.partition(" ")
    if not s.startswith("fix: "):
        continue
    m = s[5:]
    for k, p in RULES:
        if k in m:
            out.append("fixed: property=%s %s %s" % (p, h, m))
            break
    else:
        sys.exit("no property for: " + m)
f = os.path.join(V, "known_findings.txt")
keep = [x.rstrip("\n") for x in open(f)] if os.path.exists(f) else []
keep = [x for x in keep if x and not x.startswith("fixed:")]
open(f, "w").write("\n".join(keep + out) + "\n")
