#!/usr/bin/env python3
"""replay.py PROPERTY FILE : runs the scenarios of a replay file once more and
prints every rejected step."""
import sys, os, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, check
pid, path = sys.argv[1:3]
P = check.PROPS[pid]
scen = []
for l in open(path):
    l = l.strip()
    if l and not l.startswith("#"):
        scen.append(dict(w.split("=", 1) for w in l.split()))
exe = build.build([P["target"]])[P["target"]]
work = tempfile.mkdtemp(prefix="replay-")
bad = check.execute(P, exe, scen, work, min(8, len(scen)))[0]
shutil.rmtree(work, ignore_errors=True)
for b in bad:
    print("%(id)s %(law)s: %(detail)s" % b)
print("%d scenarios, %d rejected steps" % (len(scen), len(bad)))
sys.exit(1 if bad else 0)
