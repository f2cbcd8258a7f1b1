#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from an edit of /repo (development tool; no check reads it)."""
import json, os, shutil, subprocess, tempfile, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/bin/bash
# exit 0: behaves; nonzero: the property is broken.  Run in /repo after the build.
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
r=$(pwd); mkdir "$t/inc"; ln -s "$r" "$t/inc/gsKLShell"
g++ -std=c++11 -O1 -w -DgsKLShell_DATA='""' -I"$d" -I/opt/gismo-core/src -I/opt/gismo-core/external -I"$r/_build" -I"$t/inc" \
    "$d/demo.cpp" -o "$t/demo" -L"$r/_build/lib" -lgismo -Wl,-rpath,"$r/_build/lib" -lpthread || exit 3
cd "$t" && OMP_NUM_THREADS=1 ./demo
'''
HEAD = '''#include "shell.h"
using namespace kl;
static int check(const char * what, double err, double tol) { std::printf("%s: %g (tolerance %g)\\n", what, err, tol); return err <= tol ? 0 : 1; }
'''


def seed(id, prop, edits, needs, breaks, demo):
    d = os.path.join(V, "seeded", id)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    t = tempfile.mkdtemp()
    subprocess.check_call(["git", "clone", "-q", "-s", "/repo", t + "/w"])
    try:
        for e in edits:                  # (file, unique text, new) or (file, anchors, first text after them, new)
            f, old, new = e[0], e[-2], e[-1]
            p = t + "/w/src/" + f
            s = open(p).read()
            i = 0
            for a in ([e[1]] if isinstance(e[1], str) else e[1]) if len(e) == 4 else []:
                i = s.index(a, i)
            assert len(e) == 4 or s.count(old) == 1, (id, f, s.count(old), old)
            i = s.index(old, i)
            open(p, "w").write(s[:i] + new + s[i + len(old):])
        diff = subprocess.check_output(["git", "-C", t + "/w", "diff"], text=True)
    finally:
        shutil.rmtree(t)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write(DEMO)
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.cpp", "w").write(HEAD + demo)
    for h in ("kl.h", "matdef.h", "shell.h"):
        shutil.copy(os.path.join(V, "harness", h), d)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    print("wrote", id)
