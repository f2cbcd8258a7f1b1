#!/usr/bin/env python3
"""selftest.py PROPERTY [SCENARIOS] [CORRUPTIONS]

Is the binding between trace and specification tight?  Records traces of a few
scenarios from the current tree, corrupts one number or word of a record at a
time (each corruption in its own copy of the scenario's trace) and lets TLC
validate the copies.  Prints, per record kind and field, how many corruptions
were rejected.  Fields that are never rejected carry no obligation.
"""
import json, os, struct, random, sys, tempfile, shutil, collections, copy
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, check
from props import PROPS


def isreal(v):      # a double as its two 32-bit halves
    return isinstance(v, list) and len(v) == 2 and all(isinstance(x, int) and not isinstance(x, bool) for x in v) and (v == [0, 0] or abs(v[0]) > 10 ** 8)


def leaves(v, path=()):
    if isinstance(v, dict):
        for k, x in v.items():
            yield from leaves(x, path + (k,))
    elif isreal(v):
        yield path, v
    elif isinstance(v, list):
        for k, x in enumerate(v):
            yield from leaves(x, path + (k,))
    else:
        yield path, v


def corrupt(v, rnd):
    if isreal(v):
        x = struct.unpack(">d", struct.pack(">ii", *v))[0]
        return list(struct.unpack(">ii", struct.pack(">d", x * 1.05 + (0.013 if rnd.random() < 0.5 else 0.0 if x else 0.013))))
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return v + 1
    if isinstance(v, str):
        try:
            x = float(v)
        except ValueError:
            return None
        return repr(x * 1.05 + 0.013)
    if isinstance(v, float):
        return v * 1.05 + 0.013
    return None


def main():
    pid = sys.argv[1]
    nsc = int(sys.argv[2]) if len(sys.argv) > 2 else 24
    ncor = int(sys.argv[3]) if len(sys.argv) > 3 else 600
    P = PROPS[pid]; rnd = random.Random(11)
    work = tempfile.mkdtemp(prefix="self-%s-" % pid)
    exe = build.build([P["target"]])[P["target"]]
    scen, *_ = check.explore(P, work, 1, "quick")
    rnd.shuffle(scen); scen = scen[:nsc]
    for k, s in enumerate(scen):
        s["id"] = "%s.%d" % (pid, k); s["seed"] = rnd.randrange(1, 2 ** 30)
        for key, f in P.get("extra", {}).items():
            if key not in s:
                s[key] = f(rnd, s) if callable(f) else f
    bad, rec, tr, st, paths, _ = check.execute(P, exe, scen, work, 8)
    assert not bad, bad[:3]
    groups = collections.OrderedDict()
    for p in paths:
        for l in open(p):
            r = json.loads(l); groups.setdefault(r["id"], []).append(r)
    # candidate places: one per (kind, field) first
    cand = collections.defaultdict(list)
    for i, g in groups.items():
        for n, r in enumerate(g):
            kind = r["t"] + ":" + str(r.get("q", r.get("kind", r.get("op", r.get("f", "")))))
            for path, v in leaves(r):
                if path[0] in ("id", "t", "q", "kind", "what") or corrupt(v, rnd) is None:
                    continue
                cand[(kind, ".".join(str(x) for x in path if not isinstance(x, int)))].append((i, n, path))
    picks, keys = [], sorted(cand)
    for k in keys:
        rnd.shuffle(cand[k])
    rd = 0
    while len(picks) < ncor and any(len(cand[k]) > rd for k in keys):
        for k in keys:
            if len(cand[k]) > rd and len(picks) < ncor:
                picks.append((k,) + cand[k][rd])
        rd += 1
    files = [[] for _ in range(8)]
    for c, (k, i, n, path) in enumerate(picks):
        g = copy.deepcopy(groups[i])
        o = g[n]
        for x in path[:-1]:
            o = o[x]
        o[path[-1]] = corrupt(o[path[-1]], rnd)
        for r in g:
            r["id"] = "c.%d" % c
        files[c % 8].append(g)
    hit = set()

    def one(k):
        todo, got = files[k], set()
        # a copy no action explains stops the behaviour there: count it and go on behind it
        while todo:
            p = os.path.join(work, "cor%d.ndjson" % k)
            with open(p, "w") as f:
                for g in todo:
                    for r in g:
                        f.write(json.dumps(r) + "\n")
            try:
                b, *_ = check.validate(P, p, work)
            except check.Machinery as e:
                # an operator cannot be applied to the corrupted value: also a rejection; find it by bisection
                if len(todo) == 1:
                    got.add(todo[0][0]["id"]); return got
                h = len(todo) // 2
                for part in (todo[:h], todo[h:]):
                    files[k] = part; got |= one(k)
                return got
            got |= {x["id"] for x in b}
            stuck = [x["id"] for x in b if x["law"] == "no-such-step"]
            if not stuck:
                return got
            at = next(j for j, g in enumerate(todo) if g[0]["id"] == stuck[0])
            todo = todo[at + 1:]
        return got
    with ThreadPoolExecutor(8) as ex:
        for s in ex.map(one, range(8)):
            hit |= s
    tab = collections.OrderedDict()
    for c, (k, *_r) in enumerate(picks):
        t = tab.setdefault(k, [0, 0]); t[1] += 1; t[0] += "c.%d" % c in hit
    for k in sorted(tab, key=lambda k: tab[k][0] / tab[k][1]):
        print("%-28s %-28s %d/%d" % (k[0], k[1], tab[k][0], tab[k][1]))
    print("%s: %d of %d corruptions rejected; %d of %d fields never" % (pid, sum(t[0] for t in tab.values()), len(picks), sum(1 for t in tab.values() if t[0] == 0), len(tab)))
    shutil.rmtree(work, ignore_errors=True)


main()
