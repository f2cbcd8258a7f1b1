#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

One check = (1) TLC explores the specification of the property's part of the
system (exhaustively within the constants of its .cfg, or by seeded simulation)
and emits the scenarios; (2) the harness, built from /repo's working tree, runs
them and records a trace; (3) TLC validates the trace against the
specification.  A rejection is repeated before it is reported.
Exit 0: every trace accepted.  Exit 1 and a VIOLATION line: rejected.
Exit 2: the machinery itself failed.
"""
import json, os, random, re, subprocess, sys, time, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from props import PROPS

VERIF = build.VERIF
SPEC = os.path.join(VERIF, "spec")
NCPU = os.cpu_count() or 8
JAVA = ["java", "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-XX:TieredStopAtLevel=4",
        "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:RealOverrides",
        "-cp", build.BUILD + "/java:/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar", "tlc2.TLC"]


class Machinery(Exception):
    pass


def tlc(spec, cfg, work, env=None, args=(), mem="2g", timeout=800):
    md = tempfile.mkdtemp(prefix="md", dir=work)
    e = dict(os.environ, **(env or {}))
    cmd = [JAVA[0], "-Djava.io.tmpdir=" + md, "-Xmx" + mem] + JAVA[1:] + ["-metadir", md, "-noGenerateSpecTE", "-config", cfg] + list(args) + [spec + ".tla"]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Machinery("TLC timed out on %s %s" % (spec, cfg))
    shutil.rmtree(md, ignore_errors=True)
    return r.returncode, r.stdout


def stats(out):
    m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", out)
    if m:
        g, d = (int(x.replace(",", "")) for x in m[-1])
        return g, d
    m = re.findall(r"The number of states generated: ([\d,]+)", out)
    return (int(m[-1].replace(",", "")),) * 2 if m else (0, 0)


def unq(s):
    return s.replace('\\"', '"').replace("\\\\", "\\")


# ------------------------------------------------------------------- stage 1
def explore(P, work, seed, tier):
    """Runs the model (exhaustive) and returns scenarios, states, transitions."""
    scen, states, trans, log = [], 0, 0, []
    for g in P.get("explore", []):
        if g.get("tier", tier) != tier:
            continue
        args = list(g.get("args", []))
        if g.get("simulate"):
            num = g["simulate"][1 if tier == "thorough" else 0]
            args += ["-simulate", "num=%d" % num, "-depth", str(g.get("depth", 30)), "-seed", str(seed), "-workers", "1"]
        else:
            args += ["-workers", str(g.get("workers", 1 if g.get("emit") else 4))]
        rc, out = tlc(g["spec"], g["cfg"], work, args=args)
        if rc != 0 or "Error:" in out:
            raise Machinery("model %s/%s is not accepted by TLC:\n%s" % (g["spec"], g["cfg"], out[-3000:]))
        a, b = stats(out)
        trans += a; states += b
        log.append("%s/%s: %d states generated, %d distinct" % (g["spec"], g["cfg"], a, b))
        if g.get("emit"):
            got = [json.loads(unq(l[6:-1])) for l in out.splitlines() if l.startswith('"SCEN ')]
            uniq, seen = [], set()
            for s in got:
                k = json.dumps(s, sort_keys=True)
                if k not in seen:
                    seen.add(k); uniq.append(s)
            for s in uniq:
                s["_src"] = g["spec"] + "/" + g["cfg"]
            scen += sample(uniq, g, seed, tier)
    return scen, states, trans, log


def sample(all_, g, seed, tier):
    """Seeded selection that first covers every value and pair of values."""
    n = g["emit"][1 if tier == "thorough" else 0]
    rnd = random.Random(seed * 7919 + 13)
    rnd.shuffle(all_)
    if n >= len(all_):
        return all_
    keys = [k for k in all_[0] if not k.startswith("_") and isinstance(all_[0][k], (str, int, bool))]
    def pairs(s):
        v = [(k, s.get(k)) for k in keys]
        return {(v[i], v[j]) for i in range(len(v)) for j in range(i + 1, len(v))}
    chosen, rest, cov = [], [], set()
    for s in all_:
        if len(chosen) < n:
            p = pairs(s) - cov
            if len(p) >= g.get("gain", 1):
                chosen.append(s); cov |= p
                continue
        rest.append(s)
    return chosen + rest[:n - len(chosen)]


# ------------------------------------------------------------------- stage 2+3
def run_harness(exe, lines, path, timeout):
    sf = path + ".scen"
    with open(sf, "w") as f:
        f.write("\n".join(lines) + "\n")
    e = dict(os.environ, OMP_NUM_THREADS="1")
    r = subprocess.run([exe, sf, path], env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=timeout)
    if r.returncode:
        raise Machinery("harness %s exit %d" % (exe, r.returncode))
    return sum(1 for _ in open(path))


BAD = re.compile(r'^"BAD\|(.*)"$')


def validate(P, path, work):
    n = sum(1 for _ in open(path))
    if n == 0:
        raise Machinery("empty trace")
    rc, out = tlc(P["trace"], P.get("trace_cfg", P["trace"] + ".cfg"), work, env={"TRACE": path}, args=["-workers", "1"])
    bad = []
    for l in out.splitlines():
        m = BAD.match(l)
        if m:
            f = unq(m.group(1)).split("|")
            bad.append(dict(id=f[0], law=f[1], line=f[2], detail="|".join(f[3:])))
    a, b = stats(out)
    if "Error:" in out:
        if "Postcondition Accepted" in out and out.count("Error:") == 1:
            if not bad:     # stuck: a line of the trace that no action of the specification explains
                m = re.findall(r"([\d,]+) distinct states found", out)
                k = int(m[-1].replace(",", ""))
                line = open(path).read().splitlines()[k - 1]
                bad.append(dict(id=json.loads(line)["id"], law="no-such-step", line=str(k), detail=line[:300]))
        else:
            raise Machinery("trace validation failed:\n" + out[-4000:])
    elif rc != 0:
        raise Machinery("TLC exit %d\n%s" % (rc, out[-3000:]))
    elif bad or b != n + 1:
        raise Machinery("inconsistent acceptance (%d bad, %d of %d lines)\n%s" % (len(bad), b, n, out[-2000:]))
    return bad, a, b


def execute(P, exe, scen, work, shards, timeout=700):
    def val(v):
        return ";".join(",".join(map(str, x)) if isinstance(x, list) else str(x) for x in v) if isinstance(v, list) else str(v)
    lines = [" ".join("%s=%s" % (kv[0], val(kv[1])) for kv in s.items() if not kv[0].startswith("_")) for s in scen]
    # heavy scenarios are spread over the shards
    parts = [lines[k::shards] for k in range(shards)]
    parts = [p for p in parts if p]
    def one(k):
        path = os.path.join(work, "trace%d.ndjson" % k)
        nrec = run_harness(exe, parts[k], path, timeout)
        return (path, nrec) + tuple(validate(P, path, work))
    bad, rec, tr, st, paths = [], 0, 0, 0, []
    with ThreadPoolExecutor(NCPU) as ex:
        for path, nrec, b, a, d in ex.map(one, range(len(parts))):
            bad += b; rec += nrec; tr += a; st += d; paths.append(path)
    return bad, rec, tr, st, paths, dict(zip([s["id"] for s in scen], lines))


KIND = re.compile(r'"t":"([^"]*)"')
SUB = re.compile(r'"(?:q|kind|op|f)":"([^"]*)"')


def kinds(paths):
    """How many records of each kind were judged."""
    n = {}
    for p in paths:
        for l in open(p):
            a, b = KIND.search(l[:400]), SUB.search(l[:400])
            k = (a.group(1) if a else "?") + (":" + b.group(1) if b else "")
            n[k] = n.get(k, 0) + 1
    return n


def known(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r"known: property=(\S+) law=(\S+) when=(\S+) (.*)", l)
            if m and m.group(1) == pid:
                cond = [c.split("=", 1) for c in m.group(3).split(",") if "=" in c]
                out.append(dict(law=m.group(2), cond=cond, text=m.group(4), hits=0))
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    P = PROPS[pid]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="chk-%s-" % pid, dir=os.environ.get("TMPDIR", "/tmp"))
    try:
        with ThreadPoolExecutor(2) as ex:
            fb = ex.submit(build.build, [P["target"]])
            fe = ex.submit(explore, P, work, seed, tier)
            exe = fb.result()[P["target"]]
            scen, mstates, mtrans, log = fe.result()
        tb = time.time() - t0
        rnd = random.Random(seed * 104729 + 7)
        for k, s in enumerate(scen):
            s["id"] = "%s.%d" % (pid, k)
            s["seed"] = rnd.randrange(1, 2 ** 30)
            for key, f in P.get("extra", {}).items():
                if key not in s:
                    s[key] = f(rnd, s) if callable(f) else f
        if not scen:
            raise Machinery("no scenario")
        bad, rec, tr, st, paths, lines = execute(P, exe, scen, work, P.get("shards", NCPU))
        byid = {s["id"]: s for s in scen}
        kf = known(pid)
        confirmed, fails = [], {}
        if bad:
            again = sorted({b["id"] for b in bad}, key=lambda x: int(x.split(".")[1]))
            w2 = os.path.join(work, "again"); os.mkdir(w2)
            bad2, *_ = execute(P, exe, [byid[i] for i in again], w2, min(NCPU, len(again)))
            rep = {(b["id"], b["law"]) for b in bad2}
            for b in bad:
                if (b["id"], b["law"]) not in rep:
                    print("note: not repeated: %(id)s %(law)s %(detail)s" % b)
                    continue
                s = byid[b["id"]]
                for k in kf:
                    if re.fullmatch(k["law"], b["law"]) and all(str(s.get(c[0])) == c[1] for c in k["cond"]):
                        k["hits"] += 1
                        break
                else:
                    confirmed.append(b)
        for k in kf:
            if k["hits"]:
                print("KNOWN-FINDING: property=%s %s" % (pid, k["text"]))
        ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", wall_s=round(time.time() - t0, 1),
                  violations=len(confirmed),
                  coverage=dict(states=mstates + st, transitions=mtrans + tr, traces_validated_against_impl=len(scen),
                                records_validated=rec, records_by_kind=kinds(paths), model_states=mstates, trace_states=st, model_log=log,
                                laws=P.get("laws", ""), build_and_explore_s=round(tb, 1),
                                known_findings_hit=sum(k["hits"] for k in kf),
                                samples=[lines[s["id"]] for s in scen[:3]] + [open(paths[0]).read(600)]),
                  assumptions=P.get("assumptions", []))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if confirmed:
            rp = os.path.join(VERIF, "evidence", pid + ".replay.txt")
            ids = []
            for b in confirmed:
                if b["id"] not in ids:
                    ids.append(b["id"])
            with open(rp, "w") as f:
                f.write("# harness %s, specification %s; run: tools/replay.py %s %s\n" % (P["target"], P["trace"], pid, rp))
                for i in ids:
                    f.write(lines[i] + "\n")
                for b in confirmed:
                    f.write("# %(id)s violates %(law)s at trace line %(line)s: %(detail)s\n" % b)
            for b in confirmed[:12]:
                print("%(id)s %(law)s: %(detail)s" % b + "   [" + lines[b["id"]] + "]")
            print("%d violations in %d scenarios" % (len(confirmed), len(ids)))
            print("VIOLATION property=%s replay=%s" % (pid, rp))
            return 1
        print("%s %s: %d scenarios, %d records accepted, %d model states, %.1f s" % (pid, tier, len(scen), rec, mstates, time.time() - t0))
        return 0
    finally:
        if not os.environ.get("KEEP"):
            shutil.rmtree(work, ignore_errors=True)
        else:
            print("kept", work)


if __name__ == "__main__":
    try:
        rc = main()
    except (Machinery, build.BuildError, subprocess.TimeoutExpired, OSError) as e:
        print("check failed to run: %s" % e)
        rc = 2
    sys.exit(rc)
