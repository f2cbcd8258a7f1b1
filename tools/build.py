#!/usr/bin/env python3
"""Builds the conformance harnesses from /repo's current working tree.

Objects are cached under /verif/build by a hash of what the compiler reads from
/repo (comments and white space removed), the harness sources and the flags, so
that a check never uses an object of another tree and an edit that only touches
comments costs nothing.  Nothing is ever written to /repo.
"""
import threading, hashlib, os, re, subprocess, sys, glob, shutil, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CORE = "/opt/gismo-core"
BUILD = os.path.join(VERIF, "build")
OBJ = os.path.join(BUILD, "obj")
CFGINC = os.path.join(BUILD, "config")          # generated gsCore/gsConfig.h ...
LIBCORE = os.path.join(BUILD, "libcore.so")
PCHDIR = os.path.join(BUILD, "pch")
CXX = os.environ.get("CXX", "g++")
OPT = ["-O1", "-std=c++11", "-fPIC", "-w", '-DgsKLShell_DATA="/nonexistent/"']
INC = ["-I" + CORE + "/src", "-I" + CORE + "/external", "-I" + CFGINC]


class BuildError(Exception):
    pass


def strip(text):
    """C++ text without comments, white space squeezed."""
    out, i, n = [], 0, len(text)
    while i < n:
        c = text[i]
        if c == '"':
            if out and out[-1] == 'R':          # raw string
                m = re.match(r'"([^()\\ ]{0,16})\(', text[i:])
                if m:
                    end = text.find(')' + m.group(1) + '"', i)
                    end = n if end < 0 else end + len(m.group(1)) + 2
                    out.append(text[i:end]); i = end
                    continue
            j = i + 1
            while j < n and text[j] != '"' and text[j] != '\n':
                j += 2 if text[j] == '\\' else 1
            out.append(text[i:j + 1]); i = j + 1
        elif c == "'":
            j = i + 1
            while j < n and text[j] != "'" and text[j] != '\n':
                j += 2 if text[j] == '\\' else 1
            out.append(text[i:j + 1]); i = j + 1
        elif text.startswith('//', i):
            while i < n and text[i] != '\n':
                if text[i] == '\\' and i + 1 < n and text[i + 1] == '\n':
                    i += 1
                i += 1
        elif text.startswith('/*', i):
            j = text.find('*/', i + 2)
            i = n if j < 0 else j + 2
            out.append(' ')
        else:
            out.append(c); i += 1
    s = ''.join(out)
    s = re.sub(r'[ \t\r]+', ' ', s)
    return re.sub(r' ?\n[ \n]*', '\n', s)


_files = {}


def load(path):
    if path not in _files:
        try:
            with open(path, encoding="utf-8", errors="surrogateescape") as f:
                t = strip(f.read())
        except OSError:
            t = None
        _files[path] = t
    return _files[path]


def resolve(inc, frm):
    """The file under /repo or /verif/harness an include names, or None (core, system)."""
    cands = []
    if inc.startswith("gsKLShell/"):
        cands.append(os.path.join(REPO, inc[len("gsKLShell/"):]))
    cands.append(os.path.join(os.path.dirname(frm), inc))
    cands.append(os.path.join(VERIF, "harness", inc))
    for c in cands:
        c = os.path.normpath(c)
        if os.path.isfile(c) and (c.startswith(REPO + "/") or c.startswith(VERIF + "/")):
            return c
    return None


def closure(path):
    seen, todo = {}, [path]
    while todo:
        p = todo.pop()
        if p in seen:
            continue
        t = load(p)
        if t is None:
            continue
        seen[p] = t
        for m in re.finditer(r'#[ ]?include[ ]?[<"]([^>"]+)[>"]', t):
            q = resolve(m.group(1), p)
            if q and q not in seen:
                todo.append(q)
    return seen


def digest(path, flags):
    h = hashlib.sha256()
    h.update(repr(flags).encode())
    for p, t in sorted(closure(path).items()):
        h.update(p.encode() + b"\0" + t.encode("utf-8", "surrogateescape") + b"\0")
    h.update(core_id().encode())
    return h.hexdigest()[:32]


_cid = None


def core_id():
    global _cid
    if _cid is None:
        try:
            _cid = open(os.path.join(BUILD, "core.id")).read()
        except OSError:
            _cid = "none"
    return _cid


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if r.returncode:
        raise BuildError("%s\nexit %d\n%s" % (" ".join(cmd), r.returncode, r.stdout[-6000:]))
    return r.stdout


def overlay():
    """Include directory in which gsKLShell/ is the tree under test."""
    d = os.path.join(BUILD, "inc")
    os.makedirs(d, exist_ok=True)
    link = os.path.join(d, "gsKLShell")
    if not (os.path.islink(link) and os.readlink(link) == REPO):
        tmp = link + ".%d.%d" % (os.getpid(), threading.get_ident())
        os.symlink(REPO, tmp)
        os.replace(tmp, link)
    return d


def compile_one(src):
    flags = OPT
    key = digest(src, flags)
    obj = os.path.join(OBJ, os.path.basename(src).replace(".cpp", "") + "-" + key + ".o")
    if os.path.exists(obj):
        os.utime(obj)
        return obj, False
    tmp = obj + ".%d.tmp.o" % os.getpid()
    inc = INC + ["-I" + overlay(), "-I" + os.path.join(VERIF, "harness")]
    run([CXX] + flags + ["-include", os.path.join(PCHDIR, "pch.h")] + inc + ["-c", src, "-o", tmp])
    os.replace(tmp, obj)
    return obj, True


def make_core():
    """One-time: the G+Smo core as a shared library without the module under test."""
    os.makedirs(OBJ, exist_ok=True)
    os.makedirs(PCHDIR, exist_ok=True)
    bdir = "/repo/_build"
    objs = sorted(glob.glob(bdir + "/src/CMakeFiles/*.dir/**/*.o", recursive=True)
                  + glob.glob(bdir + "/external/gzstream/CMakeFiles/gzstream.dir/*.o"))
    if len(objs) < 100 or not os.path.exists(bdir + "/gsCore/gsConfig.h"):
        bdir = os.path.join(BUILD, "core")
        run(["cmake", "-S", CORE, "-B", bdir, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=RelWithDebInfo",
             "-DCMAKE_C_COMPILER=gcc", "-DCMAKE_CXX_COMPILER=g++", "-DCMAKE_CXX_STANDARD=11",
             "-DCMAKE_CXX_FLAGS_RELWITHDEBINFO=-O2", "-DTARGET_ARCHITECTURE=generic",
             "-DGISMO_OPTIONAL=", "-DGISMO_BUILD_EXAMPLES=OFF", "-DGISMO_BUILD_UNITTESTS=OFF", "-DNOSNIPPETS=ON"])
        run(["ninja", "-C", bdir, "gismo"])
        objs = sorted(glob.glob(bdir + "/src/CMakeFiles/*.dir/**/*.o", recursive=True)
                      + glob.glob(bdir + "/external/gzstream/CMakeFiles/gzstream.dir/*.o"))
    shutil.rmtree(CFGINC, ignore_errors=True)
    os.makedirs(CFGINC)
    shutil.copytree(bdir + "/gsCore", CFGINC + "/gsCore")
    for e in ("config", "Eigen"):
        if os.path.isdir(os.path.join(bdir, e)):
            shutil.copytree(os.path.join(bdir, e), os.path.join(CFGINC, e), symlinks=True)
    rsp = os.path.join(BUILD, "core.rsp")
    with open(rsp, "w") as f:
        f.write("\n".join(objs))
    run([CXX, "-shared", "-o", LIBCORE + ".tmp", "@" + rsp, "-lz", "-lpthread"])
    os.replace(LIBCORE + ".tmp", LIBCORE)
    pch = os.path.join(PCHDIR, "pch.h")
    with open(pch, "w") as f:
        f.write("#include <gismo.h>\n#include <gsAssembler/gsExprAssembler.h>\n#include <gsAssembler/gsExprEvaluator.h>\n")
    run([CXX] + OPT + INC + ["-x", "c++-header", pch, "-o", pch + ".gch"])
    java_build()
    with open(os.path.join(BUILD, "core.id"), "w") as f:
        f.write(hashlib.sha256(open(LIBCORE, "rb").read()).hexdigest())
    global _cid
    _cid = None


def java_build():
    src = os.path.join(VERIF, "java", "RealOverrides.java")
    out = os.path.join(BUILD, "java")
    os.makedirs(out, exist_ok=True)
    key = hashlib.sha256(open(src, "rb").read()).hexdigest()
    stamp = os.path.join(out, "stamp")
    if os.path.exists(stamp) and open(stamp).read() == key and os.path.exists(out + "/RealOverrides.class"):
        return out
    run(["javac", "-cp", "/opt/veriftools/tla/tla2tools.jar", "-d", out, src])
    with open(stamp, "w") as f:
        f.write(key)
    return out


R = lambda *n: [os.path.join("@REPO", "src", x + "_.cpp") for x in n]
H = lambda *n: [os.path.join("@HARN", x + ".cpp") for x in n]
MATERIAL = R("gsMaterialMatrixBase", "gsMaterialMatrixBaseDim", "gsMaterialMatrixLinear",
             "gsMaterialMatrixNonlinear2dComp", "gsMaterialMatrixNonlinear2dIncomp",
             "gsMaterialMatrixNonlinear3dComp", "gsMaterialMatrixNonlinear3dIncomp",
             "gsMaterialMatrixTFT", "gsMaterialMatrixComposite", "gsMaterialMatrixContainer",
             "gsMaterialMatrixEval", "gsMaterialMatrixIntegrate", "gsMaterialMatrixXml")
ASSEMBLER = H("inst_asm2", "inst_asm3n", "inst_asm3b")
DWR = H("inst_dwr2", "inst_dwr3n", "inst_dwr3b")
TARGETS = {}


def target(name, harness, *groups):
    TARGETS[name] = H(*harness) + [s for g in groups for s in g]


target("probe", ["probe"], MATERIAL, ASSEMBLER)
target("mat", ["mat"], MATERIAL)
target("asm", ["asm"], MATERIAL, ASSEMBLER)
target("sum", ["sum"], MATERIAL, ASSEMBLER)
target("space", ["space"], MATERIAL, ASSEMBLER)
target("hist", ["hist"], MATERIAL, ASSEMBLER)
target("weak", ["weak"], MATERIAL, ASSEMBLER)
target("conv", ["conv"], MATERIAL, ASSEMBLER)
target("field", ["field"], MATERIAL, ASSEMBLER)
target("io", ["io"], MATERIAL)
target("lam", ["lam"], MATERIAL)
target("tft", ["tft"], MATERIAL)
target("post", ["post"], MATERIAL, ASSEMBLER)
target("ops", ["ops"], MATERIAL)
target("frame", ["frame"], MATERIAL, ASSEMBLER)
target("dwr", ["dwr"], MATERIAL, ASSEMBLER, DWR)


def expand(s):
    return s.replace("@REPO", REPO).replace("@HARN", os.path.join(VERIF, "harness"))


def build(names, jobs=None, verbose=False):
    os.makedirs(OBJ, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    if not (os.path.exists(os.path.join(BUILD, "core.id")) and os.path.exists(LIBCORE)):
        make_core()
    java_build()
    srcs = sorted({expand(s) for n in names for s in TARGETS[n]},
                  key=lambda s: (0 if "inst_" in s else 1, s))
    objs = {}
    overlay()
    with ThreadPoolExecutor(jobs or os.cpu_count() or 8) as ex:
        for s, (o, fresh) in zip(srcs, ex.map(compile_one, srcs)):
            objs[s] = o
            if fresh and verbose:
                print("compiled", os.path.basename(s), flush=True)
    out = {}
    for n in names:
        lst = [objs[expand(s)] for s in TARGETS[n]]
        key = hashlib.sha256("\n".join(lst).encode()).hexdigest()[:24]
        exe = os.path.join(BUILD, "bin", n + "-" + key)
        if not os.path.exists(exe):
            os.makedirs(os.path.dirname(exe), exist_ok=True)
            run([CXX, "-o", exe + ".tmp"] + lst + [LIBCORE, "-Wl,-rpath," + BUILD, "-lpthread"])
            os.replace(exe + ".tmp", exe)
        out[n] = exe
    prune()
    return out


def prune():
    fs = sorted(glob.glob(OBJ + "/*.o"), key=os.path.getmtime)
    for f in fs[:-400]:
        os.unlink(f)
    fs = sorted(glob.glob(BUILD + "/bin/*"), key=os.path.getmtime)
    for f in fs[:-60]:
        os.unlink(f)


if __name__ == "__main__":
    a = sys.argv[1:]
    if a and a[0] == "core":
        make_core()
    else:
        for n, e in build(a or list(TARGETS), verbose=True).items():
            print(n, e)
