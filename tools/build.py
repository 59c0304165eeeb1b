#!/usr/bin/env python3
"""Builds the engine and one harness binary from /repo's current working tree.

usage: build.py HARNESS.cpp [--plain]   -> prints the path of the binary
Objects go to /verif/.build (git-ignored), keyed by a hash of everything they are made from."""
import glob, hashlib, os, re, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor, as_completed

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.path.join(VERIF, ".build")
Z3 = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3"
ENG = os.path.join(VERIF, "engine")
INC = ["-I" + os.path.join(REPO, d) for d in ("parser", "parser/fanuc", "nclangsrv")]
DEFS = ["-DNDEBUG", "-D_GLIBCXX_ASSERTIONS", "-DRAPIDJSON_HAS_STDSTRING=0"]
SYMFLAGS = ["-std=c++20", "-O1", *DEFS, "-g0", "-w", "-ffp-contract=off", "-fno-vectorize", "-fno-slp-vectorize",
            "-fno-sanitize-recover=all",
            "-isystem", os.path.join(ENG, "include"), "-include", "symios.h", "-I" + ENG, "-I" + os.path.join(VERIF, "harness")]
PLAINFLAGS = ["-std=c++20", "-O0", *DEFS, "-g", "-w", "-ffp-contract=off", "-I" + ENG, "-I" + os.path.join(VERIF, "harness")]
_lock = threading.Lock()
_hashes = {}


def sha(path):
    with _lock:
        h = _hashes.get(path)
    if h is None:
        with open(path, "rb") as f:
            h = hashlib.sha256(f.read()).hexdigest()
        with _lock:
            _hashes[path] = h
    return h


def tree_hash():
    """hash of every header that an instrumented unit may include"""
    m = hashlib.sha256()
    roots = [os.path.join(REPO, "parser"), os.path.join(REPO, "nclangsrv"), ENG, os.path.join(VERIF, "harness")]
    for r in roots:
        for d, ds, fs in os.walk(r):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".h", ".hpp")) or f == "c++config.h":
                    p = os.path.join(d, f)
                    m.update(p.encode()); m.update(sha(p).encode())
    return m.hexdigest()


def run(cmd, what):
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        raise BuildError("build of %s failed:\n%s\n%s" % (what, " ".join(cmd), p.stderr[-6000:]))


def obj(key_parts, cmd_for, name):
    m = hashlib.sha256()
    for k in key_parts:
        m.update(str(k).encode()); m.update(b"\0")
    out = os.path.join(OUT, "%s-%s" % (m.hexdigest()[:20], name))
    if not os.path.exists(out):
        tmp = out + ".tmp%d" % os.getpid()
        run(cmd_for(tmp), name)
        os.rename(tmp, out)
    return out


def units_of(harness):
    txt = open(harness).read()
    us = []
    for l in re.findall(r"^//\s*UNITS:(.*)$", txt, re.M):
        us += l.split()
    return us


def expand(units, everything=False):
    """unit patterns -> source files; with `everything`, all sources of the libraries the harness takes units from"""
    res = []
    for u in units:
        if u.startswith("@"):
            res.append(os.path.join(VERIF, "harness", u[1:]))
            continue
        pat = os.path.join(REPO, u)
        if everything and u.startswith("parser/"):
            pat = os.path.join(os.path.dirname(pat), "*.cpp")
            res += sorted(glob.glob(os.path.join(REPO, "parser", "*.cpp")))
        res += [f for f in sorted(glob.glob(pat)) if os.path.basename(f) != "nclangsrv.cpp"] if "*" in pat else [pat]
    seen, out = set(), []
    for r in res:
        if r not in seen and os.path.basename(r) not in ("dllmain.cpp",):
            seen.add(r); out.append(r)
    return out


class BuildError(Exception):
    pass


def build(harness, plain=False, jobs=8):
    try:
        return build1(harness, plain, jobs, False)
    except BuildError as e:
        try:  # a unit may have moved to another (new) source file: take them all
            return build1(harness, plain, jobs, True)
        except BuildError as e2:
            sys.stderr.write(str(e2) + "\n")
            raise SystemExit(3)


def build1(harness, plain, jobs, everything):
    os.makedirs(OUT, exist_ok=True)
    th = tree_hash()
    units = expand(units_of(harness), everything)
    flags_extra = []
    for l in re.findall(r"^//\s*FLAGS:(.*)$", open(harness).read(), re.M):
        flags_extra += l.split()
    libs = []
    for l in re.findall(r"^//\s*LIBS:(.*)$", open(harness).read(), re.M):
        libs += l.split()
    ex = ThreadPoolExecutor(jobs)
    objs = []
    if plain:
        srcs = [harness] + units + [os.path.join(ENG, "plain.cpp")]
        fl = PLAINFLAGS + INC + flags_extra
        fs = [ex.submit(obj, ["plain", sha(s), s, th, fl], lambda o, s=s: ["g++", *fl, "-c", s, "-o", o], os.path.basename(s) + ".plain.o") for s in srcs]
        objs = [f.result() for f in fs]
        link = lambda o: ["g++", *objs, "-o", o, *libs, "-lpthread"]
        return obj(["plainlink", objs], link, os.path.basename(harness) + ".plain")
    eh = [sha(os.path.join(ENG, f)) for f in ("expr.h", "sym.h")]
    llvm = subprocess.run(["llvm-config-18", "--cxxflags"], capture_output=True, text=True).stdout.split()
    llvm = [x for x in llvm if not x.startswith("-std=")]
    fp = ex.submit(obj, ["pass", sha(ENG + "/pass.cpp"), eh], lambda o: ["clang++", "-std=c++20", "-O1", "-fPIC", "-shared", *llvm, "-w", "-fno-rtti", ENG + "/pass.cpp", "-o", o], "libsympass.so")
    fd = ex.submit(obj, ["driver", sha(ENG + "/driver.cpp"), eh], lambda o: ["g++", "-std=c++20", "-O1", "-I" + Z3 + "/include", "-c", ENG + "/driver.cpp", "-o", o], "driver.o")
    fr = ex.submit(obj, ["runtime", sha(ENG + "/runtime.cpp"), eh], lambda o: ["g++", "-std=c++20", "-O2", "-c", ENG + "/runtime.cpp", "-o", o], "runtime.o")
    plugin = fp.result()
    fl = SYMFLAGS + INC + flags_extra
    # biggest sources first, so that the longest compilations start first
    heavy = {"AllAttributesParser.cpp": 9, "AllAttributesParserGrammar.cpp": 8, "ValueCalculator.cpp": 7}
    srcs = sorted([harness] + units, key=lambda s: -(heavy.get(os.path.basename(s), 0) * 10**7 + os.path.getsize(s)))
    fs = {s: ex.submit(obj, ["sym", sha(s), s, th, sha(ENG + "/pass.cpp"), fl],
                       lambda o, s=s: ["clang++", *fl, "-fpass-plugin=" + plugin, "-c", s, "-o", o], os.path.basename(s) + ".o") for s in srcs}
    objs = [fs[s].result() for s in [harness] + units] + [fd.result(), fr.result()]
    link = lambda o: ["g++", *objs, "-o", o, *libs, "-L" + Z3 + "/lib", "-l:libz3.so", "-Wl,-rpath," + Z3 + "/lib", "-lpthread"]
    return obj(["link", objs], link, os.path.basename(harness) + ".bin")


if __name__ == "__main__":
    t = time.time()
    h = sys.argv[1]
    if not os.path.exists(h):
        h = os.path.join(VERIF, "harness", h)
    print(build(h, "--plain" in sys.argv))
    print("%.1fs" % (time.time() - t), file=sys.stderr)
