"""Builds the symbolic and the native executable of a harness from /repo's current sources."""
import hashlib, os, subprocess, sys, shutil, glob, json
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
LLVM = "/usr/lib/llvm-18/bin/"
CACHE = os.environ.get("VERIF_CACHE", os.path.join(VERIF, ".cache"))
JOBS = 8

INC = ["-I" + os.path.join(VERIF, "stubs"), "-I" + REPO, "-I" + os.path.join(REPO, "ThermoFun"), "-I" + os.path.join(VERIF, "engine"), "-I" + os.path.join(VERIF, "harness")]
FAST = "-I" + os.path.join(VERIF, "stubs", "fast")
CXX = ["-std=c++20", "-O1", "-fno-vectorize", "-fno-slp-vectorize", "-ffp-contract=off", "-fno-builtin", "-fPIC", "-w",
       "-D_GLIBCXX_ASSERTIONS", "-DSPDLOG_ACTIVE_LEVEL=6", "-Xclang", "-disable-llvm-passes"]
OPTF = ["-vectorize-loops=false", "-vectorize-slp=false"]


class BuildError(Exception):
    pass


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-4000:]))
    return r.stdout.decode(errors="replace")


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def tree_hash():
    """Hash of everything a translation unit may read: /repo headers+sources, harness, stubs, engine."""
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "ThermoFun"), os.path.join(VERIF, "stubs"), os.path.join(VERIF, "engine"), os.path.join(VERIF, "harness")):
        for d, _, fs in sorted(os.walk(root)):
            for f in sorted(fs):
                if f.endswith((".h", ".hpp", ".hh", ".inc")):
                    p = os.path.join(d, f)
                    h.update(p.encode())
                    h.update(open(p, "rb").read())
    return h.hexdigest()


def _atomic(tmp, dst):
    os.replace(tmp, dst)


def plugin():
    src = os.path.join(VERIF, "engine", "symfp.cpp")
    so = os.path.join(CACHE, "symfp-%s.so" % sha(open(src, "rb").read()))
    if not os.path.exists(so):
        os.makedirs(CACHE, exist_ok=True)
        flags = [f for f in run([LLVM + "llvm-config", "--cxxflags"]).split() if f.startswith(("-I", "-D"))]
        tmp = so + ".%d.tmp" % os.getpid()
        run([LLVM + "clang++", "-std=c++17", "-O1", "-fno-rtti", "-fPIC", "-shared", *flags, src, "-o", tmp])
        _atomic(tmp, so)
    return so


def runtime():
    res = []
    for native in (0, 1):
        src = os.path.join(VERIF, "engine", "symrt.cpp")
        o = os.path.join(CACHE, "symrt%d-%s.o" % (native, sha(open(src, "rb").read(), open(os.path.join(VERIF, "engine", "sym.h"), "rb").read())))
        if not os.path.exists(o):
            os.makedirs(CACHE, exist_ok=True)
            tmp = o + ".%d.tmp" % os.getpid()
            run([LLVM + "clang++", "-std=c++20", "-O2", "-fPIC", "-fno-builtin", "-ffp-contract=off", "-c", src, "-o", tmp] + (["-DSYM_NATIVE"] if native else []))
            _atomic(tmp, o)
        res.append(o)
    return res


def compile_tu(src, th, stubs, defs, so_future):
    content = open(src, "rb").read()
    key = sha(content, src, th, json.dumps(stubs), json.dumps(defs), open(os.path.join(VERIF, "engine", "symfp.cpp"), "rb").read(), " ".join(CXX))
    base = os.path.join(CACHE, "tu-" + key)
    outs = [base + ".sym.o", base + ".nat.o"]
    fns = base + ".fns"
    if all(os.path.exists(o) for o in outs) and os.path.exists(fns):
        return outs, fns
    tmp = base + ".%d.tmp" % os.getpid()
    cc = lambda pre: run([LLVM + "clang++", *CXX, *pre, *INC, *["-D" + d for d in defs], *(["-mlong-double-64"] if "LD64" in defs else []), "-emit-llvm", "-c", src, "-o", tmp + ".bc"])
    try:
        cc([FAST])
    except BuildError:
        cc(["-DFMT_HEADER_ONLY", "-DSPDLOG_HEADER_ONLY"])
    env = dict(os.environ)
    env["SYMFP_STUBS"] = ",".join("%s=%s" % kv for kv in stubs.items())
    so = so_future.result()
    for kind, passes in (("sym", "symstub,default<O1>,symfp"), ("nat", "symstub,default<O1>")):
        run([LLVM + "opt", "-load-pass-plugin=" + so, "-passes=" + passes, *OPTF, tmp + ".bc", "-o", tmp + "." + kind + ".bc"], env=env)
        run([LLVM + "llc", "-O1", "-filetype=obj", "-relocation-model=pic", tmp + "." + kind + ".bc", "-o", tmp + "." + kind + ".o"])
    # functions of this unit that the symbolic build instruments
    nmout = run([LLVM + "llvm-nm", "--defined-only", "--demangle", tmp + ".sym.o"])
    with open(tmp + ".fns", "w") as f:
        f.write(nmout)
    for kind, o in zip(("sym", "nat"), outs):
        _atomic(tmp + "." + kind + ".o", o)
        os.unlink(tmp + "." + kind + ".bc")
    _atomic(tmp + ".fns", fns)
    os.unlink(tmp + ".bc")
    return outs, fns


class Built:
    pass


def build(name, sources, harness, stubs=None, defs=None, extra=None):
    """sources: paths relative to /repo/ThermoFun; harness: paths relative to /verif/harness."""
    stubs = stubs or {}
    defs = defs or []
    os.makedirs(CACHE, exist_ok=True)
    th = tree_hash()
    sources = [os.path.relpath(f, os.path.join(REPO, "ThermoFun")) for s in sources for f in (sorted(glob.glob(os.path.join(REPO, "ThermoFun", s))) if "*" in s else [os.path.join(REPO, "ThermoFun", s)])]
    srcs = [os.path.join(REPO, "ThermoFun", s) for s in sources] + [os.path.join(VERIF, "harness", h) for h in harness]
    for s in srcs:
        if not os.path.exists(s):
            raise BuildError("missing source " + s)
    with ThreadPoolExecutor(JOBS) as ex:
        so = ex.submit(plugin)
        rt = ex.submit(runtime)
        # biggest first
        futs = [ex.submit(compile_tu, s, th, stubs, defs, so) for s in sorted(srcs, key=lambda p: -os.path.getsize(p))]
        tus = [f.result() for f in futs]
        rts = rt.result()
    b = Built()
    b.name = name
    b.sources = list(sources)
    def link(tus, arch):
        key = sha(*[o for t, _ in tus for o in t], *rts, *[o for t, _ in arch for o in t])
        b.sym = os.path.join(CACHE, "exe-%s-%s.sym" % (name, key))
        b.nat = os.path.join(CACHE, "exe-%s-%s.nat" % (name, key))
        for i, exe in ((0, b.sym), (1, b.nat)):
            if os.path.exists(exe): continue
            tmp = exe + ".%d.tmp" % os.getpid()
            objs = [t[i] for t, _ in tus]
            if arch:
                ar = tmp + ".a"
                run([LLVM + "llvm-ar", "crs", ar, *[t[i] for t, _ in arch]])
                objs = objs + [ar]
            run([LLVM + "clang++", "-fuse-ld=lld", *objs, rts[i], "-Wl,--gc-sections", "-Wl,--no-undefined", "-lpthread", "-lstdc++fs", "-lm", "-o", tmp])
            _atomic(tmp, exe)
            if arch: os.unlink(ar)
    try:
        link(tus, [])
    except BuildError as e:
        if "undefined symbol" not in str(e): raise
        # code moved to another unit: let the linker pick what it needs from the rest of the library
        rest = [os.path.join(REPO, "ThermoFun", s) for s in repo_sources() if s not in sources]
        with ThreadPoolExecutor(JOBS) as ex:
            so = ex.submit(plugin)
            arch = list(ex.map(lambda s: compile_tu(s, th, stubs, defs, so), sorted(rest, key=lambda p: -os.path.getsize(p))))
        link(tus, arch)
    b.functions = []
    for _, f in tus:
        for line in open(f):
            p = line.rstrip().split(" ", 2)
            if len(p) == 3 and p[1] in "TtWV" and ("ThermoFun::" in p[2]):
                b.functions.append(p[2])
    return b


def repo_sources():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, "ThermoFun")):
        for f in fs:
            if f.endswith(".cpp"):
                out.append(os.path.relpath(os.path.join(d, f), os.path.join(REPO, "ThermoFun")))
    return sorted(out)
