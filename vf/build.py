"""Builds QDP++ configurations and property harnesses from /repo's working tree."""
import hashlib, os, subprocess, sys, threading, time, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
FLAGS = ["-std=gnu++17", "-w", "-msse2", "-include", "cstring", "-include", "cstdint"]

BASE = """#define ARCH_SCALAR 1
#define BASE_PRECISION {prec}
#define HAVE_GETHOSTNAME 1
#define PACKAGE "qdp--"
#define PACKAGE_BUGREPORT "edwards@jlab.org"
#define PACKAGE_NAME "qdp++"
#define PACKAGE_STRING "qdp++ 1.46.0"
#define PACKAGE_TARNAME "qdp--"
#define PACKAGE_URL ""
#define PACKAGE_VERSION "1.46.0"
#define VERSION "1.46.0"
#define QDP_AC_ALIGNMENT_SIZE 16
#define QDP_NC {nc}
#define QDP_ND {nd}
#define QDP_NS {ns}
#define QDP_USE_BAGEL_QDP 0
#define QDP_USE_BLUEGENEL 1
#define QDP_USE_{layout}_LAYOUT 1
"""
# Uninitialised automatic variables hold a pattern in these configurations (the others keep what the compiler makes of them).
PAT = ["-ftrivial-auto-var-init=pattern", "-fno-lifetime-dse"]
# name: layout, precision, sse, generic opts, omp, extra compiler flags, defines
CONFIGS = {
    "generic": {}, "sse": dict(sse=1),
    "dbl": dict(prec=64), "ssedbl": dict(prec=64, sse=1),
    "lexico": dict(layout="LEXICO"), "cb3d": dict(layout="CB3D"), "cb32": dict(layout="CB32"),
    "plain": dict(opts=0, layout="LEXICO"), "plaindbl": dict(opts=0, prec=64),
    "omp": dict(omp=1), "sseomp": dict(omp=1, sse=1), "ompcb32": dict(omp=1, layout="CB32"),
    "asan": dict(flags=["-fsanitize=address", "-fno-omit-frame-pointer", "-O1"]),
    "sseasan": dict(sse=1, flags=["-fsanitize=address", "-fno-omit-frame-pointer", "-O1"]),
    "lexasan": dict(layout="LEXICO", flags=["-fsanitize=address", "-fno-omit-frame-pointer", "-O1"]),
    "ubsan": dict(layout="LEXICO", flags=["-fsanitize=address,undefined", "-fno-sanitize=shift-base", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-O1"]),
    "nd3": dict(nd=3, layout="LEXICO"), "nd3cb2": dict(nd=3), "nd5": dict(nd=5), "nd3cb3d": dict(nd=3, layout="CB3D"),
    "nd5cb32": dict(nd=5, layout="CB32"), "nd3cb32": dict(nd=3, layout="CB32"), "nd5cb3d": dict(nd=5, layout="CB3D"),
    "nd5lex": dict(nd=5, layout="LEXICO"),
    "agg": dict(flags=["-DVF_AGG"]), "aggomp": dict(omp=1, layout="CB32", flags=["-DVF_AGG"]),
    "pool": dict(defs="#define QDP_USE_TBBPOOL_ALLOCATOR 1\n", flags=["-DVF_POOL", "-I" + HERE + "/tbbstub"], lib=["pool_allocator"]),
    "memdebug": dict(defs="#define QDP_DEBUG_MEMORY 1\n"),
    "nc2": dict(nc=2), "nc4": dict(nc=4),
}
for _n in ("generic", "lexico", "cb3d", "dbl", "ssedbl", "plain", "ompcb32", "nd3", "nd3cb2", "nd3cb32", "nd5", "nd5cb3d", "nc2", "agg", "pool"):
    CONFIGS[_n]["flags"] = CONFIGS[_n].get("flags", []) + PAT

def cfg(name):
    d = dict(layout="CB2", prec=32, sse=0, opts=1, omp=0, nd=4, nc=3, ns=4, flags=[], defs="", lib=[])
    d.update(CONFIGS[name]); return d

def config_text(c):
    t = BASE.format(**c)
    if c["opts"]: t += "#define QDP_USE_GENERIC_OPTS 1\n"
    if c["sse"]: t += "#define QDP_USE_SSE 1\n"
    if c["omp"]: t += "#define QDP_USE_OMP_THREADS 1\n"
    return t + c["defs"]

LIB = ["map", "subset", "random", "layout", "io", "byteorder", "util", "stdio", "profile", "strnlen", "crc32",
       "stopwatch", "rannyu", "scalar_init", "scalar_layout", "scalar_specific", "scalarsite_specific",
       "default_allocator", "generic_threadbind"]

_tree = None
def tree_hash():
    """Hash of every source the build can see."""
    global _tree
    if _tree: return _tree
    h = hashlib.sha256()
    for sub in ("include", "lib"):
        for dp, dn, fn in os.walk(os.path.join(REPO, sub)):
            dn.sort()
            for f in sorted(fn):
                if f.endswith((".h", ".cc", ".c", ".hpp")):
                    p = os.path.join(dp, f); h.update(p.encode()); h.update(open(p, "rb").read())
    _tree = h.hexdigest(); return _tree

class BuildError(Exception): pass
ALONE = threading.Lock()

def run(cmd, what):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    for _ in range(3):
        if not p.returncode or "Killed signal" not in p.stdout: break
        with ALONE:                    # memory ran out: once more, one at a time
            time.sleep(5); p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError(f"{what}: {' '.join(cmd)}\n{p.stdout[-6000:]}")

def once(out, fn):
    """Builds out unless it exists; atomic."""
    if os.path.exists(out): return out
    tmp = f"{out}.{os.getpid()}.{threading.get_ident()}.tmp"
    fn(tmp); os.replace(tmp, out); return out

class Builder:
    """Compiles everything asked for over one pool of workers."""
    def __init__(self, jobs=None):
        self.pool = cf.ThreadPoolExecutor(jobs or os.cpu_count() or 8)
        self.cfgdir = {}; self.libs = {}; self.pchs = {}

    def base(self, name):
        if name not in self.cfgdir:
            c = cfg(name)
            key = hashlib.sha256((config_text(c) + repr(c) + tree_hash() + repr(FLAGS)).encode()).hexdigest()[:16]
            d = os.path.join(BUILD, f"{name}-{key}"); os.makedirs(d + "/include", exist_ok=True)
            p = d + "/include/qdp_config_internal.h"
            if not os.path.exists(p):
                def w(t): open(t, "w").write(config_text(c))
                once(p, w)
            self.cfgdir[name] = (c, d)
        return self.cfgdir[name]

    def flags(self, name, opt="-O2"):
        c, d = self.base(name)
        f = FLAGS + ["-DHAVE_CONFIG_H", f"-I{d}/include", f"-I{REPO}/include"]
        if c["sse"]: f.append(f"-I{HERE}/intrin")
        if c["omp"]: f.append("-fopenmp")
        return f + [opt] + c["flags"]

    def lib_objects(self, name):
        if name in self.libs: return self.libs[name]
        c, d = self.base(name)
        srcs = [f"{REPO}/lib/qdp_{x}.cc" for x in LIB + c["lib"]]
        if c["sse"]:
            sd = f"{REPO}/lib/scalarsite_sse"
            srcs += [f"{sd}/{f}" for f in sorted(os.listdir(sd)) if f.endswith(".cc")]
        def one(s):
            o = f"{d}/lib_{os.path.basename(s)}.o"
            fl = self.flags(name)
            return once(o, lambda t: run(["g++", *fl, "-c", s, "-o", t], "library"))
        self.libs[name] = [self.pool.submit(one, s) for s in srcs]
        return self.libs[name]

    def harness(self, name, prop, srcs, opt="-O1", defs=()):
        """Future of the path of the linked harness."""
        c, d = self.base(name)
        h = hashlib.sha256(repr((opt, defs)).encode())
        for f in sorted(os.listdir(HERE)):
            if f.endswith(".h"): h.update(open(os.path.join(HERE, f), "rb").read())
        hh = h.hexdigest()
        libs = self.lib_objects(name)
        def one(s):
            full = os.path.join(HERE, s) if not s.startswith("/") else s
            k = hashlib.sha256((hh + open(full).read()).encode()).hexdigest()[:12]
            o = f"{d}/h_{os.path.basename(s)}-{k}.o"
            fl = self.flags(name, opt)
            return once(o, lambda t: run(["g++", *fl, f"-I{HERE}", f"-I{REPO}/lib", *defs, "-c", full, "-o", t], "harness"))
        objs = [self.pool.submit(one, s) for s in ["main.cc", *srcs]]
        def link():
            os_ = [f.result() for f in objs]; ls = [f.result() for f in libs]
            k = hashlib.sha256("".join(os_).encode()).hexdigest()[:12]
            exe = f"{d}/{prop}-{k}"
            x = ["-fopenmp"] if c["omp"] else []
            return once(exe, lambda t: run(["g++", *x, *c["flags"], *os_, *ls, "-o", t], "link"))
        return link
