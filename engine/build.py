"""Compile /repo sources + witness translation units to LLVM bitcode.

Nothing compiled here is ever executed: the bitcode is the input of the static
analyses (tools/vg.cpp, tools/*.cpp).  Objects are cached by the *content* of
every file they depend on, so a change anywhere in /repo is always seen.
"""
import hashlib, json, os, re, subprocess, sys, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
LLVM = "/usr/lib/llvm-18/bin/"
CLANG = LLVM + "clang++" if os.path.exists(LLVM + "clang++") else "clang++-18"
MPI = "/usr/lib/x86_64-linux-gnu/openmpi/include"
FLAGS = ["-std=gnu++17", "-O2", "-Xclang", "-disable-llvm-passes", "-DNDEBUG",
         "-DFUB_NO_ASSERTIONS", "-DEIGEN_DONT_VECTORIZE", "-DEIGEN_NO_DEBUG",
         "-DFMT_HEADER_ONLY=1", "-DBOOST_ALL_NO_LIB", "-gline-tables-only",
         "-fno-math-errno", "-fno-trapping-math", "-fvisibility=hidden", "-w",
         "-emit-llvm", "-c"]


class BuildError(Exception):
    pass


import threading
_lock = threading.Lock()
_gen = None


def gen_include():
    global _gen
    with _lock:
        if _gen is None:
            _gen = _gen_include()
        return _gen


def _gen_include():
    """configure include/fub/config.hpp.in the way CMake does here (TBB and
    OpenMP found, SUNDIALS not found, default chunk size)"""
    out = os.path.join(BUILD, "include", "fub")
    os.makedirs(out, exist_ok=True)
    try:
        t = open(os.path.join(REPO, "include", "fub", "config.hpp.in")).read()
    except OSError:
        raise BuildError("include/fub/config.hpp.in is gone")
    on = {"FUB_WITH_TBB", "FUB_WITH_OPENMP"}
    t = re.sub(r"#cmakedefine\s+(\w+)\s+@\w+@", r"#define \1 8", t)
    t = re.sub(r"#cmakedefine\s+(\w+)[^\n]*", lambda m: "#define " + m.group(1) if m.group(1) in on else "/* #undef " + m.group(1) + " */", t)
    t = re.sub(r"[@$]\{?(\w+)[}@]", "8", t)
    p = os.path.join(out, "config.hpp")
    if not os.path.exists(p) or open(p).read() != t:
        tmp = p + f".{os.getpid()}.{threading.get_ident()}"
        with open(tmp, "w") as f:
            f.write(t)
        os.rename(tmp, p)
    return os.path.join(BUILD, "include")


def incs():
    return ["-I" + REPO, "-I" + os.path.join(REPO, "include"), "-I" + gen_include(),
            "-I" + os.path.join(VERIF, "witness"), "-isystem", MPI, "-isystem",
            MPI + "/openmpi", "-isystem", "/usr/include/eigen3", "-isystem", "/usr/include/python3.12"]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def h(b):
    return hashlib.sha256(b).hexdigest()


_hash = {}


def fhash(p):
    if p not in _hash:
        try:
            with open(p, "rb") as f:
                _hash[p] = h(f.read())
        except OSError:
            _hash[p] = "missing"
    return _hash[p]


_tools = {}
_pool = cf.ThreadPoolExecutor(max_workers=4)


def prepare_tool(name):
    """start building a tool in the background"""
    with _lock:
        if name not in _tools:
            _tools[name] = _pool.submit(_tool, name)
        return _tools[name]


def tool(name):
    return prepare_tool(name).result()


TOOLS = {"ast": (("-l:libclang-cpp.so.18.1", "-lLLVM-18"), ("-fno-rtti",))}


def _tool(name):
    libs, extra = TOOLS.get(name, (("-lLLVM-18",), ()))
    src = os.path.join(VERIF, "tools", name + ".cpp")
    os.makedirs(BUILD, exist_ok=True)
    key = h((fhash(src) + " ".join(libs) + " ".join(extra)).encode())[:16]
    exe = os.path.join(BUILD, f"{name}-{key}")
    if not os.path.exists(exe):
        cxx = sh(["/usr/bin/llvm-config-18" if os.path.exists("/usr/bin/llvm-config-18") else LLVM + "llvm-config", "--cxxflags", "--ldflags"]).stdout.split()
        cxx = [f for f in cxx if f not in ("-fno-exceptions",) and not f.startswith("-std=")]
        tmp = exe + f".tmp{os.getpid()}.{threading.get_ident()}"
        r = sh([CLANG, "-O1", "-std=c++17", "-w", src, "-o", tmp] + cxx + ["-fexceptions"] + list(extra) + list(libs))
        if r.returncode:
            raise BuildError(f"cannot build {name}: {r.stderr[-2000:]}")
        os.rename(tmp, exe)
    return exe


def err_of(t):
    """the errors with the places of this repository they were instantiated from"""
    keep = [l for l in t.splitlines() if "error:" in l or ("/repo/" in l and "note:" in l) or "/verif/" in l]
    return "\n".join(keep[:40]) or t[-3000:]

def compile_bc(src, defs=(), pre=None):
    """source file -> bitcode path (content addressed)"""
    os.makedirs(os.path.join(BUILD, "bc"), exist_ok=True)
    base = h((src + REPO + " ".join(FLAGS) + " ".join(defs)).encode())[:20]
    bc = os.path.join(BUILD, "bc", base + ".bc")
    meta = bc + ".json"
    if os.path.exists(bc) and os.path.exists(meta):
        try:
            m = json.load(open(meta))
            if all(fhash(p) == v for p, v in m.items()):
                return bc
        except Exception:
            pass
    tmp = bc + f".{os.getpid()}.{threading.get_ident()}.tmp"
    d = tmp + ".d"
    r = sh([CLANG] + FLAGS + list(defs) + incs() + ["-MD", "-MF", d, src, "-o", tmp], cwd=VERIF)
    if r.returncode:
        raise BuildError(f"cannot compile {src}:\n{err_of(r.stderr)}")
    deps = re.sub(r"\\\n", " ", open(d).read()).split(":", 1)[1].split()
    m = {}
    for p in deps:
        p = os.path.abspath(os.path.join(VERIF, p))
        if p.startswith(REPO) or p.startswith(VERIF):
            m[p] = fhash(p)
    m[CLANG] = "bin"
    m.pop(CLANG)
    os.unlink(d)
    os.rename(tmp, bc)
    json.dump(m, open(meta, "w"))
    return bc


def compile_many(jobs):
    """jobs: list of (src, defs) -> list of bitcode paths, in parallel"""
    with cf.ThreadPoolExecutor(max_workers=int(os.environ.get("VERIF_JOBS", "8"))) as ex:
        futs = [ex.submit(compile_bc, s, d) for s, d in jobs]
        return [f.result() for f in futs]


OPT = ["-inline-threshold=1000000", "-inlinehint-threshold=1000000", "-inlinecold-threshold=1000000",
       "-unroll-threshold=20000", "-unroll-full-max-count=1000", "-unroll-max-upperbound=32",
       "-unroll-partial-threshold=0", "-vectorize-loops=false", "-vectorize-slp=false",
       "-enable-loop-distribute=false"]


def link_opt(bcs, roots, passes="default<O2>,function(loop-simplify,lcssa)", opts=OPT, tag=""):
    key = h(("".join(fhash_nocache(b) for b in bcs) + ",".join(roots) + passes + " ".join(opts)).encode())[:20]
    out = os.path.join(BUILD, "bc", f"link-{key}.bc")
    if os.path.exists(out):
        return out
    tmp = out + f".{os.getpid()}.{threading.get_ident()}.tmp"
    r = sh([LLVM + "llvm-link"] + bcs + ["-o", tmp + ".l"])
    if r.returncode:
        raise BuildError("llvm-link: " + r.stderr[-2000:])
    r = sh([LLVM + "opt", f"-passes=internalize,globaldce,{passes}", "-internalize-public-api-list=" + ",".join(roots)] + opts + [tmp + ".l", "-o", tmp])
    if r.returncode:
        raise BuildError("opt: " + r.stderr[-2000:])
    os.unlink(tmp + ".l")
    os.rename(tmp, out)
    return out


def fhash_nocache(p):
    with open(p, "rb") as f:
        return h(f.read())


def defined_symbols(bc):
    r = sh([LLVM + "llvm-nm", "--defined-only", bc])
    return [l.split()[-1] for l in r.stdout.splitlines() if l.strip()]


def witness(group):
    src = os.path.join(VERIF, "witness", group + ".cpp")
    head = open(src).read()
    sources, defs = [], []
    for l in head.splitlines():
        if l.startswith("// SOURCES:"):
            sources += l[len("// SOURCES:"):].split()
        if l.startswith("// DEFS:"):
            defs += l[len("// DEFS:"):].split()
    return src, [os.path.join(REPO, s) for s in sources], defs
