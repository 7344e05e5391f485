"""Structural rules over the type-checked syntax trees of all library sources.

tools/ast.cpp turns one translation unit into facts; the rules below are
queries over the union of the facts of every source that CMakeLists.txt
compiles unconditionally.
"""
import concurrent.futures as cf, os, pickle, re
from . import build as B

UNITS_MIN = 75


def sources():
    """the .cpp files CMakeLists.txt adds outside of any if()"""
    try:
        t = open(os.path.join(B.REPO, "CMakeLists.txt")).read()
    except OSError:
        raise B.BuildError("CMakeLists.txt is gone")
    t = re.sub(r"#[^\n]*", "", t)
    depth, out = 0, []
    for m in re.finditer(r"(?m)^\s*(endif|if)\s*\(|(?<![\w/.])(src/[\w/.+-]+\.cpp)\b", t):
        if m.group(1) == "if":
            depth += 1
        elif m.group(1) == "endif":
            depth -= 1
        elif depth == 0 and m.group(2) not in out and os.path.exists(os.path.join(B.REPO, m.group(2))):
            out.append(m.group(2))
    return out


def tree_key():
    acc = [B.fhash(os.path.join(B.VERIF, "tools", "ast.cpp")), B.REPO]
    for top in ("include", "src"):
        for d, _, fs in sorted(os.walk(os.path.join(B.REPO, top))):
            acc += [os.path.join(d, f) + B.fhash(os.path.join(d, f)) for f in sorted(fs)]
    acc.append(B.fhash(os.path.join(B.REPO, "CMakeLists.txt")))
    return B.h("\n".join(acc).encode())[:24]


def one(exe, src, flags):
    r = B.sh([exe, B.REPO, src, "--"] + flags, cwd=B.REPO)
    if r.returncode:
        raise B.BuildError(f"{src} does not parse: " + "; ".join([l for l in r.stderr.splitlines() if "error" in l][:3]))
    return src, [tuple(l.split("\t")) for l in r.stdout.splitlines()]


_facts = None


def facts():
    """{source: [fact, ...]} for all sources"""
    global _facts
    if _facts is None:
        cache = os.path.join(B.BUILD, "facts-" + tree_key())
        try:
            _facts = pickle.load(open(cache, "rb"))
        except Exception:
            exe = B.tool("ast")
            fl = [f for f in B.FLAGS if f not in ("-emit-llvm", "-c")]
            i = fl.index("-Xclang")
            del fl[i:i + 2]
            fl += B.incs() + ["-resource-dir", "/usr/lib/llvm-18/lib/clang/18"]
            srcs = sources()
            # big units first
            srcs.sort(key=lambda s: -os.path.getsize(os.path.join(B.REPO, s)))
            with cf.ThreadPoolExecutor(int(os.environ.get("VERIF_JOBS", "8"))) as p:
                _facts = dict(p.map(lambda s: one(exe, s, fl), srcs))
            tmp = cache + f".{os.getpid()}"
            pickle.dump(_facts, open(tmp, "wb"))
            os.rename(tmp, cache)
    return _facts


def link_rule(tier):
    """every function a header promises has exactly one definition"""
    promised, templ, defined, tdef, strong = {}, {}, set(), set(), {}
    for src, fs in facts().items():
        for f in fs:
            if f[0] == "P":
                promised.setdefault(f[1], f)
            elif f[0] == "T":
                templ.setdefault(f[1], f)
            elif f[0] == "D":
                defined.add(f[1])
                if f[4] == "strong":
                    strong.setdefault(f[1], {})[src] = f
            elif f[0] == "U":
                tdef.add(f[1])
    viol = []
    for m, f in sorted(promised.items(), key=lambda x: (x[1][3], x[0])):
        if m not in defined:
            viol.append({"at": f[3], "what": f"{f[2]} is declared here"
                         + (" as instantiated elsewhere" if f[4] == "instantiation" else "")
                         + f" but no source of the library defines it ({m})", "key": m})
    for k, f in sorted(templ.items()):
        if k not in tdef:
            viol.append({"at": k, "what": f"template function {f[2]} is declared here but defined nowhere", "key": "template " + f[2] + " " + k.split(":")[0]})
    for m, d in sorted(strong.items()):
        if len(d) > 1:
            viol.append({"at": " and ".join(sorted(x[3] for x in d.values())), "what": f"{d[min(d)][2]} is defined by {len(d)} sources", "key": "twice " + m})
    return {"rule": "every promised function is defined once", "instances": len(promised) + len(set(templ) | tdef) + len(strong), "min": 1500,
            "units": len(facts()), "violations": viol,
            "broken": [] if len(facts()) >= UNITS_MIN else [f"{len(facts())} library sources found, {UNITS_MIN} expected"],
            "samples": [{"promised": len(promised), "template_functions": len(set(templ) | tdef), "defined": len(defined), "strong": len(strong)}]
            + [" ".join(f[2:5]) for f in list(promised.values())[::150]]}


STATE_OK = [r"^fub::git::GIT_(TAG|REV|BRANCH)$",  # link time constants
            r"^fub::OdeSolverFactory::"]          # the registry of solvers
INPUT_OK = [r"^include/fub/RunSimulation\.hpp:", r"^(src|include/fub)/counter/", r"^(src|include/fub)/ext/(Log|Version)\.", r"^include/fub/ext/Timer\.hpp:"]


def purity_rule(tier):
    """no mutable static state, no hidden input in the library"""
    stat, calls, viol = set(), set(), {}
    for src, fs in facts().items():
        for f in fs:
            if f[0] == "S":
                stat.add(f[2])
            elif f[0] == "C":
                calls.add(f[1])
            elif f[0] == "V" and not any(re.search(p, f[1]) or re.search(p, f[3].split(" in ")[-1]) for p in STATE_OK):
                viol["state " + f[1] + f[2]] = {"at": f[2], "what": f"{f[3]}: {f[1]} keeps state between calls", "key": "state " + f[1]}
            elif f[0] == "I" and not any(re.search(p, f[3]) for p in INPUT_OK):
                viol["input " + f[3]] = {"at": f[3], "what": f"{f[2]} depends on {f[1]}", "key": f"input {f[2]} {f[1]}"}
    return {"rule": "no hidden state, no hidden input", "instances": len(stat) + len(calls), "min": 4000, "units": len(facts()),
            "broken": [] if len(facts()) >= UNITS_MIN else [f"{len(facts())} library sources found, {UNITS_MIN} expected"],
            "violations": [viol[k] for k in sorted(viol)], "samples": [{"static_variables": len(stat), "calls": len(calls)}]}
