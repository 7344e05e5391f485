"""Run the value-graph law checker for one property (all laws <ID>__*)."""
import json, os, subprocess, sys, re
from concurrent.futures import ThreadPoolExecutor
from . import build as B


def run_group(group, prefix, trials, seed, vgopts=()):
    B.prepare_tool("vg")
    src, repo_srcs, defs = B.witness(group)
    bcs = B.compile_many([(src, tuple(defs))] + [(s, ()) for s in repo_srcs])
    syms = [s for s in B.defined_symbols(bcs[0]) if re.match(re.escape(prefix) + r".*__[LR]$", s)]
    if not syms:
        return []
    laws = sorted({s[:-3] for s in syms})
    off = re.search(r"^// TIES-OFF: (\S+)", open(src).read(), re.M)
    vgopts = list(vgopts) + (["--ties-off", off.group(1)] if off else [])
    out = []
    # split into chunks to use all cores in opt + vg
    n = min(int(os.environ.get("VERIF_JOBS", "8")), max(1, len(laws) // 2))
    chunks = [laws[i::n] for i in range(n)]
    vg = B.tool("vg")

    def one(chunk):
        roots = [l + "__L" for l in chunk] + [l + "__R" for l in chunk]
        bc = B.link_opt(bcs, roots)
        r = subprocess.run([vg, "--trials", str(trials), "--work", os.environ.get("VERIF_WORK", "4e6"), "--seed", str(seed)] + list(vgopts) + [bc], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        try:
            return json.loads(r.stdout)
        except Exception:
            raise B.BuildError(f"vg failed on {group}: rc={r.returncode} {r.stderr[-1500:]} {r.stdout[-500:]}")
    with ThreadPoolExecutor(max_workers=n) as ex:
        for res in ex.map(one, chunks):
            out += res
    for l in out:
        l["group"] = group
    return sorted(out, key=lambda l: l["law"])
