#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]

Decides one property of /repo by static analysis (see DESIGN.md).
exit 0: holds on everything analysed; 1: VIOLATION; 2: analysis broken
(witness no longer compiles, an anchor vanished, a law is undecidable).
"""
import argparse, json, os, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from engine import build as B, laws, props

HERE = os.path.dirname(os.path.abspath(__file__))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    t0 = time.time()
    P = props.PROPS[a.property]
    trials = P.get("trials", 48) if tier == "quick" else max(600, 4 * P.get("trials", 48))
    os.environ.setdefault("VERIF_WORK", "4e6" if tier == "quick" else "2e7")
    seeds = [seed] if tier == "quick" else [seed, seed + 1000, seed + 2000]
    res, findings, viol, broken = [], [], [], []
    kf = json.load(open(os.path.join(HERE, "known-findings.json")))
    known = {(k["property"], k["law"]): k for k in kf["findings"] if k.get("law")}
    rule_reports = []
    try:
        for g, minimum in P.get("groups", {}).items():
            for s in seeds:
                r = laws.run_group(g, a.property + "_", trials, s)
                if len(r) < minimum:
                    broken.append(f"group {g}: {len(r)} laws found, {minimum} expected")
                if s == seed:
                    res += r
                else:
                    old = {l["law"]: l for l in res}
                    for l in r:
                        if l["status"] != "equal" and old[l["law"]]["status"] == "equal":
                            old[l["law"]].update(l)
        for rule in P.get("rules", []):
            rep = rule(tier)
            rule_reports.append(rep)
            if rep["instances"] < rep.get("min", 1):
                broken.append(f"rule {rep['rule']}: {rep['instances']} instances, {rep.get('min', 1)} expected")
            broken += rep.get("broken", [])
    except B.BuildError as e:
        print(f"ANALYSIS-BROKEN property={a.property}: {e}")
        return 2
    functions = set()
    for l in res:
        functions |= set(l.get("functions", []))
        if l["status"] == "undecided":
            broken.append(f"law {l['law']} undecided: {l.get('why')}")
        elif l["status"] == "differ":
            k = known.get((a.property, l["law"]))
            if k:
                w = laws.run_group(l["group"], k["witness_law"], trials, seed)
                w = [x for x in w if x["law"] == k["witness_law"]]
                if w and w[0]["status"] == "equal":
                    findings.append(k)
                    continue
            viol.append(l)
    rviol = [(rep, v) for rep in rule_reports for v in rep["violations"]]
    rule_known = {(k["property"], k.get("key")): k for k in kf["findings"] if k.get("key")}
    keep = []
    for rep, v in rviol:
        k = rule_known.get((a.property, v.get("key")))
        if k:
            findings.append(k)
        else:
            keep.append((rep, v))
    rviol = keep
    st = {}
    for l in res:
        st[l["status"]] = st.get(l["status"], 0) + 1
    files = sorted({f.split(":")[0] for f in functions})
    print(f"property {a.property}: {P['title']}")
    if res:
        print(f"  laws analysed: {len(res)} {st}; outputs compared: {sum(l.get('outputs') or 0 for l in res)}; "
              f"value-graph nodes: {sum(l.get('nodes') or 0 for l in res)}; functions of the repository traversed: {len(functions)} in {len(files)} files")
    for rep in rule_reports:
        print(f"  rule {rep['rule']}: {rep['instances']} instances in {rep.get('units', '?')} units, {len(rep['violations'])} violations")
    ev = {"property": a.property, "tier": tier, "seed": seed, "level": P.get("level", "other"),
          "coverage": {
              "explanation": P["explanation"],
              "laws": len(res), "laws_equal": st.get("equal", 0), "laws_differing": st.get("differ", 0),
              "outputs_compared": sum(l.get("outputs") or 0 for l in res),
              "outputs_structurally_identical": sum(l.get("structural") or 0 for l in res),
              "value_graph_nodes": sum(l.get("nodes") or 0 for l in res),
              "branches_merged": sum(l.get("selects") or 0 for l in res),
              "field_evaluations_at_least_per_law": trials * len(seeds),
              "field_evaluations": sum(l.get("trials") or 0 for l in res),
              "functions_traversed": len(functions), "files_traversed": files,
              "functions": sorted(functions)[:400],
              "samples": [{k: l.get(k) for k in ("law", "status", "outputs", "nodes", "selects", "sqrts", "trials")} for l in res[:: max(1, len(res) // 12)]][:14],
              "rules": [{k: rep.get(k) for k in ("rule", "instances", "units", "samples")} | {"violations": len(rep["violations"])} for rep in rule_reports],
          },
          "assumptions": P.get("assumptions", props.COMMON_ASSUMPTIONS if res else []),
          "violations": len(viol) + len(rviol)}
    if not res:
        for k in [k for k in ev["coverage"] if k not in ("explanation", "rules")]:
            del ev["coverage"][k]
    ev["wall_s"] = round(time.time() - t0, 2)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", a.property + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in findings:
        print(f"KNOWN-FINDING: property={a.property} {k['what']}")
    if viol or rviol:
        rp = os.path.join(HERE, "evidence", a.property + ".violation.json")
        with open(rp, "w") as f:
            json.dump({"laws": viol, "rules": [{"rule": rep["rule"], **v} for rep, v in rviol]}, f, indent=1)
        for l in viol:
            where = [f"{e['at']} ({e['op']})" for e in (l.get("left_only", []) + l.get("right_only", [])) if e.get("at")]
            print(f"  law {l['law']}: output {l.get('output')} differs; divergent values computed at: {'; '.join(where[:6])}")
            print(f"    analysed code: {', '.join(l.get('functions', [])[:12])}")
        for rep, v in rviol:
            print(f"  rule {rep['rule']}: {v['at']}: {v['what']}")
        print(f"VIOLATION property={a.property} replay={rp}")
        return 1
    if broken:
        for b in broken:
            print(f"ANALYSIS-BROKEN property={a.property}: {b}")
        return 2
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException as e:  # noqa
        import traceback
        traceback.print_exc()
        print("ANALYSIS-BROKEN: internal error")
        rc = 2
    sys.exit(rc)
