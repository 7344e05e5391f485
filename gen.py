#!/usr/bin/env python3
"""write properties.jsonl and MANIFEST.json from engine/catalog.py"""
import json, os
from engine import props as P
HERE = os.path.dirname(os.path.abspath(__file__))


def entry(pid, d):
    return {"id": pid, "title": d["title"], "statement": d["statement"],
            "quantifier": {"over": d["over"], "text": d["qtext"]},
            "why_tests_cant": d["why"],
            "anchors": {"files": d["files"], "mechanism": [{"name": n, "where": w} for n, w in d["mech"]]}}


with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for pid, d in sorted(P.PROPS.items()):
        f.write(json.dumps(entry(pid, d)) + "\n")
    for d in P.NA:
        f.write(json.dumps(entry(d["id"], d)) + "\n")
checks = [{"property": pid, "quick_cmd": f"python3 check.py {pid}", "thorough_cmd": f"python3 check.py {pid} --tier thorough",
           "evidence_file": f"evidence/{pid}.json", "technique": d["technique"], "level": d.get("level", "other"), "level_note": d["note"]}
          for pid, d in sorted(P.PROPS.items())]
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks,
     "not_applicable": [{"property": d["id"], "reason": d["reason"]} for d in P.NA],
     "notes": "Static analysis only: nothing of the repository is executed. See DESIGN.md."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")


def design():
    p = os.path.join(HERE, "DESIGN.md")
    t = open(p).read()
    out = []
    for pid, d in sorted(P.PROPS.items()):
        g = ", ".join(f"`{k}` (>= {v} laws)" for k, v in d["groups"].items())
        r = ", ".join(x if isinstance(x, str) else str(x) for x in d["rules"])
        out.append(f"* **{pid} {d['title']}.** {d['explanation'].replace(P.VG, '')} Decided by {('laws of ' + g) if g else ''}{' and ' if g and r else ''}{('rules ' + r) if r else ''}. "
                   f"Quantifies over {d['qtext']}. Bounds: {d['note']}")
    out.append("")
    out.append("Not applicable:")
    for d in P.NA:
        out.append(f"* **{d['id']} {d['title']}.** {d['reason']}")
    def put(t, name, body):
        a, b = f"<!-- BEGIN {name} -->", f"<!-- END {name} -->"
        i, j = t.index(a) + len(a), t.index(b)
        return t[:i] + "\n" + body + "\n" + t[j:]
    t = put(t, "PROPERTIES", "\n".join(out))
    rows = []
    sd = os.path.join(HERE, "seeded")
    for n in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
        try:
            m = json.load(open(os.path.join(sd, n, "meta.json")))
        except OSError:
            continue
        rows.append(f"* `{n}`: {m['what_it_breaks']} Caught by the check of {m['property']}.")
    if rows:
        t = put(t, "SEEDS", "\n".join(rows))
    with open(p, "w") as f:
        f.write(t)


design()
