"""The properties, and what decides each of them.

gen.py writes properties.jsonl and MANIFEST.json from this file."""
COMMON_ASSUMPTIONS = [
    "floating point arithmetic is treated as exact real arithmetic (rounding, overflow and NaN are outside the claim)",
    "states are physically admissible: density, pressure, energy, height, temperature and speed of sound are positive",
    "clang's front end and LLVM's simplification passes preserve the meaning of the code",
    "two different rational expressions agree on all random points of a prime field only with negligible probability (Schwartz-Zippel)",
]
VG = ("Value-graph analysis of the LLVM IR of the current source: both sides of every law are turned into gated value graphs "
      "(branches become selects, constant-trip loops are unrolled, calls are inlined, memory is resolved per object) over free input symbols, "
      "and compared by hashing every node to values in a prime field (global value numbering by random interpretation). Nothing is executed. ")
VG_TECH = "static value-graph equivalence (GVN by random interpretation over LLVM IR) of witness laws"
PROPS = {}
NA = []


def prop(pid, title, statement, over, qtext, why, files, mech, groups=None, what="", rules=(), technique=None, note="", **kw):
    PROPS[pid] = dict(title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                      groups=groups or {}, rules=list(rules), explanation=(VG if groups else "") + what,
                      technique=technique or VG_TECH, note=note or "Exact real arithmetic; every law holds for all inputs of the witness.", **kw)


def na(pid, title, statement, over, qtext, why, files, mech, reason):
    NA.append(dict(id=pid, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, reason=reason))


from . import catalog  # noqa: E402,F401
