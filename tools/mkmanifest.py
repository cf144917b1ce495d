"""Writes MANIFEST.json and levels.json from the property list, the job table and the notes below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "engine"))
import jobs
REAL = "floating-point arithmetic is treated as exact real arithmetic and machine integers as mathematical integers (the bounded stand-in runs the real floating-point code)"
LIBM = "libm functions (exp, tanh, sin, cos, pow) are assumed to compute the real functions"
ENG = "the engine in /verif/engine (clang's AST or CPython's ast, symbolic interpreter, loop summariser, polynomial normaliser) and z3"
BIND = "pybind11 itself: argument conversion, array_t, capsules calling their destructor once, attribute lookup along the registered bases"
T = {}
A = {}
exec(open(os.path.join(V, "tools", "notes.py")).read())
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, lv = [], {}
for p in props:
    i = p["id"]
    if i in NOT_APPLICABLE:
        continue
    n = NOTES.get(i, {})
    proof = bool(jobs.PROPS.get(i))
    checks.append(dict(property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"VERIF_TIER=thorough python3 check.py {i}",
                       technique=n.get("technique", "contracts on the real code discharged by the deductive engine in /verif/engine (z3); bounded run-time contract checking stands in where listed" if proof else "bounded run-time contract checking of the real code (stand-in; not proved)"),
                       level="proof" if proof else "exploration", level_note=n.get("note", "")))
    lv[i] = dict(trusted=n.get("trusted", [ENG] if proof else []), assumptions=n.get("assumptions", []))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in NOT_APPLICABLE.items()],
         notes="See DESIGN.md. check.py ID runs the prover jobs of engine/jobs.py on /repo's current source and the bounded stand-in of harness/.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
json.dump(lv, open(os.path.join(V, "levels.json"), "w"), indent=1)
