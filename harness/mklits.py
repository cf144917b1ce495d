"""records the numeric literals of the tree the harness was written for (search heuristic, not an oracle)"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib
root = "/repo/src/tfc"
out = {}
for d, _, fs in os.walk(root):
    for f in fs:
        if f.endswith((".py", ".cc", ".h")):
            p = os.path.join(d, f)
            out[os.path.relpath(p, root)] = lib.count_literals(p)
json.dump(out, open(os.path.join(lib.BASE, "literals.json"), "w"), sort_keys=True, indent=0)
