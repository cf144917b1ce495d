"""mkseed.py: build /verif/seeded/<id>/ from a spec file: python file defining SEEDS = {id: dict(property, needs, breaks, edits=[(file, old, new[, count])], demo=str)}."""
import json, os, subprocess, sys
S = "/verif/seeded"
spec = {}
exec(open(sys.argv[1]).read(), spec)
only = sys.argv[2:]
for i, s in spec["SEEDS"].items():
    if only and i not in only:
        continue
    d = f"{S}/{i}"
    os.makedirs(d, exist_ok=True)
    W = "/tmp/w/mk"
    subprocess.run(f"rm -rf {W}; git -C /repo worktree prune; git clone -q /repo {W}", shell=True, check=True)
    for e in s["edits"]:
        p = os.path.join(W, e[0])
        t = open(p, newline="").read()
        if "\r\n" in t:
            e = (e[0], e[1].replace("\n", "\r\n"), e[2].replace("\n", "\r\n"), *e[3:])
        n = t.count(e[1])
        want = e[3] if len(e) > 3 else 1
        assert n == want, (i, e[0], e[1], n)
        open(p, "w", newline="").write(t.replace(e[1], e[2]))
    diff = subprocess.run(["git", "-C", W, "diff"], capture_output=True).stdout.decode()
    open(d + "/patch.diff", "w", newline="").write(diff)
    open(d + "/demo.py", "w").write(s["demo"])
    open(d + "/demo.sh", "w").write('''#!/bin/bash
# exit 0 when the behaviour is right, nonzero when it is broken
export JAX_PLATFORMS=cpu MPLBACKEND=Agg MPLCONFIGDIR=/opt/mplconfig PYTHONDONTWRITEBYTECODE=1
export PYTHONPATH="$PWD/src"
exec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"
''')
    json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
    subprocess.run(f"rm -rf {W}", shell=True)
    print(i, len(diff.splitlines()))
