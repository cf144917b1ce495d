"""seedcheck.py [-p PROP] ID...: run the check of the planted bug's property (or PROP) against a scratch copy of /repo with the patch applied."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]
prop = None
if a[:1] == ["-p"]:
    prop, a = a[1], a[2:]
for i in a or sorted(os.listdir(f"{V}/seeded")):
    W = f"/tmp/w/sc/{i}"
    subprocess.run(f"rm -rf {W}; mkdir -p {W}; git clone -q /repo {W}/repo; cp -a {V}/engine {V}/harness {V}/check.py {V}/levels.json {V}/known_findings.jsonl {W}/", shell=True, check=True)
    r = subprocess.run(["git", "-C", f"{W}/repo", "apply", f"{V}/seeded/{i}/patch.diff"], capture_output=True, text=True)
    if r.returncode:
        print(i, "does not apply", r.stderr)
        continue
    p = prop or json.load(open(f"{V}/seeded/{i}/meta.json"))["property"]
    r = subprocess.run(["python3", f"{W}/check.py", p], capture_output=True, text=True, env=dict(os.environ, TFC_REPO=f"{W}/repo"))
    out = [l for l in r.stdout.splitlines() if "KNOWN" not in l]
    print(f"=== {i} {p} rc={r.returncode}\n   " + "\n   ".join(x[:240] for x in out[-5:]) + ("\n   " + r.stderr[-300:] if r.returncode == 2 else ""), flush=True)
    subprocess.run(f"rm -rf {W}", shell=True)
