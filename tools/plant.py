"""plant.py ID...: confirm a planted bug in a scratch copy of /repo: applies, builds, stable tests pass, demo 0 without / nonzero with it."""
import json, os, subprocess, sys, shutil
RC, VP, S = "/tmp/w/rc", "/tmp/w/vp", "/verif/seeded"
sh = lambda c, **k: subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def fresh():
    sh(f"rm -rf {RC}; cp -a /repo {RC}; rm -rf {RC}/build; cd {RC} && git checkout -q -- . && git clean -fdq")


def demo(i):
    d = "/tmp/w/demo_" + i
    sh(f"rm -rf {d}; mkdir -p {d}; cp {S}/{i}/* {d}/; rm -f {d}/*.diff {d}/meta.json; sed -i 's#/repo#{RC}#g' {d}/*")
    r = sh(f"bash {d}/demo.sh", cwd=RC, timeout=300)
    sh(f"rm -rf {d}")
    return r.returncode, (r.stdout + r.stderr)[-600:]


def main(i, tests=True):
    fresh()
    sh(f"bash {VP}/build.sh")
    r0, t0 = demo(i)
    a = sh(f"git apply {S}/{i}/patch.diff", cwd=RC)
    if a.returncode:
        return f"{i}: patch does not apply: {a.stderr}"
    b = sh(f"bash {VP}/build.sh")
    if b.returncode:
        return f"{i}: build fails: {b.stdout[-500:]}{b.stderr[-500:]}"
    r1, t1 = demo(i)
    miss = "not run"
    if tests:
        sh(f"bash {VP}/test.sh /tmp/w/plant_t.json")
        base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        miss = sorted(base - set(json.load(open("/tmp/w/plant_t.json"))["passed"]))
    ok = r0 == 0 and r1 != 0 and not miss
    return f"{i}: {'GOOD' if ok else 'BAD'} demo clean={r0} patched={r1} lost tests={miss}" + ("" if ok else f"\n clean: {t0}\n patched: {t1}")


for i in sys.argv[1:]:
    print(main(i), flush=True)
