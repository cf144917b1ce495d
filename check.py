#!/usr/bin/env python3
"""check.py ID: decide one property of /repo's current tree.  Exit 0: held; exit 1: VIOLATION line; 2: the check itself could not run."""
import concurrent.futures as cf, json, os, shutil, signal, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(V, "engine"), os.path.join(V, "harness")]
import jobs
import build as B
ID = sys.argv[1]
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
EV = os.path.join(V, "evidence")
os.makedirs(EV, exist_ok=True)
REPLAY = os.path.join(EV, f"replay_{ID}.json")
VENV = "/opt/venv/bin/python"
PVT = "/opt/veriftools/pyvenv/bin/python"
if not os.path.exists(PVT):
    PVT = shutil.which("python3-vt")
JOBTIME = 400 if TIER == "quick" else 1500
HBUDGET = float(os.environ.get("VERIF_HBUDGET", 30 if TIER == "quick" else 900))
t0 = time.time()


def known():
    out = []
    p = os.path.join(V, "known_findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#"):
                k = json.loads(l)
                if k["property"] == ID:
                    out.append(k)
    return out


def prove(job, scratch):
    out = os.path.join(scratch, "job_" + job.replace("/", "_") + ".json")
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", VERIF_SCRATCH=scratch)
    try:
        r = subprocess.run([PVT, os.path.join(V, "engine", "runjob.py"), job, "--out", out], capture_output=True, text=True, timeout=JOBTIME, env=env, cwd=scratch)
        return json.load(open(out))
    except subprocess.TimeoutExpired:
        return dict(job=job, obligations=[], unsupported=f"time limit {JOBTIME} s", functions=[], wall_s=JOBTIME, solver={})
    except Exception as e:
        return dict(job=job, obligations=[], unsupported=f"prover did not finish: {e!r} {r.stderr[-500:] if 'r' in dir() else ''}", functions=[], wall_s=0, solver={})


def henv(pk, scratch):
    return dict(os.environ, **B.ENV, TFC_PKG=pk, TFC_SCRATCH=scratch, HOME=scratch, PYTHONHASHSEED="0")


PARTS = 1 if ID == "B11" else 4


def harness(pk, scratch, tag, hints=None, budget=HBUDGET, seed=SEED):
    """the bounded stand-in, its fixed cases shared out and its random ones seeded apart over PARTS processes"""
    with cf.ThreadPoolExecutor(PARTS) as ex:
        rs = list(ex.map(lambda k: harness1(pk, scratch, f"{tag}_{k}", hints, budget, seed, k), range(PARTS)))
    out = dict(evaluations=0, distinct=0, failures=[], samples=[], kinds={}, rule="")
    for r in rs:
        if r.get("crashed") and not (out.get("crashed") and out["crashed"]["case"]):
            out["crashed"] = r["crashed"]
        for k in ("evaluations", "distinct", "failures", "samples"):
            out[k] = out[k] + r[k]
        for k, v in r.get("kinds", {}).items():
            out["kinds"][k] = out["kinds"].get(k, 0) + v
        out["rule"] = r.get("rule") or out["rule"]
    return out


def harness1(pk, scratch, tag, hints, budget, seed, part):
    out = os.path.join(scratch, f"h_{tag}.json")
    cmd = [VENV, os.path.join(V, "harness", "run.py"), ID, "--out", out, "--budget", str(budget), "--seed", str(seed), "--tier", TIER, "--part", str(part), "--parts", str(PARTS)]
    if hints:
        hf = os.path.join(scratch, f"hints_{tag}.json")
        json.dump(hints, open(hf, "w"))
        cmd += ["--hints", hf]
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, env=henv(pk, scratch), cwd=scratch, timeout=8 * budget + 300)
        rc, err = r.returncode, r.stderr
    except subprocess.TimeoutExpired:
        rc, err = "timeout", ""
    if os.path.exists(out) and rc == 0:
        return json.load(open(out))
    last = out + ".last"
    case = json.load(open(last)) if os.path.exists(last) else None
    return dict(evaluations=0, distinct=0, failures=[], samples=[], crashed=dict(rc=rc, case=case, stderr=err[-1500:]))


def replay(pk, scratch, case, timeout=600):
    f = os.path.join(scratch, "case.json")
    json.dump(case, open(f, "w"))
    try:
        r = subprocess.run([VENV, os.path.join(V, "harness", "run.py"), ID, "--replay", f], capture_output=True, text=True, env=henv(pk, scratch), cwd=scratch, timeout=timeout)
        return r.returncode, (r.stdout + r.stderr)[-3000:]
    except subprocess.TimeoutExpired:
        return "timeout", ""


def main(scratch):
    kn = known()
    for f in os.listdir(EV):
        if f == os.path.basename(REPLAY):
            os.unlink(os.path.join(EV, f))
    names = jobs.PROPS.get(ID, [])
    pool = cf.ThreadPoolExecutor(7)
    futs = [pool.submit(prove, j, scratch) for j in names]
    pk = os.path.join(scratch, "pk")
    os.makedirs(pk)
    try:
        B.build(pk)
    except Exception as e:
        print(f"check {ID}: /repo does not build: {e}", file=sys.stderr)
        return 2
    hr = harness(pk, scratch, "main")
    pr = [f.result() for f in futs]
    viol = []          # (kind, case, message)

    def confirm(case, msg, crashed=None):
        rc, txt = replay(pk, scratch, case)
        if rc == 1 or (isinstance(rc, int) and rc != 0):
            viol.append(("input", case, msg, txt))
            return True
        return False

    def digest(h):
        for f in h["failures"]:
            if confirm(f["case"], f["message"]):
                return "bad"
        if h.get("crashed"):
            c = h["crashed"]
            if c["case"] is None:
                print(f"check {ID}: the harness did not run (exit {c['rc']}): {c['stderr'][-1200:]}", file=sys.stderr)
                return "error"
            if not confirm(c["case"], f"the code under test ended the process (exit {c['rc']}): {c['stderr'][-400:]}"):
                return "flaky"
            return "bad"
        return "flaky" if h["failures"] else "ok"
    st = digest(hr)
    if st == "error":
        return 2
    if st == "flaky":
        h2 = harness(pk, scratch, "again")
        if digest(h2) == "flaky":
            if h2.get("crashed"):
                viol.append(("input", h2["crashed"]["case"], f"the code under test repeatedly ended the process: {h2['crashed']['rc']}", h2["crashed"]["stderr"]))
            else:
                f = h2["failures"][0]
                viol.append(("input", f["case"], f["message"] + " (fails within the run's history only)", json.dumps(hr["failures"])[:2000]))
    # obligations
    ob, dis, undis, refuted, unsup, solver_t, fns, nq = 0, 0, [], [], [], 0.0, [], 0
    perjob = []
    for r in pr:
        mine = [o for o in r["obligations"] if jobs.counts(ID, o["name"])]
        ob += len(mine)
        d = sum(o["status"] == "proved" for o in mine)
        dis += d
        solver_t += r.get("solver", {}).get("time", 0)
        nq += r.get("solver", {}).get("queries", 0)
        complete = r["unsupported"] is None and all(o["status"] == "proved" for o in r["obligations"]) and len(r["obligations"]) > 0
        perjob.append(dict(job=r["job"], functions=r["functions"], obligations=len(mine), discharged=d, wall_s=r.get("wall_s"), complete=complete, **({"undecided": r["unsupported"]} if r["unsupported"] else {})))
        if complete:
            fns += r["functions"]
        if r["unsupported"]:
            unsup.append((r["job"], r["unsupported"]))
        for o in mine:
            if o["status"] == "refuted":
                refuted.append(dict(o, job=r["job"]))
            elif o["status"] != "proved":
                undis.append(dict(o, job=r["job"]))
        for o in r["obligations"]:
            if o["status"] != "proved" and o not in mine:
                unsup.append((r["job"], f"stopped at an obligation of another property: {o['name']} ({o['where']})"))
    kobl = {(k.get("fn"), k.get("obligation")) for k in kn if k.get("obligation")}
    refuted = [o for o in refuted if (o["fn"], o["name"]) not in kobl]
    if refuted and not viol:
        hints = []
        for o in refuted:
            m = (o.get("detail") or {}).get("model") or {}
            hints.append({k: v for k, v in m.items() if isinstance(v, int)})
        for s in range(3):
            h2 = harness(pk, scratch, f"hint{s}", hints, budget=max(30, HBUDGET), seed=SEED + 1000 + s)
            hr["evaluations"] += h2.get("evaluations", 0)
            if digest(h2) == "bad":
                break
        if not viol:
            viol.append(("obligation", None, "; ".join(f"{o['fn']}: {o['name']} ({o['where']})" for o in refuted[:5]), json.dumps(refuted[:5])[:6000]))
    if (unsup or undis) and not refuted and not viol:
        # something no longer proves: look harder before relying on the stand-in
        for s in range(2):
            h2 = harness(pk, scratch, f"more{s}", None, budget=max(45, HBUDGET), seed=SEED + 2000 + s)
            hr["evaluations"] += h2.get("evaluations", 0)
            if digest(h2) == "bad":
                break
    for k in kn:
        if k.get("status") == "known":
            still = True
            if k.get("case"):
                rc, _ = replay(pk, scratch, k["case"])
                still = rc != 0
            if still:
                print(f"KNOWN-FINDING: property={ID} {k['what']}")
    lvl = json.load(open(os.path.join(V, "levels.json"))).get(ID, {})
    if names:
        cov = dict(obligations=ob, discharged=dis, checker_cmd=f"python3-vt engine/runjob.py <job> for {len(names)} jobs: interprets /repo's current source, discharges each obligation with z3 (API, queries {nq}) and exact polynomial normalisation",
                   trusted_base=lvl.get("trusted", []), functions_under_contract=sorted(set(fns)), jobs=perjob, solver_time_s=round(solver_t, 2), solver_queries=nq,
                   undischarged=[dict(job=j, reason=u) for j, u in unsup] + [dict(job=o["job"], reason=f"not proved: {o['fn']}: {o['name']} ({o['where']})") for o in undis],
                   bounded_stand_in=dict(evaluations=hr.get("evaluations", 0), distinct=hr.get("distinct", 0), kinds=hr.get("kinds", {}), rule=hr.get("rule", ""), samples=hr.get("samples", [])[:3]))
        level = "proof"
    else:
        cov = dict(evaluations=hr.get("evaluations", 0), distinct_nontrivial=hr.get("distinct", 0), rule=hr.get("rule", ""), samples=hr.get("samples", [])[:5], kinds=hr.get("kinds", {}))
        level = "exploration"
    ev = dict(property=ID, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED, level=level, coverage=cov, assumptions=lvl.get("assumptions", []), violations=len(viol), wall_s=round(time.time() - t0, 1))
    json.dump(ev, open(os.path.join(EV, ID + ".json"), "w"), indent=1)
    if names and ob == 0 and not unsup:
        print(f"check {ID}: zero obligations were generated", file=sys.stderr)
        return 2
    if viol:
        kind, case, msg, txt = viol[0]
        json.dump(dict(property=ID, case=case, message=msg, failed_obligations=refuted[:5], verifier_output=txt,
                       how="TFC_PKG=<build of /repo: python3 harness/build.py DIR> /opt/venv/bin/python harness/run.py %s --replay <this file>" % ID if case else "python3-vt engine/runjob.py <job>"), open(REPLAY, "w"), indent=1)
        print(f"{ID}: {msg}"[:1500])
        for o in refuted[:5]:
            print(f"  failed obligation: {o['fn']}: {o['name']} at {o['where']}")
        print(f"VIOLATION property={ID} replay={os.path.relpath(REPLAY, V)}" + ("" if kind == "input" else " no-failing-input-found"))
        return 1
    print(f"{ID}: {dis}/{ob} obligations discharged over {len(names)} functions' contracts ({len(unsup) + len(undis)} left to the bounded stand-in), {hr.get('evaluations', 0)} bounded evaluations, {time.time() - t0:.0f} s")
    return 0


if __name__ == "__main__":
    base = os.environ.get("TMPDIR", "/tmp")
    scratch = tempfile.mkdtemp(prefix=f"tfcv_{ID}_", dir=base)
    try:
        rc = main(scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)
