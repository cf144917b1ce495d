"""python run.py ID --out res.json [--budget s] [--hints f] [--replay f]"""
import argparse, importlib, json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument("id"); ap.add_argument("--out"); ap.add_argument("--budget", type=float, default=40)
ap.add_argument("--hints"); ap.add_argument("--replay"); ap.add_argument("--seed", type=int, default=1)
ap.add_argument("--part", type=int, default=0); ap.add_argument("--parts", type=int, default=1)
ap.add_argument("--tier", default="quick"); ap.add_argument("--max-failures", type=int, default=3)
a = ap.parse_args()
sys.path.insert(0, os.environ["TFC_PKG"])
import lib
MOD = {"B01": "h_basis", "B02": "h_basis", "B03": "h_basis", "B04": "h_basis", "B05": "h_basis", "B06": "h_basis", "B07": "h_basis", "B08": "h_basis", "B12": "h_basis",
       "B09": "h_jax", "B10": "h_jax", "H01": "h_jax", "U01": "h_jax", "B11": "h_mem",
       "S01": "h_solve", "S02": "h_solve", "S03": "h_solve", "S04": "h_solve", "D01": "h_solve", "E01": "h_sym", "E02": "h_sym", "G01": "h_sym", "G02": "h_sym", "L01": "h_sym"}
mod = importlib.import_module(MOD[a.id])
P = mod.PROPS[a.id]


def quiet(case):
    """run one case; library chatter goes to stderr.  A crash of the code under test counts as a failure of the case."""
    so = os.dup(1); os.dup2(2, 1)
    try:
        try:
            return P["check"](case)
        except AssertionError:
            raise
        except SystemExit as e:
            return f"the code under test ended the program (SystemExit {e.code})"
        except Exception as e:
            return "exception from the code under test: " + "".join(traceback.format_exception_only(type(e), e)).strip() + " @ " + where(e)
    finally:
        sys.stdout.flush(); os.dup2(so, 1); os.close(so)


def where(e):
    tb = traceback.extract_tb(e.__traceback__)
    tb = [t for t in tb if "/tfc/" in t.filename] or tb
    return f"{os.path.basename(tb[-1].filename)}:{tb[-1].lineno}"


if a.replay:
    case = json.load(open(a.replay))
    case = case.get("case", case)
    print("case:", json.dumps(case))
    msg = quiet(case)
    print("result:", msg or "holds")
    sys.exit(1 if msg else 0)

t0 = time.time()
hints = json.load(open(a.hints)) if a.hints and os.path.exists(a.hints) else []
lits = lib.literals(P.get("files", []))
g = lib.Gen(a.seed, hints, lits, a.tier)
res = {"evaluations": 0, "failures": [], "samples": [], "kinds": {}, "literals": lits, "rule": P["rule"]}
seen = set()


def do(case):
    s = json.dumps(case, sort_keys=True)
    if s in seen:
        return
    seen.add(s)
    k = str(case.get("kind", case.get("fam", "case")))
    # a hard crash (signal) must leave the case behind
    if a.out:
        with open(a.out + ".last", "w") as f:
            f.write(s)
    nb = len(case.get("batch", [0]))
    msg = quiet(case)
    res["evaluations"] += nb
    res["kinds"][k] = res["kinds"].get(k, 0) + 1
    if len(res["samples"]) < 5:
        res["samples"].append(case.get("batch", [case])[-1])
    if msg:
        res["failures"].append({"case": case, "message": msg, "key": P["key"](case) if "key" in P else k})


stop = False
for n, case in enumerate(P["fixed"](g)):
    if n % a.parts != a.part:
        continue
    do(case)
    if len(res["failures"]) >= a.max_failures or time.time() - t0 > 5 * a.budget:
        stop = True
        break
res["fixed_s"] = round(time.time() - t0, 1)
g = lib.Gen(a.seed + 7919 * a.part, hints, lits, a.tier)
while not stop and "random" in P and time.time() - t0 < a.budget:
    do(P["random"](g))
    if len(res["failures"]) >= a.max_failures:
        break
res["distinct"] = len(seen)
res["wall_s"] = round(time.time() - t0, 2)
if a.out:
    json.dump(res, open(a.out, "w"))
else:
    print(json.dumps(res, indent=1)[:6000])
