"""python3-vt runjob.py JOB --out f: interpret the current source, discharge the obligations, write the verdicts as JSON."""
import argparse, importlib, json, os, resource, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
ap = argparse.ArgumentParser()
ap.add_argument("job"); ap.add_argument("--out"); ap.add_argument("--mem", type=float, default=5.0)
a = ap.parse_args()
if not a.job.startswith("lean."):
    resource.setrlimit(resource.RLIMIT_AS, (int(a.mem * 2**30),) * 2)
import jobs, core, solver
mod, fn, args = jobs.JOBS[a.job]
res = dict(job=a.job, obligations=[], unsupported=None, functions=[])
t0 = time.time()
try:
    m = importlib.import_module(mod)
    ctx = m.entry(fn, args)
    res["functions"] = list(getattr(ctx, "functions", []))
    if not res["functions"] and not a.job.startswith("lean."):
        res["functions"] = [ctx.label]
    agg = {}
    for (label, name, where), st, det in ctx.obls:
        k = (label, name, str(where), st)
        if k in agg:
            agg[k]["instances"] += 1
            continue
        agg[k] = dict(fn=label, name=name, where=str(where), status=st, detail=det, instances=1)
    res["obligations"] = list(agg.values())
    res["paths"] = ctx.n_paths
    res["assumed"] = list(getattr(ctx, "assumed", []))
except core.Unsupported as e:
    res["unsupported"] = str(e) or "unsupported"
    c = core.Ctx.current
    if c is not None:
        for (label, name, where), st, det in c.obls:
            res["obligations"].append(dict(fn=label, name=name, where=str(where), status=st, detail=det))
except (MemoryError, RecursionError) as e:
    res["unsupported"] = type(e).__name__
except Exception as e:
    res["unsupported"] = "engine: " + "".join(traceback.format_exception_only(type(e), e)).strip() + " @ " + str(traceback.extract_tb(e.__traceback__)[-1])[:200]
res["wall_s"] = round(time.time() - t0, 2)
res["solver"] = {k: (round(v, 2) if isinstance(v, float) else v) for k, v in solver.STATS.items()}
s = json.dumps(res, default=str)
if a.out:
    open(a.out, "w").write(s)
else:
    from collections import Counter
    print(a.job, Counter(o["status"] for o in res["obligations"]), res["unsupported"], res["wall_s"], res["solver"])
    for o in res["obligations"]:
        if o["status"] != "proved":
            print("  ", o)
