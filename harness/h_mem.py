"""B11: the compiled library under AddressSanitizer+UBSan (with an allocation balance per call) and MemorySanitizer."""
import itertools, os, subprocess, tempfile, json
HERE = os.path.dirname(os.path.abspath(__file__))
ONE = ["CP", "LeP", "LaP", "HoPpro", "HoPphy", "FS", "ELMSigmoid", "ELMReLU", "ELMTanh", "ELMSin", "ELMSwish"]
ND = ["nCP", "nLeP", "nFS"]
NE = ["nELMSigmoid", "nELMTanh", "nELMSin", "nELMSwish", "nELMReLU"]
_bins = None


def bins():
    global _bins
    if _bins:
        return _bins
    u = os.path.join(os.environ["TFC_PKG"], "tfc", "utils")
    out = tempfile.mkdtemp(dir=os.environ.get("TFC_SCRATCH"))
    ps = []
    srcs = sorted(os.path.join(u, f) for f in os.listdir(u) if f.endswith(".cc") and f != "BF_Py.cc")
    for nm, fl in (("asan", ["-fsanitize=address,undefined", "-fno-sanitize=nonnull-attribute", "-fno-sanitize-recover=all"]), ("msan", ["-fsanitize=memory", "-fsanitize-memory-track-origins=0"])):
        b = os.path.join(out, nm)
        ps.append((nm, b, subprocess.Popen(["clang++", "-std=c++20", "-O1", "-g", "-w"] + fl + ["-I", u, "-I", "/usr/include/python3.12", os.path.join(HERE, "memdrv.cc")] + srcs + ["-o", b], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    r = {}
    for nm, b, p in ps:
        t = p.communicate()[0]
        if p.returncode:
            raise AssertionError("harness: sanitizer build failed: " + t[-1500:])
        r[nm] = b
    _bins = r
    return r


def width(c):
    if c["kind"] == "nd" and c["cls"] in ND:
        cnt = 0
        for v in itertools.product(range(c["m"]), repeat=c["dim"]):
            if sum(v) > c["m"] - 1:
                continue
            if not c["full"] and all(v[j] in c["nC"][j * c["numC"]:(j + 1) * c["numC"]] for j in range(c["dim"])):
                continue
            cnt += 1
        return cnt
    return c["m"] if c["full"] else c["m"] - len(c["nC"])


def line(c):
    return " ".join(str(v) for v in [c["kind"], c["cls"], c["dim"], c["m"], c.get("numC", 0), len(c["nC"])] + list(c["nC"]) + [c["n"], len(c["d"])] + list(c["d"]) + [int(c["full"]), c["path"], width(c)])


def check(case):
    b = bins()
    cs = case.get("batch") or [case]
    with tempfile.NamedTemporaryFile("w", suffix=".txt", delete=False, dir=os.environ.get("TFC_SCRATCH")) as f:
        f.write("\n".join(line(c) for c in cs) + "\n")
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1", MSAN_OPTIONS="exitcode=78", UBSAN_OPTIONS="print_stacktrace=1")
    try:
        for nm in ("asan", "msan"):
            r = subprocess.run([b[nm], f.name], capture_output=True, text=True, env=env, timeout=300)
            if r.returncode or f"done {len(cs)}" not in r.stdout:
                i = max([int(l.split()[1]) for l in r.stdout.splitlines() if l.startswith("case ")] or [0])
                bad = cs[i]
                if case.get("batch"):
                    case.clear()
                    case.update(bad)
                tail = [l for l in (r.stdout + r.stderr).splitlines() if any(w in l for w in ("ERROR", "WARNING", "LEAK", "SHAPE", "SIZE", "runtime error", " in ", "#0", "#1"))][:6]
                return f"{nm} (exit {r.returncode}) on {json.dumps(bad)}: " + " | ".join(tail)
    finally:
        os.unlink(f.name)
    return None


def known(c):
    """orders the activation tables do not reach (KNOWN-FINDING B11): swish of order >= 9"""
    return c["cls"] in ("ELMSwish", "nELMSwish") and sum(c["d"]) >= 9


def cases_fixed():
    for cls in ONE:
        for m in (1, 2, 3, 5):
            nCs = [[]] + ([[0]] if m > 1 else []) + ([[m - 1]] if m > 2 else []) + ([[2, 0]] if m > 3 else [])
            for nC in nCs:
                for n in (0, 1, 3):
                    for d in (0, 1, 2, 3, 4, 7, 8, 9, 12):
                        for full in (0, 1):
                            for path in ("H", "xla"):
                                yield dict(kind="1d", cls=cls, dim=1, m=m, nC=nC, n=n, d=[d], full=full, path=path)
        if cls.startswith("ELM"):
            for m in (1, 2, 6):
                yield dict(kind="1d", cls=cls, dim=1, m=m, nC=[], n=1, d=[0], full=1, path="set")
    for cls in ND:
        for dim in (1, 2, 3):
            for m in (1, 2, 4):
                for numC in (0, 1, 2):
                    if numC > m:
                        continue
                    for v in (0, 1):
                        nC = [(k if (v == 0 or j % 2 == 0) else -1) for j in range(dim) for k in range(numC)]
                        for n in (1, 3):
                            for d in ([0] * dim, [1] * dim, [2] + [0] * (dim - 1), [0] * (dim - 1) + [3], [1], [5] * dim):
                                for full in (0, 1):
                                    for path in ("H", "xla"):
                                        yield dict(kind="nd", cls=cls, dim=dim, m=m, numC=numC, nC=nC, n=n, d=d, full=full, path=path)
    for cls in NE:
        for dim in (1, 2, 3):
            for m in (1, 2, 5):
                for nC in [[]] + ([[0]] if m > 1 else []) + ([[3, 1]] if m > 4 else []):
                    for n in (1, 3):
                        for d in [[k] for k in range(10)] + [[1] * dim, [2] * dim, [3] * dim, [0] * (dim - 1) + [8]]:
                            for full in (0, 1):
                                for path in ("H", "xla"):
                                    yield dict(kind="nd", cls=cls, dim=dim, m=m, numC=len(nC), nC=nC, n=n, d=d, full=full, path=path)
                yield dict(kind="nd", cls=cls, dim=dim, m=m, numC=0, nC=[], n=1, d=[0], full=1, path="set")


def fixed(g):
    buf = []
    for c in cases_fixed():
        if known(c):
            continue
        buf.append(c)
        if len(buf) >= 400:
            yield dict(kind="batch", batch=buf)
            buf = []
    if buf:
        yield dict(kind="batch", batch=buf)


def one(g):
    ri = lambda lo, hi: int(g.r.integers(lo, hi + 1))
    k = g.r.random()
    m = g.size(1, 9, "m")
    full, path = ri(0, 1), g.pick(["H", "xla"])
    n = g.pick([0, 1, 2, 5, g.size(1, 40, "n")])
    if k < .5:
        nC = g.subset(m, m - 1)
        return dict(kind="1d", cls=g.pick(ONE), dim=1, m=m, nC=nC, n=n, d=[g.size(0, 12, "d")], full=full, path=path)
    dim = ri(1, 3)
    d = [ri(0, 4) for _ in range(ri(1, dim))]
    if k < .75:
        m = min(m, 6)
        numC = ri(0, m)
        nC = []
        for _ in range(dim):
            q = g.subset(m, numC)
            nC += q + [-1] * (numC - len(q))
        return dict(kind="nd", cls=g.pick(ND), dim=dim, m=m, numC=numC, nC=nC, n=max(n, 1), d=d, full=full, path=path)
    nC = g.subset(m, m - 1)
    return dict(kind="nd", cls=g.pick(NE), dim=dim, m=m, numC=len(nC), nC=nC, n=max(n, 1), d=d, full=full, path=path)


def random_b11(g):
    b = []
    while len(b) < 200:
        c = one(g)
        if not known(c):
            b.append(c)
    return dict(kind="batch", batch=b)


PROPS = {"B11": dict(check=check, fixed=fixed, random=random_b11, files=["utils/BF.cc", "utils/BF.h"],
                     rule="each case is one constructor + one call of H / xla / set+get of one class with given sizes, order and removal list, under ASan+UBSan with allocation balance and under MSan")}
