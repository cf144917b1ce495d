"""B01-B08, B12: basis matrices of both backends."""
from lib import *
import itertools

CC = ["utils/BF.cc", "utils/BF.h", "utils/BF_Py.cc"]
PY = ["utils/BF_Py.py"]


def mod(backend):
    if backend == "C++":
        from tfc.utils import BF
    else:
        from tfc.utils import BF_Py as BF
    return BF


def mk1(case):
    BF = mod(case["backend"])
    nC = np.array(case.get("nC", []), dtype=np.int32)
    return getattr(BF, case["fam"])(case["x0"], case["xf"], nC, case["m"])


def points(case):
    r = np.random.default_rng(case["pseed"])
    n = case["n"]
    x0, xf = case["x0"], case["xf"]
    if case["fam"] in ("LaP", "HoPpro", "HoPphy"):
        x = r.uniform(-2.5, 4.0, n)
    else:
        x = r.uniform(x0, xf, n)
    # dyadic points: exact in the oracle; include the domain ends and (often) mapped zero
    x = np.round(x * 64) / 64
    if n > 1 and case["fam"] in ("CP", "LeP", "FS"):
        x[0], x[-1] = x0, xf
    return x


def zmap(case):
    """(x0, c, z0) of the affine map, as the documentation gives it"""
    fam = case["fam"].lstrip("n")
    x0, xf = case["x0"], case["xf"]
    if fam in ("CP", "LeP"):
        return Fr(x0), Fr(2) / (Fr(xf) - Fr(x0)), Fr(-1)
    if fam == "FS":
        return x0, 2 * np.pi / (xf - x0), -np.pi
    if fam.startswith("ELM"):
        return x0, 1.0 / (xf - x0), 0.0
    return Fr(0), Fr(1), Fr(0)


def weights(case, obj, dim=None):
    """set reproducible weights and biases; returns them (w: (m,) or (dim,m))"""
    r = np.random.default_rng(case["wseed"])
    m = case["m"]
    if dim is None:
        w, b = r.uniform(-3, 3, m), r.uniform(-4, 4, m)
    else:
        w, b = r.uniform(-1.5, 1.5, (dim, m)), r.uniform(-2, 2, m)
    if m > 2 and case["wseed"] % 5 == 0:
        (w if dim is None else w[0])[1] = 0.0
    obj.w, obj.b = w, b
    return w, b


def want1(case, obj):
    """(matrix, scale) of the full basis"""
    fam, m, d = case["fam"], case["m"], case["d"]
    x = points(case)
    x0, c, z0 = zmap(case)
    if fam in FAM:
        cplx = case.get("complex")
        rows, C = [], Fr(c) ** d
        for v in x:
            z = (Fr(float(v)) - x0) * c + z0
            if cplx:
                z = CQ(z, Fr(case["im"]) * c)
            rows.append([complex(e * C) if cplx else float(e * C) for e in poly_row(fam, m, d, z)])
        W = np.array(rows).reshape(len(x), m)
        # values may nearly cancel at some points: scale by the column's size at a spread of points
        ref = np.array([[float(abs(complex(e * C)) if cplx else abs(e * C)) for e in poly_row(fam, m, d, Fr(q))] for q in (Fr(1), Fr(-1), Fr(5, 2))])
        return W, np.max(ref, axis=0, keepdims=True) + np.max(np.abs(W), axis=0, keepdims=True, initial=0) + float(C)
    if fam == "FS":
        z = (x - x0) * c + z0
        if case.get("complex"):
            z = z + 1j * case["im"] * c
        W = np.array([fourier_row_c(m, d, v) for v in z]).reshape(len(x), m) * c ** d
        return W, np.array([[max(1.0, float((k + 1) // 2)) ** d * (np.cosh(case.get("im", 0) * c * ((k + 1) // 2))) for k in range(m)]]) * c ** d
    w, b = weights(case, obj)
    z = (x - x0) * c + z0
    W = np.array([[act(fam, d, w[j] * v + b[j]) * w[j] ** d for j in range(m)] for v in z]).reshape(len(x), m) * c ** d
    S = np.array([[(abs(w[j]) ** d) * actmax(fam, d) + 1e-9 for j in range(m)]]) * c ** d
    return W, S * 10


def fourier_row_c(m, d, z):
    out = []
    for k in range(m):
        g = (k + 1) // 2
        if k == 0:
            out.append(1.0 if d == 0 else 0.0)
        else:
            i = (d % 4 + (1 if k % 2 == 0 else 0)) % 4
            v = [np.sin, np.cos, lambda t: -np.sin(t), lambda t: -np.cos(t)][i](g * z)
            out.append(float(g) ** d * v)
    return out


def near_kink(case, obj, W):
    return False


def check_values(case):
    obj = mk1(case)
    W, S = want1(case, obj)
    x = points(case)
    if case.get("complex"):
        x = x + 1j * case["im"]
    got = obj.H(x, case["d"], True)
    got = np.asarray(got)
    if case["fam"] == "ELMReLU" and case["d"] == 1:
        # the derivative at the kink itself is not specified
        x0, c, z0 = zmap(case)
        w, b = weights(case, obj)
        z = (points(case) - x0) * c + z0
        a = np.outer(z, w) + b
        got, W = np.where(np.abs(a) < 1e-9, 0, got), np.where(np.abs(a) < 1e-9, 0, W)
    msg = close(got, W, S, f"{case['backend']} {case['fam']} m={case['m']} d={case['d']}")
    if msg or case.get("complex") or not case.get("jaxarr"):
        return msg
    import jax.numpy as jnp
    return close(np.asarray(obj.H(jnp.array(x), case["d"], True)), W, S, "with a JAX array: " + f"{case['backend']} {case['fam']}")


def val_case(g, fam, backend, m=None, d=None, n=None, cplx=False, dmax=9):
    x0, xf = g.domain()
    m = g.size(1, 12, "m") if m is None else m
    d = g.size(0, dmax, "d") if d is None else d
    n = g.size(0, 5, "nOut") if n is None else n
    if fam in ("ELMSigmoid", "ELMTanh", "ELMSwish"):
        d = min(d, 8)
    c = dict(kind=f"{backend}-{fam}", backend=backend, fam=fam, m=m, d=d, n=n, x0=x0, xf=xf, pseed=g.seed())
    if fam.startswith("ELM"):
        c["wseed"] = g.seed()
    if cplx:
        c["complex"], c["im"] = True, round(float(g.r.uniform(-0.5, 0.5)), 2)
    if g.flag(0.1):
        c["jaxarr"] = True
    return c


def fixed_vals(fams, backends, cplx=False, ms=(1, 2, 3, 4, 5, 7, 10), ds=(0, 1, 2, 3, 4, 5, 6, 7, 8)):
    def gen(g):
        for be in backends:
            for fam in fams:
                for m in ms:
                    for d in ds:
                        if be == "Python" and fam.startswith("ELM") and fam != "ELMReLU" and (m not in (1, 3, 7) or d > 3 and m != 3 or d > 5 and not (d == 8 and g.tier == "thorough")):
                            continue
                        yield val_case(g, fam, be, m=m, d=d, n=3)
                for L in g.lits:
                    yield val_case(g, fam, be, m=max(1, L), d=1, n=3)
                    yield val_case(g, fam, be, m=max(1, L + 1), d=0, n=2)
                    yield val_case(g, fam, be, m=5, d=L, n=2)
                    yield val_case(g, fam, be, m=max(1, L) + 3, d=L, n=2)
                    yield val_case(g, fam, be, m=4, d=2, n=L)
                for big in ((17, 3, 2), (23, 0, 2), (4, 12, 2), (6, 2, 40), (9, 1, 0), (33, 5, 2), (3, 21, 2)):
                    if fam in ("ELMSigmoid", "ELMTanh", "ELMSwish") and big[1] > 8 or be == "Python" and fam.startswith("ELM") and big[1] > 8:
                        continue
                    yield val_case(g, fam, be, *big)
                if fam in ("CP", "LeP", "FS"):
                    for big in ((48, 8, 2), (72, 4, 2), (60, 11, 2), (41, 9, 2), (36, 7, 1)):
                        yield val_case(g, fam, be, *big)
                if cplx:
                    for m, d in ((1, 0), (2, 1), (3, 2), (5, 0), (6, 3), (8, 1)):
                        yield val_case(g, fam, be, m=m, d=d, n=3, cplx=True)
    return gen


def random_vals(fams, backends, cplx=False):
    def gen(g):
        fam, be = g.pick(fams), g.pick(backends)
        return val_case(g, fam, be, cplx=cplx and g.flag(0.2), dmax=3 if be == "Python" and fam.startswith("ELM") else 9)
    return gen


def check_b02(case):
    if case.get("kind", "").startswith("agree"):
        a, b = mk1(dict(case, backend="C++")), mk1(dict(case, backend="Python"))
        x = points(case)
        A, B = np.asarray(a.H(x, case["d"], case["full"])), np.asarray(b.H(x, case["d"], case["full"]))
        return close(B, A, np.max(np.abs(A), initial=1.0), f"backends disagree for {case['fam']} m={case['m']} d={case['d']}")
    return check_values(case)


def fixed_b02(g):
    yield from fixed_vals(POLYS, ["Python"], True)(g)
    for fam in POLYS:
        for m in (1, 2, 3, 6):
            for d in (0, 1, 2, 4):
                c = val_case(g, fam, "Python", m=m, d=d, n=4)
                c.update(kind="agree-" + fam, full=g.flag(), nC=g.subset(m, m - 1))
                yield c


# ------------------------------------------------------------------ B05 removed columns
def given(form, v):
    """the user's way of writing a removal list"""
    import jax.numpy as jnp
    if form == "int":
        return v
    return v if form == "list" else (np.array(v, dtype=int) if form == "np" else jnp.array(v, dtype=int))


def user_b05(case):
    """removal lists as users hand them to utfc and mtfc"""
    from tfc import utfc, mtfc
    import jax.numpy as jnp
    m, be, basis = case["m"], case["backend"], case["basis"]
    if case["user"] == "utfc":
        nC = list(range(case["nC"])) if case["form"] == "int" else case["nC"]
        t = utfc(case["n"], given(case["form"], case["nC"]), m - 1, basis=basis, x0=-0.7, xf=1.9, backend=be)
        x = t.x
        full, red = np.asarray(t.H(x, full=True)), np.asarray(t.H(x, full=False))
        keep = [k for k in range(m) if k not in nC]
        if full.shape[1] != m or red.shape[1] != len(keep):
            return f"utfc nC={case['nC']} ({case['form']}): widths {full.shape[1]} and {red.shape[1]}, expected {m} and {len(keep)}"
        if not np.array_equal(red, full[:, keep]):
            return f"utfc nC={case['nC']} ({case['form']}): reduced matrix is not columns {keep} of the full one"
        return None
    dim = case["dim"]
    rows = [list(range(v)) if isinstance(v, int) else list(v) for v in case["nC"]]
    if case["form"] == "2d":
        arg = given(case["lib"], [list(v) for v in case["nC"]])
    else:
        arg = [v if isinstance(v, int) else given(f, v) for f, v in zip(case["forms"], case["nC"])]
    x0, xf = np.array([-0.5, 0.0, 1.0])[:dim], np.array([1.0, 2.0, 1.5])[:dim]
    t = mtfc([case["n"]] * dim, arg, m - 1, dim=dim, basis=basis, x0=x0, xf=xf, backend=be)
    w = max(1, max(len(r) for r in rows))
    pad = np.array([[k for k in r if k >= 0] + [-1] * (w - len([k for k in r if k >= 0])) for r in rows], dtype=np.int32)
    o = getattr(mod(be), "n" + basis)(x0, xf, pad, m)
    x = np.array([np.asarray(v) for v in t.x])
    d = tuple([0] * dim)
    for full in (True, False):
        A, B = np.asarray(t.H(*t.x, full=full)), np.asarray(o.H(x, d, full))
        if A.shape != B.shape:
            return f"mtfc nC={case['nC']} ({case['form']}): {A.shape[1]} columns, expected {B.shape[1]} (full={full})"
        msg = close(A, B, 1 + np.abs(B), f"mtfc nC={case['nC']} ({case['form']}) full={full}", 1e-10)
        if msg:
            return msg
    return None


def user_case(g, user=None, **kw):
    user = user or g.pick(["utfc", "mtfc"])
    m = g.size(3, 6, "m")
    if user == "utfc":
        form = g.pick(["int", "list", "np", "jnp"])
        c = dict(kind="utfc", user=user, form=form, m=m, n=g.size(2, 5, "n"), nC=int(g.r.integers(0, m)) if form == "int" else g.subset(m, m - 1), basis=g.pick(["CP", "LeP", "FS", "ELMSin"]), backend=g.pick(["C++", "Python"]))
    else:
        m = min(m, 7)
        dim = int(g.r.integers(1, 4))
        form = g.pick(["rows", "rows", "2d"])
        c = dict(kind="mtfc", user=user, form=form, m=m, n=2, dim=dim, lib=g.pick(["np", "jnp", "list"]), forms=[g.pick(["list", "np", "jnp"]) for _ in range(dim)], basis=g.pick(["CP", "LeP", "FS"]), backend=g.pick(["C++", "Python"]))
        if form == "2d":
            w = int(g.r.integers(1, min(4, m)))
            c["nC"] = [[int(v) for v in g.r.permutation(m)[:w]] for _ in range(dim)]
        else:
            c["nC"] = [int(g.r.integers(0, 3)) if g.flag() else ([int(v) for v in g.r.permutation(m)[: int(g.r.integers(1, min(4, m)))]]) for _ in range(dim)]
    c.update(kw)
    return c


def check_b05(case):
    if "user" in case:
        return user_b05(case)
    if case.get("dim"):
        obj, x, d = mkn(case), npoints(case), tuple(case["dv"])
        if case["fam"].startswith("nELM"):
            weights(case, obj, case["dim"])
        full, red = np.asarray(obj.H(x, d, True)), np.asarray(obj.H(x, d, False))
        cnt, cntf = obj.numBasisFunc, obj.numBasisFuncFull
    else:
        obj, x, d = mk1(case), points(case), case["d"]
        if case["fam"].startswith("ELM"):
            weights(case, obj)
        full, red = np.asarray(obj.H(x, d, True)), np.asarray(obj.H(x, d, False))
        cnt = obj.m - obj.numC if case["backend"] == "C++" else red.shape[1]
        cntf = obj.m if case["backend"] == "C++" else full.shape[1]
    keep = [k for k in range(case["m"]) if k not in case["nC"]]
    if full.shape != (case["n"], case["m"]):
        return f"full matrix has shape {full.shape}, expected {(case['n'], case['m'])}"
    if red.shape != (case["n"], len(keep)):
        return f"reduced matrix has shape {red.shape}, expected {(case['n'], len(keep))} (nC={case['nC']})"
    if (cnt, cntf) != (len(keep), case["m"]):
        return f"reported counts {(cnt, cntf)}, expected {(len(keep), case['m'])}"
    if not np.array_equal(red, full[:, keep]):
        return f"reduced matrix is not columns {keep} of the full matrix (nC={case['nC']})"
    if not case["nC"]:
        return None
    # the full matrix must not depend on the removal list
    o2 = mkn(dict(case, nC=[])) if case.get("dim") else mk1(dict(case, nC=[]))
    if "wseed" in case:
        weights(case, o2, case.get("dim"))
    f2 = np.asarray(o2.H(x, d, True))
    return close(full, f2, 1 + np.abs(f2), "full matrix differs when functions are removed", 1e-12)


def rm_case(g, fam, backend, nC=None, m=None):
    if fam.startswith("n"):
        dim = g.size(1, 3, "dim")
        m = m or g.size(1, 9, "m")
        c = dict(kind=f"{backend}-{fam}", backend=backend, fam=fam, dim=dim, m=m, n=g.size(0, 4, "n"), pseed=g.seed(), wseed=g.seed(), dseed=g.seed(), dv=[int(v) for v in g.r.integers(0, 3, dim)])
    else:
        c = val_case(g, fam, backend, d=g.size(0, 4, "d"), m=m)
        c.pop("jaxarr", None)
    c["nC"] = g.subset(c["m"], c["m"] - 1) if nC is None else [k for k in nC if k < c["m"]]
    return c


B05F = POLYS + ["FS"] + ELMS + ["n" + e for e in ELMS]


def fixed_b05(g):
    for be in ("C++", "Python"):
        for f in ("int", "list", "np", "jnp"):
            for nC in (1, 3) if f == "int" else ([0], [2, 0], [1, 3]):
                yield user_case(g, "utfc", form=f, nC=nC, m=5, backend=be)
        for lib in ("np", "jnp", "list"):
            for dim, nC in ((2, [[0, 1, 2], [0, 3, 1]]), (3, [[0, 1], [1, 0], [2, 0]]), (2, [[0], [1]]), (1, [[0, 2]])):
                yield user_case(g, "mtfc", form="2d", lib=lib, dim=dim, nC=nC, m=5, backend=be)
        for nC in ([1, 2], [2, [0, 3, 1]], [[1], 0], [0, 0], [[0, 1], [2]], [3, 1]):
            for f in ("list", "np", "jnp"):
                yield user_case(g, "mtfc", form="rows", forms=[f, f], dim=2, nC=nC, m=5, backend=be)
    for be in ("C++", "Python"):
        for fam in B05F:
            for nC in ([], [0], [0, 1], [1], [4], [0, 4], [4, 0], [2, 1], [3, 0, 2], [4, 3, 2, 1]):
                if be == "Python" and "ELM" in fam and len(nC) > 2:
                    continue
                yield rm_case(g, fam, be, nC=nC, m=5)
            for L in g.lits:
                yield rm_case(g, fam, be, nC=[L], m=L + 2)
                yield rm_case(g, fam, be, nC=list(range(L)), m=L + 2)
                yield rm_case(g, fam, be, m=max(1, L))


def random_b05(g):
    if g.flag(0.1):
        return user_case(g)
    return rm_case(g, g.pick(B05F), g.pick(["C++", "C++", "Python"]))


# ------------------------------------------------------------------ n-D
def mkn(case):
    BF = mod(case["backend"])
    x0, xf = ndom(case)
    nC = case["nC"]
    if case["fam"].startswith("nELM"):
        nC = np.array(nC, dtype=np.int32)
    else:
        nC = np.array(nC, dtype=np.int32).reshape(case["dim"], -1)
    return getattr(BF, case["fam"])(x0, xf, nC, case["m"])


def ndom(case):
    r = np.random.default_rng(case["dseed"])
    x0 = np.round(r.uniform(-2, 2, case["dim"]), 2)
    return x0, x0 + np.round(r.uniform(0.5, 3, case["dim"]), 2)


def npoints(case):
    r = np.random.default_rng(case["pseed"])
    x0, xf = ndom(case)
    return x0[:, None] + (xf - x0)[:, None] * r.uniform(0, 1, (case["dim"], case["n"]))


def check_b06(case):
    out = {}
    x, d = npoints(case), tuple(case["dv"])
    x0, xf = ndom(case)
    dim, m, n = case["dim"], case["m"], case["n"]
    fam = case["fam"][1:]
    T = []
    for k in range(dim):
        if fam == "FS":
            z = (x[k] - x0[k]) * 2 * np.pi / (xf[k] - x0[k]) - np.pi
            T.append(np.array([fourier_row(m, d[k], v) for v in z]).reshape(n, m) * (2 * np.pi / (xf[k] - x0[k])) ** d[k])
        else:
            c = 2 / (xf[k] - x0[k])
            T.append(np.array([[float(e) for e in poly_row(fam, m, d[k], (Fr(float(v)) - Fr(float(x0[k]))) * Fr(float(c)) - 1)] for v in x[k]]).reshape(n, m) * c ** d[k])
    nC = np.array(case["nC"], dtype=int).reshape(dim, -1)
    idx = [v for v in itertools.product(range(m), repeat=dim) if sum(v) <= m - 1]
    idx.sort(key=lambda v: v[::-1])
    red = [v for v in idx if not all(v[k] in nC[k] for k in range(dim))]
    for be in case["backends"]:
        obj = mkn(dict(case, backend=be))
        for full, cols, cnt in ((True, idx, obj.numBasisFuncFull), (False, red, obj.numBasisFunc)):
            M = np.asarray(obj.H(x, d, full))
            out[be, full] = M
            what = f"{be} {case['fam']} dim={dim} m={m} d={d} full={full}"
            if cnt != len(cols):
                return f"{what}: reported count {cnt}, expected {len(cols)}"
            if M.shape != (n, len(cols)):
                return f"{what}: shape {M.shape}, expected {(n, len(cols))}"
            if n == 0 or not cols:
                continue
            W = np.stack([np.prod([T[k][:, v[k]] for k in range(dim)], axis=0) for v in cols], axis=1)
            S = np.max(np.abs(W), axis=0, keepdims=True) + np.max(np.abs(W)) * 1e-2 + 1e-6
            msg = close(M, W, S, what)
            if msg:
                # any order is allowed as long as the columns are the same
                left = list(range(len(cols)))
                for j in range(len(cols)):
                    hit = [i for i in left if np.all(np.abs(M[:, j] - W[:, i]) <= 1e-7 * (S[:, i] + 1e-3))]
                    if not hit:
                        return msg
                    left.remove(hit[0])
    for full in (True, False):
        if len(case["backends"]) == 2:
            A, B = out["C++", full], out["Python", full]
            msg = close(B, A, np.max(np.abs(A), initial=1.0), f"column order/values differ between backends ({case['fam']}, full={full})")
            if msg:
                return msg
    return None


def nd_case(g, fam, dim=None, m=None, backends=("C++", "Python"), nC=None, n=None, dv=None):
    dim = dim or g.size(1, 4, "dim")
    dim = min(dim, 5)
    if m is None:
        m = g.size(1, 7, "m")
    m = min(m, {1: 40, 2: 14, 3: 8, 4: 5, 5: 4}[dim])
    if nC is None:
        k = int(g.r.integers(0, m))
        nC = []
        for _ in range(dim):
            s = g.subset(m, k)
            s = s + [-1] * (k - len(s))
            nC.append(list(map(int, g.r.permutation(s))) if g.flag(0.3) else s)
    return dict(kind=fam, fam=fam, backends=list(backends), dim=dim, m=m, nC=nC, n=g.size(0, 4, "n") if n is None else n, pseed=g.seed(), dseed=g.seed(), dv=[int(v) for v in g.r.integers(0, 4, dim)] if dv is None else dv)


NF = ["nCP", "nLeP", "nFS"]


def fixed_b06(g):
    for fam in NF:
        for dim in (1, 2, 3, 4):
            for m in (1, 2, 3, 4, 6):
                if dim == 4 and m > 4:
                    continue
                yield nd_case(g, fam, dim, m, n=2)
                yield nd_case(g, fam, dim, m, n=3, nC=[[] for _ in range(dim)])
        yield nd_case(g, fam, 2, 5, nC=[[0, 1], [0, 1]], n=3)
        yield nd_case(g, fam, 2, 5, nC=[[0, 1], [0, -1]], n=3)
        yield nd_case(g, fam, 2, 5, nC=[[0, -1], [0, 3]], n=3)
        yield nd_case(g, fam, 2, 5, nC=[[-1, -1], [0, 3]], n=3)
        yield nd_case(g, fam, 2, 5, nC=[[-1, 0], [1, 0]], n=3)
        yield nd_case(g, fam, 3, 4, nC=[[0, -1, 1], [-1, -1, 2], [-1, 0, 3]], n=2)
        yield nd_case(g, fam, 3, 4, nC=[[0, 1], [3, -1], [0, 2]], n=2)
        yield nd_case(g, fam, 2, 6, nC=[[4, 2, 0], [5, 1, -1]], n=2, dv=[2, 1])
        for L in g.lits:
            yield nd_case(g, fam, 1, max(1, L), n=2)
            yield nd_case(g, fam, 2, max(1, min(L, 14)), n=2)
            yield nd_case(g, fam, 2, 4, n=L)
            yield nd_case(g, fam, 2, 4, n=2, dv=[L, 0])
            yield nd_case(g, fam, 2, 4, n=2, dv=[0, L])


def random_b06(g):
    return nd_case(g, g.pick(NF), backends=("C++", "Python") if g.flag(0.7) else ("C++",))


def check_b07(case):
    fam, dim, m, n = case["fam"], case["dim"], case["m"], case["n"]
    d = tuple(case["dv"])
    obj = mkn(case)
    w, b = weights(case, obj, dim)
    x0, xf = ndom(case)
    x = npoints(case)
    c = 1 / (xf - x0)
    z = (x - x0[:, None]) * c[:, None]
    a = z.T @ w + b
    D = sum(d)
    kind = fam[1:]
    f = np.prod([w[k] ** d[k] * c[k] ** d[k] for k in range(dim)], axis=0)
    W = np.array([[act(kind, D, v) for v in row] for row in a]).reshape(n, m) * f
    S = np.abs(f)[None, :] * actmax(kind, D) * 10 + 1e-12
    got = np.asarray(obj.H(x, d if not case.get("dlist") else np.array(d, dtype=np.int32), True))
    if kind == "ELMReLU" and D == 1:
        got, W = np.where(np.abs(a) < 1e-9, 0, got), np.where(np.abs(a) < 1e-9, 0, W)
    return close(got, W, S, f"{case['backend']} {fam} dim={dim} m={m} d={d}")


def nelm_case(g, fam, be, dim=None, dv=None, m=None, n=None):
    dim = min(dim or g.size(1, 4, "dim"), 6)
    if dv is None:
        tot = g.size(0, 8 if be == "C++" else 4, "d")
        tot = min(tot, 8)
        dv = [0] * dim
        for _ in range(tot):
            dv[int(g.r.integers(dim))] += 1
    return dict(kind=f"{be}-{fam}", backend=be, fam=fam, dim=dim, dv=dv, m=m or g.size(1, 5, "m"), n=g.size(0, 4, "n") if n is None else n, nC=[], pseed=g.seed(), dseed=g.seed(), wseed=g.seed(), dlist=g.flag(0.3))


NE = ["n" + e for e in ELMS]


def fixed_b07(g):
    for be in ("C++", "Python"):
        for fam in NE:
            for dim in (1, 2, 3):
                for tot in range(9):
                    if be == "Python" and tot > 3 and fam != "nELMReLU":
                        continue
                    for rep in range(1 if dim == 1 else 3):
                        dv = [0] * dim
                        if rep == 0:
                            dv[0] = tot
                        elif rep == 1:
                            dv[-1] = tot
                        else:
                            for q in range(tot):
                                dv[q % dim] += 1
                        yield nelm_case(g, fam, be, dim, dv, n=2, m=3)
            for L in g.lits:
                yield nelm_case(g, fam, be, 2, m=max(1, L), n=2)
                yield nelm_case(g, fam, be, 2, m=3, n=L)
                yield nelm_case(g, fam, be, 1, [L if fam in ("nELMSin", "nELMReLU") and be == "C++" else min(L, 5)], n=2)


def random_b07(g):
    return nelm_case(g, g.pick(NE), g.pick(["C++", "C++", "C++", "Python"]))


# ------------------------------------------------------------------ B08
UT = ["CP", "LeP", "FS"] + ELMS


def short(case, kw):
    """leave out the arguments that have their documented default value"""
    if not case.get("short"):
        return kw
    dflt = {"basis": "CP", "backend": "C++", "dim": 2}
    return {k: v for k, v in kw.items() if not (k in dflt and v == dflt[k]) and not (k == "x0" and np.ndim(v) == 0 and v == 0 and type(v) is not bool)}


def check_b08(case):
    basis, be = case["fam"], case["backend"]
    zr = (-1.0, 1.0) if basis in ("CP", "LeP") else ((-np.pi, np.pi) if basis == "FS" else (0.0, 1.0))
    if not case.get("dim"):
        from tfc import utfc
        x0, xf, N = case["x0"], case["xf"], case["N"]
        args = short(case, dict(basis=basis, x0=x0, xf=xf, backend=be))
        t = utfc(N, case.get("nCi", 0), case["m"] - 1, **args)
        c = (zr[1] - zr[0]) / (xf - x0)
        if abs(float(t.c) - c) > 1e-12 * abs(c) or abs(float(t.basisClass.c) - c) > 1e-12 * abs(c):
            return f"map slope c={t.c}, expected {c}"
        x, z = np.asarray(t.x), np.asarray(t.z)
        msg = grid1(x, z, N, x0, xf, zr, c)
        if msg:
            return msg
        # end points are sent to the ends of the basis domain: value of the basis at the ends, and chain rule
        xs = np.array([x0, xf, x0 + 0.3 * (xf - x0)])
        return chain(case, t.basisClass, basis, xs, c, zr, case["m"])
    from tfc import mtfc
    x0, xf = ndom(case)
    n, dim = case["nn"], case["dim"]
    nC = 0 if basis.startswith("ELM") else [-1] * dim
    X0, XF = (list(map(float, x0)), list(map(float, xf))) if case.get("aslist") else (x0, xf)
    t = mtfc(n, nC, case["m"] - 1, **short(case, dict(dim=dim, basis=basis, x0=X0, xf=XF, backend=be)))
    if t.dim != dim or t.basisClass.__class__.__name__ != "n" + basis:
        return f"built {t.basisClass.__class__.__name__} in {t.dim} dimensions, asked for n{basis} in {dim}"
    c = (zr[1] - zr[0]) / (xf - x0)
    tc = np.asarray(t.c).flatten()
    msg = close(tc, c, np.abs(c), "map slopes c", 1e-12)
    if msg:
        return msg
    x, z = [np.asarray(v) for v in t.x], np.asarray(t.z)
    N = int(np.prod(n))
    if t.N != N or len(x) != dim or z.shape != (dim, N):
        return f"N={t.N}, {len(x)} coordinate arrays, z of shape {z.shape}; expected N={N}, dim={dim}"
    one = []
    for k in range(dim):
        rep = int(np.prod(n[k + 1:]))
        til = int(np.prod(n[:k]))
        if x[k].shape != (N,):
            return f"x[{k}] has shape {x[k].shape}"
        u = x[k].reshape(til, n[k], rep)
        if not np.all(u == u[0:1, :, 0:1]):
            return f"x[{k}] is not the tensor grid with the last dimension varying fastest (n={n})"
        msg = grid1(u[0, :, 0], z[k].reshape(til, n[k], rep)[0, :, 0], n[k], x0[k], xf[k], zr, c[k])
        if msg:
            return f"dimension {k}: {msg}"
        if not np.allclose(z[k], (x[k] - x0[k]) * c[k] + zr[0], atol=1e-9):
            return f"z[{k}] is not the image of x[{k}]"
    # derivative along dimension k is scaled by c[k]: compare against a same-width unit problem
    r = np.random.default_rng(case["pseed"])
    pts = x0[:, None] + (xf - x0)[:, None] * r.uniform(0, 1, (dim, 3))
    obj = t.basisClass
    z0s, zfs = np.full(dim, zr[0]), np.full(dim, zr[1])
    BF = mod(be)
    o2 = getattr(BF, "n" + basis)(z0s, zfs, t.nC, case["m"])
    if basis.startswith("ELM"):
        o2.w, o2.b = np.array(obj.w), np.array(obj.b)
    zp = (pts - x0[:, None]) * c[:, None] + zr[0]
    for k in range(dim):
        for dd in (0, 1, 2):
            dv = tuple(dd if j == k else 0 for j in range(dim))
            A, B = np.asarray(obj.H(pts, dv, True)), np.asarray(o2.H(zp, dv, True)) * c[k] ** dd
            msg = close(A, B, np.max(np.abs(B), initial=1.0), f"{be} n{basis}: derivative {dv} is not the mapped derivative times c^d", 1e-8)
            if msg:
                return msg
    return None


def grid1(x, z, N, x0, xf, zr, c):
    L = abs(xf - x0)
    if x.shape != (N,) or z.shape != (N,):
        return f"grid shapes {x.shape}, {z.shape}, expected ({N},)"
    if not np.all(np.isfinite(x)):
        return "grid is not finite"
    if abs(x[0] - x0) > 1e-9 * L or (N > 1 and abs(x[-1] - xf) > 1e-9 * L):
        return f"grid runs from {x[0]} to {x[-1]}, domain is [{x0}, {xf}]"
    s = np.sign(xf - x0)
    if np.any(np.diff(x) * s <= 0):
        return "grid points are not strictly ordered"
    if np.any((x - x0) * s < -1e-9 * L) or np.any((xf - x) * s < -1e-9 * L):
        return "grid point outside the domain"
    if not np.allclose(z, (x - x0) * c + zr[0], atol=1e-9):
        return "z is not the image of x under the domain map"
    return None


def chain(case, obj, basis, xs, c, zr, m):
    BF = mod(case["backend"])
    o2 = getattr(BF, basis)(zr[0], zr[1], np.array([], dtype=np.int32), m)
    if basis.startswith("ELM"):
        o2.w, o2.b = np.array(obj.w).flatten(), np.array(obj.b).flatten()
    zs = (xs - case["x0"]) * c + zr[0]
    for d in (0, 1, 2, 3):
        A, B = np.asarray(obj.H(xs, d, True)), np.asarray(o2.H(zs, d, True)) * c ** d
        msg = close(A, B, np.max(np.abs(B), initial=1.0), f"{case['backend']} {basis}: derivative of order {d} is not the mapped derivative times c^{d}", 1e-8)
        if msg:
            return msg
    return None


def dom_case(g, basis, be, dim=None, N=None):
    x0, xf = g.domain()
    if g.flag(0.2):
        x0, xf = -abs(xf), abs(xf) + 1
    if dim is None:
        return dict(kind=f"{be}-{basis}", fam=basis, backend=be, x0=x0, xf=xf, N=N or max(2, g.size(2, 12, "N")), m=g.size(2, 6, "m"))
    return dict(kind=f"{be}-n{basis}", fam=basis, backend=be, dim=dim, nn=[int(v) for v in (2 + g.r.integers(0, 4, dim))], m=g.size(2, 4, "m"), dseed=g.seed(), pseed=g.seed(), aslist=g.flag())


def fixed_b08(g):
    for be in ("C++", "Python"):
        for b in UT:
            for N in (2, 3, 4, 7, 10):
                yield dom_case(g, b, be, N=N)
            yield dict(dom_case(g, b, be, N=5), x0=0.0, xf=1.0)
            yield dict(dom_case(g, b, be, N=5), x0=0.0, xf=2.5, short=True)
            yield dict(dom_case(g, b, be, 2), short=True)
            yield dict(dom_case(g, b, be, N=5), x0=-3, xf=4)
            yield dict(dom_case(g, b, be, N=6), x0=-1.0, xf=1.0)
            yield dict(dom_case(g, b, be, N=6), x0=2.0, xf=10.0)
            for dim in (1, 2, 3):
                yield dom_case(g, b, be, dim)
                yield dom_case(g, b, be, dim)
            for L in g.lits:
                if L >= 2:
                    yield dom_case(g, b, be, N=L)


def random_b08(g):
    return dom_case(g, g.pick(UT), g.pick(["C++", "Python"]), g.pick([None, None, 1, 2, 2, 3]))


# ------------------------------------------------------------------ B12
SETCODE = """
import sys, json, os
sys.dont_write_bytecode = True
import numpy as np, importlib.util
case = json.loads(sys.argv[1])
if case["backend"] == "C++":
    d = os.path.join(os.environ["TFC_PKG"], "tfc", "utils")
    so = [f for f in os.listdir(d) if f.startswith("BF.") and f.endswith(".so")][0]
    sp = importlib.util.spec_from_file_location("BF", os.path.join(d, so))
    B = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(B)
else:
    sys.path.insert(0, os.environ["TFC_PKG"])
    from tfc.utils import BF_Py as B
if case.get("dim"):
    o = getattr(B, case["fam"])(np.zeros(case["dim"]), np.ones(case["dim"]), np.array([], dtype=np.int32), case["m"])
else:
    o = getattr(B, case["fam"])(0., 1., np.array([], dtype=np.int32), case["m"])
before = np.array(o.w).copy(), np.array(o.b).copy()
bad = np.ones(case["shape"])
try:
    setattr(o, case["which"], bad)
except SystemExit:
    raise
except Exception:
    same = np.array_equal(before[0], np.array(o.w)) and np.array_equal(before[1], np.array(o.b))
    sys.exit(7 if same else 8)
print("ACCEPTED")
sys.exit(0)
"""


def check_b12(case):
    fam, m, be = case["fam"], case["m"], case["backend"]
    if case["kind"].startswith("mismatch"):
        rc, out, err = in_child(SETCODE, case)
        if rc == 8:
            return "a refused assignment changed the stored values"
        if rc == 0 and "ACCEPTED" in out:
            return f"an array of shape {case['shape']} was accepted for {case['which']} of {fam} with m={m}"
        if rc < 0:
            return f"child crashed with signal {-rc}"
        return None
    r = np.random.default_rng(case["seed"])
    BF = mod(be)
    dim = case.get("dim")
    lim = 1.0 if dim else 10.0
    objs, ref = [], []
    for op in case["ops"]:
        if op[0] == "new":
            if dim:
                o = getattr(BF, fam)(np.zeros(dim), np.ones(dim), np.array([], dtype=np.int32), m)
            else:
                o = getattr(BF, fam)(0.0, 1.0, np.array([], dtype=np.int32), m)
            w, b = np.array(o.w), np.array(o.b)
            if w.size != m * (dim or 1) or b.size != m:
                return f"fresh weights/biases have sizes {w.size}, {b.size}"
            if np.any(np.abs(w) > lim) or np.any(np.abs(b) > lim):
                return f"fresh parameters outside [-{lim}, {lim}]"
            objs.append(o)
            ref.append([w.copy(), b.copy()])
            continue
        i = op[1] % len(objs)
        o = objs[i]
        if op[0] in ("w", "b"):
            shp = (dim, m) if (dim and op[0] == "w") else ((m,) if op[2] == 0 else ((1, m) if op[2] == 1 and be == "Python" else (m,)))
            v = r.uniform(-2, 2, shp)
            if op[2] == 2 and op[0] == "w" and dim:
                # non-contiguous view of the same values
                v = np.asfortranarray(v)
            keep = v.copy()
            setattr(o, op[0], v)
            if not np.array_equal(v, keep):
                return "the caller's array was modified by assignment"
            ref[i][0 if op[0] == "w" else 1] = keep
            if be == "C++":
                v += 5.0  # the library keeps its own copy
        elif op[0] == "eval":
            D = dim or 1
            x = r.uniform(0, 1, (D, 3))
            w, b = ref[i][0].reshape(D, m), ref[i][1].flatten()
            a = x.T @ w + b
            W = np.array([[act(fam.lstrip("n"), 0, v) for v in row] for row in a]).reshape(3, m)
            got = np.asarray(o.H(x, (0,) * dim, True) if dim else o.H(x[0], 0, True))
            msg = close(got, W, 1.0 + np.abs(W), f"evaluation after {case['ops']} does not use the stored parameters", 1e-8)
            if msg:
                return msg
        for q, oo in enumerate(objs):
            w, b = np.array(oo.w), np.array(oo.b)
            if not np.array_equal(w.flatten(), ref[q][0].flatten()) or not np.array_equal(b.flatten(), ref[q][1].flatten()):
                return f"instance {q}: parameters read back differ from those written after {op} (of {case['ops']})"
            if dim and w.shape != (dim, m):
                return f"instance {q}: weights have shape {w.shape}"
    return None


def op_case(g, fam, be, nops=8, m=None):
    ops = [["new"]]
    for _ in range(nops):
        u = g.r.random()
        if u < 0.15:
            ops.append(["new"])
        elif u < 0.6:
            ops.append([g.pick(["w", "b"]), int(g.r.integers(4)), int(g.r.integers(3))])
        else:
            ops.append(["eval", int(g.r.integers(4))])
    c = dict(kind=f"{be}-{fam}", fam=fam, backend=be, m=m or g.size(1, 6, "m"), ops=ops, seed=g.seed())
    if fam.startswith("n"):
        c["dim"] = g.size(1, 3, "dim")
    return c


def fixed_b12(g):
    for be in ("C++", "Python"):
        for fam in ELMS + NE:
            for _ in range(2):
                yield op_case(g, fam, be)
            for L in g.lits:
                yield op_case(g, fam, be, m=max(1, L))
        for fam in (("ELMSin", "nELMSin", "ELMTanh", "nELMReLU") if be == "C++" else ("ELMSin", "nELMSin")):
            n = fam.startswith("n")
            for which in ("w", "b"):
                for dl in ((-1, 1, 7) if be == "C++" else (1,)):
                    m = 4
                    shp = [2, m + dl] if (n and which == "w") else [m + dl]
                    yield dict(kind=f"mismatch-{be}", fam=fam, backend=be, m=m, dim=2 if n else 0, which=which, shape=shp)
            if n:
                yield dict(kind=f"mismatch-{be}", fam=fam, backend=be, m=4, dim=2, which="w", shape=[3, 4])
                if be == "C++":
                    yield dict(kind=f"mismatch-{be}", fam=fam, backend=be, m=4, dim=2, which="w", shape=[1, 4])


def random_b12(g):
    return op_case(g, g.pick(ELMS + NE), g.pick(["C++", "C++", "Python"]), nops=int(g.r.integers(2, 12)))


BOTH = ["C++", "Python"]
PROPS = {
    "B01": dict(check=check_values, fixed=fixed_vals(POLYS, ["C++"]), random=random_vals(POLYS, ["C++"]), files=CC, rule="one basis matrix of the compiled backend compared with exact rational recurrences; sizes swept over small values, literals newly present in the source, counter-model sizes, then random"),
    "B02": dict(check=check_b02, fixed=fixed_b02, random=random_vals(POLYS, ["Python"], True), files=PY, rule="one basis matrix of the Python backend (real or complex points) compared with exact rational recurrences, or with the compiled backend"),
    "B03": dict(check=check_values, fixed=fixed_vals(["FS"], BOTH, False, ms=(1, 2, 3, 4, 5, 6, 9), ds=(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 13)), random=random_vals(["FS"], BOTH), files=CC + PY, rule="one Fourier matrix compared with the closed form"),
    "B04": dict(check=check_values, fixed=fixed_vals(ELMS, BOTH, ms=(1, 2, 3, 5, 7)), random=random_vals(ELMS, BOTH), files=CC + PY, rule="one random-feature matrix compared with exact derivative polynomials evaluated in 40-digit arithmetic"),
    "B05": dict(check=check_b05, fixed=fixed_b05, random=random_b05, files=CC + PY + ["utfc.py", "mtfc.py"], rule="reduced matrix compared with the kept columns of the full one for a removal list in any order"),
    "B06": dict(check=check_b06, fixed=fixed_b06, random=random_b06, files=CC + PY, rule="multivariate matrix of each backend compared with all products of exact univariate values"),
    "B07": dict(check=check_b07, fixed=fixed_b07, random=random_b07, files=CC + PY, rule="multivariate random-feature matrix compared with exact partial derivatives"),
    "B08": dict(check=check_b08, fixed=fixed_b08, random=random_b08, files=CC + PY + ["utfc.py", "mtfc.py"], rule="map slope, grid and chain-rule factor of one problem set-up"),
    "B12": dict(check=check_b12, fixed=fixed_b12, random=random_b12, files=CC + PY, rule="a history of set/get/evaluate operations on several instances, or one refused assignment"),
}
