"""S01, S02, S03, S04, D01: solvers, partial evaluation, coefficient dictionaries."""
from lib import *
import itertools

FILES = ["utils/TFCUtils.py"]


def coeffs(case, r, dtype=float):
    """structured coefficients: (object, flat numpy copy, shapes)"""
    import jax.numpy as jnp
    from tfc.utils import TFCDict, TFCDictRobust
    st = case["struct"]
    mkv = lambda shp: r.uniform(-1, 1, shp) + (1j * r.uniform(-1, 1, shp) if dtype is complex else 0)
    if st == "flat":
        shapes = [(case["p"],)]
        vals = [mkv(s) for s in shapes]
        return jnp.array(vals[0]), vals, shapes
    keys = list(case["keys"])
    shapes = [tuple(s) for s in case["shapes"]]
    vals = [mkv(s) for s in shapes]
    D = TFCDict if st == "tfc" else TFCDictRobust
    return D(zip(keys, [jnp.array(v) for v in vals])), vals, shapes


def flat(xi):
    import jax.numpy as jnp
    if hasattr(xi, "keys"):
        return jnp.hstack([jnp.ravel(xi[k]) for k in xi.keys()])
    return jnp.ravel(xi)


def nflat(vals):
    return np.concatenate([np.asarray(v).ravel() for v in vals])


def same_struct(got, ref):
    if hasattr(ref, "keys"):
        if type(got) is not type(ref):
            return f"result has type {type(got).__name__}, expected {type(ref).__name__}"
        if list(got.keys()) != list(ref.keys()):
            return f"result has keys {list(got.keys())}, expected {list(ref.keys())}"
        for k in ref.keys():
            if np.shape(got[k]) != np.shape(ref[k]):
                return f"entry {k} has shape {np.shape(got[k])}, expected {np.shape(ref[k])}"
    elif np.shape(got) != np.shape(ref):
        return f"result has shape {np.shape(got)}, expected {np.shape(ref)}"
    return None


def struct_case(g, c):
    st = g.pick(["flat", "tfc", "rob"])
    c["struct"] = st
    if st == "flat":
        c["p"] = g.size(1, 5, "p")
    else:
        k = int(g.r.integers(1, 4))
        c["keys"] = [str(v) for v in g.r.permutation(["b", "a", "zz", "c"])[:k]]
        c["shapes"] = [[int(g.r.integers(1, 4))] if st == "tfc" or g.flag(0.4) else [int(g.r.integers(1, 4)), int(g.r.integers(1, 3))] for _ in range(k)]
    return c


# ------------------------------------------------------------------ S01
def lin_problem(case, r, P, cplx):
    n = case["n"]
    mk = lambda s: r.uniform(-1, 1, s) + (1j * r.uniform(-1, 1, s) if cplx else 0)
    A, b = mk((n, P)), mk(n)
    if case.get("rankdef") and P > 1:
        A[:, 1] = A[:, 0]
    return A, b


def check_s01(case):
    if case.get("kind") == "defaults":
        return check_defaults(case)
    import jax.numpy as jnp
    from tfc.utils import LS, LsClass
    r = np.random.default_rng(case["seed"])
    cplx = case["holo"]
    xi, vals, shapes = coeffs(case, r, complex if cplx else float)
    v0 = nflat(vals)
    P = v0.size
    A, b = lin_problem(case, r, P, cplx)
    s, t_, u = r.uniform(0.5, 2), r.uniform(-1, 1, case["n"]), {"k": r.uniform(0.5, 1.5)}
    args = (jnp.array(A), jnp.array(s), jnp.array(t_), {"k": jnp.array(u["k"])})
    AA = lambda A_, s_, u_: A_ * s_ * u_
    res = lambda xi, A_, s_, tt, uu: jnp.dot(A_ * s_ * uu["k"], flat(xi)) + tt + b
    Ax = A * s * u["k"]
    bb = t_ + b
    J = None
    if case["J"]:
        J = lambda xi, A_, s_, tt, uu: A_ * s_ * uu["k"]
    cargs = list(case["const"])
    keepc = list(cargs)
    kw = dict(constant_arg_nums=cargs, J=J, method=case["method"], timer=case["timer"], holomorphic=cplx)
    if case["timer"] and case.get("ttype"):
        kw["timerType"] = case["ttype"]
    rest = [a for k, a in enumerate(args) if k + 1 not in keepc]
    pin = np.linalg.pinv
    checks = []
    if case["form"] == "fn":
        out = LS(xi, res, *args, **kw)
        checks.append((out, -pin(Ax) @ bb))
    else:
        cl = LsClass(xi, res, *args, **kw)
        for q in range(case["runs"]):
            v = [w + q for w in vals]
            x_in = type(xi)(zip(xi.keys(), [jnp.array(w) for w in v])) if hasattr(xi, "keys") else jnp.array(v[0])
            snap = nflat(v)
            # arguments that are not constants may change between runs
            scale = 1.0 + 0.5 * q
            rest_q = list(rest)
            bq = bb
            if 3 not in keepc and q:
                i = [k + 1 for k in range(4) if k + 1 not in keepc].index(3)
                rest_q[i] = jnp.array(t_ * scale)
                bq = t_ * scale + b
            out = cl.run(x_in, *rest_q)
            checks.append((out, snap - pin(Ax) @ (Ax @ snap + bq)))
            if not np.array_equal(np.asarray(flat(x_in)), snap):
                return "run modified the caller's coefficients"
    for q, (out, want) in enumerate(checks):
        if case["timer"]:
            if not (isinstance(out, tuple) and len(out) == 2 and np.isfinite(out[1])):
                return f"timer=True returned {type(out)}"
            out = out[0]
        msg = same_struct(out, xi)
        if msg:
            return msg
        got = np.asarray(flat(out))
        msg = close(got, want, 1 + np.max(np.abs(want)), f"least-squares solution (run {q}, {case})", 1e-7)
        if msg:
            return msg
        g0 = np.linalg.norm(Ax.conj().T @ (Ax @ got + bb))
    if cargs != keepc:
        return f"constant_arg_nums was changed from {keepc} to {cargs}"
    if not np.array_equal(np.asarray(flat(xi)), v0):
        return "the caller's coefficients were modified"
    return None


def s01_case(g, **kw):
    c = struct_case(g, dict(kind="LS", seed=g.seed(), n=g.size(6, 14, "n"), form=g.pick(["fn", "cls"]), method=g.pick(["pinv", "lstsq"]), timer=g.flag(0.3), holo=g.flag(0.15), J=g.flag(0.25), const=[int(v) for v in g.r.permutation([1, 2, 3, 4])[:int(g.r.integers(0, 5))]] if g.flag(0.6) else [], runs=int(g.r.integers(1, 4)), ttype=g.pick([None, "perf_counter", "time"])))
    c.update(kw)
    c["kind"] = f"{c['form']}-{c['method']}-{c['struct']}"
    return c


def fixed_s01(g):
    for form in ("LS", "LsClass"):
        for f in (1.0, 2.0, 4.0):
            yield dict(kind="defaults", form=form, factor=f, c=[0.5, -2.0, 1.0], start=4.0)
    for form in ("fn", "cls"):
        for method in ("pinv", "lstsq"):
            for st in ("flat", "tfc", "rob"):
                for timer in (False, True):
                    for const in ([], [2], [1, 4], [4, 2, 1]):
                        c = s01_case(g)
                        while c["struct"] != st:
                            c = s01_case(g)
                        c.update(form=form, method=method, timer=timer, const=const)
                        c["kind"] = f"{form}-{method}-{st}"
                        yield c
    for st in ("flat", "tfc", "rob"):
        for form in ("fn", "cls"):
            c = s01_case(g)
            while c["struct"] != st:
                c = s01_case(g)
            yield dict(c, form=form, holo=True, J=False)
            yield dict(c, form=form, J=True)
            yield dict(c, form=form, rankdef=True, method="pinv", holo=False)
            yield dict(c, form=form, n=2, method=g.pick(["pinv", "lstsq"]))


# ------------------------------------------------------------------ S02
def check_defaults(case):
    """documented defaults: tolerance 1e-13, at most 50 iterations, no timer; residual xi - c with a Jacobian factor times
    too large, so that each step divides the error by factor / (factor - 1)"""
    import jax.numpy as jnp
    from tfc.utils import NLLS, NllsClass, LS, LsClass
    c, f = np.array(case["c"]), case["factor"]
    res = lambda xi: xi - jnp.array(c)
    J = lambda xi: f * jnp.eye(len(c))
    x0 = jnp.array(c + case["start"])
    if case["form"] in ("LS", "LsClass"):
        out = LS(x0, res, J=J) if case["form"] == "LS" else LsClass(x0, res, J=J).run(x0)
        if isinstance(out, tuple):
            return "the linear solver returned a tuple with the default options"
        want = c / f if case["form"] == "LS" else c + case["start"] * (1 - 1 / f)
        return close(np.asarray(out), want, 1 + np.abs(want), "solution with the default options", 1e-12)
    out = NLLS(x0, res, J=J) if case["form"] == "fn" else NllsClass(x0, res, J=J).run(x0)
    if not isinstance(out, tuple) or len(out) != 2:
        return "the nonlinear solver with the default options did not return a pair"
    e, it, dx = abs(case["start"]), 0, 1.0
    while e > 1e-13 and dx > 1e-13 and it < 50:
        dx = e / f
        e -= dx
        it += 1
    if int(out[1]) != it:
        return f"{int(out[1])} iterations with the default options, expected {it}"
    return close(np.asarray(out[0]) - c, np.sign(case["start"]) * e + 0 * c, 1 + np.abs(c), "solution with the default options", 1e-12)


def check_s02(case):
    if case.get("kind") == "defaults":
        return check_defaults(case)
    import jax.numpy as jnp
    from tfc.utils import NLLS, NllsClass
    r = np.random.default_rng(case["seed"])
    cplx = case["holo"]
    xi, vals, shapes = coeffs(case, r, complex if cplx else float)
    v0 = nflat(vals) * case["start"]
    P, n = v0.size, case["n"]
    vals = [v * case["start"] for v in vals]
    mkxi = lambda vv: type(xi)(zip(xi.keys(), [jnp.array(w) for w in vv])) if hasattr(xi, "keys") else jnp.array(vv[0])
    A = r.uniform(-1, 1, (n, P)) + np.vstack([np.eye(P)] * (n // P + 1))[:n]
    Bm = r.uniform(-1, 1, (n, P)) * case["eps"]
    sol = r.uniform(-0.5, 0.5, P)
    s = r.uniform(0.7, 1.4)
    A, Bm = A * case.get("scale", 1.0), Bm * np.sqrt(case.get("scale", 1.0))
    rhs = A @ sol * s + (Bm @ sol) ** 2 + (r.uniform(-1, 1, n) * 0.3 if case["inconsistent"] else 0)
    if case.get("near"):
        # the first step is already within tolerance while the residual may not be
        v0 = sol + case["near"] * case["tol"] * r.uniform(0.3, 0.6, P)
        off, vals = 0, []
        for shp in shapes:
            k = int(np.prod(shp))
            vals.append(v0[off:off + k].reshape(shp))
            off += k
    args = (jnp.array(s), jnp.array(rhs), {"B": jnp.array(Bm)})
    res = lambda xi, s_, rh, d: jnp.dot(jnp.array(A), flat(xi)) * s_ + jnp.dot(d["B"], flat(xi)) ** 2 - rh
    nres = lambda v, s_, rh: A @ v * s_ + (Bm @ v) ** 2 - rh
    njac = lambda v, s_: A * s_ + 2 * (Bm @ v)[:, None] * Bm
    J = None
    if case["J"]:
        J = lambda xi, s_, rh, d: jnp.array(A) * s_ + 2 * jnp.dot(d["B"], flat(xi))[:, None] * d["B"]
    tol, maxIter = case["tol"], case["maxIter"]
    cargs = list(case["const"])
    keepc = list(cargs)
    kw = dict(constant_arg_nums=cargs, J=J, tol=tol, maxIter=maxIter, method=case["method"], timer=case["timer"], holomorphic=cplx, printOut=case["print"])
    cond = body = None
    if case["cond"]:
        lim = case["cond"]
        kw["cond"] = lambda val: val["it"] < lim
    if case["body"]:
        fac = 0.5

        def body_(val):
            # damped step on flat coefficients only
            val["dxi"] = jnp.ones_like(val["dxi"]) * fac
            val["xi"] -= val["dxi"]
            val["it"] += 1
            return val
        kw["body"] = body_
    if case["timer"] and case.get("ttype"):
        kw["timerType"] = case["ttype"]

    def oracle(v, s_, rh):
        """the documented iteration; returns (v, it, margin) where margin tells how clear-cut each stop decision was"""
        it, dx = 0, np.ones(P)
        clear = True
        v = v.copy()
        while True:
            a, b = np.max(np.abs(nres(v, s_, rh))), np.max(np.abs(dx))
            if case["cond"]:
                go = it < case["cond"]
            else:
                for q in (a, b):
                    if abs(q - tol) < 0.05 * tol + 1e-12:
                        clear = False
                go = a > tol and it < maxIter and b > tol
            if not go:
                return v, it, clear
            dx = np.full(P, 0.5) if case["body"] else np.linalg.pinv(njac(v, s_)) @ nres(v, s_, rh)
            v = v - dx
            it += 1
            # long or ill-conditioned iterations amplify rounding: no verdict on those
            if not np.all(np.isfinite(v)) or np.max(np.abs(v)) > 1e3 or (not case["body"] and (it > 12 or np.linalg.cond(njac(v, s_)) > 1e5)):
                return v, it, False

    runs = []
    rest = [a for k, a in enumerate(args) if k + 1 not in keepc]
    if case["form"] == "fn":
        x_in = mkxi(vals)
        runs.append((NLLS(x_in, res, *args, **kw), oracle(v0, s, rhs), x_in, v0))
    else:
        cl = NllsClass(mkxi(vals), res, *args, **kw)
        for q in range(case["runs"]):
            v = [w + 0.1 * q for w in vals]
            snap = nflat(v)
            rq, rest_q = rhs, list(rest)
            if 2 not in keepc and q:
                i = [k + 1 for k in range(3) if k + 1 not in keepc].index(2)
                rq = rhs + 0.01 * q
                rest_q[i] = jnp.array(rq)
            x_in = mkxi(v)
            runs.append((cl.run(x_in, *rest_q), oracle(snap, s, rq), x_in, snap))
    for q, (out, (want, it, clear), x_in, snap) in enumerate(runs):
        ln = 3 if case["timer"] else 2
        if not isinstance(out, tuple) or len(out) != ln:
            return f"returned {type(out)} of length {len(out) if isinstance(out, tuple) else '?'}, expected {ln} values"
        if not np.array_equal(np.asarray(flat(x_in)), snap):
            return "the caller's initial guess was modified"
        msg = same_struct(out[0], xi)
        if msg:
            return msg
        if not clear:
            continue
        if int(out[1]) != it:
            return f"run {q}: {int(out[1])} iterations reported, expected {it} (tol={tol}, maxIter={maxIter})"
        got = np.asarray(flat(out[0]))
        msg = close(got, want, 1 + np.max(np.abs(want)), f"run {q}: solution after {it} iterations", 1e-6)
        if msg:
            return msg
    if cargs != keepc:
        return f"constant_arg_nums was changed from {keepc} to {cargs}"
    return None


def s02_case(g, **kw):
    c = struct_case(g, dict(seed=g.seed(), n=g.size(8, 14, "n"), form=g.pick(["fn", "cls"]), method=g.pick(["pinv", "lstsq"]), timer=g.flag(0.3), holo=False, J=g.flag(0.25), print=g.flag(0.1), const=[int(v) for v in g.r.permutation([1, 2, 3])[:int(g.r.integers(0, 4))]] if g.flag(0.5) else [], runs=int(g.r.integers(1, 4)), ttype=g.pick([None, "perf_counter"]), eps=g.pick([0.0, 0.3, 0.3, 0.6]), inconsistent=g.flag(0.4), tol=g.pick([1e-3, 1e-5, 1e-8, 1e-1]), maxIter=g.pick([0, 1, 2, 3, 5, 50, 50, 50]), start=g.pick([1.0, 1.0, 0.0, 3.0]), cond=0 if g.flag(0.8) else int(g.r.integers(1, 5)), body=False))
    if g.flag(0.25):
        c.update(near=g.pick([1.0, 3.0, 1e-3]), scale=g.pick([1.0, 1e3, 1e-3]))
    if g.flag(0.1):
        c.update(body=True, cond=int(g.r.integers(1, 4)))
    c.update(kw)
    c["kind"] = f"{c['form']}-{c['method']}-{c['struct']}"
    return c


def fixed_s02(g):
    for form in ("fn", "cls"):
        for f in (1.0, 2.0, 4.0, 16.0):
            for c in ([0.0], [0.0, 0.0, 0.0]):
                yield dict(kind="defaults", form=form, factor=f, c=c, start=1.0)
    for form in ("fn", "cls"):
        for method in ("pinv", "lstsq"):
            for st in ("flat", "tfc", "rob"):
                for timer in (False, True):
                    c = s02_case(g)
                    while c["struct"] != st:
                        c = s02_case(g)
                    c.update(form=form, method=method, timer=timer, cond=0, body=False, maxIter=50)
                    c["kind"] = f"{form}-{method}-{st}"
                    yield c
        for mi in (0, 1, 2, 3):
            yield s02_case(g, form=form, maxIter=mi, eps=0.3, tol=1e-8, cond=0, body=False, inconsistent=True)
        yield s02_case(g, form=form, cond=0, body=False, eps=0.3, inconsistent=True, maxIter=50, tol=1e-5)
        yield s02_case(g, form=form, cond=0, body=False, eps=0.3, inconsistent=False, maxIter=50, tol=1e-5)
        yield s02_case(g, form=form, cond=3, body=False, eps=0.3, tol=1e-1)
        yield s02_case(g, form=form, cond=2, body=True, const=[])
        yield s02_case(g, form=form, cond=0, body=True, maxIter=4, tol=1e-3, const=[2])
        yield s02_case(g, form=form, J=True, cond=0, body=False, maxIter=50, const=[3, 1])
        yield s02_case(g, form=form, print=True, cond=0, body=False, maxIter=3)
        for timer in (False, True):
            for near in (1.0, 3.0, 1e-3):
                yield s02_case(g, form=form, timer=timer, runs=2, near=near, scale=1e4, eps=0.0, inconsistent=False, tol=1e-5, maxIter=50, cond=0, body=False, const=[])
        yield s02_case(g, form=form, timer=True, runs=3, maxIter=2, tol=1e-8, cond=0, body=False, eps=0.3)
    for L in g.lits:
        yield s02_case(g, maxIter=L, tol=1e-14, inconsistent=True, eps=0.6, cond=0, body=False)
        yield s02_case(g, cond=L, body=False)


# ------------------------------------------------------------------ S03
def pe_fn(name):
    import jax.numpy as jnp
    if name == "sum":
        return lambda a, b, c, d: a * 1.0 + b * 10 - c["u"] * 100 + d * c["v"]
    if name == "tuple":
        return lambda a, b, c, d: (a * 2, jnp.sin(b) * c["u"], {"x": d, "y": a - c["v"]})
    if name == "dict":
        return lambda a, b, c, d: {"p": a - b, "q": [c["u"] * d, c["v"]]}
    if name == "one":
        return lambda a, b, c, d: (a - b * d,)
    return lambda a, b, c, d: jnp.dot(jnp.outer(a, b), d) - c["v"]


def check_s03(case):
    import jax, jax.numpy as jnp
    from tfc.utils.TFCUtils import pe
    from tfc.utils import pejit, TFCDict
    r = np.random.default_rng(case["seed"])
    n = case["n"]

    def mkargs():
        return (jnp.array(r.uniform(-1, 1, n)), jnp.array(r.uniform(-1, 1, n)), TFCDict({"u": jnp.array(r.uniform(-1, 1, n)), "v": jnp.array(r.uniform(-1, 1, n))}), jnp.array(r.uniform(-1, 1, n)))
    a0 = mkargs()
    f = pe_fn(case["fn"])
    calls = []

    def fw(*a):
        calls.append(1)
        return f(*a)
    cn = list(case["const"])
    keep = list(cn)
    g = (pejit if case["jit"] else pe)(*a0, constant_arg_nums=cn)(fw)
    if cn != keep:
        return f"constant_arg_nums was changed from {keep} to {cn}"
    for q in range(3):
        a1 = a0 if q == 0 else mkargs()
        full = [a0[k] if k in keep else a1[k] for k in range(4)]
        want = f(*full)
        got = g(*[a1[k] for k in range(4) if k not in keep])
        L1, L2 = jax.tree_util.tree_flatten(got), jax.tree_util.tree_flatten(want)
        if L1[1] != L2[1]:
            return f"result structure {L1[1]}, expected {L2[1]}"
        for x, y in zip(L1[0], L2[0]):
            msg = close(np.asarray(x), np.asarray(y), 1 + np.abs(np.asarray(y)), f"value with constants {keep}", 1e-12)
            if msg:
                return msg
    return None


def s03_case(g, **kw):
    c = dict(kind="pe", seed=g.seed(), n=g.size(1, 5, "n"), fn=g.pick(["sum", "tuple", "dict", "one", "dot"]), jit=g.flag(), const=[int(v) for v in g.r.permutation(4)[:int(g.r.integers(0, 5))]])
    c.update(kw)
    c["kind"] = f"{'pejit' if c['jit'] else 'pe'}-{c['fn']}"
    return c


def fixed_s03(g):
    for k in range(5):
        for p in itertools.permutations(range(4), k):
            yield s03_case(g, const=list(p))
    for fn in ("sum", "tuple", "dict", "one", "dot"):
        for jit in (True, False):
            for const in ([0], [1], [2], [3], [2, 0], [0, 1, 2, 3]):
                yield s03_case(g, fn=fn, jit=jit, const=const)


# ------------------------------------------------------------------ S04
def check_s04(case):
    import jax.numpy as jnp
    from tfc.utils.TFCUtils import ScaledQrLs
    r = np.random.default_rng(case["seed"])
    m, n = case["m"], case["m"] + case["extra"]
    u = np.linalg.qr(r.normal(size=(n, m)))[0]
    v = np.linalg.qr(r.normal(size=(m, m)))[0]
    A = u @ np.diag(10.0 ** -np.linspace(0, case["ill"], m) if case["ill"] else r.uniform(0.5, 2.0, m)) @ v
    if case["shape"] == "triangular":
        A = np.triu(A) + np.eye(n, m) * (2 + m)
    sc = 10.0 ** (r.uniform(-1, 1, m) * case["decades"])
    A = A * sc * (r.integers(0, 2, m) * 2 - 1)
    k = case["cols"]
    B = r.normal(size=(n,) if k is None else (n, k if k > 0 else m))
    nrm = np.sqrt((A * A).sum(0))
    s = A / nrm
    true = None
    if case["rhs"] == "consistent" or case["ill"]:
        true = r.normal(size=(m,) + B.shape[1:]) * 10.0 ** case["bscale"]
        B = s @ true
    else:
        B = B * 10.0 ** case["bscale"]
    F = (lambda a: jnp.asarray(a)) if case["jnp"] else (lambda a: a.copy())
    a, b = F(A), F(B)
    x, cn = ScaledQrLs(a, b)
    if not (np.array_equal(np.asarray(a), A) and np.array_equal(np.asarray(b), B)):
        return "the arguments were changed"
    x = np.asarray(x)
    y = np.linalg.lstsq(s, B, rcond=None)[0] if true is None else true
    cond = float(np.linalg.cond(s))
    want = (y.T / nrm).T
    if x.shape != want.shape:
        return f"solution of shape {x.shape}, expected {want.shape}"
    # the error of a backward stable solver: cond^2 multiplies the residual only
    size = np.linalg.norm(B, axis=0) * cond if true is None else np.linalg.norm(true, axis=0)
    mag = (np.ones_like(want).T / nrm).T * size * cond * (n + 1)
    msg = close(x, want, mag + 1e-300, f"solution for A {A.shape}, B {B.shape}", 1e-12)
    if msg:
        return msg
    return close(np.asarray(cn), np.asarray(cond), (1 + cond * cond) * (n + 1), "condition number of the scaled matrix", 1e-13)


def s04_case(g, **kw):
    c = dict(kind="qr", seed=g.seed(), m=g.size(1, 12, "m"), extra=g.size(0, 15, "n"), cols=g.pick([None, None, 1, 2, 3, 5, 0, 7]), decades=g.pick([0, 1, 3, 7]), ill=0 if g.r.random() < 0.7 else float(g.r.uniform(3, 9)), bscale=g.pick([0, -4, 5]),
             rhs=g.pick(["consistent", "random"]), shape=g.pick(["dense", "dense", "triangular"]), jnp=g.flag())
    c.update(kw)
    c["kind"] = "qr-" + ("vector" if c["cols"] is None else "columns")
    return c


def fixed_s04(g):
    for cols in (None, 1, 2, 3, 0, 7):
        for m, e in ((1, 0), (1, 4), (2, 0), (3, 0), (3, 2), (6, 9), (10, 0)):
            for jn in (True, False):
                for rhs in ("consistent", "random"):
                    yield s04_case(g, cols=cols, m=m, extra=e, jnp=jn, rhs=rhs)
        for ill in (3, 6, 9):
            yield s04_case(g, cols=cols, m=5, extra=3, ill=ill, shape="dense")


# ------------------------------------------------------------------ D01
def check_d01(case):
    import jax.numpy as jnp, jax
    from tfc.utils import TFCDict, TFCDictRobust
    D = TFCDict if case["dt"] == "tfc" else TFCDictRobust
    r = np.random.default_rng(case["seed"])
    if any(o[0] == "ready" for o in case["ops"]):
        case = dict(case, np=False)
    xp = np if case["np"] else jnp
    keys, shapes = case["keys"], [tuple(s) for s in case["shapes"]]

    def new(ks=None, cur=None):
        ks = keys if ks is None else ks
        shp = cur or {k: shapes[keys.index(k)] for k in ks}
        v = {k: r.uniform(-3, 3, shp[k]) for k in ks}
        return D({k: xp.array(v[k]) for k in ks}), v

    def eq(d, v, ks, what):
        if list(d.keys()) != list(ks):
            return f"{what}: keys {list(d.keys())}, expected {list(ks)}"
        for k in ks:
            if np.shape(d[k]) != np.shape(v[k]):
                return f"{what}: entry {k} has shape {np.shape(d[k])}, expected {np.shape(v[k])}"
            if not np.allclose(np.asarray(d[k]), v[k], rtol=0, atol=1e-9):
                return f"{what}: entry {k} is {np.asarray(d[k])}, expected {v[k]}"
        return None
    d, v = new()
    ks = list(keys)
    if case.get("late"):
        # entries added through update
        k0 = keys[:1]
        d, v = new(k0)
        d2, v2 = new(keys[1:])
        d.update({k: d2[k] for k in keys[1:]})
        v.update(v2)
    for op in case["ops"]:
        a = np.concatenate([np.ravel(v[k]) for k in ks])
        got = np.asarray(d.toArray())
        if got.shape != a.shape or not np.allclose(got, a, rtol=0, atol=1e-9):
            return f"toArray gave {got}, expected {a}"
        o = op[0]
        if o == "round":
            f = r.uniform(-1, 1, a.shape)
            fin = (np if op[1] % 2 else jnp).array(f)
            e = d.toDict(fin)
            off, w = 0, {}
            for k in ks:
                n = int(np.prod(v[k].shape))
                w[k] = f[off:off + n].reshape(v[k].shape)
                off += n
            if type(e) is not D:
                return f"toDict returned {type(e)}"
            msg = eq(e, w, ks, "toDict") or eq(d, v, ks, "toDict changed the dictionary")
            if msg:
                return msg
            if not np.allclose(np.asarray(e.toArray()), f):
                return "toArray(toDict(v)) != v"
            continue
        if o == "ready":
            d.block_until_ready()
            msg = eq(d, v, ks, "block_until_ready")
            if msg:
                return msg
            continue
        if o == "tree":
            L, T = jax.tree_util.tree_flatten(d)
            e = jax.tree_util.tree_unflatten(T, L)
            if type(e) is not D:
                return f"pytree round trip gave {type(e)}"
            msg = eq(e, v, ks, "pytree round trip")
            if msg:
                return msg
            m = jax.tree_util.tree_map(lambda z: 2 * z, d)
            msg = eq(m, {k: 2 * v[k] for k in ks}, ks, "tree_map")
            if msg:
                return msg
            # result keeps working as a dictionary
            d3 = e + m
            msg = eq(d3, {k: 3 * v[k] for k in ks}, ks, "sum after tree_map")
            if msg:
                return msg
            continue
        if o == "update":
            sub = [ks[i % len(ks)] for i in op[2]] or ks[:1]
            sub = list(dict.fromkeys(sub))
            grow = op[1] % 4
            v2 = {k: r.uniform(-3, 3, v[k].shape if grow < 2 else (v[k].shape[0] + grow - 1,) + v[k].shape[1:]) for k in sub}
            if grow == 3:
                nk = f"new{len(ks)}"
                v2[nk] = r.uniform(-3, 3, (2,))
                ks = ks + [nk]
            if op[1] % 8 >= 4:
                d.update([(k, xp.array(v2[k])) for k in v2])
            else:
                d.update({k: xp.array(v2[k]) for k in v2})
            v = dict(v, **v2)
            msg = eq(d, v, ks, "update")
            if msg:
                return msg
            continue
        # arithmetic
        kind = op[1] % 4
        same = op[1] % 8 == 4  # the dictionary itself as the other operand
        if same:
            od, ov = d, {k: np.array(v[k]) for k in ks}
            other = od
        elif kind == 0:
            od, ov = new(ks, {k: v[k].shape for k in ks})
            other = od
        elif kind == 1:
            od, ov = new(ks, {k: v[k].shape for k in ks})
            other = {k: od[k] for k in reversed(ks)}
        else:
            f = r.uniform(-1, 1, a.shape)
            other = (np if kind == 2 else jnp).array(f)
            ov, off = {}, 0
            for k in ks:
                n = int(np.prod(v[k].shape))
                ov[k] = f[off:off + n].reshape(v[k].shape)
                off += n
        sg = 1 if o in ("add", "iadd") else -1
        w = {k: v[k] + sg * ov[k] for k in ks}
        before = {k: np.array(v[k]) for k in ks}
        if o in ("add", "sub"):
            e = d + other if o == "add" else d - other
            if type(e) is not D:
                return f"{o} returned {type(e)}"
            msg = eq(e, w, ks, o) or eq(d, before, ks, f"{o} changed its left operand")
            if msg:
                return msg
            if op[2]:
                d, v = e, w
        else:
            hold = d
            if o == "iadd":
                d += other
            else:
                d -= other
            if d is not hold:
                return f"{o} did not keep the object"
            msg = eq(d, w, ks, o)
            if msg:
                return msg
            v = w
        if same and o in ("iadd", "isub"):
            pass
        elif kind < 2:
            for k in ks:
                if not np.allclose(np.asarray(other[k]), ov[k], rtol=0, atol=1e-12):
                    return f"{o} changed its right operand (entry {k})"
        elif not np.allclose(np.asarray(other), f, rtol=0, atol=1e-12):
            return f"{o} changed its right operand"
    return None


def d01_case(g, dt=None, ops=None, **kw):
    dt = dt or g.pick(["tfc", "rob"])
    k = g.size(1, 4, "nkeys")
    k = min(k, 24)
    names = [str(v) for v in g.r.permutation(["b", "a", "zz", "c", "10", "9"])] + [f"k{i}" for i in range(30)]
    shapes = []
    for _ in range(k):
        L = 0 if g.flag(0.08) else g.size(1, 4, "len")
        if dt == "tfc" or g.flag(0.4):
            shapes.append([L])
        else:
            shapes.append([L, int(g.r.integers(1, 4))] + ([2] if g.flag(0.2) else []))
    if ops is None:
        ops = []
        for _ in range(int(g.r.integers(1, 7))):
            o = g.pick(["round", "tree", "ready", "update", "add", "sub", "iadd", "isub", "add", "sub"])
            ops.append([o, int(g.r.integers(8)), [int(v) for v in g.r.integers(0, 4, 2)] if o == "update" else g.flag()])
    c = dict(kind=dt, dt=dt, seed=g.seed(), keys=names[:k], shapes=shapes, ops=ops, np=g.flag(0.4), late=g.flag(0.25) and k > 1)
    c.update(kw)
    return c


def fixed_d01(g):
    for dt in ("tfc", "rob"):
        for o in ("add", "sub", "iadd", "isub"):
            for kind in range(4):
                for xp in (True, False):
                    yield d01_case(g, dt, [[o, kind, True], [o, kind, False]], np=xp)
            yield d01_case(g, dt, [[o, 4, True], [o, 4, False], ["round", 0, False]])
        for o in ("round", "tree", "ready"):
            yield d01_case(g, dt, [[o, 0, False], [o, 1, False]])
        for e in (["round", 0, False], ["add", 2, True], ["isub", 3, True], ["iadd", 0, True], ["tree", 0, False]):
            for pos in range(3):
                shapes = [[3], [2], [4]]
                shapes[pos] = [0]
                yield d01_case(g, dt, [e, ["round", 1, False]], keys=["b", "a", "c"], shapes=shapes, late=False)
        for u in range(8):
            for tail in (["round", 0, False], ["add", 2, True], ["isub", 3, True], ["iadd", 0, True], ["tree", 0, False]):
                yield d01_case(g, dt, [["update", u, [0, 1]], tail, ["round", 1, False]])


PROPS = {
    "S01": dict(check=check_s01, fixed=fixed_s01, random=s01_case, files=FILES, rule="one linear problem and option combination compared with the NumPy pseudo-inverse step"),
    "S02": dict(check=check_s02, fixed=fixed_s02, random=s02_case, files=FILES, rule="one nonlinear problem and option combination compared with a NumPy Newton least-squares loop"),
    "S03": dict(check=check_s03, fixed=fixed_s03, random=s03_case, files=FILES, rule="partially evaluated function compared with the original at new values of the remaining arguments"),
    "S04": dict(check=check_s04, fixed=fixed_s04, random=s04_case, files=FILES, rule="one matrix and right-hand side compared with the LAPACK least-squares solution of the column-scaled system"),
    "D01": dict(check=check_d01, fixed=fixed_d01, random=d01_case, files=FILES, rule="a history of dictionary operations compared with plain arrays"),
}
