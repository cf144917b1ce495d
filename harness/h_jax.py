"""B09, B10, H01, U01: JAX integration."""
from lib import *

FILES = ["utfc.py", "mtfc.py", "utils/BF.cc", "utils/BF.h", "utils/BF_Py.cc"]
UT = ["CP", "LeP", "FS"] + ELMS
UM = {"H": 0, "dH": 1, "d2H": 2, "d4H": 4, "d8H": 8}
NM = {"H": (), "Hx": (1,), "Hy": (0, 1), "Hx2": (2,), "Hy2": (0, 2), "Hxy": (1, 1), "Hx2y": (2, 1), "Hz": (0, 0, 1)}


def need(meth):
    return max(1, len(NM[meth]))


def spec_u(g, backend="C++", N=None):
    x0, xf = g.domain()
    m = g.size(2, 8, "m")
    return dict(t="u", basis=g.pick(UT), backend=backend, N=N or g.size(2, 6, "N"), m=m, nC=g.subset(m, m - 1), x0=x0, xf=xf)


def spec_m(g, backend="C++"):
    dim = int(g.r.integers(1, 4))
    basis = g.pick(UT)
    m = g.size(2, 5, "m")
    m = min(m, 8)
    if basis.startswith("ELM"):
        nC = g.subset(m, m - 1)
    else:
        nC = [g.subset(m, min(2, m - 1)) for _ in range(dim)]
        nC = [v if v else -1 for v in nC]
    return dict(t="m", basis=basis, backend=backend, n=[int(v) for v in g.r.integers(2, 4, dim)], m=m, nC=nC, dim=dim, dseed=g.seed())


def make(s):
    from tfc import utfc, mtfc
    if s["t"] == "u":
        return utfc(s["N"], s["nC"], s["m"] - 1, basis=s["basis"], x0=s["x0"], xf=s["xf"], backend=s["backend"])
    r = np.random.default_rng(s["dseed"])
    x0 = np.round(r.uniform(-2, 2, s["dim"]), 2)
    xf = x0 + np.round(r.uniform(0.5, 3, s["dim"]), 2)
    return mtfc(s["n"], s["nC"], s["m"] - 1, dim=s["dim"], basis=s["basis"], x0=x0, xf=xf, backend=s["backend"])


def pts(s, seed, n):
    import jax.numpy as jnp
    r = np.random.default_rng(seed)
    if s["t"] == "u":
        return (jnp.array(r.uniform(s["x0"], s["xf"], n)),)
    return tuple(jnp.array(r.uniform(-2, 2, n)) for _ in range(s["dim"]))


def raw(t, s, xs, d, full):
    if s["t"] == "u":
        return np.asarray(t.basisClass.H(np.asarray(xs[0]), d, full))
    return np.asarray(t.basisClass.H(np.array([np.asarray(x) for x in xs]), tuple(d), full))


def dtuple(s, meth):
    v = NM[meth]
    return tuple(v[k] if k < len(v) else 0 for k in range(s["dim"]))


def order(s, meth):
    return UM[meth] if s["t"] == "u" else dtuple(s, meth)


def meths(s):
    return list(UM) if s["t"] == "u" else [k for k in NM if need(k) <= s["dim"]]


def tol_scale(W):
    return np.max(np.abs(W), initial=1.0)


# ------------------------------------------------------------------ B09
def check_b09(case):
    import jax, gc
    inst, comp = [], []
    idents = []
    for op in case["ops"]:
        if op[0] == "new":
            inst.append((make(op[1]), op[1]))
            idents.append(inst[-1][0].basisClass.identifier)
            if len(set(idents)) != len(idents):
                return f"two instances share the identifier {idents[-1]}"
        elif op[0] == "jit":
            i = op[1] % len(inst)
            t, s = inst[i]
            ms = meths(s)
            meth = ms[op[2] % len(ms)]
            full = op[3]
            f = getattr(t, meth)
            comp.append((i, meth, full, jax.jit(lambda *x, f=f, full=full: f(*x, full=full))))
        elif op[0] == "two":
            # one compiled function using two instances
            i, j = op[1] % len(inst), op[2] % len(inst)
            (a, sa), (b, sb) = inst[i], inst[j]
            fn = jax.jit(lambda xa, xb: (a.H(*xa, full=op[3]), b.H(*xb, full=not op[3])))
            xa, xb = pts(sa, op[4], 3), pts(sb, op[4] + 1, 4)
            A, B = fn(xa, xb)
            for got, want, w in ((A, raw(a, sa, xa, order(sa, "H"), op[3]), "first"), (B, raw(b, sb, xb, order(sb, "H"), not op[3]), "second")):
                msg = close(np.asarray(got), want, tol_scale(want), f"compiled function of two instances, {w} one", 1e-12)
                if msg:
                    return msg
        else:
            if not comp:
                continue
            i, meth, full, fn = comp[op[1] % len(comp)]
            t, s = inst[i]
            xs = pts(s, op[2], op[3])
            want = np.asarray(getattr(t, meth)(*xs, full=full))
            r = raw(t, s, xs, order(s, meth), full)
            msg = close(want, r, tol_scale(r), f"eager {s['basis']}.{meth} differs from the basis class", 1e-12)
            if msg:
                return msg
            got = np.asarray(fn(*xs))
            msg = close(got, want, tol_scale(want), f"jit({s['basis']}.{meth}, full={full}) of instance {i} of {len(inst)} differs from eager", 1e-12)
            if msg:
                return msg
    return None


def hist(g, n):
    ops = [["new", spec_u(g) if g.flag() else spec_m(g)]]
    for _ in range(n):
        u = g.r.random()
        if u < 0.3:
            ops.append(["new", spec_u(g) if g.flag() else spec_m(g)])
        elif u < 0.55:
            ops.append(["jit", int(g.r.integers(9)), int(g.r.integers(9)), g.flag()])
        elif u < 0.62:
            ops.append(["two", int(g.r.integers(9)), int(g.r.integers(9)), g.flag(), g.seed()])
        else:
            ops.append(["eval", int(g.r.integers(9)), g.seed(), g.size(1, 5, "n")])
    return dict(kind="history", ops=ops)


def fixed_b09(g):
    for b in UT:
        for full in (True, False):
            su, sm = dict(spec_u(g), basis=b), spec_m(g)
            while sm["basis"] != b:
                sm = spec_m(g)
            yield dict(kind="u-" + b, ops=[["new", su], ["new", spec_m(g)], ["jit", 0, int(g.r.integers(3)), full], ["new", spec_u(g)], ["eval", 0, 1, 4], ["eval", 0, 2, 3]])
            yield dict(kind="m-" + b, ops=[["new", spec_u(g)], ["new", sm], ["jit", 1, int(g.r.integers(9)), full], ["new", spec_m(g)], ["eval", 0, 1, 4], ["eval", 0, 2, 3]])
    for L in g.lits:
        yield dict(kind="size", ops=[["new", dict(spec_u(g), m=max(2, L), nC=[0])], ["jit", 0, 0, False], ["jit", 0, 0, True], ["eval", 0, 1, max(1, L)], ["eval", 1, 1, 3]])
        s = spec_u(g)
        yield dict(kind="many", ops=[["new", s]] + [["new", spec_u(g)] for _ in range(min(L, 40))] + [["jit", L, 0, False], ["eval", 0, 1, 3], ["jit", 0, 1, False], ["eval", 1, 1, 3]])
    # repeated use of the same named target with many instances
    ops = [["new", dict(t="u", basis="CP", backend="C++", N=4, m=m, nC=[0], x0=0.0, xf=1.0)] for m in (4, 5, 6, 4)]
    ops += [["jit", k, 0, False] for k in range(4)] + [["eval", k, 1, 3] for k in range(4)]
    yield dict(kind="same", ops=ops)


def random_b09(g):
    return hist(g, int(g.r.integers(5, 16)))


# ------------------------------------------------------------------ B10
def check_b10(case):
    import jax, jax.numpy as jnp
    s = case["spec"]
    t = make(s)
    xs = pts(s, case["pseed"], case["n"])
    full = case["full"]
    r = np.random.default_rng(case["pseed"] + 7)
    if case["kind"].startswith("name"):
        for meth in meths(s):
            if meth == "d8H" and s["backend"] == "Python" and s["basis"].startswith("ELM"):
                continue
            want = raw(t, s, xs, order(s, meth), full)
            got = np.asarray(getattr(t, meth)(*xs, full=full))
            msg = close(got, want, tol_scale(want), f"{s['backend']} {s['basis']}.{meth}(full={full})", 1e-12)
            if msg:
                return msg
        if s["t"] == "u":
            d = np.asarray(t.H(*xs))
            msg = close(d, raw(t, s, xs, 0, False), tol_scale(d), "H without full must remove functions", 1e-12)
            if msg:
                return msg
        return None
    meth = meths(s)[case["meth"] % len(meths(s))]
    if meth == "d8H":
        meth = "d4H"
    f = lambda *x: getattr(t, meth)(*x, full=full)
    d = order(s, meth)
    if case["kind"].startswith("jvp"):
        tans = []
        for k, x in enumerate(xs):
            kind = case["tans"][k % len(case["tans"])]
            tans.append({"ones": np.ones(x.shape), "zero": np.zeros(x.shape), "rand": r.uniform(-2, 2, x.shape), "some": r.uniform(-2, 2, x.shape) * (r.random(x.shape) < 0.5)}[kind])
        out, tan = jax.jvp(f, xs, tuple(jnp.array(v) for v in tans))
        W0 = raw(t, s, xs, d, full)
        if s["t"] == "u":
            W1 = raw(t, s, xs, d + 1, full) * tans[0][:, None]
        else:
            W1 = sum(raw(t, s, xs, tuple(d[j] + (j == k) for j in range(s["dim"])), full) * tans[k][:, None] for k in range(s["dim"]))
        return close(np.asarray(out), W0, tol_scale(W0), "value under jvp", 1e-11) or close(np.asarray(tan), W1, tol_scale(W1), f"jvp of {s['backend']} {s['basis']}.{meth} full={full} tangents {case['tans']}", 1e-10)
    # nested elementwise gradients
    from tfc.utils import egrad
    h = f
    dd = d
    for k in case["path"]:
        k = k % len(xs)
        h = egrad(h, k)
        dd = dd + 1 if s["t"] == "u" else tuple(dd[j] + (j == k) for j in range(s["dim"]))
    if case.get("jit") and s["backend"] == "C++":
        h = jax.jit(h)
    if s["basis"] in ("ELMSigmoid", "ELMTanh", "ELMSwish") and (dd if s["t"] == "u" else sum(dd)) > 8:
        return None
    W = raw(t, s, xs, dd, full)
    got = np.asarray(h(*xs))
    return close(got, W, tol_scale(W), f"egrad along {case['path']} of {s['backend']} {s['basis']}.{meth} full={full}", 1e-10)


def ad_case(g, kind, spec):
    return dict(kind=kind, spec=spec, pseed=g.seed(), n=g.size(1, 4, "n"), full=g.flag(), meth=int(g.r.integers(8)), tans=[g.pick(["ones", "zero", "rand", "some"]) for _ in range(3)], path=[int(v) for v in g.r.integers(0, 3, int(g.r.integers(1, 4)))], jit=g.flag(0.3))


def fixed_b10(g):
    for be in ("C++", "Python"):
        for b in UT:
            for mk in (spec_u, spec_m):
                s = mk(g, be)
                while s["basis"] != b:
                    s = mk(g, be)
                if be == "Python" and b.startswith("ELM") and b not in ("ELMSin", "ELMReLU"):
                    continue
                for kind in ("name", "jvp", "nest", "jvp"):
                    c = ad_case(g, kind, s)
                    if be == "Python":
                        c["meth"] = c["meth"] % 2
                        c["path"] = c["path"][:2]
                    yield c
    for m in range(len(UM) - 1):
        for full in (True, False):
            yield dict(ad_case(g, "jvp", spec_u(g)), meth=m, full=full, tans=["rand"])
    for m in range(len(NM)):
        for full in (True, False):
            s = spec_m(g)
            while s["dim"] < 3:
                s = spec_m(g)
            yield dict(ad_case(g, "jvp", s), meth=m, full=full, tans=["rand", "ones", "some"])
            yield dict(ad_case(g, "nest", s), meth=m, full=full)


def random_b10(g):
    be = "C++" if g.flag(0.8) else "Python"
    s = (spec_u if g.flag() else spec_m)(g, be)
    c = ad_case(g, g.pick(["name", "jvp", "nest"]), s)
    if be == "Python":
        c["meth"], c["path"] = c["meth"] % 2, c["path"][:2]
    return c


# ------------------------------------------------------------------ H01
HM = {"H": 0, "dH": 1, "d2H": 2, "d3H": 3, "d4H": 4, "d8H": 8}


def check_h01(case):
    from tfc.utfc import HybridUtfc
    import jax.numpy as jnp
    ts = [make(s) for s in case["specs"]]
    same = len({s["N"] for s in case["specs"]}) == 1
    r, h = expect_exit(lambda: HybridUtfc(ts))
    if r == "refused":
        return f"members with N={[s['N'] for s in case['specs']]} were refused: {h}" if same else None
    if not same:
        return f"members with different numbers of points {[s['N'] for s in case['specs']]} were accepted"
    rr = np.random.default_rng(case["pseed"])
    x = jnp.array(rr.uniform(-1, 1, case["n"]))
    for meth, d in HM.items():
        if case.get("only") and meth != case["only"]:
            continue
        for full in (True, False, None):
            W = np.hstack([raw(t, s, (x,), d, bool(full)) for t, s in zip(ts, case["specs"])])
            got = np.asarray(getattr(h, meth)(x) if full is None else getattr(h, meth)(x, full=full))
            msg = close(got, W, tol_scale(W), f"hybrid {meth} full={full} of {[s['basis'] for s in case['specs']]}", 1e-12)
            if msg:
                return msg
    return None


def hy_case(g, k=None, same=True):
    N = g.size(2, 6, "N")
    k = k or int(g.r.integers(1, 5))
    specs = [spec_u(g, N=N) for _ in range(k)]
    if not same:
        specs[int(g.r.integers(k))]["N"] += int(g.r.integers(1, 4))
    return dict(kind="same" if same else "differ", specs=specs, pseed=g.seed(), n=g.size(1, 5, "n"))


def fixed_h01(g):
    for k in (1, 2, 3, 4):
        yield hy_case(g, k)
        yield hy_case(g, k)
    for k in (2, 3, 4):
        for j in range(k):
            c = hy_case(g, k)
            c["specs"][j]["N"] += 1
            c["kind"] = "differ"
            yield c
    yield dict(hy_case(g, 2), n=1)


def random_h01(g):
    k = int(g.r.integers(1, 5))
    return hy_case(g, k, same=k == 1 or g.flag(0.8))


# ------------------------------------------------------------------ U01
def fns():
    import jax.numpy as jnp
    # elementwise f(x,y,z) with partials as a table: name -> (f, {multiindex: f_deriv})
    F = {
        "poly": lambda x, y, z: x ** 3 * y ** 2 + 2 * z * x - y * z ** 2,
        "trig": lambda x, y, z: jnp.sin(x * y) + jnp.cos(z) * x,
        "expo": lambda x, y, z: jnp.exp(0.3 * x - 0.2 * y) * z ** 2,
    }
    return F


def sym_partial(name, path, vals):
    import sympy as sp
    x, y, z = sp.symbols("x y z")
    E = {"poly": x ** 3 * y ** 2 + 2 * z * x - y * z ** 2, "trig": sp.sin(x * y) + sp.cos(z) * x, "expo": sp.exp(sp.Rational(3, 10) * x - sp.Rational(1, 5) * y) * z ** 2}[name]
    for k in path:
        E = sp.diff(E, (x, y, z)[k])
    f = sp.lambdify((x, y, z), E, "numpy")
    return np.broadcast_to(np.asarray(f(*vals), dtype=float), np.broadcast_shapes(*[v.shape for v in vals]))


def check_u01(case):
    import jax, jax.numpy as jnp
    from tfc.utils import egrad, egradSimple, TFCDict, TFCDictRobust, step
    from tfc.utils.TFCUtils import onesRobust, zerosRobust
    r = np.random.default_rng(case["seed"])
    G = egrad if case["which"] == "robust" else egradSimple
    k = case["kind"]
    shape = tuple(case["shape"])
    if k == "elem":
        vals = [r.uniform(0.2, 1.5, shape) for _ in range(3)]
        for i, j in case.get("alias", []):
            vals[i] = vals[j]  # the same array passed for two arguments
        f = fns()[case["fn"]]
        if case.get("jit"):
            f = jax.jit(f)
        h = f
        for q in case["path"]:
            h = G(h, q)
        W = sym_partial(case["fn"], case["path"], vals)
        keep = [v.copy() for v in vals]
        jv = [jnp.array(v) for v in vals]
        for i, j in case.get("alias", []):
            jv[i] = jv[j]
        got = np.asarray(h(*jv) if not case.get("numpy") else h(*vals))
        if any(not np.array_equal(a, b) for a, b in zip(vals, keep)):
            return "arguments were modified"
        return close(got, W, 1 + np.abs(W), f"egrad {case['path']} of {case['fn']}", 1e-9)
    if k == "default":
        v = r.uniform(0.2, 1.5, shape)
        return close(np.asarray(G(lambda x, y: x ** 2 * y)(jnp.array(v), jnp.array(v + 1))), 2 * v * (v + 1), 10.0, "default argument position", 1e-10)
    if k == "mix":
        # not elementwise: directional derivative along ones of the chosen argument
        A, B = r.uniform(-1, 1, (4, shape[0])), r.uniform(-1, 1, (4, shape[0]))
        f = lambda x, y: jnp.dot(A, x) * jnp.dot(B, y) + jnp.cumsum(jnp.dot(A, x ** 2))
        x, y = r.uniform(-1, 1, shape[0]), r.uniform(-1, 1, shape[0])
        one = np.ones(shape[0])
        W = [(A @ one) * (B @ y) + np.cumsum(A @ (2 * x)), (A @ x) * (B @ one)][case["path"][0] % 2]
        return close(np.asarray(G(f, case["path"][0] % 2)(jnp.array(x), jnp.array(y))), W, 1 + np.abs(W), "directional derivative along ones", 1e-10)
    if k == "dict":
        D = {"tfc": TFCDict, "rob": TFCDictRobust, "plain": dict}[case["dt"]]
        a, b, x = r.uniform(-1, 1, shape[0]), r.uniform(-1, 1, shape[0]), r.uniform(-1, 1, shape[0])
        xi = D({"a": jnp.array(a), "b": jnp.array(b)})
        f = lambda xi, x: xi["a"] * x ** 2 + xi["b"] ** 2 * x
        W = [x ** 2 + 2 * b * x, 2 * a * x + b ** 2][case["path"][0] % 2]
        j = case["path"][0] % 2
        if case.get("swap"):
            h = egrad(lambda x, xi: f(xi, x), 1 - j)(jnp.array(x), xi)
        else:
            h = egrad(f, j)(xi, jnp.array(x))
        msg = close(np.asarray(h), W, 1 + np.abs(W), f"egrad argument {j} with a {case['dt']} dictionary", 1e-10)
        if msg:
            return msg
        h2 = egrad(egrad(f, 0), 1)(xi, jnp.array(x))
        return close(np.asarray(h2), 2 * x + 2 * b, 5.0, "mixed derivative with a dictionary", 1e-10)
    if k == "tree":
        t = {"p": jnp.array(r.uniform(-1, 1, shape)), "q": [jnp.array(r.uniform(-1, 1, 3)), jnp.array(r.uniform(-1, 1, (2, 2)))]}
        O, Z = onesRobust(t), zerosRobust(t)
        for T, v in ((O, 1.0), (Z, 0.0)):
            L1, L2 = jax.tree_util.tree_flatten(T), jax.tree_util.tree_flatten(t)
            if L1[1] != L2[1]:
                return "structure changed"
            for a, b in zip(L1[0], L2[0]):
                if a.shape != b.shape or a.dtype != b.dtype or not np.all(np.asarray(a) == v):
                    return f"leaf {a} for value {v}"
        return None
    if k == "step":
        v = np.concatenate([r.uniform(-2, 2, shape[0]), [0.0, -0.0, 1e-12, -1e-12]])
        W = (v > 0).astype(float)
        msg = close(np.asarray(step(jnp.array(v))), W, 1.0, "step", 1e-12)
        return msg or close(np.asarray(G(step)(jnp.array(v))), np.zeros_like(v), 1.0, "derivative of step", 1e-12)
    raise AssertionError(k)


def eg_case(g, kind=None):
    return dict(kind=kind or g.pick(["elem", "elem", "elem", "mix", "dict", "tree", "step", "default"]), which=g.pick(["robust", "robust", "simple"]), shape=[g.size(1, 4, "n")] + ([int(g.r.integers(1, 3))] if g.flag(0.2) else []), seed=g.seed(), fn=g.pick(["poly", "trig", "expo"]), path=[int(v) for v in g.r.integers(0, 3, int(g.r.integers(1, 4)))], dt=g.pick(["tfc", "rob", "plain"]), jit=g.flag(0.2), numpy=g.flag(0.2), swap=g.flag(), alias=g.pick([[], [], [], [[1, 0]], [[2, 1]], [[2, 0]], [[1, 0], [2, 0]]]))


def fixed_u01(g):
    for which in ("robust", "simple"):
        for fn in ("poly", "trig", "expo"):
            for path in ([0], [1], [2], [0, 1], [2, 2], [1, 2, 0]):
                c = eg_case(g, "elem")
                c.update(which=which, fn=fn, path=path, alias=[])
                yield c
        for alias in ([[1, 0]], [[2, 1]], [[1, 0], [2, 0]]):
            for path in ([0], [1], [0, 2]):
                for npy in (True, False):
                    yield dict(eg_case(g, "elem"), which=which, path=path, alias=alias, numpy=npy)
        for k in ("mix", "default", "step", "tree"):
            for _ in range(3):
                yield dict(eg_case(g, k), which=which)
    for dt in ("tfc", "rob", "plain"):
        for p in (0, 1):
            for sw in (True, False):
                yield dict(eg_case(g, "dict"), dt=dt, path=[p], swap=sw, which="robust")


def random_u01(g):
    return eg_case(g)


PROPS = {
    "B09": dict(check=check_b09, fixed=fixed_b09, random=random_b09, files=FILES, rule="a history of instance creations, compilations and evaluations; compiled results compared with eager ones"),
    "B10": dict(check=check_b10, fixed=fixed_b10, random=random_b10, files=["utfc.py", "mtfc.py"], rule="named methods, jvp with given tangents or nested gradients compared with the raw matrix of the expected order"),
    "H01": dict(check=check_h01, fixed=fixed_h01, random=random_h01, files=["utfc.py"], rule="hybrid matrices compared with concatenated member matrices"),
    "U01": dict(check=check_u01, fixed=fixed_u01, random=random_u01, files=["utils/TFCUtils.py"], rule="element-wise gradients compared with symbolic partial derivatives"),
}
