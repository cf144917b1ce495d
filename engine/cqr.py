"""Contract on ScaledQrLs (src/tfc/utils/TFCUtils.py): the result solves the normal equations, for every matrix with
independent columns and every right-hand side.

Matrices are words over a non-commutative alphabet (A, its column scaling D, the factors Q and R, B); the assumed contracts
of numpy.linalg are the rewriting rules: qr(X) = (Q, R) with Q R = X and Q^T Q = I, pinv(R) = R^-1 for independent columns."""
from csolve import *
from csolve import libs as solve_libs


class Mx:
    def __init__(self, word, dims):
        self.word, self.dims = tuple(word), tuple(dims)


class Vx:
    """coef * (norm of column j of A)^p, as a vector of shape (m,), (1,m) or (m,1)"""

    def __init__(self, p, coef=Fraction(1), form="m"):
        self.p, self.coef, self.form = Fraction(p), coef, form


class Sq:
    """element-wise square of A"""


class Sc:
    """a scalar: tiny (rounding threshold), norm, cond"""

    def __init__(self, what, arg=None):
        self.what, self.arg = what, arg


TR = {"A": "At", "At": "A", "Q": "Qt", "Qt": "Q", "R": "Rt", "Rt": "R", "Ri": "Rit", "Rit": "Ri", "B": "Bt", "Bt": "B", "D": "D", "LS": "LSt", "LSt": "LS"}


def transpose(w):
    return tuple((TR[a[0]],) + a[1:] for a in reversed(w))


def reduce(w):
    """rewriting: D^a D^b = D^(a+b), D^0 = I, Qt Q = I, R R^-1 = R^-1 R = I"""
    out = []
    for a in w:
        out.append(a)
        while True:
            if out and out[-1][0] == "D" and out[-1][1] == 0:
                out.pop()
                continue
            if len(out) > 1:
                x, y = out[-2], out[-1]
                if x[0] == "D" and y[0] == "D":
                    out[-2:] = [("D", x[1] + y[1])]
                    continue
                if x[1:] == y[1:] and (x[0], y[0]) in (("Qt", "Q"), ("R", "Ri"), ("Ri", "R"), ("Rt", "Rit"), ("Rit", "Rt")):
                    del out[-2:]
                    continue
            break
    return tuple(out)


def expand(w, facts):
    """A = Q R S^-1 from the factorisation of A S"""
    out = []
    for a in w:
        if a[0] in ("A", "At") and facts:
            i, p = facts[0]
            r = (("Q", i), ("R", i), ("D", -p))
            out += r if a[0] == "A" else transpose(r)
        else:
            out.append(a)
    return reduce(out)


def need(x, c=Mx):
    if not isinstance(x, c):
        raise Unsupported("operand " + type(x).__name__)
    return x


def mul(py, a, b):
    a, b = need(a), need(b)
    if len(a.dims) != 2:
        raise Unsupported("product from the left with a vector")
    if a.dims[1] != b.dims[0]:
        raise Raised("ValueError", "shapes")
    return Mx(a.word + b.word, (a.dims[0],) + b.dims[1:])


def scale(py, v, x):
    """element-wise product of a vector of column norms with an array"""
    if len(x.dims) == 1:
        if v.form != "m" or x.dims != ("m",):
            raise Unsupported("element-wise product")
        return Mx((("D", v.p),) + x.word, x.dims)
    if v.form == "m1":
        if x.dims[0] != "m":
            raise Raised("ValueError", "broadcast")
        return Mx((("D", v.p),) + x.word, x.dims)
    if x.dims[1] == "m":
        return Mx(x.word + (("D", v.p),), x.dims)
    raise Raised("ValueError", "broadcast")


def binop(py, op, a, b):
    if op == "MatMult":
        return mul(py, a, b)
    if isinstance(a, Mx) and isinstance(b, Mx) and op == "Mult" and a.word == b.word == (("A",),):
        return Sq()
    if isinstance(a, Mx) and op == "Pow" and isinstance(b, T) and b.const() == 2 and a.word == (("A",),):
        return Sq()
    if op == "Div" and isinstance(a, T) and isinstance(b, Vx) and a.const() == 1 and b.coef == 1:
        return Vx(-b.p, form=b.form)
    if op == "Pow" and isinstance(a, Vx) and isinstance(b, T) and b.const() is not None:
        return Vx(a.p * b.const(), form=a.form)
    for x, y in ((a, b), (b, a)):
        if op == "Mult" and isinstance(x, Vx) and isinstance(y, Mx):
            return scale(py, x, y)
    if op == "Mult" and isinstance(a, Vx) and isinstance(b, Vx) and a.form == b.form:
        return Vx(a.p + b.p, form=a.form)
    if op == "Div" and isinstance(a, Mx) and isinstance(b, Vx):
        return scale(py, Vx(-b.p, form=b.form), a)
    if op == "Mult" and (isinstance(a, Sc) or isinstance(b, Sc)):
        s, o = (a, b) if isinstance(a, Sc) and a.what == "tiny" else (b, a)
        if isinstance(s, Sc) and s.what == "tiny" and (isinstance(o, T) or isinstance(o, Sc) and o.what == "size"):
            return Sc("tiny")
    return NotImplemented


SIZES = {}


def attr(py, x, name):
    if name == "T":
        if isinstance(x, Vx):
            return Vx(x.p, x.coef, {"m": "m", "1m": "m1", "m1": "1m"}[x.form])
        if isinstance(x, Mx):
            return Mx(transpose(x.word), x.dims[::-1]) if len(x.dims) == 2 else x
    if name == "shape" and isinstance(x, Mx):
        return tuple(SIZES[d] for d in x.dims)
    if name == "shape" and isinstance(x, Vx):
        return {"m": (SIZES["m"],), "1m": (t(1), SIZES["m"]), "m1": (SIZES["m"], t(1))}[x.form]
    if name == "ndim" and isinstance(x, Mx):
        return t(len(x.dims))
    if name == "dot" and isinstance(x, Mx):
        return Builtin("dot", lambda py, a, k: mul(py, x, a[0]))
    if name == "reshape":
        return Builtin("reshape", lambda py, a, k: reshape(py, [x] + [tuple(a) if len(a) > 1 else a[0]], k))
    if name == "sum" and isinstance(x, Sq):
        return Builtin("sum", lambda py, a, k: npsum(py, [x] + list(a), k))
    return NotImplemented


def getitem(py, x, k):
    ks = k if isinstance(k, tuple) else (k,)
    if isinstance(x, Vx) and x.form == "m" and len(ks) == 2:
        if ks[1] is None and isinstance(ks[0], Slice):
            return Vx(x.p, x.coef, "m1")
        if ks[0] is None and isinstance(ks[1], Slice):
            return Vx(x.p, x.coef, "1m")
    raise Unsupported("subscript")


def reshape(py, a, k):
    x, s = a[0], a[1]
    s = tuple(py.concrete(s)) if isinstance(s, (PList, tuple)) else (s,)
    if isinstance(x, Vx):
        for f, d in (("m", (SIZES["m"],)), ("1m", (t(1), SIZES["m"])), ("m1", (SIZES["m"], t(1)))):
            if len(d) == len(s) and all(u == v or (u.iconst() == -1) for u, v in zip(s, d)):
                return Vx(x.p, x.coef, f)
    raise Unsupported("reshape")


def npsum(py, a, k):
    ax = k.get("axis", a[1] if len(a) > 1 else None)
    if isinstance(a[0], Sq) and ax is not None and t(ax).iconst() == 0:
        return Vx(2, form="m" if not k.get("keepdims") else "1m")
    raise Unsupported("sum")


def sqrt(py, a, k):
    if isinstance(a[0], Vx):
        return Vx(a[0].p / 2, form=a[0].form)
    raise Unsupported("sqrt")


def reciprocal(py, a, k):
    return binop(py, "Div", t(1), need(a[0], Vx))


def diag(py, a, k):
    v = need(a[0], Vx)
    if v.form != "m":
        raise Unsupported("diag of a matrix")
    return Mx((("D", v.p),), ("m", "m"))


def norm(py, a, k):
    x = need(a[0])
    ax = k.get("axis")
    if ax is not None and t(ax).iconst() == 0 and x.word == (("A",),):
        return Vx(1, form="1m" if k.get("keepdims") else "m")
    return Sc("norm")


def qr(py, a, k):
    x = need(a[0])
    w = reduce(x.word)
    if w[:1] != (("A",),) or len(w) > 2 or (len(w) == 2 and w[1][0] != "D") or x.dims != ("n", "m") or k:
        raise Unsupported("qr of " + str(w))
    i = len(py.qrs)
    py.qrs.append((i, w[1][1] if len(w) == 2 else Fraction(0)))
    return (Mx((("Q", i),), ("n", "m")), Mx((("R", i),), ("m", "m")))


def inverse(py, a, k):
    x = need(a[0])
    r = k.get("rcond", a[1] if len(a) > 1 else None)
    if r is not None and not (isinstance(r, Sc) and r.what == "tiny"):
        raise Unsupported("threshold of the pseudo-inverse")
    w = reduce(x.word)
    inv = {"R": "Ri", "Ri": "R", "Rt": "Rit", "Rit": "Rt"}
    if len(w) != 1 or w[0][0] not in tuple(inv) + ("D",):
        raise Unsupported("inverse of " + str(w))
    return Mx(((inv[w[0][0]],) + w[0][1:] if w[0][0] != "D" else ("D", -w[0][1]),), ("m", "m"))


def solve(py, a, k):
    return mul(py, inverse(py, [a[0]], {}), a[1])


def multi_dot(py, a, k):
    ms = py.concrete(a[0])
    r = ms[-1]
    for m in reversed(ms[:-1]):
        r = mul(py, m, r)
    return r


def cond(py, a, k):
    if len(a) > 1 or k:
        raise Unsupported("cond with another norm")
    return Sc("cond", need(a[0]).word)


def npmax(py, a, k):
    return Sc("size")


def spacing(py, a, k):
    if isinstance(a[0], Sc) and a[0].what == "norm":
        return Sc("tiny")
    raise Unsupported("spacing")


for c in (Mx, Vx, Sq, Sc):
    ATTR[c], BINOP[c] = attr, binop
GETITEM[Vx] = getitem


def install_qr(ns):
    B = lambda nm, f: Builtin(nm, f)
    d = {"sum": B("sum", npsum), "sqrt": B("sqrt", sqrt), "reshape": B("reshape", reshape), "diag": B("diag", diag), "reciprocal": B("reciprocal", reciprocal), "max": B("max", npmax), "spacing": B("spacing", spacing),
         "dot": B("dot", lambda py, a, k: mul(py, a[0], a[1])), "matmul": B("matmul", lambda py, a, k: mul(py, a[0], a[1])), "transpose": B("transpose", lambda py, a, k: attr(py, a[0], "T"))}
    ns.d.update(d)
    la = {"qr": B("qr", qr), "pinv": B("pinv", inverse), "inv": B("inv", inverse), "solve": B("solve", solve), "lstsq": B("lstsq", lambda py, a, k: (solve(py, a[:2], {}), Sc("residual"), Sc("rank"), Sc("singular values"))), "multi_dot": B("multi_dot", multi_dot), "norm": B("norm", norm), "cond": B("cond", cond)}
    ns.d["linalg"] = Ns(ns.name + ".linalg", la)


def scaled_qr(cols):
    ctx = mkctx("ScaledQrLs" + (" (several columns)" if cols else ""))
    ctx.functions = ["ScaledQrLs", "_MatPinv"]
    l = solve_libs()
    for nm in ("numpy", "jax.numpy"):
        install_qr(l[nm])
    py = mkpy(ctx, ["TFCUtils"], None, l)
    for d in "nmk":
        SIZES[d] = var("size_" + d)
        ctx.assume(Ge(SIZES[d], 1))
    ctx.assume(Ge(SIZES["n"], SIZES["m"]))

    def body():
        py.frames = []
        py.qrs = []
        A = Mx((("A",),), ("n", "m"))
        B = Mx((("B",),), ("n", "k") if cols else ("n",))
        try:
            r = py.call(py.glob(py.main, "ScaledQrLs"), [A, B], {})
        except Raised as e:
            ctx.same(f"ensures a solution is returned (raised {e.kind})", False)
        x, cn = py.concrete(r)
        need(x)
        ctx.same("ensures the solution has one row per column of A and one column per column of B", x.dims == (("m", "k") if cols else ("m",)))
        lhs = expand((("At",), ("A",)) + x.word, py.qrs)
        rhs = expand((("At",), ("B",)), py.qrs)
        ctx.same("ensures the normal equations A^T A x = A^T B", lhs == rhs)
        w = reduce(need(cn, Sc).arg) if cn.what == "cond" else None
        facts = {i: p for i, p in py.qrs}
        if w and len(w) == 1 and w[0][0] == "R":
            w = reduce((("A",), ("D", facts[w[0][1]])))
        ctx.same("ensures the condition number of A with columns scaled to unit length", w == (("A",), ("D", Fraction(-1))))
    return run(ctx, body)


def entry(fn, args):
    return globals()[fn](*args)
