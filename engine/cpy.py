"""Contracts on the Python basis-function library (src/tfc/utils/BF/BF_Py.py)."""
import os, sys, time, ast
from py import *
import pynp
from pynp import ND, reader, new, toarr
from specs import *
from loops import Vocab
from terms import P1
from cxx import mexp, mtanh, msin, mcos
from cbf import mkctx, run, covered, ids, X, elm_spec, nelm_spec, rank, inC, BASIS, accepted, total, trank, tprod

REPO = os.environ.get("TFC_REPO", "/repo")


def find_mod(name):
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        if name + ".py" in fs:
            p = os.path.join(d, name + ".py")
            return os.path.relpath(p, os.path.join(REPO, "src"))[:-3].replace(os.sep, "."), p
    raise Unsupported("module " + name)


def ns_types():
    ty = lambda *n: {x: ModelType(x) for x in n}
    return {
        "abc": Ns("abc", {"ABC": ModelType("ABC"), "abstractmethod": Builtin("abstractmethod", lambda py, a, k: a[0])}),
        "typing": Ns("typing", dict({"cast": Builtin("cast", lambda py, a, k: a[1])}, **ty("Callable", "Tuple", "Any", "Optional", "List", "Dict", "Union", "Literal", "TypedDict", "Iterable", "Type"))),
    }


class TypesNs(Ns):
    pass


def mkpy(ctx, files, contracts=None, extra=None):
    mods = {}
    for f in files:
        n, p = find_mod(f)
        mods[n] = Module(n, p)
    libs = dict(pynp.LIBS)
    libs.update(ns_types())
    if extra:
        libs.update(extra)
    py = Py(ctx, mods, libs, contracts)
    pynp.CURPY[0] = py
    py.main = next(iter(mods.values()))
    return py


def selfrec(f):
    """does the function call itself by name (directly)?"""
    n = f.node
    if not isinstance(n, ast.FunctionDef):
        return False
    r = getattr(n, "_selfrec", None)
    if r is None:
        r = any(isinstance(c, ast.Call) and ((isinstance(c.func, ast.Name) and c.func.id == n.name) or (isinstance(c.func, ast.Attribute) and c.func.attr == n.name)) for c in ast.walk(n))
        n._selfrec = r
    return r


def zpoints(py, n, two=True, dtype="f", f=X, lib="np"):
    if two:
        return new(py, (n, t(1)), lambda idx: f(idx[0]), dtype, "z", lib)
    return new(py, (n,), lambda idx: f(idx[0]), dtype, "z", lib)


def post_nd(ctx, py, M, n, m, spec, what):
    """M is n x m with M[r,j] = spec(r,j)"""
    if not isinstance(M, ND) or len(M.shape) != 2:
        ctx.oblige(what + " (a matrix)", FALSE)
    ctx.oblige_eq(what + " (rows)", M.shape[0], n)
    ctx.oblige_eq(what + " (columns)", M.shape[1], m)

    def post():
        r, j = fresh("r"), fresh("j")
        for v, hi in ((r, n), (j, m)):
            ctx.assume(Ge(v, 0))
            ctx.assume(Lt(v, hi))
        got = reader(py, M)((r, j))
        spec(got, r, j, what)
    ctx.explore(post)


def eqspec(ctx, fn):
    return lambda got, r, j, what: ctx.oblige_eq(what, got, fn(r, j))


def same_matrix(ctx, py, M, n, m, fn):
    """decides (muted) whether M == fn"""
    if not isinstance(M, ND) or len(M.shape) != 2 or not (ctx.known(Eq(M.shape[0], n)) and ctx.known(Eq(M.shape[1], m))):
        return False
    ok = [True]

    def post():
        r, j = fresh("r"), fresh("j")
        for v, hi in ((r, n), (j, m)):
            ctx.assume(Ge(v, 0))
            ctx.assume(Lt(v, hi))
        try:
            got = reader(py, M)((r, j))
        except (Unsupported, Refuted):
            ok[0] = False
            return
        if not ctx.prove_eq(got, fn(r, j))[0]:
            ok[0] = False
    ctx.muted += 1
    try:
        ctx.explore(post)
    finally:
        ctx.muted -= 1
    return ok[0]


class Rec:
    """contract of a self-recursive helper: one matrix argument holding P(cur), returns P(goal); cur is an integer argument
    (or goal minus one), goal an integer argument or the order asked for; measure goal - cur"""

    def __init__(self, ctx, n, m, P, d, dtype):
        self.ctx, self.n, self.m, self.P, self.d, self.dtype = ctx, n, m, P, d, dtype
        self.verified = {}
        self.measure = None

    def mat(self, py, e, tag="M"):
        return new(py, (self.n, self.m), lambda idx: self.P(e, idx[0], idx[1]), self.dtype, tag)

    def apply(self, py, f, b):
        """call with bound arguments b: pick (matrix, cur, goal); None when concrete"""
        ctx = self.ctx
        mats = [k for k, v in b.items() if isinstance(v, ND)]
        nums = [k for k, v in b.items() if isinstance(v, T)]
        if len(mats) != 1 or not nums:
            return None
        M = b[mats[0]]
        roles = self.verified.get(f.node)
        cands = []
        if roles:
            cands = [roles]
        else:
            for rem in (False, True):
                for c in nums:
                    for g in [x for x in nums if x != c] + [None]:
                        cands.append((mats[0], c, g, rem))
        for mk, c, g, rem in cands:
            goal = b[g] if g else self.d
            cur = goal - b[c] if rem else b[c]
            if same_matrix(ctx, py, M, self.n, self.m, lambda r, j: self.P(cur, r, j)) and ctx.known(And(Ge(cur, 0), Le(cur, goal))):
                return mk, c, g, rem, cur, goal
        return False

    def __call__(self, py, f, args, kw):
        ctx = self.ctx
        if not selfrec(f):
            return NotImplemented
        b = py.bindargs(f, args, kw)
        r = self.apply(py, f, b)
        if os.environ.get('DBG'):
            print('REC', f.qual, r, {k: v for k, v in b.items()}, ctx.muted)
        if r is None:
            return NotImplemented
        if r is False:
            ctx.oblige(f"{f.qual} requires its matrix to hold the derivative of the current order", FALSE)
        mk, c, g, rem, cur, goal = r
        inside = self.measure is not None and self.measure[0] is f.node
        if inside:
            ctx.oblige(f"{f.qual} requires its matrix to hold the derivative of the current order", TRUE)
            ctx.oblige(f"{f.qual} measure decreases", And(Lt(goal - cur, self.measure[1]), Ge(goal - cur, 0)))
        if not inside and f.node not in self.verified and not ctx.muted:
            self.verified[f.node] = (mk, c, g, rem)
            self.verify(py, f, b, mk, c, g, rem)
        return self.mat(py, goal, "rec")

    def verify(self, py, f, b, mk, c, g, rem):
        """the body, for arbitrary cur <= goal, against the contract"""
        ctx = self.ctx
        save = self.measure

        def body():
            b2 = dict(b)
            if g:
                goal = var("goal")
                b2[g] = goal
            else:
                goal = self.d
            cv = var("cur")
            ctx.assume(Ge(cv, 0))
            ctx.assume(Le(cv, goal))
            b2[c] = goal - cv if rem else cv
            b2[mk] = self.mat(py, cv)
            pref = getattr(ctx, "prefer", None)
            ctx.prefer = lambda: [cv + 1, cv]
            self.measure = (f.node, goal - cv)
            try:
                out = py.invoke(f, [], {}, bound=b2)
            finally:
                ctx.prefer = pref
                self.measure = save
            covered(ctx, f.qual)
            post_nd(ctx, py, out, self.n, self.m, eqspec(ctx, lambda r, j: self.P(goal, r, j)), f"{f.qual} ensures the matrix of the asked order")
        ctx.explore(body)


def cls_obj(py, cls):
    c = py.glob(py.main, cls)
    if not isinstance(c, Class):
        raise Unsupported("class " + cls)
    return Inst(c, "self")


class PyFrame:
    def __init__(self, ctx):
        self.ctx, self.heap = ctx, dict(ctx.heap)
        self.store = {k: v for k, v in ctx.store.items() if k[0] in "fld"}

    def check(self, what="frame: the object and the inputs are unchanged"):
        ctx = self.ctx
        bad = [k for k, v in self.store.items() if not (ctx.store.get(k) is v or ctx.store.get(k) == v)]
        bad += [self.heap[a].name for a in self.heap if ctx.heap[a].layers != self.heap[a].layers]
        ctx.oblige(what, FALSE if bad else TRUE)


class AnyContract(dict):
    """contract table with a fallback for self-recursive helpers"""

    def __init__(self, fallback, d=None):
        super().__init__(d or {})
        self.fallback = fallback

    def get(self, k, default=None):
        return super().get(k, self.fallback)


def call_method(py, obj, name, args, kw=None):
    try:
        return py.call(py.getattr(obj, name), args, kw or {})
    except Raised as e:
        py.ctx.oblige(f"{name} returns (raised {e.kind})", FALSE)


def poly_hint(cls):
    P0 = poly(cls)
    P = lambda e, r, j: P0(e, j, X(r))
    ctx = mkctx(f"{cls}._Hint")
    m, n, d = var("m"), var("N"), var("d")
    for f in (Ge(m, 1), Ge(n, 1), Ge(d, 0)):
        ctx.assume(f)
    rec = Rec(ctx, n, m, P, d, "z")
    py = mkpy(ctx, ["BF_Py"], AnyContract(rec))
    obj = cls_obj(py, cls)
    ctx.store[("f", "self", "_m")] = m
    ctx.vocab = [Vocab("P", m, n, m, lambda e, r, k: P(e, r, k))]
    z = zpoints(py, n, dtype="z")

    def body():
        py.frames = []
        fr = PyFrame(ctx)
        out = call_method(py, obj, "_Hint", [z, d])
        covered(ctx, "_Hint")
        post_nd(ctx, py, out, n, m, eqspec(ctx, lambda r, j: P(d, r, j)), "ensures F[r,j] = d-th derivative of polynomial j at z[r]")
        fr.check()
    return run(ctx, body)


# ------------------------------------------------------------------ symbolic derivatives (chain rule on terms)
DTAB = {"exp": lambda a: mexp(a), "tanh": lambda a: 1 - mtanh(a) ** 2, "sin": lambda a: mcos(a), "cos": lambda a: -msin(a)}


def tdiff(x, aid):
    """derivative of the term x with respect to the atom aid (exp, tanh, sin, cos, polynomials, quotients)"""
    def pd(p):
        out = t(0)
        for m, c in p.items():
            for i, (a, e) in enumerate(m):
                da = adiff(a)
                if da.n:
                    rest = tuple((b, f) for j, (b, f) in enumerate(m) if j != i) + (((a, e - 1),) if e > 1 else ())
                    out = out + T({tuple(sorted(rest)): c * e}) * da
        return out
    cache = {}

    def adiff(a):
        if a in cache:
            return cache[a]
        if a == aid:
            r = t(1)
        else:
            at = atom(a)
            if at.kind == "var":
                r = t(0)
            elif aid not in {y.id for y in closure_atoms(t(at))}:
                r = t(0)
            elif at.kind == "app" and at.name in DTAB:
                r = DTAB[at.name](at.args[0]) * tdiff(at.args[0], aid)
            else:
                raise Unsupported("derivative of " + at.name)
        cache[a] = r
        return r
    if x.d is P1:
        return pd(x.n)
    N, D = T(x.n), T(x.d)
    return (pd(x.n) * D - N * pd(x.d)) / (D * D)


def ridge(e, vs):
    """e = phi(L) with L affine in the atoms vs: (phi(s) as term of the fresh atom s, s, L, slopes); None if not of that form"""
    args = []
    for at in closure_atoms(e):
        if at.kind == "app" and at.name in DTAB and at.args[0] not in args and any(v in {y.id for y in closure_atoms(at.args[0])} for v in vs):
            args.append(at.args[0])
    if not args:
        return None
    L = args[0]
    cs = [lincoeff(L, v) for v in vs]
    if any(c is None for c in cs) or not cs[0].n:
        return None
    if any({y.id for y in closure_atoms(c)} & set(vs) for c in cs):
        return None
    s = fresh("s", "Real")
    rest = L - cs[0] * t(atom(vs[0]))
    phi = subst(e, {vs[0]: (s - rest) / cs[0]})
    if {y.id for y in closure_atoms(phi)} & set(vs):
        return None
    sa = single_atom(s).id
    if not teq(subst(phi, {sa: L}), e):
        return None
    return phi, sa, L, cs


MAXORD = 8


class Deriv:
    """f differentiated orders[i] times with respect to argument i, element by element (assumed contract of egrad, proved for
    egrad itself in job py.egrad): every entry of f's result depends on the argument through the entries of its own row"""

    def __init__(self, f, orders):
        self.f, self.orders = f, dict(orders)

    def call(self, py, args, kw):
        ctx = py.ctx
        if not self.orders:
            return py.call(self.f, args, kw)
        if isinstance(self.f, Opaque):
            raise Unsupported("value of an arbitrary function")
        if kw:
            raise Unsupported("keyword arguments of a derivative")
        args = list(args)
        zs = []
        gen = []
        nm = fresh_name("zv")
        for i, a in enumerate(args):
            if not isinstance(a, ND):
                raise Unsupported("derivative at a non-array")
            if len(a.shape) != 2 or not pynp.isone(a.shape[1]):
                raise Unsupported("derivative at an array that is not a column")
            zs.append(reader(py, a))
            gen.append(new(py, a.shape, lambda idx, i=i: app(f"{nm}_{i}", idx[0]), a.dtype, "zgen", a.lib))
        out = py.call(self.f, gen, {})
        if not isinstance(out, ND):
            raise Unsupported("derivative of a scalar function")
        rd = reader(py, out)

        def fn(idx):
            e = rd(idx)
            r = idx[0]
            vs = [single_atom(app(f"{nm}_{i}", r)).id for i in range(len(args))]
            used = {a.id for a in closure_atoms(e) if a.name.startswith(nm)}
            if not used <= set(vs):
                raise Unsupported("egrad of a function that mixes rows")
            k = {i: o for i, o in self.orders.items()}
            val = nth(ctx, e, vs, k)
            return subst(val, {v: z((r, t(0))) for v, z in zip(vs, zs)})
        return new(py, out.shape, fn, out.dtype, "deriv", "jnp")


def nth(ctx, e, vs, orders):
    """mixed derivative of e; lemma (chain rule for phi(affine)): the derivative of orders k_i is prod slope_i^k_i * phi^(sum k)"""
    tot = t(0)
    for o in orders.values():
        tot = tot + o
    rg = ridge(e, vs)
    if rg is None:
        if tot.iconst() is None:
            raise Unsupported("derivative of symbolic order of a function that is not activation(affine)")
        for i, o in orders.items():
            for _ in range(o.iconst()):
                e = tdiff(e, vs[i])
        return e
    phi, sa, L, cs = rg
    fac = t(1)
    for i, o in orders.items():
        fac = fac * power(cs[i], o)
    p = single_atom(phi)
    if p is not None and p.name == "sin" and p.args[0] == t(atom(sa)):
        # lemma: sin has period four under differentiation
        for r in range(4):
            if r == 3 or ctx.branch(Eq(simp_mod(tot, t(4)), r)):
                return fac * [msin(L), mcos(L), -msin(L), -mcos(L)][r]
    for k in range(MAXORD + 1):
        if ctx.branch(Eq(tot, k)):
            ctx.assume(Eq(tot, k))
            return fac * subst(nth1(phi, sa, k), {sa: L})
    raise Unsupported("derivative order above eight")


def nth1(phi, sa, k):
    """k-th derivative of phi; a denominator D linear in an exponential E is handled through R = 1/D (E = (1/R - D0)/D1) to
    keep the terms small"""
    if phi.d is P1:
        for _ in range(k):
            phi = tdiff(phi, sa)
        return phi
    D = T(phi.d)
    Es = [i for i in D.atoms() if atom(i).name == "exp"]
    if len(Es) == 1:
        c1 = lincoeff(D, Es[0])
        if c1 is not None and c1.n and c1.const() is not None:
            D0 = D - c1 * t(atom(Es[0]))
            if D0.const() is not None:
                R = fresh("R", "Real")
                ra = single_atom(R).id
                back = (t(1) / R - D0) / c1
                dR = -R * R * subst(tdiff(D, sa), {Es[0]: back})
                q = subst(T(phi.n), {Es[0]: back}) * R
                if q.d is P1:
                    for _ in range(k):
                        q = tdiff(q, sa) + tdiff(q, ra) * dR
                        if q.d is not P1:
                            break
                    else:
                        return inR(q, ra, D)
    for _ in range(k):
        phi = tdiff(phi, sa)
    return phi


def inR(q, ra, D):
    """polynomial q in R = 1/D as one fraction over a power of D"""
    cs = {}
    for m, c in q.n.items():
        e = dict(m).get(ra, 0)
        r = tuple((a, x) for a, x in m if a != ra)
        cs.setdefault(e, {})[r] = c
    K = max(cs)
    num = t(0)
    for e, p in cs.items():
        num = num + T(p) * D ** (K - e)
    return num / D ** K


class Opaque:
    """an arbitrary function"""

    def __init__(self, name):
        self.name = name

    def call(self, py, args, kw):
        raise Unsupported("value of an arbitrary function")


def egrad_contract(py, args, kw):
    """egrad(g, j=0): derivative with respect to argument j"""
    g = args[0]
    j = kw.get("j", args[1] if len(args) > 1 else t(0))
    if isinstance(j, T):
        j = j.iconst()
    if j is None:
        raise Unsupported("egrad argument number")
    base, o = (g.f, dict(g.orders)) if isinstance(g, Deriv) else (g, {})
    o[j] = o.get(j, t(0)) + 1
    return Deriv(base, o)


def isfn(v):
    return isinstance(v, (Func, Deriv, Opaque, Method))


class RecFn:
    """contract of a self-recursive helper over functions: returns its function argument differentiated goal - cur more times with
    respect to one argument; cur/goal integer arguments; measure goal - cur.  The helper's body is verified for an arbitrary function."""

    def __init__(self, ctx):
        self.ctx, self.measure, self.verified = ctx, None, {}

    def __call__(self, py, f, args, kw):
        ctx = self.ctx
        if not selfrec(f):
            return NotImplemented
        b = py.bindargs(f, args, kw)
        fs = [k for k, v in b.items() if isfn(v)]
        nums = [k for k, v in b.items() if isinstance(v, T)]
        if len(fs) != 1 or not nums or len(fs) + len(nums) != len(b):
            return NotImplemented
        if self.measure is not None and self.measure[0] is f.node:
            fk, c, g, ak, rem = self.measure[3]
        elif (f.node, tuple(str(b[k]) for k in nums if b[k].iconst() is not None)) in self.verified:
            fk, c, g, ak, rem = self.verified[(f.node, tuple(str(b[k]) for k in nums if b[k].iconst() is not None))]
        else:
            found = None
            for c in nums:
                for g in [x for x in nums if x != c] + [None]:
                    for ak in [None] + [x for x in nums if x not in (c, g)]:
                        roles = (fs[0], c, g, ak, g is None)
                        cnt = b[c] if g is None else b[g] - b[c]
                        if ctx.known(Ge(cnt, 0)) is not True or (ak and b[ak].iconst() is None):
                            continue
                        if self.verify(py, f, b, roles, True):
                            found = roles
                            break
                    if found:
                        break
                if found:
                    break
            if not found:
                raise Unsupported(f"no contract found for {f.qual}")
            self.verified[(f.node, tuple(str(b[k]) for k in nums if b[k].iconst() is not None))] = found
            if not ctx.muted:
                self.verify(py, f, b, found, False)
            fk, c, g, ak, rem = found
        cnt = b[c] if rem else b[g] - b[c]
        if self.measure is not None and self.measure[0] is f.node:
            ctx.oblige(f"{f.qual} measure decreases", And(Lt(cnt, self.measure[1]), Ge(cnt, 0)))
            if g:
                ctx.oblige_eq(f"{f.qual} keeps the asked order", b[g], self.measure[2])
        return self.result(b[fk], t(0) if ak is None else b[ak], cnt)

    def result(self, fn, a, cnt):
        base, o = (fn.f, dict(fn.orders)) if isinstance(fn, Deriv) else (fn, {})
        if a.iconst() is None:
            raise Unsupported("argument number")
        o[a.iconst()] = o.get(a.iconst(), t(0)) + cnt
        return Deriv(base, o)

    def verify(self, py, f, b, roles, muted):
        ctx = self.ctx
        fk, c, g, ak, rem = roles
        save = self.measure
        ok = [True]

        def body():
            b2 = dict(b)
            G = Opaque("g")
            b2[fk] = G
            cv = var("cur")
            ctx.assume(Ge(cv, 0))
            goal = None
            b2[c] = cv
            cnt = cv
            if not rem:
                goal = var("goal")
                b2[g] = goal
                ctx.assume(Le(cv, goal))
                cnt = goal - cv
            self.measure = (f.node, cnt, goal, roles)
            try:
                out = py.invoke(f, [], {}, bound=b2)
            except (Raised, Refuted):
                if not muted:
                    raise
                ok[0] = False
                return
            except Unsupported:
                if not muted:
                    raise
                ok[0] = False
                return
            finally:
                self.measure = save
            want = self.result(G, t(0) if ak is None else b2[ak], cnt)
            good = isinstance(out, (Deriv, Opaque))
            if good:
                base, o = (out.f, out.orders) if isinstance(out, Deriv) else (out, {})
                good = base is G and all(ctx.known(Eq(o.get(k, t(0)), want.orders.get(k, t(0)))) for k in set(o) | set(want.orders))
            if not good:
                ok[0] = False
            if not muted:
                ctx.oblige(f"{f.qual} ensures the function differentiated the asked number of times", TRUE if good else FALSE)
        if muted:
            ctx.muted += 1
        try:
            ctx.explore(body)
        finally:
            if muted:
                ctx.muted -= 1
        return ok[0]


def fs_hint(cls="FS"):
    ctx = mkctx(f"{cls}._Hint")
    m, n, d = var("m"), var("N"), var("d")
    for f in (Ge(m, 1), Ge(n, 1), Ge(d, 0)):
        ctx.assume(f)
    py = mkpy(ctx, ["BF_Py"])
    obj = cls_obj(py, cls)
    ctx.store[("f", "self", "_m")] = m
    z = zpoints(py, n, dtype="z")

    def body():
        py.frames = []
        fr = PyFrame(ctx)
        out = call_method(py, obj, "_Hint", [z, d])
        covered(ctx, "_Hint")
        post_nd(ctx, py, out, n, m, eqspec(ctx, lambda r, j: FOURIER(d, j, X(r))), "ensures F[r,j] = d-th derivative of Fourier function j at z[r]")
        fr.check()
    return run(ctx, body)


def egrad_hook(py):
    for mn in ("tfc.utils", "tfc.utils.TFCUtils"):
        py.libs.setdefault(mn, Ns(mn, {}))
        py.libs[mn] = Ns(mn, dict(py.libs[mn].d, egrad=Builtin("egrad", egrad_contract)))


def elm_hint(cls):
    ctx = mkctx(f"{cls}._Hint")
    m, n, d = var("m"), var("N"), var("d")
    for f in (Ge(m, 1), Ge(n, 1), Ge(d, 0)):
        ctx.assume(f)
    if cls in ("ELMSigmoid", "ELMTanh", "ELMSwish"):
        ctx.assume(Le(d, MAXORD))
    py = mkpy(ctx, ["BF_Py"], AnyContract(RecFn(ctx)))
    egrad_hook(py)
    obj = cls_obj(py, cls)
    ctx.store[("f", "self", "_m")] = m
    ctx.store[("f", "self", "_w")] = new(py, (t(1), m), lambda idx: app("w", idx[1]), "f", "w")
    ctx.store[("f", "self", "_b")] = new(py, (t(1), m), lambda idx: app("b", idx[1]), "f", "b")
    z = zpoints(py, n)

    def spec(got, r, j, what):
        for g, want in elm_spec(cls, d, app("w", j), app("b", j), X(r)):
            if ctx.branch(g):
                ctx.assume(g)
                ctx.oblige_eq(what, got(), want)
                return
        ctx.oblige("order covered", FALSE)

    def body():
        py.frames = []
        fr = PyFrame(ctx)
        out = call_method(py, obj, "_Hint", [z, d])
        covered(ctx, "_Hint")
        post_lazy(ctx, py, out, n, m, spec, "ensures F[r,j] = d-th derivative of the activation at w[j]*z[r]+b[j]")
        fr.check()
    return run(ctx, body)


def post_lazy(ctx, py, M, n, m, spec, what):
    if not isinstance(M, ND) or len(M.shape) != 2:
        ctx.oblige(what + " (a matrix)", FALSE)
    ctx.oblige_eq(what + " (rows)", M.shape[0], n)
    ctx.oblige_eq(what + " (columns)", M.shape[1], m)

    def post():
        r, j = fresh("r"), fresh("j")
        for v, hi in ((r, n), (j, m)):
            ctx.assume(Ge(v, 0))
            ctx.assume(Lt(v, hi))
        spec(lambda: reader(py, M)((r, j)), r, j, what)
    ctx.explore(post)


# ------------------------------------------------------------------ constructor and H of the parent class
def delete_hook(ctx, numC, nCf):
    """np.delete(A, list, axis=1) (assumed contract, list entries distinct and in range): A without the listed columns, order
    kept: column rank(j) is column j of A for every j not listed"""
    def h(py, x, ix, ax):
        if ax != 1 or len(x.shape) != 2:
            raise Unsupported("np.delete")
        L = toarr(py, ix)
        ctx.oblige("np.delete gets a list of column numbers", TRUE if len(L.shape) == 1 else FALSE)
        ctx.oblige_eq("np.delete gets the whole removal list", L.shape[0], numC)

        def pre():
            g = fresh("g")
            ctx.assume(Ge(g, 0))
            ctx.assume(Lt(g, numC))
            ctx.oblige_eq("np.delete gets the removal list", reader(py, L)((g,)), nCf(g))
        ctx.explore(pre)
        rd = reader(py, x)
        m = x.shape[1]

        def fn(idx):
            a = single_atom(idx[1])
            if a is not None and a.kind == "bind" and a.name == "SUM":
                j = a.args[2]
                if idx[1] == rank(j, numC, nCf) and ctx.known(Not(inC(j, numC, nCf))) is True:
                    return rd((idx[0], j))
            if ctx.discover or ctx.shape:
                return app("DEL", *idx)
            raise Unsupported("column of a reduced matrix")
        return new(py, (x.shape[0], m - numC), fn, x.dtype, "del", x.lib)
    return h


NCF = lambda g: app("nC", g, sort="Int")
ZMAP = {"CP": (-1, 1), "LeP": (-1, 1), "FS": None, "ELM": (0, 1), "LaP": "id", "HoPpro": "id", "HoPphy": "id"}


def zdom(cls):
    """(z0, zf) of the family, None for the identity map"""
    k = "ELM" if cls.startswith("ELM") else cls
    z = ZMAP[k]
    if z == "id":
        return None
    return (-pynp.const_pi(), pynp.const_pi()) if z is None else (t(z[0]), t(z[1]))


def basis_H(cls):
    """real constructor, then H with _Hint under its abstract contract"""
    ctx = mkctx(f"{cls}.__init__, BasisFunc.H")
    ctx.functions = [f"{cls}.__init__", "BasisFunc.__init__", "BasisFunc.H", "BasisFunc.c"]
    m, n, d, numC = var("m"), var("N"), var("d"), var("numC")
    x0, xf = var("x0", "Real"), var("xf", "Real")
    for f in (Ge(m, 1), Ge(n, 1), Ge(d, 0), Ge(numC, 0), Le(numC, m), Ne(x0, xf)):
        ctx.assume(f)
    ctx.assume(Eq(rank(m, numC, NCF), m - numC))
    py = mkpy(ctx, ["BF_Py"])
    py.hooks["np.delete"] = delete_hook(ctx, numC, NCF)
    c = py.glob(py.main, cls)
    r0 = py.find(c, "_Hint")
    if r0 is None:
        raise Unsupported("_Hint")

    def hint(py, f, args, kw):
        b = py.bindargs(f, args, kw)
        zz, dd = list(b.values())[1:3]
        ctx.oblige("_Hint gets a column of points", TRUE if isinstance(zz, ND) and len(zz.shape) == 2 and pynp.isone(zz.shape[1]) else FALSE)
        ctx.oblige("_Hint gets a non-negative order", Ge(dd, 0))
        rz = reader(py, zz)
        return new(py, (zz.shape[0], m), lambda idx: BASIS(dd, idx[1], rz((idx[0], t(0)))), zz.dtype, "F")
    py.contracts[r0[1].qual] = hint
    nC = new(py, (numC,), lambda idx: NCF(idx[0]), "i", "nC")
    full = Pred("full")
    zd = zdom(cls)
    cc, o = (t(1), lambda x: x) if zd is None else ((zd[1] - zd[0]) / (xf - x0), lambda x: (x - x0) * ((zd[1] - zd[0]) / (xf - x0)) + zd[0])

    def body():
        py.frames = []
        two = ctx.branch(Pred("column"))
        x = zpoints(py, n, two=two)
        keep = PyFrame(ctx)
        try:
            obj = py.construct(c, [x0, xf, nC, m], {})
        except Raised as e:
            ctx.oblige(f"the constructor returns (raised {e.kind})", FALSE)
        ctx.oblige_eq("ensures c = (zf-z0)/(xf-x0)", py.getattr(obj, "c"), cc)
        fr = PyFrame(ctx)
        isfull = ctx.branch(full)
        short = not isfull and ctx.branch(Pred("defaults"))  # documented defaults: full=False, order 0
        out = call_method(py, obj, "H", [x, d, full] if not short else [x] if ctx.branch(Eq(d, 0)) else [x, d])
        covered(ctx, "H")
        mo = m if isfull else m - numC
        if not isinstance(out, ND) or len(out.shape) != 2:
            ctx.oblige("ensures a matrix", FALSE)
        ctx.oblige_eq("ensures as many rows as points", out.shape[0], n)
        ctx.oblige_eq("ensures as many columns as functions", out.shape[1], mo)

        def post():
            r, j = fresh("r"), fresh("j")
            for v, hi in ((r, n), (j, m)):
                ctx.assume(Ge(v, 0))
                ctx.assume(Lt(v, hi))
            want = BASIS(d, j, o(X(r))) * power(cc, d)
            if isfull or ctx.branch(Eq(numC, 0)):
                ctx.oblige_eq("ensures F[r,.] = c^d * d-th derivative at z(x[r])", reader(py, out)((r, j)), want)
            else:
                ctx.assume(Not(inC(j, numC, NCF)))
                ctx.oblige_eq("ensures F[r,.] = c^d * d-th derivative at z(x[r]) (column rank(j) is function j)", reader(py, out)((r, rank(j, numC, NCF))), want)
        ctx.explore(post)
        fr.check()
        keep.check("frame: the caller's arrays are unchanged")
    return run(ctx, body)


# ------------------------------------------------------------------ weights and biases (1-D and n-D)
def newrow(py, shape, name, dtype="f"):
    """array with entries name(flat index)"""
    st, _ = pynp.strides_for(tuple(t(x) for x in shape))

    def fn(idx):
        i = t(0)
        for x, k in zip(idx, st):
            i = i + x * k
        return app(name, i)
    return new(py, shape, fn, dtype, name)


def elm_state(cls, dims):
    """constructor (fresh draws in range), setters, getters"""
    total, last = [], None
    nd = cls.startswith("n")
    rng = (-1, 1) if nd else (-10, 10)
    for D in dims:
        for what in ("init", "w", "b"):
            for good in ((True,) if what == "init" else (True, False)):
                ctx = mkctx(f"{cls}.{what if what != 'init' else '__init__'}")
                py = mkpy(ctx, ["BF_Py"])
                c = py.glob(py.main, cls)
                m, numC = var("m"), var("numC")
                for f in (Ge(m, 1), Ge(numC, 0), Le(numC, m)):
                    ctx.assume(f)
                nC = new(py, (numC,), lambda idx: NCF(idx[0]), "i", "nC")
                if nd:
                    x0, xf = newrow(py, (t(D),), "x0"), newrow(py, (t(D),), "xf")
                    for i in range(D):
                        ctx.assume(Ne(app("x0", t(i)), app("xf", t(i))))
                else:
                    x0, xf = var("x0", "Real"), var("xf", "Real")
                    ctx.assume(Ne(x0, xf))
                shp = {"w": (t(D), m) if nd else (t(1), m), "b": (t(1), m)}

                def body():
                    py.frames = []
                    try:
                        obj = py.construct(c, [x0, xf, nC, m], {})
                    except Raised as e:
                        ctx.oblige(f"the constructor returns (raised {e.kind})", FALSE)
                    if what == "init":
                        for nm in ("w", "b"):
                            a = py.getattr(obj, nm)
                            ctx.oblige(f"ensures {nm} has its shape", TRUE if isinstance(a, ND) and len(a.shape) == 2 and all(ctx.known(Eq(p, q)) for p, q in zip(a.shape, shp[nm])) else FALSE)

                            def post():
                                i, j = fresh("i"), fresh("j")
                                for v, hi in ((i, shp[nm][0]), (j, m)):
                                    ctx.assume(Ge(v, 0))
                                    ctx.assume(Lt(v, hi))
                                v = reader(py, a)((i, j))
                                units = [x for x in closure_atoms(v) if x.name == "UNIT"]
                                for u in units:      # assumed contract of numpy's generator: draws lie in [0,1)
                                    ctx.assume(Ge(t(u), 0))
                                    ctx.assume(Lt(t(u), 1))
                                ctx.oblige(f"ensures freshly drawn {nm} in [{rng[0]},{rng[1]}]", And(Ge(v, rng[0]), Le(v, rng[1])))
                            ctx.explore(post)
                        wa, ba = py.getattr(obj, "w"), py.getattr(obj, "b")
                        ctx.oblige("ensures w and b are separate arrays", FALSE if wa.aid == ba.aid else TRUE)
                        return
                    old = {nm: (py.getattr(obj, nm), reader(py, py.getattr(obj, nm))) for nm in ("w", "b")}
                    size = m * shp[what][0]
                    if good:
                        flat = ctx.branch(Pred("flat"))
                        a = newrow(py, (size,) if flat else shp[what], "a")
                    else:
                        k = var("k")
                        ctx.assume(Ge(k, 0))
                        ctx.assume(Ne(k, size))
                        a = newrow(py, (k,), "a")
                    fr = PyFrame(ctx)
                    raised = False
                    try:
                        py.setattr(obj, what, a)
                    except Raised as e:
                        raised = True
                    covered(ctx, what)
                    ctx.oblige("ensures the right size is accepted" if good else "ensures a wrong size is refused", TRUE if raised != good else FALSE)
                    for nm in ("w", "b"):
                        v = py.getattr(obj, nm)
                        isnew = good and nm == what
                        ctx.oblige(f"ensures {nm} has its shape after setting {what}", TRUE if isinstance(v, ND) and len(v.shape) == 2 and all(ctx.known(Eq(p, q)) for p, q in zip(v.shape, shp[nm])) else FALSE)

                        def post():
                            i, j = fresh("i"), fresh("j")
                            for q, hi in ((i, shp[nm][0]), (j, m)):
                                ctx.assume(Ge(q, 0))
                                ctx.assume(Lt(q, hi))
                            want = app("a", i * m + j) if isnew else old[nm][1]((i, j))
                            if not nd:
                                want = app("a", j) if isnew else want
                                ctx.assume(Eq(i, 0))
                            ctx.oblige_eq(f"ensures {nm} is {'the array given' if isnew else 'unchanged'}", reader(py, v)((i, j)), want)
                        ctx.explore(post)
                run(ctx, body)
                total += ctx.obls
                last = ctx
                if any(o[1] != "proved" for o in ctx.obls):
                    last.obls = total
                    return last
    last.obls = total
    last.functions = [f"{cls}.__init__", f"{cls}.w", f"{cls}.b"]
    return last


# ------------------------------------------------------------------ n-D random features
def nelm_hint(cls, D):
    ctx = mkctx(f"{cls}._nHint")
    ctx.functions = [f"{cls}._nHint (dimension {D})"]
    m, n = var("m"), var("N")
    ds = [var(f"d{i}") for i in range(D)]
    tot = sum(ds[1:], ds[0])
    for f in (Ge(m, 1), Ge(n, 1)) + tuple(Ge(x, 0) for x in ds):
        ctx.assume(f)
    if cls in ("nELMSigmoid", "nELMTanh", "nELMSwish"):
        ctx.assume(Le(tot, MAXORD))
    py = mkpy(ctx, ["BF_Py"], AnyContract(RecFn(ctx)))
    egrad_hook(py)
    py.hooks["np.where1"] = where1
    obj = cls_obj(py, cls)
    W = lambda i, j: app("w", t(i) * m + j)
    ctx.store[("f", "self", "_m")] = m
    ctx.store[("f", "self", "_dim")] = t(D)
    ctx.store[("f", "self", "_w")] = new(py, (t(D), m), lambda idx: W(idx[0], idx[1]), "f", "w")
    ctx.store[("f", "self", "_b")] = new(py, (t(1), m), lambda idx: app("b", idx[1]), "f", "b")
    ctx.store[("f", "self", "_c")] = new(py, (t(D), t(1)), lambda idx: app("c", idx[0]), "f", "c")
    z = new(py, (n, t(D)), lambda idx: app("x", idx[0], idx[1]), "f", "z")

    def spec(got, r, j, what):
        a = app("b", j)
        w = cc = t(1)
        for i in range(D):
            a = a + W(i, j) * app("x", r, t(i))
            w = w * power(W(i, j), ds[i])
            cc = cc * power(app("c", t(i)), ds[i])
        for g, want in nelm_spec(cls, tot, w, cc, a):
            if ctx.branch(g):
                ctx.assume(g)
                split(ctx, ds, g, tot)
                ctx.oblige_eq(what, got(), want)
                return
        ctx.oblige("order covered", FALSE)

    def body():
        py.frames = []
        d = py.mklist(ds) if ctx.branch(Pred("aslist")) else toarr(py, py.mklist(ds))
        fr = PyFrame(ctx)
        out = call_method(py, obj, "_nHint", [z, d])
        covered(ctx, "_nHint")
        post_lazy(ctx, py, out, n, m, spec, "ensures F[r,j] = partial derivative of the activation at w.z[r]+b[j]")
        fr.check()
    return run(ctx, body)


def split(ctx, ds, g, tot):
    """orders zero or one: decide which"""
    for k in (0, 1):
        if ctx.known(Eq(tot, k)) is True:
            for x in ds:
                for v in range(k + 1):
                    if v == k or ctx.branch(Eq(x, v)):
                        ctx.assume(Eq(x, v))
                        break


def where1(py, c):
    """np.where(mask) of a one-dimensional mask of known length: the indices at which it holds"""
    a = toarr(py, c)
    k = a.shape[0].iconst()
    if len(a.shape) != 1 or k is None:
        raise Unsupported("where")
    rd = reader(py, a)
    out = [t(i) for i in range(k) if py.ctx.branch(py.formula(rd((t(i),))))]
    return (toarr(py, py.mklist(out), "i"),)


def nelm_H(D):
    """real constructor and H of the n-D random-feature bases, _nHint under its abstract contract"""
    cls = "nELMSin"
    ctx = mkctx(f"nELM.__init__, nELM.H")
    ctx.functions = [f"nELM.__init__ (dimension {D})", f"nELM.H (dimension {D})"]
    m, n, numC = var("m"), var("N"), var("numC")
    for f in (Ge(m, 1), Ge(n, 1), Ge(numC, 0), Le(numC, m)):
        ctx.assume(f)
    ctx.assume(Eq(rank(m, numC, NCF), m - numC))
    g = fresh("g")
    solver.INSTANCES[:] = [t(0)]
    ctx.assume(Forall(g, 0, numC, And(Ge(NCF(g), 0), Lt(NCF(g), m))))
    py = mkpy(ctx, ["BF_Py"])
    py.hooks["np.delete"] = delete_hook(ctx, numC, NCF)
    c = py.glob(py.main, cls)
    X0, XF = [app("x0", t(i)) for i in range(D)], [app("xf", t(i)) for i in range(D)]
    for a, b in zip(X0, XF):
        ctx.assume(Ne(a, b))
    ds = [var(f"d{i}") for i in range(D)]
    d = py.mklist(ds)
    XX = lambda i, r: app("xx", i, r)
    NB = lambda r, j: app("NB", r, j)

    def nhint(py, f, args, kw):
        zz, dd = list(py.bindargs(f, args, kw).values())[1:3]
        ctx.oblige("_nHint gets the orders", TRUE if dd is d else FALSE)
        ctx.oblige("_nHint gets one row per point", TRUE if isinstance(zz, ND) and len(zz.shape) == 2 and ctx.known(And(Eq(zz.shape[0], n), Eq(zz.shape[1], D))) else FALSE)

        def pre():
            r = fresh("r")
            ctx.assume(Ge(r, 0))
            ctx.assume(Lt(r, n))
            for i in range(D):
                ctx.oblige_eq("_nHint gets the mapped points", reader(py, zz)((r, t(i))), (XX(t(i), r) - X0[i]) / (XF[i] - X0[i]))
        ctx.explore(pre)
        return new(py, (n, m), lambda idx: NB(*idx), "f", "F")
    py.contracts[py.find(c, "_nHint")[1].qual] = nhint
    nC = new(py, (numC,), lambda idx: NCF(idx[0]), "i", "nC")
    full = Pred("full")

    def body():
        py.frames = []
        col = ctx.branch(Pred("column"))
        sh = (t(D), t(1)) if col else (t(D),)
        x0, xf = newrow(py, sh, "x0"), newrow(py, sh, "xf")
        x = new(py, (t(D), n), lambda idx: XX(*idx), "f", "x")
        keep = PyFrame(ctx)
        try:
            obj = py.construct(c, [x0, xf, nC, m], {})
        except Raised as e:
            ctx.oblige(f"the constructor returns (raised {e.kind})", FALSE)
        cc = py.getattr(obj, "c")
        for i in range(D):
            ctx.oblige_eq("ensures c = 1/(xf-x0)", reader(py, cc)((t(i), t(0))), 1 / (XF[i] - X0[i]))
        ctx.oblige_eq("ensures numBasisFunc = m - numC", py.getattr(obj, "numBasisFunc"), m - numC)
        ctx.oblige_eq("ensures numBasisFuncFull = m", py.getattr(obj, "numBasisFuncFull"), m)
        fr = PyFrame(ctx)
        isfull = ctx.branch(full)
        short = not isfull and ctx.branch(Pred("defaults"))  # documented defaults: full=False, order 0
        out = call_method(py, obj, "H", [x, d, full] if not short else [x, d])
        covered(ctx, "H")
        mo = m if isfull else m - numC
        if not isinstance(out, ND) or len(out.shape) != 2:
            ctx.oblige("ensures a matrix", FALSE)
        ctx.oblige_eq("ensures as many rows as points", out.shape[0], n)
        ctx.oblige_eq("ensures as many columns as functions", out.shape[1], mo)

        def post():
            r, j = fresh("r"), fresh("j")
            for v, hi in ((r, n), (j, m)):
                ctx.assume(Ge(v, 0))
                ctx.assume(Lt(v, hi))
            if isfull or ctx.branch(Eq(numC, 0)):
                ctx.oblige_eq("ensures F = the matrix of _nHint", reader(py, out)((r, j)), NB(r, j))
            else:
                ctx.assume(Not(inC(j, numC, NCF)))
                ctx.oblige_eq("ensures F = the matrix of _nHint (column rank(j) is function j)", reader(py, out)((r, rank(j, numC, NCF))), NB(r, j))
        ctx.explore(post)
        fr.check()
        keep.check("frame: the caller's arrays are unchanged")
    return run(ctx, body)


# ---------------------------------------------------------------- tensor-product (n-D) bases, for a fixed number of dimensions
def tp_obj(py, ctx, D, cls="nCP"):
    m, numC = var("m"), var("numC")
    for f in (Ge(m, 1), Ge(numC, 0)):
        ctx.assume(f)
    return m, numC


def tp_nC(py, D, numC):
    return new(py, (t(D), numC), lambda idx: app("nC", idx[0] * numC + idx[1], sort="Int"), "i", "nC")


def tp_vec(py, D, L, m, dtype):
    """index vector: entries above L are the enclosing loops' counters, the others arbitrary"""
    ctx = py.ctx
    pre = tuple(var(f"p{j}") for j in range(L + 1, D))
    for p in pre:
        ctx.assume(Ge(p, 0))
        ctx.assume(Lt(p, m))
    tbl = dict(zip(range(L + 1, D), pre))

    def val(idx):
        j = idx[0].iconst() if isinstance(idx[0], T) else idx[0]
        if j is None:
            raise Unsupported("index vector at a symbolic position")
        return tbl.get(j, app(f"junk{j}", sort="Int"))
    return new(py, (t(D), t(1)), val, dtype, "vec"), pre


def tp_prefix(py, vec, D, L, m, who):
    ctx, out = py.ctx, []
    if not isinstance(vec, ND) or len(vec.shape) != 2 or ctx.known(And(Eq(vec.shape[0], D), Eq(vec.shape[1], 1))) is not True:
        raise Unsupported("index vector")
    for j in range(L + 1, D):
        p = reader(py, vec)((t(j), t(0)))
        if not isinstance(p, T):
            raise Unsupported("index vector")
        ctx.oblige(f"{who} the outer indices to be in range", And(Ge(p, 0), Lt(p, m)))
        out.append(p)
    return tuple(out)


def tp_forget(py, vec, k):
    for j in range(k + 1):
        pynp.nd_setitem(py, vec, (t(j), t(0)), app("junk", fresh("q"), sort="Int"))


def pnum_contract(D, m, numC, top=None):
    """_NumBasisFunc(L, vec, n, full) returns n + the number of accepted multi-indices extending vec[L+1..]"""
    def c(py, f, args, kw):
        ctx = py.ctx
        b = list(py.bindargs(f, args, kw).values())
        if len(b) != 5:
            raise Unsupported("_NumBasisFunc arguments")
        obj, L, vec, n0, full = b
        k = t(L).iconst() if isinstance(L, (int, T)) else None
        if k is None:
            raise Unsupported("_NumBasisFunc arguments")
        ctx.oblige("_NumBasisFunc requires 0 <= dim < number of dimensions", TRUE if 0 <= k < D else FALSE)
        if top is not None:
            ctx.oblige("_NumBasisFunc measure dim decreases", TRUE if k < top else FALSE)
        pre = tp_prefix(py, vec, D, k, m, "_NumBasisFunc requires")
        isfull = py.truth(full)
        r = py.num(n0) + total(pre, D, m, numC, isfull)
        tp_forget(py, vec, k)
        return r
    return c


def ntp_num(D):
    D = int(D)
    obls = []
    for L in range(D):
        ctx = mkctx("nBasisFunc._NumBasisFunc")
        ctx.functions = [f"nBasisFunc._NumBasisFunc (dimension {D})"]
        m, numC = tp_obj(None, ctx, D)
        py = mkpy(ctx, ["BF_Py"])
        c = py.glob(py.main, "nCP")
        fn = py.find(c, "_NumBasisFunc")
        if fn is None:
            raise Unsupported("_NumBasisFunc absent")
        fn = fn[1]
        py.contracts[fn.qual] = pnum_contract(D, m, numC, L)
        c0 = var("c0")

        def body():
            py.frames = []
            obj = Inst(c, "self")
            for k, v in (("_m", m), ("_numC", numC), ("_dim", t(D)), ("_nC", tp_nC(py, D, numC))):
                ctx.store[("f", obj.id, k)] = v
            isfull = ctx.branch(Pred("full"))
            for dtype in ("f",):
                vec, pre = tp_vec(py, D, L, m, dtype)
                r = py.invoke(fn, [obj, t(L), vec, c0, Pred("full")], {})
                covered(ctx, "_NumBasisFunc")
                ctx.oblige_eq(f"ensures the number of basis functions is added (level {L} of {D})", py.num(r), c0 + total(pre, D, m, numC, isfull))
                tp_prefix(py, vec, D, L, m, "_NumBasisFunc keeps")
        run(ctx, body)
        obls += ctx.obls
    ctx.obls = obls
    return ctx


def prec_contract(D, m, numC, n, tv, state):
    """the local recursive helper of H: Recurse(L, out, vec, n, full) fills columns n+rank(a) of out and returns (out, n + number of functions).
    The outermost call first verifies the helper's body for every level against this contract (in the closure H built)."""
    def c(py, f, args, kw):
        if not isinstance(f, Func) or not f.scope or not selfrec(f):
            return NotImplemented
        ctx = py.ctx
        b = list(py.bindargs(f, args, kw).values())
        if len(b) != 5:
            raise Unsupported("arguments of the recursive helper")
        L, out, vec, n0, full = b
        k = t(L).iconst() if isinstance(L, (int, T)) else None
        if k is None or not isinstance(out, ND) or not isinstance(vec, ND) or len(out.shape) != 2:
            raise Unsupported("arguments of the recursive helper")
        n0 = py.num(n0)
        ctx.oblige("Recurse requires 0 <= dim < number of dimensions", TRUE if 0 <= k < D else FALSE)
        if state["level"] is not None:
            ctx.oblige("Recurse measure dim decreases", TRUE if k < state["level"] else FALSE)
        pre = tp_prefix(py, vec, D, k, m, "Recurse requires")
        isfull = py.truth(full)
        tot = total(pre, D, m, numC, isfull)
        nb = out.shape[1]
        ctx.oblige("Recurse requires room for the functions it adds", And(Ge(n0, 0), Le(n0 + tot, nb)))
        ctx.oblige("Recurse requires one row per point", TRUE if ctx.known(Eq(out.shape[0], n)) is True else FALSE)
        ctx.oblige("Recurse requires an array of real values", TRUE if out.dtype in "fz" and vec.dtype == "i" else FALSE)
        if state["level"] is None and not ctx.muted:
            for lev in range(k + 1):
                ctx.explore(lambda: verify(py, f, lev, isfull, full))
        h = fresh("h")
        us = tuple(fresh("u") for _ in range(k + 1))
        a = us + pre
        ctx.addlayer(out.aid, Layer(((single_atom(h).id, n),) + tuple((single_atom(u).id, m) for u in us), accepted(a, m, numC, isfull), out.off + h * out.strides[0] + (n0 + trank(a, k, D, m, numC, isfull)) * out.strides[1], tprod(tv, a, h), ("counter", single_atom(us[-1]).id)))     # rank is injective on the accepted multi-indices
        tp_forget(py, vec, k)
        return (out, n0 + tot)

    def verify(py, f, L, isfull, full):
        ctx = py.ctx
        state["level"] = L
        try:
            c0, nb = var("c0"), var("nb")
            vec, pre = tp_vec(py, D, L, m, "i")
            tot = total(pre, D, m, numC, isfull)
            for q in (Ge(c0, 0), Ge(nb, 0), Le(c0 + tot, nb)):
                ctx.assume(q)
            ctx.add_stride(nb)
            out = new(py, (n, nb), lambda idx: app("out0", *idx), "f", "out")
            fr = PyFrame(ctx)
            lev = f"(level {L} of {D})"
            r = py.invoke(f, [t(L), out, vec, c0, full], {})
            if not isinstance(r, tuple) or len(r) != 2 or not isinstance(r[0], ND):
                raise Unsupported("result of the recursive helper")
            ctx.oblige_eq(f"Recurse ensures the count grows by the number of functions {lev}", py.num(r[1]), c0 + tot)
            tp_prefix(py, vec, D, L, m, "Recurse keeps")
            o2 = r[0]
            ctx.oblige("Recurse ensures the given array is returned", TRUE if o2.aid == out.aid and o2.off == out.off and o2.shape == out.shape and o2.strides == out.strides else FALSE)

            def post():
                h = fresh("r")
                us = tuple(fresh("a") for _ in range(L + 1))
                for v, hi in ((h, n),) + tuple((u, m) for u in us):
                    ctx.assume(Ge(v, 0))
                    ctx.assume(Lt(v, hi))
                a = us + pre
                ctx.assume(accepted(a, m, numC, isfull))
                ctx.oblige_eq(f"Recurse ensures out[r, rank(a)] = product of univariate functions {lev}", reader(py, out)((h, c0 + trank(a, L, D, m, numC, isfull))), tprod(tv, a, h))
            ctx.explore(post)
            bad = [fr.heap[i].name for i in fr.heap if i not in (out.aid, vec.aid) and ctx.heap[i].layers != fr.heap[i].layers]
            ctx.oblige(f"Recurse frame: only out and vec are written {lev}", FALSE if bad else TRUE)
        finally:
            state["level"] = None
    return c


def ntp_H(cls, D):
    """real constructor and H of the tensor-product bases: _Hint under its abstract contract, _NumBasisFunc under its contract"""
    D = int(D)
    ctx = mkctx("nBasisFunc.__init__, nBasisFunc.H")
    ctx.functions = [f"{cls}.__init__ (dimension {D})", f"nBasisFunc.__init__ (dimension {D})", f"nBasisFunc.H, Recurse, MultT (dimension {D})"]
    m, numC = tp_obj(None, ctx, D)
    n = var("N")
    ctx.assume(Ge(n, 0))
    state = {"level": None}
    X0, XF = [app("x0", t(i)) for i in range(D)], [app("xf", t(i)) for i in range(D)]
    for a, b in zip(X0, XF):
        ctx.assume(Ne(a, b))
    ds = [var(f"d{i}") for i in range(D)]
    for q in ds:
        ctx.assume(Ge(q, 0))
    lo, hi = zdom(cls[1:])
    C = [(hi - lo) / (XF[i] - X0[i]) for i in range(D)]
    XX = lambda i, r: app("xx", i, r)

    def tv(l, k, h):
        i = l.iconst()
        z = (XX(t(i), h) - X0[i]) * C[i] + lo
        return BASIS(ds[i], k, z) * power(C[i], ds[i])
    py = mkpy(ctx, ["BF_Py"])
    c = py.glob(py.main, cls)
    d = py.mklist(ds)
    prec = prec_contract(D, m, numC, n, tv, state)
    num = py.find(c, "_NumBasisFunc")[1]
    nC = tp_nC(py, D, numC)

    def numc(py, f, args, kw):
        obj = py.bindargs(f, args, kw)
        obj = list(obj.values())[0]
        ctx.oblige("_NumBasisFunc requires the object's sizes", TRUE if ctx.store.get(("f", obj.id, "_nC")) is nC and ctx.known(And(Eq(ctx.store[("f", obj.id, "_m")], m))) is True else FALSE)
        return pnum_contract(D, m, numC)(py, f, args, kw)

    def hint(py, f, args, kw):
        obj, zz, dd = list(py.bindargs(f, args, kw).values())[:3]
        if not isinstance(zz, ND):
            raise Unsupported("points")
        rows = zz.shape[0]
        cols = zz.shape[1] if len(zz.shape) > 1 else t(1)
        ctx.oblige("_Hint gets one column of points", TRUE if ctx.known(Eq(cols, 1)) is True else FALSE)
        rd = reader(py, zz)
        dd = py.num(dd)
        two = len(zz.shape) > 1
        return new(py, (rows, m), lambda idx: BASIS(dd, idx[1], rd((idx[0], t(0)) if two else (idx[0],))), "f", "F")
    py.contracts = AnyContract(prec, {num.qual: numc, py.find(c, "_Hint")[1].qual: hint})
    full = Pred("full")

    def body():
        py.frames = []
        state["level"] = None
        col = ctx.branch(Pred("column"))
        sh = (t(D), t(1)) if col else (t(D),)
        x0, xf = newrow(py, sh, "x0"), newrow(py, sh, "xf")
        x = new(py, (t(D), n), lambda idx: XX(*idx), "f", "x")
        keep = PyFrame(ctx)
        try:
            obj = py.construct(c, [x0, xf, nC, m], {})
        except Raised as e:
            ctx.oblige(f"the constructor returns (raised {e.kind})", FALSE)
        cc = py.getattr(obj, "c")
        for i in range(D):
            ctx.oblige_eq("ensures c maps [x0,xf] onto the domain", reader(py, cc)((t(i), t(0))), C[i])
        ctx.oblige_eq("ensures numBasisFunc = number of functions kept", py.getattr(obj, "numBasisFunc"), total((), D, m, numC, False))
        ctx.oblige_eq("ensures numBasisFuncFull = number of functions", py.getattr(obj, "numBasisFuncFull"), total((), D, m, numC, True))
        fr = PyFrame(ctx)
        isfull = ctx.branch(full)
        out = call_method(py, obj, "H", [x, d] if not isfull and ctx.branch(Pred("defaults")) else [x, d, full])
        covered(ctx, "H")
        if not isinstance(out, ND) or len(out.shape) != 2:
            ctx.oblige("ensures a matrix", FALSE)
        ctx.oblige_eq("ensures as many rows as points", out.shape[0], n)
        ctx.oblige_eq("ensures as many columns as functions", out.shape[1], total((), D, m, numC, isfull))

        def post():
            r = fresh("r")
            a = tuple(fresh("a") for _ in range(D))
            for v, hi in ((r, n),) + tuple((u, m) for u in a):
                ctx.assume(Ge(v, 0))
                ctx.assume(Lt(v, hi))
            ctx.assume(accepted(a, m, numC, isfull))
            ctx.oblige_eq(f"ensures F[r, rank(a)] = product of scaled univariate derivatives ({D} dimensions)", reader(py, out)((r, trank(a, D - 1, D, m, numC, isfull))), tprod(tv, a, r))
        ctx.explore(post)
        fr.check()
        keep.check("frame: the caller's arrays are unchanged")
    return run(ctx, body)


def entry(fn, args):
    return globals()[fn](*args)


if __name__ == "__main__":
    sys.setrecursionlimit(20000)
    from collections import Counter
    t0 = time.time()
    fn, _, arg = sys.argv[1].partition(":")
    ctx = globals()[fn](*(eval(a) if a[0] in "[0123456789" else a for a in (arg.split("/") if arg else [])))
    print(sys.argv[1], Counter(x[1] for x in ctx.obls), round(time.time() - t0, 1), solver.STATS)
    for x in ctx.obls:
        if x[1] != "proved" or "-v" in sys.argv:
            print("   ", x)
