"""Contracts on the C++ basis-function library (src/tfc/utils/BF.cc, BF.h)."""
import sys, time
from fractions import Fraction
from cxx import *
from specs import *
from loops import Vocab

BUDGET = float(__import__("os").environ.get("BUDGET", 240))


class Job:
    """one function under contract"""

    def __init__(self, label, fn):
        self.label, self.fn = label, fn


def mkctx(label, budget=BUDGET):
    c = Ctx(label)
    c.deadline = time.time() + budget
    return c


def ids(*ts):
    return [single_atom(x).id for x in ts]


def at_all(ctx, arr, stride, ranges, addr, spec, what):
    """for all index variables in range: arr[addr] == spec (run inside explore)"""
    for v, hi in ranges:
        ctx.assume(Ge(v, 0))
        ctx.assume(Lt(v, hi))
    got = ctx.read(arr, addr)
    ctx.oblige_eq(what, got, spec)


def deref(fe, a):
    return fe.load(a.lv) if isinstance(a, Ref) else a


def matrix_layer(arr, off, stride, rows, cols, fn):
    r, j = fresh("r"), fresh("j")
    (ra, ja) = ids(r, j)
    return Layer(((ra, rows), (ja, cols)), TRUE, off + stride * r + j, fn(r, j))


def run(ctx, body):
    """explore body, catching refutations per run (the first failing obligation is recorded)"""
    try:
        ctx.explore(body)
    except Refuted:
        pass
    return ctx


class Frame:
    """frame condition of a call: fields and arrays outside `writes` are untouched, every block allocated during the
    call was released except the ones handed to the caller"""

    def __init__(self, ctx):
        self.ctx, self.heap, self.store = ctx, dict(ctx.heap), dict(ctx.store)

    def check(self, writes=(), keep=()):
        ctx = self.ctx
        bad = [k for k, v in self.store.items() if isinstance(k, tuple) and k and k[0] == "f" and not same(ctx.store.get(k), v)]
        bad += [self.heap[a].name for a in self.heap if a not in writes and a in ctx.heap and ctx.heap[a].layers != self.heap[a].layers]
        ctx.oblige("frame: the object and the inputs are unchanged", FALSE if bad else TRUE)
        gone = [a for a in self.heap if a not in ctx.heap]
        ctx.oblige("free: nothing owned by the caller or the object is released", FALSE if gone else TRUE)
        left = [a for a in ctx.heap if a not in self.heap and a not in keep]
        ctx.oblige("temporaries released at return", FALSE if left else TRUE)


def same(a, b):
    if isinstance(a, T) and isinstance(b, T):
        return teq(a, b)
    return a is b or a == b


def covered(ctx, what):
    """vacuity guard: the path condition reaching a postcondition is satisfiable"""
    if check(ctx.pc) == "unsat":
        raise Infeasible()


# ------------------------------------------------------------------ Hint of each 1-D family
def hint_env(ctx, fe, cls):
    obj = Obj("this", cls)
    m, d, n = var("m"), var("d"), var("nOut")
    ctx.store[fe.field(obj, "BasisFunc::m")] = m
    for f in (Ge(m, 1), Ge(d, 0), Ge(n, 0)):
        ctx.assume(f)
    x = Ptr(ctx.new_array(n, lambda i: app("x", i), "x"))
    dark = Ptr(ctx.new_array(n * m, None, "dark"))
    return obj, m, d, n, x, dark


def X(i):
    return app("x", i)


def rd_contract(P):
    def c(fe, obj, args):
        ctx = fe.ctx
        d, dc, x, n, F_, mo = [deref(fe, a) for a in args]
        m = ctx.store[fe.field(obj, "BasisFunc::m")]
        if not (isinstance(F_, Ptr) and isinstance(x, Ptr)):
            raise Unsupported("RecurseDeriv arguments")
        ctx.oblige("RecurseDeriv requires 0<=dCurr<=d", And(Ge(dc, 0), Le(dc, d)))
        ctx.oblige("RecurseDeriv requires mOut==m>=2", And(Eq(mo, m), Ge(m, 2)))
        if getattr(fe, "measure", None) is not None:
            ctx.oblige("RecurseDeriv measure d-dCurr decreases", Gt(dc, fe.measure))
        if not ctx.muted:
            def pre():
                r, j = fresh("r"), fresh("j")
                at_all(ctx, F_, m, ((r, n), (j, m)), m * r + j, P(dc, j, ctx_x(ctx, x, r)), "RecurseDeriv requires F = P(dCurr)")
            ctx.explore(pre)
        ctx.addlayer(F_.arr, matrix_layer(F_, F_.off, m, n, m, lambda r, j: P(d, j, ctx_x(ctx, x, r))))
        return None
    return c


def ctx_x(ctx, x, r):
    """content of the (input) point array at r"""
    arr = ctx.heap[x.arr]
    if arr.layers or arr.base is None:
        raise Unsupported("point array is not an input")
    return arr.base(x.off + r)


def post_matrix(ctx, arr, n, m, spec, what):
    def post():
        r, j = fresh("r"), fresh("j")
        at_all(ctx, arr, m, ((r, n), (j, m)), m * r + j, spec(r, j), what)
    ctx.explore(post)


def poly_hint(prog, cls):
    P = poly(cls)
    ctx = mkctx(f"{cls}::Hint")
    fe = Cxx(ctx, prog, {"RecurseDeriv": rd_contract(P)})
    obj, m, d, n, x, dark = hint_env(ctx, fe, cls)
    ctx.vocab = [Vocab("P", m, n, m, lambda e, r, k: P(e, k, X(r)))]

    def body():
        fe.frames = []
        fr = Frame(ctx)
        fe.call_method(obj, "Hint", [d, x, n, dark])
        covered(ctx, "Hint")
        post_matrix(ctx, dark, n, m, lambda r, j: P(d, j, X(r)), "ensures dark[r,j] = d-th derivative of polynomial j at x[r]")
        fr.check([dark.arr])
    return run(ctx, body)


def poly_rd(prog, cls):
    P = poly(cls)
    r0 = prog.resolve(cls, "RecurseDeriv")
    if r0 is None or len(prog.params(r0[1])) != 6:
        raise Unsupported("RecurseDeriv absent")
    ctx = mkctx(f"{cls}::RecurseDeriv")
    fe = Cxx(ctx, prog, {"RecurseDeriv": rd_contract(P)})
    obj, m, d, n, x, F_ = hint_env(ctx, fe, cls)
    dc = var("dCurr")
    for f in (Ge(dc, 0), Le(dc, d), Ge(m, 2)):
        ctx.assume(f)
    fe.measure = dc
    ctx.prefer = lambda: [dc + 1, dc]
    ctx.store[("x", "F")] = F_
    ctx.addlayer(F_.arr, matrix_layer(F_, t(0), m, n, m, lambda r, j: P(dc, j, X(r))))
    ctx.vocab = [Vocab("P", m, n, m, lambda e, r, k: P(e, k, X(r)))]

    def body():
        fe.frames = []
        fr = Frame(ctx)
        fe.invoke(r0[0], r0[1], obj, [d, dc, x, n, Ref(("loc", ("x", "F"))), m])
        covered(ctx, "RecurseDeriv")
        post_matrix(ctx, ctx.store[("x", "F")], n, m, lambda r, j: P(d, j, X(r)), "ensures F = P(d)")
        fr.check([F_.arr])
    return run(ctx, body)


def fs_hint(prog, cls="FS"):
    ctx = mkctx(f"{cls}::Hint")
    fe = Cxx(ctx, prog, {})
    obj, m, d, n, x, dark = hint_env(ctx, fe, cls)

    def body():
        fe.frames = []
        fr = Frame(ctx)
        fe.call_method(obj, "Hint", [d, x, n, dark])
        covered(ctx, "Hint")
        post_matrix(ctx, dark, n, m, lambda r, j: FOURIER(d, j, X(r)), "ensures dark[r,j] = d-th derivative of Fourier function j at x[r]")
        fr.check([dark.arr])
    return run(ctx, body)


# ------------------------------------------------------------------ 1-D ELM
def elm_spec(cls, d, w, b, x):
    """list of (guard on d, value)"""
    a = w * x + b
    kind = cls.replace("n", "", 1) if cls.startswith("nELM") else cls
    out = []
    if kind == "ELMReLU":
        return [(Eq(d, 0), ite(Lt(0, a), a, 0)), (Eq(d, 1), ite(Le(a, 0), 0, w)), (Ge(d, 2), t(0))]
    if kind == "ELMSin":
        for r in range(4):
            out.append((Eq(simp_mod(d, t(4)), r), power(w, d) * [msin(a), mcos(a), -msin(a), -mcos(a)][r]))
        return out
    fn = {"ELMSigmoid": sigmoid_d, "ELMTanh": tanh_d, "ELMSwish": swish_d}[kind]
    for k in range(9):
        out.append((Eq(d, k), w ** k * fn(k, a)))
    return out


def elm_hint(prog, cls):
    ctx = mkctx(f"{cls}::Hint")
    fe = Cxx(ctx, prog, {})
    obj, m, d, n, x, dark = hint_env(ctx, fe, cls)
    if cls in ("ELMSigmoid", "ELMTanh", "ELMSwish"):
        ctx.assume(Le(d, 8))
    ctx.store[fe.field(obj, "ELM::w")] = Ptr(ctx.new_array(m, lambda i: app("w", i), "w"))
    ctx.store[fe.field(obj, "ELM::b")] = Ptr(ctx.new_array(m, lambda i: app("b", i), "b"))

    def body():
        fe.frames = []
        fr = Frame(ctx)
        fe.call_method(obj, "Hint", [d, x, n, dark])
        covered(ctx, "Hint")

        def post():
            r, j = fresh("r"), fresh("j")
            for v, hi in ((r, n), (j, m)):
                ctx.assume(Ge(v, 0))
                ctx.assume(Lt(v, hi))
            got = ctx.read(dark, m * r + j)
            for g, want in elm_spec(cls, d, app("w", j), app("b", j), X(r)):
                if ctx.branch(g):
                    ctx.oblige_eq("ensures dark[r,j] = d-th derivative of the activation at w[j]*x[r]+b[j]", got, want)
                    return
            ctx.oblige("order covered", FALSE)
        ctx.explore(post)
        fr.check([dark.arr])
    return run(ctx, body)


# ------------------------------------------------------------------ n-D ELM
def nelm_spec(cls, D, W, Cc, a):
    """list of (guard on the total order D, value): W = prod w^d, Cc = prod c^d, a the activation's argument
    (lemma zero_order: orders are non-negative and sum to 0 => every power in W and Cc is 1)"""
    kind = cls[1:]
    s = W * Cc
    if kind == "ELMReLU":
        return [(Eq(D, 0), ite(Lt(0, a), a, 0)), (Eq(D, 1), ite(Le(a, 0), 0, 1) * s), (Ge(D, 2), t(0))]
    if kind == "ELMSin":
        return [(Eq(simp_mod(D, t(4)), r), s * [msin(a), mcos(a), -msin(a), -mcos(a)][r]) for r in range(4)]
    fn = {"ELMSigmoid": sigmoid_d, "ELMTanh": tanh_d, "ELMSwish": swish_d}[kind]
    return [(Eq(D, k), s * fn(k, a)) for k in range(9)]


def nd_env(ctx, fe, cls, dd=None):
    obj = Obj("this", cls)
    m, dim, n = var("m"), var("dim"), var("n")
    dd = var("dDim0") if dd is None else t(dd)
    for f in (Ge(m, 1), Ge(dim, 1), Ge(n, 0), Ge(dd, 0), Le(dd, dim)):
        ctx.assume(f)
    ctx.store[fe.field(obj, "BasisFunc::m")] = m
    ctx.store[fe.field(obj, "nBasisFunc::dim")] = dim
    ctx.store[fe.field(obj, "nBasisFunc::c")] = Ptr(ctx.new_array(dim, lambda i: app("c", i), "c"))
    d = Ptr(ctx.new_array(dd, lambda i: app("d", i, sort="Int"), "d", "Int"))
    return obj, m, dim, n, dd, d


def dsum(dd):
    u = fresh("u")
    return binder("SUM", u, 0, dd, app("d", u, sort="Int"))


def dprod(dd, base):
    u = fresh("u")
    return binder("PROD", u, 0, dd, power(base(u), app("d", u, sort="Int")))


def nelm_hint(prog, cls):
    """no orders given (dDim0 = 0) and one or more orders given"""
    if cls == "nELMReLU":
        return nrelu_hint(prog, cls)
    c0 = nelm_hint_dd(prog, cls, 0)
    if any(o[1] != "proved" for o in c0.obls):
        return c0
    c1 = nelm_hint_dd(prog, cls, None)
    c1.obls = c0.obls + c1.obls
    return c1


def nelm_hint_dd(prog, cls, dd0):
    ctx = mkctx(f"{cls}::nElmHint")
    fe = Cxx(ctx, prog, {})
    obj, m, dim, n, dd, d = nd_env(ctx, fe, cls, dd0)
    if dd0 is None:
        ctx.assume(Ge(dd, 1))
    ctx.store[fe.field(obj, "nELM::w")] = Ptr(ctx.new_array(m * dim, lambda i: app("w", i), "w"))
    ctx.store[fe.field(obj, "nELM::b")] = Ptr(ctx.new_array(m, lambda i: app("b", i), "b"))
    x = Ptr(ctx.new_array(n * dim, lambda i: app("x", i), "x"))
    dark = Ptr(ctx.new_array(n * m, None, "F"))
    D = dsum(dd)
    ctx.assume(Ge(D, 0))
    u = fresh("u")
    ctx.assume(Forall(u, 0, dd, Ge(app("d", u, sort="Int"), 0)))
    if cls in ("nELMSigmoid", "nELMTanh", "nELMSwish"):
        ctx.assume(Le(D, 8))

    def body():
        fe.frames = []
        fr = Frame(ctx)
        fe.call_method(obj, "nElmHint", [d, dd, x, n, dark])
        covered(ctx, "nElmHint")

        def post():
            r, j, u = fresh("r"), fresh("j"), fresh("u")
            for v, hi in ((r, n), (j, m)):
                ctx.assume(Ge(v, 0))
                ctx.assume(Lt(v, hi))
            got = ctx.read(dark, m * r + j)
            a = binder("SUM", u, 0, dim, app("w", u * m + j) * app("x", u * n + r)) + app("b", j)
            W, Cc = dprod(dd, lambda i: app("w", i * m + j)), dprod(dd, lambda i: app("c", i))
            ctx.branch(Eq(D, 0))
            for g, want in nelm_spec(cls, D, W, Cc, a):
                if ctx.branch(g):
                    if ctx.known(Eq(D, 0)):
                        for q in (W, Cc):
                            ctx.assume(Eq(q, 1))
                    ctx.oblige_eq("ensures F[r,j] = partial derivative of the activation at w.z[r]+b[j]", got, want)
                    return
            ctx.oblige("order covered", FALSE)
        ctx.explore(post)
        fr.check([dark.arr])
    return run(ctx, body)


def nrelu_hint(prog, cls="nELMReLU"):
    """the rectifier: the four cases of the order vector (all zero; a single one; an entry >= 2; two ones) are exhaustive"""
    total = None
    p, q = var("p"), var("q")
    E = lambda i: app("e", i, sort="Int")
    for case in ("none", "zero", "one", "high", "two"):
        ctx = mkctx(f"{cls}::nElmHint")
        fe = Cxx(ctx, prog, {})
        obj, m, dim, n, dd, d = nd_env(ctx, fe, cls, 0 if case == "none" else None)
        base = {"none": lambda i: E(i), "zero": lambda i: t(0), "one": lambda i: ite(Eq(i, p), 1, 0),
                "high": lambda i: ite(Eq(i, p), var("k"), E(i)), "two": lambda i: ite(Eq(i, p), 1, ite(Eq(i, q), 1, E(i)))}[case]
        d = Ptr(ctx.new_array(dd, base, "d", "Int"))
        if case in ("one", "high", "two"):
            ctx.assume(Ge(p, 0))
            ctx.assume(Lt(p, dd))
        if case == "high":
            ctx.assume(Ge(var("k"), 2))
        if case == "two":
            ctx.assume(Lt(p, q))
            ctx.assume(Lt(q, dd))
        if case in ("zero",):
            ctx.assume(Ge(dd, 1))
        ctx.store[fe.field(obj, "nELM::w")] = Ptr(ctx.new_array(m * dim, lambda i: app("w", i), "w"))
        ctx.store[fe.field(obj, "nELM::b")] = Ptr(ctx.new_array(m, lambda i: app("b", i), "b"))
        x = Ptr(ctx.new_array(n * dim, lambda i: app("x", i), "x"))
        dark = Ptr(ctx.new_array(n * m, None, "F"))
        solver.INSTANCES[:] = {"high": [p], "two": [p, q]}.get(case, [])

        def body():
            fe.frames = []
            fr = Frame(ctx)
            fe.call_method(obj, "nElmHint", [d, dd, x, n, dark])
            covered(ctx, "nElmHint")

            def post():
                r, j, u = fresh("r"), fresh("j"), fresh("u")
                for v, hi in ((r, n), (j, m)):
                    ctx.assume(Ge(v, 0))
                    ctx.assume(Lt(v, hi))
                got = ctx.read(dark, m * r + j)
                a = binder("SUM", u, 0, dim, app("w", u * m + j) * app("x", u * n + r)) + app("b", j)
                if case in ("none", "zero"):
                    want = ite(Lt(0, a), a, 0)
                elif case == "one":
                    want = ite(Le(a, 0), 0, app("w", p * m + j) * app("c", p))
                else:
                    want = t(0)
                ctx.oblige_eq("ensures F[r,j] = partial derivative of the activation at w.z[r]+b[j]", got, want)
            ctx.explore(post)
            fr.check([dark.arr])
        run(ctx, body)
        solver.INSTANCES[:] = []
        if total is not None:
            ctx.obls = total.obls + ctx.obls
        total = ctx
        if any(o[1] != "proved" for o in ctx.obls):
            break
    return total


# ------------------------------------------------------------------ H / xla of the parent class
def rank(j, numC, nC=lambda g: app("nC", g, sort="Int")):
    u, g = fresh("u"), fresh("g")
    return binder("SUM", u, 0, j, ite(inC(u, numC, nC), 0, 1))


def inC(j, numC, nC=lambda g: app("nC", g, sort="Int")):
    g = fresh("g")
    return Exists(g, 0, numC, Eq(j, nC(g)))


def BASIS(d, j, z):
    return t(mkatom("app", "BASIS", (t(d), t(j), t(z)), "Real"))


def hint_contract(fe, obj, args):
    """abstract contract of the virtual Hint: fills every entry of dark, nothing else"""
    ctx = fe.ctx
    d, x, n, dark = [deref(fe, a) for a in args]
    m = ctx.store[fe.field(obj, "BasisFunc::m")]
    ctx.oblige("Hint requires d>=0, nOut>=0", And(Ge(d, 0), Ge(n, 0)))
    D, XA = ctx.heap[dark.arr], ctx.heap[x.arr]
    ctx.oblige("Hint requires dark to hold nOut*m values", TRUE if D.size == dark.off + n * m else And(Ge(dark.off, 0), Ge(D.size, dark.off + n * m)))
    if not ctx.muted:
        def pre():
            r = fresh("r")
            ctx.assume(Ge(r, 0))
            ctx.assume(Lt(r, n))
            ctx.read(x, r)
        ctx.explore(pre)
    # points may be a fully written array: value at generic row
    save = ctx.muted
    r, j = fresh("r"), fresh("j")
    ra, ja = ids(r, j)

    def pt():
        ctx.assume(Ge(r, 0))
        ctx.assume(Lt(r, n))
        return ctx.lookup(ctx.heap[x.arr], x.off + r)
    ctx.muted += 1
    try:
        res = ctx.explore(pt)
    finally:
        ctx.muted -= 1
    from loops import mergetree
    if res:
        z = mergetree([(gs, o) for gs, o, s in res], lambda o: o)
        ctx.addlayer(dark.arr, Layer(((ra, n), (ja, m)), TRUE, dark.off + m * r + j, BASIS(d, j, z)))
    return None


def base_env(ctx, fe, cls="BasisFunc"):
    obj = Obj("this", cls)
    m, numC, n, d = var("m"), var("numC"), var("n"), var("d")
    x0, c, z0 = var("x0", "Real"), var("c", "Real"), var("z0", "Real")
    F_ = lambda nm: fe.field(obj, "BasisFunc::" + nm)
    ctx.store[F_("m")] = m
    ctx.store[F_("numC")] = numC
    ctx.store[F_("x0")] = x0
    ctx.store[F_("c")] = c
    ctx.store[F_("z0")] = z0
    ctx.store[F_("nC")] = Ptr(ctx.new_array(numC, lambda i: app("nC", i, sort="Int"), "nC", "Int"))
    for f in (Ge(m, 1), Ge(numC, 0), Ge(n, 0), Ge(d, 0), Le(numC, m)):
        ctx.assume(f)
    ctx.add_stride(m - numC)
    # lemma (Lean: count_not_mem): nC distinct and within [0,m) => #{j<m : j not in nC} = m - numC
    ctx.assume(Eq(rank(m, numC), m - numC))
    return obj, m, numC, n, d, x0, c, z0


def post_H(ctx, out, full, n, m, numC, mOut, val, what):
    """out is n x mOut; full: column j; otherwise removed columns are skipped, order kept"""
    def post():
        r, j = fresh("r"), fresh("j")
        for v, hi in ((r, n), (j, m)):
            ctx.assume(Ge(v, 0))
            ctx.assume(Lt(v, hi))
        if full:
            ctx.oblige_eq(what + " (all columns)", ctx.read(out, m * r + j), val(r, j))
        else:
            ctx.assume(Not(inC(j, numC)))
            ctx.oblige_eq(what + " (column rank(j) is function j)", ctx.read(out, mOut * r + rank(j, numC)), val(r, j))
    ctx.explore(post)


def basis_H(prog):
    ctx = mkctx("BasisFunc::H")
    fe = Cxx(ctx, prog, {"Hint": hint_contract})
    obj, m, numC, n, d, x0, c, z0 = base_env(ctx, fe)
    x = Ptr(ctx.new_array(n, lambda i: app("x", i), "x"))
    full = Pred("full")
    for nm in ("nOut", "mOut", "F"):
        ctx.store[("x", nm)] = t(-1)

    def body():
        fe.frames = []
        fr = Frame(ctx)
        fe.call_method(obj, "H", [x, n, d, LocPtr(("x", "nOut")), LocPtr(("x", "mOut")), LocPtr(("x", "F")), full])
        isfull = ctx.branch(full)
        covered(ctx, "H")
        ctx.oblige_eq("ensures nOut = n", ctx.store[("x", "nOut")], n)
        mo = m if isfull else m - numC
        ctx.oblige_eq("ensures mOut", ctx.store[("x", "mOut")], mo)
        out = ctx.store[("x", "F")]
        if not isinstance(out, Ptr):
            raise Unsupported("F not set")
        ctx.oblige_eq("ensures F has n*mOut entries", ctx.heap[out.arr].size - out.off, n * mo)
        post_H(ctx, out, isfull, n, m, numC, mo, lambda r, j: BASIS(d, j, (X(r) - x0) * c + z0) * power(c, d), "ensures F[r,.] = c^d * d-th derivative at z(x[r])")
        fr.check([], [out.arr])
    return run(ctx, body)


def scalar_arr(ctx, name, val, elem="Int"):
    return Ptr(ctx.new_array(t(1), lambda i: val, name, elem))


def basis_xla(prog):
    ctx = mkctx("BasisFunc::xla")
    fe = Cxx(ctx, prog, {"Hint": hint_contract})
    obj, m, numC, n, d, x0, c, z0 = base_env(ctx, fe)
    x = Ptr(ctx.new_array(n, lambda i: app("x", i), "x"))
    full = Pred("full")

    def body():
        fe.frames = []
        isfull = ctx.branch(full)
        mo = m if isfull else m - numC
        out = Ptr(ctx.new_array(n * mo, None, "out"))
        tab = Table({0: scalar_arr(ctx, "id", var("id")), 1: x, 2: scalar_arr(ctx, "d", d), 3: scalar_arr(ctx, "full", full), 4: scalar_arr(ctx, "n", n), 5: scalar_arr(ctx, "mOut", mo)})
        fr = Frame(ctx)
        fe.call_method(obj, "xla", [out, tab])
        covered(ctx, "xla")
        post_H(ctx, out, isfull, n, m, numC, mo, lambda r, j: BASIS(d, j, (X(r) - x0) * c + z0) * power(c, d), "ensures out[r,.] = c^d * d-th derivative at z(x[r])")
        fr.check([out.arr])
    return run(ctx, body)


# ------------------------------------------------------------------ n-D: nHint of nELM, H and xla of nBasisFunc
def NB(r, j):
    return t(mkatom("app", "NB", (t(r), t(j)), "Real"))


def nd_state(ctx, fe, obj, dim, m, numC=None, own_z0="nELM::z0"):
    """class invariant of an n-D basis object"""
    z0 = var("z0", "Real")
    ctx.store[fe.field(obj, own_z0)] = z0
    ctx.store[fe.field(obj, "nBasisFunc::x0")] = Ptr(ctx.new_array(dim, lambda i: app("x0", i), "x0"))
    return z0


def nelm_nhint(prog):
    ctx = mkctx("nELM::nHint")
    x_ = {}

    def nelm_contract(fe, obj, args):
        """abstract nElmHint: needs the mapped points; fills n*m entries"""
        d_, dd_, z_, n_, F_ = [deref(fe, a) for a in args]
        if not (isinstance(z_, Ptr) and isinstance(F_, Ptr)):
            raise Unsupported("nElmHint arguments")
        ctx.oblige("nElmHint gets the caller's orders", TRUE if isinstance(d_, Ptr) and d_.arr == d.arr and d_.off == d.off else FALSE)
        ctx.oblige_eq("nElmHint gets the caller's number of orders", dd_, dd)
        ctx.oblige_eq("nElmHint gets the caller's number of points", n_, n)
        D = ctx.heap[F_.arr]
        ctx.oblige("nElmHint requires F to hold n*m values", TRUE if D.size == F_.off + n * m else And(Ge(F_.off, 0), Ge(D.size, F_.off + n * m)))
        if not ctx.muted:
            def pre():
                i, r = fresh("i"), fresh("r")
                for v, hi in ((i, dim), (r, n)):
                    ctx.assume(Ge(v, 0))
                    ctx.assume(Lt(v, hi))
                ctx.oblige_eq("nElmHint requires z = mapped points", ctx.read(z_, i * n + r), (app("x", i * n + r) - app("x0", i)) * app("c", i) + z0)
            ctx.explore(pre)
        ctx.addlayer(F_.arr, matrix_layer(F_, F_.off, m, n, m, NB))
        return None
    fe = Cxx(ctx, prog, {"nElmHint": nelm_contract})
    obj, m, dim, n, dd, d = nd_env(ctx, fe, "nELM")
    z0 = nd_state(ctx, fe, obj, dim, m)
    numC = var("numC")
    for f in (Ge(numC, 0), Le(numC, m)):
        ctx.assume(f)
    ctx.add_stride(m - numC)
    ctx.assume(Eq(rank(m, numC), m - numC))
    ctx.store[fe.field(obj, "BasisFunc::numC")] = numC
    # only the first numC entries of the list are used
    ctx.store[fe.field(obj, "BasisFunc::nC")] = Ptr(ctx.new_array(numC * dim, lambda i: app("nC", i, sort="Int"), "nC", "Int"))
    x = Ptr(ctx.new_array(n * dim, lambda i: app("x", i), "x"))
    full = Pred("full")

    def body():
        fe.frames = []
        isfull = ctx.branch(full)
        none = False
        if not isfull:
            none = ctx.branch(Eq(numC, 0))
        mo = m if isfull or none else m - numC
        out = Ptr(ctx.new_array(n * mo, None, "F"))
        ctx.store[("x", "F")] = out
        fr = Frame(ctx)
        fe.call_method(obj, "nHint", [x, n, d, dd, mo, Ref(("loc", ("x", "F"))), full])
        covered(ctx, "nHint")
        post_H(ctx, ctx.store[("x", "F")], isfull or none, n, m, numC, mo, NB, "ensures F[r,.] = activation derivative")
        fr.check([out.arr])
    return run(ctx, body)


def nhint_contract(ctx, n, d, dd, width, x):
    """abstract nHint: called with the caller's points, orders and width; fills n*width entries"""
    def c(fe, obj, args):
        x_, n_, d_, dd_, w_, F_, full_ = [deref(fe, a) for a in args]
        ok = isinstance(x_, Ptr) and x_.arr == x.arr and x_.off == x.off
        ctx.oblige("nHint gets the caller's points", TRUE if ok else FALSE)
        ctx.oblige_eq("nHint gets the caller's number of points", n_, n)
        ok = isinstance(d_, Ptr) and d_.arr == d.arr and d_.off == d.off
        ctx.oblige("nHint gets the caller's orders", TRUE if ok else FALSE)
        ctx.oblige_eq("nHint gets the caller's number of orders", dd_, dd)
        isfull = ctx.branch(Pred("full"))
        f_ = full_ if isinstance(full_, F) else Ne(full_, 0)
        ctx.oblige("nHint gets the caller's full flag", f_ if isfull else Not(f_))
        ctx.oblige_eq("nHint gets the width", w_, width(isfull))
        D = ctx.heap[F_.arr]
        ctx.oblige("nHint requires F to hold n*width values", TRUE if D.size == F_.off + n * width(isfull) else And(Ge(F_.off, 0), Ge(D.size, F_.off + n * width(isfull))))
        ctx.addlayer(F_.arr, matrix_layer(F_, F_.off, width(isfull), n, width(isfull), NB))
        return None
    return c


def nbasis_env(ctx, prog, dd=None):
    fe = Cxx(ctx, prog, {})
    obj, m, dim, n, dd, d = nd_env(ctx, fe, "nBasisFunc", dd)
    nb, nbf = var("numBasisFunc"), var("numBasisFuncFull")
    for f in (Ge(nb, 0), Ge(nbf, 0)):
        ctx.assume(f)
    ctx.store[fe.field(obj, "nBasisFunc::numBasisFunc")] = nb
    ctx.store[fe.field(obj, "nBasisFunc::numBasisFuncFull")] = nbf
    x = Ptr(ctx.new_array(n * dim, lambda i: app("x", i), "x"))
    fe.contracts["nHint"] = nhint_contract(ctx, n, d, dd, lambda f: nbf if f else nb, x)
    return fe, obj, m, dim, n, dd, d, nb, nbf, x


def nbasis_H(prog):
    ctx = mkctx("nBasisFunc::H")
    fe, obj, m, dim, n, dd, d, nb, nbf, x = nbasis_env(ctx, prog)
    for nm in ("nOut", "mOut", "F"):
        ctx.store[("x", nm)] = t(-1)
    meth = next((q for q in prog.methods.get(("nBasisFunc", "H"), []) if len(prog.params(q)) == 9), None)
    if meth is None:
        raise Unsupported("nBasisFunc::H")

    def body():
        fe.frames = []
        fr = Frame(ctx)
        fe.invoke("nBasisFunc", meth, obj, [x, dim, n, d, dd, LocPtr(("x", "nOut")), LocPtr(("x", "mOut")), LocPtr(("x", "F")), Pred("full")])
        isfull = ctx.branch(Pred("full"))
        covered(ctx, "H")
        w = nbf if isfull else nb
        ctx.oblige_eq("ensures nOut = n", ctx.store[("x", "nOut")], n)
        ctx.oblige_eq("ensures mOut = number of functions", ctx.store[("x", "mOut")], w)
        out = ctx.store[("x", "F")]
        if not isinstance(out, Ptr):
            raise Unsupported("F not set")
        ctx.oblige_eq("ensures F has n*mOut entries", ctx.heap[out.arr].size - out.off, n * w)
        post_matrix(ctx, out, n, w, NB, "ensures F = the matrix computed by nHint")
        fr.check([], [out.arr])
    return run(ctx, body)


def nbasis_xla(prog):
    """XLA entry; the orders are always given for every dimension (mtfc passes dim orders)"""
    ctx = mkctx("nBasisFunc::xla")
    fe, obj, m, dim, n, dd, d, nb, nbf, x = nbasis_env(ctx, prog)

    def body():
        fe.frames = []
        isfull = ctx.branch(Pred("full"))
        w = nbf if isfull else nb
        out = Ptr(ctx.new_array(n * w, None, "out"))
        tab = Table({0: scalar_arr(ctx, "id", var("id")), 1: x, 2: d, 3: scalar_arr(ctx, "dd", dd), 4: scalar_arr(ctx, "full", Pred("full")), 5: scalar_arr(ctx, "n", n), 6: scalar_arr(ctx, "mOut", w)})
        fr = Frame(ctx)
        fe.call_method(obj, "xla", [out, tab])
        covered(ctx, "xla")
        post_matrix(ctx, out, n, w, NB, "ensures out = the matrix computed by nHint")
        fr.check([out.arr])
    return run(ctx, body)


# ------------------------------------------------------------------ accessors of the random-feature bases
def accessors(prog, cls):
    """setW/getW/setB/getB (and getC of the n-D classes): whole array copied, other fields untouched, wrong sizes refused"""
    nd = cls == "nELM"
    total = []
    fns = ["setW", "setB", "getW", "getB"] + (["getC"] if nd else [])
    last = None
    for fn in fns:
        for good in ((True, False) if fn.startswith("set") else (True,)):
            ctx = mkctx(f"{cls}::{fn}")
            fe = Cxx(ctx, prog, {})
            obj = Obj("this", cls)
            m, dim = var("m"), (var("dim") if nd else t(1))
            ctx.assume(Ge(m, 1))
            if nd:
                ctx.assume(Ge(dim, 1))
                ctx.store[fe.field(obj, "nBasisFunc::dim")] = dim
                ctx.store[fe.field(obj, "nBasisFunc::c")] = Ptr(ctx.new_array(dim, lambda i: app("c", i), "c"))
            ctx.store[fe.field(obj, "BasisFunc::m")] = m
            w = Ptr(ctx.new_array(m * dim, lambda i: app("w", i), "w"))
            b = Ptr(ctx.new_array(m, lambda i: app("b", i), "b"))
            ctx.store[fe.field(obj, cls + "::w")] = w
            ctx.store[fe.field(obj, cls + "::b")] = b
            two = nd and fn in ("setW", "getW")
            size = {"W": m * dim, "B": m, "C": dim}[fn[3]]

            def body():
                fe.frames = []
                if fn.startswith("set"):
                    ni, di = (m, dim) if good else (var("nIn"), var("dimIn"))
                    if not good:
                        for f in (Ge(ni, 0), Ge(di, 0)):
                            ctx.assume(f)
                        ctx.assume(Or(Ne(ni, m), Ne(di, dim)) if two else Ne(ni, m))
                    a = Ptr(ctx.new_array(ni * di if two else ni, lambda i: app("a", i), "arrIn"))
                    fr = Frame(ctx)
                    ex = False
                    try:
                        fe.call_method(obj, fn, [a, di, ni] if two else [a, ni])
                    except (Exited, Thrown):
                        ex = True
                    covered(ctx, fn)
                    if not good:
                        ctx.oblige("ensures a wrong size is refused", TRUE if ex else FALSE)
                        fr.check([])
                        return
                    ctx.oblige("ensures the right size is accepted", FALSE if ex else TRUE)
                    tgt = ctx.store[fe.field(obj, cls + "::" + fn[3].lower())]
                    other = ctx.store[fe.field(obj, cls + "::" + {"W": "b", "B": "w"}[fn[3]])]
                    def post():
                        i = fresh("i")
                        ctx.assume(Ge(i, 0))
                        ctx.assume(Lt(i, size))
                        ctx.oblige_eq("ensures the stored array equals the given one", ctx.read(tgt, i), app("a", i))
                    ctx.explore(post)
                    ctx.oblige("ensures the stored array is not the caller's", TRUE if tgt.arr != a.arr else FALSE)
                    fr.check([tgt.arr])
                else:
                    for nm in ("n", "d", "p"):
                        ctx.store[("x", nm)] = t(-1)
                    fr = Frame(ctx)
                    A, N, D = LocPtr(("x", "p")), LocPtr(("x", "n")), LocPtr(("x", "d"))
                    fe.call_method(obj, fn, [D, N, A] if two else [A, N])
                    covered(ctx, fn)
                    out = ctx.store[("x", "p")]
                    if not isinstance(out, Ptr):
                        raise Unsupported("no array returned")
                    ctx.oblige_eq("ensures the reported length", ctx.store[("x", "n")], dim if fn == "getC" else m)
                    if two:
                        ctx.oblige_eq("ensures the reported dimension", ctx.store[("x", "d")], dim)
                    ctx.oblige_eq("ensures the array has exactly the reported entries", ctx.heap[out.arr].size - out.off, size)
                    def post():
                        i = fresh("i")
                        ctx.assume(Ge(i, 0))
                        ctx.assume(Lt(i, size))
                        ctx.oblige_eq("ensures the returned array equals the stored one", ctx.read(out, i), app(fn[3].lower(), i))
                    ctx.explore(post)
                    fr.check([], [out.arr])
            run(ctx, body)
            total += ctx.obls
            last = ctx
            if any(o[1] != "proved" for o in ctx.obls):
                ctx.obls = total
                return ctx
    last.obls = total
    return last


SRC = "/repo/src/tfc/utils/BF.cc"


def entry(fn, args):
    import os
    src = os.path.join(os.environ.get("TFC_REPO", "/repo"), "src/tfc/utils/BF.cc")
    return globals()[fn](Prog(src), *args)


def ELM_CLASSES():
    return ["ELMSigmoid", "ELMTanh", "ELMSin", "ELMSwish", "ELMReLU"]


if __name__ == "__main__":
    from collections import Counter
    src = sys.argv[2] if len(sys.argv) > 2 else "/repo/src/tfc/utils/BF.cc"
    prog = Prog(src)
    what = sys.argv[1]
    t0 = time.time()
    fn, _, arg = what.partition(":")
    ctx = globals()[fn](prog, *([arg] if arg else []))
    print(what, Counter(x[1] for x in ctx.obls), round(time.time() - t0, 1), solver.STATS)
    for x in ctx.obls:
        if x[1] != "proved":
            print("   ", x)


# ---------------------------------------------------------------- tensor-product (n-D) bases, for a fixed number of dimensions
def nin(j, a, numC):
    """is index a removed in dimension j"""
    g = fresh("g")
    return Exists(g, 0, numC, Eq(a, app("nC", t(j) * numC + g, sort="Int")))


def accepted(a, m, numC, full):
    tot = t(0)
    for x in a:
        tot = tot + x
    deg = Le(tot, m - 1) if len(a) > 1 else TRUE      # a single index is below m
    if full:
        return deg
    return And(Or(*[Not(nin(j, x, numC)) for j, x in enumerate(a)]), deg)


def total(prefix, D, m, numC, full):
    """number of accepted multi-indices whose last entries (dimension len..D-1 downwards) are prefix"""
    if len(prefix) == D:
        return ite(accepted(prefix, m, numC, full), 1, 0)
    k = fresh("k")
    return binder("SUM", k, 0, m, total((k,) + prefix, D, m, numC, full))


def rankn(a, D, m, numC, full):
    """number of accepted multi-indices before a (the last dimension varies slowest)"""
    r = t(0)
    for j in range(D):
        u = fresh("u")
        r = r + binder("SUM", u, 0, a[j], total((u,) + tuple(a[j + 1:]), D, m, numC, full))
    return r


def tp_env(ctx, fe, D):
    """object state of a tensor-product basis with D dimensions"""
    obj = Obj("this", "nBasisFunc")
    m, numC = var("m"), var("numC")
    ctx.store[fe.field(obj, "BasisFunc::m")] = m
    ctx.store[fe.field(obj, "BasisFunc::numC")] = numC
    ctx.store[fe.field(obj, "nBasisFunc::dim")] = t(D)
    for f in (Ge(m, 1), Ge(numC, 0)):
        ctx.assume(f)
    ctx.store[fe.field(obj, "BasisFunc::nC")] = Ptr(ctx.new_array(numC * D, lambda i: app("nC", i, sort="Int"), "nC", "Int"))
    return obj, m, numC


def prefix_vec(ctx, D, L, m):
    """index vector whose entries above L are fixed (the enclosing loops' counters) and the others not yet written"""
    vec = Ptr(ctx.new_array(t(D), None, "vec", "Int"))
    pre = tuple(var(f"p{j}") for j in range(L + 1, D))
    for j, p in zip(range(L + 1, D), pre):
        ctx.assume(Ge(p, 0))
        ctx.assume(Lt(p, m))
        ctx.addlayer(vec.arr, Layer((), TRUE, t(j), p))
    return vec, pre


def read_prefix(ctx, vec, D, L, m, who):
    out = []
    for j in range(L + 1, D):
        p = ctx.read(vec, t(j))
        if not isinstance(p, T):
            raise Unsupported("index vector")
        ctx.oblige(f"{who} requires the outer indices to be in range", And(Ge(p, 0), Lt(p, m)))
        out.append(p)
    return tuple(out)


def forget(ctx, arr, upto):
    for j in range(upto + 1):
        ctx.addlayer(arr, Layer((), TRUE, t(j), Poison("index written by a callee")))


def num_contract(D, top=None):
    """NumBasisFunc(L, vec, count, full): count grows by the number of accepted multi-indices extending vec[L+1..]"""
    def c(fe, obj, args):
        ctx = fe.ctx
        L, vec, count, full = args[0], args[1], args[2], args[3]
        L, vec, full = deref(fe, L), deref(fe, vec), deref(fe, full)
        k = L.iconst() if isinstance(L, T) else None
        if k is None or not isinstance(vec, Ptr) or vec.off.const() != 0 or not isinstance(count, Ref):
            raise Unsupported("NumBasisFunc arguments")
        ctx.oblige("NumBasisFunc requires 0 <= dimCurr < dim", TRUE if 0 <= k < D else FALSE)
        if top is not None:
            ctx.oblige("NumBasisFunc measure dimCurr decreases", TRUE if k < top else FALSE)
        m, numC = ctx.store[fe.field(obj, "BasisFunc::m")], ctx.store[fe.field(obj, "BasisFunc::numC")]
        pre = read_prefix(ctx, vec, D, k, m, "NumBasisFunc")
        isfull = ctx.branch(full if isinstance(full, F) else Ne(full, 0))
        c0 = fe.load(count.lv)
        fe.store_lv(count.lv, c0 + total(pre, D, m, numC, isfull))
        forget(ctx, vec.arr, k)
        return None
    return c


def nbasis_num(prog, D):
    D = int(D)
    r0 = prog.resolve("nBasisFunc", "NumBasisFunc")
    if r0 is None or len(prog.params(r0[1])) != 4:
        raise Unsupported("NumBasisFunc absent")
    obls, fns, first = [], None, None
    for L in range(D):
        ctx = mkctx("nBasisFunc::NumBasisFunc")
        fe = Cxx(ctx, prog, {"NumBasisFunc": num_contract(D, L)})
        obj, m, numC = tp_env(ctx, fe, D)
        c0 = var("c0")
        ctx.inttyped.add(("x", "count"))

        def body():
            fe.frames = []
            isfull = ctx.branch(Pred("full"))
            vec, pre = prefix_vec(ctx, D, L, m)
            ctx.store[("x", "count")] = c0
            fr = Frame(ctx)
            fe.invoke(r0[0], r0[1], obj, [t(L), vec, Ref(("loc", ("x", "count"))), Pred("full")])
            covered(ctx, "NumBasisFunc")
            ctx.oblige_eq(f"ensures count grows by the number of basis functions (level {L} of {D})", ctx.store[("x", "count")], c0 + total(pre, D, m, numC, isfull))
            read_prefix(ctx, vec, D, L, m, "NumBasisFunc keeps the outer indices;")
            fr.check([vec.arr])
        run(ctx, body)
        obls += ctx.obls
    ctx.obls = obls
    return ctx


def trank(a, L, D, m, numC, full):
    """number of accepted multi-indices before a among those that agree with a above level L"""
    r = t(0)
    for j in range(L + 1):
        u = fresh("u")
        r = r + binder("SUM", u, 0, a[j], total((u,) + tuple(a[j + 1:]), D, m, numC, full))
    return r


def tprod(tv, a, h):
    """product over the dimensions of univariate function a[l] at point h"""
    r = t(1)
    for l, k in enumerate(a):
        r = r * tv(t(l), k, h)
    return r


def fresh_cells(ctx, out, n, nb, c0, tot, who):
    def pre():
        h, q = fresh("h"), fresh("q")
        for v, hi in ((h, n), (q, tot)):
            ctx.assume(Ge(v, 0))
            ctx.assume(Lt(v, hi))
        ctx.oblige_eq(f"{who} requires the entries it fills to be 1", ctx.read(out, h * nb + c0 + q), t(1))
    if not ctx.muted:
        ctx.explore(pre)


def rb_contract(D, tv, top=None):
    def c(fe, obj, args):
        ctx = fe.ctx
        count = args[2]
        L, vec, full, n, nb, T_, out = [deref(fe, args[i]) for i in (0, 1, 3, 4, 5, 6, 7)]
        k = L.iconst() if isinstance(L, T) else None
        if k is None or not isinstance(vec, Ptr) or vec.off.const() != 0 or not isinstance(count, Ref) or not isinstance(T_, Ptr) or not isinstance(out, Ptr):
            raise Unsupported("RecurseBasis arguments")
        ctx.oblige("RecurseBasis requires 0 <= dimCurr < dim", TRUE if 0 <= k < D else FALSE)
        if top is not None:
            ctx.oblige("RecurseBasis measure dimCurr decreases", TRUE if k < top else FALSE)
        m, numC = ctx.store[fe.field(obj, "BasisFunc::m")], ctx.store[fe.field(obj, "BasisFunc::numC")]
        pre = read_prefix(ctx, vec, D, k, m, "RecurseBasis")
        isfull = ctx.branch(full if isinstance(full, F) else Ne(full, 0))
        c0 = fe.load(count.lv)
        tot = total(pre, D, m, numC, isfull)
        ctx.oblige("RecurseBasis requires room for the functions it adds", And(Ge(c0, 0), Le(c0 + tot, nb)))
        O = ctx.heap[out.arr]
        ctx.oblige("RecurseBasis requires out to hold n*numBasis values", TRUE if O.size == out.off + n * nb else And(Ge(out.off, 0), Ge(O.size, out.off + n * nb)))
        fresh_cells(ctx, out, n, nb, c0, tot, "RecurseBasis")

        def pt(l):
            i, h = fresh("i"), fresh("h")
            for v, hi in ((i, m), (h, n)):
                ctx.assume(Ge(v, 0))
                ctx.assume(Lt(v, hi))
            ctx.oblige_eq("RecurseBasis requires T to hold the scaled univariate functions", ctx.read(T_, m * n * l + i + h * m), tv(t(l), i, h))
        if not ctx.muted and top is None:
            for l in range(D):
                ctx.explore(lambda: pt(l))
        elif top is not None:
            ctx.oblige("RecurseBasis gets the caller's univariate functions", TRUE if T_.arr == fe.tvals.arr and T_.off == fe.tvals.off else FALSE)
        h = fresh("h")
        us = tuple(fresh("u") for _ in range(k + 1))
        a = us + pre
        ctx.addlayer(out.arr, Layer(((single_atom(h).id, n),) + tuple((single_atom(u).id, m) for u in us), accepted(a, m, numC, isfull), out.off + h * nb + c0 + trank(a, k, D, m, numC, isfull), tprod(tv, a, h), ("counter", single_atom(us[-1]).id)))     # rank is injective on the accepted multi-indices
        fe.store_lv(count.lv, c0 + tot)
        forget(ctx, vec.arr, k)
        return None
    return c


def nbasis_rec(prog, D, only=None):
    D = int(D)
    r0 = prog.resolve("nBasisFunc", "RecurseBasis")
    if r0 is None or len(prog.params(r0[1])) != 8:
        raise Unsupported("RecurseBasis absent")
    obls = []
    for L in range(D):
        if only is not None and L != only:
            continue
        ctx = mkctx("nBasisFunc::RecurseBasis")
        c0, n, nb = var("c0"), var("n"), var("numBasis")
        tv = lambda l, k, h: app("T", m * n * l + k + h * m)
        fe = Cxx(ctx, prog, {"RecurseBasis": rb_contract(D, tv, L)})
        obj, m, numC = tp_env(ctx, fe, D)
        ctx.inttyped.add(("x", "count"))
        for f in (Ge(n, 0), Ge(c0, 0), Ge(nb, 0)):
            ctx.assume(f)
        ctx.add_stride(nb)
        T_ = Ptr(ctx.new_array(n * m * D, lambda i: app("T", i), "T"))
        fe.tvals = T_

        def body():
            fe.frames = []
            isfull = ctx.branch(Pred("full"))
            vec, pre = prefix_vec(ctx, D, L, m)
            tot = total(pre, D, m, numC, isfull)
            ctx.assume(Le(c0 + tot, nb))
            ctx.store[("x", "count")] = c0
            out = Ptr(ctx.new_array(n * nb, lambda i: app("out0", i), "out"))
            h, q = fresh("h"), fresh("q")
            ctx.addlayer(out.arr, Layer(((single_atom(h).id, n), (single_atom(q).id, tot)), TRUE, h * nb + c0 + q, t(1)))
            fr = Frame(ctx)
            fe.invoke(r0[0], r0[1], obj, [t(L), vec, Ref(("loc", ("x", "count"))), Pred("full"), n, nb, T_, out])
            covered(ctx, "RecurseBasis")
            lev = f"(level {L} of {D})"
            ctx.oblige_eq(f"ensures count grows by the number of basis functions {lev}", ctx.store[("x", "count")], c0 + tot)

            def post():
                r = fresh("r")
                us = tuple(fresh("a") for _ in range(L + 1))
                for v, hi in ((r, n),) + tuple((u, m) for u in us):
                    ctx.assume(Ge(v, 0))
                    ctx.assume(Lt(v, hi))
                a = us + pre
                ctx.assume(accepted(a, m, numC, isfull))
                ctx.oblige_eq(f"ensures out[r, rank(a)] = product of univariate functions {lev}", ctx.read(out, r * nb + c0 + trank(a, L, D, m, numC, isfull)), tprod(tv, a, r))
            ctx.explore(post)
            fr.check([vec.arr, out.arr])
        run(ctx, body)
        obls += ctx.obls
    ctx.obls = obls
    return ctx


def nbasis_nhint(prog, D):
    """nHint of a tensor-product basis: column rank(a) of row r is the product of the scaled univariate derivatives"""
    D = int(D)
    ctx = mkctx("nBasisFunc::nHint")
    n, dd = var("n"), var("dDim0")
    z0 = var("z0", "Real")
    lookup = lambda nm, i: app(nm, t(i))

    def tv(l, k, h):
        z = (app("x", l * n + h) - app("x0", l)) * app("c", l) + z0
        dl = app("d", l, sort="Int")
        return ite(Lt(l, dd), BASIS(dl, k, z) * power(app("c", l), dl), BASIS(t(0), k, z))
    fe = Cxx(ctx, prog, {"Hint": hint_contract, "RecurseBasis": rb_contract(D, tv)})
    obj, m, numC = tp_env(ctx, fe, D)
    for f in (Ge(n, 0), Ge(dd, 0), Le(dd, D)):
        ctx.assume(f)
    ctx.store[fe.field(obj, "nBasisFunc::c")] = Ptr(ctx.new_array(t(D), lambda i: app("c", i), "c"))
    ctx.store[fe.field(obj, "nBasisFunc::x0")] = Ptr(ctx.new_array(t(D), lambda i: app("x0", i), "x0"))
    ctx.store[fe.field(obj, "nBasisFunc::z0")] = z0
    x = Ptr(ctx.new_array(n * D, lambda i: app("x", i), "x"))
    d = Ptr(ctx.new_array(dd, lambda i: app("d", i, sort="Int"), "d", "Int"))
    for l in range(D):
        ctx.assume(Ge(app("d", t(l), sort="Int"), 0))

    def body():
        fe.frames = []
        isfull = ctx.branch(Pred("full"))
        nb = var("numBasis")
        ctx.assume(Eq(nb, total((), D, m, numC, isfull)))       # established by the constructor (NumBasisFunc)
        ctx.add_stride(nb)
        out = Ptr(ctx.new_array(n * nb, None, "F"))
        ctx.store[("x", "F")] = out
        fr = Frame(ctx)
        fe.call_method(obj, "nHint", [x, n, d, dd, nb, Ref(("loc", ("x", "F"))), Pred("full")])
        covered(ctx, "nHint")

        def post():
            r = fresh("r")
            a = tuple(fresh("a") for _ in range(D))
            for v, hi in ((r, n),) + tuple((u, m) for u in a):
                ctx.assume(Ge(v, 0))
                ctx.assume(Lt(v, hi))
            ctx.assume(accepted(a, m, numC, isfull))
            ctx.oblige_eq(f"ensures F[r, rank(a)] = product of scaled univariate derivatives ({D} dimensions)", ctx.read(ctx.store[("x", "F")], r * nb + trank(a, D - 1, D, m, numC, isfull)), tprod(tv, a, r))
        ctx.explore(post)
        fr.check([out.arr])
    return run(ctx, body)


# ---------------------------------------------------------------- constructors and the registry of objects
RANGES = {"CP": (-1, 1), "LeP": (-1, 1), "LaP": None, "HoPpro": None, "HoPphy": None, "FS": "pi",
          "ELMSigmoid": (0, 1), "ELMTanh": (0, 1), "ELMSin": (0, 1), "ELMSwish": (0, 1), "ELMReLU": (0, 1)}
PI_LIT = t(Fraction("3.1415926535897931"))          # M_PI as clang prints the literal (the double nearest pi)


def zrange(cls):
    r = RANGES[cls.lstrip("n") if cls.startswith("n") else cls]
    if r == "pi":
        return [(-PI_LIT, PI_LIT), (-app("PI"), app("PI"))]
    return [(t(r[0]), t(r[1]))] if r else None


def registry(ctx):
    """invariant: the container holds exactly the nIdentifier objects created so far"""
    k = var("nIdentifier")
    ctx.assume(Ge(k, 0))
    ctx.store[("g", "BasisFunc::nIdentifier")] = k
    ctx.store[("g", "BasisFunc::BasisFuncContainer")] = VecVal(k)
    return k


def post_registry(ctx, fe, obj, k):
    v = ctx.store[("g", "BasisFunc::BasisFuncContainer")]
    if not isinstance(v, VecVal):
        raise Unsupported("registry")
    ident = ctx.store.get(fe.field(obj, "BasisFunc::identifier"))
    ctx.oblige_eq("ensures identifier = number of objects created before", ident, k)
    ctx.oblige_eq("ensures the object counter grows by one", ctx.store[("g", "BasisFunc::nIdentifier")], k + 1)
    ctx.oblige_eq("ensures the registry grows by one", v.size, k + 1)
    ctx.oblige("ensures registry[identifier] is this object and no entry is replaced", TRUE if len(v.items) == 1 and v.items[0][0] == k and v.items[0][1] is obj else FALSE)
    cap = ctx.store.get(fe.field(obj, "BasisFunc::xlaCapsule"))
    ok = isinstance(cap, tuple) and cap[0] == "capsule" and isinstance(cap[1], tuple) and cap[1][0] == "func"
    if not ok:
        raise Unsupported("capsule")
    ctx.oblige("ensures the capsule holds xlaWrapper", TRUE if cap[1][1].get("name") == "xlaWrapper" else FALSE)


def own_copy(ctx, p, src, n, what):
    """p is a private array of at least n entries equal to src"""
    if not isinstance(p, Ptr):
        raise Unsupported(what)
    ctx.oblige(f"ensures {what} is a private copy", TRUE if p.arr != src.arr else FALSE)

    def post():
        i = fresh("i")
        ctx.assume(Ge(i, 0))
        ctx.assume(Lt(i, n))
        ctx.oblige_eq(f"ensures {what} = the given values", ctx.read(p, i), ctx.read(src, i))
    ctx.explore(post)


def ctor(prog, cls):
    ctx = mkctx(f"{cls}::{cls}")
    fe = Cxx(ctx, prog, {})
    obj = Obj("this", cls)
    x0, xf = var("x0", "Real"), var("xf", "Real")
    m, k0 = var("m"), var("ncDim0")
    for f in (Ge(m, 1), Ge(k0, 0), Ne(xf, x0)):
        ctx.assume(f)
    cs = [q for q in prog.methods.get((cls, cls), []) if q["kind"] == "CXXConstructorDecl" and len(prog.params(q)) == 5]
    if len(cs) != 1:
        raise Unsupported("constructor of " + cls)
    k = registry(ctx)
    nC = Ptr(ctx.new_array(k0, lambda i: app("nC", i, sort="Int"), "nCin", "Int"))
    F_ = lambda nm: ctx.store.get(fe.field(obj, nm))

    def body():
        fe.frames = []
        fr = Frame(ctx)
        fe.invoke(cls, cs[0], obj, [x0, xf, nC, k0, m])
        covered(ctx, cls)
        ctx.oblige_eq("ensures m = number of functions", F_("BasisFunc::m"), m)
        ctx.oblige_eq("ensures numC = number of removed functions", F_("BasisFunc::numC"), k0)
        own_copy(ctx, F_("BasisFunc::nC"), nC, k0, "nC")
        rs = zrange(cls)
        if rs is None:
            ctx.oblige_eq("ensures z(x) = x", F_("BasisFunc::c"), t(1))
            ctx.oblige_eq("ensures z(x) = x (origin)", F_("BasisFunc::x0") * F_("BasisFunc::c"), F_("BasisFunc::z0"))
        else:
            r = next((q for q in rs if F_("BasisFunc::z0") == q[0]), rs[0])
            ctx.oblige_eq("ensures x0 is mapped to the start of the domain", (x0 - F_("BasisFunc::x0")) * F_("BasisFunc::c") + F_("BasisFunc::z0"), r[0])
            ctx.oblige_eq("ensures c maps [x0,xf] onto the domain", F_("BasisFunc::c") * (xf - x0), r[1] - r[0])
        keep = [F_("BasisFunc::nC").arr]
        if cls.startswith("ELM"):
            for nm in ("w", "b"):
                p = F_("ELM::" + nm)
                if not isinstance(p, Ptr):
                    raise Unsupported(nm)
                keep.append(p.arr)
                ctx.oblige_eq(f"ensures {nm} has m entries", ctx.heap[p.arr].size - p.off, m)

                def post():
                    i = fresh("i")
                    ctx.assume(Ge(i, 0))
                    ctx.assume(Lt(i, m))
                    ctx.read(p, i)
                ctx.explore(post)
            ctx.oblige("ensures w and b are distinct", TRUE if keep[1] != keep[2] else FALSE)
        post_registry(ctx, fe, obj, k)
        fr.check([], keep)
        destroy(ctx, fe, prog, obj, cls)
    return run(ctx, body)


def destroy(ctx, fe, prog, obj, cls):
    """the destructor of a just-constructed object (derived class first) releases only live storage of its own, once"""
    for c in prog.mro(cls):
        for d in prog.methods.get((c, "~" + c), []):
            fe.invoke(c, d, obj, [])
            covered(ctx, "~" + c)


def nd_ctor(prog, cls, D):
    """constructor of an n-dimensional basis with D dimensions"""
    D = int(D)
    elm = cls.startswith("nELM")
    ctx = mkctx(f"{cls}::{cls}")
    def num(fe, obj, args):
        def pre():
            ctx.oblige_eq("NumBasisFunc requires dim to be set", F_("nBasisFunc::dim"), t(D))
            i = fresh("i")
            ctx.assume(Ge(i, 0))
            ctx.assume(Lt(i, k1 * D))
            ctx.oblige_eq("NumBasisFunc requires nC to be set", ctx.read(F_("BasisFunc::nC"), i), app("nC", i, sort="Int"))
        ctx.explore(pre)
        return num_contract(D)(fe, obj, args)
    fe = Cxx(ctx, prog, {} if elm else {"NumBasisFunc": num})
    obj = Obj("this", cls)
    m, k1 = var("m"), var("ncDim")
    for f in (Ge(m, 1), Ge(k1, 0)):
        ctx.assume(f)
    np_ = 7 if elm else 8
    cs = [q for q in prog.methods.get((cls, cls), []) if q["kind"] == "CXXConstructorDecl" and len(prog.params(q)) == np_]
    if len(cs) != 1:
        raise Unsupported("constructor of " + cls)
    k = registry(ctx)
    x0 = Ptr(ctx.new_array(t(D), lambda i: app("x0", i), "x0in"))
    xf = Ptr(ctx.new_array(t(D), lambda i: app("xf", i), "xfin"))
    for j in range(D):
        ctx.assume(Ne(app("xf", t(j)), app("x0", t(j))))
    nC = Ptr(ctx.new_array(k1 if elm else k1 * D, lambda i: app("nC", i, sort="Int"), "nCin", "Int"))
    own = "nELM::" if elm else "nBasisFunc::"
    F_ = lambda nm: ctx.store.get(fe.field(obj, nm))

    def body():
        fe.frames = []
        fr = Frame(ctx)
        args = [x0, t(D), xf, t(D), nC] + ([k1] if elm else [t(D), k1]) + [m]
        fe.invoke(cls, cs[0], obj, args)
        covered(ctx, cls)
        ctx.oblige_eq("ensures dim = number of dimensions", F_("nBasisFunc::dim"), t(D))
        ctx.oblige_eq("ensures m", F_("BasisFunc::m"), m)
        r = zrange(cls)
        z0 = F_(own + "z0")
        r = next((q for q in r if z0 == q[0]), r[0])
        cp, xp = F_("nBasisFunc::c"), F_("nBasisFunc::x0")
        if not isinstance(cp, Ptr) or not isinstance(xp, Ptr):
            raise Unsupported("c")
        ctx.oblige("ensures x0 is a private copy", TRUE if xp.arr not in (x0.arr, xf.arr) else FALSE)
        for j in range(D):
            ctx.oblige_eq("ensures x0 is mapped to the start of the domain", (app("x0", t(j)) - ctx.read(xp, t(j))) * ctx.read(cp, t(j)) + z0, r[0])
            ctx.oblige_eq("ensures c[k] maps [x0[k],xf[k]] onto the domain", ctx.read(cp, t(j)) * (app("xf", t(j)) - app("x0", t(j))), r[1] - r[0])
        keep = [F_("nBasisFunc::x0").arr, cp.arr, F_("BasisFunc::nC").arr]
        if elm:
            own_copy(ctx, F_("BasisFunc::nC"), nC, k1, "nC")
            g = fresh("g")
            none = Forall(g, 0, k1, Eq(app("nC", g, sort="Int"), -1))
            want = t(0) if ctx.branch(none) else k1
            ctx.oblige_eq("ensures numC counts the removed functions", F_("BasisFunc::numC"), want)
            ctx.oblige_eq("ensures numBasisFunc = m - numC", F_("nBasisFunc::numBasisFunc"), m - want)
            ctx.oblige_eq("ensures numBasisFuncFull = m", F_("nBasisFunc::numBasisFuncFull"), m)
            for nm, sz in (("w", m * D), ("b", m)):
                p = F_("nELM::" + nm)
                if not isinstance(p, Ptr):
                    raise Unsupported(nm)
                keep.append(p.arr)
                ctx.oblige_eq(f"ensures {nm} has its number of entries", ctx.heap[p.arr].size - p.off, sz)

                def post():
                    i = fresh("i")
                    ctx.assume(Ge(i, 0))
                    ctx.assume(Lt(i, sz))
                    ctx.read(p, i)
                ctx.explore(post)
        else:
            own_copy(ctx, F_("BasisFunc::nC"), nC, k1 * D, "nC")
            ctx.oblige_eq("ensures numC = columns of nC", F_("BasisFunc::numC"), k1)
            ctx.oblige_eq("ensures numBasisFunc = number of functions kept", F_("nBasisFunc::numBasisFunc"), total((), D, m, k1, False))
            ctx.oblige_eq("ensures numBasisFuncFull = number of functions", F_("nBasisFunc::numBasisFuncFull"), total((), D, m, k1, True))
        post_registry(ctx, fe, obj, k)
        fr.check([], keep)
        destroy(ctx, fe, prog, obj, cls)
    return run(ctx, body)


def xla_wrapper(prog):
    """xlaWrapper(out, in) forwards to the object registered under in[0]"""
    ctx = mkctx("xlaWrapper")
    got = []

    def xla_contract(fe, obj, args):
        got.append((obj, [deref(fe, a) for a in args]))
        return None
    fe = Cxx(ctx, prog, {"xla": xla_contract})
    k, i = var("nIdentifier"), var("id")
    for f in (Ge(i, 0), Lt(i, k)):
        ctx.assume(f)
    objs = [Obj("other", "BasisFunc"), Obj("registered", "BasisFunc")]
    ctx.store[("g", "BasisFunc::nIdentifier")] = k
    ctx.store[("g", "BasisFunc::BasisFuncContainer")] = VecVal(k, ((i - 1, objs[0]), (i, objs[1]), (i + 1, objs[0]), (t(0), objs[0]), (i, objs[1])))
    out = Ptr(ctx.new_array(t(1), lambda a: t(0), "out"))
    fn = prog.funcs.get("xlaWrapper")
    if fn is None:
        raise Unsupported("xlaWrapper")

    def body():
        fe.frames = []
        del got[:]
        ins = Table({0: scalar_arr(ctx, "id", i), **{j: scalar_arr(ctx, f"in{j}", t(0)) for j in range(1, 7)}})
        fe.invoke(None, fn, None, [out, ins])
        covered(ctx, "xlaWrapper")
        ctx.oblige("ensures exactly one call of xla", TRUE if len(got) == 1 else FALSE)
        ctx.oblige("ensures the call goes to the registered object", TRUE if got[0][0] is objs[1] else FALSE)
        ctx.oblige("ensures output and inputs are passed on", TRUE if got[0][1][0] == out and got[0][1][1] is ins else FALSE)
    return run(ctx, body)
