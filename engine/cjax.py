"""Contracts on the JAX-facing layer (src/tfc/utfc.py, src/tfc/mtfc.py).  The basis object is used through its contract
(proved for both backends by the c.* and py.* jobs); the jax registration functions are assumed contracts listed in DESIGN.md."""
from cpy import *
from pynp import DType, dkind

BF1 = app_h = None


class Rec1:
    """a recorded value of a library constructor: name and arguments"""

    def __init__(self, name, args, kw=None):
        self.name, self.args, self.kw = name, tuple(args), dict(kw or {})

    def __repr__(self):
        return f"{self.name}{self.args}"


def rec_attr(py, o, name):
    if name in o.kw:
        return o.kw[name]
    if name in ("result", "results") and o.name in ("custom_call", "concat"):
        return o
    return NotImplemented


ATTR[Rec1] = rec_attr
TRUTH[Rec1] = lambda py, o: TRUE
TRUTH[Inst] = lambda py, o: TRUE
ISINST[Rec1] = lambda py, o, ty: getattr(ty, "name", None) == o.name


def sget(py, o, k):
    if o.name in ("custom_call", "concat") and isinstance(k, T) and k.iconst() == 0:
        return o
    raise Unsupported("subscript of " + o.name)


GETITEM[Rec1] = sget


def jax_libs(prims):
    """assumed contracts of the jax entry points; prims collects what is registered"""
    def prim_new(py, a, k):
        o = Inst(PRIM)
        prims.append(o)
        return o

    def setf(name):
        return Builtin("Primitive." + name, lambda py, a, k: py.ctx.store.__setitem__(("f", a[0].id, name), a[1]))

    def bind(py, a, k):
        f = py.ctx.store.get(("f", a[0].id, "def_impl"))
        if f is None:
            raise Raised("NotImplementedError", "primitive without implementation")
        return py.call(f, a[1:], k)
    PRIM = ModelType("Primitive", {"def_impl": setf("def_impl"), "def_abstract_eval": setf("def_abstract_eval"), "bind": Builtin("Primitive.bind", bind)})
    PRIM.new = prim_new

    def reg_low(py, a, k):
        py.ctx.store[("f", a[0].id, "lowering")] = a[1]
    zero = ModelType("Zero")
    jvps, batchers = PDict(), PDict()
    mlir = Ns("jax.interpreters.mlir", {"register_lowering": Builtin("register_lowering", reg_low), "ir_constant": Builtin("ir_constant", lambda py, a, k: Rec1("const", [a[0]]))})
    mlir.d["custom_call"] = Builtin("custom_call", lambda py, a, k: Rec1("custom_call", a, k))
    ad = Ns("jax.interpreters.ad", {"Zero": zero, "primitive_jvps": jvps})
    bt = Ns("jax.interpreters.batching", {"primitive_batchers": batchers})

    def rtt(py, a, k):
        return a[0]
    RT = ModelType("RankedTensorType", {"get": ("static", Builtin("RankedTensorType.get", lambda py, a, k: Rec1("tensor", a, {"shape": a[0], "element_type": a[1] if len(a) > 1 else k.get("element_type")})))})
    RT.new = rtt
    sh = Builtin("ConcatenateOp", lambda py, a, k: Rec1("concat", a))
    core = Ns("jax.core", {"ShapedArray": Builtin("ShapedArray", lambda py, a, k: Rec1("ShapedArray", a, {"shape": a[0], "dtype": a[1] if len(a) > 1 else k.get("dtype")}))})
    libs = {
        "numpy.typing": Ns("numpy.typing", {"NDArray": ModelType("NDArray")}),
        "jax.core": core, "jax": Ns("jax", {"core": core}), "jax.extend.core": Ns("jax.extend.core", {"Primitive": PRIM}),
        "jax.interpreters": Ns("jax.interpreters", {"ad": ad, "batching": bt, "mlir": mlir}),
        "jax.interpreters.ad": ad, "jax.interpreters.mlir": mlir, "jax.interpreters.batching": bt,
        "jax.ffi": Ns("jax.ffi", {"register_ffi_target": Builtin("register_ffi_target", lambda py, a, k: py.ctx.store.__setitem__(("ffi", 0), py.ctx.store.get(("ffi", 0), ()) + ((tuple(a), tuple(sorted(k.items(), key=lambda z: z[0]))),)))}),
        "jaxlib.mlir.ir": Ns("jaxlib.mlir.ir", {"RankedTensorType": RT}),
        "jaxlib.mlir.dialects": Ns("jaxlib.mlir.dialects", {"stablehlo": Ns("stablehlo", {"ConcatenateOp": sh})}),
        "jax._src.interpreters": Ns("jax._src.interpreters", {"mlir": mlir}),
        "jax._src.config": Ns("jax._src.config", {"config": Rec1("config", [])}),
    }
    return libs, zero, jvps, batchers, mlir


for _nm in ("bool", "int32", "int64", "float64"):
    pass


def caster(kind):
    def f(py, a, k):
        x = a[0]
        if isinstance(x, (T, F)):
            return x
        if isinstance(x, (tuple, PList)):
            return toarr(py, x)
        if isinstance(x, ND):
            return x
        raise Unsupported("cast")
    return f


def cast_types(ns):
    for nm in ("int32", "int64", "float64", "bool", "bool_", "intp", "int8", "int16"):
        ty = ModelType(nm)
        ty.new = caster(nm)
        ns.d[nm] = ty


cast_types(pynp.NP)
cast_types(pynp.JNP)


def tfcprint():
    def err(py, a, k):
        raise Raised("SystemExit", "TFCPrint.Error")
    return Ns("TFCPrint", {"Error": Builtin("TFCPrint.Error", err), "Warning": Builtin("TFCPrint.Warning", lambda py, a, k: None)})


HB = lambda d, fu, r, j: app("HB", *([d] if isinstance(d, T) else list(d)), t(1) if fu else t(0), r, j)


class Backend:
    """the two basis libraries through their contracts: constructors record their arguments; c, m, numC and H are as proved"""

    def __init__(self, ctx, nd, dims):
        self.ctx, self.nd, self.dims = ctx, nd, dims
        self.made = []
        self.type = ModelType("Basis", {"H": Builtin("Basis.H", self.H)})

    def ns(self, backend):
        be = self

        class BNs(Ns):
            pass
        n = BNs("BF", {})
        for base in ("CP", "LeP", "FS", "LaP", "HoPpro", "HoPphy", "ELMReLU", "ELMSigmoid", "ELMTanh", "ELMSin", "ELMSwish"):
            nm = ("n" + base) if self.nd else base
            n.d[nm] = Builtin("BF." + nm, lambda py, a, k, nm=nm: be.make(py, backend, nm, a, k))
        return n

    def make(self, py, backend, nm, a, k):
        if len(a) != 4 or k:
            raise Unsupported("basis constructor arguments")
        x0, xf, nC, m = a
        o = Inst(self.type)
        st = self.ctx.store
        st[("made", o.id)] = (backend, nm, x0, xf, nC, m)
        z0, zf = zdomn(nm)
        if self.nd:
            r0, r1 = reader(py, toarr(py, x0)), reader(py, toarr(py, xf))
            c = new(py, (t(self.dims),), lambda idx: (zf - z0) / (r1((idx[0],)) - r0((idx[0],))), "f", "c")
            st[("f", o.id, "numBasisFunc")] = var("nbf")
            st[("f", o.id, "numBasisFuncFull")] = var("nbff")
        else:
            c = (zf - z0) / (xf - x0)
            st[("f", o.id, "m")] = m
            st[("f", o.id, "numC")] = shape0(py, nC)
        st[("f", o.id, "c")] = c
        st[("f", o.id, "identifier")] = var("ident")
        st[("f", o.id, "xlaCapsule")] = Rec1("capsule", [o])
        return o

    def width(self, py, o, full):
        st = self.ctx.store
        if self.nd:
            return st[("f", o.id, "numBasisFuncFull" if full else "numBasisFunc")]
        m = st[("f", o.id, "m")]
        return m if full else m - st[("f", o.id, "numC")]

    def H(self, py, a, k):
        names = ["x", "d", "full"]
        b = dict(zip(names, a[1:]))
        b.update(k)
        o, x, d, full = a[0], b["x"], b.get("d", t(0)), b.get("full", FALSE)
        fu = self.ctx.branch(py.formula(full))
        x = toarr(py, x)
        st = self.ctx.store
        if self.nd:
            d = tuple(py.concrete(d))
            if len(d) != self.dims or x.dims if False else len(x.shape) != 2:
                raise Unsupported("arguments of the basis")
            rd = reader(py, x)
            self.ctx.oblige_eq("requires: one row of points per dimension", x.shape[0], t(self.dims))

            def fn(idx):
                self.ctx.store[("pts",)] = True
                return app("HBN", *d, t(1) if fu else t(0), *[rd((t(q), idx[0])) for q in range(self.dims)], idx[1])
            return new(py, (x.shape[1], self.width(py, o, fu)), fn, "f", "H")
        if len(x.shape) not in (1, 2):
            raise Unsupported("points of the basis")
        rd = reader(py, x)
        pt = lambda r: rd((r,)) if len(x.shape) == 1 else rd((r, t(0)))
        return new(py, (x.shape[0], self.width(py, o, fu)), lambda idx: app("HB", d, t(1) if fu else t(0), pt(idx[0]), idx[1]), "f", "H")


def shape0(py, nC):
    if isinstance(nC, ND):
        return nC.shape[0]
    raise Unsupported("nC of the basis constructor")


def zdomn(nm):
    b = nm[1:] if nm.startswith("n") else nm
    if b in ("CP", "LeP"):
        return t(-1), t(1)
    if b == "FS":
        return -pynp.const_pi(), pynp.const_pi()
    return t(0), t(1)


def mkj(ctx, file, nd, dims=1):
    prims = []
    libs, zero, jvps, batchers, mlir = jax_libs(prims)
    be = Backend(ctx, nd, dims)
    u = {"BF": be.ns("C++"), "BF_Py": be.ns("Python")}
    ut = Ns("tfc.utils", u)
    libs["tfc.utils"] = ut
    tp = Ns("tfc.utils.TFCUtils", {"TFCPrint": tfcprint()})
    libs["tfc.utils.TFCUtils"] = tp
    libs["tfc.utils.tfc_types"] = Ns("tfc_types", {x: ModelType(x) for x in ("Literal", "uint", "IntArrayLike", "JaxOrNumpyArray", "IntListOrArray", "pint", "NumberListOrArray", "Array", "Path", "TypedDict")})
    py = mkpy(ctx, [file], extra=libs)
    py.prims, py.zero, py.jvps, py.batchers, py.be = prims, zero, jvps, batchers, be
    return py


def sprim(py, ctx):
    """the primitive of the instance under test and what was registered for it"""
    if len(py.prims) < 1:
        raise Unsupported("no primitive")
    p = py.prims[-1]
    d = dict((k, v) for k, v in ctx.store.get(("d", py.jvps.id), ()))
    return p, d.get(p)


def utfc_new(py, ctx, backend, basis, nCkind="array", x0=None, xf=None, N=None, deg=None, numC=None, short=False):
    ctx.store[("d", py.jvps.id)] = ()
    ctx.store[("d", py.batchers.id)] = ()
    del py.prims[:]
    c = py.glob(py.main, "utfc")
    if nCkind == "array":
        nC = new(py, (numC,), lambda idx: NCF(idx[0]), "i", "nC")
    elif nCkind == "list":
        nC = PList()
        ctx.store[("l", nC.id)] = Seq(numC, lambda i: NCF(i))
    else:
        nC = numC
        if ctx.branch(Eq(numC, 0)) and ctx.branch(Pred("none")):
            nC = t(-1)  # documented: -1 stands for no constraint
    kw = {"basis": basis, "x0": x0, "xf": xf, "backend": backend}
    if short:  # documented defaults: Chebyshev polynomials, domain start 0, compiled backend
        kw = {k: v for k, v in kw.items() if not (k == "x0" or k == "backend" and v == "C++" or k == "basis" and v == "CP")}
    try:
        return py.construct(c, [N, nC, deg], kw), nC
    except Raised as e:
        ctx.oblige(f"the constructor returns (raised {e.kind})", FALSE)


def uvars(ctx):
    N, deg, numC = var("N"), var("deg"), var("numC")
    x0, xf = var("x0", "Real"), var("xf", "Real")
    for f in (Ge(N, 2), Ge(deg, 0), Ge(numC, 0), Le(numC, deg), Ne(x0, xf)):
        ctx.assume(f)
    u = fresh("u")
    ctx.assume(Forall(u, 0, numC, Ge(NCF(u), 0)))
    return N, deg, numC, x0, xf


BASES = ["CP", "LeP", "FS", "ELMReLU", "ELMSigmoid", "ELMTanh", "ELMSin", "ELMSwish"]


def zformulas(basis, i, N):
    z0, zf = zdomn(basis)
    if basis in ("CP", "LeP"):
        pi = pynp.const_pi()
        return [mcos(pi * (N - 1 - i) / (N - 1)), -mcos(pi * i / (N - 1))]
    return [z0 + (zf - z0) * i / (N - 1)]


def utfc_init(basis):
    """constructor: basis object built from the problem's data; collocation points"""
    ctx = mkctx(f"utfc.__init__ ({basis})")
    ctx.functions = [f"utfc.__init__ ({basis})"]
    N, deg, numC, x0r, xfr = uvars(ctx)
    py = mkj(ctx, "utfc", False)
    x0i, xfi = var("x0i"), var("xfi")
    ctx.assume(Ne(x0i, xfi))

    def body():
        py.frames = []
        x0, xf = (x0i, xfi) if ctx.branch(Pred("intends")) else (x0r, xfr)
        backend = "C++" if ctx.branch(Pred("cxx")) else "Python"
        kind = "int" if ctx.branch(Pred("nCint")) else ("array" if ctx.branch(Pred("nCarr")) else "list")
        short = kind == "int" and x0 is x0r and ctx.branch(Pred("defaults"))
        if short:
            x0 = t(0)
            ctx.assume(Ne(xf, 0))
        fr0 = PyFrame(ctx)
        o, nC = utfc_new(py, ctx, backend, basis, kind, x0, xf, N, deg, numC, short)
        covered(ctx, "init")
        b = py.getattr(o, "basisClass")
        if not isinstance(b, Inst) or ("made", b.id) not in ctx.store:
            raise Unsupported("basisClass")
        be, nm, a0, af, anC, am = ctx.store[("made", b.id)]
        ctx.oblige("ensures the chosen backend is used", TRUE if be == backend else FALSE)
        ctx.oblige("ensures the chosen family is used", TRUE if nm == basis else FALSE)
        ctx.oblige_eq("ensures the domain start is passed on", a0, x0)
        ctx.oblige_eq("ensures the domain end is passed on", af, xf)
        ctx.oblige_eq("ensures deg+1 functions", am, deg + 1)
        anC = toarr(py, anC)
        ctx.oblige("ensures integer indices", TRUE if anC.dtype == "i" else FALSE)
        ctx.oblige_eq("ensures as many removed functions as listed", anC.shape[0], numC)

        def pn():
            i = fresh("i")
            ctx.assume(Ge(i, 0))
            ctx.assume(Lt(i, numC))
            ctx.oblige_eq("ensures removed functions as listed", reader(py, anC)((i,)), i if kind == "int" else NCF(i))
        ctx.explore(pn)
        for nm2, want in (("x0", x0), ("xf", xf), ("c", ctx.store[("f", b.id, "c")]), ("N", N), ("deg", deg)):
            ctx.oblige_eq(f"ensures attribute {nm2}", py.getattr(o, nm2), want)
        z, x = py.getattr(o, "z"), py.getattr(o, "x")
        for q, a in (("z", z), ("x", x)):
            ctx.oblige(f"ensures {q} is a vector", TRUE if isinstance(a, ND) and len(a.shape) == 1 else FALSE)
            ctx.oblige_eq(f"ensures N points in {q}", a.shape[0], N)
        z0, zf = zdomn(basis)

        def pts():
            i = fresh("i")
            ctx.assume(Ge(i, 0))
            ctx.assume(Lt(i, N))
            gz, gx = reader(py, z)((i,)), reader(py, x)((i,))
            if os.environ.get("DBG"): print(gz, gx, zformulas(basis, i, N))
            for w in zformulas(basis, i, N):
                if ctx.prove_eq(gz, w)[0]:
                    break
            ctx.soft("ensures z[i] is the i-th collocation point of the basis domain", ctx.prove_eq(gz, w)[0])
            ctx.oblige_eq("ensures x[i] = x0 + (xf-x0)(z[i]-z0)/(zf-z0)", gx, x0 + (xf - x0) * (gz - z0) / (zf - z0))
        ctx.explore(pts)
        fr0.check("frame: the caller's arrays are unchanged")
    return run(ctx, body)


def named_orders(cls):
    """the named derivative methods of the class: {name: order}"""
    import re
    out = {}
    for c in cls.mro():
        for nm in getattr(c, "body", {}):
            g = re.fullmatch(r"(?:d(\d*))?H", nm)
            if g:
                out[nm] = 0 if g.group(1) is None else int(g.group(1) or 1)
    return out


def umat(ctx, py, M, n, w, fn, what, dtype=None):
    if not isinstance(M, ND) or len(M.shape) != 2:
        ctx.oblige(what + " (a matrix)", FALSE)
    ctx.oblige_eq(what + " (rows)", M.shape[0], n)
    ctx.oblige_eq(what + " (columns)", M.shape[1], w)

    def post():
        r, j = fresh("r"), fresh("j")
        for v, hi in ((r, n), (j, w)):
            ctx.assume(Ge(v, 0))
            ctx.assume(Lt(v, hi))
        ctx.inst(r, j)
        ctx.oblige_eq(what, reader(py, M)((r, j)), fn(r, j))
    ctx.explore(post)


def usetup(label, fns):
    ctx = mkctx(label)
    ctx.functions = fns
    N, deg, numC, x0, xf = uvars(ctx)
    py = mkj(ctx, "utfc", False)
    n = var("n")
    ctx.assume(Ge(n, 1))
    return ctx, py, n, (N, deg, numC, x0, xf)


def utfc_methods():
    """H, dH, d2H, ... return the matrix of the order they are named after"""
    ctx, py, n, (N, deg, numC, x0, xf) = usetup("utfc.H", ["utfc.H, dH, d2H, ...", "utfc._SetupJax.Hjax", "utfc._SetupJax.H_impl"])
    names = named_orders(py.glob(py.main, "utfc"))
    ctx.oblige("the named methods exist", TRUE if {"H", "dH", "d2H", "d4H", "d8H"} <= set(names) else FALSE)

    def body():
        py.frames = []
        full = Pred("full")
        backend = "C++" if ctx.branch(Pred("cxx")) else "Python"
        o, _ = utfc_new(py, ctx, backend, "CP", "array", x0, xf, N, deg, numC)
        x = new(py, (n,), lambda idx: X(idx[0]), "f", "x")
        fu = ctx.branch(full)
        w = deg + 1 if fu else deg + 1 - numC
        for nm, d in sorted(names.items()):
            ctx.label = f"utfc.{nm}"
            fr = PyFrame(ctx)
            for kw in ({"full": full}, {}) if not fu else ({"full": full},):
                umat(ctx, py, call_method(py, o, nm, [x], kw), n, w, lambda r, j: app("HB", t(d), t(1) if fu else t(0), X(r), j), f"ensures {nm} is the matrix of order {d}")
            umat(ctx, py, call_method(py, o, nm, [x, full]), n, w, lambda r, j: app("HB", t(d), t(1) if fu else t(0), X(r), j), f"ensures {nm} is the matrix of order {d} (full by position)")
            fr.check()
    return run(ctx, body)


def utfc_jvp():
    ctx, py, n, (N, deg, numC, x0, xf) = usetup("utfc._SetupJax.H_jvp", ["utfc._SetupJax.H_jvp", "utfc._SetupJax.Hjax", "utfc._SetupJax.H_impl"])
    d = var("d")
    ctx.assume(Ge(d, 0))
    DX = lambda i: app("DX", i)

    def body():
        py.frames = []
        full = Pred("full")
        backend = "C++" if ctx.branch(Pred("cxx")) else "Python"
        o, _ = utfc_new(py, ctx, backend, "CP", "array", x0, xf, N, deg, numC)
        p, jv = sprim(py, ctx)
        ctx.oblige("a derivative rule is registered for the primitive", TRUE if jv is not None else FALSE)
        x = new(py, (n,), lambda idx: X(idx[0]), "f", "x")
        fu = ctx.branch(full)
        w = deg + 1 if fu else deg + 1 - numC
        zero = ctx.branch(Pred("zerotangent"))
        column = False
        if zero:
            dx = Inst(py.zero)
        else:
            column = ctx.branch(Pred("columntangent"))
            dx = new(py, (n, t(1)), lambda idx: DX(idx[0]), "f", "dx") if column else new(py, (n,), lambda idx: DX(idx[0]), "f", "dx")
        fr = PyFrame(ctx)
        try:
            out = py.call(jv, [(x,), (dx,)], {"d": d, "full": full})
        except Raised as e:
            ctx.oblige(f"the rule returns (raised {e.kind})", FALSE)
        out = py.concrete(out)
        ctx.oblige("ensures value and tangent", TRUE if len(out) == 2 else FALSE)
        f1 = t(1) if fu else t(0)
        umat(ctx, py, out[0], n, w, lambda r, j: app("HB", d, f1, X(r), j), "ensures the value is the matrix of order d")
        umat(ctx, py, out[1], n, w, lambda r, j: t(0) if zero else app("HB", d + 1, f1, X(r), j) * DX(r), "ensures the tangent is the matrix of order d+1 times the tangent of x")
        fr.check()
    return run(ctx, body)


def utfc_lower():
    """abstract evaluation and lowering: shapes and operands agree with the eager matrix and with the contract of the compiled xla entry"""
    ctx, py, n, (N, deg, numC, x0, xf) = usetup("utfc._SetupJax.H_xla", ["utfc._SetupJax.H_abstract_eval", "utfc._SetupJax.H_xla", "utfc._SetupJax"])
    d = var("d")
    ctx.assume(Ge(d, 0))

    def body():
        py.frames = []
        full = Pred("full")
        backend = "C++" if ctx.branch(Pred("cxx")) else "Python"
        ctx.store[("ffi", 0)] = ()
        o, _ = utfc_new(py, ctx, backend, "CP", "array", x0, xf, N, deg, numC)
        p, jv = sprim(py, ctx)
        b = py.getattr(o, "basisClass")
        fu = ctx.branch(full)
        w = deg + 1 if fu else deg + 1 - numC
        ae = ctx.store.get(("f", p.id, "def_abstract_eval"))
        ctx.oblige("an abstract evaluation rule is registered", TRUE if ae is not None else FALSE)
        xa = Rec1("ShapedArray", [], {"shape": (n,), "dtype": DType("f")})
        r = py.call(ae, [xa], {"d": d, "full": full})
        if not isinstance(r, Rec1) or r.name != "ShapedArray":
            raise Unsupported("abstract evaluation result")
        sh = py.concrete(r.kw["shape"])
        ctx.oblige("ensures the abstract result is a matrix", TRUE if len(sh) == 2 else FALSE)
        ctx.oblige_eq("ensures abstract rows", sh[0], n)
        ctx.oblige_eq("ensures abstract columns", sh[1], w)
        ctx.oblige("ensures the type of the points", TRUE if isinstance(r.kw["dtype"], DType) and r.kw["dtype"].k == "f" else FALSE)
        low = ctx.store.get(("f", p.id, "lowering"))
        if backend == "Python":
            return
        ctx.oblige("a lowering is registered", TRUE if low is not None else FALSE)
        lowering(ctx, py, o, b, low, [n], [d, full], w, n)
    return run(ctx, body)


def lowering(ctx, py, o, b, low, xs, params, w, n, nd=0):
    d, full = params
    xv = [Rec1("value", [k], {"type": Rec1("tensor", [], {"shape": (n,), "element_type": Rec1("f64", [])})}) for k in range(max(nd, 1))]
    try:
        r = py.call(low, [Rec1("lctx", [])] + xv, {"d": d, "full": full})
    except Raised as e:
        ctx.oblige(f"the lowering returns (raised {e.kind})", FALSE)
    if isinstance(r, (tuple, PList)):
        r = py.concrete(r)[0]
    if not isinstance(r, Rec1) or r.name != "custom_call":
        raise Unsupported("result of the lowering")
    tgt = r.kw.get("call_target_name", r.args[0] if r.args else None)
    ffi = ctx.store.get(("ffi", 0), ())
    mine = [f for f in ffi if any(z is py.getattr(b, "xlaCapsule") for z in f[0])]
    ctx.oblige("ensures the instance's entry point is registered", TRUE if len(mine) == 1 else FALSE)
    nm = mine[0][0][0]
    ctx.oblige("ensures the call target is the instance's own", TRUE if sid(nm) == sid(tgt) else FALSE)
    ctx.soft("ensures the target name is unique to the instance", teq_any(sid(nm), py.getattr(b, "identifier")))
    ops = py.concrete(r.kw["operands"])

    def cst(q):
        if not isinstance(q, Rec1) or q.name != "const":
            raise Unsupported("operand of the custom call")
        return q.args[0]
    want = 7 if nd else 6
    ctx.oblige(f"ensures {want} operands", TRUE if len(ops) == want else FALSE)
    ctx.oblige_eq("ensures operand 0 is the identifier", cst(ops[0]), py.getattr(b, "identifier"))
    if nd:
        q = ops[1]
        ctx.oblige("ensures operand 1 is the points, dimension by dimension", TRUE if isinstance(q, Rec1) and q.name == "concat" and list(py.concrete(q.args[0])) == xv and (len(q.args) < 2 or q.args[1].iconst() == 0) else FALSE)
        dd = toarr(py, cst(ops[2]))
        ctx.oblige_eq("ensures operand 2 has one order per dimension", dd.shape[0], t(nd))
        for i in range(nd):
            ctx.oblige_eq("ensures operand 2 is the orders", reader(py, dd)((t(i),)), d[i])
        ctx.oblige_eq("ensures operand 3 is the dimension", cst(ops[3]), t(nd))
        rest = ops[4:]
    else:
        ctx.oblige("ensures operand 1 is the points", TRUE if ops[1] is xv[0] else FALSE)
        ctx.oblige_eq("ensures operand 2 is the order", cst(ops[2]), d)
        rest = ops[3:]
    f = py.formula(cst(rest[0]))
    ctx.oblige("ensures the full flag is passed on", Or(And(f, full), And(Not(f), Not(full))))
    ctx.oblige_eq("ensures the number of rows is passed on", cst(rest[1]), n)
    ctx.oblige_eq("ensures the number of columns is passed on", cst(rest[2]), w)
    rt = py.concrete(r.kw["result_types"])
    ctx.oblige("ensures one result", TRUE if len(rt) == 1 and isinstance(rt[0], Rec1) and rt[0].name == "tensor" else FALSE)
    sh = py.concrete(rt[0].kw["shape"])
    ctx.oblige("ensures a matrix result", TRUE if len(sh) == 2 else FALSE)
    ctx.oblige_eq("ensures result rows", sh[0], n)
    ctx.oblige_eq("ensures result columns", sh[1], w)
    if nd:
        ol = r.kw.get("operand_layouts")
        if ol is not None:
            ol = [tuple(py.concrete(z)) for z in py.concrete(ol)]
            ctx.oblige("ensures one layout per operand", TRUE if len(ol) == 7 else FALSE)
            okl = [len(z) == (1 if i in (1, 2) else 0) for i, z in enumerate(ol)]
            ctx.oblige("ensures operand layouts have the operands' ranks", TRUE if all(okl) else FALSE)
        rl = r.kw.get("result_layouts")
        if rl is not None:
            rl = [tuple(z.iconst() for z in py.concrete(q)) for q in py.concrete(rl)]
            ctx.oblige("ensures the result is laid out row by row", TRUE if rl == [(1, 0)] else FALSE)


def sid(s):
    if isinstance(s, str):
        return (s,)
    if isinstance(s, SymStr):
        return s.parts
    raise Unsupported("target name")


def teq_any(parts, ident):
    return any(isinstance(p, T) and teq(p, ident) for p in parts)


class SymStr:
    """concatenation of literals and printed terms"""

    def __init__(self, parts):
        self.parts = tuple(parts)

    def __eq__(self, o):
        return isinstance(o, SymStr) and o.parts == self.parts

    def __hash__(self):
        return hash(self.parts)


def _sym_str(py, a, k):
    if a and isinstance(a[0], T) and a[0].iconst() is None:
        return SymStr([a[0]])
    return _str0(py, a, k)


_str0 = BUILTINS["str"].fn
BUILTINS["str"] = Builtin("str", _sym_str)


def str_add(py, op, a, b):
    if op != "Add" or not all(isinstance(x, (str, SymStr)) for x in (a, b)):
        return NotImplemented
    f = lambda x: (x,) if isinstance(x, str) else x.parts
    return SymStr(f(a) + f(b))


BINOP[SymStr] = str_add
TRUTH[SymStr] = lambda py, o: TRUE


class Members(Seq):
    pass


class Member:
    """member k of a hybrid basis: N points, derivative matrices of width W(k)"""

    def __init__(self, k):
        self.k = k


def mem_attr(py, o, name):
    if name == "N":
        return app("NN", o.k, sort="Int")
    if name == "_Hjax":
        return Builtin("_Hjax", lambda py, a, kw: mem_H(py, o, a, kw))
    return NotImplemented


def mem_H(py, o, a, kw):
    d, full = kw.get("d", t(0)), kw.get("full", FALSE)
    if len(a) != 1:
        raise Unsupported("arguments of _Hjax")
    fu = py.ctx.branch(py.formula(full))
    x = toarr(py, a[0])
    rd = reader(py, x)
    f1 = t(1) if fu else t(0)
    return new(py, (x.shape[0], app("WW", o.k, f1, sort="Int")), lambda idx: app("HM", o.k, d, f1, rd((idx[0],)), idx[1]), "f", "Hk")


ATTR[Member] = mem_attr


class HStack:
    """np.hstack of a sequence of symbolic length, kept as the sequence of its blocks"""

    def __init__(self, seq):
        self.seq = seq


def hybrid():
    ctx = mkctx("HybridUtfc")
    ctx.functions = ["HybridUtfc.__init__", "HybridUtfc.H, dH, d2H, d3H, d4H, d8H"]
    py = mkj(ctx, "utfc", False)
    py.hooks["np.hstack"] = lambda py, s: HStack(s)
    py.hooks["np.concatenate"] = lambda py, s, ax: HStack(s) if ax in (1, -1) else (_ for _ in ()).throw(Unsupported("axis"))
    K, n = var("K"), var("n")
    for f in (Ge(K, 1), Ge(n, 1)):
        ctx.assume(f)
    c = py.glob(py.main, "HybridUtfc")
    names = named_orders(c)
    ctx.oblige("the named methods exist", TRUE if {"H", "dH", "d2H", "d4H", "d8H"} <= set(names) else FALSE)
    NN = lambda k: app("NN", k, sort="Int")

    def body():
        py.frames = []
        ms = PList()
        ctx.store[("l", ms.id)] = Seq(K, lambda k: Member(k))
        u = fresh("u")
        same = Forall(u, 0, K, Eq(NN(u), NN(t(0))))
        ok = ctx.branch(same)
        raised = False
        try:
            o = py.construct(c, [ms], {})
        except Raised:
            raised = True
        if not ok:
            ctx.oblige("ensures members with different numbers of points are refused", TRUE if raised else FALSE)
            return
        ctx.oblige("ensures members with equal numbers of points are accepted", FALSE if raised else TRUE)
        x = new(py, (n,), lambda idx: X(idx[0]), "f", "x")
        full = Pred("full")
        fu = ctx.branch(full)
        f1 = t(1) if fu else t(0)
        for nm, d in sorted(names.items()):
            ctx.label = f"HybridUtfc.{nm}"
            for args, kw in (([x], {"full": full}), ([x, full], {})) + ((([x], {}),) if not fu else ()):
                fr = PyFrame(ctx)
                r = call_method(py, o, nm, args, kw)
                if not isinstance(r, HStack):
                    raise Unsupported("result of " + nm)
                ctx.oblige_eq(f"ensures {nm} has one block per member", r.seq.count(), K)

                def post():
                    k = fresh("k")
                    ctx.assume(Ge(k, 0))
                    ctx.assume(Lt(k, K))
                    blk = r.seq.item(k)
                    umat(ctx, py, blk, n, app("WW", k, f1, sort="Int"), lambda i, j: app("HM", k, t(d), f1, X(i), j), f"ensures block k of {nm} is member k's matrix of order {d}")
                ctx.explore(post)
                fr.check()
    return run(ctx, body)


# ------------------------------------------------------------------ several dimensions
def mvars(ctx, D):
    deg = var("deg")
    ctx.assume(Ge(deg, 0))
    ns = [app("nn", t(i), sort="Int") for i in range(D)]
    for x in ns:
        ctx.assume(Ge(x, 2))
    for i in range(D):
        ctx.assume(Ne(app("x0", t(i)), app("xf", t(i))))
    for v in ("nbf", "nbff"):
        ctx.assume(Ge(var(v), 0))
    return deg, ns


NC2 = lambda k, i: app("nC2", k, i, sort="Int")


def mtfc_new(py, ctx, backend, basis, D, deg, ns, nCkind="array", ends="np", nkind="list"):
    ctx.store[("d", py.jvps.id)] = ()
    ctx.store[("d", py.batchers.id)] = ()
    del py.prims[:]
    c = py.glob(py.main, "mtfc")
    C = var("C")
    ctx.assume(Ge(C, 0))
    ctx.assume(Le(C, deg))
    if basis.startswith("ELM"):
        u = fresh("u")
        ctx.assume(Forall(u, 0, C, Ge(NCF(u), 0)))
        if nCkind == "int":
            nC = C if not ctx.branch(Eq(C, 0)) or ctx.branch(Pred("zero")) else t(-1)  # documented: -1 stands for no constraint
        elif nCkind == "list":
            nC = PList()
            ctx.store[("l", nC.id)] = Seq(C, lambda i: NCF(i))
        else:
            nC = new(py, (C,), lambda idx: NCF(idx[0]), "i", "nC")
    elif nCkind == "array":
        nC = new(py, (t(D), C), lambda idx: NC2(idx[0], idx[1]), "i", "nC", "jnp")
    elif nCkind == "counts":
        for i in range(D):
            ctx.assume(Ge(app("cnt", t(i), sort="Int"), 0))
            ctx.assume(Le(app("cnt", t(i), sort="Int"), deg))
        nC = new(py, (t(D),), lambda idx: app("cnt", idx[0], sort="Int"), "i", "nC", "jnp")
    elif isinstance(nCkind, tuple):
        es = []
        for i, q in enumerate(nCkind):
            ck = app("cnt", t(i), sort="Int")
            ctx.assume(Ge(ck, -1 if q == "int" else 0))
            ctx.assume(Le(ck, deg))
            if q == "list":
                e = PList()
                ctx.store[("l", e.id)] = Seq(ck, lambda j, i=i: NC2(t(i), j))
            else:
                e = ck if q == "int" else new(py, (ck,), lambda idx, i=i: NC2(t(i), idx[0]), "i", "nC", q)
            es.append(e)
        nC = py.mklist(es)
    else:
        cs = [app("cnt", t(i), sort="Int") for i in range(D)]
        for x in cs:
            ctx.assume(Ge(x, 0))
            ctx.assume(Le(x, deg))
        nC = py.mklist(cs)
    mk = lambda nm: newrow(py, (t(D),), nm) if ends == "np" else py.mklist([app(nm, t(i)) for i in range(D)])
    if ends == "jnp":
        mk = lambda nm: pynp.relib(newrow(py, (t(D),), nm), "jnp")
    x0, xf = mk("x0"), mk("xf")
    n = py.mklist(ns) if nkind == "list" else new(py, (t(D),), lambda idx: app("nn", idx[0], sort="Int"), "i", "n", "jnp")
    try:
        kw = {"dim": t(D), "basis": basis, "x0": x0, "xf": xf, "backend": backend}
        if nkind == "list" and ends == "list":  # documented defaults: two dimensions, Chebyshev polynomials, compiled backend
            kw = {k: v for k, v in kw.items() if not (k == "dim" and D == 2 or k == "backend" and v == "C++" or k == "basis" and v == "CP")}
        return py.construct(c, [n, nC, deg], kw), C
    except Raised as e:
        ctx.oblige(f"the constructor returns (raised {e.kind})", FALSE)


def mtfc_init(basis, D):
    ctx = mkctx(f"mtfc.__init__ ({basis}, {D} dimensions)")
    ctx.functions = [f"mtfc.__init__ ({basis}, {D} dimensions)"]
    deg, ns = mvars(ctx, D)
    py = mkj(ctx, "mtfc", True, D)

    def body():
        py.frames = []
        backend = "C++" if ctx.branch(Pred("cxx")) else "Python"
        ends = "jnp" if ctx.branch(Pred("jends")) else "list"
        kind = "array" if ctx.branch(Pred("nCarr")) else ("int" if ctx.branch(Pred("nCint")) else "list")
        if kind == "int" and not basis.startswith("ELM"):
            kind = "list"
        fr0 = PyFrame(ctx)
        o, C = mtfc_new(py, ctx, backend, basis, D, deg, ns, kind, ends, "list" if ends == "list" else "array")
        covered(ctx, "init")
        b = py.getattr(o, "basisClass")
        if not isinstance(b, Inst) or ("made", b.id) not in ctx.store:
            raise Unsupported("basisClass")
        be, nm, a0, af, anC, am = ctx.store[("made", b.id)]
        ctx.oblige("ensures the chosen backend is used", TRUE if be == backend else FALSE)
        ctx.oblige("ensures the chosen family is used", TRUE if nm == "n" + basis else FALSE)
        ctx.oblige_eq("ensures deg+1 functions per dimension", am, deg + 1)
        N = t(1)
        for q in ns:
            N = N * q
        ctx.oblige_eq("ensures attribute N is the number of grid points", py.getattr(o, "N"), N)
        for what, a in (("x0", a0), ("xf", af), ("x0", py.getattr(o, "x0")), ("xf", py.getattr(o, "xf"))):
            a = toarr(py, a)
            ctx.oblige_eq(f"ensures one entry of {what} per dimension", a.shape[0], t(D))
            for i in range(D):
                ctx.oblige_eq(f"ensures {what} is passed on", reader(py, a)((t(i),)), app(what, t(i)))
        anC = toarr(py, anC)
        ctx.oblige("ensures integer indices", TRUE if anC.dtype == "i" else FALSE)
        if basis.startswith("ELM"):
            ctx.oblige_eq("ensures as many removed functions as listed", anC.shape[0], C)

            def pn():
                i = fresh("i")
                ctx.assume(Ge(i, 0))
                ctx.assume(Lt(i, C))
                ctx.oblige_eq("ensures removed functions as listed", reader(py, anC)((i,)), i if kind == "int" else NCF(i))
            ctx.explore(pn)
        else:
            ctx.oblige("ensures one row of removed functions per dimension", TRUE if len(anC.shape) == 2 and anC.shape[0] == t(D) else FALSE)

            def pn():
                i = fresh("i")
                ctx.assume(Ge(i, 0))
                ctx.assume(Lt(i, anC.shape[1]))
                for k in range(D):
                    got = reader(py, anC)((t(k), i))
                    if kind == "array":
                        ctx.oblige_eq("ensures removed functions as listed", got, NC2(t(k), i))
                    else:
                        ck = app("cnt", t(k), sort="Int")
                        ctx.oblige_eq("ensures the first nC[k] functions are listed, then -1", got, i if ctx.branch(Lt(i, ck)) else t(-1))
                        ctx.oblige("ensures room for every listed function", Ge(anC.shape[1], ck))
            ctx.explore(pn)
        z, x = py.getattr(o, "z"), py.concrete(py.getattr(o, "x"))
        ctx.oblige("ensures one array of points per dimension", TRUE if len(x) == D and isinstance(z, ND) and len(z.shape) == 2 else FALSE)
        z0, zf = zdomn("n" + basis)
        ctx.oblige_eq("ensures one row of z per dimension", z.shape[0], t(D))
        ctx.oblige_eq("ensures N columns of z", z.shape[1], N)
        for k in range(D):
            ctx.oblige("ensures vectors of points", TRUE if isinstance(x[k], ND) and len(x[k].shape) == 1 else FALSE)
            ctx.oblige_eq("ensures N points", x[k].shape[0], N)

            def pts():
                # grid index of point q: q = (..(i0*n1 + i1)*n2 + i2..), last dimension fastest
                ii = [fresh("i") for _ in range(D)]
                q = t(0)
                for a, nn_ in zip(ii, ns):
                    ctx.assume(Ge(a, 0))
                    ctx.assume(Lt(a, nn_))
                    q = q * nn_ + a
                if D > 2 and kind == "list" and not basis.startswith("ELM"):
                    return      # the grid does not depend on nC: checked on the paths with an nC array
                gz, gx = reader(py, z)((t(k), q)), reader(py, x[k])((q,))
                if os.environ.get("DBG"):
                    print(gz, zformulas(basis, ii[k], ns[k]))
                ok = any(ctx.prove_eq(gz, w)[0] for w in zformulas(basis, ii[k], ns[k]))
                ctx.soft("ensures z[k] at the grid point is the collocation point i_k of dimension k (last dimension fastest)", ok)
                a0_, af_ = app("x0", t(k)), app("xf", t(k))
                ctx.oblige_eq("ensures x[k] = x0 + (xf-x0)(z[k]-z0)/(zf-z0)", gx, a0_ + (af_ - a0_) * (gz - z0) / (zf - z0))
            ctx.explore(pts)
        fr0.check("frame: the caller's arrays are unchanged")
    return run(ctx, body)


def mtfc_nc(basis, D):
    """constraint lists of every documented form, per dimension: a count, a list, a numpy or a jax array; or one array of counts"""
    ctx = mkctx(f"mtfc.__init__ (nC forms, {basis}, {D} dimensions)")
    ctx.functions = [f"mtfc.__init__ (nC forms, {basis}, {D} dimensions)"]
    deg, ns = mvars(ctx, D)
    py = mkj(ctx, "mtfc", True, D)

    def body():
        py.frames = []
        if ctx.branch(Pred("counts")):
            kinds, form = ("int",) * D, "counts"
        elif D > 2:
            kinds = form = ("list", "np", "int") if ctx.branch(Pred("first")) else ("jnp", "int", "list") if ctx.branch(Pred("second")) else ("int", "list", "np")
        else:
            kinds = form = tuple("list" if ctx.branch(Pred(f"list{i}")) else "np" if ctx.branch(Pred(f"np{i}")) else "jnp" if ctx.branch(Pred(f"jnp{i}")) else "int" for i in range(D))
        fr0 = PyFrame(ctx)
        o, _ = mtfc_new(py, ctx, "C++", basis, D, deg, ns, form, "np", "list")
        covered(ctx, "init")
        b = py.getattr(o, "basisClass")
        if not isinstance(b, Inst) or ("made", b.id) not in ctx.store:
            raise Unsupported("basisClass")
        anC = toarr(py, ctx.store[("made", b.id)][4])
        ctx.oblige("ensures integer indices", TRUE if anC.dtype == "i" else FALSE)
        ctx.oblige("ensures one row of removed functions per dimension", TRUE if len(anC.shape) == 2 and anC.shape[0] == t(D) else FALSE)

        def pn():
            i = fresh("i")
            ctx.assume(Ge(i, 0))
            ctx.assume(Lt(i, anC.shape[1]))
            for k in range(D):
                ck = app("cnt", t(k), sort="Int")
                ctx.oblige("ensures room for every listed function", Ge(anC.shape[1], ck))
                got = reader(py, anC)((t(k), i))
                ctx.oblige_eq("ensures the functions given for dimension k are listed, then -1", got, (i if kinds[k] == "int" else NC2(t(k), i)) if ctx.branch(Lt(i, ck)) else t(-1))
        ctx.explore(pn)
        fr0.check("frame: the caller's arrays are unchanged")
    return run(ctx, body)


def mnames(cls, D):
    """named methods H, Hx, Hx2, Hxy, Hx2y ...: {name: orders}"""
    import re
    out = {}
    for c in cls.mro():
        for nm in getattr(c, "body", {}):
            g = re.fullmatch(r"H((?:[xyzw]\d*)*)", nm)
            if g:
                d = [0, 0, 0, 0]
                for v, k in re.findall(r"([xyzw])(\d*)", g.group(1)):
                    d["xyzw".index(v)] += int(k or 1)
                if not any(d[D:]):
                    out[nm] = tuple(d[:D])
    return out


def msetup(label, fns, D):
    ctx = mkctx(label)
    ctx.functions = fns
    deg, ns = mvars(ctx, D)
    py = mkj(ctx, "mtfc", True, D)
    n = var("n")
    ctx.assume(Ge(n, 1))
    ctx.assume(Ge(deg, 1))
    return ctx, py, n, deg, ns


def mpoints(py, n, D, nm="x", col=False):
    return [new(py, (n, t(1)) if col else (n,), lambda idx, k=k: app(nm, t(k), idx[0]), "f", nm) for k in range(D)]


def hbn(d, fu, r, j, D):
    return app("HBN", *[t(q) for q in d], t(1) if fu else t(0), *[app("x", t(k), r) for k in range(D)], j)


def mtfc_methods(D):
    ctx, py, n, deg, ns = msetup("mtfc.H", [f"mtfc.H, Hx, Hy, ... ({D} dimensions)", "mtfc.SetupJAX.Hjax", "mtfc.SetupJAX.H_impl"], D)
    names = mnames(py.glob(py.main, "mtfc"), D)
    need = {"H", "Hx", "Hx2"} | ({"Hy", "Hy2", "Hxy", "Hx2y"} if D > 1 else set()) | ({"Hz"} if D > 2 else set())
    ctx.oblige("the named methods exist", TRUE if need <= set(names) else FALSE)

    def body():
        py.frames = []
        full = Pred("full")
        backend = "C++" if ctx.branch(Pred("cxx")) else "Python"
        o, _ = mtfc_new(py, ctx, backend, "CP", D, deg, ns)
        x = mpoints(py, n, D)
        fu = ctx.branch(full)
        w = var("nbff") if fu else var("nbf")
        for nm, d in sorted(names.items()):
            ctx.label = f"mtfc.{nm}"
            fr = PyFrame(ctx)
            for kw in ({"full": full}, {}) if not fu else ({"full": full},):
                umat(ctx, py, call_method(py, o, nm, x, kw), n, w, lambda r, j: hbn(d, fu, r, j, D), f"ensures {nm} is the matrix of orders {d}")
            fr.check()
    return run(ctx, body)


def mtfc_jvp(D):
    ctx, py, n, deg, ns = msetup("mtfc.SetupJAX.H_jvp", [f"mtfc.SetupJAX.H_jvp ({D} dimensions)", "mtfc.SetupJAX.Hjax", "mtfc.SetupJAX.H_impl"], D)
    d = tuple(var(f"d{i}") for i in range(D))
    for q in d:
        ctx.assume(Ge(q, 0))

    def body():
        py.frames = []
        full = Pred("full")
        backend = "C++" if ctx.branch(Pred("cxx")) else "Python"
        o, _ = mtfc_new(py, ctx, backend, "CP", D, deg, ns)
        p, jv = sprim(py, ctx)
        ctx.oblige("a derivative rule is registered for the primitive", TRUE if jv is not None else FALSE)
        x = mpoints(py, n, D)
        fu = ctx.branch(full)
        w = var("nbff") if fu else var("nbf")
        dx = mpoints(py, n, D, "DX")
        zs = []
        for k in range(D):
            if ctx.branch(Pred(f"zero{k}")):
                dx[k] = Inst(py.zero)
                zs.append(k)
        fr = PyFrame(ctx)
        try:
            out = py.call(jv, [tuple(x), tuple(dx)], {"d": d, "full": full})
        except Raised as e:
            ctx.oblige(f"the rule returns (raised {e.kind})", FALSE)
        out = py.concrete(out)
        ctx.oblige("ensures value and tangent", TRUE if len(out) == 2 else FALSE)
        umat(ctx, py, out[0], n, w, lambda r, j: hbn(d, fu, r, j, D), "ensures the value is the matrix of orders d")

        def tan(r, j):
            s = t(0)
            for k in range(D):
                if k not in zs:
                    s = s + hbn([q + 1 if i == k else q for i, q in enumerate(d)], fu, r, j, D) * app("DX", t(k), r)
            return s
        umat(ctx, py, out[1], n, w, tan, "ensures the tangent is the sum over dimensions of the next-order matrix times the tangent")
        fr.check()
    return run(ctx, body)


def mtfc_lower(D):
    ctx, py, n, deg, ns = msetup("mtfc.SetupJAX.H_xla", [f"mtfc.SetupJAX.H_abstract_eval ({D} dimensions)", "mtfc.SetupJAX.H_xla", "mtfc.SetupJAX"], D)
    d = tuple(var(f"d{i}") for i in range(D))
    for q in d:
        ctx.assume(Ge(q, 0))

    def body():
        py.frames = []
        full = Pred("full")
        backend = "C++" if ctx.branch(Pred("cxx")) else "Python"
        ctx.store[("ffi", 0)] = ()
        o, _ = mtfc_new(py, ctx, backend, "CP", D, deg, ns)
        p, jv = sprim(py, ctx)
        b = py.getattr(o, "basisClass")
        fu = ctx.branch(full)
        w = var("nbff") if fu else var("nbf")
        ae = ctx.store.get(("f", p.id, "def_abstract_eval"))
        ctx.oblige("an abstract evaluation rule is registered", TRUE if ae is not None else FALSE)
        xa = [Rec1("ShapedArray", [], {"shape": (n,), "dtype": DType("f")}) for _ in range(D)]
        r = py.call(ae, xa, {"d": d, "full": full})
        if not isinstance(r, Rec1) or r.name != "ShapedArray":
            raise Unsupported("abstract evaluation result")
        sh = py.concrete(r.kw["shape"])
        ctx.oblige("ensures the abstract result is a matrix", TRUE if len(sh) == 2 else FALSE)
        ctx.oblige_eq("ensures abstract rows", sh[0], n)
        ctx.oblige_eq("ensures abstract columns", sh[1], w)
        low = ctx.store.get(("f", p.id, "lowering"))
        if backend == "Python":
            return
        ctx.oblige("a lowering is registered", TRUE if low is not None else FALSE)
        lowering(ctx, py, o, b, low, None, [d, full], w, n, D)
    return run(ctx, body)


def entry(fn, args):
    return globals()[fn](*args)


def main():
    import json
    from collections import Counter
    sys.setrecursionlimit(20000)
    for sp in sys.argv[1:]:
        fn, _, a = sp.partition(":")
        args = [json.loads(x) if x[:1] in "[0123456789{\"" else x for x in a.split("/")] if a else []
        t0 = time.time()
        try:
            c = entry(fn, args)
            uns = None
        except Unsupported as e:
            c, uns = Ctx.current, str(e)
            if os.environ.get("TB"):
                import traceback
                traceback.print_exc()
        print(sp, Counter(s for _, s, _ in c.obls), uns, f"{time.time()-t0:.1f}s", c.n_paths)
        for o in c.obls:
            if o[1] != "proved":
                print("  ", str(o)[:1500])


if __name__ == "__main__":
    main()
