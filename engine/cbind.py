"""contracts on the binding layer (BF_Py.cc): which constructor, method or member every Python name reaches, with which
arguments, what is returned, and who releases it.

The module initialisation function is executed on the real source; pybind11 itself is known only by the contracts below
(class_/def/init/array_t/capsule), and the library's methods only by the contracts proved of them in cbf.py."""
import os, re
from core import *
from cxx import *
from cxx import _bare
from cbf import mkctx, run, Frame, covered

BINDSRC = "/repo/src/tfc/utils/BF_Py.cc"


class Lam:
    """a captureless closure (or plain function): its call operator"""

    def __init__(self, decl):
        self.decl = decl


class ClassReg:
    def __init__(self, name, cls, bases):
        self.name, self.cls, self.bases = name, cls, bases
        self.methods, self.attrs, self.inits, self.args = {}, {}, [], {}


class Arr:
    """py::array_t: pointer to the elements in C order, dimensions, owner of the memory"""

    def __init__(self, ptr, dims, ndim=None, size=None, owner=None, shape=None):
        self.ptr, self.dims, self.owner, self.shape = ptr, dims, owner, shape
        self.ndim = t(len(dims)) if ndim is None else ndim
        self.size = size
        if size is None:
            self.size = t(1)
            for d in dims:
                self.size = self.size * d


class Made:
    """result of make_unique<T>(...) / new T(...)"""

    def __init__(self, cls, args):
        self.cls, self.args = cls, args


class Opaque:
    pass


def tyof(n):
    ty = n.get("type", {})
    return ty.get("desugaredQualType") or ty.get("qualType", "")


def short(q):
    q = re.sub(r"\b(class|struct|const)\s+", "", re.sub(r"\b(pybind11|std|py)::", "", q))
    return q.replace("&", "").strip()


class BindProg(Prog):
    def __init__(self, src):
        self.inst = {}
        super().__init__(src)

    def walk(self, node, cls):
        super().walk(node, cls)
        for n in node.get("inner", []):
            if n.get("kind") == "FunctionTemplateDecl":
                for f in n.get("inner", []):
                    if f.get("kind") == "FunctionDecl" and any(x.get("kind") == "CompoundStmt" for x in f.get("inner", [])):
                        self.inst[f["id"]] = f
            elif n.get("kind") == "FunctionDecl" and any(x.get("kind") == "CompoundStmt" for x in n.get("inner", [])):
                self.inst[n["id"]] = n


class Bind(Cxx):
    def __init__(self, ctx, prog, contracts=None):
        super().__init__(ctx, prog, contracts)
        self.classes = []

    # ---------------------------------------------------------------- values
    def x_LambdaExpr(self, n):
        rec = next(x for x in n["inner"] if x["kind"] == "CXXRecordDecl")
        if any(x["kind"] == "FieldDecl" for x in rec.get("inner", [])):
            raise Unsupported("lambda with captures")
        op = [x for x in rec.get("inner", []) if x["kind"] == "CXXMethodDecl" and x["name"] == "operator()"]
        if len(op) != 1:
            raise Unsupported("generic lambda")
        if not any(x.get("kind") == "CompoundStmt" for x in op[0].get("inner", [])):
            op[0] = dict(op[0], inner=op[0].get("inner", []) + [x for x in n["inner"] if x["kind"] == "CompoundStmt"])
        return Lam(op[0])

    def x_StringLiteral(self, n):
        v = n.get("value", "")
        return v[1:-1] if v.startswith('"') else v

    def pass_(self, n):
        return self.rv(n["inner"][0])

    def x_MaterializeTemporaryExpr(self, n):
        return self.rv(n["inner"][0])

    x_CXXBindTemporaryExpr = x_ExprWithCleanups = x_CXXFunctionalCastExpr = x_ConstantExpr = pass_

    def x_CXXReinterpretCastExpr(self, n):
        return self.x_ImplicitCastExpr(n)

    def x_DeclRefExpr(self, n):
        d = n["referencedDecl"]
        if d["kind"] == "FieldDecl":
            return ("member", self.prog.fieldname.get(d["id"]) or d.get("name"))
        if d["kind"] == "FunctionDecl":
            if d["id"] in self.prog.inst:
                return Lam(self.prog.inst[d["id"]])
            return ("func", d)
        if d["kind"] == "EnumConstantDecl":
            raise Unsupported("enumerator as value")
        return super().x_DeclRefExpr(n)

    def x_UnaryOperator(self, n):
        if n["opcode"] == "&":
            s = n["inner"][0]
            if s["kind"] == "DeclRefExpr" and s["referencedDecl"]["kind"] == "FieldDecl":
                return self.x_DeclRefExpr(s)
            if s["kind"] == "DeclRefExpr" and s["referencedDecl"]["kind"] == "FunctionDecl":
                return self.x_DeclRefExpr(s)
        return super().x_UnaryOperator(n)

    def lv(self, n):
        if n["kind"] in ("CXXBindTemporaryExpr",):
            return self.lv(n["inner"][0])
        if n["kind"] in ("CXXTemporaryObjectExpr", "CXXConstructExpr", "CXXFunctionalCastExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "LambdaExpr") and not (n["kind"] == "CXXOperatorCallExpr" and False):
            v = self.rv(n)
            if isinstance(v, Ref):
                return v.lv
            loc = ("l", self.frames[-1][0], fresh_name("tmp"))
            self.ctx.store[loc] = v
            return ("loc", loc)
        return super().lv(n)

    def val(self, n):
        while n["kind"] in ("MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ExprWithCleanups", "ConstantExpr"):
            n = n["inner"][0]
        if n["kind"] == "StringLiteral":
            return self.x_StringLiteral(n)
        v = self.argval(n)
        return self.load(v.lv) if isinstance(v, Ref) else v

    # ---------------------------------------------------------------- construction
    def x_CXXConstructExpr(self, n):
        q = short(tyof(n))
        kids = [k for k in n.get("inner", []) if k["kind"] != "CXXDefaultArgExpr"]
        if q.startswith("class_<"):
            if len(kids) == 1 and short(tyof(kids[0])).startswith("class_<"):
                return self.val(kids[0])
            ts = [x.strip() for x in q[len("class_<"):].rstrip(">").split(",")]
            name = self.val(kids[1])
            if not isinstance(name, str):
                raise Unsupported("computed class name")
            c = ClassReg(name, ts[0], ts[1:])
            self.classes.append(c)
            return c
        if q == "arg":
            return ("arg", self.val(kids[0])) if len(kids) == 1 else Opaque()
        if q == "dims":
            vals = [self.val(k) for k in kids]
            if len(vals) == 1 and isinstance(vals[0], tuple):
                return vals[0]
            return tuple(self.num(v) for v in vals)
        if q.startswith("array_t<"):
            vals = [self.val(k) for k in kids]
            if len(vals) == 1 and isinstance(vals[0], Arr):
                return vals[0]
            if not vals or not isinstance(vals[0], tuple) or len(vals) > 3:
                raise Unsupported("array_t constructor")
            return self.new_array_t(q, *vals)
        if q == "capsule":
            vals = [self.val(k) for k in kids]
            if len(vals) == 1:
                return vals[0]
            return ("owner", vals[0], vals[1])
        if q in ("handle", "object", "str"):
            return self.val(kids[0]) if len(kids) == 1 else Null()
        if q.startswith("(lambda") or q.startswith("unique_ptr<") or q.startswith("init_t<"):
            if len(kids) == 1:
                return self.val(kids[0])
        if q in ("basic_stringstream", "stringstream", "ostringstream", "string", "multiple_inheritance", "dynamic_attr", "value_error"):
            return Opaque()
        return super().x_CXXConstructExpr(n)

    x_CXXTemporaryObjectExpr = x_CXXConstructExpr

    def x_InitListExpr(self, n):
        if short(tyof(n)) in ("multiple_inheritance", "dynamic_attr"):
            return Opaque()
        return super().x_InitListExpr(n)

    def new_array_t(self, q, dims, ptr=None, owner=None):
        size = t(1)
        for d in dims:
            size = size * d
        el = "Int" if "<int" in q else "Real"
        if ptr is None or isinstance(ptr, Null):
            a = Ptr(self.ctx.new_array(size, None, "numpy", el))
            return Arr(a, dims, owner="numpy")
        if not isinstance(ptr, Ptr):
            raise Unsupported("array_t over " + type(ptr).__name__)
        self.ctx.oblige("array_t: the memory holds at least the announced number of entries", Ge(self.ctx.heap[ptr.arr].size - ptr.off, size) if not teq(self.ctx.heap[ptr.arr].size - ptr.off, size) else TRUE)
        if owner is None or isinstance(owner, Null):
            # without a base object pybind11 copies
            a = Ptr(self.ctx.new_array(size, None, "numpy", el))
            self.copy(a, ptr, size)
            return Arr(a, dims, owner="numpy")
        return Arr(ptr, dims, owner=owner)

    def x_CXXNewExpr(self, n):
        if not n.get("isArray"):
            c = next((k for k in n.get("inner", []) if k["kind"] == "CXXConstructExpr"), None)
            cls = short(tyof(n)).replace("*", "").strip()
            if c is None or cls not in self.prog.classes:
                raise Unsupported("new")
            return Made(cls, [self.val(k) for k in c.get("inner", []) if k["kind"] != "CXXDefaultArgExpr"])
        return super().x_CXXNewExpr(n)

    # ---------------------------------------------------------------- calls
    def x_CallExpr(self, n):
        f = n["inner"][0]
        while f["kind"] in ("ImplicitCastExpr", "ParenExpr"):
            f = f["inner"][0]
        if f["kind"] == "DeclRefExpr":
            d = f["referencedDecl"]
            args = n["inner"][1:]
            if d["kind"] in ("VarDecl", "ParmVarDecl"):
                v = self.val(f)
                if isinstance(v, Lam):
                    return self.invoke(None, v.decl, None, [self.argval(a) for a in args])
            if d["name"] == "init":
                return ("init", self.val(args[0]))
            if d["name"] == "make_unique":
                cls = short(tyof(n))
                cls = cls[len("unique_ptr<"):-1].strip() if cls.startswith("unique_ptr<") else cls
                return Made(cls, [self.val(a) for a in args])
            if d["name"] in ("cast", "reinterpret_borrow", "move"):
                return self.val(args[0])
            if d["id"] in self.prog.inst and d["name"] not in self.contracts:
                return self.invoke(None, self.prog.inst[d["id"]], None, [self.argval(a) for a in args])
        return super().x_CallExpr(n)

    def x_CXXOperatorCallExpr(self, n):
        f = n["inner"][0]
        while f["kind"] == "ImplicitCastExpr":
            f = f["inner"][0]
        nm = f.get("referencedDecl", {}).get("name", "")
        if nm == "operator()":
            v = self.val(n["inner"][1])
            if isinstance(v, Lam):
                return self.invoke(None, v.decl, None, [self.argval(a) for a in n["inner"][2:]])
        if nm in ("operator<<", "operator+"):
            v = self.val(n["inner"][1])
            if isinstance(v, Opaque):
                return v
        return super().x_CXXOperatorCallExpr(n)

    def x_CXXMemberCallExpr(self, n):
        me = n["inner"][0]
        while me["kind"] in ("ImplicitCastExpr", "ParenExpr"):
            me = me["inner"][0]
        on = me["inner"][0]
        q = short(tyof(on))
        name = me["name"]
        args = [a for a in n["inner"][1:] if a["kind"] != "CXXDefaultArgExpr"]
        if q.startswith("class_<"):
            c = self.val(on)
            if not isinstance(c, ClassReg):
                raise Unsupported("class_")
            self.register(c, name, [self.val(a) for a in args])
            loc = ("l", self.frames[-1][0], fresh_name("tmp"))
            self.ctx.store[loc] = c
            return Ref(("loc", loc))
        if q.startswith("array_t<"):
            a = self.val(on)
            if not isinstance(a, Arr):
                raise Unsupported("array_t")
            if name == "ndim":
                return a.ndim
            if name == "size":
                return a.size
            if name in ("data", "mutable_data") and not args:
                return a.ptr
            if name == "shape":
                sh = self.shape(a)
                return sh if not args else self.ctx.read(sh, self.num(self.val(args[0])))
            raise Unsupported("array_t::" + name)
        if q.startswith("(lambda") and name.startswith("operator "):
            return self.val(on)
        if q in ("stringstream", "ostringstream", "string", "basic_stringstream", "ostream"):
            return Opaque()
        if q.startswith("unique_ptr<") and name in ("release", "get"):
            return self.val(on)
        return super().x_CXXMemberCallExpr(n)

    def shape(self, a):
        if a.shape is None:
            ds = a.dims
            a.shape = Ptr(self.ctx.new_array(a.ndim, None, "shape", "Int"))
            for i, d in enumerate(ds):
                self.ctx.write(a.shape, t(i), d)
        return a.shape

    def register(self, c, name, args):
        lits = [a for a in args if isinstance(a, tuple) and a and a[0] == "arg"]
        if name == "def" and isinstance(args[0], tuple) and args[0][0] == "init":
            c.inits.append((args[0][1], [a[1] for a in lits]))
        elif name == "def":
            if not isinstance(args[0], str):
                raise Unsupported("computed name")
            c.methods.setdefault(args[0], []).append((args[1], [a[1] for a in lits]))
        elif name in ("def_readwrite", "def_readonly"):
            c.attrs[args[0]] = args[1]
        elif name == "def_property":
            c.attrs[args[0]] = ("property", args[1], args[2])
        elif name == "def_property_readonly":
            c.attrs[args[0]] = ("property", args[1], None)
        else:
            raise Unsupported("class_::" + name)


def bindings(prog):
    """execute the module initialisation; returns {Python name: ClassReg}"""
    ctx = mkctx("module initialisation")
    fe = Bind(ctx, prog)
    m = prog.funcs.get("pybind11_module_init")
    if m is None:
        raise Unsupported("no module initialisation")
    out = {}

    def body():
        fe.frames, fe.classes = [], []
        fe.invoke(None, m, None, [Opaque()])
        for c in fe.classes:
            out[c.name] = c
    ctx.explore(body)
    return ctx, out


# ---------------------------------------------------------------- contracts
ONE = ["CP", "LeP", "LaP", "HoPpro", "HoPphy", "FS", "ELMSigmoid", "ELMReLU", "ELMTanh", "ELMSin", "ELMSwish"]
ND = ["nCP", "nLeP", "nFS", "nELMSigmoid", "nELMTanh", "nELMSin", "nELMSwish", "nELMReLU"]


def pyarr(ctx, p, name, nd, dims=None):
    """array argument as pybind11 hands it over: C-ordered only when the parameter asks for it"""
    q = short(tyof(p)).replace(" >", ">")
    q = re.sub(r"array::c_style", "1", re.sub(r"array::forcecast", "16", re.sub(r"array::f_style", "2", q)))
    q = re.sub(r", ([\d| ]+)>$", lambda k: ", " + str(eval(k[1])) + ">", q)
    m = re.match(r"array_t<(double|int)(?:, (\d+))?>$", q)
    if not m:
        raise Unsupported("parameter type " + q)
    el = "Int" if m[1] == "int" else "Real"
    corder = m[2] is not None and int(m[2]) & 1
    f = (lambda i: app(name, i, sort=el)) if corder else (lambda i: app("unordered_" + name, i, sort=el))
    if nd is None:
        k, size = var(name + "_ndim"), var(name + "_size")
        ctx.assume(Ge(k, 0))
        ctx.assume(Ge(size, 0))
        sh = lambda i: app("shape_" + name, t(i), sort="Int")
        ctx.assume(Or(Ne(k, 1), Eq(size, sh(0))))
        ctx.assume(Or(Ne(k, 2), Eq(size, sh(0) * sh(1))))
        a = Arr(Ptr(ctx.new_array(size, f, name, el)), (), ndim=k, size=size)
        a.shape = Ptr(ctx.new_array(k, sh, "shape", "Int"))
        return a
    size = t(1)
    for d in dims:
        size = size * d
    return Arr(Ptr(ctx.new_array(size, f, name, el)), tuple(dims))


def same_data(ctx, p, n, name, el="Real"):
    """p points to n readable entries equal to the caller's"""
    if not isinstance(p, Ptr):
        raise Unsupported("data pointer")

    def post():
        i = fresh("i")
        ctx.assume(Ge(i, 0))
        ctx.assume(Lt(i, n))
        ctx.oblige_eq(f"requires {name} = the values given, in C order", ctx.read(p, i), app(name, i, sort=el))
    ctx.explore(post)


def outs(locs):
    ls = [l.loc if isinstance(l, LocPtr) else None for l in locs]
    if None in ls or len(set(ls)) != len(ls):
        raise Unsupported("out-parameters")
    return ls


def attr(R, name, a, kind="attrs"):
    """Python attribute lookup along the registered bases"""
    todo = [name]
    while todo:
        c = R.get(todo.pop(0))
        if c is None:
            continue
        d = getattr(c, kind)
        if a in d:
            return d[a]
        todo += [k.name for b in c.bases for k in R.values() if k.cls == b]
    return None


def returned(ctx, fe, fr, r, dims, elem, what, obj=None, held=()):
    """the returned array: shape, entries; releasing it (Python drops the array) frees what was allocated and nothing else"""
    if not isinstance(r, Arr):
        raise Unsupported("returned " + type(r).__name__)
    ctx.oblige(f"ensures {what}: number of dimensions", TRUE if len(r.dims) == len(dims) else FALSE)
    for k, (a, b) in enumerate(zip(r.dims, dims)):
        ctx.oblige_eq(f"ensures {what}: dimension {k}", a, b)
    size = t(1)
    for d in dims:
        size = size * d

    def post():
        i = fresh("i")
        ctx.assume(Ge(i, 0))
        ctx.assume(Lt(i, size))
        ctx.oblige_eq(f"ensures {what}: values", ctx.read(r.ptr, i), elem(i))
    ctx.explore(post)
    o = r.owner
    if o == "numpy":
        if r.ptr.arr in ctx.heap:
            del ctx.heap[r.ptr.arr]
    elif isinstance(o, Obj):
        ctx.oblige("ensures the memory is not released before the array (it belongs to the object kept alive)", TRUE if r.ptr.arr in held and o is obj else FALSE)
    elif isinstance(o, tuple) and o[0] == "owner":
        fn = o[2]
        if isinstance(fn, Lam):
            fe.frames.append((0, None))
            fe.invoke(None, fn.decl, None, [o[1]])
            fe.frames.pop()
        elif isinstance(fn, tuple) and fn[0] == "func" and fn[1].get("name") == "free":
            p = o[1]
            if not isinstance(p, Ptr) or p.arr not in ctx.heap:
                fe.fail("free")
            del ctx.heap[p.arr]
        else:
            raise Unsupported("capsule destructor")
        ctx.oblige("ensures the array returned is what is released with its capsule", TRUE if isinstance(o[1], Ptr) and o[1].arr == r.ptr.arr else FALSE)
    else:
        raise Unsupported("owner of the returned array")


def many(label, todo):
    """run several contracts, collect the obligations in one report"""
    total, last, f = [], None, []
    for fn in todo:
        ctx = fn()
        f.append(ctx.label)
        total += ctx.obls
        last = ctx
    last.obls = total
    last.functions = list(dict.fromkeys(f))
    return last


def freshen(fr, ctx):
    """shape tables handed out by array arguments belong to the caller"""
    for a in [a for a, h in ctx.heap.items() if h.name == "shape" and a not in fr.heap]:
        del ctx.heap[a]


def registered(R, name, ctx):
    c = R.get(name)
    ctx.oblige(f"ensures {name} names the C++ class {name}", TRUE if c is not None and c.cls == name else FALSE)
    return c


def bind_ctor(prog, names):
    names = names.split()
    ctx0, R = bindings(prog)
    return many("constructors", [lambda: ctx0] + [(lambda k=k, g=g: one_ctor(prog, R, k, g)) for k in names for g in (True, False)])


def one_ctor(prog, R, name, good):
    ctx = mkctx(f"binding of {name}.__init__")
    nd = name.startswith("n")
    elm = nd and "ELM" in name

    def body():
        c = registered(R, name, ctx)
        fe = Bind(ctx, prog)
        if len(c.inits) != 1 or not isinstance(c.inits[0][0], Lam):
            raise Unsupported("constructors of " + name)
        lam, an = c.inits[0]
        if an:
            ctx.oblige("ensures keyword names x0, xf, nC, min in this order", TRUE if an == ["x0", "xf", "nC", "min"] else FALSE)
        ps = prog.params(lam.decl)
        if len(ps) != 4:
            raise Unsupported("parameters of the constructor of " + name)
        m, k0, k1, D, D2 = var("min"), var("nC0"), var("nC1"), var("dim"), var("dimf")
        for q in (m, k0, k1, D, D2):
            ctx.assume(Ge(q, 0))
        if not nd:
            x0, xf = var("x0", "Real"), var("xf", "Real")
            A = [x0, xf, pyarr(ctx, ps[2], "nC", *((1, (k0,)) if good else (None,))), m]
        else:
            A = [pyarr(ctx, ps[0], "x0", *((1, (D,)) if good else (None,))), pyarr(ctx, ps[1], "xf", *((1, (D2,)) if good else (None,))),
                 pyarr(ctx, ps[2], "nC", *((1, (k0,)) if elm else (2, (k0, k1))) if good else (None,)), m]
        fr = Frame(ctx)
        fe.frames = []
        try:
            r = fe.invoke(None, lam.decl, None, A)
        except Thrown:
            if good:
                ctx.oblige("ensures arrays of the right dimensions are accepted", FALSE)
            return
        covered(ctx, name)
        if not good:
            return
        if not isinstance(r, Made):
            raise Unsupported("constructor returns " + type(r).__name__)
        ctx.oblige(f"ensures an object of class {name} is made", TRUE if r.cls == name else FALSE)
        want = [("x0", x0), ("xf", xf), ("nC", None), ("ncDim0", k0), ("min", m)] if not nd else \
            [("x0", None), ("x0Dim0", D), ("xf", None), ("xfDim0", D2), ("nC", None), ("ncDim0", k0)] + ([] if elm else [("ncDim1", k1)]) + [("min", m)]
        ctx.oblige("requires the constructor's number of arguments", TRUE if len(r.args) == len(want) else FALSE)
        size = {"x0": D, "xf": D2, "nC": k0 if (elm or not nd) else k0 * k1}
        for (nm, v), a in zip(want, r.args):
            if v is None:
                same_data(ctx, a, size[nm], nm, "Int" if nm == "nC" else "Real")
            else:
                ctx.oblige_eq(f"requires argument {nm}", fe.num(a), v)
        freshen(fr, ctx)
        fr.check([])
    return run(ctx, body)


def bind_H(prog, names):
    ctx0, R = bindings(prog)
    seen, todo = set(), [lambda: ctx0]
    for k in names.split():
        L = attr(R, k, "H", "methods")
        if not L or len(L) != 1 or not isinstance(L[0][0], Lam):
            raise Unsupported("H of " + k)
        if L[0][0].decl["id"] in seen:
            continue
        seen.add(L[0][0].decl["id"])
        todo += [(lambda k=k, L=L, g=g: one_H(prog, R, k, L[0], g)) for g in (True, False)]
    return many("H", todo)


def one_H(prog, R, name, L, good):
    ctx = mkctx(f"binding of {name}.H")
    nd = name.startswith("n")
    lam, an = L

    def body():
        fe = Bind(ctx, prog)
        ps = prog.params(lam.decl)
        if an:
            ctx.oblige("ensures keyword names x, d, full in this order", TRUE if an == ["x", "d", "full"] else FALSE)
        if len(ps) != 4:
            raise Unsupported("parameters of H")
        n, D, dl, m, mm = var("n"), var("cols"), var("dlen"), var("width"), var("widthFull")
        for q in (n, D, dl, m, mm):
            ctx.assume(Ge(q, 0))
        full, d = Pred("full"), var("d")
        obj = Obj("this", name)
        fe.ctx.store[("f", "this", "BasisFunc::m")] = var("m")
        x = pyarr(ctx, ps[1], "x", *((2, (n, D)) if nd else (1, (n,))) if good else (None,))
        if nd:
            d = pyarr(ctx, ps[2], "d", *(1, (dl,)) if good else (None,))
        calls = []

        def H(fe, o, args):
            if nd:
                if len(args) != 9:
                    return NotImplemented
                xp, n_, D_, dp, dl_, on, om, oF, fl = args
                if good:
                    same_data(ctx, xp, n * D, "x")
                    same_data(ctx, dp, dl, "d", "Int")
                    ctx.oblige_eq("requires number of orders", fe.num(dl_), dl)
                    ctx.oblige_eq("requires number of coordinates", fe.num(D_), D)
                else:
                    readable(xp, fe.num(n_) * fe.num(D_))
                    readable(dp, fe.num(dl_))
            else:
                if len(args) != 7:
                    return NotImplemented
                xp, n_, d_, on, om, oF, fl = args
                if good:
                    same_data(ctx, xp, n, "x")
                ctx.oblige_eq("requires the derivative order", fe.num(d_), d)
                if not good:
                    readable(xp, fe.num(n_))
            if good:
                ctx.oblige_eq("requires number of points", fe.num(n_), n)
            ctx.oblige("requires the object", TRUE if o is obj else FALSE)
            f1 = fe.boolean(fl)
            ctx.oblige("requires the full flag", Or(And(f1, full), And(Not(f1), Not(full))))
            w = mm if ctx.branch(full) else m
            N = n if good else fe.num(n_)
            ln, lm, lF = outs([on, om, oF])
            ctx.store[ln], ctx.store[lm] = N, w
            ctx.store[lF] = Ptr(ctx.new_array(N * w, lambda i: app("Hvalue", i), "F"))
            calls.append((N, w))

        def readable(p, cnt):
            i = fresh("i")

            def post():
                ctx.assume(Ge(i, 0))
                ctx.assume(Lt(i, cnt))
                ctx.read(p, i)
            ctx.explore(post)
        fe.contracts = {"H": H}
        fr = Frame(ctx)
        fe.frames = []
        try:
            r = fe.invoke(None, lam.decl, None, [obj, x, d, full])
        except Thrown:
            if good:
                ctx.oblige("ensures arrays of the right dimensions are accepted", FALSE)
            return
        covered(ctx, name)
        if not good:
            return
        ctx.oblige("ensures H is evaluated", TRUE if calls else FALSE)
        N, w = calls[-1]
        returned(ctx, fe, fr, r, (N, w), lambda i: app("Hvalue", i), "the matrix of H")
        freshen(fr, ctx)
        fr.check([])
    return run(ctx, body)


def getter(fe, prog, v, obj):
    if isinstance(v, tuple) and v[0] == "member":
        return fe.load(("loc", ("f", obj.name, v[1])))
    if isinstance(v, tuple) and v[0] == "property" and isinstance(v[1], Lam):
        return fe.invoke(None, v[1].decl, None, [obj])
    raise Unsupported("attribute")


SCALAR = {"BasisFunc": ["z0", "x0", "c", "m", "numC", "identifier", "xlaCapsule"], "nBasisFunc": ["z0", "zf", "dim", "numBasisFunc", "numBasisFuncFull", "c", "identifier", "xlaCapsule"]}


def bind_attrs(prog, base):
    """every attribute reads the member of the same name"""
    ctx0, R = bindings(prog)
    ctx = mkctx(f"binding of the attributes of {base}")
    cls = {"BasisFunc": "CP", "nBasisFunc": "nCP"}[base]

    def body():
        fe = Bind(ctx, prog)
        obj = Obj("this", cls)
        for nm in SCALAR[base]:
            own = "nBasisFunc" if base == "nBasisFunc" and nm not in ("identifier", "xlaCapsule") else "BasisFunc"
            for o in ("BasisFunc", "nBasisFunc"):
                # members of the same name in base and derived class are different members
                ctx.store[("f", "this", f"{o}::{nm}")] = var(f"{o}_{nm}", "Int" if nm in ("m", "numC", "identifier", "dim", "numBasisFunc", "numBasisFuncFull") else "Real")
            dim = var("dim")
            if base == "nBasisFunc":
                ctx.assume(Ge(dim, 1))
                ctx.store[("f", "this", "nBasisFunc::dim")] = dim
            carr = None
            if nm == "c" and base == "nBasisFunc":
                carr = Ptr(ctx.new_array(dim, lambda i: app("cvals", i), "c"))
                ctx.store[("f", "this", "nBasisFunc::c")] = carr
            if nm == "xlaCapsule":
                ctx.store[("f", "this", "BasisFunc::xlaCapsule")] = ("thecapsule",)
            fr = Frame(ctx)
            fe.frames = [(0, None)]
            v = attr(R, cls, nm)
            if v is None:
                ctx.oblige(f"ensures attribute {nm} exists", FALSE)
            r = getter(fe, prog, v, obj)
            if carr is not None:
                returned(ctx, fe, fr, r, (dim,), lambda i: app("cvals", i), "c", obj, (carr.arr,))
            elif nm == "xlaCapsule":
                ctx.oblige("ensures xlaCapsule is the object's capsule", TRUE if r == ("thecapsule",) else FALSE)
            else:
                ctx.oblige_eq(f"ensures {nm} is the member {own}::{nm}", fe.num(r), ctx.store[("f", "this", f"{own}::{nm}")])
            fr.check([])
    run(ctx, body)
    ctx.obls = ctx0.obls + ctx.obls
    return ctx


def bind_weights(prog, base):
    ctx0, R = bindings(prog)
    nd = base == "nELM"
    names = [k for k in (ND if nd else ONE) if "ELM" in k]
    todo, seen = [lambda: ctx0], set()
    for k in names:
        for a in ("w", "b"):
            v = attr(R, k, a)
            if not (isinstance(v, tuple) and v[0] == "property" and isinstance(v[1], Lam) and isinstance(v[2], Lam)):
                raise Unsupported(f"attribute {a} of {k}")
            key = (a, v[1].decl["id"], v[2].decl["id"])
            if key in seen:
                continue
            seen.add(key)
            todo += [(lambda k=k, a=a, v=v, w=w: one_weight(prog, nd, k, a, v, w)) for w in ("get", "set", "setbad")]
    return many("weights", todo)


def one_weight(prog, nd, name, a, v, what):
    ctx = mkctx(f"binding of {name}.{a} ({what[:3]})")
    two = nd and a == "w"

    def body():
        fe = Bind(ctx, prog)
        obj = Obj("this", name)
        m, dim = var("m"), var("dim")
        ctx.assume(Ge(m, 1))
        ctx.assume(Ge(dim, 1))
        ctx.store[("f", "this", "BasisFunc::m")] = m
        ctx.store[("f", "this", "nBasisFunc::dim")] = dim
        calls = []
        fe.frames = []

        def get(nm):
            def g(fe, o, args):
                ctx.oblige("requires the object", TRUE if o is obj else FALSE)
                if nd and nm == "w":
                    ld, ln, lp = outs(args)
                    ctx.store[ld] = dim
                else:
                    lp, ln = outs(args)
                ctx.store[ln] = m
                ctx.store[lp] = Ptr(ctx.new_array(m * dim if nd and nm == "w" else m, lambda i: app("stored_" + nm, i), "copy"))
            return g

        def put(nm):
            def g(fe, o, args):
                ctx.oblige("requires the object", TRUE if o is obj else FALSE)
                ctx.oblige(f"ensures assigning {a} sets {a}", TRUE if nm == a else FALSE)
                calls.append(args)
            return g
        fe.contracts = {"getW": get("w"), "getB": get("b"), "setW": put("w"), "setB": put("b")}
        if what == "get":
            fr = Frame(ctx)
            r = fe.invoke(None, v[1].decl, None, [obj])
            covered(ctx, name)
            returned(ctx, fe, fr, r, (dim, m) if two else (m,), lambda i: app("stored_" + a, i), a)
            fr.check([])
            return
        ps = prog.params(v[2].decl)
        s0, s1 = var("s0"), var("s1")
        ctx.assume(Ge(s0, 0))
        ctx.assume(Ge(s1, 0))
        good = what == "set"
        if good:
            arr = pyarr(ctx, ps[1], "given", *((2, (s0, s1)) if two else (1, (s0,))))
        else:
            arr = pyarr(ctx, ps[1], "given", None)
        fr = Frame(ctx)
        try:
            fe.invoke(None, v[2].decl, None, [obj, arr])
        except Thrown:
            if good:
                # refusing a wrong size here instead of in the setter is the same behaviour
                ctx.oblige("ensures an array of the right size is accepted", Or(Ne(s0, dim), Ne(s1, m)) if two else Ne(s0, m))
            return
        covered(ctx, name)
        if len(calls) != 1:
            raise Unsupported("setter calls")
        if two:
            p, d_, n_ = calls[0]
        else:
            p, n_ = calls[0]
        if good:
            same_data(ctx, p, s0 * s1 if two else s0, "given")
            ctx.oblige_eq("requires the number of weights", fe.num(n_), s1 if two else s0)
            if two:
                ctx.oblige_eq("requires the dimension", fe.num(d_), s0)
        elif not two:
            i = fresh("i")

            def post():
                ctx.assume(Ge(i, 0))
                ctx.assume(Lt(i, fe.num(n_)))
                ctx.read(p, i)
            ctx.explore(post)
        freshen(fr, ctx)
        fr.check([])
    return run(ctx, body)


def entry(fn, args):
    return globals()[fn](BindProg(os.environ.get("TFC_REPO", "/repo") + "/src/tfc/utils/BF_Py.cc"), *args)


if __name__ == "__main__":
    import sys
    for fn, args in (("bind_ctor", [" ".join(ONE)]), ("bind_ctor", [" ".join(ND)]), ("bind_H", [" ".join(ONE)]), ("bind_H", [" ".join(ND)]), ("bind_attrs", ["BasisFunc"]), ("bind_attrs", ["nBasisFunc"]), ("bind_weights", ["ELM"]), ("bind_weights", ["nELM"])):
        try:
            c = entry(fn, args)
            print(fn, len(c.obls), [o for o in c.obls if o[1] != "proved"][:4])
        except Unsupported as e:
            import traceback
            print(fn, "UNSUPPORTED", e)
            if len(sys.argv) > 1:
                traceback.print_exc()
