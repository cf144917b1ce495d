"""Contracts on the constrained-expression solver (src/tfc/utils/CeSolver.py): any number of constraints, any history of edits and reads."""
from cpy import *
from cjax import tfcprint
from core import Refuted

N = var("n")


class SM:
    """a sympy matrix: shape and entries (a closed term, so that values can be compared and stored)"""

    def __init__(self, rows, cols, fn):
        self.rows, self.cols = t(rows), t(cols)
        u, v = fresh("u"), fresh("v")
        self.u, self.v, self.body = u, v, fn(u, v)
        self.key = binder("MAT", u, 0, self.rows, binder("ROW", v, 0, self.cols, self.body))

    def get(self, i, j):
        return subst(self.body, {single_atom(self.u).id: t(i), single_atom(self.v).id: t(j)})

    def __eq__(self, o):
        return isinstance(o, SM) and (o.rows, o.cols, o.key) == (self.rows, self.cols, self.key)

    def __hash__(self):
        return hash(self.key)


class In:
    """an input sequence (constraints C, values K or support functions s), identified by a token"""

    def __init__(self, kind, tok):
        self.kind, self.tok = kind, tok

    def __eq__(self, o):
        return isinstance(o, In) and (o.kind, o.tok) == (self.kind, self.tok)

    def __hash__(self):
        return hash((self.kind, self.tok))

    def item(self, i):
        return COp(self.tok, i) if self.kind == "C" else app("EXPR_" + self.kind, self.tok, i)


class COp:
    """a linear operator"""

    def __init__(self, tok, i):
        self.tok, self.i = tok, t(i)

    def call(self, py, a, k):
        if len(a) != 1 or k or not isinstance(a[0], T):
            raise Unsupported("operator applied to this")
        return app("APPLY", self.tok, self.i, a[0])


def simplify(py, a, k):
    return a[0]


def matrix(py, a, k):
    if len(a) != 1 or k:
        raise Unsupported("Matrix arguments")
    if isinstance(a[0], SM):
        return a[0]
    s = py.iterate(a[0])
    if isinstance(s, list) and len(s) == 1 and not isinstance(s[0], T):
        r = py.iterate(s[0])
        if isinstance(r, Seq):
            return SM(1, r.count(), lambda i, j: val_at(py, r, j))
    if not isinstance(s, Seq):
        raise Unsupported("matrix of given entries")

    def row(i):
        r = s.item(i)
        return r if isinstance(r, T) else py.iterate(r)
    u, r = generic(py, s, lambda u: (row(u),))
    if isinstance(r[0], T):
        return SM(s.count(), 1, lambda i, j: val_at(py, s, i))
    c = r[0].count()
    return SM(s.count(), c, lambda i, j: entry_at(py, s, c, i, j))


def val_at(py, s, i):
    out = []

    def body():
        py.ctx.assume(And(Ge(i, 0), Lt(i, s.count())))
        return s.item(i)
    rs = py.ctx.explore(body)
    if len(rs) != 1 or not isinstance(rs[0][1], T):
        raise Unsupported("entries of a matrix")
    return rs[0][1]


def entry_at(py, s, c, i, j):
    def body():
        py.ctx.assume(And(Ge(i, 0), Lt(i, s.count()), Ge(j, 0), Lt(j, c)))
        x = s.item(i)
        return py.iterate(x).item(j)
    rs = py.ctx.explore(body)
    if len(rs) != 1 or not isinstance(rs[0][1], T):
        raise Unsupported("entries of a matrix")
    return rs[0][1]


def matmul(py, a, b):
    if not (a.cols == b.rows or py.ctx.known(Eq(a.cols, b.rows)) is True):
        raise Raised("ShapeError")

    def cell(i, j):
        k = fresh("k")
        return binder("SUM", k, 0, a.cols, a.get(i, k) * b.get(k, j))
    return SM(a.rows, b.cols, cell)


def sm_inv(py, m):
    return SM(m.rows, m.cols, lambda i, j: app("INV", m.key, i, j))


def sm_attr(py, m, name):
    if name == "inv":
        return Builtin("inv", lambda py, a, k: sm_inv(py, m) if not a and not k else (_ for _ in ()).throw(Unsupported("inv method")))
    if name == "transpose":
        return Builtin("transpose", lambda py, a, k: SM(m.cols, m.rows, lambda i, j: m.get(j, i)))
    if name == "T":
        return SM(m.cols, m.rows, lambda i, j: m.get(j, i))
    if name == "shape":
        return (m.rows, m.cols)
    if name == "dot":
        raise Unsupported("Matrix.dot")
    return NotImplemented


def sm_binop(py, op, a, b):
    if isinstance(a, SM) and isinstance(b, SM):
        if op in ("Mult", "MatMult"):
            return matmul(py, a, b)
        if op in ("Add", "Sub") and (a.rows, a.cols) == (b.rows, b.cols):
            return SM(a.rows, a.cols, lambda i, j: a.get(i, j) + (b.get(i, j) if op == "Add" else -b.get(i, j)))
    if op == "Mult" and isinstance(a, SM) and isinstance(b, T):
        return SM(a.rows, a.cols, lambda i, j: a.get(i, j) * b)
    if op == "Mult" and isinstance(b, SM) and isinstance(a, T):
        return SM(b.rows, b.cols, lambda i, j: a * b.get(i, j))
    return NotImplemented


def sm_get(py, m, k):
    if isinstance(k, T) and k.iconst() == 0:
        return m.get(0, 0)
    if isinstance(k, tuple) and len(k) == 2 and all(isinstance(x, T) for x in k):
        return m.get(*k)
    if isinstance(k, T) and isone(m.rows):
        return m.get(0, k)
    raise Unsupported("subscript of a matrix")


ATTR[SM], BINOP[SM], GETITEM[SM] = sm_attr, sm_binop, sm_get
UNOP[SM] = lambda py, op, m: SM(m.rows, m.cols, lambda i, j: -m.get(i, j))
ITER[In] = lambda py, s: Seq(N, s.item)
GETITEM[In] = lambda py, s, k: s.item(k)
LEN[In] = lambda py, s: N
ISINST[SM] = lambda py, m, ty: getattr(ty, "name", "") == "Matrix"
ISINST[In] = lambda py, m, ty: getattr(ty, "name", "") in ("tuple", "list")


def sympy():
    M = ModelType("Matrix")
    M.new = matrix
    d = {"Matrix": M, "MatMul": ModelType("MatMul"), "Expr": ModelType("Expr"), "Symbol": ModelType("Symbol"),
         "Add": Builtin("Add", lambda py, a, k: sum_(py, a)), "Mul": Builtin("Mul", lambda py, a, k: prod_(py, a)), "simplify": Builtin("simplify", simplify)}
    return Ns("sympy", d)


def sum_(py, a):
    r = a[0]
    for x in a[1:]:
        r = py.binop("Add", r, x)
    return r


def prod_(py, a):
    r = a[0]
    for x in a[1:]:
        r = py.binop("Mult", r, x)
    return r


def setup(label):
    ctx = mkctx(label)
    sp = sympy()
    l = {"sympy": sp, "re": Ns("re", {}), "sympy.core.function": Ns("f", {"AppliedUndef": ModelType("AppliedUndef")}),
         "sympy.printing.pycode": Ns("p", {"PythonCodePrinter": ModelType("PythonCodePrinter")}),
         "sympy.simplify.simplify": Ns("s", {"nc_simplify": Builtin("nc_simplify", lambda py, a, k: (_ for _ in ()).throw(Unsupported("nc_simplify")))})}
    py = mkpy(ctx, ["CeSolver"], None, l)
    tp = tfcprint()
    ctx.store[("g", py.main.name, "TFCPrint")] = tp
    py.hooks[(py.main.name, "TFCPrint")] = tp
    ctx.assume(Ge(N, 1))
    return ctx, py


class Spec:
    """what a fresh solver with these inputs reports"""

    def __init__(self, tok, phi=None, ce=None):
        self.C, self.K, self.s, self.g = In("C", tok["C"]), In("K", tok["K"]), In("s", tok["s"]), tok["g"]
        self.S = SM(N, N, lambda i, j: self.C.item(i).call(None, [self.s.item(j)], {}))
        self.alpha = SM(N, N, lambda i, j: app("INV", self.S.key, i, j))

        def ph(i, j):
            k = fresh("k")
            return binder("SUM", k, 0, N, self.s.item(k) * self.alpha.get(k, j))
        self.phi = phi if phi is not None else SM(1, N, ph)
        self.rho = SM(N, 1, lambda i, j: self.K.item(i) - self.C.item(i).call(None, [self.g], {}))
        k = fresh("k")
        self.ce = ce if ce is not None else self.g + binder("SUM", k, 0, N, self.phi.get(0, k) * self.rho.get(k, 0))


def toks(v):
    """tokens (atoms) occurring in a value"""
    if isinstance(v, T):
        out = set()
        stack = [v]
        seen = set()
        while stack:
            x = stack.pop()
            for i in x.atoms():
                if i in seen:
                    continue
                seen.add(i)
                a = atom(i)
                if a.kind == "var" and a.name.startswith("tok"):
                    out.add(i)
                stack += [y for y in a.args if isinstance(y, T)]
        return out
    if isinstance(v, SM):
        return toks(v.key)
    if isinstance(v, In):
        return toks(v.tok)
    if isinstance(v, (F, str)) or v is None:
        return set()
    raise Unsupported("state value " + type(v).__name__)


CUR = {k: var("tokcur_" + k, "Real") for k in ("C", "K", "s", "g", "phi", "ce")} if True else None


def rename(v, m):
    if isinstance(v, T):
        return subst(v, m)
    if isinstance(v, SM):
        return SM(subst(v.rows, m), subst(v.cols, m), lambda i, j: subst(v.get(i, j), m))
    if isinstance(v, In):
        return In(v.kind, subst(v.tok, m))
    return v


class Garbage:
    """a value computed from inputs that have been replaced"""

    def __init__(self, kind):
        self.kind = kind

    def __eq__(self, o):
        return isinstance(o, Garbage) and o.kind == self.kind

    def __hash__(self):
        return hash(self.kind)


def user_phi(tok):
    return SM(1, N, lambda i, j: app("UPHI", tok, j))


def history():
    ctx, py = setup("CeSolver: every history of edits and reads")
    ctx.functions = ["CeSolver.__init__"] + ["CeSolver." + x for x in ("S", "alpha", "phi", "rho", "ce", "s", "kappa", "C", "g (getters)", "s", "kappa", "C", "g", "phi", "ce (setters)", "_solveCe")]
    cls = py.glob(py.main, "CeSolver")
    READS = ("S", "alpha", "phi", "rho", "ce", "s", "kappa", "C", "g")
    WRITES = ("s", "kappa", "C", "g", "phi", "ce")
    cnt = [0]

    def newtok():
        cnt[0] += 1
        return var(f"tok{cnt[0]}", "Real")

    def inp(kind, tok):
        return tok if kind == "g" else user_phi(tok) if kind == "phi" else app("UCE", tok) if kind == "ce" else In({"kappa": "K"}.get(kind, kind), tok)

    def canon(fields, gh):
        """gh: {C,K,s,g,phi,ce -> token or None}"""
        m, live = {}, set()
        for k, tk in gh.items():
            if tk is not None:
                m[single_atom(tk).id] = CUR[k]
                live.add(single_atom(tk).id)
        out = {}
        for nm, v in fields.items():
            ts = toks(v)
            out[nm] = rename(v, m) if ts <= live else Garbage(type(v).__name__)
        return tuple(sorted(out.items(), key=lambda z: z[0])), tuple(sorted((k, v is not None) for k, v in gh.items()))

    def fields(o):
        return {k[2]: v for k, v in ctx.store.items() if k[0] == "f" and k[1] == o.id}

    def load(st):
        fs, gh = st
        o = Inst(cls)
        for nm, v in fs:
            if isinstance(v, Garbage):
                tk = newtok()
                v = {"T": lambda: tk, "SM": lambda: SM(N, N, lambda i, j: app("JUNK", tk, i, j)), "In": lambda: In("junk", tk)}[v.kind]()
            ctx.store[("f", o.id, nm)] = v
        return o, {k: (CUR[k] if on else None) for k, on in gh}

    def spec(gh):
        return Spec(gh, user_phi(gh["phi"]) if gh["phi"] is not None else None, app("UCE", gh["ce"]) if gh["ce"] is not None else None)

    start = []

    def begin():
        py.frames = []
        g = {k: newtok() for k in ("C", "K", "s", "g")}
        o = py.construct(cls, [In("C", g["C"]), In("K", g["K"]), In("s", g["s"]), g["g"]], {})
        g.update(phi=None, ce=None)
        start.append(canon(fields(o), g))
    run(ctx, begin)
    seen, work = set(start), list(start)
    while work:
        st = work.pop()
        if len(seen) > 4000:
            raise Unsupported("too many states")
        for op in [("get", r) for r in READS] + [("set", w) for w in WRITES]:
            def step(st=st, op=op):
                py.frames = []
                ctx.where = None
                o, gh = load(st)
                sp = spec(gh)
                if op[0] == "get":
                    try:
                        v = py.getattr(o, op[1])
                    except Raised as e:
                        ctx.same(f"{op[1]} can be read ({e.kind})", False)
                    want = {"kappa": sp.K}.get(op[1], getattr(sp, op[1], None))
                    if os.environ.get("DBG") and v != want:
                        print(st, op, getattr(v, "key", v), getattr(want, "key", want))
                    if not isinstance(v, (T, SM, In)):
                        raise Unsupported("value read")
                    ctx.same(f"ensures {op[1]} is that of the current inputs", v == want)
                else:
                    tk = newtok()
                    py.setattr(o, op[1], inp(op[1], tk))
                    gh = dict(gh)
                    gh["K" if op[1] == "kappa" else op[1]] = tk
                    if op[1] in ("s", "C"):
                        gh["phi"] = None
                    if op[1] != "ce":
                        gh["ce"] = None
                c = canon(fields(o), gh)
                if c not in seen:
                    seen.add(c)
                    work.append(c)
            run(ctx, step)
    ctx.states = len(seen)
    if os.environ.get("DBG"):
        print(len(seen), "states")
    return ctx


def values():
    """a fresh solver's results, read in any order"""
    import itertools
    ctx, py = setup("CeSolver: values")
    ctx.functions = ["CeSolver.__init__", "CeSolver.S", "CeSolver.alpha", "CeSolver.phi", "CeSolver.rho", "CeSolver.ce", "CeSolver._solveCe"]
    cls = py.glob(py.main, "CeSolver")
    for order in itertools.permutations(("S", "alpha", "phi", "rho", "ce")):
        def body():
            py.frames = []
            ctx.where = None
            tok = {k: CUR[k] for k in ("C", "K", "s", "g")}
            o = py.construct(cls, [In("C", tok["C"]), In("K", tok["K"]), In("s", tok["s"]), tok["g"]], {})
            sp = Spec(tok)
            for q in order:
                v = py.getattr(o, q)
                if not isinstance(v, (T, SM)):
                    raise Unsupported("value read")
                ctx.same({"S": "ensures S[i,j] = C_i(s_j)", "alpha": "ensures alpha = inv(S)", "phi": "ensures phi = s^T alpha", "rho": "ensures rho_i = kappa_i - C_i(g)", "ce": "ensures ce = g + phi rho"}[q], v == getattr(sp, q))
        run(ctx, body)
    return ctx


def check():
    ctx, py = setup("CeSolver.checkCe")
    ctx.functions = ["CeSolver.checkCe"]
    cls = py.glob(py.main, "CeSolver")

    def body():
        py.frames = []
        tok = {k: CUR[k] for k in ("C", "K", "s", "g")}
        o = py.construct(cls, [In("C", tok["C"]), In("K", tok["K"]), In("s", tok["s"]), tok["g"]], {})
        sp = Spec(tok)
        r = py.formula(call_method(py, o, "checkCe", []))
        k = fresh("k")
        ctx.assume(And(Ge(k, 0), Lt(k, N)))
        ok = Eq(app("APPLY", sp.C.tok, k, sp.ce), sp.K.item(k))
        if ctx.branch(r):
            ctx.inst(k)
            ctx.oblige("ensures True only if every constraint holds", ok)
        else:
            u = fresh("u")
            ctx.oblige("ensures False only if some constraint fails", Exists(u, 0, N, Not(Eq(app("APPLY", sp.C.tok, u, sp.ce), sp.K.item(u)))))
    return run(ctx, body)


def entry(fn, args):
    return globals()[fn](*args)


if __name__ == "__main__":
    import cjax
    cjax.entry = entry
    cjax.main()
