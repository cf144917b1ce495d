"""Contract on the component constraint graph (src/tfc/utils/TFCUtils.py): any number of components and constraints."""
import itertools
from csolve import *
import csolve
from cjax import tfcprint

NN, NE = var("n"), var("nE")
TOTAL = power(t(2), NE)


class Nodes:
    """the list of component names: distinct names, written as their positions"""


class Name:
    def __init__(self, i):
        self.i = t(i)


class Edges:
    pass


class Edge:
    def __init__(self, g):
        self.g = t(g)


class Bits:
    """the orientations: itertools.product([0, 1], repeat=nE)"""


class Row:
    def __init__(self, j):
        self.j = t(j)


def bit(py, j, g):
    b = app("BIT", t(j), t(g))
    py.ctx.assume(Or(Eq(b, 0), Eq(b, 1)))
    return b


def A(py, g):
    return end(py, "END0", g)


def B(py, g):
    return end(py, "END1", g)


def end(py, w, g):
    a, b = app("END0", t(g)), app("END1", t(g))
    if getattr(py, "badnode", None) is None:
        py.ctx.assume(And(Ge(a, 0), Lt(a, NN), Ge(b, 0), Lt(b, NN), Ne(a, b)))
    return a if w == "END0" else b


def index(py, n, k):
    if not isinstance(k, T):
        raise Unsupported("subscript")
    ok = And(Ge(k, 0), Lt(k, n))
    if py.ctx.known(ok) is not True:
        if py.ctx.shape or py.ctx.discover:
            return k
        py.ctx.oblige("index in range", ok)
    return k


def edge_get(py, e, k):
    if k in ("node0", "node1"):
        return Name((A if k == "node0" else B)(py, e.g))
    if k == "name":
        return Special("str")
    raise Unsupported("field of a constraint")


def nodes_index(py, s, x):
    if not isinstance(x, Name):
        raise Unsupported("index of something else")
    ok = And(Ge(x.i, 0), Lt(x.i, NN))
    if py.ctx.known(ok) is not True:
        raise Unsupported("index of a name that may not be listed")
    return x.i


def name_cmp(py, op, a, b):
    if isinstance(a, Name) and isinstance(b, Name) and op in ("Eq", "NotEq"):
        return (Eq if op == "Eq" else Ne)(a.i, b.i)
    return NotImplemented


def name_add(py, op, a, b):
    if op == "Add":
        return Special("str")
    return NotImplemented


GETITEM[Nodes] = lambda py, s, k: Name(index(py, NN, k))
LEN[Nodes] = lambda py, s: NN
ITER[Nodes] = lambda py, s: Seq(NN, lambda i: Name(i))
CONTAINS[Nodes] = lambda py, s, x: And(Ge(x.i, 0), Lt(x.i, NN)) if isinstance(x, Name) else (_ for _ in ()).throw(Unsupported("in"))
METHODS[(Nodes, "index")] = nodes_index
GETITEM[Edges] = lambda py, s, k: Edge(index(py, NE, k))
LEN[Edges] = lambda py, s: NE
ITER[Edges] = lambda py, s: Seq(NE, lambda i: Edge(i))
GETITEM[Edge] = edge_get
METHODS[(Edge, "get")] = lambda py, e, k: edge_get(py, e, k)
COMPARE[Name], BINOP[Name] = name_cmp, name_add
GETITEM[Bits] = lambda py, s, k: Row(index(py, TOTAL, k))
LEN[Bits] = lambda py, s: TOTAL
ITER[Bits] = lambda py, s: Seq(TOTAL, lambda j: Row(j))
GETITEM[Row] = lambda py, s, k: bit(py, s.j, index(py, NE, k))
LEN[Row] = lambda py, s: NE
ITER[Row] = lambda py, s: Seq(NE, lambda g: bit(py, s.j, g))
GENERAL[Row] = lambda gen, x, i: Row(subst(x.j, {gen.va: t(i)}))


def product(py, a, k):
    """library contract: every tuple of zeros and ones of length nE, once"""
    k = dict(k)
    rep = k.pop("repeat", None)
    if k or rep is None or len(a) != 1 or not (isinstance(rep, T) and rep == NE):
        raise Unsupported("itertools.product of this")
    s = py.iterate(a[0])
    if isinstance(s, Range) and s.lo.iconst() == 0 and s.hi.iconst() == 2:
        return Bits()
    if isinstance(s, list) and [x.iconst() if isinstance(x, T) else {"true": 1, "false": 0}.get(getattr(x, "op", None)) for x in s] == [0, 1]:
        return Bits()
    raise Unsupported("itertools.product of this")


# ---------------------------------------------------------------- the adjacency matrix as the set of its non-zero entries
class Item:
    """non-zero at (i, j) for all values of the parameters that satisfy the guard"""

    def __init__(self, params, guard, i, j):
        self.params, self.guard, self.i, self.j = params, guard, i, j


class Support:
    def __init__(self, items=(), base=None, va=None):
        self.items, self.base, self.va = items, base, va

    def loopstate(self, ctx, v, va):
        return Support((), self, va)

    def add(self, it):
        return Support(self.items + (it,), self.base, self.va)

    def finish(self, ctx, count, paths, entry):
        out = self.base
        for gs, q, s in paths:
            for it in q.items:
                out = out.add(Item(it.params + ((self.va, count),), And(*gs, it.guard), it.i, it.j))
        return out


class Adj:
    def __init__(self):
        self.id = fresh_name("adj")


class Eig:
    def __init__(self, f):
        self.f = f


class EigCmp:
    def __init__(self, f):
        self.f = f


def zeros(py, a, k):
    sh = a[0] if a else k.get("shape")
    sh = py.concrete(sh) if not isinstance(sh, T) else [sh]
    if len(sh) != 2 or not all(isinstance(x, T) and x == NN for x in sh):
        raise Unsupported("zeros of this shape")
    r = Adj()
    py.ctx.store[("adj", r.id)] = Support()
    return r


def adj_set(py, m, k, v):
    s = py.ctx.store[("adj", m.id)]
    if not isinstance(s, Support):
        raise Unsupported("matrix")
    if isinstance(v, F) and v.op == "true":
        v = t(1)
    if not isinstance(v, T) or v.const() is None or not v.const() > 0:
        raise Unsupported("matrix entry that is not a positive constant")
    if not isinstance(k, tuple) or len(k) != 2:
        raise Unsupported("matrix subscript")
    i, j = index(py, NN, k[0]), index(py, NN, k[1])
    py.ctx.store[("adj", m.id)] = s.add(Item((), TRUE, i, j))


SETITEM[Adj] = adj_set
ATTR[Adj] = lambda py, m, nm: transpose(py, m) if nm == "T" else NotImplemented


def transpose(py, m):
    s = py.ctx.store[("adj", m.id)]
    if not isinstance(s, Support) or s.base is not None:
        raise Unsupported("matrix")
    r = Adj()
    py.ctx.store[("adj", r.id)] = Support(tuple(Item(x.params, x.guard, x.j, x.i) for x in s.items))
    return r


def eigvals(py, a, k):
    """library contract: all eigenvalues are zero exactly if the matrix is nilpotent, which for a non-negative matrix is
    acyclicity of its non-zero entries (lean/Acyclic.lean), unchanged by transposition.  The obligation: the
    non-zero entries are the constraints as oriented."""
    ctx = py.ctx
    if len(a) != 1 or k or not isinstance(a[0], Adj):
        raise Unsupported("eigenvalues of this")
    if ctx.shape or ctx.discover:
        return Eig(Pred(fresh_name("acyclic")))
    s = ctx.store[("adj", a[0].id)]
    if not isinstance(s, Support) or s.base is not None:
        raise Unsupported("matrix")
    js = set()
    for it in s.items:
        for x in closure_atoms(it.guard):
            if x.kind == "app" and x.name == "BIT":
                js.add(x.args[0])
    if len(js) != 1:
        raise Unsupported("the matrix does not depend on one orientation")
    j, = js
    res = Eig(Eq(app("ACYCLIC", j), 1))
    if ctx.muted:
        return res
    why = None
    for flip in (False, True):
        why = mismatch(py, s, j, flip)
        if why is None:
            break
    key = (ctx.label, "the non-zero entries of the matrix are the constraints as oriented", ctx.where)
    ctx.obls.append((key, "proved" if why is None else "unknown", None if why is None else {"why": why}))
    return res


def mismatch(py, s, j, flip):
    ctx = py.ctx

    def spec(g, p, q):
        if flip:
            p, q = q, p
        a, b = A(py, g), B(py, g)
        c = bit(py, j, g)
        return And(Ge(g, 0), Lt(g, NE), Or(And(Eq(c, 1), Eq(p, b), Eq(q, a)), And(Eq(c, 0), Eq(p, a), Eq(q, b))))
    # every oriented constraint is an entry
    save = ctx.snap()
    g, p, q = fresh("g"), fresh("p"), fresh("q")
    try:
        ctx.assume(spec(g, p, q))
        cands = [g, A(py, g), B(py, g)]
        alts = []
        for it in s.items:
            for vs in itertools.product(cands, repeat=len(it.params)):
                m = {pa: v for (pa, _), v in zip(it.params, vs)}
                rng = And(*[And(Ge(v, 0), Lt(v, subst(hi, m))) for (_, hi), v in zip(it.params, vs)])
                alts.append(And(rng, fsubst(it.guard, m), Eq(subst(it.i, m), p), Eq(subst(it.j, m), q)))
        if not prove(ctx.pc, Or(*alts)):
            return "an oriented constraint may have no entry"
    finally:
        ctx.restore(save)
    # every entry is an oriented constraint
    for it in s.items:
        save = ctx.snap()
        try:
            m = {pa: fresh("w") for pa, _ in it.params}
            for pa, hi in it.params:
                ctx.assume(And(Ge(m[pa], 0), Lt(m[pa], subst(hi, m))))
            ctx.assume(fsubst(it.guard, m))
            if not prove(ctx.pc, Or(*[spec(w, subst(it.i, m), subst(it.j, m)) for w in m.values()])):
                return "an entry may not be an oriented constraint"
        finally:
            ctx.restore(save)
    return None


def eig_cmp(py, op, a, b):
    if isinstance(b, Eig):
        a, b = b, a
    if isinstance(a, Eig) and isinstance(b, T) and b.iconst() == 0 and op in ("Eq", "NotEq"):
        return EigCmp((op, a.f))
    return NotImplemented


def all_(old):
    def f(py, a, k):
        if len(a) == 1 and isinstance(a[0], EigCmp):
            op, g = a[0].f
            if k or op != "Eq":
                raise Unsupported("all")
            return g
        return old.fn(py, a, k)
    return f


def any_(old):
    def f(py, a, k):
        if len(a) == 1 and isinstance(a[0], EigCmp):
            op, g = a[0].f
            if k or op != "NotEq":
                raise Unsupported("any")
            return Not(g)
        if len(a) == 1 and isinstance(a[0], Eig) and not k:
            return Not(a[0].f)
        return old.fn(py, a, k)
    return f


COMPARE[Eig] = eig_cmp
METHODS[(EigCmp, "all")] = lambda py, c: all_(None)(py, [c], {})
METHODS[(EigCmp, "any")] = lambda py, c: any_(None)(py, [c], {})


def setup(label):
    ctx = mkctx(label)
    l = csolve.libs()
    for nm in ("numpy", "jax.numpy"):
        d = l[nm].d
        d["zeros"] = Builtin("zeros", zeros)
        d["all"], d["any"] = Builtin("all", all_(d["all"])), Builtin("any", any_(d["any"]))
        d["linalg"] = Ns("linalg", {"eigvals": Builtin("eigvals", eigvals)})
        d["transpose"] = Builtin("transpose", lambda py, a, k: transpose(py, a[0]))
    l["itertools"] = Ns("itertools", {"product": Builtin("product", product)})
    py = mkpy(ctx, ["TFCUtils"], None, l)
    tp = tfcprint()
    ctx.store[("g", py.main.name, "TFCPrint")] = tp
    py.hooks[(py.main.name, "TFCPrint")] = tp
    ctx.assume(Ge(NN, 1))
    ctx.assume(Ge(NE, 1))
    ctx.assume(Ge(TOTAL, 1))
    return ctx, py


def graph():
    ctx, py = setup("ComponentConstraintGraph")
    ctx.functions = ["ComponentConstraintGraph.__init__"]

    def body():
        py.frames = []
        cls = py.glob(py.main, "ComponentConstraintGraph")
        N, E = Nodes(), Edges()
        o = py.construct(cls, [N, E], {})
        tg = py.getattr(o, "targets")
        s = py.iterate(tg)
        if not isinstance(s, Seq):
            raise Unsupported("list of orientations")
        ctx.oblige("ensures one entry for every way of orienting the constraints", Eq(s.count(), TOTAL))
        j, g = fresh("j"), fresh("g")
        ctx.assume(And(Ge(j, 0), Lt(j, TOTAL), Ge(g, 0), Lt(g, NE)))
        r = py.iterate(s.item(j))
        ctx.same("ensures the orientations are all tuples of zeros and ones", isinstance(r, Seq) and r.count() == NE and r.item(g) == bit(py, j, g))
        gt = py.getattr(o, "goodTargets")
        gs = py.items(gt) if isinstance(gt, PList) else py.iterate(gt)
        if not isinstance(gs, FilterSeq):
            raise Unsupported("list of valid orientations")
        ctx.oblige("ensures every orientation is examined", Eq(gs.total, TOTAL))
        ok = Eq(app("ACYCLIC", j), 1)
        p = gs.pred(j)
        ctx.oblige("ensures an orientation is reported exactly if it is acyclic", Or(And(p, ok), And(Not(p), Not(ok))))
        if ctx.branch(ok):
            ctx.oblige("ensures valid orientations are reported by their position, in order", Eq(gs.value(j), j))
        for nm, want in (("nNodes", NN), ("nEdges", NE)):
            ctx.oblige("ensures " + nm, Eq(py.getattr(o, nm), want))
        ctx.same("ensures nodes and constraints are kept", py.getattr(o, "N") is N and py.getattr(o, "E") is E)
    return run(ctx, body)


def refuse():
    """a constraint that names an unknown component is refused"""
    ctx, py = setup("ComponentConstraintGraph: unknown component")
    ctx.functions = ["ComponentConstraintGraph.__init__"]
    py.badnode = var("bad")

    def body():
        py.frames = []
        b = py.badnode
        ctx.assume(And(Ge(b, 0), Lt(b, NE)))
        x, y = app("END0", b), app("END1", b)
        ctx.assume(Or(Lt(x, 0), Ge(x, NN), Lt(y, 0), Ge(y, NN)))
        cls = py.glob(py.main, "ComponentConstraintGraph")
        try:
            py.construct(cls, [Nodes(), Edges()], {})
        except Raised:
            ctx.same("a constraint that names an unknown component is refused", True)
            return
        ctx.same("a constraint that names an unknown component is refused", False)
    return run(ctx, body)


def entry(fn, args):
    return globals()[fn](*args)


if __name__ == "__main__":
    import cjax
    cjax.entry = entry
    cjax.main()
