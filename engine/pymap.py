"""Abstract array values held in dictionaries of symbolic size: references into families of values, with in-place updates
(numpy) or rebinding (jax); ordered dictionaries over a space of distinct keys; concatenation by blocks."""
from py import *
import pynp
from pynp import ND, toarr, reader


class Content:
    """an array's value: its shape (a 1-tuple of terms or an opaque shape), its size, its entries in row-major order"""

    def __init__(self, shape, size, cell):
        self.shape, self.size, self.cell = shape, t(size), cell


class ShapeTok:
    """the shape of member i of a family of arrays of any rank"""

    def __init__(self, space, i):
        self.space, self.i = space, t(i)

    def __eq__(self, o):
        return isinstance(o, ShapeTok) and o.space == self.space and o.i == self.i

    def __hash__(self):
        return hash((self.space, self.i))


class SV:
    """reference to an array value: entry idx of a family"""

    def __init__(self, fam, idx, lib):
        self.fam, self.idx, self.lib = fam, t(idx), lib

    def __eq__(self, o):
        return isinstance(o, SV) and (o.fam, o.idx, o.lib) == (self.fam, self.idx, self.lib)

    def __hash__(self):
        return hash((self.fam, self.idx))


class HCat:
    """hstack of a sequence of flat values, kept by blocks"""

    def __init__(self, seq, lib):
        self.seq, self.lib = seq, lib


class KeyRef:
    def __init__(self, space, i):
        self.space, self.i = space, t(i)

    def __eq__(self, o):
        return isinstance(o, KeyRef) and o.space == self.space and o.i == self.i

    def __hash__(self):
        return hash((self.space, self.i))


def family(py, name, n, fn):
    """fn(i) -> Content"""
    py.ctx.store[("m", name)] = Seq(n, fn)


def content(py, v):
    s = py.ctx.store[("m", v.fam)]
    if isinstance(s, Poison):
        raise Unsupported(s.why)
    return s.item(v.idx)


def sv_new(py, c, lib):
    nm = fresh_name("tmp")
    py.ctx.store[("m", nm)] = Seq(t(1), lambda i: c)
    return SV(nm, t(0), lib)


def same_shape(py, a, b):
    if isinstance(a, ShapeTok) or isinstance(b, ShapeTok):
        return isinstance(a, ShapeTok) and isinstance(b, ShapeTok) and a.space == b.space and (a.i == b.i or py.ctx.known(Eq(a.i, b.i)) is True)
    return len(a) == len(b) and all(x == y or py.ctx.known(Eq(x, y)) is True for x, y in zip(a, b))


OPS = {"Add": lambda x, y: x + y, "Sub": lambda x, y: x - y, "Mult": lambda x, y: x * y, "Div": lambda x, y: x / y}


def as_content(py, x):
    if isinstance(x, SV):
        return content(py, x)
    raise Unsupported(f"array operation with {type(x).__name__}")


def sv_combine(py, op, a, b):
    if op not in OPS:
        raise Unsupported(op + " of abstract arrays")
    f = OPS[op]
    if isinstance(a, (T, F)):
        c = as_content(py, b)
        return Content(c.shape, c.size, lambda q: f(py.num(a), c.cell(q)))
    if isinstance(b, (T, F)):
        c = as_content(py, a)
        return Content(c.shape, c.size, lambda q: f(c.cell(q), py.num(b)))
    ca, cb = as_content(py, a), as_content(py, b)
    if not same_shape(py, ca.shape, cb.shape):
        raise Unsupported("operation on abstract arrays of different shapes")
    return Content(ca.shape, ca.size, lambda q: f(ca.cell(q), cb.cell(q)))


def lib2(*xs):
    return "jnp" if any(getattr(x, "lib", "np") == "jnp" for x in xs) else "np"


def sv_binop(py, op, a, b):
    if not all(isinstance(x, (SV, T, F)) for x in (a, b)):
        return NotImplemented
    return sv_new(py, sv_combine(py, op, a, b), lib2(a, b))


def sv_iop(py, op, a, b):
    if not isinstance(a, SV):
        return NotImplemented
    c = sv_combine(py, op, a, b)
    if a.lib == "jnp":
        return sv_new(py, c, "jnp")
    l = ("m", a.fam)
    py.ctx.store[l] = py.ctx.store[l].with_write(py.ctx, a.idx, c)
    return a


def sv_flatten(py, v):
    c = content(py, v)
    return sv_new(py, Content((c.size,), c.size, c.cell), v.lib)


def sv_reshape(py, v, *sh, order=None):
    if order is not None and order != "C":
        raise Unsupported("reshape order")
    c = content(py, v)
    if len(sh) == 1 and isinstance(sh[0], ShapeTok):
        s = sh[0]
        n = py.sizes[s.space](s.i)
        if not (n == c.size or py.ctx.known(Eq(n, c.size)) is True):
            raise Unsupported("reshape to a shape of another size")
        if v.lib == "np":
            return sv_new(py, Content(s, c.size, c.cell), "np")     # a view of a temporary
        return sv_new(py, Content(s, c.size, c.cell), v.lib)
    if len(sh) == 1 and isinstance(sh[0], (tuple, PList)):
        sh = tuple(py.concrete(sh[0]))
    if len(sh) == 1 and isinstance(sh[0], T) and (sh[0].const() == -1 or sh[0] == c.size or py.ctx.known(Eq(sh[0], c.size)) is True):
        return sv_new(py, Content((c.size,), c.size, c.cell), v.lib)
    raise Unsupported("reshape of an abstract array")


def sv_attr(py, v, name):
    c = content(py, v)
    if name == "shape":
        return c.shape
    if name == "size":
        return c.size
    if name == "ndim":
        if isinstance(c.shape, ShapeTok):
            raise Unsupported("rank")
        return t(len(c.shape))
    if name == "dtype":
        return pynp.DType("f")
    if name in ("ravel",):
        if v.lib == "np":
            raise Unsupported("view of a numpy array")
        return Builtin("ravel", lambda py, a, k: sv_flatten(py, v))
    m = {"flatten": sv_flatten, "reshape": sv_reshape, "copy": lambda py, v: sv_new(py, content(py, v), v.lib), "block_until_ready": lambda py, v: v}
    if name in m:
        return Builtin("ndarray." + name, lambda py, a, k: m[name](py, v, *a, **k))
    return NotImplemented


def sv_getitem(py, v, k):
    c = content(py, v)
    if isinstance(k, Slice) and not isinstance(c.shape, ShapeTok) and len(c.shape) == 1:
        lo = t(0) if k.lo is None else k.lo
        hi = c.size if k.hi is None else k.hi
        if k.step is not None and k.step.iconst() != 1:
            raise Unsupported("slice step")
        if not in_blocks(py, lo, hi, c.size):
            raise Unsupported("slice bounds")
        return sv_new(py, Content((hi - lo,), hi - lo, lambda q: c.cell(lo + q)), v.lib)
    raise Unsupported("subscript of an abstract array")


def in_blocks(py, lo, hi, n):
    """0 <= lo <= hi <= n, by arithmetic or by the prefix-sum lemma: SUM[0..k) s + s(k) <= SUM[0..n) s for 0 <= k < n, s >= 0"""
    ctx = py.ctx
    if ctx.known(And(Le(0, lo), Le(lo, hi), Le(hi, n))) is True:
        return True
    b = prefix(py, lo, hi)
    if b is None:
        return False
    k, size = b
    K, tot = py.blocks
    return (tot == n or ctx.known(Eq(tot, n)) is True) and ctx.known(And(Ge(k, 0), Lt(k, K))) is True


def prefix(py, lo, hi):
    """(k, size) when lo = SUM_{u<k} size(u) and hi - lo = size(k), for the size function of the key space"""
    d = hi - lo
    for space, sz in py.sizes.items():
        for a in d.atoms():
            at = atom(a)
            if at.name == sz.name and len(at.args) == 1:
                k = at.args[0]
                if d == sz(k) and lo == psum(sz, k):
                    return k, d
    return None


def psum(sz, k):
    u = fresh("u")
    return binder("SUM", u, 0, t(k), sz(u))


class SizeFn:
    def __init__(self, name):
        self.name = name

    def __call__(self, i):
        return app(self.name, i, sort="Int")


def hc_attr(py, v, name):
    if name in ("flatten", "ravel", "copy", "block_until_ready"):
        return Builtin(name, lambda py, a, k: v)
    if name == "shape":
        return (hc_size(py, v),)
    if name == "size":
        return hc_size(py, v)
    return NotImplemented


def hc_size(py, v):
    u = fresh("u")
    return binder("SUM", u, 0, v.seq.count(), content(py, v.seq.item(u)).size)


def hc_getitem(py, v, k):
    if isinstance(k, Slice) and k.lo is not None and k.hi is not None:
        b = prefix(py, k.lo, k.hi)
        if b is not None:
            i, sz = b
            c = content(py, v.seq.item(i))
            if (c.size == sz) and py.ctx.known(And(Ge(i, 0), Lt(i, v.seq.count()))) is True:
                return sv_new(py, Content((c.size,), c.size, c.cell), v.lib)
    raise Unsupported("subscript of a concatenation")


ATTR[SV], BINOP[SV], IOP[SV], GETITEM[SV] = sv_attr, sv_binop, sv_iop, sv_getitem
ATTR[HCat], GETITEM[HCat] = hc_attr, hc_getitem
ISND = lambda py, a, ty: getattr(ty, "name", None) == ("np.ndarray" if a.lib == "np" else "jnp.ndarray")
ISINST[SV] = ISINST[HCat] = ISND
LEN[SV] = lambda py, v: sv_attr(py, v, "shape")[0]
TRUTH[KeyRef] = lambda py, v: TRUE


def gen_sv(g, x, i):
    """a value made in iteration v: generalised to a family indexed by the iteration"""
    if ("m", x.fam) in g.entry[0]:
        return SV(x.fam, subst(x.idx, {g.va: i}), x.lib)
    key = ("fam", x.fam)
    if key not in g.memo:
        c = g.snap[0][("m", x.fam)].item(x.idx)
        nm = fresh_name("gen")
        g.memo[key] = (nm, c)
    nm, c = g.memo[key]
    if ("m", nm) not in g.ctx.store:
        g.ctx.store[("m", nm)] = Seq(t(0), lambda j: gen_content(g, c, j))
    return SV(nm, i, x.lib)


def gen_content(g, c, j):
    m = {g.va: t(j)}
    sh = ShapeTok(c.shape.space, subst(c.shape.i, m)) if isinstance(c.shape, ShapeTok) else tuple(subst(z, m) for z in c.shape)

    def cell(q):
        q0 = fresh("q")
        return subst(c.cell(q0), {g.va: t(j), single_atom(q0).id: t(q)})
    return Content(sh, subst(c.size, m), cell)


GENERAL[SV] = gen_sv
GENERAL[Content] = lambda g, x, i: gen_content(g, x, i)
GENERAL[KeyRef] = lambda g, x, i: KeyRef(x.space, subst(x.i, {g.va: i}))


# ------------------------------------------------------------------ ordered dictionaries
def od(py, o):
    v = py.ctx.store[("od", o.id)]
    return v


class ODVal:
    """keys (space, count) and the values by position"""

    def __init__(self, space, seqid, n):
        self.space, self.seqid, self.n = space, seqid, t(n)

    def __eq__(self, o):
        return isinstance(o, ODVal) and (o.space, o.seqid, o.n) == (self.space, self.seqid, self.n)

    def __hash__(self):
        return hash((self.space, self.seqid))


def od_make(py, o, space, seq):
    nm = fresh_name("odv")
    py.ctx.store[("m", nm)] = seq
    py.ctx.store[("od", o.id)] = ODVal(space, nm, seq.count())


def od_seq(py, o):
    return py.ctx.store[("m", od(py, o).seqid)]


def position(py, s):
    """a generic position of a sequence (which has at least one)"""
    u = fresh("u")
    if py.ctx.known(Ge(s.count(), 1)) is True:
        py.ctx.assume(And(Ge(u, 0), Lt(u, s.count())))
        py.ctx.inst(u)
    return u


def od_pairs(py, a):
    """(space, Seq of values) of a mapping or of a sequence of pairs"""
    if isinstance(a, Inst) and ("od", a.id) in py.ctx.store:
        return od(py, a).space, od_seq(py, a)
    s = a.pairs if isinstance(a, SDict) else py.iterate(a)
    if isinstance(s, list):
        if not s:
            return None, Seq(t(0), lambda i: None)
        raise Unsupported("dictionary of given pairs")
    u = position(py, s)
    pr = s.item(u)
    if not (isinstance(pr, tuple) and len(pr) == 2 and isinstance(pr[0], KeyRef)):
        raise Unsupported("dictionary of unknown pairs")
    py.ctx.soft("keys of the new dictionary are those of the key space in order", pr[0].i == u)
    return pr[0].space, Seq(s.count(), lambda i: s.item(i)[1])


def freeze(py, seq):
    """values evaluated now, as a function of the position"""
    return seq


def od_init(py, a, k):
    o = a[0]
    if len(a) == 1:
        od_make(py, o, None, Seq(t(0), lambda i: None))
        return
    space, seq = od_pairs(py, a[1])
    od_make(py, o, space, Seq(seq.count(), seq.item))


def keys(py, o):
    v = od(py, o)
    return Seq(v.n, lambda i: KeyRef(v.space, i))


def od_get(py, o, k):
    v = od(py, o)
    if not isinstance(k, KeyRef) or k.space != v.space:
        raise Unsupported("key of another space")
    if py.ctx.known(And(Ge(k.i, 0), Lt(k.i, v.n))) is not True:
        raise Unsupported("key that may be missing")
    return py.ctx.store[("m", v.seqid)].item(k.i)


def od_set(py, o, k, x):
    v = od(py, o)
    if not isinstance(k, KeyRef) or k.space != v.space:
        raise Unsupported("key of another space")
    if py.ctx.known(And(Ge(k.i, 0), Lt(k.i, v.n))) is not True:
        raise Unsupported("new key")
    l = ("m", v.seqid)
    py.ctx.store[l] = py.ctx.store[l].with_write(py.ctx, k.i, x)


def od_update(py, a, kw):
    o = a[0]
    if len(a) != 2 or kw:
        raise Unsupported("arguments of update")
    x = a[1]
    v = od(py, o)
    if isinstance(x, Partial):
        base = od_seq(py, o)
        ctx = py.ctx

        def fn(i):
            if ctx.branch(Ge(i, v.n)) or ctx.branch(x.has(i)):
                return x.val(i)
            return base.item(i)
        od_make(py, o, v.space, Seq(x.n, fn))
        return
    raise Unsupported("update with this mapping")


class Partial:
    """a mapping that has some of the keys below the count and every extra key up to n"""

    def __init__(self, space, n, has, val):
        self.space, self.n, self.has, self.val = space, n, has, val


class DictArg:
    """any dictionary that has (at least) the keys of the space, in any order"""

    def __init__(self, space, val):
        self.space, self.val = space, val


def da_get(py, o, k):
    if not isinstance(k, KeyRef) or k.space != o.space:
        raise Unsupported("key of another space")
    return o.val(k.i)


GETITEM[DictArg] = da_get
ISINST[DictArg] = lambda py, o, ty: getattr(ty, "name", None) == "dict"
TYPEOF[DictArg] = lambda py, o: BUILTINS["dict"]
ISINST[Partial] = ISINST[DictArg]

B = lambda nm, f: Builtin("OrderedDict." + nm, f)
ORDERED = ModelType("OrderedDict", {
    "__init__": B("__init__", od_init),
    "__getitem__": B("__getitem__", lambda py, a, k: od_get(py, a[0], a[1])),
    "__setitem__": B("__setitem__", lambda py, a, k: od_set(py, a[0], a[1], a[2])),
    "__len__": B("__len__", lambda py, a, k: od(py, a[0]).n),
    "__iter__": B("__iter__", lambda py, a, k: keys(py, a[0])),
    "keys": B("keys", lambda py, a, k: keys(py, a[0])),
    "values": B("values", lambda py, a, k: snapseq(py, od_seq(py, a[0]), od(py, a[0]).n)),
    "items": B("items", lambda py, a, k: pairseq(py, a[0])),
    "update": B("update", od_update),
})


def snapseq(py, s, n):
    return Seq(n, s.item)


def pairseq(py, o):
    v, s = od(py, o), od_seq(py, o)
    return Seq(v.n, lambda i: (KeyRef(v.space, i), s.item(i)))


def hstack_hook(py, seq):
    u = position(py, seq)
    x = seq.item(u)
    if not isinstance(x, SV):
        raise Unsupported("hstack of these values")
    c = content(py, x)
    if isinstance(c.shape, ShapeTok) or len(c.shape) != 1:
        raise Unsupported("hstack of arrays that are not flat")
    return HCat(seq, "jnp")


TYPEOF[SV] = lambda py, x: (pynp.JNP if x.lib == "jnp" else pynp.NP).d["ndarray"]
TYPEOF[HCat] = TYPEOF[SV]
