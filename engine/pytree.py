"""Opaque coefficient values (arrays or dictionaries of arrays), pytrees, and the assumed contracts of the jax functions the solvers call."""
from py import *
import pynp
from pynp import toarr


class OV:
    """reference to an opaque value: kind arr (flat array), dict, robust (coefficient dictionaries), vec (flat vector), mat, leaf; the value is a term"""

    def __init__(self, py, kind, term, lib="jnp", shape=None):
        self.id, self.kind, self.lib, self.shape = fresh_name("ov"), kind, lib, shape
        py.ctx.store[("ov", self.id)] = term


def val(py, x):
    if isinstance(x, OV):
        return py.ctx.store[("ov", x.id)]
    if isinstance(x, T):
        return x
    if isinstance(x, OArgs):
        return x.term
    raise Unsupported("value of " + type(x).__name__)


class OArgs:
    """an argument tuple of any length, opaque"""

    def __init__(self, term):
        self.term = term

    def __eq__(self, o):
        return isinstance(o, OArgs) and o.term == self.term

    def __hash__(self):
        return hash(self.term)


STAR[OArgs] = lambda py, v: Star(v)
DICTS = ("dict", "robust")


def ov_kind(a, b):
    if a in DICTS:
        return a
    if b in DICTS:
        return b
    return a if a != "vec" else b


def ov_combine(py, op, a, b):
    x, y = val(py, a), val(py, b)
    if op == "Add":
        return x + y
    if op == "Sub":
        return x - y
    if op == "Mult" and (isinstance(a, T) or isinstance(b, T)):
        return x * y
    if op == "Div" and isinstance(b, T):
        return x / y
    raise Unsupported(op + " of opaque values")


def ov_binop(py, op, a, b):
    if op == "MatMult":
        return ov_dot(py, a, b)
    if not all(isinstance(x, (OV, T)) for x in (a, b)):
        return NotImplemented
    ks = [x.kind for x in (a, b) if isinstance(x, OV)]
    if any(k in DICTS for k in ks):
        if op not in ("Add", "Sub") or len(ks) != 2 or ks[0] not in DICTS:
            raise Unsupported(op + " of a dictionary")
    if isinstance(a, T) and op in ("Add", "Sub") or isinstance(b, T) and op in ("Add", "Sub"):
        raise Unsupported("sum with a scalar")
    k = ov_kind(ks[0], ks[-1])
    lib = "jnp" if any(getattr(x, "lib", "np") == "jnp" for x in (a, b)) else "np"
    o = a if isinstance(a, OV) else b
    return OV(py, k, ov_combine(py, op, a, b), lib, o.shape)


def ov_iop(py, op, a, b):
    if not isinstance(a, OV):
        return NotImplemented
    if a.kind not in DICTS and a.lib == "jnp":
        return ov_binop(py, op, a, b)
    if a.kind in DICTS and op not in ("Add", "Sub"):
        raise Unsupported("in-place " + op + " of a dictionary")
    v = ov_combine(py, op, a, b)
    py.ctx.store[("ov", a.id)] = v
    return a


def parts(x):
    """x = SUM c_i * a_i with a_i applications of uninterpreted functions: [(c_i, a_i)]"""
    x = t(x)
    out = []
    for m, c in x.n.items():
        if len(m) != 1 or m[0][1] != 1:
            raise Unsupported("non-linear value")
        out.append((t(c) / T1(x.d), t(atom(m[0][0]))))
    return out


def T1(d):
    (m, c), = d.items()
    if m:
        raise Unsupported("non-linear value")
    return t(c)


def minls(J, v):
    """minimum-norm least-squares solution of J d = v: linear in v, of degree -1 in J"""
    (cj, j), = parts(J)
    r = t(0)
    for c, a in parts(v):
        r = r + c / cj * app("MINLS", j, a)
    return r


def ov_dot(py, a, b):
    x = val(py, a)
    y = val(py, b)
    ps = parts(x)
    if len(ps) == 1 and ps[0][0].const() is not None and single_atom(ps[0][1]).name == "PINV":
        j = single_atom(ps[0][1]).args[0]
        return OV(py, "vec", ps[0][0] * minls(j, y), "jnp", "flat")
    raise Unsupported("matrix product")


def pinv(py, a, k):
    if len(a) != 1 or k:
        raise Unsupported("pinv with a cutoff")
    (c, j), = parts(val(py, a[0]))
    return OV(py, "mat", app("PINV", j) / c)


def lstsq(py, a, k):
    if k.get("rcond") is not None or set(k) - {"rcond"} or len(a) != 2:
        raise Unsupported("lstsq with a cutoff")
    x = OV(py, "vec", minls(val(py, a[0]), val(py, a[1])), "jnp", "flat")
    return (x, None, None, None)


def ov_attr(py, v, name):
    if name == "block_until_ready":
        return Builtin(name, lambda py, a, k: v)
    if name == "copy" and v.kind not in DICTS:
        return Builtin(name, lambda py, a, k: OV(py, v.kind, val(py, v), v.lib, v.shape))
    if name in ("flatten", "ravel") and v.kind in ("vec",):
        return Builtin(name, lambda py, a, k: OV(py, v.kind, val(py, v), v.lib, v.shape))
    if name == "shape" and v.kind not in DICTS:
        return Shape(val(py, v) if v.shape is None else v.shape)
    if name == "dtype" and v.kind not in DICTS:
        return Shape(("dtype", val(py, v)))
    if name == "keys" and v.kind in DICTS:
        return Builtin(name, lambda py, a, k: Seq(py.nkeys, lambda i: Key(i)))
    if name == "items" and v.kind in DICTS:
        return Builtin(name, lambda py, a, k: Seq(py.nkeys, lambda i: (Key(i), Member(v, i))))
    if name == "toArray" and v.kind in DICTS:
        return Builtin(name, lambda py, a, k: OV(py, "vec", val(py, v), "jnp", "flat"))
    if name == "toDict" and v.kind in DICTS:
        return Builtin(name, lambda py, a, k: OV(py, v.kind, val(py, a[0]), "jnp"))
    return NotImplemented


class Shape:
    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        return isinstance(o, Shape) and o.t == self.t

    def __hash__(self):
        return hash(self.t)


class Key:
    def __init__(self, i):
        self.i = t(i)


class Member:
    """entry i of a dictionary"""

    def __init__(self, v, i):
        self.v, self.i = v, t(i)


class JacDict:
    """Jacobian with respect to a dictionary: one block per key"""

    def __init__(self, kind, term):
        self.kind, self.term = kind, term


class Block:
    def __init__(self, jd, i, flat):
        self.jd, self.i, self.flat = jd, t(i), flat


class Prod:
    """number of entries of entry i"""

    def __init__(self, i):
        self.i = i


def key_of(k):
    if not isinstance(k, Key):
        raise Unsupported("key")
    return k.i


def ov_get(py, o, k):
    if o.kind in DICTS:
        return Member(o, key_of(k))
    raise Unsupported("subscript of an opaque value")


def block_attr(py, b, name):
    if name == "shape":
        return BShape(b)
    if name == "reshape":
        def f(py, a, k):
            a = list(a) if len(a) != 1 else py.concrete(a[0])
            if k or len(a) != 2:
                raise Unsupported("reshape of a block")
            r, c = a
            n = app("NPROD", b.i, sort="Int")
            if not (r == app("NRES", sort="Int") and (c == n or isinstance(c, T) and c.iconst() == -1)) and not (isinstance(r, T) and r.iconst() == -1 and c == n):
                raise Unsupported("reshape of a block")
            return Block(b.jd, b.i, True)
        return Builtin("reshape", f)
    return NotImplemented


class BShape:
    def __init__(self, b):
        self.b = b


def bshape_get(py, s, k):
    if isinstance(k, T) and k.iconst() == 0:
        return app("NRES", sort="Int")
    if isinstance(k, T) and k.iconst() == 1 and s.b.flat:
        return app("NPROD", s.b.i, sort="Int")
    raise Unsupported("shape of a block")


class MShape:
    def __init__(self, i):
        self.i = i


def mem_attr(py, m, name):
    if name == "shape":
        return MShape(m.i)
    if name == "size":
        return app("NPROD", m.i, sort="Int")
    return NotImplemented


def np_prod(py, a, k):
    x = a[0]
    if isinstance(x, MShape):
        return app("NPROD", x.i, sort="Int")
    raise Unsupported("prod")


def hstack_blocks(py, seq):
    if not isinstance(seq, Seq):
        return NotImplemented
    u, b = generic(py, seq, lambda u: (seq.item(u),))
    b = b[0]
    if not isinstance(b, Block):
        return NotImplemented
    py.ctx.soft("requires the blocks of every key in the dictionary's order", b.i == u and py.ctx.known(Eq(seq.count(), py.nkeys)) is True)
    if b.jd.kind == "robust" and not b.flat:
        raise Unsupported("blocks that are not matrices")
    return OV(py, "mat", b.jd.term)


def jacfwd(py, a, k):
    """contract: the Jacobian of f with respect to its first argument"""
    f = a[0]
    an = a[1] if len(a) > 1 else k.get("argnums", t(0))
    hol = k.get("holomorphic", FALSE)
    if set(k) - {"argnums", "holomorphic"} or not (isinstance(an, T) and an.iconst() == 0):
        raise Unsupported("jacfwd arguments")
    h = hol if isinstance(hol, T) else ite(py.formula(hol), t(1), t(0))

    def call(py, a, k):
        x = a[0]
        z = OV(py, x.kind, fresh("xi"), x.lib, x.shape)
        zt = val(py, z)
        r = val(py, py.call(f, [z] + list(a[1:]), k))
        za = single_atom(zt)
        out = t(0)
        for c, at in parts(r):
            s = single_atom(at)
            if not s.args or s.args[0] != zt or any(occurs(za.id, y) for y in s.args[1:]):
                raise Unsupported("Jacobian of this function")
            out = out + c * app("JAC_" + s.name, h, val(py, x), *s.args[1:])
        if x.kind in DICTS:
            return JacDict(x.kind, out)
        return OV(py, "mat", out)
    return Builtin("jacobian", call)


def occurs(i, x):
    return any(b == i or any(occurs(i, y) for y in atom(b).args if isinstance(y, T)) for b in x.atoms())


def freshcopy(py, x):
    """what a traced function sees for an argument: the same value, in new (functional) containers"""
    if isinstance(x, OV):
        return OV(py, x.kind, val(py, x), "jnp", x.shape)
    if isinstance(x, PDict):
        d = PDict()
        py.ctx.store[("d", d.id)] = tuple((k, freshcopy(py, v)) for k, v in py.ctx.store[("d", x.id)])
        return d
    if isinstance(x, PList):
        return py.mklist([freshcopy(py, v) for v in py.concrete(x)])
    if isinstance(x, tuple):
        return tuple(freshcopy(py, v) for v in x)
    if isinstance(x, (T, F, OArgs, Star)) or x is None:
        return x
    if hasattr(x, "kids"):
        return type(x)(x.keys, [freshcopy(py, v) for v in x.kids])
    raise Unsupported("traced argument " + type(x).__name__)


def jit(py, a, k):
    f = a[0]
    return Builtin("jitted", lambda py, a, k: py.call(f, [freshcopy(py, x) for x in a], k))


def np_abs(py, a, k):
    x = a[0]
    if isinstance(x, OV):
        return OV(py, x.kind, app("ABS", val(py, x)), "jnp", x.shape)
    return None


def np_max(py, a, k):
    x = a[0]
    if isinstance(x, OV) and not k and len(a) == 1:
        return app("MAX", val(py, x))
    return None


def ones_like(c):
    def f(py, a, k):
        x = a[0]
        if isinstance(x, OV) and x.kind not in DICTS and not k:
            return OV(py, x.kind, t(0) if c == "ZEROS" else app(c), "jnp", x.shape)
        return None
    return f


def override(ns, name, f):
    old = ns.d.get(name)

    def g(py, a, k):
        r = f(py, a, k)
        if r is not None:
            return r
        if old is None:
            raise Unsupported(name)
        return py.call(old, a, k)
    ns.d[name] = Builtin(ns.name + "." + name, g)


def install(nss):
    for ns in nss:
        override(ns, "abs", np_abs)
        override(ns, "max", np_max)
        override(ns, "ones_like", ones_like("ONES"))
        override(ns, "zeros_like", ones_like("ZEROS"))
        override(ns, "prod", lambda py, a, k: np_prod(py, a, k) if isinstance(a[0], MShape) else None)
        override(ns, "array", lambda py, a, k: a[0] if isinstance(a[0], MShape) else None)
        override(ns, "dot", lambda py, a, k: ov_dot(py, *a) if isinstance(a[0], OV) else None)
        override(ns, "matmul", lambda py, a, k: ov_dot(py, *a) if isinstance(a[0], OV) else None)
        override(ns, "full", np_full)
        la = dict(getattr(ns.d.get("linalg"), "d", {}))
        la["pinv"], la["lstsq"] = Builtin("pinv", pinv), Builtin("lstsq", lstsq)
        ns.d["linalg"] = Ns(ns.name + ".linalg", la)
        for nm, v in (("ones", "ONES"), ("zeros", "ZEROS")):
            override(ns, nm, lambda py, a, k, v=v: filled(py, v, a, k))


def filled(py, v, a, k):
    if isinstance(a[0], Shape) and not set(k) - {"dtype"}:
        if "dtype" in k and not isinstance(k["dtype"], (Shape, ModelType)):
            raise Unsupported("dtype")
        o = OV(py, "leaf", t(0) if v == "ZEROS" else app(v), "np", a[0].t)
        o.dt = k["dtype"] if "dtype" in k else None
        return o
    return None


def np_full(py, a, k):
    if len(a) > 1 and isinstance(a[0], Shape) and not k and isinstance(a[1], T) and a[1].const() in (0, 1):
        return filled(py, "ONES" if a[1].const() == 1 else "ZEROS", a[:1], k)
    return None


def gen_ov(g, x, i):
    if ("ov", x.id) in g.entry[0]:
        return x
    import copy
    o = copy.copy(x)
    o.id = fresh_name("ov")
    m = {g.va: t(i)}
    g.ctx.store[("ov", o.id)] = subst(g.snap[0][("ov", x.id)], m)
    o.shape = subst(x.shape, m) if isinstance(x.shape, T) else tuple(subst(y, m) if isinstance(y, T) else y for y in x.shape) if isinstance(x.shape, tuple) else x.shape
    if hasattr(x, "leafwise"):
        o.leafwise = tuple(gen_ov(g, y, i) for y in x.leafwise)
    if isinstance(getattr(x, "dt", None), Shape):
        tt = x.dt.t
        o.dt = Shape(subst(tt, m) if isinstance(tt, T) else tuple(subst(y, m) if isinstance(y, T) else y for y in tt))
    return o


GENERAL[OV] = gen_ov
ATTR[OV], BINOP[OV], IOP[OV], GETITEM[OV] = ov_attr, ov_binop, ov_iop, ov_get
UNOP[OV] = lambda py, op, v: OV(py, v.kind, -val(py, v), "jnp" if v.lib == "jnp" else "np", v.shape) if op == "USub" and v.kind not in DICTS else NotImplemented
GETITEM[JacDict] = lambda py, o, k: Block(o, key_of(k), False)
ATTR[Block], ATTR[Member] = block_attr, mem_attr
GETITEM[BShape] = bshape_get


def ov_is(py, o, ty):
    n = getattr(ty, "name", None)
    if o.kind == "dict":
        return n in ("TFCDict", "OrderedDict", "dict")
    if o.kind == "robust":
        return n in ("TFCDictRobust", "OrderedDict", "dict")
    return n == ("np.ndarray" if o.lib == "np" else "jnp.ndarray")


ISINST[OV] = ov_is
TRUTH[OArgs] = lambda py, o: (_ for _ in ()).throw(Unsupported("truth of the arguments"))


def partial(py, a, k):
    f, a0, k0 = a[0], list(a[1:]), dict(k)
    return Builtin("partial", lambda py, a, k: py.call(f, a0 + list(a), dict(k0, **k)))


def tree_map(py, a, k):
    """leafwise application; on an opaque tree: to a generic leaf"""
    f, x = a[0], a[1]
    if len(a) != 2 or k:
        raise Unsupported("tree_map arguments")
    if isinstance(x, OV) and x.kind in DICTS + ("tree",):
        lf = OV(py, "leaf", app("LEAF", val(py, x), fresh("leaf")), x.lib)
        r = py.call(f, [lf], {})
        if not isinstance(r, OV) or r.shape != val(py, lf):
            raise Unsupported("leafwise function")
        o = OV(py, x.kind, val(py, r), r.lib)
        o.leafwise = (lf, r)
        o.shape = ("tree", val(py, x))
        return o
    if isinstance(x, OV):
        return py.call(f, [x], {})
    if isinstance(x, tuple):
        return tuple(tree_map(py, [f, y], {}) for y in x)
    if isinstance(x, PList):
        return py.mklist([tree_map(py, [f, y], {}) for y in py.concrete(x)])
    if isinstance(x, PDict):
        return py.mkdict([(q, tree_map(py, [f, y], {})) for q, y in py.ctx.store[("d", x.id)]])
    raise Unsupported("tree_map over " + type(x).__name__)
