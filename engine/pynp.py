"""NumPy / jax.numpy models: arrays over the symbolic heap (views share storage, expressions snapshot their operands).
Every function here is an assumed contract of the library."""
from py import *
from cxx import mexp, mtanh, msin, mcos
from loops import mergetree

PROMO = "bifz"


class ND:
    __slots__ = ("aid", "off", "shape", "strides", "dtype", "fn0", "lib")

    def __init__(self, aid, off, shape, strides, dtype, fn0=None, lib="np"):
        self.aid, self.off, self.shape, self.strides, self.dtype, self.fn0, self.lib = aid, t(off), tuple(shape), tuple(strides), dtype, fn0, lib

    def __repr__(self):
        return f"ND{self.shape}"


class DType:
    def __init__(self, k):
        self.k = k


def promote(*ks):
    return max(ks, key=PROMO.index)


def strides_for(shape):
    out, s = [], t(1)
    for d in reversed(shape):
        out.append(s)
        s = s * d
    return tuple(reversed(out)), s


def new(py, shape, fn, dtype="f", name="arr", lib="np"):
    """fresh array with content fn(idx)"""
    ctx = py.ctx
    shape = tuple(t(d) for d in shape)
    st, size = strides_for(shape)

    def base(i):
        return fn(decode(ctx, i, shape))
    aid = ctx.new_array(size, base, name, "Int" if dtype in "i" else "Real")
    nd = ND(aid, 0, shape, st, dtype, None, lib)
    nd.fn0 = (ctx.heap[aid], fn)
    return nd


def decode(ctx, i, shape):
    idx = []
    live = [k for k, d in enumerate(shape) if d.iconst() != 1]
    rest = i
    for k in range(len(shape) - 1, -1, -1):
        if k not in live:
            idx.append(t(0))
            continue
        if k == live[0]:
            idx.append(rest)
            continue
        q, r = ctx.divrem(rest, shape[k], None)
        idx.append(r)
        rest = q
    return tuple(reversed(idx))


def reader(py, a):
    """fn(idx) reading the array as it is now"""
    if not isinstance(a, ND):
        if isinstance(a, (PList, tuple, list)):
            a = toarr(py, a)
        else:
            v = py.num(a)
            return lambda idx: v
    ctx = py.ctx
    arr = ctx.heap.get(a.aid)
    if arr is None:
        raise Unsupported("array gone")
    if a.fn0 is not None and a.fn0[0] is arr:
        return a.fn0[1]

    def rd(idx):
        i = a.off
        for x, s in zip(idx, a.strides):
            i = i + x * s
        return ctx.lookup(arr, i)
    return rd


def shape_of(py, a):
    if isinstance(a, ND):
        return a.shape
    if isinstance(a, (PList, tuple, list)):
        return toarr(py, a).shape
    return ()


def dtype_of(py, a):
    if isinstance(a, ND):
        return a.dtype
    if isinstance(a, F):
        return "b"
    if isinstance(a, T):
        return "i" if isint(a) else "f"
    if isinstance(a, (PList, tuple, list)):
        return toarr(py, a).dtype
    return "f"


def isone(d):
    return d.iconst() == 1


def broadcast(py, shapes):
    n = max(len(s) for s in shapes)
    out = []
    for k in range(n):
        d = t(1)
        for s in shapes:
            j = k - (n - len(s))
            if j < 0 or isone(s[j]):
                continue
            if isone(d):
                d = s[j]
            elif not (d == s[j] or py.ctx.known(Eq(d, s[j]))):
                # one of them may be 1
                e = py.ctx.known(Eq(s[j], 1))
                if e is None and py.ctx.branch(Eq(d, s[j])):
                    continue
                raise Raised("ValueError", f"broadcast {d} with {s[j]}")
        out.append(d)
    return tuple(out)


def bidx(idx, shape):
    k = len(idx) - len(shape)
    return tuple(t(0) if isone(d) else i for i, d in zip(idx[k:], shape))


def libof(*xs):
    return "jnp" if any(isinstance(x, ND) and x.lib == "jnp" for x in xs) else "np"


def ewise(py, op, *args, dtype=None):
    args = [toarr(py, a) if isinstance(a, (PList, tuple, list)) else a for a in args]
    shapes = [shape_of(py, a) for a in args]
    sh = broadcast(py, shapes)
    rd = [reader(py, a) for a in args]
    dt = dtype or promote(*[dtype_of(py, a) for a in args])
    if not sh:
        return op(*[r(()) for r in rd])

    def fn(idx):
        return op(*[r(bidx(idx, s)) for r, s in zip(rd, shapes)])
    return new(py, sh, fn, dt, "tmp", libof(*args))


def toarr(py, v, dtype=None):
    if isinstance(v, ND):
        return v
    if isinstance(v, PList):
        items = py.items(v)
    elif isinstance(v, (tuple, list)):
        items = v
    else:
        x = py.num(v) if not isinstance(v, F) else v
        if not isinstance(x, (T, F)):
            raise Unsupported(f"array of {type(v).__name__}")
        return new(py, (), lambda idx: x, dtype or dtype_of(py, v), "arr")
    if isinstance(items, Seq):
        s = items
        u = fresh("u")
        it = s.item(u)
        if isinstance(it, (PList, tuple, list)):
            it = toarr(py, it)
        if isinstance(it, ND):
            ua = single_atom(u).id
            if any(ua in {a.id for a in closure_atoms(d)} for d in it.shape):
                raise Unsupported("array of a symbolic sequence of different shapes")
            return new(py, (s.n,) + tuple(it.shape), lambda idx: reader(py, toarr(py, s.item(idx[0])))(idx[1:]), dtype or it.dtype)
        if not isinstance(it, (T, F)):
            raise Unsupported("array of a symbolic sequence")
        return new(py, (s.n,), lambda idx: py.num(s.item(idx[0])), dtype or dtype_of(py, it))
    items = [toarr(py, x) if isinstance(x, (PList, tuple, list)) else x for x in items]
    if any(isinstance(x, ND) for x in items):
        shp = next(x.shape for x in items if isinstance(x, ND))
    else:
        shp = ()
    rds = [reader(py, x) for x in items]
    dt = dtype or (promote(*[dtype_of(py, x) for x in items]) if items else "f")

    def fn(idx):
        c = idx[0].iconst()
        if c is not None:
            return rds[c](idx[1:])
        for k in range(len(rds) - 1):
            if py.ctx.branch(Eq(idx[0], k)):
                return rds[k](idx[1:])
        return rds[-1](idx[1:])
    return new(py, (t(len(items)),) + tuple(shp), fn, dt)


# ---------------------------------------------------------------- indexing
def view(py, a, k):
    ctx = py.ctx
    ks = list(k) if isinstance(k, tuple) else [k]
    nreal = sum(1 for x in ks if x is not None and x is not NEWAXIS and x is not ELLIPSIS)
    if ELLIPSIS in [x for x in ks if isinstance(x, Special)]:
        i = next(j for j, x in enumerate(ks) if x is ELLIPSIS)
        ks[i:i + 1] = [Slice(None, None, None)] * (len(a.shape) - nreal)
    shape, st, off = [], [], a.off
    d = 0
    for x in ks:
        if x is None or x is NEWAXIS:
            shape.append(t(1))
            st.append(t(0))
            continue
        if d >= len(a.shape):
            raise Raised("IndexError")
        n, s = a.shape[d], a.strides[d]
        d += 1
        if isinstance(x, F):
            x = py.num(x)
        if isinstance(x, ND) and x.shape == ():
            x = reader(py, x)(())
        if isinstance(x, T):
            c = x.const()
            if c is not None and c < 0:
                x = n + x
            if not ctx.muted:
                ctx.oblige("index in range", And(Ge(x, 0), Lt(x, n)))
            off = off + x * s
            continue
        if isinstance(x, Slice):
            step = 1 if x.step is None else py.cint(x.step)
            if step == -1 and x.lo is None and x.hi is None:
                off = off + (n - 1) * s
                shape.append(n)
                st.append(-s)
                continue
            if step != 1:
                raise Unsupported("strided slice")
            lo = t(0) if x.lo is None else clamp(py, x.lo, n)
            hi = n if x.hi is None else clamp(py, x.hi, n)
            ln = hi - lo
            if ctx.known(Ge(ln, 0)) is not True and not ctx.branch(Ge(ln, 0)):
                ln = t(0)
            shape.append(ln)
            st.append(s)
            off = off + lo * s
            continue
        return None
    shape += a.shape[d:]
    st += a.strides[d:]
    return ND(a.aid, off, shape, st, a.dtype, None, a.lib)


def clamp(py, x, n):
    c = x.const()
    if c is not None and c < 0:
        x = n + x
        if py.ctx.known(Ge(x, 0)) is not True and not py.ctx.branch(Ge(x, 0)):
            return t(0)
        return x
    if x == n or py.ctx.known(Le(x, n)) is True:
        if c is not None or py.ctx.known(Ge(x, 0)) is True:
            return x
    if (py.ctx.discover or py.ctx.shape) and py.ctx.known(Le(x, n)) is not False and py.ctx.known(Ge(x, 0)) is not False:
        return x            # a guess; the inductive pass decides
    if py.ctx.branch(Le(x, n)):
        if py.ctx.branch(Ge(x, 0)):
            return x
        raise Unsupported("negative symbolic slice %s | %s" % (x, n))
    return n


def nd_getitem(py, a, k):
    v = view(py, a, k)
    if v is None:
        return fancy(py, a, k)
    if v.shape == () and not (isinstance(k, tuple) and any(x is ELLIPSIS for x in k)):
        return reader(py, v)(())
    return v


def fancy(py, a, k):
    """a[..., index array, ...] with one integer index array: gather"""
    ks = list(k) if isinstance(k, tuple) else [k]
    pos = [i for i, x in enumerate(ks) if isinstance(x, (ND, PList))]
    if len(pos) != 1 or any(not isinstance(x, Slice) for i, x in enumerate(ks) if i not in pos):
        raise Unsupported("fancy index")
    p = pos[0]
    ix = toarr(py, ks[p])
    if ix.dtype == "b":
        raise Unsupported("boolean mask")
    if len(ix.shape) != 1:
        raise Unsupported("index array of several dimensions")
    ks[p] = Slice(None, None, None)
    v = view(py, a, tuple(ks))
    rd, ri = reader(py, v), reader(py, ix)
    sh = v.shape[:p] + ix.shape + v.shape[p + 1:]
    return new(py, sh, lambda idx: rd(idx[:p] + (ri((idx[p],)),) + idx[p + 1:]), a.dtype, "tmp", a.lib)


def store(py, v, val, dtype=None):
    """write val (array or scalar, broadcast) into the view v"""
    ctx = py.ctx
    if isinstance(val, (PList, tuple, list)):
        val = toarr(py, val)
    sh = shape_of(py, val)
    if isinstance(val, ND) and len(sh) > len(v.shape):
        if any(not isone(d) for d in sh[:len(sh) - len(v.shape)]):
            raise Raised("ValueError", "shape")
    full = broadcast(py, [v.shape, sh[-len(v.shape):] if v.shape else ()]) if sh else v.shape
    for x, y in zip(full, v.shape):
        if not (x == y or ctx.known(Eq(x, y))):
            raise Raised("ValueError", f"cannot store shape {sh} into {v.shape}")
    dt = dtype_of(py, val)
    if v.dtype != "z" and dt == "z" and not ctx.muted:
        ctx.oblige("complex values are not stored into a real array", FALSE)
    rd = reader(py, val)
    ps, idx = [], []
    addr = v.off
    for d, s in zip(v.shape, v.strides):
        if d.iconst() == 0:
            return
        if isone(d):
            idx.append(t(0))
            continue
        p = fresh("p")
        ps.append((single_atom(p).id, d))
        idx.append(p)
        addr = addr + p * s
    idx = tuple(idx)
    src = lambda: rd(bidx((t(0),) * max(0, len(sh) - len(idx)) + idx, sh)) if sh else rd(())
    if not ps:
        x = src()
        if v.dtype == "i" and isinstance(x, T) and not isint(x):
            x = BUILTINS["int"].fn(py, [x], {})
        ctx.heap[v.aid] = ctx.heap[v.aid].push(Layer((), TRUE, addr, x))
        return

    def g():
        for p, d in ps:
            ctx.assume(Ge(t(atom(p)), 0))
            ctx.assume(Lt(t(atom(p)), d))
        return src()
    pids = {p for p, _ in ps}
    while True:
        res = ctx.explore(g)
        # a case distinction that does not depend on the cell is a case distinction of the path
        split = next((c for gs, x, _ in res for c in gs if not ({a.id for a in closure_atoms(c)} & pids) and ctx.known(c) is None), None)
        if split is None or ctx.work is None:
            break
        ctx.branch(split)
    new_ls = [Layer(ps, And(*[c for c in gs if ctx.known(c) is not True]), addr, x) for gs, x, _ in res]
    for L in new_ls:
        ctx.addlayer(v.aid, L)


def nd_setitem(py, a, k, val):
    if a.lib == "jnp":
        raise Raised("TypeError", "jax arrays are immutable")
    v = view(py, a, k)
    if v is None:
        raise Unsupported("fancy assignment")
    store(py, v, val)


OPS = {"Add": lambda x, y: x + y, "Sub": lambda x, y: x - y, "Mult": lambda x, y: x * y, "Div": lambda x, y: x / y, "Pow": power}


def nd_binop(py, op, a, b):
    if not all(isinstance(x, (ND, T, F, PList, tuple)) for x in (a, b)):
        return NotImplemented
    if op == "MatMult":
        return np_dot(py, [a, b], {})
    if op in ("BitAnd", "BitOr"):
        return ewise(py, (lambda x, y: And(x, y)) if op == "BitAnd" else (lambda x, y: Or(x, y)), a, b, dtype="b")
    num = lambda x: ite(x, 1, 0) if isinstance(x, F) else x
    if op in OPS:
        f = OPS[op]
        dt = promote(dtype_of(py, a), dtype_of(py, b))
        if op == "Div" and dt in "bi":
            dt = "f"
        return ewise(py, lambda x, y: f(num(x), num(y)), a, b, dtype=dt)
    if op in ("Mod", "FloorDiv"):
        return ewise(py, lambda x, y: py.arith(op, num(x), num(y)), a, b)
    raise Unsupported("array " + op)


def nd_iop(py, op, a, b):
    if a.lib == "jnp":
        return nd_binop(py, op, a, b)
    v = nd_binop(py, op, a, b)
    if isinstance(v, ND) and promote(v.dtype, a.dtype) != a.dtype:
        raise Raised("UFuncTypeError", "cannot cast")
    store(py, a, v)
    return a


def nd_unop(py, op, a):
    if op == "USub":
        return ewise(py, lambda x: -x, a)
    if op == "Invert" and a.dtype == "b":
        return ewise(py, lambda x: Not(x), a, dtype="b")
    raise Unsupported("array unary operator")


CMP = {"Eq": Eq, "NotEq": Ne, "Lt": Lt, "LtE": Le, "Gt": Gt, "GtE": Ge}


def nd_compare(py, op, a, b):
    if not all(isinstance(x, (ND, T, F, PList, tuple)) for x in (a, b)):
        return NotImplemented
    return ewise(py, lambda x, y: CMP[op](py.num(x), py.num(y)), a, b, dtype="b")


def nd_truth(py, a):
    if all(isone(d) for d in a.shape):
        v = reader(py, a)(tuple(t(0) for _ in a.shape))
        return v if isinstance(v, F) else Ne(v, 0)
    raise Unsupported("truth of an array")


def nd_attr(py, a, name):
    ctx = py.ctx
    if name == "shape":
        return a.shape
    if name == "ndim":
        return t(len(a.shape))
    if name == "size":
        return strides_for(a.shape)[1]
    if name == "dtype":
        return DType(a.dtype)
    if name == "T":
        return ND(a.aid, a.off, a.shape[::-1], a.strides[::-1], a.dtype, None, a.lib)
    if name == "real" and a.dtype != "z":
        return a
    m = {"reshape": nd_reshape, "flatten": nd_flatten, "ravel": nd_flatten, "copy": nd_copy, "astype": nd_astype, "dot": lambda py, a, b: np_dot(py, [a, b], {}), "tolist": nd_tolist,
         "sum": lambda py, a, axis=None: np_sum(py, [a], {"axis": axis}), "any": lambda py, a, axis=None: np_any(py, [a], {"axis": axis}), "all": lambda py, a, axis=None: np_all(py, [a], {"axis": axis}),
         "transpose": lambda py, a: nd_attr(py, a, "T"), "item": lambda py, a: reader(py, a)(tuple(t(0) for _ in a.shape)), "block_until_ready": lambda py, a: a, "max": lambda py, a: np_max(py, [a], {}),
         "squeeze": nd_squeeze, "fill": lambda py, a, v: store(py, a, v)}
    if name in m:
        return Builtin("ndarray." + name, lambda py, ar, kw: m[name](py, a, *ar, **kw))
    return NotImplemented


def nd_squeeze(py, a):
    keep = [i for i, d in enumerate(a.shape) if not isone(d)]
    return ND(a.aid, a.off, [a.shape[i] for i in keep], [a.strides[i] for i in keep], a.dtype, None, a.lib)


def contiguous(a):
    st, _ = strides_for(a.shape)
    return all(isone(d) or x == y for d, x, y in zip(a.shape, a.strides, st))


def nd_reshape(py, a, *shape, order=None):
    if len(shape) == 1 and isinstance(shape[0], (tuple, PList)):
        shape = tuple(py.concrete(shape[0]))
    shape = [t(s) for s in shape]
    size = strides_for(a.shape)[1]
    if any(s.iconst() == -1 for s in shape):
        k = next(i for i, s in enumerate(shape) if s.iconst() == -1)
        rest = t(1)
        for i, s in enumerate(shape):
            if i != k:
                rest = rest * s
        q = size / rest
        if not isint(q):
            raise Unsupported("reshape -1")
        shape[k] = q
    n2 = strides_for(shape)[1]
    if not (n2 == size or py.ctx.known(Eq(n2, size))):
        if py.ctx.known(Eq(n2, size)) is False:
            raise Raised("ValueError", "reshape")
        raise Unsupported(f"reshape {a.shape} to {shape}")
    st, _ = strides_for(shape)
    if contiguous(a):
        return ND(a.aid, a.off, shape, st, a.dtype, None, a.lib)
    rd = reader(py, a)
    sh = a.shape

    def fn(idx):
        i = t(0)
        for x, s in zip(idx, st):
            i = i + x * s
        return rd(decode(py.ctx, i, sh))
    return new(py, shape, fn, a.dtype, "tmp", a.lib)


def nd_flatten(py, a):
    return nd_copy(py, nd_reshape(py, a, strides_for(a.shape)[1]))


def nd_copy(py, a):
    rd = reader(py, a)
    return new(py, a.shape, rd, a.dtype, "copy", a.lib)


def nd_astype(py, a, dt, **kw):
    k = dkind(dt)
    rd = reader(py, a)
    if a.dtype == "z" and k != "z":
        raise Unsupported("complex to real")
    if k == "i" and a.dtype != "i":
        return new(py, a.shape, lambda idx: BUILTINS["int"].fn(py, [rd(idx)], {}), k)
    return new(py, a.shape, rd, k, "copy", a.lib)


def nd_tolist(py, a):
    n = a.shape[0].iconst()
    if n is None or len(a.shape) != 1:
        return nd_copy(py, a)
    rd = reader(py, a)
    return py.mklist([rd((t(i),)) for i in range(n)])


def dkind(d):
    if d is None:
        return None
    if isinstance(d, DType):
        return d.k
    nm = getattr(d, "name", "")
    for pat, k in (("int", "i"), ("float", "f"), ("complex", "z"), ("bool", "b")):
        if nm.startswith(pat) or (isinstance(d, str) and d.startswith(pat)):
            return k
    raise Unsupported(f"dtype {nm}")


def nd_iter(py, a):
    n = a.shape[0]
    f = lambda i: nd_getitem(py, a, t(i))
    c = n.iconst()
    if c is not None:
        return [f(i) for i in range(c)]
    return Seq(n, f)


GETITEM[ND], SETITEM[ND], BINOP[ND], IOP[ND], UNOP[ND], COMPARE[ND], TRUTH[ND], ATTR[ND], ITER[ND] = nd_getitem, nd_setitem, nd_binop, nd_iop, nd_unop, nd_compare, nd_truth, nd_attr, nd_iter
LEN[ND] = lambda py, a: a.shape[0]
ISINST[ND] = lambda py, a, ty: getattr(ty, "name", None) in (("np.ndarray",) if a.lib == "np" else ("jnp.ndarray",))
COMPARE[DType] = lambda py, op, a, b: TRUE if (isinstance(a, DType) and isinstance(b, DType) and a.k == b.k) == (op == "Eq") else FALSE


# ---------------------------------------------------------------- functions
def merged(py, u, n, fn):
    """value of fn() for a generic bound variable u in [0,n): paths merged into one term"""
    ctx = py.ctx

    def g():
        ctx.assume(Ge(u, 0))
        ctx.assume(Lt(u, n))
        return fn()
    res = ctx.explore(g)
    if not res:
        return t(0)
    if len(res) == 1:
        return res[0][1]
    return mergetree([(gs, x) for gs, x, _ in res], lambda x: x)


def reduce_axis(py, a, axis, red):
    """red(n, item) where item(i) gives the entry"""
    a = toarr(py, a)
    rd = reader(py, a)
    if isinstance(axis, T):
        axis = axis.iconst()
    if axis is None:
        flat = [d for d in a.shape]
        if not flat:
            return rd(())

        def go(k, idx):
            if k == len(flat):
                return rd(idx)
            return red(flat[k], lambda i: go(k + 1, idx + (i,)))
        return go(0, ())
    if axis < 0:
        axis += len(a.shape)
    sh = a.shape[:axis] + a.shape[axis + 1:]
    n = a.shape[axis]
    f = lambda idx: red(n, lambda i: rd(idx[:axis] + (i,) + idx[axis:]))
    if not sh:
        return f(())
    dt = "b" if red in (red_any, red_all) else a.dtype
    return new(py, sh, f, dt, "tmp", a.lib)


CURPY = [None]


def red_sum(n, item):
    py = CURPY[0]
    c = n.iconst()
    if c is not None and c <= MAXU:
        r = t(0)
        for i in range(c):
            r = r + py.num(item(t(i)))
        return r
    u = fresh("u")
    return binder("SUM", u, 0, n, py.num(merged(py, u, n, lambda: item(u))))


def red_prod(n, item):
    py = CURPY[0]
    c = n.iconst()
    if c is not None and c <= MAXU:
        r = t(1)
        for i in range(c):
            r = r * py.num(item(t(i)))
        return r
    u = fresh("u")
    return binder("PROD", u, 0, n, py.num(merged(py, u, n, lambda: item(u))))


def _q(isall):
    def red(n, item):
        py = CURPY[0]
        c = n.iconst()
        if c is not None and c <= MAXU:
            fs = [py.formula(item(t(i))) for i in range(c)]
            return And(*fs) if isall else Or(*fs)
        u = fresh("u")
        b = py.formula(merged(py, u, n, lambda: item(u)))
        ctx = py.ctx
        if prove(ctx.pc + [Ge(u, 0), Lt(u, n)], b if isall else Not(b)):
            return TRUE if isall else FALSE
        return Forall(u, 0, n, b) if isall else Exists(u, 0, n, b)
    return red


red_all, red_any = _q(True), _q(False)


def _red(red):
    def f(py, a, k):
        CURPY[0] = py
        ax = k.get("axis", a[1] if len(a) > 1 else None)
        r = reduce_axis(py, a[0], ax, red)
        if k.get("keepdims") is not None and isinstance(r, ND):
            raise Unsupported("keepdims")
        return r
    return f


np_sum, np_prod, np_all, np_any = _red(red_sum), _red(red_prod), _red(red_all), _red(red_any)


def np_max(py, a, k):
    raise Unsupported("max")


def shapearg(py, s):
    if isinstance(s, (tuple, PList)):
        return tuple(py.concrete(s))
    return (s,)


def _full(val, dflt="f"):
    def f(py, a, k):
        dt = dkind(k.get("dtype", a[1] if len(a) > 1 else None)) or dflt
        return new(py, shapearg(py, a[0] if a else k["shape"]), lambda idx: t(val), dt)
    return f


def _like(val):
    def f(py, a, k):
        x = toarr(py, a[0])
        dt = dkind(k.get("dtype")) or x.dtype
        return new(py, x.shape, lambda idx: t(val), dt, "arr", "np")
    return f


def np_full(py, a, k):
    v = py.num(a[1])
    return new(py, shapearg(py, a[0]), lambda idx: v, dkind(k.get("dtype")) or dtype_of(py, a[1]))


def concat(py, parts, axis):
    parts = [toarr(py, p) for p in parts]
    nd = len(parts[0].shape)
    if axis < 0:
        axis += nd
    rds = [reader(py, p) for p in parts]
    shapes = [p.shape for p in parts]
    sh = list(shapes[0])
    for s in shapes[1:]:
        if len(s) != nd:
            raise Raised("ValueError", "concatenate")
        for k in range(nd):
            if k != axis and not (s[k] == sh[k] or py.ctx.known(Eq(s[k], sh[k]))):
                if py.ctx.known(Eq(s[k], sh[k])) is False:
                    raise Raised("ValueError", "concatenate")
                if not py.ctx.branch(Eq(s[k], sh[k])):
                    raise Raised("ValueError", "concatenate")
    offs = [t(0)]
    for s in shapes:
        offs.append(offs[-1] + s[axis])
    sh[axis] = offs[-1]

    def fn(idx):
        j = idx[axis]
        for k in range(len(parts)):
            if k == len(parts) - 1 or py.ctx.branch(Lt(j, offs[k + 1])):
                return rds[k](idx[:axis] + ((t(0) if isone(shapes[k][axis]) else j - offs[k]),) + idx[axis + 1:])
    return new(py, sh, fn, promote(*[p.dtype for p in parts]), "tmp", libof(*parts))


def seqconcat(py, it, axis):
    """concatenation of a sequence of symbolic length whose items all have the same shape"""
    u = fresh("u")
    p = toarr(py, it.item(u))
    if axis is None:
        axis = 0 if len(p.shape) == 1 else 1
    ua = single_atom(u).id
    if any(ua in {a.id for a in closure_atoms(d)} for d in p.shape):
        raise Unsupported("concatenation of a symbolic sequence of different shapes")
    w = p.shape[axis]
    sh = list(p.shape)
    sh[axis] = w * it.count()

    def fn(idx):
        j = idx[axis]
        if isone(w):
            k, r = j, t(0)
        else:
            k, r = simp_div(j, w), simp_mod(j, w)
        return reader(py, toarr(py, it.item(k)))(idx[:axis] + (r,) + idx[axis + 1:])
    return new(py, sh, fn, p.dtype, "tmp", p.lib)


def np_hstack(py, a, k):
    it = py.iterate(a[0])
    if isinstance(it, Seq):
        h = py.hooks.get("np.hstack")
        if h is not None:
            return h(py, it)
        return seqconcat(py, it, None)
    parts = [toarr(py, p) for p in it]
    return concat(py, parts, 0 if len(parts[0].shape) == 1 else 1)


def np_vstack(py, a, k):
    parts = [toarr(py, p) for p in py.concrete(a[0])]
    parts = [view(py, p, (None, Slice(None, None, None))) if len(p.shape) == 1 else p for p in parts]
    return concat(py, parts, 0)


def np_concatenate(py, a, k):
    ax = k.get("axis", a[1] if len(a) > 1 else t(0))
    it = py.iterate(a[0])
    if isinstance(it, Seq):
        h = py.hooks.get("np.concatenate")
        if h is not None:
            return h(py, it, ax.iconst())
        raise Unsupported("concatenation of a symbolic sequence")
    return concat(py, py.concrete(a[0]), ax.iconst())


def np_stack(py, a, k):
    ax = k.get("axis", a[1] if len(a) > 1 else t(0)).iconst()
    parts = [toarr(py, p) for p in py.concrete(a[0])]
    if ax < 0:
        ax += len(parts[0].shape) + 1
    return concat(py, [np_expand(py, [p, t(ax)], {}) for p in parts], ax)


def np_expand(py, a, k):
    ax = k.get("axis", a[1] if len(a) > 1 else None).iconst()
    x = toarr(py, a[0])
    if ax < 0:
        ax += len(x.shape) + 1
    return ND(x.aid, x.off, x.shape[:ax] + (t(1),) + x.shape[ax:], x.strides[:ax] + (t(0),) + x.strides[ax:], x.dtype, None, x.lib)


class Deleted:
    pass


def np_delete(py, a, k):
    """np.delete(A, list, axis=1): the remaining columns in order.  Column rank(j) of the result is column j of A for j
    not in the list, where rank(j) counts the smaller columns that stay (assumed contract; list in range)."""
    x, ix = toarr(py, a[0]), a[1]
    ax = k.get("axis", a[2] if len(a) > 2 else None)
    if ax is None:
        raise Unsupported("delete without axis")
    ax = ax.iconst()
    if ax < 0:
        ax += len(x.shape)
    h = py.hooks.get("np.delete")
    if h is None:
        raise Unsupported("np.delete")
    return h(py, x, ix, ax)


def np_array(py, a, k):
    dt = dkind(k.get("dtype", a[1] if len(a) > 1 else None))
    x = toarr(py, a[0])
    x = nd_copy(py, x)
    if dt:
        if x.dtype == "z" and dt != "z":
            raise Unsupported("complex to real")
        if dt == "i" and x.dtype != "i":
            return nd_astype(py, x, DType("i"))
        x.dtype = dt
    return x


def np_asarray(py, a, k):
    dt = dkind(k.get("dtype", a[1] if len(a) > 1 else None))
    x = toarr(py, a[0])
    if dt and dt != x.dtype:
        return nd_astype(py, x, DType(dt))
    return ND(x.aid, x.off, x.shape, x.strides, x.dtype, x.fn0, "np")


def jnp_asarray(py, a, k):
    x = np_array(py, a, k)
    x.lib = "jnp"
    return x


def np_where(py, a, k):
    if len(a) == 1:
        h = py.hooks.get("np.where1")
        if h is None:
            raise Unsupported("where with one argument")
        return h(py, a[0])
    c, x, y = a
    return ewise(py, lambda c, p, q: ite(c if isinstance(c, F) else Ne(c, 0), py.num(p), py.num(q)), c, x, y, dtype=promote(dtype_of(py, x), dtype_of(py, y)))


def np_dot(py, a, k):
    CURPY[0] = py
    x, y = [toarr(py, z) if not isinstance(z, T) else z for z in a[:2]]
    if isinstance(x, T) or isinstance(y, T) or not x.shape or not y.shape:
        return py.binop("Mult", a[0], a[1])
    rx, ry = reader(py, x), reader(py, y)
    n = x.shape[-1]
    m = y.shape[-2] if len(y.shape) > 1 else y.shape[0]
    if not (n == m or py.ctx.known(Eq(n, m))):
        if py.ctx.known(Eq(n, m)) is False or not py.ctx.branch(Eq(n, m)):
            raise Raised("ValueError", "dot")
    sx, sy = x.shape[:-1], (y.shape[:-2] + y.shape[-1:] if len(y.shape) > 1 else ())
    if len(y.shape) > 2:
        raise Unsupported("dot")
    sh = sx + sy

    def fn(idx):
        i, j = idx[:len(sx)], idx[len(sx):]
        return red_sum(n, lambda u: py.num(rx(i + (u,))) * py.num(ry((u,) + j)))
    if not sh:
        return fn(())
    return new(py, sh, fn, promote(x.dtype, y.dtype), "dot", libof(x, y))


def _math(f):
    def g(py, a, k):
        dt = dtype_of(py, a[0])
        return ewise(py, lambda x: f(py.num(x)), a[0], dtype=dt if dt in "fz" else "f")
    return g


def np_maximum(py, a, k):
    return ewise(py, lambda x, y: ite(Lt(x, y), y, x), a[0], a[1])


def np_minimum(py, a, k):
    return ewise(py, lambda x, y: ite(Lt(y, x), y, x), a[0], a[1])


def np_size(py, a, k):
    return strides_for(toarr(py, a[0]).shape)[1]


def np_split(py, a, k):
    """split into n equal parts along axis"""
    x = toarr(py, a[0])
    n = a[1]
    ax = k.get("axis", a[2] if len(a) > 2 else t(0)).iconst()
    c = n.iconst()
    if c is None:
        raise Unsupported("split into a symbolic number of parts")
    w = x.shape[ax] / n
    if not isint(w):
        raise Unsupported("split")
    out = []
    for i in range(c):
        ks = [Slice(None, None, None)] * len(x.shape)
        ks[ax] = Slice(w * i, w * (i + 1), None)
        out.append(nd_copy(py, view(py, x, tuple(ks))))
    return py.mklist(out)


def np_argsort(py, a, k):
    x = toarr(py, a[0])
    c = x.shape[0].iconst()
    if c is None or len(x.shape) != 1:
        raise Unsupported("argsort")
    rd = reader(py, x)
    vs = [rd((t(i),)).const() for i in range(c)]
    if any(v is None for v in vs):
        raise Unsupported("argsort of symbolic values")
    order = sorted(range(c), key=lambda i: vs[i])
    return toarr(py, py.mklist([t(i) for i in order]))


def np_arange(py, a, k):
    if len(a) not in (1, 2) or not all(isinstance(x, T) for x in a):
        raise Unsupported("arange")
    lo, n = (t(0), a[0]) if len(a) == 1 else (a[0], a[1] - a[0])
    if py.ctx.known(Ge(n, 0)) is not True and not ((py.ctx.discover or py.ctx.shape) and py.ctx.known(Ge(n, 0)) is not False) and not py.ctx.branch(Ge(n, 0)):
        n = t(0)
    return new(py, (n,), lambda idx: idx[0] + lo, "i")


def np_linspace(py, a, k):
    lo, hi = a[0], a[1]
    n = a[2] if len(a) > 2 else k.get("num", t(50))
    if k:
        for kk in k:
            if kk not in ("num", "dtype"):
                raise Unsupported("linspace option " + kk)
    return new(py, (n,), lambda idx: lo + (hi - lo) * idx[0] / (n - 1), "f")


def np_uniform(py, a, k):
    lo, hi = k.get("low", a[0] if a else t(0)), k.get("high", a[1] if len(a) > 1 else t(1))
    size = k.get("size", a[2] if len(a) > 2 else None)
    sh = shapearg(py, size)
    nm = fresh_name("rnd")
    py.ctx.store[("rnd", nm)] = (lo, hi)
    # a draw is lo + (hi-lo)*u with u in [0,1): the atom carries that range
    st, _ = strides_for(tuple(t(d) for d in sh))

    def fn(idx):
        i = t(0)
        for x, s in zip(idx, st):
            i = i + x * s
        return lo + (hi - lo) * app("UNIT", t(abs(hash(nm)) % 10**9), i)
    return new(py, sh, fn, "f", "draw")


def const_pi():
    return app("PI")


def npns(name, lib):
    B = lambda nm, f: Builtin(f"{name}.{nm}", (lambda py, a, k: relib(f(py, a, k), lib)))
    d = {}
    for nm, f in dict(zeros=_full(0), ones=_full(1), empty=_full(0), zeros_like=_like(0), ones_like=_like(1), hstack=np_hstack, vstack=np_vstack, concatenate=np_concatenate, stack=np_stack,
                      column_stack=np_hstack, expand_dims=np_expand, delete=np_delete, array=np_array, where=np_where, dot=np_dot, matmul=np_dot, size=np_size,
                      sum=np_sum, prod=np_prod, all=np_all, any=np_any, max=np_max, exp=_math(mexp), sin=_math(msin), cos=_math(mcos), tanh=_math(mtanh), ceil=_math(simp_ceil), floor=_math(simp_floor),
                      maximum=np_maximum, minimum=np_minimum, split=np_split, argsort=np_argsort, arange=np_arange, linspace=np_linspace, full=np_full,
                      add=lambda py, a, k: py.binop("Add", *a), subtract=lambda py, a, k: py.binop("Sub", *a), multiply=lambda py, a, k: py.binop("Mult", *a), divide=lambda py, a, k: py.binop("Div", *a), power=lambda py, a, k: py.binop("Pow", *a),
                      logical_and=lambda py, a, k: py.binop("BitAnd", *a), logical_or=lambda py, a, k: py.binop("BitOr", *a), logical_not=lambda py, a, k: Not(a[0]) if isinstance(a[0], F) else (_ for _ in ()).throw(Unsupported("logical_not")),
                      negative=lambda py, a, k: py.neg(a[0]), transpose=lambda py, a, k: nd_attr(py, toarr(py, a[0]), "T"), reshape=lambda py, a, k: nd_reshape(py, toarr(py, a[0]), *a[1:]),
                      ravel=lambda py, a, k: nd_flatten(py, toarr(py, a[0])), copy=lambda py, a, k: nd_copy(py, toarr(py, a[0])), shape=lambda py, a, k: toarr(py, a[0]).shape, ndim=lambda py, a, k: t(len(toarr(py, a[0]).shape)),
                      square=lambda py, a, k: py.binop("Mult", a[0], a[0])).items():
        d[nm] = B(nm, f)
    d["asarray"] = Builtin(name + ".asarray", np_asarray if lib == "np" else jnp_asarray)
    d["array"] = Builtin(name + ".array", np_array if lib == "np" else jnp_asarray)
    d["pi"] = const_pi()
    d["inf"] = INF
    d["newaxis"] = NEWAXIS
    d["ndarray"] = ModelType(lib + ".ndarray")
    for nm in ("float64", "int32", "int64", "complex128", "float32", "bool_"):
        d[nm] = ModelType(nm)
    return Ns(name, d)


def relib(v, lib):
    if isinstance(v, ND) and lib == "jnp":
        v.lib = "jnp"
    elif isinstance(v, ND):
        v.lib = "np"
    return v


NP = npns("numpy", "np")
JNP = npns("jax.numpy", "jnp")
NP.d["random"] = Ns("numpy.random", {"uniform": Builtin("uniform", np_uniform)})
LIBS = {"numpy": NP, "jax.numpy": JNP, "numpy.random": NP.d["random"]}
TYPEOF[ND] = lambda py, x: (JNP if x.lib == "jnp" else NP).d["ndarray"]
