"""Contracts on the coefficient dictionaries (src/tfc/utils/TFCUtils.py: TFCDict, TFCDictRobust), for any number of keys and any shapes."""
from cpy import *
from cjax import jax_libs, tfcprint, cast_types
from pymap import *
import pymap


def libs():
    l, *_ = jax_libs([])
    l["collections"] = Ns("collections", {"OrderedDict": ORDERED})
    l["functools"] = Ns("functools", {})
    l["jax"].d.update({x: Builtin(x, lambda py, a, k: (_ for _ in ()).throw(Unsupported("jax function"))) for x in ("jvp", "jit", "lax", "jacfwd", "typeof")})
    return l


SZ = SizeFn("size")


def setup(label, robust, lib):
    ctx = mkctx(label)
    py = mkpy(ctx, ["TFCUtils"], extra=libs())
    py.sizes = {"K": SZ}
    K = var("K")
    ctx.assume(Ge(K, 1))
    py.blocks = (K, psum(SZ, K))
    py.hooks["np.hstack"] = hstack_hook
    py.hooks["np.concatenate"] = lambda py, s, ax: hstack_hook(py, s) if ax in (0, None, -1) else (_ for _ in ()).throw(Unsupported("axis"))
    u = fresh("u")
    ctx.assume(Forall(u, 0, K, Ge(SZ(u), 0)))
    return ctx, py, K


def shape(robust, i):
    return ShapeTok("K", i) if robust else (SZ(i),)


def fam(py, name, robust, n):
    family(py, name, n, lambda i: Content(shape(robust, i), SZ(i), lambda q: app("VAL_" + name, i, q)))


def mkdict(py, ctx, cname, robust, lib, K, name):
    """an instance built by the real constructor from pairs"""
    fam(py, name, robust, K)
    c = py.glob(py.main, cname)
    return py.construct(c, [Seq(K, lambda i: (KeyRef("K", i), SV(name, i, lib)))], {})


def invariant(ctx, py, o, n, what="class invariant"):
    """_keys, _nKeys, _slices describe the dictionary"""
    ks = py.getattr(o, "_keys")
    ctx.oblige_eq(what + ": _nKeys is the number of entries", py.getattr(o, "_nKeys"), n)
    ctx.oblige_eq(what + ": as many keys as entries", BUILTINS["len"].fn(py, [ks], {}), n)
    ctx.oblige_eq(what + ": as many slices as entries", BUILTINS["len"].fn(py, [py.getattr(o, "_slices")], {}), n)
    ctx.oblige_eq(what + ": entries", od(py, o).n, n)

    def post():
        i = idx(ctx, n)
        k = py.getitem(ks, i)
        if not isinstance(k, KeyRef):
            raise Unsupported("_keys")
        ctx.oblige_eq(what + ": _keys in order", k.i, i)
        s = py.getitem(py.getattr(o, "_slices"), i)
        if not isinstance(s, Slice):
            raise Unsupported("_slices")
        size = content(py, od_get(py, o, KeyRef("K", i))).size
        lo = t(0) if s.lo is None else s.lo
        ctx.oblige_eq(what + ": slice starts at the sum of the earlier sizes", lo, psum(SZ, i))
        ctx.oblige_eq(what + ": slice has the entry's size", s.hi - lo, size)
        ctx.oblige(what + ": slice step", TRUE if s.step is None or s.step.iconst() == 1 else FALSE)
    ctx.explore(post)


def idx(ctx, n, p="i"):
    i = fresh(p)
    ctx.assume(Ge(i, 0))
    ctx.assume(Lt(i, n))
    ctx.inst(i)
    return i


def entries(ctx, py, o, n, robust, fn, what, cls=None):
    """entry i of the dictionary has the key's shape and entries fn(i,q)"""
    if cls is not None:
        ctx.oblige(what + ": type", TRUE if isinstance(o, Inst) and o.cls is cls else FALSE)
    ctx.oblige_eq(what + ": number of entries", od(py, o).n, n)

    def post():
        i = idx(ctx, n)
        c = content(py, od_get(py, o, KeyRef("K", i)))
        sh = shape(robust, i)
        ctx.soft(what + ": shape kept", same_shape(py, c.shape, sh))
        q = idx(ctx, SZ(i), "q")
        ctx.oblige_eq(what + ": entries", c.cell(q), fn(i, q))
    ctx.explore(post)


def famvals(ctx, py, name, n, robust, fn, what):
    """the arrays of family `name` hold fn"""
    def post():
        i = idx(ctx, n)
        c = py.ctx.store[("m", name)].item(i)
        q = idx(ctx, SZ(i), "q")
        ctx.oblige_eq(what, c.cell(q), fn(i, q))
    ctx.explore(post)


V = lambda name: (lambda i, q: app("VAL_" + name, i, q))


def d_init(cname):
    robust = cname.endswith("Robust")
    ctx, py, K = setup(f"{cname}.__init__", robust, None)
    ctx.functions = [f"{cname}.__init__", f"{cname}.getSlices"]

    def body():
        py.frames = []
        lib = "np" if ctx.branch(Pred("np")) else "jnp"
        c = py.glob(py.main, cname)
        o = mkdict(py, ctx, cname, robust, lib, K, "a")
        invariant(ctx, py, o, K)
        entries(ctx, py, o, K, robust, V("a"), "ensures the given values", c)
        o2 = py.construct(c, [o], {})
        invariant(ctx, py, o2, K, "class invariant of a copy")
        entries(ctx, py, o2, K, robust, V("a"), "ensures a copy has the same values", c)
        # rebinding an entry of the copy leaves the original alone
        i = idx(ctx, K)
        fam(py, "b", robust, K)
        py.setitem(o2, KeyRef("K", i), SV("b", i, lib))
        entries(ctx, py, o, K, robust, V("a"), "frame: assigning an entry of a copy leaves the original unchanged", c)
        o3 = py.construct(c, [], {})
        ctx.oblige_eq("ensures an empty dictionary", od(py, o3).n, t(0))
    return run(ctx, body)


def d_flat(cname):
    """toArray, toDict"""
    robust = cname.endswith("Robust")
    ctx, py, K = setup(f"{cname}.toArray/toDict", robust, None)
    ctx.functions = [f"{cname}.toArray", f"{cname}.toDict"]

    def body():
        py.frames = []
        lib = "np" if ctx.branch(Pred("np")) else "jnp"
        c = py.glob(py.main, cname)
        o = mkdict(py, ctx, cname, robust, lib, K, "a")
        flat = call_method(py, o, "toArray", [])
        if not isinstance(flat, HCat):
            raise Unsupported("result of toArray")
        ctx.oblige_eq("ensures toArray has one block per key", flat.seq.count(), K)

        def post():
            i = idx(ctx, K)
            cc = content(py, flat.seq.item(i))
            ctx.oblige_eq("ensures block i has the size of entry i", cc.size, SZ(i))
            q = idx(ctx, SZ(i), "q")
            ctx.oblige_eq("ensures block i of toArray is entry i, row by row", cc.cell(q), V("a")(i, q))
        ctx.explore(post)
        r = call_method(py, o, "toDict", [flat])
        entries(ctx, py, r, K, robust, V("a"), "ensures toDict(toArray()) restores every entry", c)
        invariant(ctx, py, r, K, "class invariant of toDict's result")
        alib = "np" if ctx.branch(Pred("anp")) else "jnp"
        family(py, "arr", t(1), lambda i: Content((psum(SZ, K),), psum(SZ, K), lambda q: app("ARR", q)))
        r = call_method(py, o, "toDict", [SV("arr", t(0), alib)])
        entries(ctx, py, r, K, robust, lambda i, q: app("ARR", psum(SZ, i) + q), "ensures entry i of toDict(arr) is block i of arr", c)
        invariant(ctx, py, r, K, "class invariant of toDict's result")
        famvals(ctx, py, "a", K, robust, V("a"), "frame: the dictionary's own values are unchanged")
        entries(ctx, py, o, K, robust, V("a"), "frame: the dictionary is unchanged", c)
    return run(ctx, body)


def d_arith(cname, op):
    robust = cname.endswith("Robust")
    ctx, py, K = setup(f"{cname}.{op}", robust, None)
    ctx.functions = [f"{cname}.{op}"]
    inplace = op.startswith("__i")
    sg = 1 if "add" in op else -1

    def body():
        py.frames = []
        lib = "np" if ctx.branch(Pred("np")) else "jnp"
        olib = "np" if ctx.branch(Pred("onp")) else "jnp"
        c = py.glob(py.main, cname)
        o = mkdict(py, ctx, cname, robust, lib, K, "a")
        other = "dict" if ctx.branch(Pred("odict")) else ("same" if ctx.branch(Pred("osame")) else "array")
        if other == "array":
            family(py, "b", t(1), lambda i: Content((psum(SZ, K),), psum(SZ, K), lambda q: app("ARR", q)))
            arg = SV("b", t(0), olib)
            add = lambda i, q: app("ARR", psum(SZ, i) + q)
        else:
            add = V("b")
            if other == "dict":
                fam(py, "b", robust, K)
                arg = DictArg("K", lambda i: SV("b", i, olib))
            else:
                arg = mkdict(py, ctx, cname, robust, olib, K, "b")
        r = call_method(py, o, op, [arg])
        want = lambda i, q: V("a")(i, q) + sg * add(i, q)
        if not isinstance(r, Inst):
            raise Unsupported("result of " + op)
        entries(ctx, py, r, K, robust, want, f"ensures {op} acts entry by entry ({other})", c)
        invariant(ctx, py, r, K, "class invariant of the result")
        if inplace:
            ctx.oblige("ensures the same dictionary is returned", TRUE if r is o else FALSE)
        else:
            ctx.oblige("ensures a new dictionary", TRUE if r is not o else FALSE)
            entries(ctx, py, o, K, robust, V("a"), "frame: the left operand is unchanged", c)
            famvals(ctx, py, "a", K, robust, V("a"), "frame: the left operand's arrays are unchanged")
        if other == "array":
            q = idx(ctx, psum(SZ, K), "q")
            ctx.oblige_eq("frame: the array operand is unchanged", content(py, arg).cell(q), app("ARR", q))
        else:
            famvals(ctx, py, "b", K, robust, V("b"), "frame: the right operand's arrays are unchanged")
            if other == "same":
                entries(ctx, py, arg, K, robust, V("b"), "frame: the right operand is unchanged", c)
    return run(ctx, body)


def d_update(cname):
    robust = cname.endswith("Robust")
    ctx, py, K = setup(f"{cname}.update", robust, None)
    ctx.functions = [f"{cname}.update", f"{cname}.getSlices"]
    K2 = var("K2")
    ctx.assume(Ge(K2, K))
    HAS = lambda i: Pred("HAS", i)

    def body():
        py.frames = []
        lib = "np" if ctx.branch(Pred("np")) else "jnp"
        c = py.glob(py.main, cname)
        o = mkdict(py, ctx, cname, robust, lib, K, "a")
        family(py, "b", K2, lambda i: Content(shape(robust, i), SZ(i), lambda q: app("VAL_b", i, q)))
        call_method(py, o, "update", [Partial("K", K2, HAS, lambda i: SV("b", i, lib))])
        invariant(ctx, py, o, K2, "class invariant after update")
        entries(ctx, py, o, K2, robust, lambda i, q: V("b")(i, q) if ctx.branch(Or(Ge(i, K), HAS(i))) else V("a")(i, q), "ensures update replaces the given entries and adds the new ones", c)
    return run(ctx, body)


def d_tree(cname):
    """the registered flattening and unflattening"""
    robust = cname.endswith("Robust")
    ctx, py, K = setup(f"register_pytree_node({cname})", robust, None)
    ctx.functions = [f"register_pytree_node({cname}): flatten, unflatten"]
    calls = [n.value for n in py.main.tree.body if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and getattr(n.value.func, "id", "") == "register_pytree_node" and isinstance(n.value.args[0], ast.Name) and n.value.args[0].id == cname]
    ctx.oblige("the type is registered", TRUE if len(calls) == 1 else FALSE)

    def body():
        py.frames = []
        lib = "np" if ctx.branch(Pred("np")) else "jnp"
        c = py.glob(py.main, cname)
        o = mkdict(py, ctx, cname, robust, lib, K, "a")
        py.frames.append(dict(scope=[], module=py.main, func=None))
        fl, un = py.ev(calls[0].args[1]), py.ev(calls[0].args[2])
        kids, aux = py.concrete(py.call(fl, [o], {}))
        s = py.iterate(kids)
        ctx.oblige_eq("ensures one leaf per key", s.count(), K)

        def post():
            i = idx(ctx, K)
            q = idx(ctx, SZ(i), "q")
            ctx.oblige_eq("ensures leaf i is entry i", content(py, s.item(i)).cell(q), V("a")(i, q))
        ctx.explore(post)
        fam(py, "b", robust, K)
        r = py.call(un, [aux, Seq(K, lambda i: SV("b", i, lib))], {})
        entries(ctx, py, r, K, robust, V("b"), "ensures unflattening puts leaf i back at key i", c)
        invariant(ctx, py, r, K, "class invariant of the result")
    return run(ctx, body)


def entry(fn, args):
    return globals()[fn](*args)


if __name__ == "__main__":
    import cjax
    cjax.entry = entry
    cjax.main()
