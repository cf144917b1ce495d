"""Contracts on the least-squares solvers, partial evaluation and element-wise gradients (src/tfc/utils/TFCUtils.py)."""
import itertools
from cpy import *
from cjax import jax_libs, tfcprint
from pytree import *
import pytree
import cdict

NOPE = Builtin("unmodelled", lambda py, a, k: (_ for _ in ()).throw(Unsupported("unmodelled library function")))


def libs(py_extra=None):
    l = cdict.libs()
    np_, jnp = Ns("numpy", dict(pynp.NP.d)), Ns("jax.numpy", dict(pynp.JNP.d))
    install([np_, jnp])
    l["numpy"], l["jax.numpy"] = np_, jnp
    l["functools"] = Ns("functools", {"partial": Builtin("partial", partial)})
    l["jax"].d.update({"jit": Builtin("jit", jit), "jacfwd": Builtin("jacfwd", jacfwd), "jvp": NOPE, "typeof": NOPE, "lax": Ns("lax", {"while_loop": Builtin("while_loop", while_loop)})})
    l["jax.lax"] = l["jax"].d["lax"]
    tm = Builtin("tree_map", tree_map)
    l["jax.tree_util"] = Ns("jax.tree_util", {"tree_map": tm, "register_pytree_node": Builtin("register", lambda py, a, k: None)})
    l["jax.experimental"] = Ns("jax.experimental", {"io_callback": Builtin("io_callback", lambda py, a, k: None)})
    tick = lambda nm: Builtin(nm, lambda py, a, k: fresh("clock"))
    l["time"] = Ns("time", {nm: tick(nm) for nm in ("process_time", "perf_counter", "time", "monotonic")})
    return l


class Loop:
    def __init__(self, cond, body, init):
        self.cond, self.body, self.init = cond, body, init


def while_loop(py, a, k):
    """contract: the state after iterating body while cond holds, from the given state"""
    cond, body, st = a
    py.loops.append(Loop(cond, body, st))
    n = len(py.loops) - 1
    if not isinstance(st, PDict):
        raise Unsupported("loop state")
    out = []
    d = dict_items(py, st)
    key = [val1(py, d[q]) for q in sorted(d)]
    for q, v in d.items():
        nt = app("FINAL_" + q, t(n), sort="Int" if q == "it" else "Real") if False else app("FINAL_" + q, *key, sort="Int" if q == "it" else "Real")
        out.append((q, nt if isinstance(v, T) else v if isinstance(v, (OArgs, tuple, PList)) else OV(py, v.kind, nt, "jnp", v.shape)))
    return py.mkdict(out)


def val1(py, v):
    if isinstance(v, (PList, tuple)):
        return app("TUP", *[val1(py, x) for x in py.concrete(v)])
    return val(py, v)


def dict_items(py, d):
    return dict(py.ctx.store[("d", d.id)])


def opaque(name, kind="vec", shape="res"):
    def f(py, a, k):
        if k:
            raise Unsupported("keyword arguments of " + name)
        return OV(py, kind, app(name, *[argval(py, x) for x in a]), "jnp", shape)
    return Builtin(name, f)


def argval(py, x):
    return x.v.term if isinstance(x, Star) else val1(py, x)


def pe_contract(py, f, args, kw):
    """pe(*args, constant_arg_nums=C)(g): g of the remaining arguments (contract proved by the pe jobs); g is traced when wrapped"""
    C = [c.iconst() for c in py.concrete(kw.get("constant_arg_nums", py.mklist([])))]
    if set(kw) - {"constant_arg_nums"} or any(isinstance(a, Star) for a in args):
        raise Unsupported("pe arguments")
    n = len(args)
    args = list(args)

    def wrap(py, a, k):
        g = a[0]
        if not C:
            return g
        unk, full = [], []
        for i in range(n):
            if i in C:
                full.append(freshcopy(py, args[i]))
            else:
                o = OV(py, args[i].kind, fresh("unk"), "jnp", args[i].shape)
                unk.append(val(py, o))
                full.append(o)
        r = py.call(g, full, {})
        if not isinstance(r, OV):
            raise Unsupported("result of the evaluated function")
        term = val(py, r)

        def run(py, a, k):
            if k or len(a) != len(unk):
                raise Raised("TypeError", "arguments of a partially evaluated function")
            return OV(py, r.kind, subst(term, {single_atom(u).id: val1(py, x) for u, x in zip(unk, a)}), "jnp", r.shape)
        return Builtin("pe'd", run)
    return Builtin("pe wrapper", wrap)


def setup(label):
    ctx = mkctx(label)
    py = mkpy(ctx, ["TFCUtils"], {"pe": pe_contract}, libs())
    K = var("K")
    ctx.assume(Ge(K, 1))
    py.nkeys = K
    py.hooks["np.hstack"] = hstack_blocks
    py.hooks["np.concatenate"] = lambda py, s, ax: hstack_blocks(py, s) if ax in (1, -1) else (_ for _ in ()).throw(Unsupported("axis"))
    py.loops = []
    tp = tfcprint()
    py.ctx.store[("g", py.main.name, "TFCPrint")] = tp
    py.hooks[(py.main.name, "TFCPrint")] = tp
    return ctx, py


def argcfgs():
    """(number of extra arguments or None for any number, constant positions)"""
    out = [(None, [])]
    for n in (1, 2, 3):
        for r in range(1, n + 1):
            out += [(n, list(p)) for p in itertools.permutations(range(1, n + 1), r)]
    return out


def mkargs(py, n, tag="A"):
    if n is None:
        return [Star(OArgs(app("ARGS" + tag)))], app("ARGS" + tag), OArgs(app("ARGS" + tag))
    vs = [OV(py, "leaf", app(f"{tag}{i}"), "jnp") for i in range(1, n + 1)]
    return vs, None, tuple(vs)


def rest_args(vs, n, C):
    return vs if n is None else [v for i, v in enumerate(vs, 1) if i not in C]


def arg_terms(py, vs):
    return [argval(py, v) for v in vs]


def step_spec(x, at, h, userJ):
    J = app("UJ", x, *at) if userJ else app("JAC_RES", h, x, *at)
    return app("MINLS", J, app("RES", x, *at))


def coeffs(py, kind, name, lib):
    return OV(py, kind, app(name), lib, "flat" if kind == "arr" else None)


def expect(ctx, py, name, v, want, kind=None):
    ok = isinstance(v, OV) and val(py, v) == want
    if not ok and isinstance(v, OV) and os.environ.get("DBG"):
        print("GOT ", val(py, v), "\nWANT", want)
    ctx.same(name, ok)
    if kind:
        ctx.soft(name + " (structure kept)", isinstance(v, OV) and (v.kind == kind or {v.kind, kind} <= {"arr", "vec", "leaf"}))


class Cfgs:
    """configurations: every combination of the options"""

    def __init__(self, **dims):
        self.dims = dims

    def __iter__(self):
        for c in itertools.product(*self.dims.values()):
            yield dict(zip(self.dims, c))


def each(ctx, py, cfgs, one):
    for c in cfgs:
        def body(c=c):
            py.frames = []
            py.loops = []
            ctx.where = None
            try:
                one(**c)
            except Refuted:
                raise
            except Raised as e:
                ctx.same(f"no exception ({e.kind}) for {c}", False)
        run(ctx, body)
    return ctx


METHODS2 = ("pinv", "lstsq", "other")


def ls(form, kind):
    ctx, py = setup(f"{form}({kind})")
    ctx.functions = ["LS"] if form == "LS" else ["LsClass.__init__", "LsClass.run"]

    def one(method, timer, userJ, cfg):
        n, C = cfg
        h = t(0) if method is None else var("hol")
        lib = "np" if ctx.branch(Pred("np")) else "jnp"
        x0 = coeffs(py, kind, "XI0", lib)
        vs, _, _ = mkargs(py, n)
        cl = py.mklist([t(c) for c in C])
        kw = dict(constant_arg_nums=cl, method=method, timer=TRUE if timer else FALSE, timerType=timer or "process_time", holomorphic=h)
        if method is None:
            kw = dict(constant_arg_nums=cl) if C else {}  # documented defaults
        if userJ:
            kw["J"] = opaque("UJ", "mat", None)
        res = opaque("RES")
        at = arg_terms(py, vs)

        def frame(x, nm):
            ctx.same("frame: the caller's coefficients are unchanged", val(py, x) == app(nm))
            ctx.same("frame: the caller's list of positions is unchanged", [c.iconst() for c in py.concrete(cl)] == C)
        f = py.glob(py.main, form)
        if form == "LS":
            try:
                r = py.call(f, [x0, res] + vs, kw)
            except Raised as e:
                ctx.same("ensures only an unknown method is rejected", method == "other" and e.kind == "SystemExit")
                return
            if timer:
                r, tm = r
                ctx.soft("ensures an elapsed time", isinstance(tm, T))
            expect(ctx, py, "ensures one least-squares step from zero", r, -step_spec(t(0), at, h, userJ), kind)
            ctx.soft("ensures the result is a new object", r is not x0)
            frame(x0, "XI0")
            return
        try:
            o = py.call(f, [x0, res] + vs, kw)
        except Raised as e:
            ctx.same("ensures only an unknown method is rejected", method == "other" and e.kind == "SystemExit")
            return
        frame(x0, "XI0")
        st = None
        for q in range(3):
            x = coeffs(py, kind, f"XR{q}", lib)
            if n is None:
                ws, _, _ = mkargs(py, None, f"R{q}")
                full = arg_terms(py, ws)
                rest = ws
            else:
                ws, _, _ = mkargs(py, n, f"R{q}_")
                rest = [w for i, w in enumerate(ws, 1) if i not in C]
                full = [argval(py, v if i in C else w) for i, (v, w) in enumerate(zip(vs, ws), 1)]
            r = call_method(py, o, "run", [x] + rest)
            if timer:
                r, tm = r
                ctx.soft("ensures an elapsed time", isinstance(tm, T))
            xt = app(f"XR{q}")
            expect(ctx, py, "ensures run makes one least-squares step from the given coefficients", r, xt - step_spec(xt, full, h, userJ), kind)
            frame(x, f"XR{q}")
            fs = {kk: v for kk, v in ctx.store.items() if kk[0] == "f" and kk[1] == o.id}
            if q == 1:
                st = fs
            if q == 2:
                ctx.soft("invariant: a further run leaves the object's state as it is", st == fs)
    return each(ctx, py, list(Cfgs(method=(None,), timer=(None,), userJ=(False, True), cfg=[(None, []), (2, [2])])) + list(Cfgs(method=METHODS2, timer=(None, "process_time", "perf_counter"), userJ=(False, True), cfg=argcfgs())), one)


def nlls(form, kind):
    ctx, py = setup(f"{form}({kind})")
    ctx.functions = ["NLLS"] if form == "NLLS" else ["NllsClass.__init__", "NllsClass.run"]
    gtol = fresh("tol")

    def state(n, C, tag):
        """a generic loop state"""
        x = OV(py, kind, app("S_XI" + tag), "jnp", "flat" if kind == "arr" else None)
        dx = OV(py, "vec", app("S_DXI" + tag), "jnp", "flat")
        vs, _, _ = mkargs(py, n, "S" + tag)
        rest = OArgs(app("ARGSS" + tag)) if n is None else tuple(w for i, w in enumerate(vs, 1) if i not in C)
        return py.mkdict([("xi", x), ("dxi", dx), ("it", app("S_IT" + tag, sort="Int")), ("args", rest)]), vs

    def one(method, timer, userJ, user, prn, cfg):
        n, C = cfg
        h, tol, mx = (t(0), t(Fraction("1e-13")), t(50)) if method is None else (var("hol"), gtol, var("maxIter"))
        lib = "np" if ctx.branch(Pred("np")) else "jnp"
        x0 = coeffs(py, kind, "XI0", lib)
        vs, _, _ = mkargs(py, n)
        cl = py.mklist([t(c) for c in C])
        kw = dict(constant_arg_nums=cl, method=method, timer=TRUE if timer else FALSE, timerType=timer or "process_time", holomorphic=h, tol=tol, maxIter=mx, printOut=TRUE if prn else FALSE)
        if method is None:
            kw = dict(constant_arg_nums=cl) if C else {}  # documented defaults
        if userJ:
            kw["J"] = opaque("UJ", "mat", None)
        calls = []
        if user in ("cond", "both"):
            ucond = Pred("UCOND")
            kw["cond"] = Builtin("cond", lambda py, a, k: (calls.append(("cond", a[0])), ucond)[1])
        if user in ("body", "both"):
            kw["body"] = Builtin("body", lambda py, a, k: (calls.append(("body", a[0])), "BODY")[1])
        res = opaque("RES")

        def frame(x, nm):
            ctx.same("frame: the caller's coefficients are unchanged", val(py, x) == app(nm))
            ctx.same("frame: the caller's list of positions is unchanged", [c.iconst() for c in py.concrete(cl)] == C)

        def cond_spec(dd, at):
            return And(Gt(app("MAX", app("ABS", app("RES", val(py, dd["xi"]), *at))), tol), Lt(dd["it"], mx), Gt(app("MAX", app("ABS", val(py, dd["dxi"]))), tol))

        def loop_ok(lp, x, rest, full):
            """one while_loop: initial state, condition, body"""
            d = dict_items(py, lp.init)
            ctx.soft("the loop state has the documented fields", set(d) == {"xi", "dxi", "it", "args"})
            st, ws = state(n, C, "0")
            at = [argval(py, w) for w in ws] if n is None else [argval(py, v if i in C else w) for i, (v, w) in enumerate(zip(vs, ws), 1)]
            dd = dict_items(py, st)
            r = py.call(lp.cond, [st], {})
            if user in ("cond", "both"):
                ctx.same("ensures the given condition decides", r is ucond and calls and calls[-1] == ("cond", st))
            else:
                f, g = py.formula(r), cond_spec(dd, at)
                ctx.oblige("ensures iteration continues exactly while residual and update exceed the tolerance and the limit is not reached", Or(And(f, g), And(Not(f), Not(g))))
                ctx.same("frame: the condition leaves the state alone", dict_items(py, st) == dd)
            st, ws = state(n, C, "1")
            at = [argval(py, w) for w in ws] if n is None else [argval(py, v if i in C else w) for i, (v, w) in enumerate(zip(vs, ws), 1)]
            dd = dict_items(py, st)
            x1, it1, a1 = val(py, dd["xi"]), dd["it"], dd["args"]
            r = py.call(lp.body, [st], {})
            if user in ("body", "both"):
                ctx.same("ensures the given update is used", r == "BODY" and calls and calls[-1] == ("body", st))
                return
            if not isinstance(r, PDict):
                raise Unsupported("loop state")
            nd = dict_items(py, r)
            ctx.soft("the new state has the documented fields", set(nd) == {"xi", "dxi", "it", "args"})
            stp = step_spec(x1, at, h, userJ)
            expect(ctx, py, "ensures the recorded update is the least-squares step", nd["dxi"], stp)
            expect(ctx, py, "ensures the new coefficients are the old ones minus the step", nd["xi"], x1 - stp, kind)
            ctx.oblige_eq("ensures the iteration count advances by one", nd["it"], it1 + 1)
            ctx.same("ensures the arguments are kept", val1(py, nd["args"]) == val1(py, a1))

        def result_ok(r, xname, rest, nl0):
            if timer:
                ctx.soft("ensures an elapsed time is returned", isinstance(r, tuple) and len(r) == 3 and isinstance(r[2], T))
            else:
                ctx.soft("ensures a pair is returned", isinstance(r, tuple) and len(r) == 2)
            want = {"xi": app(xname), "dxi": app("ONES"), "it": t(0), "args": val1(py, rest)}
            key = [want[q] for q in sorted(want)]
            expect(ctx, py, "ensures the result is the final state of the loop started at the given coefficients, unit update and count zero", r[0], app("FINAL_xi", *key), kind)
            ctx.same("ensures the count is that of the final state", r[1] == app("FINAL_it", *key, sort="Int"))

        f = py.glob(py.main, form)
        try:
            r = py.call(f, [x0, res] + vs, kw)
        except Raised as e:
            ctx.same("ensures only an unknown method is rejected", method == "other" and e.kind == "SystemExit")
            return
        if method == "other":
            return
        frame(x0, "XI0")
        if form == "NLLS":
            rest = vs[0].v if n is None else tuple(w for i, w in enumerate(vs, 1) if i not in C)
            result_ok(r, "XI0", rest, 0)
            ctx.soft("a loop was run", bool(py.loops))
            for lp in py.loops:
                loop_ok(lp, x0, rest, None)
            return
        o, st = r, None
        for q in range(3):
            x = coeffs(py, kind, f"XR{q}", lib)
            ws, _, _ = mkargs(py, n, f"R{q}" if n is None else f"R{q}_")
            rest = ws if n is None else [w for i, w in enumerate(ws, 1) if i not in C]
            py.loops = []
            r = call_method(py, o, "run", [x] + rest)
            result_ok(r, f"XR{q}", ws[0].v if n is None else tuple(rest), 0)
            ctx.soft("a loop was run", bool(py.loops))
            for lp in py.loops if q == 0 else py.loops[-1:]:
                loop_ok(lp, x, None, None)
            frame(x, f"XR{q}")
            fs = {kk: v for kk, v in ctx.store.items() if kk[0] == "f" and kk[1] == o.id}
            if q == 1:
                st = fs
            if q == 2:
                ctx.soft("invariant: a further run leaves the object's state as it is", st == fs)
    return each(ctx, py, list(Cfgs(method=(None,), timer=(None,), userJ=(False, True), user=(None,), prn=(False,), cfg=[(None, []), (2, [2])])) + list(Cfgs(method=METHODS2, timer=(None, "process_time"), userJ=(False, True), user=(None, "cond", "body", "both"), prn=(False,), cfg=[(None, []), (2, [2]), (2, [2, 1])])) + list(Cfgs(method=METHODS2[:2], timer=(None, "perf_counter"), userJ=(False,), user=(None,), prn=(False, True), cfg=argcfgs())), one)


# ------------------------------------------------------------------ partial evaluation
class TreeDef:
    """structure of a tree: nested (kind, keys, children), leaves are None"""

    def __init__(self, st):
        self.st = st

    def __eq__(self, o):
        return isinstance(o, TreeDef) and o.st == self.st

    def __hash__(self):
        return hash(self.st)


def flat(py, x):
    """leaves and structure (contract of tree_flatten)"""
    if isinstance(x, (tuple, PList)):
        ps = [flat(py, y) for y in (x if isinstance(x, tuple) else py.concrete(x))]
        return [l for p in ps for l in p[0]], ("tuple" if isinstance(x, tuple) else "list", None, tuple(p[1] for p in ps))
    if isinstance(x, PDict):
        it = sorted(py.ctx.store[("d", x.id)])
        ps = [flat(py, v) for _, v in it]
        return [l for p in ps for l in p[0]], ("dict", tuple(k for k, _ in it), tuple(p[1] for p in ps))
    if isinstance(x, Node):
        ps = [flat(py, v) for v in x.kids]
        return [l for p in ps for l in p[0]], ("node", x.keys, tuple(p[1] for p in ps))
    if x is None:
        return [], ("none", None, ())
    return [x], None


class Node:
    """a registered container (coefficient dictionary): keys and values; flattening as proved for the dictionaries"""

    def __init__(self, keys, kids):
        self.keys, self.kids = tuple(keys), tuple(kids)


def unflat(py, st, leaves):
    if st is None:
        return leaves.pop(0)
    k, keys, ch = st
    vs = [unflat(py, c, leaves) for c in ch]
    if k == "tuple":
        return tuple(vs)
    if k == "list":
        return py.mklist(vs)
    if k == "dict":
        return py.mkdict(list(zip(keys, vs)))
    if k == "node":
        return Node(keys, vs)
    return None


def td_attr(py, d, name):
    def nodes(st):
        return 1 if st is None else 1 + sum(nodes(c) for c in st[2])

    def leaves(st):
        return 1 if st is None else sum(leaves(c) for c in st[2])
    if name == "num_nodes":
        return t(nodes(d.st))
    if name == "num_leaves":
        return t(leaves(d.st))
    if name == "unflatten":
        def f(py, a, k):
            ls = py.concrete(a[0])
            if len(ls) != leaves(d.st):
                raise Raised("ValueError", "number of leaves")
            return unflat(py, d.st, list(ls))
        return Builtin("unflatten", f)
    return NotImplemented


ATTR[TreeDef] = td_attr


class PVal:
    def __init__(self, known, v):
        self.known, self.v = known, v


class Aval:
    def __init__(self, of):
        self.of = of


ATTR[Aval] = lambda py, a, name: Builtin(name, lambda py, x, k: a) if name in ("at_least_vspace", "to_tangent_aval", "strip_weak_type") else NotImplemented


class Wrapped:
    def __init__(self, f):
        self.f = f


class FlatFn:
    def __init__(self, f, tree, cell):
        self.f, self.tree, self.cell = f, tree, cell


class Jaxpr:
    def __init__(self, unk, outs):
        self.unk, self.outs = unk, outs


def tmap(py, f, x):
    ls, st = flat(py, x)
    return unflat(py, st, [py.call(f, [l], {}) for l in ls])


def pe_libs():
    l = libs()
    tf = Builtin("tree_flatten", lambda py, a, k: (lambda r: (py.mklist(r[0]), TreeDef(r[1])))(flat(py, a[0])))
    tm = Builtin("tree_map", lambda py, a, k: tmap(py, a[0], a[1]))
    tl = Builtin("tree_leaves", lambda py, a, k: py.mklist(flat(py, a[0])[0]))
    l["jax._src.tree_util"] = Ns("tree_util", {"tree_flatten": tf, "tree_map": tm, "tree_leaves": tl})
    l["jax.tree_util"] = Ns("tree_util", {"tree_flatten": tf, "tree_map": tm, "tree_leaves": tl, "register_pytree_node": Builtin("register", lambda py, a, k: None)})
    l["jax.extend"] = Ns("jax.extend", {"linear_util": Ns("lu", {"wrap_init": Builtin("wrap_init", lambda py, a, k: Wrapped(a[0]))})})
    l["jax.extend.linear_util"] = l["jax.extend"].d["linear_util"]
    l["jax.api_util"] = Ns("api_util", {"debug_info": Builtin("debug_info", lambda py, a, k: None)})

    def flatten_fun(py, a, k):
        cell = []
        if not isinstance(a[0], Wrapped) or not isinstance(a[1], TreeDef):
            raise Unsupported("flatten_fun")

        def out_tree(py, a, k):
            if not cell:
                raise Raised("StoreException", "output tree before tracing")
            return cell[0]
        return (FlatFn(a[0].f, a[1], cell), Builtin("out_tree", out_tree))
    l["jax._src.api_util"] = Ns("api_util", {"flatten_fun": Builtin("flatten_fun", flatten_fun)})

    def trace(py, a, k):
        fun, pv = a[0], py.concrete(a[1])
        inst = a[2] if len(a) > 2 else k.get("instantiate", FALSE)
        if not isinstance(fun, FlatFn) or set(k) - {"instantiate"} or py.formula(inst).op != "true":
            raise Unsupported("trace_to_jaxpr_nounits")
        unk, ls = [], []
        for p in pv:
            if not isinstance(p, PVal):
                raise Unsupported("partial values")
            if p.known:
                ls.append(p.v)
            else:
                o = OV(py, "leaf", fresh("unk"), "jnp")
                unk.append(val(py, o))
                ls.append(o)
        tr = unflat(py, fun.tree.st, list(ls))
        r = py.call(fun.f, list(tr[0]), dict_items(py, tr[1]))
        outs, st = flat(py, r)
        fun.cell.append(TreeDef(st))
        return (Jaxpr(unk, [val(py, o) for o in outs]), None, "consts")
    l["jax.interpreters.partial_eval"] = Ns("pe", {"trace_to_jaxpr_nounits": Builtin("trace", trace), "PartialVal": ModelType("PartialVal", {
        "known": ("static", Builtin("known", lambda py, a, k: PVal(True, a[0]))), "unknown": ("static", Builtin("unknown", lambda py, a, k: PVal(False, a[0])))})})

    def evj(py, a, k):
        j, c, xs = a[0], a[1], a[2:]
        if not isinstance(j, Jaxpr) or c != "consts" or k:
            raise Unsupported("eval_jaxpr")
        if len(xs) != len(j.unk):
            raise Raised("TypeError", "number of unknown leaves")
        m = {single_atom(u).id: val(py, x) for u, x in zip(j.unk, xs)}
        return py.mklist([OV(py, "leaf", subst(o, m), "jnp") for o in j.outs])
    l["jax.core"].d["eval_jaxpr"] = Builtin("eval_jaxpr", evj)
    l["jax"].d["typeof"] = Builtin("typeof", lambda py, a, k: Aval(a[0]))
    return l


def tree_val(py, x):
    """the value of a tree as one term"""
    ls, st = flat(py, x)
    return app("TREE:" + repr(st), *[val(py, l) for l in ls]) if st is not None else val(py, ls[0])


def mktree(py, shape, nm):
    """an argument: a leaf, a pair, a coefficient dictionary, or nested"""
    lf = lambda s: OV(py, "leaf", app(nm + s), "jnp")
    return {"leaf": lambda: lf(""), "pair": lambda: (lf("a"), lf("b")), "node": lambda: Node(("k1", "k2", "k0"), [lf("a"), lf("b"), lf("c")]), "empty": lambda: (), "nested": lambda: (lf("a"), py.mkdict([("y", lf("c")), ("x", (lf("b"),))]))}[shape]()


def pe(jitted, n):
    jitted = jitted == "pejit"
    ctx = mkctx(f"{'pejit' if jitted else 'pe'} ({n} arguments)")
    ctx.functions = ["pejit", "pe"] if jitted else ["pe"]
    py = mkpy(ctx, ["TFCUtils"], None, pe_libs())
    fn = "pejit" if jitted else "pe"

    def one(C, shapes, out):
        args = [mktree(py, s, f"A{i}") for i, s in enumerate(shapes)]
        cl = py.mklist([t(c) for c in C])
        got = []

        def fo(py, a, k):
            ctx.same("the function is called with all its arguments", len(a) == n and not k)
            ts = [tree_val(py, x) for x in a]
            lf = lambda i: OV(py, "leaf", app(f"F{i}", *ts), "jnp")
            return {"leaf": lambda: lf(0), "tuple1": lambda: (lf(0),), "pair": lambda: (lf(0), lf(1)), "dict": lambda: py.mkdict([("b", lf(0)), ("a", lf(1))]), "none": lambda: ()}[out]()
        f = Builtin("f", fo)
        pw = py.call(py.glob(py.main, fn), args, {"constant_arg_nums": cl})
        g = py.call(pw, [f], {})
        for q in range(2):
            new = [mktree(py, s, f"B{q}_{i}") for i, s in enumerate(shapes)]
            rest = [x for i, x in enumerate(new) if i not in C]
            r = py.call(g, rest, {})
            full = [args[i] if i in C else new[i] for i in range(n)]
            want = fo(py, full, {})
            rl, rs = flat(py, r)
            wl, ws = flat(py, want)
            ctx.same("ensures the structure of the result", rs == ws)
            ctx.same("ensures the value of the original function at the constants and the remaining arguments", [val(py, x) for x in rl] == [val(py, x) for x in wl])
        ctx.same("frame: the caller's list of positions is unchanged", [c.iconst() for c in py.concrete(cl)] == list(C))
    Cs = [list(p) for r in range(0, n + 1) for p in itertools.permutations(range(n), r)]
    sh = [("leaf",) * n] + [tuple(("leaf", "node", "pair", "nested", "empty")[(i * 3 + s) % 5] for i in range(n)) for s in range(5)]
    outs = ("leaf", "tuple1", "pair", "dict") if n < 4 else ("leaf", "pair")
    return each(ctx, py, list(Cfgs(C=Cs, shapes=sh, out=outs)), one)


# ------------------------------------------------------------------ element-wise gradient
class OFun:
    """the differentiated function: opaque, possibly a jitted one"""

    def __init__(self, py, name):
        self.name, self.seen = name, None

    def call(self, py, a, k):
        if k or len(a) != 1 or not isinstance(a[0], Star):
            raise Unsupported("call of the differentiated function")
        self.seen = a[0].v
        return OV(py, "leaf", app("G", app("ALLARGS")), "jnp")


def ofun_attr(py, g, name):
    if name == "__qualname__":
        return "jit.<locals>.f_jitted" if py.ctx.branch(Pred("JITTED")) else g.name
    if name == "__name__":
        return g.name
    if name == "__wrapped__":
        if py.ctx.known(Pred("JITTED")) is not True:
            raise Raised("AttributeError", name)
        return g
    return NotImplemented


ATTR[OFun] = ofun_attr
STAR[Seq] = lambda py, v: Star(v) if v.count().iconst() is None else (_ for _ in ()).throw(Unsupported("star"))


def egrad(fn):
    robust = fn == "egradRobust"
    ctx = mkctx(fn)
    ctx.functions = [fn] + (["onesRobust", "zerosRobust"] if robust else [])
    l = libs()
    calls = []

    def jvp(py, a, k):
        if len(a) != 3 or k:
            raise Unsupported("jvp arguments")
        calls.append(a)
        return (OV(py, "leaf", app("PRIMAL"), "jnp"), OV(py, "leaf", app("TANGENT"), "jnp"))
    l["jax"].d["jvp"] = Builtin("jvp", jvp)
    py = mkpy(ctx, ["TFCUtils"], None, l)
    n, j = var("n"), var("j")
    for f in (Ge(n, 1), Ge(j, 0), Lt(j, n)):
        ctx.assume(f)
    kind = "tree" if robust else "leaf"

    def one(pos):
        calls.clear()
        g = OFun(py, "g")
        jj = t(0) if pos == "default" else j
        w = py.call(py.glob(py.main, fn), [g] if pos == "default" else [g, j], {})
        A = []
        args = Seq(n, lambda i: OV(py, kind, app("ARG", i), "jnp"))
        r = py.call(w, [Star(args)], {})
        ctx.soft("the directional derivative is used", len(calls) == 1)
        f, pr, tn = calls[0]
        if f is not g:
            w1 = py.call(f, [Star(args)], {})
            ctx.soft("ensures the given function is differentiated", isinstance(w1, OV) and val(py, w1) == app("G", app("ALLARGS")) and g.seen is args)
        expect(ctx, py, "ensures the derivative is returned", r, app("TANGENT"))
        ps, ts = py.iterate(pr), py.iterate(tn)
        if not isinstance(ps, Seq) or not isinstance(ts, Seq):
            raise Unsupported("arguments of jvp")
        ctx.oblige_eq("ensures one point per argument", ps.count(), n)
        ctx.oblige_eq("ensures one direction per argument", ts.count(), n)

        def post():
            i = cdict.idx(ctx, n)
            x, v = ps.item(i), ts.item(i)
            ctx.same("ensures the point is the arguments", isinstance(x, OV) and val(py, x) == app("ARG", i))
            on = ctx.branch(Eq(i, jj))
            if not isinstance(v, OV):
                raise Unsupported("direction")
            ctx.same("ensures direction one in the chosen argument, zero in the others", val(py, v) == (app("ONES") if on else t(0)))
            sh = ("tree", app("ARG", i)) if robust else app("ARG", i)
            ctx.same("ensures the direction has the argument's shape", v.shape == sh)
            if robust:
                lf, lr = v.leafwise
                ctx.same("ensures the direction has the argument's type", getattr(lr, "dt", None) == Shape(("dtype", val(py, lf))))
        ctx.explore(post)
    return each(ctx, py, [dict(pos="default"), dict(pos="given")], one)


def step():
    ctx = mkctx("step")
    ctx.functions = ["step"]
    l = libs()

    def heaviside(py, a, k):
        x, h = py.num(a[0]), py.num(a[1])
        return ite(Lt(x, 0), t(0), ite(Eq(x, 0), h, t(1)))
    l["jax.numpy"].d["heaviside"] = l["numpy"].d["heaviside"] = Builtin("heaviside", heaviside)
    py = mkpy(ctx, ["TFCUtils"], None, l)

    def body():
        py.frames = []
        x = fresh("x")
        r = py.num(py.call(py.glob(py.main, "step"), [x], {}))
        ctx.oblige_eq("ensures step(x) is 1 for x > 0 and 0 otherwise", r, t(1) if ctx.branch(Gt(x, 0)) else t(0))
    return run(ctx, body)


def entry(fn, args):
    return globals()[fn](*args)


if __name__ == "__main__":
    import cjax
    cjax.entry = entry
    cjax.main()
