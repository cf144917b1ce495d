"""Contracts on TfcPrinter (src/tfc/utils/CeSolver.py): each overriding method returns text that denotes its expression, given that
the printed text of the parts denotes the parts (structural induction over expressions; the inherited printer is assumed for the
other kinds of node).

Printed text is a sequence of literal characters and tokens; a token stands for the printed text of a part.  To read a text, every
token is replaced by the loosest-binding Python expression (or by a name, where the text is known to be atomic) and the result is
parsed with Python's own grammar, so missing parentheses show."""
from csym import *
import ast as A
import itertools


class Ex:
    """an expression of the computer algebra system"""

    def __init__(self, kind, name=None, args=(), expr=None):
        self.kind, self.name, self.args_, self.expr = kind, name, tuple(args), expr

    def same(self, o):
        if self is o or self.kind == o.kind == "sym":
            return self.name == o.name
        if "sym" in (self.kind, o.kind):
            return False
        raise Unsupported("equality of expressions")

    def __repr__(self):
        return f"{self.kind}:{self.name}"


class Tok:
    def __init__(self, kind, arg, extra=None):
        self.kind, self.arg, self.extra = kind, arg, extra

    def __eq__(self, o):
        return isinstance(o, Tok) and (self.kind, self.arg, self.extra) == (o.kind, o.arg, o.extra)

    def __hash__(self):
        return hash((self.kind, id(self.arg)))


class Tx:
    istext = True

    def __init__(self, ps):
        out = []
        for p in ps:
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            elif p != "":
                out.append(p)
        self.ps = tuple(out)

    def cat(self, xs):
        out = []
        for x in xs:
            out += [x] if isinstance(x, str) else list(x.ps)
        return Tx(out)

    def __eq__(self, o):
        return isinstance(o, Tx) and self.ps == o.ps

    def __hash__(self):
        return hash(self.ps)

    def same(self, o):
        if self == o:
            return True
        if all(len(q.ps) == 1 and isinstance(q.ps[0], Tok) and q.ps[0].kind == "name" for q in (self, o)):
            return False
        raise Unsupported("equality of texts")

    def loopstate(self, ctx, v, va):
        return LoopTx(self)


class LoopTx(Tx):
    """a text at the start of a generic iteration"""

    def __init__(self, base):
        self.base, self.hole = base, Tok("hole", base)
        Tx.__init__(self, [self.hole])

    def finish(self, ctx, count, paths, entry):
        ends = {q.ps for _, q, _ in paths}
        if len(ends) != 1:
            raise Unsupported("text built differently on different paths")
        return Tx([Tok("repeat", (self.hole, Tx(ends.pop()), self.base), count)])


def txt(x):
    return x if isinstance(x, Tx) else Tx([x]) if isinstance(x, str) else None


class Match:
    def __init__(self, name):
        self.name = name


def binop(py, op, a, b):
    if op == "Add" and txt(a) and txt(b) or op == "Add" and (a == "" or b == ""):
        return Tx([]).cat([txt(a) or Tx([]), txt(b) or Tx([])])
    return NotImplemented


def exattr(py, x, name):
    if name == "args":
        if x.kind == "fn":
            return x.args_
        if x.kind == "der":
            return (x.expr,) + x.args_
        if x.kind == "subs":
            return (x.expr,) + x.args_
        return ()
    if name == "func":
        return Ns("func", {"__name__": Tx([Tok("name", x.name)])})
    if name == "name" and x.kind in ("fn", "sym"):
        return Tx([Tok("name", x.name)])
    if name == "expr" and x.kind in ("der", "subs"):
        return x.expr
    if name == "variable_count" and x.kind == "der":
        return x.args_
    if name == "variables" and x.kind == "subs":
        return x.args_[0]
    if name == "point" and x.kind == "subs":
        return x.args_[1]
    if name in ("is_Symbol", "is_symbol"):
        return TRUE if x.kind == "sym" else FALSE
    if name == "is_Derivative":
        return TRUE if x.kind == "der" else FALSE
    if name == "is_Function":
        return TRUE if x.kind == "fn" else FALSE
    raise Unsupported("expression attribute " + name)


def exinst(py, x, ty):
    return {"Derivative": "der", "Function": "fn", "AppliedUndef": "fn", "Symbol": "sym", "Subs": "subs", "Expr": x.kind, "Basic": x.kind}.get(getattr(ty, "name", None)) == x.kind


def pr(py, x):
    if txt(x):
        return x
    if isinstance(x, Ex):
        return Tx([Tok("name", x.name)]) if x.kind == "sym" else Tx([Tok("loose", x)])
    if isinstance(x, T) and x.iconst() is not None:
        return str(x.iconst())
    raise Unsupported("printing " + type(x).__name__)


def parenthesize(py, a, k):
    x, level = a[1], a[2] if len(a) > 2 else k.get("level")
    strict = k.get("strict", a[3] if len(a) > 3 else FALSE)
    if not isinstance(x, Ex) or level.iconst() is None:
        raise Unsupported("parenthesize")
    if x.kind == "sym":
        return pr(py, x)
    # precedence of an arbitrary expression is unknown: below level it is bracketed; functions (70) and derivatives are atomic text
    return Tx([Tok("atomic", x)]) if level.iconst() >= 70 else pr(py, x)


def esc(py, a, k):
    return Tx([Tok("escaped", txt(a[0]))])


def resub(py, a, k):
    if len(a) != 3 or k or not (txt(a[0]) and txt(a[2])):
        raise Unsupported("re.sub")
    ps = list(txt(a[0]).ps)
    if not ps or ps[0] != "\\b(?:" or ps[-1] != ")\\b":
        raise Unsupported("pattern")
    names = ps[1:-1:2]
    if any(s != "|" for s in ps[2:-1:2]) or any(not isinstance(q, Tok) or q.kind != "escaped" for q in names):
        raise Unsupported("pattern")
    mp = []
    for q in names:
        v = txt(py.call(a[1], [Match(q.arg)], {}))
        if v is None:
            raise Unsupported("replacement")
        mp.append((q.arg, v))
    return Tx([Tok("replaced", txt(a[2]), tuple(mp))])


def group(py, m, *a):
    if a and a[0].iconst() != 0:
        raise Unsupported("group")
    return m.name


ATTR[Ex], ISINST[Ex] = exattr, exinst
BINOP[Tx] = BINOP[LoopTx] = binop
METHODS[(Match, "group")] = group
ATTR[Match] = lambda py, x, name: Builtin(name, lambda py, a, k: group(py, x, *a)) if name == "group" else NotImplemented


def pstr(py, a, k):
    x = a[0]
    if isinstance(x, Ex):
        return Tx([Tok("name", x.name)]) if x.kind == "sym" else Tx([Tok("algebra", x)])
    if txt(x):
        return x
    return BUILTINS["str"].fn(py, a, k)


class Unread(Exception):
    pass


def read(ctx, tx, atom=False):
    """denotation of a text: ("ex", e) | ("name", n) | ("op", n, {position: order}) | ("app", n, orders, args)"""
    tab, src = {}, ""
    for p in txt(tx).ps:
        if isinstance(p, str):
            src += p
            continue
        nm = f"TOKEN{len(tab)}"
        tab[nm] = p
        src += f"{nm} if {nm} else {nm}" if p.kind in ("loose", "algebra", "replaced") else nm
    if atom:
        src += ".ATTRIBUTE"
    try:
        e = A.parse(src.strip(), mode="eval").body
    except SyntaxError:
        raise Unread("not an expression: " + src)

    def tok(nm):
        p = tab[nm]
        if p.kind in ("loose", "atomic"):
            return ("ex", p.arg)
        if p.kind == "name":
            return ("name", p.arg)
        if p.kind == "hole":
            return ("hole", p, {})
        if p.kind == "repeat":
            hole, body, base = p.arg
            b = read(ctx, body)
            if b[0] != "op" or not isinstance(b[1], Tok) or b[1] != hole:
                raise Unread("loop body")
            return op(read(ctx, base), {i: c * p.extra for i, c in b[2].items()})
        raise Unread("text of kind " + p.kind)

    def op(f, orders):
        if f[0] == "name":
            f = ("op", f[1], {})
        if f[0] == "hole":
            f = ("op", f[1], {})
        if f[0] != "op":
            raise Unread("derivative of this")
        o = dict(f[2])
        for i, c in orders.items():
            o[i] = o.get(i, t(0)) + c
        return ("op", f[1], o)

    def go(x):
        if isinstance(x, A.IfExp) and isinstance(x.test, A.Name) and x.test.id in tab and all(isinstance(y, A.Name) and y.id == x.test.id for y in (x.body, x.orelse)):
            return tok(x.test.id)
        if isinstance(x, A.Name):
            if x.id not in tab:
                raise Unread("name " + x.id)
            return tok(x.id)
        if isinstance(x, A.Call) and not x.keywords:
            if isinstance(x.func, A.Name) and x.func.id == "egrad":
                j = 0
                if len(x.args) == 2 and isinstance(x.args[1], A.Constant) and isinstance(x.args[1].value, int):
                    j = x.args[1].value
                elif len(x.args) != 1:
                    raise Unread("egrad arguments")
                return op(go(x.args[0]), {j: t(1)})
            f = op(go(x.func), {})
            return ("app", f[1], f[2], [go(y) for y in x.args])
        raise Unread("form " + type(x).__name__)
    if atom:
        if not isinstance(e, A.Attribute) or e.attr != "ATTRIBUTE":
            raise Unread("not atomic: " + src)
        e = e.value
    return go(e)


def isatomic(ctx, tx, x):
    """the text reads as the expression x wherever it is put"""
    try:
        return read(ctx, tx, True) == (("name", x.name) if x.kind == "sym" else ("ex", x))
    except Unread:
        return False


def isloose(ctx, tx, x):
    """the text reads as the expression x as a whole argument of a function"""
    try:
        return read(ctx, tx) == (("name", x.name) if x.kind == "sym" else ("ex", x))
    except Unread:
        return False


def denotes(ctx, name, tx, fn, orders):
    """the text reads as the application of fn's name, differentiated `orders` times in each position, to fn's arguments"""
    try:
        d = read(ctx, tx)
    except Unread as e:
        ctx.same(f"{name} ({e})", False)
    ok = d[0] == "app" and d[1] == fn.name and len(d[3]) == len(fn.args_)
    ctx.same(f"{name}: name and number of arguments", ok)
    want = [("name", a.name) if a.kind == "sym" else ("ex", a) for a in fn.args_]
    ctx.same(f"{name}: arguments in order", d[3] == want)
    ctx.same(f"{name}: positions", all(0 <= i < len(want) for i in d[2]))
    for i in range(len(want)):
        ctx.oblige_eq(f"{name}: order of the derivative in each argument", d[2].get(i, t(0)), orders.get(i, t(0)))


def printer(ctx, kf=None):
    l = dict(LIBSYM())
    base = ModelType("PythonCodePrinter", {
        "__init__": Builtin("__init__", lambda py, a, k: ctx.store.__setitem__(("init",), (tuple(a[1:]), tuple(sorted(k.items(), key=lambda q: q[0]))))),
        "_print": Builtin("_print", lambda py, a, k: pr(py, a[1])),
        "doprint": Builtin("doprint", lambda py, a, k: pr(py, a[1])),
        "parenthesize": Builtin("parenthesize", parenthesize),
        "_hprint_Pow": Builtin("_hprint_Pow", lambda py, a, k: ("POW", a[1:], k))})
    l["sympy.printing.pycode"] = Ns("sympy.printing.pycode", {"PythonCodePrinter": base})
    l["re"] = Ns("re", {"escape": Builtin("escape", esc), "sub": Builtin("sub", resub)})
    py = mkpy(ctx, ["CeSolver"], None, l)
    ctx.strstate = txt
    py.hooks[(py.main.name, "str")] = Builtin("str", pstr)
    prec = {"Lambda": 1, "Xor": 10, "Or": 20, "And": 30, "Relational": 35, "Add": 40, "Mul": 50, "Pow": 60, "Func": 70, "Not": 100, "Atom": 1000}
    py.prec = prec
    l["sympy.printing.precedence"] = Ns("sympy.printing.precedence", {"PRECEDENCE": Prec(prec)})
    py.libs.update(l) if hasattr(py, "libs") else None
    return py


class Prec:
    def __init__(self, d):
        self.d = d


GETITEM[Prec] = lambda py, x, k: t(x.d[k])


def LIBSYM():
    mt = lambda n: ModelType(n)
    s = {n: mt(n) for n in ("Derivative", "Function", "Symbol", "Subs", "Expr", "Basic")}
    return {"sympy": Ns("sympy", s), "sympy.core.function": Ns("sympy.core.function", {"AppliedUndef": mt("AppliedUndef"), **{k: s[k] for k in ("Derivative", "Function", "Subs")}}),
            "sympy.simplify.simplify": Ns("sympy.simplify.simplify", {"nc_simplify": Builtin("nc_simplify", simplify)})}


def mk(py, cls="TfcPrinter"):
    c = py.glob(py.main, cls)
    o = Inst(c)
    return o


def print_function(n):
    ctx = mkctx(f"TfcPrinter._print_Function ({n} arguments)")
    ctx.functions = ["TfcPrinter._print_Function", "TfcPrinter._print_Symbol"]
    py = printer(ctx)

    def body():
        py.frames = []
        o = mk(py)
        fn = Ex("fn", "F", [Ex("sym", f"v{i}") if ctx.branch(Pred(f"sym{i}")) else Ex("any", f"e{i}") for i in range(n)])
        denotes(ctx, "ensures the text is the function applied to its printed arguments", call_method(py, o, "_print_Function", [fn]), fn, {})
        s = Ex("sym", "v")
        r = txt(call_method(py, o, "_print_Symbol", [s]))
        ctx.same("ensures a symbol prints as its name", r == Tx([Tok("name", "v")]))
    return run(ctx, body)


def print_derivative(n):
    ctx = mkctx(f"TfcPrinter._print_Derivative ({n} arguments)")
    ctx.functions = ["TfcPrinter._print_Derivative"]
    py = printer(ctx)
    cfgs = [c for k in range(1, n + 1) for c in itertools.permutations(range(n), k)]
    for c in cfgs:
        def body(c=c):
            py.frames = []
            o = mk(py)
            args = [Ex("sym", f"v{i}") if i in c or ctx.branch(Pred(f"sym{i}")) else Ex("any", f"e{i}") for i in range(n)]
            fn = Ex("fn", "F", args)
            ks = {i: var(f"k{i}") for i in c}
            for v in ks.values():
                ctx.assume(Ge(v, 1))
            d = Ex("der", None, [(args[i], ks[i]) for i in c], fn)
            denotes(ctx, "ensures the text is the derivative of every given order, applied to the printed arguments", call_method(py, o, "_print_Derivative", [d]), fn, ks)
        run(ctx, body)
    return ctx


def print_subs(n):
    ctx = mkctx(f"TfcPrinter._print_Subs ({n} variables)")
    ctx.functions = ["TfcPrinter._print_Subs"]
    py = printer(ctx)

    def body():
        py.frames = []
        o = mk(py)
        old = [Ex("sym", f"v{i}") for i in range(n)]
        new = [Ex("sym", f"w{i}") if ctx.branch(Pred(f"sym{i}")) else Ex("any", f"e{i}") for i in range(n)]
        plain = ctx.branch(Pred("derivative"))
        syms = plain and ctx.branch(Pred("symbols"))
        e = Ex("any", "e")
        if plain:
            fn = Ex("fn", "F", [Ex("sym", "v0"), Ex("sym", "u") if syms else Ex("any", "a")])
            e = Ex("der", None, [(fn.args_[0], var("k0"))], fn)
        s = Ex("subs", None, [tuple(old), tuple(new)], e)
        r = txt(call_method(py, o, "_print_Subs", [s]))
        if r is None or len(r.ps) != 1 or not isinstance(r.ps[0], Tok) or r.ps[0].kind != "replaced":
            raise Unsupported("substitution by other means")
        text, mp = r.ps[0].arg, r.ps[0].extra
        # a value that is a whole argument of the function needs no brackets, and neither does the text of a derivative
        ok = isloose if syms else isatomic
        ctx.same("ensures the text substituted into is that of the expression, in brackets where it is not atomic", ok(ctx, text, e) or e.kind == "der" and isloose(ctx, text, e))
        ctx.same("ensures every variable is replaced, and nothing else", [q[0] for q in mp] == [Tx([Tok("name", x.name)]) for x in old])
        for (_, v), x in zip(mp, new):
            ctx.same("ensures each variable is replaced by the printed value, in brackets where it is not atomic", ok(ctx, v, x))
    return run(ctx, body)


def print_names():
    """constructor: every name of the math module is printed as that of np; powers use np.sqrt"""
    ctx = mkctx("TfcPrinter.__init__, _hprint_Pow")
    ctx.functions = ["TfcPrinter.__init__", "TfcPrinter._hprint_Pow"]
    py = printer(ctx)
    kf = {"sin": "math.sin", "Abs": "abs", "erf": "math.erf", "q": "numpy.q"}
    kc = {"Pi": "math.pi", "Other": "other", "Exp1": "math.e"}

    def body():
        py.frames = []
        c = py.glob(py.main, "TfcPrinter")
        b = [m for m in c.mro() if isinstance(m, ModelType)][0]
        ds = {}
        for nm, d in (("_kf", kf), ("_kc", kc)):
            ds[nm] = py.mkdict(list(d.items()))
            b.methods[nm] = ds[nm]
        try:
            o = py.construct(c, [], {})
        except Raised as e:
            ctx.same(f"ensures the constructor returns (raised {e.kind})", False)
        for nm, d in (("_kf", kf), ("_kc", kc)):
            ctx.same("ensures names of math become names of np, and no other name changes", dict(ctx.store[("d", ds[nm].id)]) == {k: v.replace("math.", "np.") for k, v in d.items()})
        ctx.same("ensures the inherited constructor is called", ("init",) in ctx.store)
        e = Ex("any", "e")
        r = call_method(py, o, "_hprint_Pow", [e])
        if not (isinstance(r, tuple) and r[0] == "POW"):
            raise Unsupported("power printed by other means")
        got = dict(zip(("expr", "rational", "sqrt"), r[1]), **r[2])
        ctx.same("ensures square roots are printed with np.sqrt", got.get("expr") is e and got.get("sqrt") == "np.sqrt" and got.get("rational", FALSE) == FALSE)
    return run(ctx, body)


def print_type():
    """selecting how expressions are shown installs the named printer, and reading the choice returns it"""
    ctx = mkctx("CeSolver.print_type")
    ctx.functions = ["CeSolver.print_type"]
    py = printer(ctx)
    calls = []
    lat, l = Special("latex"), py.libs["sympy"].d

    def init(py, a, k):
        k = dict(k)
        for nm, v in zip(("pretty_print",), a):
            k[nm] = v
        calls.append(k)
    l["init_printing"], l["latex"] = Builtin("init_printing", init), lat
    py.hooks[(py.main.name, "TFCPrint")] = tfcprint()

    def body():
        py.frames = []
        c = py.glob(py.main, "TfcPrinter")
        b = [m for m in c.mro() if isinstance(m, ModelType)][0]
        b.methods["_kf"], b.methods["_kc"] = py.mkdict([]), py.mkdict([])
        o = Inst(py.glob(py.main, "CeSolver"))
        for ty in ("tfc", "str", "pretty", "latex", "str", "tfc"):
            del calls[:]
            py.setattr(o, "print_type", ty)
            ctx.same("ensures the choice can be read back", py.getattr(o, "print_type") == ty)
            ctx.same("ensures one printer is installed", len(calls) == 1)
            k = calls[0]
            pp = k.get("pretty_print", TRUE)
            if set(k) - {"pretty_print", "pretty_printer"}:
                raise Unsupported("printer options")
            f = k.get("pretty_printer")
            if ty == "tfc":
                e = Ex("any", "e")
                ok = pp == TRUE and f is not None
                if ok and isinstance(f, Method):
                    ok = isinstance(f.obj, Inst) and f.obj.cls is c and txt(py.call(f, [e], {})) == Tx([Tok("loose", e)])
                elif ok:
                    raise Unsupported("printer given in another form")
            elif ty == "str":
                ok = pp == FALSE
            elif ty == "pretty":
                ok = pp == TRUE and f is None
            else:
                ok = pp == TRUE and f is lat
            ctx.same("ensures the printer installed is the one named", ok)
        try:
            py.setattr(o, "print_type", "other")
        except Raised:
            ctx.same("an unknown choice is refused", True)
            return
        ctx.same("an unknown choice is refused", False)
    return run(ctx, body)


def entry(fn, args):
    return globals()[fn](*args)
