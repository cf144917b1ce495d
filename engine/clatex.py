"""Contract on utils/Latex.py: the text of a table, white space aside, for any number of rows and columns."""
from cprint import *
import cprint
import re as _re

N, M = var("n"), var("m")


class Mat:
    """a two-dimensional array of floating-point numbers"""


class RowM:
    def __init__(self, k):
        self.k = t(k)


class Entry:
    def __init__(self, k):
        self.k = t(k)


class FormM:
    """the format string"""


class Heads:
    """list of row headers, or of column headers"""

    def __init__(self, what):
        self.what = what


class Atom:
    """a piece of text that depends on the row"""

    def __init__(self, kind, k=None, extra=None):
        self.kind, self.k, self.extra = kind, k, extra

    def at(self, va, k):
        return Atom(self.kind, None if self.k is None else subst(self.k, {va: k}), self.extra)

    def __eq__(self, o):
        return isinstance(o, Atom) and (self.kind, self.k, self.extra) == (o.kind, o.k, o.extra)

    def __hash__(self):
        return hash(self.kind)


class Text:
    """characters, atoms and repetitions (base text, variable, body, count) of a table"""
    istext = True

    def __init__(self, ps):
        out = []
        for p in ps:
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            elif p != "":
                out.append(p)
        self.ps = tuple(out)

    def cat(self, xs):
        return Text([p for x in xs for p in ([x] if isinstance(x, str) else x.ps)])

    def loopstate(self, ctx, v, va):
        return LoopText(self, va)


class LoopText(Text):
    def __init__(self, base, va):
        self.base, self.va, self.hole = base, va, Atom("hole", None, id(base))
        Text.__init__(self, [self.hole])

    def finish(self, ctx, count, paths, entry):
        ends = [q.ps for _, q, _ in paths]
        if len(ends) != 1 or ends[0][:1] != (self.hole,):
            raise Unsupported("text built differently on different paths")
        return Text(self.base.ps + (Rep(self.va, Text(ends[0][1:]), count),))


class Rep:
    def __init__(self, va, body, count):
        self.va, self.body, self.count = va, body, count


def tx(x):
    return x if isinstance(x, Text) else Text([x]) if isinstance(x, str) else None


def tbin(py, op, a, b):
    if op == "Add" and tx(a) is not None and tx(b) is not None:
        return Text([]).cat([a, b])
    return NotImplemented


def sbin(py, op, a, b):
    if op == "Mult":
        s, n = (a, b) if isinstance(a, str) else (b, a)
        if isinstance(s, str) and isinstance(n, T):
            return s * n.iconst() if n.iconst() is not None else Text([Atom("times", n, s)])
    if op == "Add" and (isinstance(a, Text) or isinstance(b, Text)):
        return tbin(py, op, a, b)
    return NotImplemented


def fbin(py, op, a, b):
    if op == "Mod" and isinstance(a, FormM) and isinstance(b, Entry):
        return Text([Atom("entry", b.k)])
    return NotImplemented


def strip(which):
    def f(py, x, chars=None):
        ps = list(x.ps)
        for i, on in ((0, which in "lb"), (-1, which in "rb")):
            if on and ps and isinstance(ps[i], str):
                ps[i] = ps[i].lstrip(chars) if i == 0 else ps[i].rstrip(chars)
            elif on and chars is not None and not (ps and isinstance(ps[i], Atom) and ps[i].kind == "row"):
                raise Unsupported("strip")
        return Text(ps)
    return f


def mat_get(py, x, k):
    if isinstance(k, tuple):
        if len(k) != 2 or not isinstance(k[1], Slice) or any(getattr(k[1], q, None) is not None for q in ("lo", "hi", "step")):
            raise Unsupported("subscript")
        k = k[0]
    return RowM(index(py, N, k))


def index(py, n, k):
    if not isinstance(k, T):
        raise Unsupported("subscript")
    if py.ctx.known(And(Ge(k, 0), Lt(k, n))) is not True:
        raise Unsupported("subscript that may be out of range")
    return k


def a2s(py, a, k):
    """library contract: '[' + the formatted entries joined by the separator + ']', abbreviated beyond the threshold; line breaks are white space"""
    if not isinstance(a[0], RowM) or len(a) > 1 or set(k) - {"separator", "formatter", "threshold", "max_line_width"}:
        raise Unsupported("array2string")
    th = k.get("threshold", t(1000))
    if not isinstance(th, T):
        raise Unsupported("threshold")
    py.ctx.oblige("a row is never abbreviated", Le(M, th))
    f = k.get("formatter")
    if not isinstance(f, PDict):
        raise Unsupported("formatter")
    fm = dict(py.ctx.store[("d", f.id)])
    fn = fm.get("float_kind", fm.get("float", fm.get("all")))
    if fn is None:
        raise Unsupported("formatter")
    r = py.call(fn, [Entry(a[0].k)], {})
    if not isinstance(r, Text) or r.ps != (Atom("entry", a[0].k),):
        raise Unsupported("formatter")
    return Text(["[", Atom("row", a[0].k, k.get("separator", " ").strip()), "]"])


def joined(py, s, a):
    if isinstance(a, Heads):
        return Text([Atom("heads", None, (a.what, s.strip()))])
    q = py.iterate(a)
    if isinstance(q, Seq):
        j = fresh("j")
        py.ctx.assume(And(Ge(j, 0), Lt(j, q.count())))
        x = tx(q.item(j))
        if x is None or len(x.ps) != 1 or not isinstance(x.ps[0], Atom) or x.ps[0].kind != "entry" or q.count() != M:
            raise Unsupported("join")
        return Text([Atom("row", x.ps[0].k, s.strip())])
    return _join0(py, s, q)


_join0 = METHODS[(str, "join")]
BINOP[Text] = BINOP[LoopText] = tbin
BINOP[str], BINOP[FormM] = sbin, fbin
GETITEM[Mat] = mat_get
GETITEM[Heads] = lambda py, x, k: Text([Atom("head", index(py, N, k), x.what)])
ATTR[Mat] = lambda py, x, name: {"shape": (N, M), "ndim": t(2)}.get(name, NotImplemented)
ITER[RowM] = lambda py, x: Seq(M, lambda i: Entry(x.k))
LEN[Heads] = lambda py, x: N if x.what == "row" else (_ for _ in ()).throw(Unsupported("number of headers"))
LEN[RowM] = lambda py, x: M
LEN[Mat] = lambda py, x: N
ITER[Mat] = lambda py, x: Seq(N, lambda i: RowM(i))
ITER[Heads] = lambda py, x: Seq(N, lambda i: Text([Atom("head", t(i), x.what)]))
GENERAL[RowM] = lambda gen, x, i: RowM(subst(x.k, {gen.va: t(i)}))
for C_ in (Text, LoopText):
    METHODS[(C_, "strip")], METHODS[(C_, "rstrip")], METHODS[(C_, "lstrip")] = strip("b"), strip("r"), strip("l")


def blank(ps):
    """white space removed from the literal characters"""
    return Text([_re.sub(r"\s+", "", p) if isinstance(p, str) else p for p in ps]).ps


def table(cols, rows):
    ctx = mkctx(f"table.SimpleTable (column headers: {cols}, row headers: {rows})")
    ctx.functions = ["table.SimpleTable", "table._Arr2Tab", "table._Header", "table._colHeader", "table._Footer"]
    l = {"numpy": Ns("numpy", {"array2string": Builtin("array2string", a2s), "size": Builtin("size", lambda py, a, k: t(len(a[0])) if isinstance(a[0], tuple) else (_ for _ in ()).throw(Unsupported("size"))),
                               "ndim": Builtin("ndim", lambda py, a, k: t(2)), "shape": Builtin("shape", lambda py, a, k: (N, M))})}
    METHODS[(str, "join")] = joined
    py = mkpy(ctx, ["Latex"], None, l)
    py.hooks[(py.main.name, "str")] = Builtin("str", lambda py, a, k: Text([]) if not a else a[0] if tx(a[0]) else BUILTINS["str"].fn(py, a, k))
    ctx.strstate = tx
    ctx.assume(Ge(N, 1))
    ctx.assume(Ge(M, 1))

    def body():
        py.frames = []
        kw = {}
        if cols:
            kw["colHeader"] = Heads("col")
        if rows:
            kw["rowHeader"] = Heads("row")
        c = py.glob(py.main, "table")
        r = tx(py.call(py.getattr(c, "SimpleTable"), [Mat(), FormM()], kw))
        if r is None:
            raise Unsupported("result")
        ps = blank(r.ps)
        reps = [p for p in ps if isinstance(p, Rep)]
        if len(reps) != 1:
            raise Unsupported("rows written by other means")
        i = ps.index(reps[0])
        head = [p for p in ps[:i]]
        ctx.same("ensures the columns are those of the array, and one for the row headers", len(head) >= 3 and head[0] == "\\begin{center}\\begin{tabular}{" and isinstance(head[1], Atom) and head[1].kind == "times" and head[1].extra == "|c")
        ctx.oblige("ensures the number of columns", Eq(head[1].k, M + (1 if rows else 0)))
        want = ["|}\\hline", Atom("heads", None, ("col", "&")), "\\\\\\hline"] if cols else ["|}\\hline"]
        ctx.same("ensures the column headers", head[2:] == want)
        ctx.same("ensures the end of the table", list(ps[i + 1:]) == ["\\end{tabular}\\end{center}"])
        ctx.oblige("ensures every row is written", Eq(reps[0].count, N))
        k = fresh("k")
        ctx.assume(And(Ge(k, 0), Lt(k, N)))
        row = blank([p.at(reps[0].va, k) if isinstance(p, Atom) else p for p in reps[0].body.ps])
        exp = ([Atom("head", k, "row"), "&"] if rows else []) + [Atom("row", k, "&"), "\\\\\\hline"]
        if len(row) == len(exp) and all(isinstance(p, Atom) and p.k is not None and p.kind == q.kind and p.extra == q.extra or p == q for p, q in zip(row, exp)):
            for p, q in zip(row, exp):
                if isinstance(p, Atom):
                    ctx.oblige("ensures each row is in its place", Eq(p.k, q.k))
        else:
            ctx.same("ensures each row is its header and its entries, in order", False)
    return run(ctx, body)


def entry(fn, args):
    return globals()[fn](*args)
