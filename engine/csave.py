"""Contract on ComponentConstraintGraph.SaveGraphs and utils/Html.py: what is drawn and written is what the graph reports.  Any number
of components and constraints, any orientations; the number of embeddings drawn is a small constant per job."""
from cgraph import *
import cgraph
import posixpath


class Label:
    """the name of a constraint"""

    def __init__(self, g):
        self.g = t(g)


class Draw:
    """what has been added to a picture: (parameters of enclosing loops, guard, kind, payload)"""

    def __init__(self, items=(), base=None, va=None):
        self.items, self.base, self.va = items, base, va

    def loopstate(self, ctx, v, va):
        return Draw((), self, va)

    def add(self, *it):
        return Draw(self.items + (it,), self.base, self.va)

    def finish(self, ctx, count, paths, entry):
        out = self.base
        for gs, q, s in paths:
            for params, guard, kind, pay in q.items:
                out = out.add(params + ((self.va, count),), And(*gs, guard), kind, pay)
        return out


class Dig:
    def __init__(self, name):
        self.name, self.loc = name, ("dig", fresh_name("dig"))


class Sub:
    def __init__(self, dig):
        self.dig = dig


class Attrs:
    pass


class DocM:
    def __init__(self):
        self.loc = ("doc", fresh_name("doc"))


class TagM:
    pass


class FileM:
    def __init__(self, path, mode):
        self.path, self.mode = path, mode


class Read:
    """contents of a file"""

    def __init__(self, path):
        self.path = path


def log(py, *e):
    py.ctx.store[("log",)] = py.ctx.store[("log",)] + (e,)


def draw(py, d, kind, pay):
    d = d.dig if isinstance(d, Sub) else d
    py.ctx.store[d.loc] = py.ctx.store[d.loc].add((), TRUE, kind, pay)


def node(py, d, name, label=None, _attributes=None, **kw):
    draw(py, d, "node", (name, name if label is None else label, kw.get("href", kw.get("URL"))))


def edge(py, d, tail_name, head_name, label=None, _attributes=None, **kw):
    draw(py, d, "edge", (tail_name, head_name, label))


def render(py, d, filename=None, directory=None, view=FALSE, cleanup=FALSE, format=None, **kw):
    if directory is not None or not isinstance(filename, str) or not isinstance(format, str):
        raise Unsupported("render")
    log(py, "render", filename, format, d, py.ctx.store[d.loc])


def mkdig(py, name=None, *a, **kw):
    if a or kw:
        raise Unsupported("Digraph options")
    d = Dig(name)
    py.ctx.store[d.loc] = Draw()
    return d


for T_ in (Dig, Sub):
    METHODS[(T_, "node")], METHODS[(T_, "edge")] = node, edge
    METHODS[(T_, "attr")] = lambda py, d, *a, **k: None
METHODS[(Dig, "render")] = render
METHODS[(Dig, "subgraph")] = lambda py, d, graph=None, name=None, **k: Sub(d) if graph is None else (_ for _ in ()).throw(Unsupported("subgraph"))
ATTR[Dig] = ATTR[Sub] = lambda py, d, name: Attrs() if name in ("node_attr", "edge_attr", "graph_attr") else NotImplemented
METHODS[(Attrs, "update")] = lambda py, d, *a, **k: None
py_CONTEXT = __import__("py").CONTEXT
py_CONTEXT[Sub] = (lambda py, m: m, lambda py, m: None)
py_CONTEXT[TagM] = (lambda py, m: None, lambda py, m: None)
py_CONTEXT[FileM] = (lambda py, m: m, lambda py, m: None)


def doc_add(py, d, *e):
    py.ctx.store[d.loc] = py.ctx.store[d.loc] + (e,)


METHODS[(DocM, "asis")] = lambda py, d, *a: [doc_add(py, d, "asis", x) for x in a] and None
METHODS[(DocM, "text")] = lambda py, d, *a: [doc_add(py, d, "text", x) for x in a] and None
METHODS[(DocM, "stag")] = lambda py, d, name, *a, **k: doc_add(py, d, "stag", name, dict(a, **k))
METHODS[(DocM, "getvalue")] = lambda py, d: Page(py.ctx.store[d.loc])
METHODS[(DocM, "tag")] = lambda py, d, *a, **k: TagM()
METHODS[(DocM, "tagtext")] = lambda py, d: (d, Builtin("tag", lambda py, a, k: TagM()), Builtin("text", lambda py, a, k: doc_add(py, d, "text", *a)))


class Page:
    def __init__(self, ev):
        self.ev = ev


def mkdoc(py, a, k):
    d = DocM()
    py.ctx.store[d.loc] = ()
    return d


def fopen(py, a, k):
    path, mode = a[0], a[1] if len(a) > 1 else k.get("mode", "r")
    if not isinstance(path, str) or not isinstance(mode, str):
        raise Unsupported("open")
    if "w" in mode or "x" in mode:
        d = posixpath.dirname(path)
        if ("made", d) not in py.ctx.store and py.ctx.known(Pred("exists " + d)) is not True:
            py.ctx.same("the folder of a file exists when it is written", False)
        log(py, "create", path)
    elif mode in ("r", "rt"):
        base, ext = posixpath.splitext(path)
        py.ctx.same("a file is read only after it was made", any(e[:3] == ("render", base, ext[1:]) for e in py.ctx.store[("log",)]))
    else:
        raise Unsupported("open mode")
    return FileM(path, mode)


def fwrite(py, f, x):
    if "w" not in f.mode:
        raise Unsupported("write")
    log(py, "write", f.path, x)


METHODS[(FileM, "write")] = fwrite
METHODS[(FileM, "read")] = lambda py, f: Read(f.path)
METHODS[(FileM, "close")] = lambda py, f: None


def join(py, a, k):
    if not all(isinstance(x, str) for x in a):
        raise Unsupported("path")
    return posixpath.join(*a)


def dirname(py, a, k):
    if not isinstance(a[0], str):
        raise Unsupported("path")
    return posixpath.dirname(a[0])


def exists(py, a, k):
    if not isinstance(a[0], str):
        raise Unsupported("path")
    return TRUE if ("made", a[0]) in py.ctx.store else Pred("exists " + a[0])


def makedirs(py, a, k):
    if not isinstance(a[0], str):
        raise Unsupported("path")
    ok = k.get("exist_ok", FALSE)
    if ok != TRUE:
        if ("made", a[0]) in py.ctx.store or py.ctx.known(Not(Pred("exists " + a[0]))) is not True:
            raise Unsupported("makedirs of a folder that may exist")
    py.ctx.store[("made", a[0])] = True


def indent(py, a, k):
    if not isinstance(a[0], Page):
        raise Unsupported("indent")
    return a[0]


def ceil(old):
    def f(py, a, k):
        x = a[0]
        if isinstance(x, T) and x.const() is not None:
            return t(-((-x.const()) // 1))
        return old.fn(py, a, k) if old else (_ for _ in ()).throw(Unsupported("ceil"))
    return f


def label_get(py, e, k):
    return Label(e.g) if k == "name" else edge_get(py, e, k)


def setup_save(label):
    GETITEM[Edge] = label_get
    ctx = mkctx(label)
    l = csolve.libs()
    for nm in ("numpy", "jax.numpy"):
        d = l[nm].d
        d["ceil"] = Builtin("ceil", ceil(d.get("ceil")))
    path = Ns("os.path", {"join": Builtin("join", join), "dirname": Builtin("dirname", dirname), "exists": Builtin("exists", exists), "isdir": Builtin("isdir", exists)})
    l["os"] = Ns("os", {"path": path, "makedirs": Builtin("makedirs", makedirs)})
    l["os.path"] = path
    l["graphviz"] = Ns("graphviz", {"Digraph": Builtin("Digraph", lambda py, a, k: mkdig(py, *a, **k))})
    l["yattag"] = Ns("yattag", {"Doc": Builtin("Doc", mkdoc), "indent": Builtin("indent", indent)})
    py = mkpy(ctx, ["TFCUtils", "Html"], None, l)
    for m in py.mods.values():
        py.hooks[(m.name, "open")] = Builtin("open", fopen)
    ctx.assume(Ge(NN, 1))
    ctx.assume(Ge(NE, 1))
    ctx.assume(Ge(TOTAL, 1))
    return ctx, py


def per(ctx, py, items, kind, n, key, what):
    """items of one kind: exactly one for every index 0..n-1; returns the payload for an arbitrary index"""
    its = [it for it in items if it[2] == kind]
    ctx.same(f"ensures {what} are drawn", bool(its))
    for params, guard, _, pay in its:
        if len(params) != 1:
            raise Unsupported("drawn in another kind of loop")
        ctx.oblige(f"ensures all {what} are drawn, and no others", Eq(params[0][1], n))
    g = fresh("g")
    ctx.assume(And(Ge(g, 0), Lt(g, n)))
    hits = []
    for params, guard, _, pay in its:
        s = {params[0][0]: g}
        if ctx.branch(fsubst(guard, s)):
            hits.append(tuple(type(x)(subst(x.i if isinstance(x, Name) else x.g, s)) if isinstance(x, (Name, Label)) else x for x in pay))
    ctx.same(f"ensures each of the {what} is drawn once", len(hits) == 1)
    k = key(hits[0])
    if k is None or ctx.known(Eq(k, g)) is not True:
        raise Unsupported("drawn in another order")
    return g, hits[0]


def save(n, allgraphs, pdf):
    ctx, py = setup_save(f"ComponentConstraintGraph.SaveGraphs ({n} embeddings, allGraphs={allgraphs}, savePDFs={pdf})")
    ctx.functions = ["ComponentConstraintGraph.SaveGraphs", "HTML.__init__", "HTML.GenerateHtml", "HTML.WriteFile", "HTML.ReadFile", "Dot.__init__", "Dot.Render"]

    def body():
        py.frames = []
        ctx.store[("log",)] = ()
        o = Inst(py.glob(py.main, "ComponentConstraintGraph"))
        ps = [var(f"p{k}") for k in range(n)]
        for p in ps:
            ctx.assume(And(Ge(p, 0), Lt(p, TOTAL)))
        for p, q in zip(ps, ps[1:]):
            ctx.assume(Lt(p, q))
        ctx.assume(Ge(TOTAL, n))
        rows = [Row(p) for p in ps]
        for nm, v in (("N", Nodes()), ("E", Edges()), ("nNodes", NN), ("nEdges", NE)):
            py.setattr(o, nm, v)
        if allgraphs:
            py.setattr(o, "targets", py.mklist(rows))
            py.setattr(o, "goodTargets", py.mklist([t(0)]))
        else:
            py.setattr(o, "targets", Bits())
            py.setattr(o, "goodTargets", py.mklist(ps))
        kw = {}
        if allgraphs:
            kw["allGraphs"] = TRUE
        if pdf:
            kw["savePDFs"] = TRUE
        call_method(py, o, "SaveGraphs", ["OUT"], kw)
        ev = ctx.store[("log",)]
        pics = {}
        for e in ev:
            if e[0] == "render":
                pics.setdefault(e[1], []).append(e)
        want = ["OUT/dotFiles/main"] + [f"OUT/dotFiles/tree{k}" for k in range(n)]
        ctx.same("ensures one picture per embedding, and an overview", sorted(pics) == sorted(want))
        for w in want:
            fm = sorted(e[2] for e in pics[w])
            ctx.same("ensures the formats of the pictures", fm == sorted(["cmapx", "svg"] + (["pdf"] if pdf and w != want[0] else [])))
            ctx.same("ensures the pictures of one graph agree", len({id(e[4]) for e in pics[w]}) == 1)
        main = pics[want[0]][0][4].items
        nodes = [it[3] for it in main if it[2] == "node"]
        ctx.same("ensures the overview links every embedding once", sorted(str(x[0]) for x in nodes) == sorted(f"tree{k}" for k in range(n)) and all(x[2] == f"htmlFiles/{x[0]}.html" for x in nodes))
        files = {e[1]: e[2] for e in ev if e[0] == "write"}
        pages = {"OUT/main.html": ("main", "dotFiles/main.svg")}
        pages.update({f"OUT/htmlFiles/tree{k}.html": (f"tree{k}", f"../dotFiles/tree{k}.svg") for k in range(n)})
        ctx.same("ensures one page per embedding, and an overview", sorted(files) == sorted(pages) and len([e for e in ev if e[0] == "write"]) == len(pages))
        for f, (g, src) in pages.items():
            if not isinstance(files[f], Page):
                raise Unsupported("page")
            pg = files[f].ev
            img = [e for e in pg if e[0] == "stag" and e[1] == "img"]
            ctx.same("ensures each page shows the picture of its embedding", len(img) == 1 and img[0][2].get("src") == src and img[0][2].get("usemap") == "#" + g)
            rd = [e[1].path for e in pg if e[0] == "asis" and isinstance(e[1], Read)]
            ctx.same("ensures each page has the links of its picture", rd == [f"OUT/dotFiles/{g}.cmapx"])
            ctx.same("ensures pictures are named as their pages refer to them", pics[f"OUT/dotFiles/{g}"][0][3].name == g)
        # one embedding chosen by the case split
        for k in range(n):
            if k + 1 < n and not ctx.branch(Pred(f"look at {k}")):
                continue
            items = pics[f"OUT/dotFiles/tree{k}"][0][4].items
            g, (nm, lb, _) = per(ctx, py, items, "node", NN, lambda h: h[0].i if isinstance(h[0], Name) else None, "components")
            g, (a, b, lb) = per(ctx, py, items, "edge", NE, lambda h: h[2].g if isinstance(h[2], Label) else None, "constraints")
            ctx.same("ensures arrows join components", isinstance(a, Name) and isinstance(b, Name))
            flip = Ne(bit(py, ps[k], g), 0)
            x, y = A(py, g), B(py, g)
            if ctx.branch(flip):
                x, y = y, x
            ctx.oblige("ensures each arrow points as the reported embedding says", And(Eq(a.i, x), Eq(b.i, y)))
            break
    return run(ctx, body)


def entry(fn, args):
    return globals()[fn](*args)
