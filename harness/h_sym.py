"""E01, E02, G01: constrained-expression solver, printer, constraint graph."""
from lib import *
import itertools, random

CE = ["utils/CeSolver.py"]


def sp_env():
    import sympy as sp
    x, y = sp.symbols("x y")
    return sp, x, y


def ops_of(spec):
    """constraint operators from a JSON description (linear functionals of the expression in x)"""
    sp, x, y = sp_env()
    out = []
    for o in spec:
        k = o[0]
        if k == "val":
            out.append(lambda u, a=o[1]: u.subs(x, a))
        elif k == "der":
            out.append(lambda u, a=o[1], n=o[2]: sp.diff(u, x, n).subs(x, a))
        elif k == "rel":
            out.append(lambda u, a=o[1], b=o[2]: u.subs(x, a) - u.subs(x, b))
        elif k == "lin":
            out.append(lambda u, a=o[1], b=o[2], c=o[3]: c * u.subs(x, a) + sp.diff(u, x).subs(x, b))
        elif k == "int":
            out.append(lambda u, a=o[1], b=o[2]: sp.integrate(u, (x, a, b)))
    return out


SUP = ["1", "x", "x**2", "x**3", "sin(x)", "exp(x)", "x**4 + x"]


def sup_of(spec):
    sp, x, y = sp_env()
    return [sp.re(1) if s == "1" else sp.sympify(s, locals={"x": x}) for s in spec]


def kap_of(spec):
    sp, x, y = sp_env()
    return [sp.sympify(s, locals={"x": x, "y": y}) if isinstance(s, str) else sp.re(s) for s in spec]


def free_of(spec):
    sp, x, y = sp_env()
    return {"g(x)": sp.Function("g")(x), "h(x)": sp.Function("h")(x), "g(x,y)": sp.Function("g")(x, y), "expr": sp.Function("g")(x) + x ** 2}[spec]


CONC = ["x**5 + 3*x", "cos(2*x) + x", "exp(-x)*x**2 + 1"]


def concrete(e, i):
    """replace the free function by a concrete one and evaluate derivatives/integrals"""
    sp, x, y = sp_env()
    f = sp.sympify(CONC[i % len(CONC)], locals={"x": x})
    for nm in ("g", "h"):
        F = sp.Function(nm)
        e = e.replace(F, lambda *a: (f.subs(x, a[0]) + (a[1] * f.subs(x, a[0] / 2) if len(a) > 1 else 0) + (1 if nm == "h" else 0)))
    return sp.sympify(e).doit()


def num(e):
    sp, x, y = sp_env()
    return complex(sp.N(e.subs({x: sp.Rational(7, 10), y: sp.Rational(3, 10)}), 30))


def independent(case):
    sp, x, y = sp_env()
    C, s = ops_of(case["C"]), sup_of(case["s"])
    S = sp.Matrix([[c(f) for f in s] for c in C])
    d = sp.N(S.det(), 30)
    return abs(complex(d)) > 1e-6


def check_e01(case):
    sp, x, y = sp_env()
    from tfc.utils import CeSolver
    if not independent(case):
        return None
    C, K, s, g = ops_of(case["C"]), kap_of(case["K"]), sup_of(case["s"]), free_of(case["g"])
    cs = CeSolver(C, K, s, g)
    order = case.get("order", [])
    for q in order:
        getattr(cs, q)
    ce = cs.ce
    for i in range(2):
        e = concrete(ce, i)
        for k, c in enumerate(C):
            # apply the operator to the expression in the concrete free function
            v = sp.sympify(c(e)).doit()
            a, b = num(v), num(sp.sympify(K[k]).doit())
            if abs(a - b) > 1e-8 * (1 + abs(b)):
                return f"constraint {k} ({case['C'][k]}) of the constrained expression gives {a}, expected {b}; free function {CONC[i]}"
        # reconstruction: g + phi . rho
        r = sp.sympify(g) + (cs.phi * cs.rho)[0]
        a, b = num(concrete(r, i)), num(e)
        if abs(a - b) > 1e-8 * (1 + abs(b)):
            return f"g + phi.rho gives {a}, the constrained expression {b}"
    # switching functions: C_i[phi_j] = delta_ij
    for i, c in enumerate(C):
        for j in range(len(C)):
            v = num(sp.sympify(c(cs.phi[j])).doit())
            if abs(v - (1 if i == j else 0)) > 1e-8:
                return f"constraint {i} applied to switching function {j} gives {v}"
    if any(o[0] in ("int",) for o in case["C"]):
        return None
    if not cs.checkCe() and case.get("exact"):
        return "checkCe rejects a correct constrained expression"
    return None


def ce_case(g, n=None, **kw):
    n = n or int(g.r.integers(1, 4))
    C = []
    for _ in range(n):
        k = g.pick(["val", "val", "der", "der", "rel", "lin"])
        a, b = int(g.r.integers(-2, 4)), int(g.r.integers(4, 7))
        C.append({"val": ["val", a], "der": ["der", a, int(g.r.integers(1, 3))], "rel": ["rel", a, b], "lin": ["lin", a, b, int(g.r.integers(1, 4))]}[k])
    s = [SUP[i] for i in g.r.permutation(5 if g.flag(0.8) else len(SUP))[:n]]
    if g.flag(0.6):
        s = SUP[:n]
    K = [g.pick([0, 1, 2, -3, "y", "y**2 + 1", "2*y"]) for _ in range(n)]
    order = [str(v) for v in g.r.permutation(["S", "alpha", "phi", "rho", "ce"])[:int(g.r.integers(0, 4))]]
    c = dict(kind=f"ce{n}", C=C, s=s, K=K, g=g.pick(["g(x)", "g(x)", "h(x)", "g(x,y)", "expr"]), order=order)
    c.update(kw)
    return c


def fixed_e01(g):
    base = [
        dict(C=[["val", 0], ["der", 2, 1]], s=["1", "x"], K=[2, 1], exact=True),
        dict(C=[["val", 0], ["val", 1]], s=["1", "x"], K=["y", "y**2 + 1"]),
        dict(C=[["rel", 0, 4], ["val", 1]], s=["x", "1"], K=[0, 3], exact=True),
        dict(C=[["der", 0, 2], ["val", 1], ["der", 3, 1]], s=["x**2", "1", "x"], K=[1, -3, "y"]),
        dict(C=[["val", -1]], s=["1"], K=[5], exact=True),
        dict(C=[["lin", 0, 1, 2], ["val", 2]], s=["1", "x"], K=[1, 2], exact=True),
        dict(C=[["val", 0], ["val", 1], ["val", 2]], s=["1", "x", "sin(x)"], K=[1, 2, 3]),
    ]
    for b in base:
        for gg in ("g(x)", "h(x)", "g(x,y)"):
            yield dict(ce_case(g), **b, g=gg, kind="base")
    for n in (1, 2, 3, 4):
        for _ in range(4):
            yield ce_case(g, n)


# ------------------------------------------------------------------ E02
def check_shown(case):
    import contextlib
    import io
    import sys
    import sympy as sp
    from tfc.utils import CeSolver
    from tfc.utils.CeSolver import TfcPrinter
    x = sp.Symbol("x")
    g = sp.Function("g")(x)
    e = sp.Derivative(g, x) * sp.pi + x**2 / 3
    hook = sys.displayhook
    try:
        cs = CeSolver([lambda u: u.subs(x, 0)], [sp.re(2)], [sp.re(1)], g)
        for ty in case["types"]:
            cs.print_type = ty
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                sys.displayhook(e)
            got = out.getvalue().strip()
            want = {"tfc": lambda: TfcPrinter().doprint(e), "str": lambda: str(e), "latex": lambda: sp.latex(e)}.get(ty)
            if cs.print_type != ty or want and got != want().strip() or not want and got in (TfcPrinter().doprint(e), str(e), sp.latex(e)):
                return f"print_type {ty} shows {got!r}"
    finally:
        sys.displayhook = hook
    return None


def check_e02(case):
    sp, x, y = sp_env()
    from tfc.utils import CeSolver
    if case["kind"] == "print":
        return check_print(case)
    if case["kind"] == "shown":
        return check_shown(case)
    st = dict(C=case["C"], K=case["K"], s=case["s"], g=case["g"])
    if not independent(st):
        return None
    cs = CeSolver(ops_of(st["C"]), kap_of(st["K"]), sup_of(st["s"]), free_of(st["g"]))

    def fresh():
        return CeSolver(ops_of(st["C"]), kap_of(st["K"]), sup_of(st["s"]), free_of(st["g"]))
    for op in case["ops"]:
        if op[0] == "set":
            new = dict(st)
            new[op[1]] = op[2]
            if op[1] in ("C", "s") and (len(new["C"]) != len(new["s"]) or not independent(new)):
                continue
            st = new
            if op[1] == "C":
                cs.C = ops_of(op[2])
            elif op[1] == "K":
                cs.kappa = kap_of(op[2])
            elif op[1] == "s":
                cs.s = sup_of(op[2])
            else:
                cs.g = free_of(op[2])
        else:
            a, b = getattr(cs, op[1]), getattr(fresh(), op[1])
            if op[1] in ("C",):
                continue
            A, B = (a, b) if isinstance(a, (list, tuple)) or hasattr(a, "shape") else ([a], [b])
            A, B = list(A), list(B)
            if len(A) != len(B):
                return f"{op[1]} has {len(A)} entries, a fresh solver gives {len(B)} after {case['ops']}"
            for p, q in zip(A, B):
                p, q = num(concrete(sp.sympify(p), 1)), num(concrete(sp.sympify(q), 1))
                if abs(p - q) > 1e-9 * (1 + abs(q)):
                    return f"{op[1]} is stale after {case['ops']}: {p}, a fresh solver gives {q}"
    return None


PRINTS = ["g(x)", "Derivative(g(x),x)", "Derivative(g(x),(x,2))", "Subs(Derivative(g(x),x),x,2)", "Subs(Derivative(h(x,y),x,y),(x,y),(0,3))", "Derivative(h(x,y),(x,2),y)", "Subs(Derivative(h(x,y),(y,2)),y,1)",
          "x*sin(x) + sqrt(x) + pi*g(0)", "exp(x)*Subs(Derivative(g(x),(x,3)),x,0) - x**3/7", "x1 + x*Subs(Derivative(h(x1,x),x),x,5)", "Subs(Derivative(h(x,y),x),x,y)", "Subs(Derivative(g(xx),xx),xx,x+1)", "tan(x)+log(x+2)*E", "Subs(Derivative(g(x),x),x,x1*2)"]


PRINTS += ["g(pi)", "h(x,pi)*2", "g(sin(x))", "h(sqrt(2),x**2)", "g(Rational(1,3))", "Subs(Derivative(g(x),x),x,-1)", "Subs(x**2,x,-1)", "3*Subs(x + y,x,2)", "Subs(x*g(x),x,y+1)", "Subs(Derivative(g(x),x)*x**2,x,-2)",
           "Subs(Derivative(h(x,y),x),(x,y),(y,x+1))", "Subs(g(x) + 1,x,y)**2", "Derivative(g(x),x)**2", "-Subs(Derivative(g(x),x),x,pi)", "g(g(x))", "Subs(Derivative(h(x,y),(x,2)),(x,y),(-2,cos(x)))", "2*g(2*x).diff(x)", "h(x,x**2).diff(x)"]


def print_expr(g, depth=3):
    """a random expression of the printable kind, as text for sympify"""
    R = lambda d=depth - 1: print_expr(g, d)
    v = lambda: g.pick(["x", "y", "x1", "xx"])
    if depth <= 0 or g.flag(0.15):
        return g.pick(["x", "y", "x1", "xx", "2", "3", "(-1)", "pi", "Rational(1,3)", "sqrt(2)"])
    k = g.pick(["+", "-", "*", "*", "**", "fn", "g", "h", "Dg", "Dh", "Sg", "Sh", "S"])
    if k in "+-*":
        return f"({R()}){k}({R()})"
    if k == "**":
        return f"({R()})**{g.pick([2, 2, 3])}"
    if k == "fn":
        return f"{g.pick(['sin', 'cos', 'tanh'])}({R()})"
    if k == "g":
        return f"g({R()})"
    if k == "h":
        return f"h({R()},{R()})"
    if k == "Dg":
        a = v()
        return f"Derivative(g({a}),({a},{g.pick([1, 1, 2, 3])}))"
    a, b = (str(q) for q in g.r.permutation(["x", "y", "x1", "xx"])[:2])
    D = f"Derivative(h({a},{b}),({a},{g.pick([1, 2])}){g.pick(['', ',' + b, ',(' + b + ',2)'])})"
    if k == "Dh":
        return D
    if k == "Sg":
        return f"Subs(Derivative(g({a}),({a},{g.pick([1, 2])})),{a},{R(1)})"
    if k == "Sh":
        return f"Subs({D},{g.pick([a, '(' + a + ',' + b + ')'])},{{}})".replace("{}", f"({R(1)},{R(1)})") if g.flag() else f"Subs({D},{b},{R(1)})"
    return f"Subs({R()},{a},{R(1)})"


def check_print(case):
    sp, x, y = sp_env()
    from tfc.utils.CeSolver import TfcPrinter
    import jax.numpy as jnp, jax
    from tfc.utils import egrad
    loc = {k: sp.Symbol(k) for k in ("x", "y", "x1", "xx")}
    loc.update(Rational=sp.Rational, g=sp.Function("g"), h=sp.Function("h"), Subs=sp.Subs, Derivative=sp.Derivative)
    try:
        e = sp.sympify(case["expr"], locals=loc)
    except ValueError:
        return None         # not an expression (a tuple of values for one variable)
    for q in e.atoms(sp.Subs):
        if any(n.has(*q.variables) for n in q.point) and len(q.variables) > 1:
            return None     # simultaneous or successive substitution: sympy leaves it open
    txt = TfcPrinter().doprint(e)
    gs = lambda t: sp.sin(2 * t) + t ** 4 + t ** 2 * 3
    hs = lambda a, b: a ** 3 * b ** 2 + sp.cos(a) * b + a * b ** 3
    vals = {"x": 0.7, "y": 0.4, "x1": 1.3, "xx": 0.9}
    try:
        want = e.replace(sp.Function("g"), gs).replace(sp.Function("h"), hs).doit()
        rough = float(sp.lambdify([loc[k] for k in vals], want, "math")(*vals.values()))
        want = float(want.subs({loc[k]: sp.Float(v, 30) for k, v in vals.items()}).evalf(30))
    except (TypeError, NameError, OverflowError, SyntaxError, ValueError):
        return None         # no reference value
    if not abs(rough - want) <= 1e-10 * (1 + abs(want)):
        return None         # the value is dominated by rounding
    A = lambda v: jnp.atleast_1d(jnp.asarray(v, dtype=jnp.float64))

    def wrap(f):
        def q(*a):
            return f(*[jnp.asarray(v, dtype=jnp.float64) for v in a])
        return q
    # element-wise gradient that accepts the bare numbers the printer writes
    def eg(f, j):
        def q(*a):
            return egrad(f, j)(*[A(v) for v in a])
        q.__qualname__ = "q"
        return q
    ns = dict(np=jnp, egrad=eg, g=wrap(lambda t: jnp.sin(2 * t) + t ** 4 + t ** 2 * 3), h=wrap(lambda a, b: a ** 3 * b ** 2 + jnp.cos(a) * b + a * b ** 3), **vals)
    got = float(jnp.ravel(eval(txt, ns))[0])
    if abs(got - want) > 1e-8 * (1 + abs(want)):
        return f"printed code {txt!r} evaluates to {got}, the expression {e} to {want}"
    return None


def e02_case(g, nops=None):
    c = ce_case(g, int(g.r.integers(1, 4)))
    n = len(c["C"])
    ops = []
    for _ in range(nops or int(g.r.integers(2, 9))):
        if g.flag(0.5):
            f = g.pick(["C", "K", "s", "g"])
            ops.append(["set", f, ce_case(g, n)[f]])
        else:
            ops.append(["get", g.pick(["ce", "phi", "rho", "alpha", "S", "ce", "kappa", "s", "g"])])
    for q in ("S", "alpha", "phi", "rho", "ce"):
        if g.flag(0.5):
            ops.append(["get", q])
    ops.append(["get", "ce"])
    return dict(kind="history", C=c["C"], K=c["K"], s=c["s"], g=c["g"], ops=ops)


def fixed_e02(g):
    yield dict(kind="shown", types=["tfc", "str", "pretty", "latex", "tfc", "latex", "str"])
    for p in PRINTS:
        yield dict(kind="print", expr=p)
    alt = {"C": [["val", 1], ["der", 3, 1]], "K": ["y", 7], "s": ["x", "x**2"], "g": "h(x)"}
    base = dict(kind="history", C=[["val", 0], ["der", 2, 1]], K=[2, 1], s=["1", "x"], g="g(x)")
    gets = ["ce", "phi", "rho", "alpha", "S"]
    for f in alt:
        for a in gets:
            for b in gets:
                if f in ("K", "g") and a in ("S", "alpha") and b in ("S", "alpha"):
                    continue
                yield dict(base, ops=[["get", a], ["set", f, alt[f]], ["get", b], ["get", "ce"]])
    for f1, f2 in itertools.permutations(alt, 2):
        yield dict(base, ops=[["get", "ce"], ["set", f1, alt[f1]], ["get", "phi"], ["set", f2, alt[f2]], ["get", "ce"], ["get", "rho"]])


def random_e02(g):
    if g.flag(0.3):
        return dict(kind="print", expr=print_expr(g))
    return e02_case(g)


# ------------------------------------------------------------------ G01
def check_g01(case):
    from tfc.utils import ComponentConstraintGraph
    N, E = list(case["N"]), [dict(name=e[0], node0=e[1], node1=e[2]) for e in case["E"]]
    gr = ComponentConstraintGraph(list(N), [dict(e) for e in E])
    T = [tuple(int(v) for v in t) for t in gr.targets]
    want = set(itertools.product((0, 1), repeat=len(E)))
    if len(T) != len(set(T)) or set(T) != want:
        return f"targets are not each orientation once: {len(T)} listed, {len(set(T))} distinct, {len(want)} expected"

    def acyclic(t):
        adj = {n: set() for n in N}
        for e, v in zip(E, t):
            if v:
                adj[e["node1"]].add(e["node0"])
            else:
                adj[e["node0"]].add(e["node1"])
        state = {}

        def dfs(n):
            state[n] = 1
            for q in adj[n]:
                if state.get(q) == 1 or (q not in state and not dfs(q)):
                    return False
            state[n] = 2
            return True
        return all(dfs(n) for n in N if n not in state)
    good = [int(k) for k in gr.goodTargets]
    if len(set(good)) != len(good):
        return "a valid orientation is listed twice"
    wg = {k for k, t in enumerate(T) if acyclic(t)}
    if set(good) != wg:
        d = sorted(set(good) ^ wg)[0]
        return f"orientation {T[d]} of {case['E']} is {'acyclic but not' if d in wg else 'cyclic but'} listed as valid"
    return None


def g01_case(g, n=None, m=None, edges=None):
    n = n or min(g.size(2, 6, "nodes"), 9)
    m = min(g.size(0, 6, "edges"), 9) if m is None else m
    names = [str(v) for v in g.r.permutation(["u", "v", "w", "p", "q", "r", "u1", "uu", "a"])[:n]]
    if edges is None:
        edges = []
        for k in range(m):
            a, b = g.r.permutation(n)[:2]
            edges.append([f"e{k}", names[a], names[b]])
    return dict(kind=f"g{n}", N=names, E=edges)


def fixed_g01(g):
    N = ["u", "v", "w"]
    yield dict(kind="fix", N=N, E=[["a", "u", "v"], ["b", "v", "w"], ["c", "w", "u"]])
    yield dict(kind="fix", N=N, E=[["a", "u", "v"], ["b", "u", "v"]])
    yield dict(kind="fix", N=N, E=[["a", "u", "v"], ["b", "v", "u"]])
    yield dict(kind="fix", N=N, E=[])
    yield dict(kind="fix", N=["u", "v", "w", "p"], E=[["a", "u", "v"], ["b", "v", "w"], ["c", "w", "p"], ["d", "p", "u"], ["e", "u", "w"]])
    yield dict(kind="fix", N=["u", "v", "w", "p", "q"], E=[["a", "u", "v"], ["b", "v", "w"], ["c", "w", "p"], ["d", "p", "q"], ["e", "q", "u"]])
    yield dict(kind="fix", N=["a", "b", "c", "d", "e", "f"], E=[[str(k), x, y] for k, (x, y) in enumerate([("a", "b"), ("b", "c"), ("c", "d"), ("d", "e"), ("e", "f"), ("f", "a")])])
    yield dict(kind="fix", N=["a", "b", "c", "d"], E=[["1", "a", "b"], ["2", "b", "a"], ["3", "c", "d"], ["4", "d", "c"]])
    # all small multigraphs on 3 nodes with up to 3 edges, both listing directions
    prs = [(a, b) for a in N for b in N if a != b]
    for m in (1, 2, 3):
        for es in itertools.product(prs, repeat=m):
            if m == 3 and g.tier == "quick" and not g.flag(0.15):
                continue
            yield dict(kind=f"all{m}", N=N, E=[[f"e{k}", a, b] for k, (a, b) in enumerate(es)])


def random_g01(g):
    return g01_case(g)


# ------------------------------------------------------------------ G02
def svg_graph(path):
    """({node: label}, sorted [(tail, head, label)], {node: link}) of a picture drawn by Graphviz"""
    import xml.etree.ElementTree as ET
    ns = "{http://www.w3.org/2000/svg}"
    nodes, edges, links = {}, [], {}
    for e in ET.parse(path).getroot().iter(ns + "g"):
        cls = e.get("class")
        if cls not in ("node", "edge"):
            continue
        title = e.find(ns + "title").text
        text = " ".join(x.text or "" for x in e.iter(ns + "text")).replace("\xa0", " ")
        if cls == "node":
            nodes[title] = text
            for a in e.iter(ns + "a"):
                links[title] = a.get("{http://www.w3.org/1999/xlink}href")
        else:
            a, b = title.split("->")
            edges.append((a, b, text))
    return nodes, sorted(edges), links


def check_g02(case):
    import shutil
    import tempfile
    from tfc.utils import ComponentConstraintGraph
    d = tempfile.mkdtemp(prefix="g02_")
    try:
        return g02(ComponentConstraintGraph, case, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def g02(Graph, case, top):
    import os
    import re
    d = os.path.join(top, case["dir"])
    for step in case["steps"]:
        N, E = list(step["N"]), [dict(name=e[0], node0=e[1], node1=e[2]) for e in step["E"]]
        gr = Graph(list(N), [dict(e) for e in E])
        kw = {k: True for k in ("allGraphs", "savePDFs") if step.get(k)}
        gr.SaveGraphs(d, **kw)
        T = [tuple(int(v) for v in t) for t in (gr.targets if step.get("allGraphs") else [gr.targets[k] for k in gr.goodTargets])]
        where = f"{len(T)} embeddings of {step['E']}"
        _, _, links = svg_graph(os.path.join(d, "dotFiles", "main.svg"))
        if links != {f"tree{k}": f"htmlFiles/tree{k}.html" for k in range(len(T))}:
            return f"{where}: the overview links {sorted(links.values())}"
        pages = [("main", "main.html")] + [(f"tree{k}", f"htmlFiles/tree{k}.html") for k in range(len(T))]
        for g, f in pages:
            txt = open(os.path.join(d, f)).read()
            src, mp = re.findall(r'<img[^>]* src="([^"]*)"', txt), re.findall(r'<img[^>]* usemap="#([^"]*)"', txt)
            pic = os.path.join(d, "dotFiles", g + ".svg")
            if len(src) != 1 or not os.path.exists(os.path.join(d, os.path.dirname(f), src[0])) or not os.path.samefile(os.path.join(d, os.path.dirname(f), src[0]), pic):
                return f"{where}: {f} shows {src}"
            if len(mp) != 1 or re.findall(r'<map[^>]* name="([^"]*)"', txt) != mp:
                return f"{where}: {f} uses the map {mp}"
            areas = re.findall(r'<area[^>]* href="([^"]*)"', txt)
            if sorted(areas) != (sorted(links.values()) if g == "main" else []):
                return f"{where}: {f} has the links {areas}"
        for k, t in enumerate(T):
            nodes, edges, _ = svg_graph(os.path.join(d, "dotFiles", f"tree{k}.svg"))
            if nodes != {n: n for n in N}:
                return f"{where}: tree {k} has the components {sorted(nodes)}"
            want = sorted((e["node1"], e["node0"], e["name"]) if v else (e["node0"], e["node1"], e["name"]) for e, v in zip(E, t))
            if edges != want:
                return f"{where}: tree {k} draws {edges}, not {want}"
            if os.path.exists(os.path.join(d, "dotFiles", f"tree{k}.pdf")) != any(s.get("savePDFs") and k < 2 ** len(s["E"]) for s in case["steps"]) and len(case["steps"]) == 1:
                return f"{where}: tree {k}: PDF file"
    return None


def g02_case(g):
    steps = []
    for _ in range(1 + g.flag(0.2)):
        n = int(g.r.integers(2, 6))
        m = int(g.r.integers(1, 4))
        names = [str(v) for v in g.r.permutation(["u", "v", "w", "p q", "q", "r", "u1", "uu", "a"])[:n]]
        E = []
        for k in range(m):
            a, b = g.r.permutation(n)[:2]
            E.append([f"e{k}", names[a], names[b]])
        steps.append(dict(N=names, E=E, allGraphs=bool(g.flag()), savePDFs=bool(g.flag(0.2))))
    return dict(kind="saved", dir=str(g.r.choice(["out", "a/b", "x y"])), steps=steps)


def fixed_g02(g):
    N = ["u", "v", "w"]
    tri = [["a", "u", "v"], ["b", "v", "w"], ["c", "w", "u"]]
    yield dict(kind="fix", dir="out", steps=[dict(N=N, E=tri)])
    yield dict(kind="fix", dir="out", steps=[dict(N=N, E=tri, allGraphs=True)])
    yield dict(kind="fix", dir="out", steps=[dict(N=N, E=[["a", "w", "u"]], savePDFs=True)])
    yield dict(kind="fix", dir="out", steps=[dict(N=N, E=[["a", "u", "v"], ["b", "v", "u"]]), dict(N=N, E=[["a", "v", "w"], ["b", "u", "v"]])])
    yield dict(kind="fix", dir="out", steps=[dict(N=["u", "v", "w", "p"], E=[["a", "u", "v"], ["b", "v", "w"], ["c", "w", "p"], ["d", "p", "u"]])])


# ------------------------------------------------------------------ L01
def check_l01(case):
    import re
    import numpy as np
    from tfc.utils import Latex
    tab = Latex.table if hasattr(Latex, "table") else Latex
    A = np.array(case["A"], dtype=float).reshape(case["shape"])
    kw = {k: case[k] for k in ("form", "colHeader", "rowHeader") if case.get(k) is not None}
    keep = A.copy()
    txt = tab.SimpleTable(A, **kw)
    if not np.array_equal(A, keep, equal_nan=True):
        return "the array was changed"
    n, m = A.shape
    rh, ch, form = case.get("rowHeader"), case.get("colHeader"), case.get("form") or "%.4E"
    rows = [" & ".join(([rh[i]] if rh else []) + [form % x for x in A[i]]) + r"\\" for i in range(n)]
    want = r"\begin{center}\begin{tabular}{" + "|c" * (m + bool(rh)) + r"|}\hline" + (" & ".join(ch) + r"\\\hline" if ch else "") + r"\hline".join(rows) + r"\hline\end{tabular}\end{center}"
    f = lambda s: re.sub(r"\s+", "", s)
    if f(txt) != f(want):
        return f"table of a {n} x {m} array with {kw}: {txt[:200]!r}"
    return None


def l01_case(g, shape=None):
    n, m = shape or (int(g.r.integers(1, 8)), int(g.r.choice([1, 2, 3, 5, 9, 30])))
    c = dict(kind="table", shape=[n, m], A=[float(x) for x in (g.r.standard_normal(n * m) * 10.0 ** g.r.integers(-8, 9))])
    if g.flag():
        c["form"] = str(g.r.choice(["%.4E", "%.2f", "%g", "%.10e", "%5.1f", "%+.3e"]))
    if g.flag():
        c["rowHeader"] = [f"r{i}" for i in range(n)]
    if g.flag():
        c["colHeader"] = [f"c {i}" for i in range(m + ("rowHeader" in c))]
    return c


def fixed_l01(g):
    for s in ((1, 1), (2, 3), (1, 1200), (1100, 1), (40, 40), (3, 1001)):
        for _ in range(4):
            yield l01_case(g, s)


PROPS = {
    "L01": dict(check=check_l01, fixed=fixed_l01, random=l01_case, files=["utils/Latex.py"], rule="one array of floating-point numbers with or without headers; the table compared with the expected text, white space aside"),
    "G02": dict(check=check_g02, fixed=fixed_g02, random=g02_case, files=["utils/TFCUtils.py", "utils/Html.py"], rule="one or two graphs saved in a scratch folder; pictures and pages read back and compared with the reported orientations"),
    "E01": dict(check=check_e01, fixed=fixed_e01, random=ce_case, files=CE, rule="a set of constraints, values, support functions and concrete free functions; the constraint operators applied to the real constrained expression"),
    "E02": dict(check=check_e02, fixed=fixed_e02, random=random_e02, files=CE, rule="a history of edits and reads compared with a fresh solver, or printed code evaluated against the expression"),
    "G01": dict(check=check_g01, fixed=fixed_g01, random=random_g01, files=["utils/TFCUtils.py"], rule="one graph; orientations and acyclicity decided by depth-first search"),
}
