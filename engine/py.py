"""Python front end: interprets the real source (CPython's ast of /repo's current files) on symbolic values.

Numbers are terms T, truth values formulas F.  All mutable state (variables, object fields, lists, dictionaries,
arrays) lives in ctx.store / ctx.heap so that path exploration and loop summaries see it.  Library modules are
replaced by models (lib.py files register them): a model is an assumed contract of the dependency."""
import ast, os, sys
from fractions import Fraction
from core import *
from loops import summarise

MAXU = 64


class Raised(Exception):
    """the code under analysis raises"""

    def __init__(self, kind, msg=None):
        self.kind, self.msg = kind, msg


class Module:
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.tree = ast.parse(open(path).read())
        self.names = {}
        for n in self.tree.body:
            self.scan(n)

    def scan(self, n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            if any(_dn(d) in ("overload", "typing.overload") for d in n.decorator_list):
                return
            self.names[n.name] = n
        elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            self.names[n.targets[0].id] = n
        elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
            self.names[n.target.id] = n
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                self.names[(a.asname or a.name.split(".")[0])] = (n, a)
        elif isinstance(n, ast.If):
            for b in n.body:
                self.scan(b)
        elif isinstance(n, ast.Try):
            for b in n.body:
                self.scan(b)


def _dn(d):
    if isinstance(d, ast.Call):
        d = d.func
    try:
        return ast.unparse(d)
    except Exception:
        return ""


class Func:
    def __init__(self, node, module, scope, defaults, kwdefaults, qual, cls=None):
        self.node, self.module, self.scope, self.defaults, self.kwdefaults, self.qual, self.cls = node, module, scope, defaults, kwdefaults, qual, cls
        self.init = {}
        self.contract = None
        self.decorated = None

    def __repr__(self):
        return f"<{self.qual}>"


class Method:
    def __init__(self, obj, fn):
        self.obj, self.fn = obj, fn

    def __eq__(self, o):
        return isinstance(o, Method) and o.obj is self.obj and o.fn is self.fn

    def __hash__(self):
        return hash((id(self.obj), id(self.fn)))


class Builtin:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return f"<builtin {self.name}>"


class Class:
    def __init__(self, name, module, node, bases):
        self.name, self.module, self.node, self.bases = name, module, node, bases
        self.body = {}

    def mro(self):
        seqs = [[self]] + [b.mro() if isinstance(b, Class) else [b] for b in self.bases] + [list(self.bases)]
        out = []
        seqs = [list(s) for s in seqs if s]
        while seqs:
            for s in seqs:
                c = s[0]
                if not any(c in r[1:] for r in seqs):
                    break
            else:
                raise Unsupported("class order")
            out.append(c)
            seqs = [[x for x in s if x is not c] for s in seqs]
            seqs = [s for s in seqs if s]
        return out

    def __repr__(self):
        return f"<class {self.name}>"


class ModelType:
    """a library class known by name only (isinstance, base classes)"""

    def __init__(self, name, methods=None, new=None):
        self.name, self.methods, self.new = name, methods or {}, new

    def mro(self):
        return [self]

    def __repr__(self):
        return f"<type {self.name}>"


class Inst:
    def __init__(self, cls, name=None):
        self.cls, self.id = cls, name or fresh_name("obj")

    def __repr__(self):
        return f"<{self.cls.name} {self.id}>"


class PList:
    def __init__(self):
        self.id = fresh_name("list")


class PDict:
    def __init__(self):
        self.id = fresh_name("dict")


class Slice:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class Range:
    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = t(lo), t(hi), step

    def count(self):
        if self.step == 1:
            return self.hi - self.lo
        if self.step == -1:
            return self.lo - self.hi
        raise Unsupported("range step")

    def item(self, i):
        return self.lo + i * self.step


class Seq:
    """a sequence of symbolic length given by its items"""

    def __init__(self, n, fn):
        self.n, self.fn = t(n), fn

    def count(self):
        return self.n

    def item(self, i):
        return self.fn(t(i))

    def with_write(self, ctx, i, val):
        return MSeq(self, i, val, ctx)

    def loopstate(self, ctx, v, va):
        return LoopSeq(self, ctx, v, va)


class MSeq(Seq):
    """a sequence after one entry was replaced"""

    def __init__(self, base, i, val, ctx):
        self.n, self.base, self.i, self.val, self.ctx = base.n, base, i, val, ctx

    def item(self, i):
        i = t(i)
        if i == self.i or self.ctx.branch(Eq(i, self.i)):
            return self.val
        return self.base.item(i)


class LoopSeq(Seq):
    """a sequence at iteration v of a loop that replaces entry v in iteration v: entries from v on are the original ones"""

    def __init__(self, base, ctx, v, va, cur=None):
        self.n, self.base, self.ctx, self.v, self.va, self.cur = base.n, base, ctx, v, va, cur

    def item(self, i):
        i = t(i)
        if i == self.v or self.ctx.known(Eq(i, self.v)) is True:
            return self.base.item(i) if self.cur is None else self.cur[0]
        if self.ctx.known(Gt(i, self.v)) is True:
            return self.base.item(i)
        raise Unsupported("loop reads an entry another iteration may have written")

    def with_write(self, ctx, i, val):
        i = t(i)
        if i == self.v or ctx.known(Eq(i, self.v)) is True:
            return LoopSeq(self.base, ctx, self.v, self.va, (val,))
        raise Unsupported("loop writes an entry that is not the iteration's own")

    def finish(self, ctx, count, paths, entry):
        """the sequence after `count` iterations; paths: [(guards, LoopSeq at the end of the iteration, snapshot)]"""
        va, base, n = self.va, self.base, self.n
        gens = [(And(*gs), None if q.cur is None else (q.cur[0], Generaliser(ctx, va, s, entry))) for gs, q, s in paths]

        def fn(i):
            if not (count == n) and not ctx.branch(And(Ge(i, 0), Lt(i, count))):
                return base.item(i)
            for k, (g, w) in enumerate(gens):
                if k == len(gens) - 1 or ctx.branch(fsubst(g, {va: i})):
                    return base.item(i) if w is None else w[1](w[0], i)
        return Seq(n, fn)


class AppendSeq(Seq):
    """a list at iteration v of a loop that only appends to it: base, then what earlier iterations appended, then new"""

    def __init__(self, base, ctx, v, va, new=()):
        self.base, self.ctx, self.v, self.va, self.new = base, ctx, v, va, new

    def count(self):
        raise Unsupported("length of a list being built")

    n = property(count)

    def item(self, i):
        raise Unsupported("entry of a list being built")

    def with_write(self, ctx, i, val):
        raise Unsupported("entry of a list being built")

    def append(self, x):
        return AppendSeq(self.base, self.ctx, self.v, self.va, self.new + (x,))

    def finish(self, ctx, count, paths, entry):
        va, base = self.va, self.base
        gens = [(And(*gs), q.new, Generaliser(ctx, va, s, entry)) for gs, q, s in paths]
        cs = {len(w) for _, w, _ in gens}
        b = len(base)
        if len(cs) > 1:
            if cs == {0, 1} and not b:
                return FilterSeq(ctx, va, count, gens)
            raise Unsupported("conditional appends")
        c, = cs

        def fn(i):
            if b:
                for k in range(b):
                    if ctx.branch(Eq(i, k)):
                        return base[k]
            j, r = (i - b, t(0)) if c == 1 else (simp_div(i - b, t(c)), simp_mod(i - b, t(c)))
            for k, (g, w, gen) in enumerate(gens):
                if k == len(gens) - 1 or ctx.branch(fsubst(g, {va: j})):
                    for m in range(c):
                        if m == c - 1 or ctx.branch(Eq(r, m)):
                            return gen(w[m], j)
        return Seq(count * c + b, fn)


class FilterSeq(AppendSeq):
    """a list of one entry for each iteration in which a condition held"""

    def __init__(self, ctx, va, total, gens):
        self.ctx, self.va, self.total, self.gens = ctx, va, total, gens

    def pred(self, i):
        return Or(*[fsubst(g, {self.va: t(i)}) for g, w, _ in self.gens if w])

    def value(self, i):
        for k, (g, w, gen) in enumerate([x for x in self.gens if x[1]]):
            if self.ctx.known(fsubst(g, {self.va: t(i)})) is True:
                return gen(w[0], t(i))
        raise Unsupported("entry of a filtered list")

    def append(self, x):
        raise Unsupported("append to a filtered list")


class Generaliser:
    """value computed in iteration v as a function of the iteration"""

    def __init__(self, ctx, va, snap, entry):
        self.ctx, self.va, self.snap, self.entry = ctx, va, snap, entry
        self.memo = {}

    def __call__(self, x, i):
        m = {self.va: i}
        if isinstance(x, T):
            return subst(x, m)
        if isinstance(x, F):
            return fsubst(x, m)
        if x is None or isinstance(x, (str, Builtin, Func, Class, ModelType, Special)):
            return x
        if isinstance(x, Slice):
            return Slice(self(x.lo, i), self(x.hi, i), self(x.step, i))
        if isinstance(x, tuple):
            return tuple(self(y, i) for y in x)
        h = GENERAL.get(type(x))
        if h is not None:
            return h(self, x, i)
        raise Unsupported(f"loop stores a {type(x).__name__} in a sequence")


GENERAL = {}


def _gen_list(g, x, i):
    """a list made in the iteration: entries as functions of the iteration"""
    if ("l", x.id) in g.entry[0]:
        raise Unsupported("loop stores a shared list in a sequence")
    v = g.snap[0][("l", x.id)]
    if isinstance(v, Seq):
        n = v.count()

        def item(j):
            j0 = fresh("j")
            it = v.item(j0)
            if not isinstance(it, T):
                raise Unsupported("loop stores a list of lists in a sequence")
            return subst(it, {g.va: t(i), single_atom(j0).id: t(j)})
        return Seq(subst(n, {g.va: t(i)}), item)
    return tuple(g(y, i) for y in v)



GENERAL[PList] = _gen_list


class Star:
    """*v in an argument list, v of unknown length"""

    def __init__(self, v):
        self.v = v


STAR = {}
CONTEXT = {}


def textcat(xs):
    """concatenation of strings and symbolic texts"""
    for x in xs:
        if not isinstance(x, str):
            return x.cat(xs)
    return "".join(xs)


class Special:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


INF, NEGINF, ELLIPSIS, NEWAXIS = Special("inf"), Special("-inf"), Special("..."), Special("newaxis")


class Ns:
    """namespace of a library model"""

    def __init__(self, name, d):
        self.name, self.d = name, d


class Py:
    def __init__(self, ctx, mods, libs, contracts=None):
        """mods: {python module name: Module}; libs: {module name: Ns}"""
        self.ctx, self.mods, self.libs, self.contracts = ctx, mods, libs, ({} if contracts is None else contracts)
        self.frames = []
        self.gcache = {}
        self.depth = 0
        self.mod = None
        self.hooks = {}

    # ------------------------------------------------------------ names
    def loc(self, fid, name):
        return ("v", fid, name)

    def lookup(self, name):
        for fid in reversed(self.frames[-1]["scope"]):
            l = self.loc(fid, name)
            if l in self.ctx.store:
                v = self.ctx.store[l]
                if isinstance(v, Poison):
                    raise Unsupported(v.why)
                return v
        return self.glob(self.frames[-1]["module"], name)

    def glob(self, mod, name):
        key = (mod.name, name)
        if key in self.hooks:
            return self.hooks[key]
        l = ("g", mod.name, name)
        if l in self.ctx.store:
            return self.ctx.store[l]
        if key in self.gcache:
            return self.gcache[key]
        if name in mod.names:
            v = self.defglob(mod, name)
            self.gcache[key] = v
            return v
        if name in BUILTINS:
            return BUILTINS[name]
        raise Unsupported(f"name {name}")

    def defglob(self, mod, name):
        n = mod.names[name]
        if isinstance(n, tuple):
            return self.resolve_import(mod, *n)
        if isinstance(n, ast.FunctionDef):
            return self.mkfunc(n, mod, [], n.name)
        if isinstance(n, ast.ClassDef):
            return self.mkclass(n, mod)
        self.frames.append(dict(scope=[], module=mod, func=None))
        try:
            return self.ev(n.value)
        finally:
            self.frames.pop()

    def resolve_import(self, mod, n, a):
        if isinstance(n, ast.Import):
            full = a.name if a.asname else a.name.split(".")[0]
            return self.module(full)
        base = n.module or ""
        if n.level:
            pk = mod.name.split(".")[:-n.level]
            base = ".".join(pk + ([n.module] if n.module else []))
        return self.from_module(base, a.name)

    def module(self, name):
        if name in self.libs:
            return self.libs[name]
        if name in self.mods:
            return self.mods[name]
        raise Unsupported("module " + name)

    def from_module(self, base, name):
        if base in self.libs:
            d = self.libs[base].d
            if name in d:
                return d[name]
            if base + "." + name in self.libs:
                return self.libs[base + "." + name]
            raise Unsupported(f"{base}.{name}")
        if base in self.mods:
            m = self.mods[base]
            if name in m.names:
                return self.glob(m, name)
        # package re-export
        for m in self.mods.values():
            if m.name.startswith(base) and name in m.names and not isinstance(m.names[name], tuple):
                return self.glob(m, name)
        if base + "." + name in self.mods:
            return self.mods[base + "." + name]
        raise Unsupported(f"import {base}.{name}")

    def assign_name(self, name, v):
        fr = self.frames[-1]
        if name in fr.get("nonlocal", ()):
            for fid in reversed(fr["scope"][:-1]):
                if self.loc(fid, name) in self.ctx.store:
                    self.ctx.store[self.loc(fid, name)] = v
                    return
        if name in fr.get("global", ()):
            self.ctx.store[("g", fr["module"].name, name)] = v
            return
        self.ctx.store[self.loc(fr["scope"][-1], name)] = v

    # ------------------------------------------------------------ functions and classes
    def mkfunc(self, node, mod, scope, qual, cls=None):
        a = node.args
        self_frame = bool(self.frames)
        if not self_frame:
            self.frames.append(dict(scope=[], module=mod, func=None))
        try:
            dfl = [self.ev(x) if not _lit_none(x) else None for x in a.defaults]
            kwd = [None if x is None else self.ev(x) for x in a.kw_defaults]
        finally:
            if not self_frame:
                self.frames.pop()
        f = Func(node, mod, list(scope), dfl, kwd, qual, cls)
        f.init = {(k, d.id): self.ctx.store[(k, d.id)] for d in dfl + kwd for k, c in (("l", PList), ("d", PDict)) if isinstance(d, c)}
        for d in getattr(node, "decorator_list", [])[::-1]:
            dn = _dn(d)
            if dn.split(".")[-1] in ("staticmethod", "classmethod", "abstractmethod", "property", "setter", "overload", "cached_property"):
                continue
            self_frame = bool(self.frames)
            if not self_frame:
                self.frames.append(dict(scope=[], module=mod, func=None))
            try:
                f = self.call(self.ev(d), [f], {})
            finally:
                if not self_frame:
                    self.frames.pop()
        return f

    def mkclass(self, node, mod):
        self.frames.append(dict(scope=[], module=mod, func=None))
        try:
            bases = []
            for b in node.bases:
                if isinstance(b, ast.Subscript):
                    continue
                bases.append(self.ev(b))
        finally:
            self.frames.pop()
        c = Class(node.name, mod, node, bases)
        for n in node.body:
            if isinstance(n, ast.FunctionDef):
                if any(_dn(d) == "overload" for d in n.decorator_list):
                    continue
                f = self.mkfunc(n, mod, [], node.name + "." + n.name, c)
                ds = [_dn(d) for d in n.decorator_list]
                if any(d.endswith("property") for d in ds):
                    c.body[n.name] = ("prop", f, None)
                elif any(d.endswith(".setter") for d in ds):
                    old = c.body.get(n.name)
                    if old is None:
                        for b in c.mro()[1:]:
                            if isinstance(b, Class) and n.name in b.body:
                                old = b.body[n.name]
                                break
                    c.body[n.name] = ("prop", old[1] if old else None, f)
                elif "staticmethod" in ds:
                    c.body[n.name] = ("static", f)
                elif "classmethod" in ds:
                    c.body[n.name] = ("classm", f)
                else:
                    c.body[n.name] = f
            elif isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
                c.body[n.targets[0].id] = ("const", n.value)
            elif isinstance(n, ast.AnnAssign) and n.value is not None:
                c.body[n.target.id] = ("const", n.value)
        return c

    def find(self, cls, name, after=None):
        m = cls.mro()
        if after is not None:
            m = m[m.index(after) + 1:]
        for c in m:
            if isinstance(c, Class) and name in c.body:
                return c, c.body[name]
            if isinstance(c, ModelType) and name in c.methods:
                return c, c.methods[name]
        return None

    # ------------------------------------------------------------ attributes
    def getattr(self, o, name):
        if isinstance(o, Inst):
            l = ("f", o.id, name)
            r = self.find(o.cls, name)
            if r and isinstance(r[1], tuple) and r[1][0] == "prop":
                return self.call(r[1][1], [o], {})
            if l in self.ctx.store:
                v = self.ctx.store[l]
                if isinstance(v, Poison):
                    raise Unsupported(v.why)
                return v
            if r:
                return self.bind(o, r[1], r[0])
            if name == "__class__":
                return o.cls
            raise Raised("AttributeError", f"{o.cls.name}.{name}")
        if isinstance(o, Class):
            if name == "__name__":
                return o.name
            l = ("g", "class:" + o.name, name)
            if l in self.ctx.store:
                return self.ctx.store[l]
            r = self.find(o, name)
            if r is None:
                raise Raised("AttributeError", f"{o.name}.{name}")
            v = r[1]
            if isinstance(v, tuple):
                if v[0] == "static":
                    return v[1]
                if v[0] == "classm":
                    return Method(o, v[1])
                if v[0] == "const":
                    return self.constattr(r[0], v[1])
                if v[0] == "prop":
                    return v[1]
            return v
        if isinstance(o, ModelType) and name in o.methods:
            v = o.methods[name]
            return v[1] if isinstance(v, tuple) else v
        if isinstance(o, Ns):
            if name in o.d:
                return o.d[name]
            if o.name + "." + name in self.libs:
                return self.libs[o.name + "." + name]
            raise Unsupported(f"{o.name}.{name}")
        if isinstance(o, Module):
            return self.glob(o, name)
        if isinstance(o, Poison):
            raise Unsupported(o.why)
        h = ATTR.get(type(o))
        if h is not None:
            r = h(self, o, name)
            if r is not NotImplemented:
                return r
        m = METHODS.get((type(o), name))
        if m is not None:
            return Builtin(f"{type(o).__name__}.{name}", lambda py, a, k: m(py, o, *a, **k))
        if isinstance(o, Func):
            if name == "__name__":
                return o.node.name if hasattr(o.node, "name") else "<lambda>"
            if name == "__qualname__":
                return o.qual
        raise Unsupported(f"attribute {name} of {type(o).__name__}")

    def constattr(self, cls, node):
        self.frames.append(dict(scope=[], module=cls.module, func=None))
        try:
            return self.ev(node)
        finally:
            self.frames.pop()

    def bind(self, o, v, cls):
        if isinstance(v, tuple):
            if v[0] == "static":
                return v[1]
            if v[0] == "classm":
                return Method(o.cls, v[1])
            if v[0] == "const":
                return self.constattr(cls, v[1])
        if isinstance(v, (Func, Builtin)):
            return Method(o, v)
        return v

    def setattr(self, o, name, v):
        if isinstance(o, Inst):
            r = self.find(o.cls, name)
            if r and isinstance(r[1], tuple) and r[1][0] == "prop":
                if r[1][2] is None:
                    raise Raised("AttributeError", f"can't set {name}")
                self.call(r[1][2], [o, v], {})
                return
            self.ctx.store[("f", o.id, name)] = v
            return
        if isinstance(o, Class):
            self.ctx.store[("g", "class:" + o.name, name)] = v
            return
        if isinstance(o, Func):
            self.ctx.store[("fa", id(o), name)] = v
            return
        raise Unsupported(f"setattr on {type(o).__name__}")

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw):
        self.ctx.tick()
        if isinstance(f, Builtin):
            return f.fn(self, args, kw)
        if isinstance(f, Method):
            return self.call(f.fn, [f.obj] + list(args), kw)
        if isinstance(f, Func):
            c = self.contracts.get(f.qual)
            if c is not None:
                r = c(self, f, args, kw)
                if r is not NotImplemented:
                    return r
            return self.invoke(f, args, kw)
        if isinstance(f, Class):
            return self.construct(f, args, kw)
        if isinstance(f, ModelType) and f.new is not None:
            return f.new(self, args, kw)
        if isinstance(f, Inst):
            r = self.find(f.cls, "__call__")
            if r:
                return self.call(r[1], [f] + list(args), kw)
        if hasattr(f, "call"):
            return f.call(self, args, kw)
        raise Unsupported(f"call of {type(f).__name__}")

    def construct(self, cls, args, kw):
        c = self.contracts.get(cls.name)
        if c is not None:
            r = c(self, cls, args, kw)
            if r is not NotImplemented:
                return r
        o = Inst(cls)
        for b in cls.mro():
            if isinstance(b, ModelType) and b.methods.get("__alloc__"):
                b.methods["__alloc__"](self, o)
        r = self.find(cls, "__init__")
        if r:
            self.call(r[1], [o] + list(args), kw)
        return o

    def bindargs(self, f, args, kw):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        args = list(args)
        kw = dict(kw)
        for i, n in enumerate(names):
            if i < len(args):
                if n in kw:
                    raise Raised("TypeError", "multiple values")
                out[n] = args[i]
            elif n in kw:
                out[n] = kw.pop(n)
            else:
                k = i - (len(names) - len(f.defaults))
                if k < 0:
                    raise Raised("TypeError", f"{f.qual} misses argument {n}")
                out[n] = f.defaults[k]
                for key, v in f.init.items():  # mutable defaults: one object per function, as written until a call changes it
                    self.ctx.store.setdefault(key, v)
        rest = args[len(names):]
        if any(isinstance(x, Star) for x in list(out.values()) + rest[:-1]):
            raise Unsupported("arguments of unknown number")
        if a.vararg and rest and isinstance(rest[-1], Star):
            if len(rest) != 1:
                raise Unsupported("arguments of unknown number")
            out[a.vararg.arg] = rest[0].v
        elif a.vararg:
            out[a.vararg.arg] = tuple(rest)
        elif rest:
            raise Raised("TypeError", f"{f.qual} got too many arguments")
        for x, d in zip(a.kwonlyargs, f.kwdefaults):
            if x.arg in kw:
                out[x.arg] = kw.pop(x.arg)
            else:
                out[x.arg] = d
                for key, v in f.init.items():
                    self.ctx.store.setdefault(key, v)
        if a.kwarg:
            d = PDict()
            self.ctx.store[("d", d.id)] = tuple((k, v) for k, v in kw.items())
            out[a.kwarg.arg] = d
        elif kw:
            raise Raised("TypeError", f"{f.qual} got unexpected arguments {list(kw)}")
        return out

    def invoke(self, f, args, kw, bound=None):
        if self.depth > 60:
            raise Unsupported("recursion of unknown depth in " + f.qual)
        b = bound if bound is not None else self.bindargs(f, args, kw)
        fid = fresh_name("fr")
        self.frames.append(dict(scope=f.scope + [fid], module=f.module, func=f, self=args[0] if args else None))
        for n, v in b.items():
            self.ctx.store[self.loc(fid, n)] = v
        self.depth += 1
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body)
            out = self.block(f.node.body)
            if isinstance(out, tuple) and out[0] == "return":
                return out[1]
            return None
        finally:
            self.depth -= 1
            self.frames.pop()

    # ------------------------------------------------------------ statements
    def block(self, body):
        for s in body:
            out = self.stmt(s)
            if out is not None:
                return out
        return None

    def stmt(self, s):
        self.ctx.tick()
        if hasattr(s, "lineno"):
            self.ctx.where = f"{os.path.basename(self.frames[-1]['module'].path)}:{s.lineno}"
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement " + type(s).__name__)
        return m(s)

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return None
        self.ev(s.value)

    def s_Pass(self, s):
        return None

    def s_Return(self, s):
        return ("return", None if s.value is None else self.ev(s.value))

    def s_Break(self, s):
        return "break"

    def s_Continue(self, s):
        return "continue"

    def s_Global(self, s):
        self.frames[-1].setdefault("global", set()).update(s.names)

    def s_Nonlocal(self, s):
        self.frames[-1].setdefault("nonlocal", set()).update(s.names)

    def s_Import(self, s):
        for a in s.names:
            full = a.name if a.asname else a.name.split(".")[0]
            self.assign_name(a.asname or a.name.split(".")[0], self.module(full))

    def s_ImportFrom(self, s):
        for a in s.names:
            self.assign_name(a.asname or a.name, self.resolve_import(self.frames[-1]["module"], s, a))

    def s_FunctionDef(self, s):
        fr = self.frames[-1]
        q = (fr["func"].qual + "." if fr["func"] else "") + s.name
        self.assign_name(s.name, self.mkfunc(s, fr["module"], fr["scope"], q, fr["func"].cls if fr["func"] else None))

    def s_Assign(self, s):
        v = self.ev(s.value)
        for tg in s.targets:
            self.assign(tg, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def s_AugAssign(self, s):
        tg = s.target
        op = type(s.op).__name__
        if isinstance(tg, ast.Name):
            self.assign_name(tg.id, self.iop(op, self.lookup(tg.id), self.ev(s.value)))
        elif isinstance(tg, ast.Attribute):
            o = self.ev(tg.value)
            self.setattr(o, tg.attr, self.iop(op, self.getattr(o, tg.attr), self.ev(s.value)))
        elif isinstance(tg, ast.Subscript):
            o, k = self.ev(tg.value), self.index(tg.slice)
            self.setitem(o, k, self.iop(op, self.getitem(o, k), self.ev(s.value)))
        else:
            raise Unsupported("augmented assignment")

    def s_Delete(self, s):
        for tg in s.targets:
            if isinstance(tg, ast.Name):
                self.ctx.store.pop(self.loc(self.frames[-1]["scope"][-1], tg.id), None)
            elif isinstance(tg, ast.Subscript):
                o, k = self.ev(tg.value), self.index(tg.slice)
                if isinstance(o, PList):
                    it = list(self.items(o))
                    del it[self.cindex(k, len(it))]
                    self.ctx.store[("l", o.id)] = tuple(it)
                elif isinstance(o, PDict):
                    self.ctx.store[("d", o.id)] = tuple((a, b) for a, b in self.ctx.store[("d", o.id)] if not self.keq(a, k))
                else:
                    raise Unsupported("del")
            else:
                raise Unsupported("del")

    def s_If(self, s):
        if self.truth(self.ev(s.test)):
            return self.block(s.body)
        return self.block(s.orelse)

    def s_Assert(self, s):
        if not self.truth(self.ev(s.test)):
            raise Raised("AssertionError")

    def s_Raise(self, s):
        k = "Exception"
        if s.exc is not None:
            k = _dn(s.exc)
        raise Raised(k)

    def s_Try(self, s):
        try:
            out = self.block(s.body)
        except Raised as e:
            for h in s.handlers:
                nm = ast.unparse(h.type) if h.type is not None else ""
                if h.type is None or nm in ("Exception", "BaseException") or e.kind in nm or e.kind.split(".")[-1] in nm:
                    if h.name:
                        self.assign_name(h.name, Special("exc"))
                    out = self.block(h.body)
                    break
            else:
                self.block(s.finalbody)
                raise
        else:
            if out is None:
                out = self.block(s.orelse)
        f = self.block(s.finalbody)
        return f if f is not None else out

    def s_With(self, s):
        """context managers of library models only: CONTEXT[type] = (enter, exit)"""
        done = []
        for it in s.items:
            m = self.ev(it.context_expr)
            h = CONTEXT.get(type(m))
            if h is None:
                raise Unsupported("with statement")
            v = h[0](self, m)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v)
            done.append((h, m))
        out = self.block(s.body)
        for h, m in reversed(done):
            h[1](self, m)
        return out

    def s_While(self, s):
        ctx = self.ctx
        cf = lambda: self.formula(self.ev(s.test))

        def step():
            out = self.block(s.body)
            return None if out == "continue" else out
        for i in range(MAXU + 1):
            c = cf()
            k = c.op == "true" or (c.op != "false" and None)
            if c.op == "false":
                return self.block(s.orelse)
            if c.op != "true":
                break
            if i == MAXU:
                raise Unsupported("while loop without symbolic bound")
            out = step()
            if out == "break":
                return None
            if out is not None:
                return out
        return summarise(ctx, cf, step, f"{ctx.label} loop at {ctx.where}")

    def s_For(self, s):
        it = self.ev(s.iter)
        return self.forloop(it, s.target, s.body, s.orelse)

    def forloop(self, it, target, body, orelse=()):
        ctx = self.ctx
        where = ctx.where
        seq = self.iterate(it)
        if isinstance(seq, (Range, Seq)):
            n = seq.count()
            c = n.iconst()
            if c is not None and c <= MAXU:
                seq = [seq.item(t(i)) for i in range(max(c, 0))]
            else:
                def step():
                    out = self.block(body)
                    return None if out == "continue" else out
                r = summarise(ctx, None, step, f"{ctx.label} loop at {where}", N=n, bind=lambda v: self.assign(target, seq.item(v)))
                if isinstance(target, ast.Name):
                    l = self.loc(self.frames[-1]["scope"][-1], target.id)
                    if r is None:
                        ctx.store[l] = Poison(f"loop variable {target.id} after the loop")
                return r
        for v in seq:
            self.assign(target, v)
            out = self.block(body)
            if out == "break":
                return None
            if out == "continue" or out is None:
                continue
            return out
        return self.block(orelse) if orelse else None

    # ------------------------------------------------------------ assignment
    def assign(self, tg, v):
        if isinstance(tg, ast.Name):
            self.assign_name(tg.id, v)
        elif isinstance(tg, ast.Attribute):
            self.setattr(self.ev(tg.value), tg.attr, v)
        elif isinstance(tg, ast.Subscript):
            o = self.ev(tg.value)
            self.setitem(o, self.index(tg.slice), v)
        elif isinstance(tg, (ast.Tuple, ast.List)):
            vs = list(self.concrete(v))
            st = [i for i, x in enumerate(tg.elts) if isinstance(x, ast.Starred)]
            if st:
                i = st[0]
                k = len(vs) - (len(tg.elts) - 1)
                for x, y in zip(tg.elts[:i], vs[:i]):
                    self.assign(x, y)
                self.assign(tg.elts[i].value, self.mklist(vs[i:i + k]))
                for x, y in zip(tg.elts[i + 1:], vs[i + k:]):
                    self.assign(x, y)
                return
            if len(vs) != len(tg.elts):
                raise Raised("ValueError", "unpack")
            for x, y in zip(tg.elts, vs):
                self.assign(x, y)
        else:
            raise Unsupported("assignment target")

    # ------------------------------------------------------------ iteration
    def mklist(self, items):
        l = PList()
        self.ctx.store[("l", l.id)] = tuple(items)
        return l

    def mkdict(self, pairs):
        d = PDict()
        self.ctx.store[("d", d.id)] = tuple(pairs)
        return d

    def items(self, l):
        v = self.ctx.store[("l", l.id)]
        if isinstance(v, Poison):
            raise Unsupported(v.why)
        return v

    def iterate(self, it):
        if isinstance(it, (Range, Seq)):
            return it
        if isinstance(it, tuple):
            return list(it)
        if isinstance(it, list):
            return it
        if isinstance(it, PList):
            v = self.items(it)
            return v if isinstance(v, Seq) else list(v)
        if isinstance(it, PDict):
            return [k for k, _ in self.ctx.store[("d", it.id)]]
        if isinstance(it, str):
            return list(it)
        h = ITER.get(type(it))
        if h is not None:
            return h(self, it)
        if isinstance(it, Inst):
            r = self.find(it.cls, "__iter__")
            if r:
                return self.iterate(self.call(r[1], [it], {}))
        raise Unsupported(f"iteration over {type(it).__name__}")

    def concrete(self, it):
        s = self.iterate(it)
        if isinstance(s, (Range, Seq)):
            c = s.count().iconst()
            if c is None:
                raise Unsupported("sequence of symbolic length")
            return [s.item(t(i)) for i in range(max(c, 0))]
        return list(s)

    # ------------------------------------------------------------ truth
    def formula(self, v):
        if isinstance(v, F):
            return v
        if isinstance(v, T):
            return Ne(v, 0)
        if v is None:
            return FALSE
        if isinstance(v, (str, tuple, list)):
            return TRUE if len(v) else FALSE
        if isinstance(v, PList):
            x = self.items(v)
            return Gt(x.n, 0) if isinstance(x, Seq) else (TRUE if len(x) else FALSE)
        if isinstance(v, PDict):
            return TRUE if len(self.ctx.store[("d", v.id)]) else FALSE
        if isinstance(v, (Func, Method, Builtin, Class, Special, ModelType)):
            return TRUE
        if isinstance(v, Poison):
            raise Unsupported(v.why)
        h = TRUTH.get(type(v))
        if h is not None:
            return h(self, v)
        raise Unsupported(f"truth of {type(v).__name__}")

    def truth(self, v):
        return self.ctx.branch(self.formula(v))

    # ------------------------------------------------------------ expressions
    def ev(self, n):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Unsupported("expression " + type(n).__name__)
        return m(n)

    def e_Constant(self, n):
        v = n.value
        if v is True:
            return TRUE
        if v is False:
            return FALSE
        if v is None or isinstance(v, (str, bytes)):
            return v
        if v is Ellipsis:
            return ELLIPSIS
        if isinstance(v, int):
            return t(v)
        if isinstance(v, float):
            if v == float("inf"):
                return INF
            return t(Fraction(repr(v)))
        raise Unsupported("constant")

    def e_Name(self, n):
        return self.lookup(n.id)

    def e_Tuple(self, n):
        return tuple(self.elts(n.elts))

    def e_List(self, n):
        return self.mklist(self.elts(n.elts))

    def elts(self, es):
        out = []
        for e in es:
            if isinstance(e, ast.Starred):
                v = self.ev(e.value)
                h = STAR.get(type(v))
                if h is not None:
                    out.append(h(self, v))
                else:
                    out += self.concrete(v)
            else:
                out.append(self.ev(e))
        return out

    def e_Dict(self, n):
        ps = []
        for k, v in zip(n.keys, n.values):
            if k is None:
                d = self.ev(v)
                ps += list(self.ctx.store[("d", d.id)])
                continue
            ps.append((self.ev(k), self.ev(v)))
        return self.mkdict(ps)

    def e_Set(self, n):
        raise Unsupported("set")

    def e_JoinedStr(self, n):
        out = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                out.append(v.value)
                continue
            if v.format_spec is not None or v.conversion not in (-1, 115):
                return Special("str")
            try:
                x = self.ev(v.value)
            except (Unsupported, Raised):
                return Special("str")
            if isinstance(x, str):
                out.append(x)
            elif isinstance(x, T) and x.iconst() is not None and isint(x):
                out.append(str(x.iconst()))
            elif getattr(x, "istext", False):
                out.append(x)
            else:
                return Special("str")
        return textcat(out)

    def e_Lambda(self, n):
        fr = self.frames[-1]
        q = (fr["func"].qual + "." if fr["func"] else "") + "<lambda>"
        return self.mkfunc(n, fr["module"], fr["scope"], q)

    def e_IfExp(self, n):
        return self.ev(n.body) if self.truth(self.ev(n.test)) else self.ev(n.orelse)

    def e_NamedExpr(self, n):
        v = self.ev(n.value)
        self.assign(n.target, v)
        return v

    def e_BoolOp(self, n):
        isand = isinstance(n.op, ast.And)
        v = None
        for i, x in enumerate(n.values):
            v = self.ev(x)
            if i == len(n.values) - 1:
                return v
            r = self.truth(v)
            if r != isand:
                return v if not isinstance(v, F) else (FALSE if isand else TRUE)
        return v

    def e_UnaryOp(self, n):
        v = self.ev(n.operand)
        if isinstance(n.op, ast.Not):
            return Not(self.formula(v))
        if isinstance(n.op, ast.USub):
            if v is INF:
                return NEGINF
            return self.neg(v)
        if isinstance(n.op, ast.UAdd):
            return v
        if isinstance(n.op, ast.Invert) and isinstance(v, F):
            return Not(v)
        h = UNOP.get(type(v))
        if h is not None:
            return h(self, type(n.op).__name__, v)
        raise Unsupported("unary operator")

    def neg(self, v):
        if isinstance(v, T):
            return -v
        if isinstance(v, F):
            return -ite(v, 1, 0)
        h = UNOP.get(type(v))
        if h is not None:
            return h(self, "USub", v)
        if isinstance(v, Inst):
            r = self.find(v.cls, "__neg__")
            if r:
                return self.call(r[1], [v], {})
        raise Unsupported(f"negation of {type(v).__name__}")

    def e_BinOp(self, n):
        a, b = self.ev(n.left), self.ev(n.right)
        return self.binop(type(n.op).__name__, a, b)

    def num(self, v):
        if isinstance(v, F):
            return ite(v, 1, 0)
        return v

    def iop(self, op, a, b):
        if isinstance(a, Inst):
            r = self.find(a.cls, {"Add": "__iadd__", "Sub": "__isub__", "Mult": "__imul__"}.get(op, "?"))
            if r:
                return self.call(r[1], [a, b], {})
        if isinstance(a, PList) and op == "Add":
            self.ctx.store[("l", a.id)] = tuple(self.items(a)) + tuple(self.concrete(b))
            return a
        h = IOP.get(type(a))
        if h is not None:
            r = h(self, op, a, b)
            if r is not NotImplemented:
                return r
        return self.binop(op, a, b)

    def binop(self, op, a, b):
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported("value unknown")
        if op == "BitOr" and isinstance(a, (Class, ModelType, tuple)) and (b is None or isinstance(b, (Class, ModelType))):
            return (a if isinstance(a, tuple) else (a,)) + (b,)     # a union of types
        if op in ("BitAnd", "BitOr", "BitXor") and isinstance(a, F) and isinstance(b, F):
            return {"BitAnd": lambda: And(a, b), "BitOr": lambda: Or(a, b), "BitXor": lambda: Or(And(a, Not(b)), And(Not(a), b))}[op]()
        a, b = self.num(a), self.num(b)
        if isinstance(a, T) and isinstance(b, T):
            return self.arith(op, a, b)
        for x, y, sw in ((a, b, False), (b, a, True)):
            h = BINOP.get(type(x))
            if h is not None:
                r = h(self, op, a, b)
                if r is not NotImplemented:
                    return r
        if isinstance(a, Inst):
            r = self.find(a.cls, {"Add": "__add__", "Sub": "__sub__", "Mult": "__mul__"}.get(op, "?"))
            if r:
                return self.call(r[1], [a, b], {})
        if isinstance(a, str) and isinstance(b, str) and op == "Add":
            return a + b
        if (isinstance(a, (str, Special)) or isinstance(b, (str, Special))) and op in ("Add", "Mod"):
            return Special("str")
        if isinstance(a, tuple) and isinstance(b, tuple) and op == "Add":
            return a + b
        if isinstance(a, PList) and isinstance(b, PList) and op == "Add":
            return self.mklist(list(self.items(a)) + list(self.items(b)))
        if op == "Mult" and isinstance(b, PList):
            a, b = b, a
        if op == "Mult" and isinstance(a, (PList, tuple)) and isinstance(b, T):
            c = b.iconst()
            items = list(self.items(a)) if isinstance(a, PList) else list(a)
            if c is not None:
                out = items * c
            elif len(items) == 1 and isinstance(a, PList):
                l = PList()
                self.ctx.store[("l", l.id)] = self.reparr(items[0], b)
                return l
            else:
                raise Unsupported("list repetition")
            return self.mklist(out) if isinstance(a, PList) else tuple(out)
        if isinstance(a, (PList, tuple, T)) and isinstance(b, (PList, tuple, T)):
            raise Raised("TypeError", op)
        raise Unsupported(f"{op} of {type(a).__name__} and {type(b).__name__}")

    def reparr(self, x, n):
        return Seq(n, lambda i: x)

    def arith(self, op, x, y):
        ctx = self.ctx
        if op == "Add":
            return x + y
        if op == "Sub":
            return x - y
        if op == "Mult":
            return x * y
        if op == "Div":
            if y.const() == 0:
                raise Raised("ZeroDivisionError")
            return x / y
        if op == "Pow":
            return power(x, y)
        if op == "Mod":
            if prove(ctx.pc, Gt(y, 0)) and isint(x) and isint(y):
                return simp_mod(x, y)
        if op == "FloorDiv":
            if prove(ctx.pc, Gt(y, 0)) and isint(x) and isint(y):
                return simp_div(x, y)
            if y.const() and y.const() > 0:
                return simp_floor(x / y)
        if ctx.discover:
            return app("OP_" + op, x, y, sort="Int")
        raise Unsupported("operator " + op)

    def e_Compare(self, n):
        left = self.ev(n.left)
        out = TRUE
        for i, (op, r) in enumerate(zip(n.ops, n.comparators)):
            right = self.ev(r)
            c = self.compare(type(op).__name__, left, right)
            if len(n.ops) == 1:
                return c
            out = And(out, self.formula(c))
            left = right
        return out

    def compare(self, op, a, b):
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported("value unknown")
        if op in ("Is", "IsNot"):
            same = a is b or (isinstance(a, F) and isinstance(b, F) and a == b)
            if isinstance(a, F) and isinstance(b, F) and not same and a.op not in ("true", "false"):
                e = Or(And(a, b), And(Not(a), Not(b)))
                return e if op == "Is" else Not(e)
            return TRUE if same == (op == "Is") else FALSE
        if op in ("In", "NotIn"):
            r = self.contains(b, a)
            return r if op == "In" else Not(r)
        if isinstance(a, F) and isinstance(b, F) and op in ("Eq", "NotEq"):
            e = Or(And(a, b), And(Not(a), Not(b)))
            return e if op == "Eq" else Not(e)
        a, b = self.num(a), self.num(b)
        for x in (a, b):
            h = COMPARE.get(type(x))
            if h is not None:
                r = h(self, op, a, b)
                if r is not NotImplemented:
                    return r
        if isinstance(a, T) and isinstance(b, T):
            return {"Eq": Eq, "NotEq": Ne, "Lt": Lt, "LtE": Le, "Gt": Gt, "GtE": Ge}[op](a, b)
        if a in (INF, NEGINF) or b in (INF, NEGINF):
            if op in ("Eq", "NotEq"):
                return TRUE if (a is b) == (op == "Eq") else FALSE
            raise Unsupported("infinity")
        if op in ("Eq", "NotEq"):
            r = self.keq(a, b)
            return TRUE if r == (op == "Eq") else FALSE
        raise Unsupported(f"{op} of {type(a).__name__} and {type(b).__name__}")

    def keq(self, a, b):
        """decided equality of structural values"""
        if isinstance(a, T) and isinstance(b, T):
            k = self.ctx.known(Eq(a, b))
            if k is None:
                return self.ctx.branch(Eq(a, b))
            return k
        if isinstance(a, F) and isinstance(b, F):
            return a == b
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(self.keq(x, y) for x, y in zip(a, b))
        if isinstance(a, PList) and isinstance(b, PList):
            return self.keq(tuple(self.items(a)), tuple(self.items(b)))
        if type(a) is not type(b):
            if isinstance(a, (T, F, str, tuple, PList, PDict, type(None))) and isinstance(b, (T, F, str, tuple, PList, PDict, type(None), Special)):
                return False
            raise Unsupported(f"equality of {type(a).__name__} and {type(b).__name__}")
        if isinstance(a, (str, Special, type(None), Class, ModelType, Func, Method)):
            return a == b
        if a is b:
            return True
        if hasattr(type(a), "same"):
            return a.same(b)
        raise Unsupported(f"equality of {type(a).__name__}")

    def contains(self, c, x):
        if isinstance(c, str) and isinstance(x, str):
            return TRUE if x in c else FALSE
        if isinstance(c, PDict):
            return TRUE if any(self.keq(k, x) for k, _ in self.ctx.store[("d", c.id)]) else FALSE
        if isinstance(c, Range):
            return And(Ge(x, c.lo), Lt(x, c.hi))
        h = CONTAINS.get(type(c))
        if h is not None:
            return h(self, c, x)
        if isinstance(c, str) and isinstance(x, str):
            return TRUE if x in c else FALSE
        s = self.iterate(c)
        if isinstance(s, list):
            out = FALSE
            for y in s:
                out = Or(out, self.formula(self.compare("Eq", x, y)))
            return out
        if isinstance(s, (Seq, Range)):
            u = fresh("u")
            return Exists(u, 0, s.count(), self.formula(self.compare("Eq", x, s.item(u))))
        raise Unsupported("in")

    def e_Attribute(self, n):
        return self.getattr(self.ev(n.value), n.attr)

    def e_Call(self, n):
        if isinstance(n.func, ast.Name) and n.func.id == "super":
            fr = self.frames[-1]
            return Super(fr["func"].cls, fr["self"])
        f = self.ev(n.func)
        args = self.elts(n.args)
        kw = {}
        for k in n.keywords:
            v = self.ev(k.value)
            if k.arg is None:
                for a, b in self.ctx.store[("d", v.id)]:
                    kw[a] = b
            else:
                kw[k.arg] = v
        where = self.ctx.where
        r = self.call(f, args, kw)
        self.ctx.where = where
        return r

    def index(self, n):
        return self.ev(n)

    def e_Slice(self, n):
        g = lambda x: None if x is None else self.ev(x)
        return Slice(g(n.lower), g(n.upper), g(n.step))

    def e_Subscript(self, n):
        o = self.ev(n.value)
        return self.getitem(o, self.index(n.slice))

    def e_Starred(self, n):
        raise Unsupported("starred")

    def cindex(self, k, n):
        c = k.iconst() if isinstance(k, T) else None
        if c is None:
            raise Unsupported("symbolic index into a list")
        if c < -n or c >= n:
            raise Raised("IndexError")
        return c

    def getitem(self, o, k):
        if isinstance(o, (tuple, PList)):
            it = self.items(o) if isinstance(o, PList) else o
            if isinstance(it, Seq):
                return self.seqitem(it, k)
            if isinstance(k, Slice):
                s = slice(*[None if x is None else self.cint(x) for x in (k.lo, k.hi, k.step)])
                return self.mklist(it[s]) if isinstance(o, PList) else it[s]
            if isinstance(k, T) and k.iconst() is None:
                # symbolic index into a concrete list: decide it
                for i, x in enumerate(it):
                    if self.ctx.branch(Eq(k, i)):
                        return x
                raise Raised("IndexError")
            return it[self.cindex(k, len(it))]
        if isinstance(o, PDict):
            for a, b in self.ctx.store[("d", o.id)]:
                if self.keq(a, k):
                    return b
            raise Raised("KeyError")
        if isinstance(o, Range):
            return o.item(k)
        if isinstance(o, Seq):
            return self.seqitem(o, k)
        h = GETITEM.get(type(o))
        if h is not None:
            return h(self, o, k)
        if isinstance(o, Inst):
            r = self.find(o.cls, "__getitem__")
            if r:
                return self.call(r[1], [o, k], {})
        if isinstance(o, (ModelType, Class, Builtin, Special)):
            return o          # generic alias
        if isinstance(o, Poison):
            raise Unsupported(o.why)
        raise Unsupported(f"subscript of {type(o).__name__}")

    def lazyprops(self, elt):
        """does the expression read a property of one of the program's classes?"""
        names = set()
        for m in self.mods.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.FunctionDef) and any(_dn(d) == "property" for d in n.decorator_list):
                    names.add(n.name)
        return any(isinstance(x, ast.Attribute) and x.attr in names for x in ast.walk(elt))

    def effects(self, it, item):
        u = fresh("u")

        def body():
            self.ctx.assume(And(Ge(u, 0), Lt(u, it.count())))
            item(u)
        try:
            self.ctx.explore(body)
        except SideEffect:
            return True
        except (Unsupported, Raised):
            pass
        return False

    def seqitem(self, it, k):
        if isinstance(k, T):
            c = k.iconst()
            if c is not None and c < 0:
                return it.item(it.count() + c)
            return it.item(k)
        if isinstance(k, Slice) and (k.step is None or k.step.iconst() == 1):
            n = it.count()
            lo = t(0) if k.lo is None else k.lo
            hi = n if k.hi is None else k.hi
            if lo.iconst() is not None and lo.iconst() < 0:
                lo = n + lo
            if hi.iconst() is not None and hi.iconst() < 0:
                hi = n + hi
            if self.ctx.known(And(Le(0, lo), Le(lo, hi), Le(hi, n))) is True:
                return Seq(hi - lo, lambda i: it.item(lo + i))
        raise Unsupported("slice of a symbolic list")

    def cint(self, x):
        if x is None:
            return None
        c = x.iconst() if isinstance(x, T) else None
        if c is None:
            raise Unsupported("symbolic slice")
        return c

    def setitem(self, o, k, v):
        if isinstance(o, PList):
            it = self.items(o)
            if isinstance(it, Seq):
                self.ctx.store[("l", o.id)] = it.with_write(self.ctx, k, v)
                return
            it = list(it)
            it[self.cindex(k, len(it))] = v
            self.ctx.store[("l", o.id)] = tuple(it)
            return
        if isinstance(o, PDict):
            ps = list(self.ctx.store[("d", o.id)])
            for i, (a, b) in enumerate(ps):
                if self.keq(a, k):
                    ps[i] = (a, v)
                    break
            else:
                ps.append((k, v))
            self.ctx.store[("d", o.id)] = tuple(ps)
            return
        h = SETITEM.get(type(o))
        if h is not None:
            return h(self, o, k, v)
        if isinstance(o, Inst):
            r = self.find(o.cls, "__setitem__")
            if r:
                return self.call(r[1], [o, k, v], {})
        raise Unsupported(f"item assignment on {type(o).__name__}")

    def e_ListComp(self, n):
        s = self.comp(n.elt, n.generators)
        if isinstance(s, Seq):
            l = PList()
            self.ctx.store[("l", l.id)] = s
            return l
        return self.mklist(s)

    def e_GeneratorExp(self, n):
        s = self.comp(n.elt, n.generators)
        return s if isinstance(s, Seq) else tuple(s)

    def e_SetComp(self, n):
        raise Unsupported("set")

    def e_DictComp(self, n):
        ps = self.comp(ast.Tuple(elts=[n.key, n.value], ctx=ast.Load()), n.generators)
        if isinstance(ps, Seq):
            return SDict(ps)
        d = self.mkdict([])
        for k, v in ps:
            self.setitem(d, k, v)
        return d

    def comp(self, elt, gens):
        fr = self.frames[-1]
        fid = fresh_name("fr")
        self.frames.append(dict(fr, scope=fr["scope"] + [fid]))
        try:
            out = []

            def go(i):
                if i == len(gens):
                    out.append(self.ev(elt))
                    return
                g = gens[i]
                it = self.iterate(self.ev(g.iter))
                if isinstance(it, (Range, Seq)):
                    c = it.count().iconst()
                    if c is None:
                        if i == 0 and len(gens) == 1 and not g.ifs:
                            raise _Sym(it, g.target)
                        raise Unsupported("comprehension over a symbolic sequence")
                    it = [it.item(t(j)) for j in range(max(c, 0))]
                for v in it:
                    self.assign(g.target, v)
                    if all(self.truth(self.ev(c)) for c in g.ifs):
                        go(i + 1)
            try:
                go(0)
            except _Sym as s:
                frames = list(self.frames)
                st0, hp0 = dict(self.ctx.store), dict(self.ctx.heap)

                def item(i, it=s.it, tg=s.target):
                    """element i, evaluated in the state the comprehension was written in"""
                    ctx = self.ctx
                    save, st, hp = self.frames, ctx.store, ctx.heap
                    f2 = fresh_name("fr")
                    self.frames = frames[:-1] + [dict(frames[-1], scope=frames[-1]["scope"][:-1] + [f2])]
                    ctx.store, ctx.heap = dict(st), dict(hp)
                    ctx.store.update(st0)
                    ctx.heap.update(hp0)
                    try:
                        self.assign(tg, it.item(i))
                        r = self.ev(elt)
                        for k, v in st0.items():
                            if ctx.store.get(k) is not v:
                                raise SideEffect("comprehension with side effects")
                        for k, v in hp0.items():
                            if ctx.heap.get(k) is not v:
                                raise SideEffect("comprehension with side effects")
                    finally:
                        self.frames = save
                        st2, hp2 = ctx.store, ctx.heap
                        ctx.store, ctx.heap = st, hp
                        for k, v in st2.items():
                            if k not in st:
                                st[k] = v
                        for k, v in hp2.items():
                            if k not in hp:
                                hp[k] = v
                    return r
                if self.lazyprops(elt) and self.ctx.known(Ge(s.it.count(), 1)) is True and self.effects(s.it, item):
                    # the first element's effects (a cached result); later elements are checked to have none
                    self.assign(s.target, s.it.item(t(0)))
                    self.ev(elt)
                    st0, hp0 = dict(self.ctx.store), dict(self.ctx.heap)
                return Seq(s.it.count(), item)
            return out
        finally:
            self.frames.pop()


class SDict:
    """a dictionary of symbolic size, given by its pairs (of distinct keys)"""

    def __init__(self, pairs):
        self.pairs = pairs


class SideEffect(Unsupported):
    pass


class _Sym(Exception):
    def __init__(self, it, target):
        self.it, self.target = it, target


class Super:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


def _lit_none(x):
    return isinstance(x, ast.Constant) and x.value is None


# ---------------------------------------------------------------- extension tables
ATTR, METHODS, ITER, TRUTH, UNOP, BINOP, IOP, COMPARE, CONTAINS, GETITEM, SETITEM, LEN, ISINST, TYPEOF = ({} for _ in range(14))


def _super_attr(py, s, name):
    r = py.find(s.obj.cls, name, after=s.cls)
    if r is None:
        if name == "__init__":
            return Builtin("object.__init__", lambda py, a, k: None)
        raise Raised("AttributeError", name)
    return py.bind(s.obj, r[1], r[0])


ATTR[Super] = _super_attr
BUILTINS = {}


def builtin(name):
    def reg(fn):
        BUILTINS[name] = Builtin(name, fn)
        return fn
    return reg


@builtin("slice")
def _slice(py, a, k):
    a = list(a)
    return Slice(None, a[0], None) if len(a) == 1 else Slice(a[0], a[1], a[2] if len(a) > 2 else None)


@builtin("len")
def _len(py, a, k):
    x = a[0]
    if isinstance(x, (tuple, str, list)):
        return t(len(x))
    if isinstance(x, PList):
        it = py.items(x)
        return it.n if isinstance(it, Seq) else t(len(it))
    if isinstance(x, PDict):
        return t(len(py.ctx.store[("d", x.id)]))
    if isinstance(x, (Seq, Range)):
        return x.count()
    h = LEN.get(type(x))
    if h is not None:
        return h(py, x)
    if isinstance(x, Inst):
        r = py.find(x.cls, "__len__")
        if r:
            return py.call(r[1], [x], {})
    raise Unsupported(f"len of {type(x).__name__}")


@builtin("range")
def _range(py, a, k):
    if len(a) == 1:
        return Range(0, a[0])
    st = 1
    if len(a) == 3:
        st = py.cint(a[2])
        if st not in (1, -1):
            lo, hi = py.cint(a[0]), py.cint(a[1])
            return [t(i) for i in range(lo, hi, st)]
    return Range(a[0], a[1], st)


@builtin("enumerate")
def _enum(py, a, k):
    s = py.iterate(a[0])
    st = a[1] if len(a) > 1 else t(0)
    if isinstance(s, (Range, Seq)):
        return Seq(s.count(), lambda i: (i + st, s.item(i)))
    return [(t(i) + st, x) for i, x in enumerate(s)]


@builtin("zip")
def _zip(py, a, k):
    ss = [py.iterate(x) for x in a]
    if all(isinstance(s, list) for s in ss):
        return [tuple(x) for x in zip(*ss)]
    ns = [s.count() if isinstance(s, (Seq, Range)) else t(len(s)) for s in ss]
    if all(py.ctx.known(Eq(ns[0], n)) for n in ns):
        return Seq(ns[0], lambda i: tuple(s.item(i) if isinstance(s, (Seq, Range)) else s[py.cindex(i, len(s))] for s in ss))
    raise Unsupported("zip of sequences of different symbolic length")


@builtin("reversed")
def _rev(py, a, k):
    s = py.iterate(a[0])
    if isinstance(s, list):
        return s[::-1]
    return Seq(s.count(), lambda i: s.item(s.count() - 1 - i))


@builtin("list")
def _list(py, a, k):
    if not a:
        return py.mklist([])
    s = py.iterate(a[0])
    l = PList()
    py.ctx.store[("l", l.id)] = tuple(s) if isinstance(s, list) else (s if isinstance(s, Seq) else Seq(s.count(), s.item))
    return l


@builtin("tuple")
def _tuple(py, a, k):
    if not a:
        return ()
    s = py.iterate(a[0])
    return tuple(s) if isinstance(s, list) else s


@builtin("dict")
def _dict(py, a, k):
    ps = []
    if a:
        ps = list(py.ctx.store[("d", a[0].id)]) if isinstance(a[0], PDict) else [tuple(py.concrete(x)) for x in py.concrete(a[0])]
    d = py.mkdict([])
    for x, y in ps + list(k.items()):
        py.setitem(d, x, y)
    return d


@builtin("int")
def _int(py, a, k):
    x = py.num(a[0])
    if isinstance(x, T):
        if isint(x):
            return x
        c = x.const()
        if c is not None:
            return t(int(c))
        if prove(py.ctx.pc, Ge(x, 0)):
            return simp_floor(x)
    raise Unsupported("int()")


@builtin("float")
def _float(py, a, k):
    x = py.num(a[0])
    if isinstance(x, T):
        return x
    if isinstance(x, str):
        if x.lower() in ("inf", "infinity"):
            return INF
        return t(Fraction(x))
    raise Unsupported("float()")


@builtin("bool")
def _bool(py, a, k):
    return py.formula(a[0])


@builtin("abs")
def _abs(py, a, k):
    x = a[0]
    if isinstance(x, T):
        return ite(Lt(x, 0), -x, x)
    raise Unsupported("abs")


def _minmax(name, cmp):
    def f(py, a, k):
        xs = list(a) if len(a) > 1 else py.concrete(a[0])
        r = xs[0]
        for x in xs[1:]:
            r = x if py.ctx.branch(cmp(x, r)) else r
        return r
    BUILTINS[name] = Builtin(name, f)


_minmax("min", Lt)
_minmax("max", Gt)


@builtin("sum")
def _sum(py, a, k):
    s = py.iterate(a[0])
    if isinstance(s, list):
        r = a[1] if len(a) > 1 else t(0)
        for x in s:
            r = py.binop("Add", r, x)
        return r
    u, x = generic(py, s, lambda u: py.num(s.item(u)))
    if x is None:
        return t(0)
    return binder("SUM", u, 0, s.count(), x)


def generic(py, s, fn):
    """(u, fn(u)) at a generic position u of the sequence, evaluated knowing that u is in range; None if it has no position"""
    ctx = py.ctx
    u = fresh("u")

    def body():
        ctx.assume(And(Ge(u, 0), Lt(u, s.count())))
        ctx.inst(u)
        return fn(u)
    rs = ctx.explore(body)
    if not rs:
        return u, None
    r = rs[-1][1]
    for g, x, _ in rs[:-1]:
        if x != r:
            g = And(*g)
            r = Or(And(g, x), And(Not(g), r)) if isinstance(x, F) else ite(g, x, r)
    return u, r


def _quant(name, isall):
    def f(py, a, k):
        s = py.iterate(a[0])
        if isinstance(s, list):
            fs = [py.formula(x) for x in s]
            return And(*fs) if isall else Or(*fs)
        u, body = generic(py, s, lambda u: py.formula(s.item(u)))
        if body is None:
            return TRUE if isall else FALSE
        return Forall(u, 0, s.count(), body) if isall else Exists(u, 0, s.count(), body)
    BUILTINS[name] = Builtin(name, f)


_quant("all", True)
_quant("any", False)


@builtin("sorted")
def _sorted(py, a, k):
    xs = py.concrete(a[0])
    rev = k.get("reverse", FALSE)
    if k.get("key") is not None:
        raise Unsupported("sorted key")
    cs = [x.const() if isinstance(x, T) else x for x in xs]
    if any(c is None for c in cs):
        raise Unsupported("sorting symbolic values")
    return py.mklist([t(c) if not isinstance(c, str) else c for c in sorted(cs, reverse=rev.op == "true")])


@builtin("isinstance")
def _isinstance(py, a, k):
    x, ty = a
    tys = []

    def flat(z):
        if isinstance(z, tuple):
            for q in z:
                flat(q)
        else:
            tys.append(z)
    flat(ty)
    return TRUE if any(isinst(py, x, z) for z in tys) else FALSE


def isinst(py, x, ty):
    if isinstance(x, Inst):
        return ty in x.cls.mro() or (isinstance(ty, Builtin) and any(getattr(c, "name", None) == "OrderedDict" for c in x.cls.mro()) and ty.name == "dict")
    h = ISINST.get(type(x))
    if h is not None:
        r = h(py, x, ty)
        if r is not None:
            return r
    nm = getattr(ty, "name", None)
    m = {PList: "list", tuple: "tuple", PDict: "dict", str: "str"}
    for k, v in m.items():
        if isinstance(x, k):
            return nm == v
    if isinstance(x, T):
        if nm in ("int", "float"):
            return (nm == "int") == bool(isint(x))
        return False
    if isinstance(x, F):
        return nm in ("bool", "int")
    if x is None:
        return False
    if isinstance(x, (Func, Method, Builtin)):
        return nm in ("Callable", "function")
    raise Unsupported(f"isinstance of {type(x).__name__}")


@builtin("type")
def _type(py, a, k):
    x = a[0]
    if isinstance(x, Inst):
        return x.cls
    for ty, nm in ((PList, "list"), (tuple, "tuple"), (PDict, "dict")):
        if isinstance(x, ty):
            return BUILTINS[nm]
    h = TYPEOF.get(type(x))
    if h is not None:
        return h(py, x)
    if isinstance(x, T):
        return BUILTINS["int" if isint(x) else "float"]
    if isinstance(x, F):
        return BUILTINS["bool"]
    if isinstance(x, str):
        return BUILTINS["str"]
    raise Unsupported("type()")


@builtin("hasattr")
def _hasattr(py, a, k):
    try:
        py.getattr(a[0], a[1])
        return TRUE
    except Raised:
        return FALSE


@builtin("getattr")
def _getattr(py, a, k):
    try:
        return py.getattr(a[0], a[1])
    except Raised:
        if len(a) > 2:
            return a[2]
        raise


@builtin("setattr")
def _setattr(py, a, k):
    py.setattr(a[0], a[1], a[2])


@builtin("print")
def _print(py, a, k):
    return None


@builtin("str")
def _str(py, a, k):
    if not a:
        return ""
    if isinstance(a[0], str):
        return a[0]
    if isinstance(a[0], T) and a[0].iconst() is not None:
        return str(a[0].iconst())
    return Special("str")


@builtin("callable")
def _callable(py, a, k):
    return TRUE if isinstance(a[0], (Func, Method, Builtin, Class)) else FALSE


@builtin("id")
def _id(py, a, k):
    return t(abs(hash(getattr(a[0], "id", id(a[0])))))


for _e in ("ValueError", "TypeError", "Exception", "NotImplementedError", "KeyError", "IndexError", "RuntimeError", "AssertionError", "AttributeError", "SystemExit"):
    BUILTINS[_e] = Builtin(_e, lambda py, a, k: Special("exc"))
for _e in ("object",):
    BUILTINS[_e] = ModelType(_e)


# lists and dictionaries
def _method(ty, name):
    def reg(fn):
        METHODS[(ty, name)] = fn
        return fn
    return reg


@_method(PList, "append")
def _append(py, l, x):
    it = py.items(l)
    if isinstance(it, AppendSeq):
        py.ctx.store[("l", l.id)] = it.append(x)
        return
    if isinstance(it, Seq):
        n = it.count()
        py.ctx.store[("l", l.id)] = Seq(n + 1, lambda i: x if i == n or py.ctx.branch(Eq(i, n)) else it.item(i))
        return
    py.ctx.store[("l", l.id)] = tuple(it) + (x,)


@_method(PList, "extend")
def _extend(py, l, x):
    py.ctx.store[("l", l.id)] = tuple(py.items(l)) + tuple(py.concrete(x))


@_method(PList, "insert")
def _insert(py, l, i, x):
    it = list(py.items(l))
    it.insert(py.cint(i), x)
    py.ctx.store[("l", l.id)] = tuple(it)


@_method(PList, "pop")
def _pop(py, l, i=None):
    it = list(py.items(l))
    if not it:
        raise Raised("IndexError")
    c = py.cindex(t(-1) if i is None else i, len(it))
    x = it.pop(c)
    py.ctx.store[("l", l.id)] = tuple(it)
    return x


@_method(PList, "remove")
def _remove(py, l, x):
    it = list(py.items(l))
    for i, y in enumerate(it):
        if py.keq(x, y):
            del it[i]
            py.ctx.store[("l", l.id)] = tuple(it)
            return
    raise Raised("ValueError")


@_method(PList, "index")
def _lindex(py, l, x):
    for i, y in enumerate(py.items(l)):
        if py.keq(x, y):
            return t(i)
    raise Raised("ValueError")


METHODS[(tuple, "index")] = lambda py, l, x: next((t(i) for i, y in enumerate(l) if py.keq(x, y)), None)


@_method(PList, "copy")
def _lcopy(py, l):
    return py.mklist(py.items(l))


@_method(PList, "reverse")
def _lrev(py, l):
    py.ctx.store[("l", l.id)] = tuple(py.items(l))[::-1]


@_method(PList, "sort")
def _lsort(py, l, reverse=FALSE):
    r = _sorted(py, [l], {"reverse": reverse})
    py.ctx.store[("l", l.id)] = py.items(r)


@_method(PDict, "keys")
def _dkeys(py, d):
    return [k for k, _ in py.ctx.store[("d", d.id)]]


@_method(PDict, "values")
def _dvalues(py, d):
    return [v for _, v in py.ctx.store[("d", d.id)]]


@_method(PDict, "items")
def _ditems(py, d):
    return [(k, v) for k, v in py.ctx.store[("d", d.id)]]


@_method(PDict, "get")
def _dget(py, d, k, dflt=None):
    for a, b in py.ctx.store[("d", d.id)]:
        if py.keq(a, k):
            return b
    return dflt


@_method(PDict, "pop")
def _dpop(py, d, k, *dflt):
    ps = list(py.ctx.store[("d", d.id)])
    for i, (a, b) in enumerate(ps):
        if py.keq(a, k):
            del ps[i]
            py.ctx.store[("d", d.id)] = tuple(ps)
            return b
    if dflt:
        return dflt[0]
    raise Raised("KeyError")


@_method(PDict, "update")
def _dupdate(py, d, o=None, **kw):
    if o is not None:
        for k in py.concrete(o):
            py.setitem(d, k, py.getitem(o, k))
    for k, v in kw.items():
        py.setitem(d, k, v)


METHODS[(PDict, "copy")] = lambda py, d: py.mkdict(py.ctx.store[("d", d.id)])
METHODS[(str, "replace")] = lambda py, s, a, b: s.replace(a, b) if isinstance(a, str) and isinstance(b, str) else Special("str")
METHODS[(str, "format")] = lambda py, s, *a, **k: Special("str")


def _join(py, s, a):
    try:
        xs = py.iterate(a)
    except (Unsupported, Raised):
        return Special("str")
    if not isinstance(xs, (list, tuple)) or not all(isinstance(x, str) or getattr(x, "istext", False) for x in xs):
        return Special("str")
    out = []
    for i, x in enumerate(xs):
        out += ([s] if i else []) + [x]
    return textcat(out)


METHODS[(str, "join")] = _join


def loadmods(root, names):
    """{module name: Module} for files under root/src"""
    out = {}
    for n in names:
        p = os.path.join(root, "src", *n.split(".")) + ".py"
        if os.path.exists(p):
            out[n] = Module(n, p)
    return out
