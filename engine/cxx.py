"""C++ front end: interprets the clang AST of the real source on symbolic values."""
import json, os, subprocess, sys
from core import *
from loops import summarise, MAXUNROLL

HERE = os.path.dirname(os.path.abspath(__file__))


class LocPtr:
    __slots__ = ("loc",)

    def __init__(self, loc):
        self.loc = loc

    def __eq__(self, o):
        return isinstance(o, LocPtr) and o.loc == self.loc

    def __hash__(self):
        return hash(self.loc)


class Ref:
    __slots__ = ("lv",)

    def __init__(self, lv):
        self.lv = lv

    def __eq__(self, o):
        return isinstance(o, Ref) and o.lv == self.lv

    def __hash__(self):
        return hash(self.lv)


class Table:
    """array of pointers, constant index"""

    def __init__(self, d):
        self.d = d


class RawMem:
    def __init__(self, bytes_, zero=False):
        self.bytes, self.zero = bytes_, zero


class Obj:
    def __init__(self, name, cls):
        self.name, self.cls = name, cls

    def __repr__(self):
        return f"obj:{self.name}:{self.cls}"


class Null:
    pass


class VecVal:
    """abstract global vector of pointers: size and the items known to be stored"""

    __slots__ = ("size", "items")

    def __init__(self, size, items=()):
        self.size, self.items = size, items


SIZEOF = {"double": 8, "int": 4, "bool": 1, "float": 4, "char": 1}


def load_ast(src, extra=()):
    cmd = ["clang++-18", "-std=c++20", "-nostdinc", "-nostdinc++", "-I" + os.path.join(HERE, "cxxstub"), "-fsyntax-only", "-Wno-everything", "-Xclang", "-ast-dump=json", src]
    p = subprocess.run(cmd, capture_output=True)
    if p.returncode != 0:
        raise Unsupported("clang (stub headers): " + p.stderr.decode()[:600])
    return json.loads(p.stdout)


class Prog:
    def __init__(self, src):
        self.src = src
        self.classes = {}       # name -> node info
        self.byid = {}
        self.methods = {}       # (class, name) -> [decl with body]
        self.funcs = {}
        self.fieldname = {}     # decl id -> "Class::name"
        self.declcls = {}
        self.decl = {}
        ast = load_ast(src)
        self.walk(ast, None)

    def walk(self, node, cls):
        for n in node.get("inner", []):
            k = n.get("kind")
            if k in ("NamespaceDecl", "LinkageSpecDecl"):
                self.walk(n, cls)
            elif k == "CXXRecordDecl" and n.get("completeDefinition"):
                name = n.get("name")
                self.classes[name] = {"id": n["id"], "bases": [b["type"]["qualType"].split("::")[-1].replace("class ", "") for b in n.get("bases", [])]}
                self.byid[n["id"]] = name
                self.walk(n, name)
            elif k == "FieldDecl":
                self.fieldname[n["id"]] = f"{cls}::{n.get('name')}"
                self.decl[n["id"]] = n
            elif k == "VarDecl":
                self.decl[n["id"]] = n
                c = cls or self.byid.get(n.get("parentDeclContextId"))
                self.fieldname[n["id"]] = f"{c}::{n.get('name')}" if c else n.get("name")
                if n.get("previousDecl"):
                    self.fieldname[n["id"]] = self.fieldname.get(n["previousDecl"], self.fieldname[n["id"]])
            elif k in ("CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl", "FunctionDecl"):
                self.decl[n["id"]] = n
                c = cls
                if c is None and n.get("parentDeclContextId"):
                    c = self.byid.get(n["parentDeclContextId"])
                if c is None and n.get("previousDecl"):
                    c = self.declcls.get(n["previousDecl"])
                self.declcls[n["id"]] = c
                body = any(x.get("kind") == "CompoundStmt" for x in n.get("inner", []))
                if body:
                    if c:
                        self.methods.setdefault((c, n["name"]), []).append(n)
                    else:
                        self.funcs[n["name"]] = n

    def mro(self, cls):
        out, todo = [], [cls]
        while todo:
            c = todo.pop(0)
            if c in out or c not in self.classes:
                continue
            out.append(c)
            todo += self.classes[c]["bases"]
        return out

    def resolve(self, cls, name, sig=None):
        """virtual dispatch: most derived body (a class that overrides hides its bases')"""
        cands = []
        for c in self.mro(cls):
            for m in self.methods.get((c, name), []):
                if sig is None or _sig(m["type"]["qualType"]) == _sig(sig):
                    cands.append((c, m))
        if not cands:
            return None
        # dominance with virtual bases: prefer a class not a base of another candidate
        for c, m in cands:
            if not any(c in self.mro(c2) and c2 != c for c2, _ in cands):
                return c, m
        return cands[0]

    def params(self, m):
        return [p for p in m.get("inner", []) if p.get("kind") == "ParmVarDecl"]

    def body(self, m):
        return next(x for x in m["inner"] if x.get("kind") == "CompoundStmt")


def _sig(q):
    return q.replace("const ", "").replace(" ", "")


class Cxx:
    def __init__(self, ctx, prog, contracts=None, inline_depth=40):
        self.ctx, self.prog = ctx, prog
        self.contracts = contracts or {}
        self.frames = []
        self.frame_no = 0
        self.this = None
        self.inline_depth = inline_depth
        self.calls = set()

    # ------------------------------------------------------------ calling
    def field(self, obj, name):
        """location of a field by qualified or simple name"""
        if "::" in name:
            return ("f", obj.name, name)
        for c in self.prog.mro(obj.cls):
            q = f"{c}::{name}"
            if q in self.prog.fieldname.values():
                return ("f", obj.name, q)
        raise KeyError(name)

    def call_method(self, obj, name, args, sig=None, static_cls=None):
        r = self.prog.resolve(static_cls or obj.cls, name, sig)
        if r is None:
            raise Unsupported(f"no body for {obj.cls}::{name}")
        return self.invoke(r[0], r[1], obj, args)

    def invoke(self, cls, m, obj, args):
        if len(self.frames) > self.inline_depth:
            raise Unsupported(f"recursion too deep in {m['name']}")
        self.calls.add(f"{cls}::{m['name']}" if cls else m["name"])
        self.frame_no += 1
        fid = self.frame_no
        self.frames.append((fid, obj))
        oldthis, self.this = self.this, obj
        try:
            ps = self.prog.params(m)
            for i, p in enumerate(ps):
                if i < len(args):
                    val = args[i]
                else:
                    ini = p.get("inner")
                    d = m
                    while not ini and d.get("previousDecl") in self.prog.decl:
                        d = self.prog.decl[d["previousDecl"]]
                        ini = self.prog.params(d)[i].get("inner")
                    if not ini:
                        raise Unsupported("missing argument")
                    val = self.rv(ini[-1])
                loc = ("l", fid, p["id"])
                q = p["type"]["qualType"]
                if not q.rstrip().endswith("&") and isinstance(val, Ref):
                    val = self.load(val.lv)
                if isintq(q):
                    self.ctx.inttyped.add(loc)
                self.ctx.store[loc] = val
            out = None
            for x in m.get("inner", []):
                if x.get("kind") == "CXXCtorInitializer":
                    self.ctor_init(x, obj, cls)
            out = self.stmt(self.prog.body(m))
            ret = out[1] if isinstance(out, tuple) else None
            if out in ("break", "continue"):
                raise Unsupported("stray " + out)
            return ret
        finally:
            self.frames.pop()
            self.this = oldthis
            for k in [k for k in self.ctx.store if k[0] == "l" and k[1] == fid]:
                del self.ctx.store[k]

    def ctor_init(self, x, obj, cls):
        if "anyInit" in x:
            f = x["anyInit"]
            nm = self.prog.fieldname.get(f["id"])
            if x.get("inner"):
                n0 = x["inner"][0]
                if n0.get("kind") in ("CXXDefaultInitExpr",):
                    n0 = self.prog.decl[f["id"]]["inner"][-1]
                self.ctx.store[("f", obj.name, nm)] = self.rv(n0)
            return
        if "baseInit" in x:
            n0 = x["inner"][0]
            while n0.get("kind") in ("ExprWithCleanups",):
                n0 = n0["inner"][0]
            if n0.get("kind") == "CXXConstructExpr":
                base = x["baseInit"]["qualType"].replace("class ", "")
                args = [self.argval(a) for a in n0.get("inner", []) if a["kind"] != "CXXDefaultArgExpr"]
                ctors = [m for m in self.prog.methods.get((base, base), []) if m["kind"] == "CXXConstructorDecl" and len(self.prog.params(m)) == len(n0.get("inner", []))]
                c = self.contracts.get(f"{base}::{base}")
                if c and args:
                    c(self, obj, args)
                elif ctors:
                    if len(ctors) != 1:
                        raise Unsupported("overloaded constructor of " + base)
                    self.invoke(base, ctors[0], obj, args)
            return

    # ------------------------------------------------------------ locations
    def load(self, lv):
        if lv[0] == "loc":
            v = self.ctx.store.get(lv[1])
            if v is None:
                raise Unsupported(f"unset variable {lv[1]}")
            if isinstance(v, Poison):
                raise Unsupported(v.why)
            if isinstance(v, Uninit):
                self.ctx.obls.append(((self.ctx.label, f"variable {v.name} initialised before use", self.ctx.where), "refuted", {})) if not self.ctx.muted else None
                if self.ctx.muted:
                    raise Unsupported("uninitialised variable")
                raise Refuted("uninit")
            return v
        if lv[0] == "elem":
            return self.ctx.read(lv[1], lv[2])
        if lv[0] == "table":
            return lv[1].d[lv[2]]
        if lv[0] == "vecitem":
            return self.vecitem(lv[1], lv[2])
        raise Unsupported(str(lv))

    def store_lv(self, lv, val, q=""):
        if lv[0] == "loc":
            self.ctx.store[lv[1]] = val
        elif lv[0] == "elem":
            self.ctx.write(lv[1], lv[2], val)
        else:
            raise Unsupported(f"store to {lv[0]}")

    def vecitem(self, vec, idx):
        for i, o in reversed(vec.items):
            if self.ctx.known(Eq(i, idx)) is True:
                return o
        raise Unsupported("registry item")

    def lv(self, n):
        k = n["kind"]
        if k in ("ParenExpr", "ExprWithCleanups", "ConstantExpr"):
            return self.lv(n["inner"][0])
        if k == "ImplicitCastExpr" and n.get("castKind") in ("NoOp", "UncheckedDerivedToBase", "DerivedToBase"):
            return self.lv(n["inner"][0])
        if k == "DeclRefExpr":
            d = n["referencedDecl"]
            if d["kind"] in ("VarDecl", "ParmVarDecl"):
                for fid, _ in reversed(self.frames[-1:]):
                    loc = ("l", fid, d["id"])
                    if loc in self.ctx.store:
                        v = self.ctx.store[loc]
                        if isinstance(v, Ref):
                            return v.lv
                        return ("loc", loc)
                nm = self.prog.fieldname.get(d["id"], d.get("name"))
                return ("loc", ("g", nm))
            raise Unsupported("DeclRef " + d["kind"])
        if k == "MemberExpr":
            did = n["referencedMemberDecl"]
            nm = self.prog.fieldname.get(did)
            if nm is None:
                raise Unsupported("member " + str(n.get("name")))
            dd = self.prog.decl.get(did, {})
            if dd.get("kind") == "VarDecl":
                return ("loc", ("g", nm))
            o = self.rv(n["inner"][0]) if n["inner"][0]["kind"] != "CXXThisExpr" else self.this
            if not isinstance(o, Obj):
                raise Unsupported("member of non-object")
            return ("loc", ("f", o.name, nm))
        if k == "ArraySubscriptExpr":
            b, i = n["inner"]
            p = self.rv(b)
            idx = self.rv(i)
            if isinstance(p, Table):
                c = t(idx).iconst()
                if c is None or c not in p.d:
                    self.fail(f"pointer table index {idx}")
                return ("table", p, c)
            if isinstance(p, LocPtr):
                if t(idx).iconst() != 0:
                    self.fail("scalar out-parameter indexed beyond 0")
                return ("loc", p.loc)
            if not isinstance(p, Ptr):
                raise Unsupported("subscript of " + type(p).__name__)
            return ("elem", p, t(idx))
        if k == "UnaryOperator" and n["opcode"] == "*":
            p = self.rv(n["inner"][0])
            if isinstance(p, LocPtr):
                return ("loc", p.loc)
            if isinstance(p, Ptr):
                return ("elem", p, t(0))
            if isinstance(p, Obj):
                raise Unsupported("*object")
            raise Unsupported("deref")
        if k == "UnaryOperator" and n["opcode"] in ("++", "--") and not n.get("isPostfix"):
            self.rv(n)
            return self.lv(n["inner"][0])
        if k in ("BinaryOperator", "CompoundAssignOperator") and n["opcode"].endswith("="):
            self.rv(n)
            return self.lv(n["inner"][0])
        if k == "CXXOperatorCallExpr":
            return self.opcall(n, lvalue=True)
        if k == "CXXMemberCallExpr":
            v = self.rv(n)
            if isinstance(v, Ref):
                return v.lv
            raise Unsupported("call as lvalue")
        if k == "MaterializeTemporaryExpr":
            v = self.rv(n["inner"][0])
            loc = ("l", self.frames[-1][0], fresh_name("tmp"))
            self.ctx.store[loc] = v
            return ("loc", loc)
        if k in ("CallExpr", "ConditionalOperator"):
            v = self.rv(n)
            if isinstance(v, Ref):
                return v.lv
            loc = ("l", self.frames[-1][0], fresh_name("tmp"))
            self.ctx.store[loc] = v
            return ("loc", loc)
        raise Unsupported("lvalue " + k)

    def fail(self, what):
        if self.ctx.muted:
            raise Unsupported(what)
        self.ctx.obls.append(((self.ctx.label, what, self.ctx.where), "refuted", {}))
        raise Refuted(what)

    # ------------------------------------------------------------ expressions
    def argval(self, n):
        """argument: lvalue reference when the parameter is a non-const reference (glvalue node)"""
        if n.get("valueCategory") == "lvalue":
            return Ref(self.lv(n))
        if n["kind"] == "MaterializeTemporaryExpr":
            return self.rv(n["inner"][0])
        return self.rv(n)

    def rv(self, n):
        k = n["kind"]
        m = getattr(self, "x_" + k, None)
        if m is None:
            raise Unsupported("expression " + k)
        return m(n)

    def x_ParenExpr(self, n):
        return self.rv(n["inner"][0])

    x_ExprWithCleanups = x_ConstantExpr = x_MaterializeTemporaryExpr = x_CXXBindTemporaryExpr = x_ParenExpr

    def x_SubstNonTypeTemplateParmExpr(self, n):
        return self.rv(n["inner"][-1])

    def x_IntegerLiteral(self, n):
        return t(int(n["value"]))

    def x_FloatingLiteral(self, n):
        return t(Fraction(n["value"])) if "e" not in n["value"].lower() else self.fl(n["value"])

    def fl(self, s):
        f = float(s)
        if f == sys.float_info.max:
            return DBLMAX
        return t(Fraction(s))

    def x_CXXBoolLiteralExpr(self, n):
        return TRUE if n["value"] else FALSE

    def x_CXXNullPtrLiteralExpr(self, n):
        return Null()

    def x_GNUNullExpr(self, n):
        return Null()

    def x_StringLiteral(self, n):
        return "str"

    def x_CXXThisExpr(self, n):
        return self.this

    def x_CXXDefaultArgExpr(self, n):
        raise Unsupported("default argument")

    def x_UnaryExprOrTypeTraitExpr(self, n):
        q = n.get("argType", {}).get("qualType")
        if q is None:
            q = n["inner"][0]["type"]["qualType"]
        q = q.replace("const ", "")
        if q not in SIZEOF:
            raise Unsupported("sizeof " + q)
        return t(SIZEOF[q])

    def x_DeclRefExpr(self, n):
        d = n["referencedDecl"]
        if d["kind"] in ("FunctionDecl", "CXXMethodDecl"):
            return ("func", d)
        return self.load(self.lv(n))

    def x_MemberExpr(self, n):
        return self.load(self.lv(n))

    def x_ArraySubscriptExpr(self, n):
        return self.load(self.lv(n))

    def x_ImplicitCastExpr(self, n):
        ck = n.get("castKind")
        sub = n["inner"][0]
        if ck == "LValueToRValue":
            return self.load(self.lv(sub))
        if ck in ("NoOp", "ArrayToPointerDecay", "FunctionToPointerDecay", "BitCast", "UncheckedDerivedToBase", "DerivedToBase", "BuiltinFnToFnPtr", "ConstructorConversion", "UserDefinedConversion", "ToVoid"):
            v = self.rv(sub)
            if ck == "BitCast" and isinstance(v, RawMem):
                return self.alloc(v, n["type"]["qualType"])
            return v
        if ck == "IntegralToFloating":
            return self.num(self.rv(sub))
        if ck == "FloatingCast":
            return self.rv(sub)
        if ck == "IntegralCast":
            return self.num(self.rv(sub))
        if ck == "FloatingToIntegral":
            x = self.rv(sub)
            return self.toint(x)
        if ck in ("IntegralToBoolean", "FloatingToBoolean"):
            x = self.rv(sub)
            return x if isinstance(x, F) else Ne(x, 0)
        if ck == "PointerToBoolean":
            x = self.rv(sub)
            return FALSE if isinstance(x, Null) else TRUE
        if ck == "NullToPointer":
            return Null()
        raise Unsupported("cast " + str(ck))

    def toint(self, x):
        x = self.num(x)
        if isint(x):
            return x
        c = x.const()
        if c is not None:
            return t(int(c))
        if prove(self.ctx.pc, Ge(x, 0)):
            return simp_floor(x)
        if self.ctx.discover:
            return app("TOINT", x, sort="Int")
        raise Unsupported("float to int")

    x_CStyleCastExpr = x_CXXStaticCastExpr = x_CXXReinterpretCastExpr = x_CXXFunctionalCastExpr = x_CXXConstCastExpr = x_ImplicitCastExpr

    def alloc(self, raw, q):
        el = q.replace("const ", "").replace("*", "").strip()
        if el not in SIZEOF:
            raise Unsupported("malloc as " + q)
        size = raw.bytes / SIZEOF[el]
        self.nonneg(size, "allocation size")
        if raw.zero:
            base = lambda i: t(0)
        else:
            base = None
        return Ptr(self.ctx.new_array(size, base, "heap", "Int" if el == "int" else "Real"))

    def nonneg(self, size, what):
        self.ctx.oblige(what + " non-negative", Ge(size, 0)) if not prove(self.ctx.pc, Ge(size, 0)) and not self.prodpos(size) else None

    def prodpos(self, s):
        """product of provably non-negative factors"""
        if s.d is P1 and len(s.n) == 1:
            (m, c), = s.n.items()
            return c > 0 and all(prove(self.ctx.pc, Ge(t(atom(a)), 0)) for a, _ in m)
        for st in self.ctx.strides_of(s):
            for q, r in pdiv(s, st):
                if r.const() == 0 and prove(self.ctx.pc, Ge(st, 0)) and prove(self.ctx.pc, Ge(q, 0)):
                    return True
        return False

    def num(self, x):
        if isinstance(x, F):
            return ite(x, 1, 0)
        if isinstance(x, Poison):
            raise Unsupported(x.why)
        if not isinstance(x, T):
            raise Unsupported(f"number expected, got {type(x).__name__}")
        return x

    def boolean(self, x):
        if isinstance(x, F):
            return x
        if isinstance(x, T):
            return Ne(x, 0)
        if isinstance(x, (Ptr, Obj)):
            return TRUE
        if isinstance(x, Null):
            return FALSE
        raise Unsupported("bool expected")

    def x_UnaryOperator(self, n):
        op = n["opcode"]
        sub = n["inner"][0]
        if op == "-":
            return -self.num(self.rv(sub))
        if op == "+":
            return self.num(self.rv(sub))
        if op == "!":
            return Not(self.boolean(self.rv(sub)))
        if op == "*":
            return self.load(self.lv(n))
        if op == "&":
            if sub["kind"] == "DeclRefExpr" and sub["referencedDecl"]["kind"] in ("FunctionDecl", "CXXMethodDecl"):
                return ("func", sub["referencedDecl"])
            l = self.lv(sub)
            if l[0] == "loc":
                v = self.ctx.store.get(l[1])
                return LocPtr(l[1])
            if l[0] == "elem":
                return Ptr(l[1].arr, l[1].off + l[2])
            raise Unsupported("address-of")
        if op in ("++", "--"):
            l = self.lv(sub)
            old = self.load(l)
            d = 1 if op == "++" else -1
            new = Ptr(old.arr, old.off + d) if isinstance(old, Ptr) else self.num(old) + d
            self.store_lv(l, new)
            return old if n.get("isPostfix") else new
        raise Unsupported("unary " + op)

    def x_BinaryOperator(self, n):
        op = n["opcode"]
        a, b = n["inner"]
        if op == "=":
            val = self.rv(b)
            l = self.lv(a)
            val = self.coerce(val, n["type"]["qualType"])
            self.store_lv(l, val)
            return val
        if op == ",":
            self.rv(a)
            return self.rv(b)
        if op == "&&":
            x = self.boolean(self.rv(a))
            if x.op == "false":
                return FALSE
            if not self.pure(b):
                return self.boolean(self.rv(b)) if self.ctx.branch(x) else FALSE
            k = self.ctx.known(x)
            if k is True:
                return self.boolean(self.rv(b))
            if k is False:
                return FALSE
            if self.reads_memory(b):
                return self.boolean(self.rv(b)) if self.ctx.branch(x) else FALSE
            return And(x, self.boolean(self.rv(b)))
        if op == "||":
            x = self.boolean(self.rv(a))
            k = self.ctx.known(x)
            if k is True:
                return TRUE
            if k is False:
                return self.boolean(self.rv(b))
            if not self.pure(b) or self.reads_memory(b):
                return TRUE if self.ctx.branch(x) else self.boolean(self.rv(b))
            return Or(x, self.boolean(self.rv(b)))
        x, y = self.rv(a), self.rv(b)
        return self.binop(op, x, y, n)

    def pure(self, n):
        if n.get("kind") in ("CallExpr", "CXXMemberCallExpr", "CompoundAssignOperator", "CXXOperatorCallExpr"):
            return False
        if n.get("kind") == "UnaryOperator" and n["opcode"] in ("++", "--"):
            return False
        if n.get("kind") == "BinaryOperator" and n["opcode"] == "=":
            return False
        return all(self.pure(c) for c in n.get("inner", []) if isinstance(c, dict))

    def reads_memory(self, n):
        if n.get("kind") == "ArraySubscriptExpr" or (n.get("kind") == "UnaryOperator" and n["opcode"] == "*"):
            return True
        return any(self.reads_memory(c) for c in n.get("inner", []) if isinstance(c, dict))

    def coerce(self, val, q):
        q = q.replace("const ", "").strip()
        if q in ("int", "long", "unsigned int", "unsigned long", "size_t", "double", "float") and isinstance(val, F):
            return ite(val, 1, 0)
        if q == "bool" and isinstance(val, T):
            return Ne(val, 0)
        return val

    def binop(self, op, x, y, n):
        q = n["type"]["qualType"]
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            if op == "+":
                if isinstance(x, Ptr):
                    return Ptr(x.arr, x.off + self.num(y))
                return Ptr(y.arr, y.off + self.num(x))
            if op == "-" and isinstance(x, Ptr):
                if isinstance(y, Ptr):
                    if x.arr != y.arr:
                        raise Unsupported("pointer difference")
                    return x.off - y.off
                return Ptr(x.arr, x.off - self.num(y))
            if isinstance(x, Ptr) and isinstance(y, Ptr) and x.arr == y.arr and op in ("<", "<=", ">", ">=", "==", "!="):
                x, y = x.off, y.off
            elif isinstance(x, Null) or isinstance(y, Null):
                if op in ("==", "!="):
                    return FALSE if op == "==" else TRUE
                raise Unsupported("null compare")
            else:
                raise Unsupported("pointer op " + op)
        if op in ("==", "!=") and isinstance(x, F) and isinstance(y, F):
            e = Or(And(x, y), And(Not(x), Not(y)))
            return e if op == "==" else Not(e)
        if op in ("&", "|", "^") and (isinstance(x, F) or isinstance(y, F)):
            x, y = self.boolean(x), self.boolean(y)
            if op == "&":
                return And(x, y)
            if op == "|":
                return Or(x, y)
            return Or(And(x, Not(y)), And(Not(x), y))
        if x is DBLMAX or y is DBLMAX:
            if op in ("==", "!="):
                same = x is y
                return TRUE if same == (op == "==") else FALSE
            raise Unsupported("DBL_MAX arithmetic")
        x, y = self.num(x), self.num(y)
        if op == "+":
            return x + y
        if op == "-":
            return x - y
        if op == "*":
            return x * y
        if op == "/":
            if isintq(q):
                c = y.iconst()
                z = x / y if c else None
                if z is not None and isint(z):
                    return z
                if prove(self.ctx.pc, And(Ge(x, 0), Gt(y, 0))):
                    return simp_div(x, y)
                if self.ctx.discover:
                    return app("DIVQ", x, y, sort="Int")
                raise Unsupported("int division of possibly negative values")
            if y.const() == 0:
                raise Unsupported("division by zero")
            if y.const() is None and not isint_nonzero(self.ctx, y):
                self.ctx.divs = getattr(self.ctx, "divs", set())
                self.ctx.divs.add(y)
            return x / y
        if op == "%":
            if prove(self.ctx.pc, And(Ge(x, 0), Gt(y, 0))):
                return simp_mod(x, y)
            if self.ctx.discover:
                return app("MODQ", x, y, sort="Int")
            raise Unsupported("% of possibly negative values")
        if op == "<<":
            c = y.iconst()
            if c is not None:
                return x * (2 ** c)
        if op == "&" and y.iconst() == 1 and prove(self.ctx.pc, Ge(x, 0)):
            return simp_mod(x, t(2))
        if op == ">>" and y.iconst() is not None and prove(self.ctx.pc, Ge(x, 0)):
            return simp_div(x, t(2 ** y.iconst()))
        if op == "<":
            return Lt(x, y)
        if op == "<=":
            return Le(x, y)
        if op == ">":
            return Gt(x, y)
        if op == ">=":
            return Ge(x, y)
        if op == "==":
            return Eq(x, y)
        if op == "!=":
            return Ne(x, y)
        raise Unsupported("operator " + op)

    def x_CompoundAssignOperator(self, n):
        op = n["opcode"][:-1]
        a, b = n["inner"]
        y = self.rv(b)
        l = self.lv(a)
        x = self.load(l)
        r = self.binop(op, x, y, {"type": n.get("computeResultType", n["type"])})
        q = n["type"]["qualType"]
        if isintq(q) and isinstance(r, T):
            r = self.toint(r)
        r = self.coerce(r, q)
        self.store_lv(l, r)
        return r

    def x_ConditionalOperator(self, n):
        c, a, b = n["inner"]
        f = self.boolean(self.rv(c))
        k = self.ctx.known(f)
        if k is True:
            return self.rv(a)
        if k is False:
            return self.rv(b)
        if self.pure(a) and self.pure(b) and not self.reads_memory(a) and not self.reads_memory(b) and n["type"]["qualType"] in ("int", "double") and False:
            return ite(f, self.num(self.rv(a)), self.num(self.rv(b)))
        return self.rv(a) if self.ctx.branch(f) else self.rv(b)

    def x_CXXNewExpr(self, n):
        q = n["type"]["qualType"].replace("const ", "").replace("*", "").strip()
        if not n.get("isArray"):
            raise Unsupported("new of a scalar")
        kids = n.get("inner", [])
        size = self.num(self.rv(kids[0]))
        self.nonneg(size, "array length")
        zero = len(kids) > 1 and kids[1]["kind"] in ("ImplicitValueInitExpr", "InitListExpr", "CXXScalarValueInitExpr")
        base = (lambda i: t(0)) if zero else None
        return Ptr(self.ctx.new_array(size, base, "new", "Int" if q == "int" else "Real"))

    def x_CXXDeleteExpr(self, n):
        p = self.rv(n["inner"][0])
        if isinstance(p, Null):
            return None
        if isinstance(p, Ptr):
            if p.arr not in self.ctx.heap:
                self.fail("double delete")
            if p.off.const() != 0:
                self.fail("delete of an interior pointer")
            del self.ctx.heap[p.arr]
            return None
        raise Unsupported("delete")

    def x_CXXThrowExpr(self, n):
        raise Thrown()

    def x_ImplicitValueInitExpr(self, n):
        return t(0)

    x_CXXScalarValueInitExpr = x_ImplicitValueInitExpr

    def x_InitListExpr(self, n):
        kids = n.get("inner", [])
        q = n["type"]["qualType"]
        if not kids:
            return FALSE if q == "bool" else t(0)
        if len(kids) == 1:
            return self.rv(kids[0])
        raise Unsupported("init list")

    # calls
    def x_CallExpr(self, n):
        f = n["inner"][0]
        while f["kind"] in ("ImplicitCastExpr", "ParenExpr"):
            f = f["inner"][0]
        if f["kind"] == "DeclRefExpr":
            name = f["referencedDecl"]["name"]
            did = f["referencedDecl"]["id"]
        elif f["kind"] == "MemberExpr":
            return self.x_CXXMemberCallExpr(n)
        else:
            raise Unsupported("call through " + f["kind"])
        args = n["inner"][1:]
        if name in self.contracts:
            return self.contracts[name](self, None, [self.argval(a) for a in args])
        bi = getattr(self, "f_" + name, None)
        if bi is not None and name not in self.prog.funcs:
            return bi(n, args)
        m = self.prog.funcs.get(name)
        if m is None:
            for (c, nm), ms in self.prog.methods.items():
                if nm == name and any(x["id"] == did or x.get("previousDecl") == did for x in ms):
                    return self.invoke(c, ms[0], self.this, [self.argval(a) for a in args])
            raise Unsupported("call " + name)
        return self.invoke(None, m, None, [self.argval(a) for a in args])

    def m1(self, args):
        x = self.rv(args[0])
        return self.num(x)

    def f_pow(self, n, args):
        a, b = self.num(self.rv(args[0])), self.num(self.rv(args[1]))
        if isint(b):
            return power(a, b)
        c = b.const()
        return app("pow", a, b)

    def f_exp(self, n, args):
        return mexp(self.m1(args))

    def f_tanh(self, n, args):
        return mtanh(self.m1(args))

    def f_sin(self, n, args):
        return msin(self.m1(args))

    def f_cos(self, n, args):
        return mcos(self.m1(args))

    def f_ceil(self, n, args):
        return simp_ceil(self.m1(args))

    def f_floor(self, n, args):
        return simp_floor(self.m1(args))

    def f_fabs(self, n, args):
        x = self.m1(args)
        return ite(Ge(x, 0), x, -x)

    f_abs = f_fabs

    def f_max(self, n, args):
        a, b = self.num(self.rv_arg(args[0])), self.num(self.rv_arg(args[1]))
        return ite(Lt(a, b), b, a)

    def f_min(self, n, args):
        a, b = self.num(self.rv_arg(args[0])), self.num(self.rv_arg(args[1]))
        return ite(Lt(b, a), b, a)

    def f_fmax(self, n, args):
        return self.f_max(n, args)

    def f_fmin(self, n, args):
        return self.f_min(n, args)

    def rv_arg(self, n):
        v = self.argval(n)
        return self.load(v.lv) if isinstance(v, Ref) else v

    def f_sqrt(self, n, args):
        return app("sqrt", self.m1(args))

    def f_rand(self, n, args):
        x = fresh("rand")
        self.ctx.assume(And(Ge(x, 0), Le(x, 2147483647)))
        return x

    def f_printf(self, n, args):
        return t(0)

    f_fprintf = f_printf

    def f_exit(self, n, args):
        raise Exited()

    def f_malloc(self, n, args):
        return RawMem(self.num(self.rv(args[0])))

    def f_calloc(self, n, args):
        return RawMem(self.num(self.rv(args[0])) * self.num(self.rv(args[1])), True)

    def f_free(self, n, args):
        p = self.rv(args[0])
        if isinstance(p, Ptr) and p.arr in self.ctx.heap:
            del self.ctx.heap[p.arr]
            return None
        self.fail("free")

    def f_PyCapsule_New(self, n, args):
        f = self.rv(args[0])
        return ("capsule", f)

    def elemsize(self, node):
        while node["kind"] in ("ImplicitCastExpr", "ParenExpr") and "void" in node["type"]["qualType"]:
            node = node["inner"][0]
        q = node["type"]["qualType"].replace("const ", "").replace("*", "").replace("&", "").strip()
        if q not in SIZEOF:
            raise Unsupported("memcpy of " + q)
        return SIZEOF[q]

    def f_memcpy(self, n, args):
        d, s = self.rv(args[0]), self.rv(args[1])
        bytes_ = self.num(self.rv(args[2]))
        es = self.elemsize(args[0])
        if not (isinstance(d, Ptr) and isinstance(s, Ptr)):
            raise Unsupported("memcpy operands")
        self.copy(d, s, bytes_ / es)
        return d

    def f_copy(self, n, args):
        a, b, c = [self.rv(x) for x in args]
        self.copy(c, a, b.off - a.off)
        return c

    def f_copy_n(self, n, args):
        a, k, c = [self.rv(x) for x in args]
        self.copy(c, a, self.num(k))
        return c

    def f_memset(self, n, args):
        d, v, b = [self.rv(x) for x in args]
        if t(v).const() != 0:
            raise Unsupported("memset")
        self.fill(d, self.num(b) / self.elemsize(args[0]), t(0))
        return d

    def f_fill_n(self, n, args):
        d, k = self.rv(args[0]), self.num(self.rv(args[1]))
        self.fill(d, k, self.num(self.rv_arg(args[2])))
        return d

    def f_fill(self, n, args):
        a, b = self.rv(args[0]), self.rv(args[1])
        self.fill(a, b.off - a.off, self.num(self.rv_arg(args[2])))

    def fill(self, d, count, val):
        arr = self.ctx.heap[d.arr]
        self.span(arr, d.off, count, "write")
        p = fresh("p")
        self.ctx.addlayer(d.arr, Layer(((single_atom(p).id, count),), TRUE, d.off + p, val))

    def span(self, arr, off, count, what):
        if self.ctx.muted:
            return
        if prove(self.ctx.pc, Le(count, 0)):
            return
        if off.const() == 0 and count == arr.size:
            return self.ctx.oblige(f"block {what} of {arr.name} in bounds", TRUE)
        self.ctx.oblige(f"block {what} of {arr.name} in bounds", Or(Le(count, 0), And(Ge(off, 0), Le(off + count, arr.size))))

    def copy(self, d, s, count):
        ctx = self.ctx
        D, S = ctx.heap.get(d.arr), ctx.heap.get(s.arr)
        if D is None or S is None:
            self.fail("copy of freed memory")
        self.span(D, d.off, count, "write")
        self.span(S, s.off, count, "read")
        if d.off.const() == 0 and s.off.const() == 0 and count == D.size:
            ctx.heap[d.arr] = Arr(D.size, S.layers, S.base, D.name, D.elem)
            return
        p = fresh("p")
        pa = single_atom(p).id
        save = ctx.snap()

        def go():
            ctx.assume(Ge(p, 0))
            ctx.assume(Lt(p, count))
            return ctx.lookup(S, s.off + p)

        res = ctx.explore(go)
        for gs, v, st in res:
            ctx.addlayer(d.arr, Layer(((pa, count),), And(*gs), d.off + p, v))

    def x_CXXMemberCallExpr(self, n):
        me = n["inner"][0]
        while me["kind"] in ("ImplicitCastExpr", "ParenExpr"):
            me = me["inner"][0]
        args = n["inner"][1:]
        did = me.get("referencedMemberDecl")
        decl = self.prog.decl.get(did)
        name = me["name"]
        on = me["inner"][0]
        tq = on["type"]["qualType"]
        if decl is None or "vector" in tq or "unique_ptr" in tq:
            return self.libcall(name, on, args)
        if on["kind"] == "CXXThisExpr" or (on["kind"] == "ImplicitCastExpr" and on["inner"][0]["kind"] == "CXXThisExpr"):
            obj = self.this
        else:
            obj = self.rv(on)
        if not isinstance(obj, Obj):
            raise Unsupported("method of non-object")
        vals = [self.argval(a) for a in args]
        c = self.contracts.get(name)
        if c is not None:
            r = c(self, obj, vals, decl) if c.__code__.co_argcount == 4 else c(self, obj, vals)
            if r is not NotImplemented:
                return r
        # qualified call Base::f(): non-virtual
        rg = me.get("range", {})
        b0, e0 = rg.get("begin", {}).get("offset"), rg.get("end", {}).get("offset")
        start = obj.cls
        if on.get("implicit") or on["kind"] == "CXXThisExpr" or (on["kind"] == "ImplicitCastExpr" and on["inner"][0].get("implicit")):
            if b0 is not None and e0 is not None and b0 != e0:
                start = self.prog.declcls.get(did) or obj.cls
        r = self.prog.resolve(start, name, decl["type"]["qualType"])
        if r is None:
            raise Unsupported(f"no body for {name}")
        return self.invoke(r[0], r[1], obj, vals)

    # std::vector / unique_ptr
    def libcall(self, name, on, args):
        l = self.lv(on)
        v = self.load(l)
        if isinstance(v, VecVal):
            if name == "push_back":
                o = self.rv_arg(args[0])
                self.ctx.store[l[1]] = VecVal(v.size + 1, v.items + ((v.size, o),))
                return None
            if name == "size":
                return v.size
            if name == "at":
                return self.vecitem(v, self.num(self.rv(args[0])))
            if name == "back":
                return self.vecitem(v, v.size - 1)
            raise Unsupported("registry " + name)
        if isinstance(v, Ptr):
            if name in ("data", "begin", "get"):
                return v
            if name == "size":
                return self.ctx.heap[v.arr].size
            if name == "end":
                return Ptr(v.arr, self.ctx.heap[v.arr].size)
            if name == "at":
                return Ref(("elem", v, self.num(self.rv(args[0]))))
        raise Unsupported("library call " + name)

    def opcall(self, n, lvalue=False):
        args = n["inner"][1:]
        f = n["inner"][0]
        while f["kind"] == "ImplicitCastExpr":
            f = f["inner"][0]
        name = f["referencedDecl"]["name"]
        if name == "operator[]":
            v = self.load(self.lv(args[0]))
            idx = self.num(self.rv(args[1]))
            if isinstance(v, VecVal):
                return ("vecitem", v, idx)
            if isinstance(v, Ptr):
                return ("elem", v, idx)
        raise Unsupported(name)

    def x_CXXOperatorCallExpr(self, n):
        return self.load(self.opcall(n))

    def x_CXXConstructExpr(self, n):
        q = n["type"]["qualType"]
        kids = n.get("inner", [])
        el = q.split("<")[-1].split(">")[0].replace("[]", "").strip() if "<" in q else None
        if "vector<" in q:
            if len(kids) >= 1 and "vector<" in kids[0]["type"]["qualType"]:
                src = kids[0]
                while src["kind"] in ("ImplicitCastExpr", "ParenExpr"):
                    src = src["inner"][0]
                v = self.rv(kids[0])
                if src.get("valueCategory") != "lvalue" or not isinstance(v, Ptr):
                    return v
                old = self.ctx.heap[v.arr]
                p = Ptr(self.ctx.new_array(old.size, None, "vec", old.elem))
                self.copy(p, v, old.size)
                return p
            if el not in SIZEOF:
                raise Unsupported(q)
            e = "Int" if el == "int" else "Real"
            if not kids:
                return Ptr(self.ctx.new_array(t(0), lambda i: t(0), "vec", e))
            vals = [self.rv_arg(k) if k["kind"] != "CXXDefaultArgExpr" else None for k in kids]
            vals = [x for x in vals if x is not None]
            if isinstance(vals[0], Ptr):
                cnt = vals[1].off - vals[0].off
                p = Ptr(self.ctx.new_array(cnt, None, "vec", e))
                self.copy(p, vals[0], cnt)
                return p
            init = vals[1] if len(vals) > 1 else (FALSE if el == "bool" else t(0))
            self.nonneg(self.num(vals[0]), "vector length")
            return Ptr(self.ctx.new_array(self.num(vals[0]), lambda i: init, "vec", e))
        if "unique_ptr<" in q and len(kids) == 1:
            return self.rv(kids[0])
        raise Unsupported("construct " + q)

    # ------------------------------------------------------------ statements
    def stmt(self, n):
        k = n.get("kind")
        if k is None:
            return None
        m = getattr(self, "s_" + k, None)
        ln = n.get("range", {}).get("begin", {}).get("line") or n.get("loc", {}).get("line")
        if ln:
            self.ctx.where = f"line {ln}"
        if m is not None:
            return m(n)
        self.rv(n)
        return None

    def s_CompoundStmt(self, n):
        outer, self.scope = getattr(self, "scope", None), []
        try:
            for c in n.get("inner", []):
                out = self.stmt(c)
                if out is not None:
                    self.endscope()
                    return out
            self.endscope()
            return None
        finally:
            self.scope = outer

    def endscope(self):
        """automatic storage (local arrays, vectors, smart pointers) is released when its block is left"""
        for a in reversed(self.scope):
            if a not in self.ctx.heap:
                self.fail("automatic storage released twice")
            del self.ctx.heap[a]

    def s_NullStmt(self, n):
        return None

    def s_DeclStmt(self, n):
        for d in n.get("inner", []):
            if d["kind"] != "VarDecl":
                if d["kind"] in ("TypedefDecl", "UsingDecl", "StaticAssertDecl", "TypeAliasDecl"):
                    continue
                raise Unsupported("declaration " + d["kind"])
            loc = ("l", self.frames[-1][0], d["id"])
            q = d["type"]["qualType"]
            if isintq(q):
                self.ctx.inttyped.add(loc)
            if d.get("init"):
                ini = d["inner"][-1]
                if q.rstrip().endswith("&"):
                    self.ctx.store[loc] = self.argval(ini)
                else:
                    self.ctx.store[loc] = self.coerce(self.rv(ini), q)
                    self.automatic(loc, q)
            else:
                if "[" in q and "<" not in q:
                    el, _, cnt = q.partition("[")
                    c = cnt.rstrip("]")
                    if not c.isdigit():
                        raise Unsupported("array type " + q)
                    self.ctx.store[loc] = Ptr(self.ctx.new_array(t(int(c)), None, d["name"], "Int" if el.strip() == "int" else "Real"))
                    self.automatic(loc, q)
                else:
                    self.ctx.store[loc] = Uninit(d.get("name"), "Int" if isintq(q) else ("Bool" if q == "bool" else "Real"))
        return None

    def automatic(self, loc, q):
        v = self.ctx.store[loc]
        if isinstance(v, Ptr) and ("[" in q or "vector<" in q or "unique_ptr<" in q) and getattr(self, "scope", None) is not None:
            self.scope.append(v.arr)

    def s_IfStmt(self, n):
        kids = [c for c in n["inner"]]
        if n.get("hasInit") or n.get("hasVar"):
            raise Unsupported("if with initialiser")
        c = self.boolean(self.rv(kids[0]))
        if self.ctx.branch(c):
            return self.stmt(kids[1])
        if len(kids) > 2:
            return self.stmt(kids[2])
        return None

    def s_ReturnStmt(self, n):
        if n.get("inner"):
            return ("return", self.rv(n["inner"][0]))
        return ("return", None)

    def s_BreakStmt(self, n):
        return "break"

    def s_ContinueStmt(self, n):
        return "continue"

    def s_SwitchStmt(self, n):
        kids = n["inner"]
        x = self.num(self.rv(kids[0]))
        body = kids[-1]
        # flatten: sequence of (labels, stmts)
        seq = []

        def flat(s):
            if s["kind"] in ("CaseStmt", "DefaultStmt"):
                if s["kind"] == "CaseStmt":
                    seq.append(("case", s["inner"][0]))
                else:
                    seq.append(("default", None))
                flat(s["inner"][-1])
            else:
                seq.append(("stmt", s))

        for s in body.get("inner", []):
            flat(s)
        target = None
        for i, (k, e) in enumerate(seq):
            if k == "case":
                if self.ctx.branch(Eq(x, self.rv(e))):
                    target = i
                    break
        if target is None:
            for i, (k, e) in enumerate(seq):
                if k == "default":
                    target = i
        if target is None:
            return None
        for k, s in seq[target:]:
            if k == "stmt":
                out = self.stmt(s)
                if out == "break":
                    return None
                if out is not None:
                    return out
        return None

    def s_ForStmt(self, n):
        init, cvar, cond, inc, body = n["inner"]
        if init.get("kind"):
            self.stmt(init)
        return self.loop(cond if cond.get("kind") else None, inc if inc.get("kind") else None, body)

    def s_WhileStmt(self, n):
        return self.loop(n["inner"][0], None, n["inner"][-1])

    def s_DoStmt(self, n):
        out = self.stmt(n["inner"][0])
        if out == "break":
            return None
        if isinstance(out, tuple):
            return out
        return self.loop(n["inner"][1], None, n["inner"][0])

    def loop(self, cond, inc, body):
        ctx = self.ctx
        name = ctx.where
        cond, rest = split_cond(cond)

        def cf():
            return TRUE if cond is None else self.boolean(self.rv(cond))

        def step():
            # while (A && B) S  is  while (A) { if (!B) break; S }
            for r in rest:
                if not ctx.branch(self.boolean(self.rv(r))):
                    return "break"
            out = self.stmt(body)
            if out == "continue":
                out = None
            if out is None and inc is not None:
                self.rv(inc)
            return out

        # concrete prefix: conditions that are literally true/false
        entry = ctx.snap()
        for i in range(MAXUNROLL + 1):
            c = cf()
            if c.op == "false":
                return None
            if c.op != "true" or cond is None:
                break
            if i == MAXUNROLL:
                ctx.restore(entry)
                break
            out = step()
            if out == "break":
                return None
            if out is not None:
                return out
        self.hide_uninit()
        fr = list(self.frames)
        r = summarise(ctx, cf, step, f"{ctx.label} loop at {name}")
        return r

    def hide_uninit(self):
        """uninitialised scalars assigned inside the loop need a value of the right type to be havocked"""
        for loc, v in list(self.ctx.store.items()):
            if isinstance(v, Uninit):
                self.ctx.store[loc] = v.havoc()


class Uninit:
    __slots__ = ("name", "sort", "h")

    def __init__(self, name, sort):
        self.name, self.sort, self.h = name, sort, None

    def havoc(self):
        if self.h is None:
            n = fresh_name("undef_" + str(self.name))
            self.h = Pred(n) if self.sort == "Bool" else var(n, self.sort)
        return self.h


class Thrown(Exception):
    pass


class Exited(Exception):
    pass


class _DBLMAX:
    pass


DBLMAX = _DBLMAX()


def _bare(n):
    while n.get("kind") in ("ParenExpr", "ImplicitCastExpr", "ExprWithCleanups"):
        n = n["inner"][0]
    return n


def split_cond(cond):
    """loop condition A && B -> (counter comparison, remaining conjuncts)"""
    if cond is None:
        return None, []
    conj, todo = [], [cond]
    while todo:
        raw = todo.pop(0)
        c = _bare(raw)
        if c["kind"] == "BinaryOperator" and c.get("opcode") == "&&":
            todo = list(c["inner"]) + todo
        else:
            conj.append(raw)
    if len(conj) == 1:
        return cond, []
    for i, raw in enumerate(conj):
        c = _bare(raw)
        if c["kind"] == "BinaryOperator" and c.get("opcode") in ("<", "<=", ">", ">="):
            return c, conj[:i] + conj[i + 1:]
        if c["kind"] != "DeclRefExpr":
            break
    return cond, []


def isintq(q):
    q = q.replace("const ", "").replace("&", "").strip()
    return q in ("int", "long", "unsigned int", "unsigned long", "size_t", "long long", "short", "unsigned", "std::size_t")


def isint_nonzero(ctx, y):
    return prove(ctx.pc, Ne(y, 0)) is True


def _neglead(a):
    if not a.n:
        return False
    return a.n[max(a.n)] < 0


def mexp(a):
    a = t(a)
    if not a.n:
        return t(1)
    if _neglead(a):
        return t(1) / mexp(-a)
    return t(mkatom("app", "exp", (a,), "Real"))


def mtanh(a):
    a = t(a)
    if not a.n:
        return t(0)
    if _neglead(a):
        return -mtanh(-a)
    return t(mkatom("app", "tanh", (a,), "Real"))


def msin(a):
    a = t(a)
    if not a.n:
        return t(0)
    if _neglead(a):
        return -msin(-a)
    return t(mkatom("app", "sin", (a,), "Real"))


def mcos(a):
    a = t(a)
    if not a.n:
        return t(1)
    if _neglead(a):
        return mcos(-a)
    return t(mkatom("app", "cos", (a,), "Real"))


for _n, _f in (("exp", mexp), ("tanh", mtanh), ("sin", msin), ("cos", mcos)):
    terms.SIMP[_n] = _f
