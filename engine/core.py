"""Symbolic state, path exploration, array layers and loop summarisation.

The engine executes the real source (through a front end) on symbolic values.  Loops are never
unrolled over symbolic bounds: they are summarised exactly (closed forms, SUM/PROD accumulators,
array layers) or by an inductive invariant taken from the contract's vocabulary, whose initiation
and preservation become obligations.
"""
import time
import solver
import evalnum
from solver import check, decide, prove, isint
from terms import *
import terms


class Unsupported(Exception):
    """the code leaves the fragment the engine understands (tool limit, never a violation)"""


class Infeasible(Exception):
    pass


class Refuted(Exception):
    """an obligation failed; carries the obligation record"""


class Poison:
    __slots__ = ("why",)

    def __init__(self, why):
        self.why = why


class Ptr:
    __slots__ = ("arr", "off")

    def __init__(self, arr, off=0):
        self.arr = arr
        self.off = t(off)

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.arr == o.arr and self.off == o.off

    def __hash__(self):
        return hash((self.arr, self.off))

    def __repr__(self):
        return f"&{self.arr}+{self.off}"


class Layer:
    __slots__ = ("params", "guard", "addr", "value", "_fits", "tag")

    def __init__(self, params, guard, addr, value, tag=None):
        self.params = tuple(params)
        self.guard = guard
        self.addr = addr
        self.value = value
        self._fits = {}
        self.tag = tag

    def __repr__(self):
        return f"[{','.join(f'{atom(p).name}<{h}' for p, h in self.params)} | {self.guard} | {self.addr} -> {self.value}]"


class Arr:
    __slots__ = ("size", "layers", "base", "name", "elem")

    def __init__(self, size, layers, base, name, elem="Real"):
        self.size, self.layers, self.base, self.name, self.elem = size, layers, base, name, elem

    def push(self, layer):
        return Arr(self.size, self.layers + (layer,), self.base, self.name, self.elem)

    def with_layers(self, ls, base="same"):
        return Arr(self.size, tuple(ls), self.base if base == "same" else base, self.name, self.elem)


class Spec:
    """spec function definitions: name -> unfold(args) giving [(guard F or None, T)] (first match wins)"""

    def __init__(self):
        self.defs = {}

    def define(self, name, fn):
        self.defs[name] = fn


SPEC = Spec()


class Ctx:
    current = None

    def __init__(self, label=""):
        self.store = {}
        self.heap = {}
        self.pc = []
        self.guards = []
        self.trace = []
        self.pos = 0
        self.work = None
        self.obls = []
        self.label = label
        self.where = ""
        self.cands = []      # contract vocabulary: list of (name, fn(row, col, ctx) -> T)
        self.dims = {}
        self.loopdepth = 0
        self.deadline = None
        self.muted = 0
        self.discover = False
        self.shape = False
        self._eqcache = {}
        self.intpool = []
        self.inttyped = set()
        self.n_paths = 0
        Ctx.current = self

    # ---------------------------------------------------------------- state
    def snap(self):
        return (dict(self.store), dict(self.heap), list(self.pc), list(self.guards))

    def restore(self, s):
        self.store, self.heap, self.pc, self.guards = dict(s[0]), dict(s[1]), list(s[2]), list(s[3])

    def tick(self):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget exhausted")

    # ---------------------------------------------------------------- obligations
    def oblige(self, name, f):
        """record and check an obligation; a failed one aborts the path"""
        if self.muted:
            return
        key = (self.label, name, self.where)
        if f.op == "true" or prove(self.pc, f):
            self.obls.append((key, "proved", None))
            return
        if self.inrange_prove(f):
            self.obls.append((key, "proved", None))
            return
        r, model = solver.model_ints(self.pc, f, None)
        if r == "sat" and f.op == "eq" and evalnum.agree(f.args[0], t(0), model, SPEC.defs):
            w = evalnum.witness_eq(self.pc, f.args[0], t(0), model, SPEC.defs)
            r, model = ("sat", w) if w else ("unknown", model)
        if r == "sat" and f.op != "eq" and evalnum.has_binders([f] + list(self.pc)):
            # the solver knows only some facts about sums: ask for a concrete witness
            if evalnum.witness(self.pc, f, model, SPEC.defs) is None:
                r = "unknown"
        self.obls.append((key, "refuted" if r == "sat" else "unknown", {"formula": str(f), "pc": [str(p) for p in self.pc][-12:], "model": model}))
        raise Refuted(name)

    def oblige_eq(self, name, a, b):
        if self.muted:
            return
        key = (self.label, name, self.where)
        ok, info = self.prove_eq(a, b)
        if ok:
            self.obls.append((key, "proved", None))
            return
        self.obls.append((key, info["status"], {"lhs": str(a)[:800], "rhs": str(b)[:800], **info}))
        raise Refuted(name)

    def soft(self, name, ok):
        """obligation decided by matching against the specification's vocabulary: a mismatch is not a refutation"""
        if self.muted:
            return
        key = (self.label, name, self.where)
        self.obls.append((key, "proved" if ok else "unknown", None if ok else {"why": "not matched"}))
        if not ok:
            raise Refuted(name)

    def same(self, name, ok):
        """obligation decided by comparing values in the specification's vocabulary; a mismatch fails the obligation"""
        if self.muted:
            return
        self.obls.append(((self.label, name, self.where), "proved" if ok else "refuted", None if ok else {"why": "the value differs from the specified one"}))
        if not ok:
            raise Refuted(name)

    def inrange_prove(self, f):
        """0<=e & e<N style goals with non-linear N"""
        if f.op == "and":
            return all(prove(self.pc, g) or self.inrange_prove(g) for g in f.args)
        if f.op == "lt":   # e - N < 0
            return self._ltprove(f.args[0])
        if f.op == "le":
            return self._ltprove(f.args[0] - 1) if isint(f.args[0]) else False
        return False

    def _ltprove(self, d):
        """prove d < 0 where d = e - N: try d = s*q + r with q <= -1 and 0 <= r < s  (or q<=0, r<0 ...)"""
        for s in self.strides_of(d):
            for q, r in pdiv(d, s):
                if prove(self.pc, And(Le(q, -1), Lt(r, s), Gt(s, 0))):
                    return True
                if prove(self.pc, And(Le(q, 0), Lt(r, 0), Gt(s, 0))):
                    return True
                if prove(self.pc, And(Lt(r, s), Gt(s, 0))) and self._ltprove_q(q):
                    return True
        return False

    def _ltprove_q(self, q):
        """prove q <= -1"""
        if prove(self.pc, Le(q, -1)):
            return True
        for s in self.strides_of(q):
            for q2, r2 in pdiv(q, s):
                if prove(self.pc, And(Le(q2, -1), Lt(r2, s), Gt(s, 0))):
                    return True
                if prove(self.pc, And(Le(q2, 0), Lt(r2, 0), Gt(s, 0))):
                    return True
        return False

    def strides_of(self, d):
        """candidate strides (terms) in the non-linear monomials of d"""
        out = []
        seen = set()
        nl = [m for m in d.n if sum(e for _, e in m) >= 2]
        for m in nl:
            ats = [a for a, e in m]
            for a in ats:
                if a not in seen:
                    seen.add(a)
                    out.append(t(atom(a)))
        for s in self.known_strides():
            if s not in out:
                out.append(s)
        return out

    def known_strides(self):
        return getattr(self, "strides", [])

    def add_stride(self, s):
        if not hasattr(self, "strides"):
            self.strides = []
        if s.const() is None and single_atom(s) is None and s not in self.strides:
            self.strides.append(s)

    # ---------------------------------------------------------------- equality
    def pcsubst(self, x):
        """apply the equalities in pc (solved for a variable) to x"""
        key = tuple(f for f in self.pc if f.op == "eq")
        m = self._eqcache.get(key)
        if m is None:
            m = {}
            for f in key:
                e = f.args[0]
                if e.d is not P1:
                    continue
                if m:
                    e = subst(e, m)
                best = None
                for mm, c in e.n.items():
                    if len(mm) == 1 and mm[0][1] == 1 and atom(mm[0][0]).kind == "var" and abs(c) == 1:
                        a = mm[0][0]
                        rest = (t(atom(a)) * t(c) - e) / t(c)
                        if a in {y.id for y in closure_atoms(rest)}:
                            continue
                        pref = (rest.const() is None, -a)
                        if best is None or pref < best[0]:
                            best = (pref, a, rest)
                if best:
                    _, a, rest = best
                    m = {k: subst(v, {a: rest}) for k, v in m.items()}
                    m[a] = rest
            self._eqcache[key] = m
        return subst(x, m) if m else x

    def prove_eq(self, a, b, depth=0, pc=None):
        """(True, None) or (False, info)"""
        self.tick()
        save = self.pc
        if pc is not None:
            self.pc = pc
        try:
            return self._prove_eq(t(a), t(b), depth)
        finally:
            self.pc = save

    def _prove_eq(self, a, b, depth):
        if teq(a, b):
            return True, None
        a, b = self.pcsubst(a), self.pcsubst(b)
        if teq(a, b):
            return True, None
        if depth == 0 and prove(self.pc, Eq(a, b), 1500):
            return True, None
        # resolve ITE atoms by case splits
        for x in list((a - b).atoms()):
            at = atom(x)
            if at.name == "ITE" and at.kind == "app":
                c = at.args[0]
                ok = True
                for f, val in ((c, at.args[1]), (Not(c), at.args[2])):
                    pc2 = self.pc + [f]
                    if check(pc2) == "unsat":
                        continue
                    s = {x: val}
                    r, info = self.prove_eq(subst_top(a, s), subst_top(b, s), depth, pc2)
                    if not r:
                        return r, info
                return True, None
        # unfold spec atoms
        if depth < 8:
            d = a - b
            cands = []
            for x in d.atoms():
                at = atom(x)
                if at.kind == "app" and at.name in SPEC.defs:
                    cands.append(at)
            cands.sort(key=lambda at: self.specrank(at), reverse=True)
            for at in cands:
                cases = SPEC.defs[at.name](*at.args)
                if cases is None:
                    continue
                # only cases feasible under pc
                feas = []
                for g, v in cases:
                    if g is not None and check(self.pc + [g]) == "unsat":
                        continue
                    feas.append((g, v))
                    if g is None or prove(self.pc, g):
                        break
                for g, v in feas:
                    pc2 = self.pc if g is None else self.pc + [g]
                    s = {at.id: v}
                    r, info = self.prove_eq(subst_top(a, s), subst_top(b, s), depth + 1, pc2)
                    if not r:
                        return r, info
                return True, None
        # SUM/PROD bodies equal?
        na, nb = self.align_binders(a, b)
        if na is not a or nb is not b:
            if teq(na, nb):
                return True, None
            a, b = na, nb
        f = Eq(a, b)
        if prove(self.pc, f):
            return True, None
        if self.muted:
            return False, {"status": "unknown", "goal": f"{show(a)[:300]} == {show(b)[:300]}"}
        try:
            r, model = solver.model_ints(self.pc, f, None)
        except Exception as e:     # pragma: no cover
            r, model = "unknown", None
        # the solver's model may be spurious (sums, products and specification functions are uninterpreted to it):
        # it counts as a refutation only if the terms differ when evaluated
        if r == "sat" and evalnum.agree(a, b, model, SPEC.defs):
            w = evalnum.witness_eq(self.pc, a, b, model, SPEC.defs)
            r, model = ("sat", w) if w else ("unknown", model)
        return False, {"status": "refuted" if r == "sat" else "unknown", "model": model,
                       "goal": f"{show(a)[:600]} == {show(b)[:600]}", "pc": [str(p) for p in self.pc][-14:]}

    def specrank(self, at):
        k = at.args[1] if len(at.args) > 1 else at.args[0]
        if not isinstance(k, T):
            return (0, 0)
        c = k.n.get((), Fraction(0))
        nonc = 1 if k.const() is None else 0
        return (nonc, c)

    def align_binders(self, a, b):
        A = [atom(x) for x in a.atoms() if atom(x).kind == "bind"]
        B = [atom(x) for x in b.atoms() if atom(x).kind == "bind"]
        sub = {}
        for p in A:
            for q in B:
                if p is q or p.name != q.name:
                    continue
                if not (p.args[2] == q.args[2] or prove(self.pc, Eq(p.args[2], q.args[2]))):
                    continue
                u = fresh("u")
                ua = single_atom(u).id
                ba = subst(p.args[3], {single_atom(p.args[0]).id: u})
                bb = subst(q.args[3], {single_atom(q.args[0]).id: u})
                r, _ = self.prove_eq(ba, bb, 6, self.pc + [Ge(u, 0), Lt(u, p.args[2])])
                if r:
                    sub[p.id] = t(q)
                    break
        if sub:
            return subst_top(a, sub), b
        return a, b

    # ---------------------------------------------------------------- branching
    def assume(self, f):
        if f.op == "true":
            return
        if f.op == "false":
            raise Infeasible()
        for g in (f.args if f.op == "and" else (f,)):
            if g not in self.pc:
                self.pc.append(g)
                if g.op == "not" and g.args[0].op == "ex":
                    nb, lo, hi, b = g.args[0].args
                    for q in solver.INSTANCES:
                        self.assume(Or(Lt(q, lo), Ge(q, hi), Not(fsubst(b, {single_atom(nb).id: q}))))

    def inst(self, *qs):
        """instances of the universally quantified facts of the path at the given terms"""
        for g in list(self.pc):
            if g.op == "not" and g.args[0].op == "ex":
                nb, lo, hi, b = g.args[0].args
                for q in qs:
                    f = Or(Lt(q, lo), Ge(q, hi), Not(fsubst(b, {single_atom(nb).id: q})))
                    if f.op == "or":
                        f = Or(*[h for h in f.args if self.known(h) is not False])
                    self.assume(f)

    def known(self, f):
        """True/False/None"""
        if f.op == "true":
            return True
        if f.op == "false":
            return False
        if f in self.pc:
            return True
        if Not(f) in self.pc:
            return False
        return decide(self.pc, f)

    def branch(self, f):
        self.tick()
        if isinstance(f, Poison):
            raise Unsupported(f.why)
        k = self.known(f)
        if k is not None:
            return k
        if f.op == "and":
            f = And(*[g for g in f.args if self.known(g) is not True])
        if self.work is None:
            raise Unsupported("branch outside exploration")
        if self.pos < len(self.trace):
            r = self.trace[self.pos]
        else:
            r = True
            self.work.append(self.trace[: self.pos] + [False])
            self.trace.append(True)
        self.pos += 1
        g = f if r else Not(f)
        self.assume(g)
        self.guards.append(g)
        return r

    def explore(self, fn, limit=400):
        """run fn() along every feasible path from the current state; [(guards, outcome, snapshot)]"""
        start = self.snap()
        outer = (self.trace, self.pos, self.work)
        results = []
        work = [[]]
        g0 = len(start[3])
        n = 0
        try:
            while work:
                tr = work.pop()
                n += 1
                if n > limit:
                    raise Unsupported("too many paths")
                self.restore(start)
                self.trace, self.pos, self.work = list(tr), 0, work
                try:
                    out = fn()
                except Infeasible:
                    continue
                self.n_paths += 1
                results.append((self.guards[g0:], out, self.snap()))
        finally:
            self.trace, self.pos, self.work = outer
            self.restore(start)
        return results

    # ---------------------------------------------------------------- arrays
    def new_array(self, size, base, name, elem="Real"):
        aid = fresh_name(name)
        self.heap[aid] = Arr(t(size), (), base, name, elem)
        return aid

    def bounds(self, arr, idx, what):
        if self.muted or arr.size is None:
            return
        self.oblige(f"{what} of {arr.name} in bounds", And(Ge(idx, 0), Lt(idx, arr.size)))

    def read(self, ptr, idx):
        self.tick()
        if isinstance(ptr, Poison):
            raise Unsupported(ptr.why)
        arr = self.heap.get(ptr.arr)
        if arr is None:
            raise Unsupported(f"array {ptr.arr} freed or unknown")
        i = ptr.off + t(idx)
        self.bounds(arr, i, "read")
        return self.lookup(arr, i)

    def lookup(self, arr, i):
        cleared = None
        for n in range(len(arr.layers) - 1, -1, -1):
            layer = arr.layers[n]
            cond, sub = self.match(layer, i)
            if iscounter(layer.tag) and layer.tag != cleared and self.known(cond) is not True:
                # a cell is written by at most one iteration of a counter loop: decidable only at a
                # coordinate some path of that loop provably writes
                alts = [cond]
                for k in range(n - 1, -1, -1):
                    if arr.layers[k].tag != layer.tag:
                        break
                    alts.append(self.match(arr.layers[k], i)[0])
                if self.known(Or(*alts)) is not True:
                    raise Unsupported(f"read through a counter coordinate that is not provably written: {Or(*alts)} at {i}")
                cleared = layer.tag
            if self.branch(cond):
                v = layer.value
                if isinstance(v, Poison):
                    raise Unsupported(v.why)
                return self.norm(subst(v, sub) if isinstance(v, T) else fsubst(v, sub))
        if arr.base is None:
            key = (self.label, f"read of {arr.name} initialised", self.where)
            if not self.muted:
                if check(self.pc) == "unsat":
                    raise Infeasible()
                self.obls.append((key, "refuted", {"pc": [str(p) for p in self.pc][-12:], "formula": f"{arr.name}[{i}] never written"}))
                raise Refuted(key[1])
            return fresh("uninit", arr.elem)
        return arr.base(i)

    def norm(self, v):
        return v

    def write(self, ptr, idx, val):
        self.tick()
        arr = self.heap.get(ptr.arr)
        if arr is None:
            raise Unsupported(f"array {ptr.arr} freed or unknown")
        i = ptr.off + t(idx)
        self.bounds(arr, i, "write")
        self.heap[ptr.arr] = arr.push(Layer((), TRUE, i, val))

    def addlayer(self, aid, layer):
        self.heap[aid] = self.heap[aid].push(layer)

    # matching --------------------------------------------------------
    def match(self, layer, idx):
        """(cond, subst) such that layer writes idx iff cond, at params subst"""
        params = dict(layer.params)
        if not params:
            return And(layer.guard, self.eqaddr(layer.addr, idx)), {}
        addr = layer.addr
        simple, complexp = [], []
        for p in params:
            c = lincoeff(addr, p)
            (simple if c is not None else complexp).append((p, c))
        sub = {}
        conds = []
        if complexp:
            return self.match_complex(layer, idx, [p for p, _ in complexp])
        neg = {p: params[p] for p, c in simple if c.n and all(k < 0 for k in c.n.values())}
        if neg:
            # reverse descending parameters: p = hi - 1 - p'
            flip = {p: hi - 1 - t(atom(p)) for p, hi in neg.items()}
            key = "flip"
            if key not in layer._fits:
                layer._fits[key] = Layer(layer.params, fsubst(layer.guard, flip), subst(layer.addr, flip), t(0), layer.tag)
            cond, sub = self.match(layer._fits[key], idx)
            return cond, {p: (neg[p] - 1 - v if p in neg else v) for p, v in sub.items()}
        rest = addr
        for p, c in simple:
            rest = rest - c * t(atom(p))
        todo = sorted(simple, key=lambda pc: (tdeg(pc[1]), pc[1].const() or 0), reverse=True)
        # drop parameters that do not appear (coefficient 0)
        zero = [p for p, c in todo if c.const() == 0]
        for p in zero:
            raise Unsupported("array write address does not determine the loop counter")
        target = idx
        for n, (p, s) in enumerate(todo):
            remaining = todo[n + 1:]
            inner = rest
            for p2, s2 in remaining:
                inner = inner + s2 * t(atom(p2))
            sc = s.const()
            if not remaining:
                if sc == 1:
                    q = target - rest
                elif sc == -1:
                    q = rest - target
                elif sc is not None:
                    q = (target - rest) / t(sc)
                    if not isint(q):
                        qd = app("DIV", target - rest, t(sc), sort="Int")
                        conds.append(Eq(t(sc) * qd, target - rest))
                        q = qd
                else:
                    q, cnd = self.divide(target - rest, s, layer, p, params, None)
                    conds.append(cnd)
                sub[p] = q
                break
            # stride s must dominate the inner part
            ranges = []
            for p2, s2 in remaining:
                ranges += [Ge(t(atom(p2)), 0), Lt(t(atom(p2)), params[p2])]
            k = (p, s)
            if k not in layer._fits:
                goal = And(Ge(inner, 0), Lt(inner, s))
                save = self.pc
                self.pc = self.pc + ranges
                ok = prove(self.pc, goal) or self.inrange_prove(goal)
                self.pc = save
                if not ok:
                    raise Unsupported(f"layer address {addr} not decodable (stride {s})")
                layer._fits[k] = True
            q, target = self.divrem(target, s, params[p])
            sub[p] = q
        # verify and build range conditions
        for p, hi in layer.params:
            conds.append(self.inrange(sub[p], hi))
        g = fsubst(layer.guard, sub)
        return And(*conds, g), sub

    def divide(self, target, s, layer, p, params, _):
        """single remaining symbolic-stride parameter: target == s*q"""
        for q, r in pdiv(target, s):
            if r.const() == 0:
                return q, TRUE
            if prove(self.pc, And(Lt(r, s), Gt(r, -s))):
                return q, Eq(r, 0)
        d, m = app("DIV", target, s, sort="Int"), app("MOD", target, s, sort="Int")
        return d, Eq(m, 0)

    def divrem(self, target, s, hi):
        for q, r in pdiv(target, s):
            if prove(self.pc, And(Ge(r, 0), Lt(r, s))):
                return q, r
            g = And(Ge(r, 0), Lt(r, s))
            if self.inrange_prove(g):
                return q, r
        if self.discover or self.shape:
            for q, r in pdiv(target, s):
                if q.const() != 0 and not any(sum(e for _, e in m) >= 2 for m in r.n):
                    return q, r         # a guess; the inductive pass decides
        if not self.discover and not prove(self.pc, Gt(s, 0)):
            raise Unsupported(f"cannot divide {target} by {s}")
        return simp_div(target, s), simp_mod(target, s)

    def inrange(self, q, hi):
        """formula equivalent (under pc) to 0 <= q < hi"""
        a = single_atom(q)
        if a is not None and a.name == "DIV":
            e, s = a.args
            g = And(Ge(e, 0), Lt(e, s * hi))
            if all(h in self.pc or prove(self.pc, h) for h in (g.args if g.op == "and" else (g,))):
                return TRUE
        f = And(Ge(q, 0), Lt(q, hi))
        if hi.const() is not None or all(sum(e for _, e in m) < 2 for m in hi.n):
            return f
        for s in self.strides_of(hi):
            for b, hr in pdiv(hi, s):
                if hr.const() != 0:
                    continue
                for q1, r in pdiv(q, s):
                    if prove(self.pc, And(Ge(r, 0), Lt(r, s))):
                        return self.inrange(q1, b)
        return f

    def eqaddr(self, a, b):
        d = a - b
        c = d.const()
        if c is not None:
            return TRUE if c == 0 else FALSE
        if any(sum(e for _, e in m) >= 2 for m in d.n) or self.known_strides():
            for s in self.strides_of(d):
                for q, r in pdiv(d, s):
                    if q.const() == 0:
                        continue
                    if prove(self.pc, And(Lt(r, s), Gt(r, -s))):
                        # d = s*q + r, |r|<s:  d==0 iff q==0 and r==0 (q integer)
                        return And(self.eqaddr(q, t(0)), Eq(r, 0))
        return Eq(a, b)

    def match_complex(self, layer, idx, cps):
        """addresses through a counter coordinate: one-way unification; sound because the layer's
        tag records that the coordinate is injective on the guard"""
        params = dict(layer.params)
        if not iscounter(layer.tag):
            raise Unsupported(f"cannot invert address {layer.addr}")
        simple = [(p, lincoeff(layer.addr, p)) for p in params if p not in cps]
        rest = layer.addr
        for p, c in simple:
            rest = rest - c * t(atom(p))
        simple = [(p, c) for p, c in simple if c.const() != 0]
        todo = sorted(simple, key=lambda pc: (tdeg(pc[1]), pc[1].const() or 0), reverse=True)
        target = idx
        sub = {}
        for n, (p, s) in enumerate(todo):
            q, target = self.divrem(target, s, params[p])
            sub[p] = q
        # unify rest (pattern over cps) with target
        m = unify(rest, target, set(params) - set(sub))
        if m is None:
            # provably different?
            raise Unsupported(f"cannot match counter coordinate {rest} with {target}")
        sub.update(m)
        if set(sub) != set(params):
            raise Unsupported("counter coordinate leaves parameters undetermined")
        conds = [self.inrange(sub[p], hi_subst(hi, sub)) for p, hi in layer.params]
        g = fsubst(layer.guard, sub)
        # at the unified point the layer is known to write; elsewhere injectivity excludes a match
        return And(*conds, g), sub


def iscounter(tag):
    return isinstance(tag, tuple) and tag[0] == "counter"


def hi_subst(hi, sub):
    return subst(hi, sub)


def subst_top(x, m):
    return subst(x, m)


def tdeg(c):
    return max([sum(e for _, e in m) for m in c.n] + [0])


def occurs_nested(x, aid):
    for i in x.atoms():
        if i == aid:
            continue
        a = atom(i)
        if a.kind != "var" and aid in {y.id for y in closure_atoms(t(a))}:
            return True
    return False


def lincoeff(x, aid):
    """coefficient term of atom aid in polynomial x if x is linear in it (and no nested use), else None"""
    if x.d is not P1:
        return None
    if occurs_nested(x, aid):
        return None
    c = {}
    for m, k in x.n.items():
        e = dict(m).get(aid, 0)
        if e > 1:
            return None
        if e == 1:
            c[tuple((a, b) for a, b in m if a != aid)] = k
    return T(c)


def pdiv(x, s):
    """candidate (quotient, remainder) pairs of polynomial x by non-constant polynomial s"""
    out = []
    if x.d is not P1 or s.d is not P1:
        return out
    for lead in sorted(s.n, key=lambda m: -sum(e for _, e in m)):
        if not lead:
            continue
        cl = s.n[lead]
        ld = dict(lead)
        q, r = {}, dict(x.n)
        ok = True
        for _ in range(40):
            hit = None
            for m in r:
                md = dict(m)
                if all(md.get(a, 0) >= e for a, e in ld.items()):
                    hit = m
                    break
            if hit is None:
                break
            md = dict(hit)
            qm = tuple(sorted((a, e - ld.get(a, 0)) for a, e in md.items() if e - ld.get(a, 0)))
            c = r[hit] / cl
            if c.denominator != 1:
                ok = False
                break
            q[qm] = q.get(qm, 0) + c
            r = p_add(r, p_mul({qm: c}, s.n), -1)
        else:
            ok = False
        if ok:
            out.append((T({k: v for k, v in q.items() if v}), T(r)))
    return out


def simp_mod(a, b):
    a, b = t(a), t(b)
    ca, cb = a.iconst(), b.iconst()
    if ca is not None and cb:
        return t(ca % cb)
    if cb is not None and cb > 0 and a.d is P1:
        # reduce coefficients
        n = {m: Fraction(c % cb if c.denominator == 1 else c) for m, c in a.n.items()}
        a = T({m: c for m, c in n.items() if c})
        if a.iconst() is not None:
            return t(a.iconst() % cb)
    ctx = Ctx.current
    if ctx is not None:
        if b.const() is None:
            for q, r in pdiv(a, b):
                if prove(ctx.pc, And(Ge(r, 0), Lt(r, b))):
                    return r
        elif prove(ctx.pc, And(Ge(a, 0), Lt(a, b))):
            return a
    return t(mkatom("app", "MOD", (a, b), "Int"))


def simp_div(a, b):
    a, b = t(a), t(b)
    ca, cb = a.iconst(), b.iconst()
    if ca is not None and cb:
        return t(ca // cb)
    ctx = Ctx.current
    if ctx is not None:
        if b.const() is None:
            for q, r in pdiv(a, b):
                if prove(ctx.pc, And(Ge(r, 0), Lt(r, b))):
                    return q
        elif cb and cb > 0:
            q = a / t(cb)
            if isint(q):
                return q
            if prove(ctx.pc, And(Ge(a, 0), Lt(a, b))):
                return t(0)
            if a.d is P1:
                hi = {m: c for m, c in a.n.items() if m and c.denominator == 1 and c % cb == 0}
                c0 = a.n.get((), Fraction(0))
                if c0.denominator == 1 and hi:
                    qq = T(hi) / t(cb) + t(c0 // cb)
                    r = a - t(cb) * qq
                    if isint(qq) and prove(ctx.pc, And(Ge(r, 0), Lt(r, b))):
                        return qq
    return t(mkatom("app", "DIV", (a, b), "Int"))


terms.SIMP["MOD"] = simp_mod
terms.SIMP["DIV"] = simp_div


def simp_ceil(a):
    a = t(a)
    c = a.const()
    if c is not None:
        return t(-((-c.numerator) // c.denominator))
    if isint(a):
        return a
    return t(mkatom("app", "CEIL", (a,), "Int"))


def simp_floor(a):
    a = t(a)
    c = a.const()
    if c is not None:
        return t(c.numerator // c.denominator)
    if isint(a):
        return a
    return t(mkatom("app", "FLOOR", (a,), "Int"))


terms.SIMP["CEIL"] = simp_ceil
terms.SIMP["FLOOR"] = simp_floor


def unify(pat, tgt, params):
    """find substitution of params making pat equal tgt (poly of atoms); None if not found"""
    if not params & {a.id for a in closure_atoms(pat)}:
        return {} if pat == tgt else None
    patoms = [atom(a) for a in pat.atoms() if params & {x.id for x in closure_atoms(t(atom(a)))} or a in params]

    def solve(sub, todo):
        if not todo:
            return sub if subst(pat, sub) == tgt else None
        p = todo[0]
        if p.id in sub:
            return solve(sub, todo[1:])
        if p.id in params:
            # linear leftover: solve directly when everything else is known
            c = lincoeff(subst(pat, sub), p.id)
            if c is not None and c.const():
                rest = subst(pat, sub) - c * t(p)
                if not (params - set(sub) - {p.id}) & {x.id for x in closure_atoms(rest)}:
                    s2 = dict(sub)
                    s2[p.id] = (tgt - rest) / c
                    return solve(s2, todo[1:])
        for a in tgt.atoms():
            m = match_atom(p, atom(a), params, sub)
            if m is not None:
                r = solve(m, todo[1:])
                if r is not None:
                    return r
        # maybe p vanishes (empty sum): hi == 0
        if p.kind == "bind" and p.name == "SUM":
            h = single_atom(p.args[2])
            if h is not None and h.id in params and h.id not in sub:
                s2 = dict(sub)
                s2[h.id] = t(0)
                r = solve(s2, todo[1:])
                if r is not None:
                    return r
        return None

    # the most constrained first, plain params last
    patoms.sort(key=lambda a: (a.id in params, len(params & {x.id for x in closure_atoms(t(a))}), a.id))
    return solve({}, patoms)


def match_atom(p, a, params, sub):
    if p.id in params:
        return None
    if p.kind != a.kind or p.name != a.name or len(p.args) != len(a.args):
        return None
    s = dict(sub)
    for x, y in zip(p.args, a.args):
        r = match_any(x, y, params, s)
        if r is None:
            return None
        s = r
    return s


def match_any(x, y, params, s):
    if isinstance(x, T) and isinstance(y, T):
        px = single_atom(x)
        if px is not None and px.id in params:
            if px.id in s:
                return s if s[px.id] == y else None
            s = dict(s)
            s[px.id] = y
            return s
        if x == y:
            return s
        free = {z.id for z in closure_atoms(x)} & params
        if not free:
            return None
        if free <= set(s):
            return s if subst(x, s) == y else None
        # match atom-wise
        xa = sorted((atom(i) for i in x.atoms()), key=lambda z: z.id)
        for z in xa:
            if {w.id for w in closure_atoms(t(z))} & params and z.id not in params:
                for i in y.atoms():
                    m = match_atom(z, atom(i), params, s)
                    if m is not None and subst(x, m) == y:
                        return m
        if len(free - set(s)) == 1:
            p = next(iter(free - set(s)))
            xs = subst(x, s)
            c = lincoeff(xs, p)
            if c is not None and c.const():
                s = dict(s)
                s[p] = (y - (xs - c * t(atom(p)))) / c
                return s
        return None
    if isinstance(x, F) and isinstance(y, F):
        if x == y:
            return s
        if x.op != y.op or len(x.args) != len(y.args):
            return None
        for p, q in zip(x.args, y.args):
            if isinstance(p, (T, F)):
                s = match_any(p, q, params, s)
            elif isinstance(p, tuple):
                if len(p) != len(q):
                    return None
                for pp, qq in zip(p, q):
                    s = match_any(pp, qq, params, s)
                    if s is None:
                        return None
            elif p != q:
                return None
            if s is None:
                return None
        return s
    return None
