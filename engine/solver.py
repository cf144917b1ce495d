"""z3 back end: decides formulas under a path condition."""
import time
import z3
from terms import *

STATS = {"queries": 0, "time": 0.0, "unknown": 0}
_zc = {}
TIMEOUT = 4000


OPAQUE_EX = True
_exnames = {}


class Conv:
    def __init__(self):
        self.side = []
        self.seen = {}
        self.inside_bv = {}

    def term(self, x):
        n = self.poly(x.n)
        if x.d is P1:
            return n
        return z3.ToReal(n) / self.poly(x.d) if n.is_int() else n / self.poly(x.d)

    def poly(self, p):
        if not p:
            return z3.IntVal(0)
        parts = []
        real = False
        for m, c in sorted(p.items()):
            fs = []
            for a, e in m:
                z = self.atom(a)
                fs.extend([z] * e)
            if c.denominator != 1:
                real = True
            if any(f.is_real() for f in fs):
                real = True
            parts.append((c, fs))
        out = []
        for c, fs in parts:
            if real:
                fs = [z3.ToReal(f) if f.is_int() else f for f in fs]
                cc = z3.RealVal(str(c))
            else:
                cc = z3.IntVal(int(c))
            term = None
            for f in fs:
                term = f if term is None else term * f
            if term is None:
                term = cc
            elif c != 1:
                term = cc * term
            out.append(term)
        return z3.Sum(out) if len(out) > 1 else out[0]

    def atom(self, i):
        if i in self.seen:
            return self.seen[i]
        a = atom(i)
        if a.kind == "var":
            z = z3.Int(a.name) if a.sort == "Int" else z3.Real(a.name)
        elif a.kind == "app" and a.name == "ITE":
            c = self.formula(a.args[0])
            x, y = self.term(a.args[1]), self.term(a.args[2])
            if x.is_int() != y.is_int():
                x = z3.ToReal(x) if x.is_int() else x
                y = z3.ToReal(y) if y.is_int() else y
            z = z3.If(c, x, y)
        elif a.kind == "app" and a.name == "MOD":
            z = self.term(a.args[0]) % self.term(a.args[1])
        elif a.kind == "app" and a.name == "DIV":
            z = self.term(a.args[0]) / self.term(a.args[1])
        elif a.kind == "app" and a.name == "FLOOR":
            y = self.term(a.args[0])
            z = y if y.is_int() else z3.ToInt(y)
        elif a.kind == "app" and a.name == "CEIL":
            y = self.term(a.args[0])
            z = y if y.is_int() else -z3.ToInt(-y)
        elif a.kind == "bind" or a.sort == "Num":
            s = z3.IntSort() if isint(t(a)) else z3.RealSort()
            z = z3.Const(f"bind!{a.id}", s)
        else:
            args = [self.term(y) if isinstance(y, T) else self.formula(y) for y in a.args]
            so = z3.IntSort() if a.sort == "Int" else z3.RealSort()
            sig = tuple(str(y.sort()) for y in args)
            f = z3.Function(a.name + "!" + "_".join(sig), *[y.sort() for y in args], so)
            z = f(*args)
        self.seen[i] = z
        return z

    def formula(self, f):
        if f.op == "true":
            return z3.BoolVal(True)
        if f.op == "false":
            return z3.BoolVal(False)
        if f.op == "le":
            return self.term(f.args[0]) <= 0
        if f.op == "lt":
            return self.term(f.args[0]) < 0
        if f.op == "eq":
            return self.term(f.args[0]) == 0
        if f.op == "not":
            return z3.Not(self.formula(f.args[0]))
        if f.op == "and":
            return z3.And(*[self.formula(a) for a in f.args])
        if f.op == "or":
            return z3.Or(*[self.formula(a) for a in f.args])
        if f.op == "pred":
            args = [self.term(a) for a in f.args[1]]
            if not args:
                return z3.Bool(f.args[0])
            return z3.Function(f.args[0] + "!p", *[a.sort() for a in args], z3.BoolSort())(*args)
        if f.op == "ex":
            nb, lo, hi, body = f.args
            ba = single_atom(nb)
            bv = z3.Int(ba.name)
            saved = dict(self.seen)
            if OPAQUE_EX:
                return z3.And(self.term(hi) > 0, z3.Bool("ex!" + _exnames.setdefault(f, str(len(_exnames)))))
            b = self.formula(body)
            # names of bound variables are distinct from all free ones by construction
            r = z3.Exists([bv], z3.And(self.term(lo) <= bv, bv < self.term(hi), b))
            self.seen = {k: v for k, v in self.seen.items() if k in saved or ba.id not in {x.id for x in closure_atoms(t(atom(k)))} }
            return r
        raise AssertionError(f.op)


def isint(x):
    """is the term integer valued by construction"""
    if x.d is not P1:
        return False
    for m, c in x.n.items():
        if c.denominator != 1:
            return False
        for a, _ in m:
            if not atom_isint(atom(a)):
                return False
    return True


_ai = {}


def atom_isint(a):
    r = _ai.get(a.id)
    if r is None:
        if a.sort == "Int":
            r = True
        elif a.sort == "Real":
            r = False
        elif a.kind == "bind":
            r = isint(a.args[3])
        elif a.name == "ITE":
            r = isint(a.args[1]) and isint(a.args[2])
        else:
            r = False
        _ai[a.id] = r
    return r


_cache = {}
_GCONV = None
_fz = {}
_fatoms = {}


def zf(f):
    """z3 form of a formula (cached)"""
    global _GCONV
    r = _fz.get(f)
    if r is None:
        if _GCONV is None:
            _GCONV = Conv()
        r = _GCONV.formula(f)
        _fz[f] = r
    return r


def fatoms(f):
    r = _fatoms.get(f)
    if r is None:
        r = frozenset(a.id for a in closure_atoms(f))
        _fatoms[f] = r
    return r


_side = {}


INSTANCES = []      # index terms at which sums of non-negative terms and bounded quantifiers are instantiated


def side_facts(ids):
    """facts about interpreted atoms: exp > 0, |tanh| < 1, sums of non-negative bodies"""
    out = []
    sums = []
    for i in ids:
        a = atom(i)
        if a.kind == "app" and a.name in ("exp", "tanh"):
            z = _side.get(i)
            if z is None:
                e = _GCONV.atom(i)
                z = (e > 0) if a.name == "exp" else z3.And(e > -1, e < 1)
                _side[i] = z
            out.append(z)
        elif a.kind == "app" and a.name == "POW":
            z = _side.get(i)
            if z is None:
                e, b, k = _GCONV.atom(i), _GCONV.term(a.args[0]), _GCONV.term(a.args[1])
                z = z3.And(z3.Implies(k == 0, e == 1), z3.Implies(k == 1, e == b))
                _side[i] = z
            out.append(z)
        elif a.kind == "bind" and a.name == "SUM" and nonneg_body(a.args[3]):
            sums.append(a)
        if a.kind == "bind" and a.name in ("SUM", "PROD") and not any(x.name.startswith("%bv") for x in closure_atoms(a.args[2])):
            z = _side.get(("b", i))
            if z is None:
                z = z3.Implies(_GCONV.term(a.args[2]) <= 0, _GCONV.atom(i) == (0 if a.name == "SUM" else 1))
                _side[("b", i)] = z
            out.append(z)
    # sums that are one term of another sum (nested sums) take part as well
    have = {a.id for a in sums}
    for _ in range(4):
        more = []
        for p in sums:
            for q in sums:
                if p is q or p.args[3] != q.args[3] or p.args[0] != q.args[0]:
                    continue
                step = subst(p.args[3], {single_atom(p.args[0]).id: p.args[2]})
                for a in step_sums(step):
                    if a.id not in have and len(have) < 28:
                        have.add(a.id)
                        more.append(a)
        if not more:
            break
        sums = sums + more
    for a in sums:
        out.append(_GCONV.atom(a.id) >= 0)
    for x in range(len(sums)):
        for y in range(len(sums)):
            if x == y or sums[x].args[3] != sums[y].args[3] or sums[x].args[0] != sums[y].args[0]:
                continue
            p, q = sums[x], sums[y]
            hp, hq = _GCONV.term(p.args[2]), _GCONV.term(q.args[2])
            zp, zq = _GCONV.atom(p.id), _GCONV.atom(q.id)
            step = subst(p.args[3], {single_atom(p.args[0]).id: p.args[2]})
            zs = _GCONV.term(step)
            out.append(z3.Implies(hp <= hq, zp <= zq))
            out.append(z3.Implies(z3.And(hp >= 0, hp < hq), zp + zs <= zq))
            out.append(z3.Implies(hp == hq, zp == zq))
    for a in sums:
        for q in INSTANCES:
            zq, zh = _GCONV.term(q), _GCONV.term(a.args[2])
            zb = _GCONV.term(subst(a.args[3], {single_atom(a.args[0]).id: q}))
            out.append(z3.Implies(z3.And(zq >= 0, zq < zh), z3.And(zb >= 0, _GCONV.atom(a.id) >= zb)))
    return out


def step_sums(x):
    return [atom(i) for i in x.atoms() if atom(i).kind == "bind" and atom(i).name == "SUM" and nonneg_body(atom(i).args[3])]


def nonneg_body(b):
    if b.d is not P1:
        return False
    for m, c in b.n.items():
        if c < 0:
            return False
        for a, e in m:
            at = atom(a)
            if at.kind == "var" and at.name.startswith("%bv"):
                continue
            if at.name == "ITE" and nonneg_body(at.args[1]) and nonneg_body(at.args[2]):
                continue
            if at.kind == "bind" and at.name == "SUM" and nonneg_body(at.args[3]):
                continue
            return False
    return True


def relevant(fs, goal):
    """cone of influence: the hypotheses sharing atoms (transitively) with the goal"""
    rest = [(f, fatoms(f)) for f in fs]
    cone = set(fatoms(goal))
    out = []
    changed = True
    while changed:
        changed = False
        keep = []
        for f, at in rest:
            if at & cone or not at:
                out.append(f)
                new = at - cone
                if new:
                    cone |= new
                    changed = True
            else:
                keep.append((f, at))
        rest = keep
    return out


def check(fs, timeout=None, want_model=False):
    """satisfiability of a list of formulas: 'sat' / 'unsat' / 'unknown' (and model)"""
    key = frozenset(fs)
    if not want_model and key in _cache:
        return _cache[key]
    s = z3.Solver()
    s.set("timeout", timeout or TIMEOUT)
    ids = set()
    for f in fs:
        s.add(zf(f))
        ids |= fatoms(f)
    for z in side_facts(ids):
        s.add(z)
    t0 = time.time()
    r = s.check()
    dt = time.time() - t0
    STATS["queries"] += 1
    STATS["time"] += dt
    res = str(r)
    if res == "unknown":
        STATS["unknown"] += 1
    if dt > STATS.get("max", 0):
        STATS["max"] = dt
    if want_model:
        return res, (s.model() if res == "sat" else None), None
    _cache[key] = res
    return res


def prove(pc, f, timeout=None):
    """True if pc |- f; None if not proved"""
    if f.op == "true":
        return True
    if f in pc:
        return True
    nf = Not(f)
    return True if check(relevant(pc, nf) + [nf], timeout) == "unsat" else None


def decide(pc, f):
    """True / False / None(undetermined)"""
    if f.op == "true":
        return True
    if f.op == "false":
        return False
    if f in pc:
        return True
    nf = Not(f)
    if nf in pc:
        return False
    rel = relevant(pc, f)
    if check(rel + [nf]) == "unsat":
        return True
    if check(rel + [f]) == "unsat":
        return False
    return None


def model_ints(pc, f, names):
    r, m, cv = check(list(pc) + [Not(f)], 8000, want_model=True)
    if r != "sat":
        return r, None
    out = {}
    for d in m.decls():
        if d.arity() == 0:
            v = m[d]
            try:
                out[d.name()] = v.as_long()
            except Exception:
                try:
                    out[d.name()] = str(v.as_decimal(12))
                except Exception:
                    out[d.name()] = str(v)
    return r, out
