"""Terms and formulas of the verifier's logic.

A term is a rational function (num/den, both polynomials with Fraction coefficients) over interned
atoms.  Atoms are variables, applications of (un)interpreted functions, symbolic powers and the
binders SUM / PROD.  Formulas are boolean combinations of comparisons of terms with 0 and of
predicate atoms; EX is a bounded existential.  Everything is hashable and compared structurally,
so equality of normal forms is a sound (and for rational functions over independent atoms complete)
equality test.
"""
from fractions import Fraction
from functools import lru_cache

# ------------------------------------------------------------------ atoms
_ATOMS = []
_INTERN = {}


class Atom:
    __slots__ = ("id", "kind", "name", "args", "sort")

    def __repr__(self):
        return show_atom(self.id)


def mkatom(kind, name, args, sort):
    key = (kind, name, args, sort)
    a = _INTERN.get(key)
    if a is None:
        a = Atom()
        a.id, a.kind, a.name, a.args, a.sort = len(_ATOMS), kind, name, args, sort
        _ATOMS.append(a)
        _INTERN[key] = a
    return a


def atom(i):
    return _ATOMS[i]


_fresh = [0]


def fresh_name(p):
    _fresh[0] += 1
    return f"{p}#{_fresh[0]}"


# ------------------------------------------------------------------ polynomials: dict mono -> Fraction
# mono = tuple of (atomid, exp) sorted by atomid


def _mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for k, e in b:
        d[k] = d.get(k, 0) + e
    return tuple(sorted((k, e) for k, e in d.items() if e))


def p_add(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def p_mul(a, b):
    if len(a) > len(b):
        a, b = b, a
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = _mono_mul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    return r


P1 = {(): Fraction(1)}
P0 = {}


class T:
    """rational term"""

    __slots__ = ("n", "d", "_h", "_key")

    def __init__(self, n, d=None):
        self.n = n
        self.d = P1 if d is None else d
        self._h = None
        self._key = None
        if d is not None and d is not P1:
            self._norm()

    def _norm(self):
        n, d = self.n, self.d
        if not d:
            raise ZeroDivisionError("term with zero denominator")
        if not n:
            self.d = P1
            return
        if len(d) == 1:
            (m, c), = d.items()
            if not m:
                if c != 1:
                    self.n = {k: v / c for k, v in n.items()}
                self.d = P1
                return
            # cancel common monomial
            common = dict(m)
            for k in n:
                kd = dict(k)
                for a in list(common):
                    e = min(common[a], kd.get(a, 0))
                    if e:
                        common[a] = e
                    else:
                        del common[a]
                if not common:
                    break
            if common:
                def div(mm):
                    return tuple((a, e - common.get(a, 0)) for a, e in mm if e - common.get(a, 0))
                n = {div(k): v for k, v in n.items()}
                m = div(m)
            self.n = {k: v / c for k, v in n.items()}
            self.d = {m: Fraction(1)} if m else P1
            return
        # exact proportionality / make leading coefficient 1
        lead = max(d)
        c = d[lead]
        if c != 1:
            self.n = {k: v / c for k, v in n.items()}
            self.d = {k: v / c for k, v in d.items()}
        q = p_divexact(self.n, self.d)
        if q is not None:
            self.n, self.d = q, P1

    @property
    def key(self):
        if self._key is None:
            self._key = (tuple(sorted(self.n.items())), tuple(sorted(self.d.items())) if self.d is not P1 else ())
        return self._key

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key)
        return self._h

    def __eq__(self, o):
        if not isinstance(o, T):
            return NotImplemented
        return self.key == o.key

    # arithmetic
    def __add__(self, o):
        o = t(o)
        if self.d is P1 and o.d is P1:
            return T(p_add(self.n, o.n))
        if self.d == o.d:
            return T(p_add(self.n, o.n), self.d)
        if self.d is not P1 and o.d is not P1:
            q = p_divexact(self.d, o.d)
            if q is not None:
                return T(p_add(self.n, p_mul(o.n, q)), self.d)
            q = p_divexact(o.d, self.d)
            if q is not None:
                return T(p_add(p_mul(self.n, q), o.n), o.d)
        return T(p_add(p_mul(self.n, o.d), p_mul(o.n, self.d)), p_mul(self.d, o.d))

    __radd__ = __add__

    def __neg__(self):
        return T({k: -v for k, v in self.n.items()}, self.d if self.d is not P1 else None)

    def __sub__(self, o):
        return self + (-t(o))

    def __rsub__(self, o):
        return t(o) - self

    def __mul__(self, o):
        o = t(o)
        if self.d is P1 and o.d is P1:
            return T(p_mul(self.n, o.n))
        a, od = _cancel(self.n, o.d)
        b, sd = _cancel(o.n, self.d)
        return T(p_mul(a, b), p_mul(sd, od))

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = t(o)
        if self.d is P1 and o.d is P1:
            return T(self.n, o.n)
        return self * T(o.d, o.n)

    def __rtruediv__(self, o):
        return t(o) / self

    def __pow__(self, k):
        assert isinstance(k, int)
        if k < 0:
            return t(1) / (self ** (-k))
        r = t(1)
        b = self
        while k:
            if k & 1:
                r = r * b
            b = b * b
            k >>= 1
        return r

    def const(self):
        """Fraction if constant else None"""
        if self.d is P1:
            if not self.n:
                return Fraction(0)
            if len(self.n) == 1 and () in self.n:
                return self.n[()]
        return None

    def iconst(self):
        c = self.const()
        if c is not None and c.denominator == 1:
            return int(c)
        return None

    def atoms(self):
        s = set()
        for p in (self.n, self.d):
            for m in p:
                for a, _ in m:
                    s.add(a)
        return s

    def __repr__(self):
        return show(self)


def p_divexact(n, d):
    """multivariate exact division n/d or None (lex order)."""
    q = {}
    r = dict(n)
    ld = max(d, key=_lex)
    cd = d[ld]
    ldd = dict(ld)
    steps = 0
    while r:
        steps += 1
        if steps > 400:
            return None
        lr = max(r, key=_lex)
        lrd = dict(lr)
        for a, e in ldd.items():
            if lrd.get(a, 0) < e:
                return None
        m = tuple(sorted((a, e - ldd.get(a, 0)) for a, e in lr if e - ldd.get(a, 0)))
        c = r[lr] / cd
        q[m] = q.get(m, 0) + c
        r = p_add(r, p_mul({m: c}, d), -1)
    return q


def _lex(m):
    """lexicographic monomial order (later atoms first)"""
    return m[::-1]


def _cancel(n, d):
    """remove a common factor when one polynomial divides the other"""
    if d is P1 or len(d) < 2 or not n:
        return n, d
    q = p_divexact(n, d)
    if q is not None:
        return q, P1
    if len(n) >= 2:
        q = p_divexact(d, n)
        if q is not None:
            return P1, q
    return n, d


def t(x):
    if isinstance(x, T):
        return x
    if isinstance(x, bool):
        return t(int(x))
    if isinstance(x, int):
        return T({(): Fraction(x)}) if x else T({})
    if isinstance(x, Fraction):
        return T({(): x}) if x else T({})
    if isinstance(x, float):
        return t(Fraction(x))
    if isinstance(x, Atom):
        return T({((x.id, 1),): Fraction(1)})
    raise TypeError(f"not a term: {x!r}")


def var(name, sort="Int"):
    return t(mkatom("var", name, (), sort))


def fresh(p, sort="Int"):
    return var(fresh_name(p), sort)


def teq(a, b):
    """exact equality of rational functions"""
    a, b = t(a), t(b)
    if a.key == b.key:
        return True
    return not p_add(p_mul(a.n, b.d), p_mul(b.n, a.d), -1)


def single_atom(x):
    """the atom if x is exactly one atom, else None"""
    if x.d is P1 and len(x.n) == 1:
        (m, c), = x.n.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return atom(m[0][0])
    return None


def app(name, *args, sort="Real"):
    return t(mkatom("app", name, tuple(a if isinstance(a, F) else t(a) for a in args), sort))


def power(b, e):
    """b**e with b a term and e an integer-valued term"""
    b, e = t(b), t(e)
    k = e.iconst()
    if k is not None and abs(k) <= 64:
        if k < 0 and b.const() == 0:
            raise ZeroDivisionError
        return b ** k
    c = b.const()
    if c == 1:
        return t(1)
    # split positive integer constants of the exponent: b**(e0+k) = b**e0 * b**k
    k0 = e.n.get((), 0) if e.d is P1 else 0
    if k0 and k0.denominator == 1 and abs(k0) <= 16 and (k0 > 0 or (b.const() not in (None, 0))):
        return power(b, e - t(k0)) * b ** int(k0)
    # products
    if b.d is P1 and len(b.n) == 1:
        (m, cf), = b.n.items()
        if m and (cf != 1 or len(m) > 1 or m[0][1] > 1):
            r = t(1)
            if cf != 1:
                r = r * t(mkatom("app", "POW", (t(cf), e), "Real"))
            for a, ex in m:
                r = r * t(mkatom("app", "POW", (t(atom(a)), e), "Real")) ** ex
            return r
    a = single_atom(b)
    if a is not None and a.name == "POW":
        return power(a.args[0], a.args[1] * e)
    return t(mkatom("app", "POW", (b, e), "Real"))


BV = [mkatom("var", f"%bv{i}", (), "Int") for i in range(12)]


def _bvdepth(x):
    """1 + the largest bound-variable index bound by a binder inside x (free BVs do not count)"""
    d = 0
    seen = set()
    stack = [x]
    while stack:
        y = stack.pop()
        if isinstance(y, T):
            for i in y.atoms():
                if i not in seen:
                    seen.add(i)
                    a = atom(i)
                    if a.kind == "bind":
                        d = max(d, int(single_atom(a.args[0]).name[3:]) + 1)
                    stack.extend(a.args)
        elif isinstance(y, F):
            if y.op == "ex":
                d = max(d, int(single_atom(y.args[0]).name[3:]) + 1)
            stack.extend(y.args)
        elif isinstance(y, tuple):
            stack.extend(y)
    return d


def _closure_atoms(x, seen=None):
    if seen is None:
        seen = set()
    out = []
    stack = [x]
    while stack:
        y = stack.pop()
        if isinstance(y, T):
            for i in y.atoms():
                if i not in seen:
                    seen.add(i)
                    a = atom(i)
                    out.append(a)
                    stack.extend(a.args)
        elif isinstance(y, F):
            stack.extend(y.args)
        elif isinstance(y, tuple):
            stack.extend(y)
    return out


def closure_atoms(x):
    return _closure_atoms(x)


def _delta(kind, ba, hi, body):
    """body = ITE(bv == p, X, unit): one index contributes"""
    a = single_atom(body) if len(body.n) == 1 and body.d is P1 else None
    if a is None or a.name != "ITE" or a.args[0].op != "eq" or a.args[2] != (t(0) if kind == "SUM" else t(1)):
        return None
    e = a.args[0].args[0]
    if e.d is not P1:
        return None
    k = e.n.get(((ba.id, 1),))
    if k is None or abs(k) != 1:
        return None
    p = t(ba) - e * t(1 / k)
    if ba.id in {x.id for x in _closure_atoms(p)}:
        return None
    return ite(And(Ge(p, 0), Lt(p, hi)), subst(a.args[1], {ba.id: p}), a.args[2])


def binder(kind, bv, lo, hi, body):
    """SUM/PROD over integer atom bv in [lo,hi) of body."""
    lo, hi = t(lo), t(hi)
    n = (hi - lo).iconst()
    if n is not None and n <= 0:
        return t(0) if kind == "SUM" else t(1)
    ba = single_atom(t(bv))
    # shift so that range starts at 0
    if lo.const() != 0:
        body = subst(body, {ba.id: t(ba) + lo})
        hi = hi - lo
        lo = t(0)
    body = t(body)
    if ba.id not in {a.id for a in _closure_atoms(body)}:
        if kind == "SUM":
            return body * hi
        return power(body, hi)
    if n is not None and n <= 6:
        r = t(0) if kind == "SUM" else t(1)
        for i in range(n):
            v = subst(body, {ba.id: t(i)})
            r = r + v if kind == "SUM" else r * v
        return r
    if kind == "SUM" and body.d is P1:
        # split additive structure: pull out factors not depending on bv
        tot = t(0)
        groups = {}
        for m, c in body.n.items():
            dep = tuple((a, e) for a, e in m if ba.id == a or ba.id in {x.id for x in _closure_atoms(t(atom(a)))})
            ind = tuple((a, e) for a, e in m if (a, e) not in dep)
            groups.setdefault(ind, {})[dep] = c
        if len(groups) > 1 or (len(groups) == 1 and list(groups)[0] != ()):
            for ind, p in groups.items():
                tot = tot + T({ind: Fraction(1)}) * binder(kind, bv, lo, hi, T(p))
            return tot
    r = _delta(kind, ba, hi, body)
    if r is not None:
        return r
    if kind == "PROD" and body.d is P1 and len(body.n) == 1:
        ((m, c),) = body.n.items()
        if c != 1 or len(m) > 1 or (m and m[0][1] != 1):
            r = power(t(c), hi) if c != 1 else t(1)
            for a, e in m:
                r = r * binder(kind, bv, lo, hi, t(atom(a))) ** e
            return r
    dep = _bvdepth(body)
    nb = BV[dep]
    body = canon(subst(body, {ba.id: t(nb)}))
    return t(mkatom("bind", kind, (t(nb), lo, hi, body), "Real" if kind != "SUM" else "Num"))


# ------------------------------------------------------------------ canonical case distinctions
_fk = {}


def fkey(x):
    """name of a term or formula that does not depend on the names of variables introduced by the verifier"""
    k = _fk.get(x)
    if k is None:
        if isinstance(x, T):
            k = "+".join(sorted(f"{c}*" + "*".join(sorted(f"{akey(a)}^{e}" for a, e in m)) for m, c in x.n.items()))
            if x.d is not P1:
                k = f"({k})/({'+'.join(sorted(f'{c}*' + '*'.join(sorted(f'{akey(a)}^{e}' for a, e in m)) for m, c in x.d.items()))})"
        else:
            k = x.op + "(" + ",".join(fkey(a) if isinstance(a, (T, F)) else "[" + ",".join(fkey(b) for b in a) + "]" if isinstance(a, tuple) else str(a).split("#")[0] for a in x.args) + ")"
        _fk[x] = k
    return k


def akey(i):
    a = atom(i)
    if a.kind == "var":
        return "$" if "#" in a.name or a.name.startswith("%bv") or (a.name[0] == "p" and a.name[1:].isdigit()) else a.name
    return a.name.split("#")[0] + "(" + ",".join(fkey(x) for x in a.args) + ")"


def _leaves(x, conds, seen):
    """collect the conditions of a tree of case distinctions; False if a leaf is not a constant"""
    if x.const() is not None:
        return True
    a = single_atom(x)
    if a is None or a.name != "ITE":
        return False
    if a.id in seen:
        return True
    seen.add(a.id)
    _fatoms(a.args[0], conds)
    return _leaves(a.args[1], conds, seen) and _leaves(a.args[2], conds, seen)


def _fatoms(f, out):
    if f.op in ("and", "or"):
        for a in f.args:
            _fatoms(a, out)
    elif f.op == "not":
        _fatoms(f.args[0], out)
    elif f.op not in ("true", "false"):
        out.setdefault(_lit(f)[0], None)


def _lit(f):
    """one representative of a condition and its negation, and whether f is the representative itself"""
    if f.op in ("le", "lt"):
        from solver import isint
        if isint(f.args[0]):
            x = f.args[0] if f.op == "le" else f.args[0] + 1
            a, b = F("le", x), F("le", 1 - x)
            return (a, True) if fkey(a) <= fkey(b) else (b, False)
    n = Not(f)
    return (f, True) if f.op == "ex" or n.op == "not" or fkey(f) <= fkey(n) else (n, False)


def _feval(f, env):
    if f.op == "true":
        return True
    if f.op == "false":
        return False
    if f.op == "and":
        return all(_feval(a, env) for a in f.args)
    if f.op == "or":
        return any(_feval(a, env) for a in f.args)
    if f.op == "not":
        return not _feval(f.args[0], env)
    r, pos = _lit(f)
    return env[r] == pos


def _teval(x, env):
    c = x.const()
    if c is not None:
        return c
    a = single_atom(x)
    return _teval(a.args[1] if _feval(a.args[0], env) else a.args[2], env)


def canon(x):
    """tree of case distinctions with constant leaves -> ordered decision diagram (equal trees become identical)"""
    a = single_atom(x)
    if a is None or a.name != "ITE":
        return x
    conds = {}
    if not _leaves(x, conds, set()) or not 1 <= len(conds) <= 7:
        return x
    order = sorted(conds, key=lambda f: (fkey(f), f.op))

    def build(i, env):
        if i == len(order):
            return t(_teval(x, env))
        hi = build(i + 1, {**env, order[i]: True})
        lo = build(i + 1, {**env, order[i]: False})
        return hi if hi == lo else t(mkatom("app", "ITE", (order[i], hi, lo), "Num"))
    return build(0, {})


# ------------------------------------------------------------------ formulas
class F:
    """op in: true,false,le(t<=0),lt(t<0),eq(t==0),not,and,or,pred,ex,forall"""

    __slots__ = ("op", "args", "_h")

    def __init__(self, op, *args):
        self.op = op
        self.args = args
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.op, self.args))
        return self._h

    def __eq__(self, o):
        return isinstance(o, F) and self.op == o.op and self.args == o.args

    def __repr__(self):
        return showf(self)


TRUE = F("true")
FALSE = F("false")


def _constite(d, mk):
    """comparison of const + k*ITE(c, const, const) with 0: decided per branch"""
    if d.d is not P1 or len(d.n) > 2:
        return None
    a = None
    for m, c in d.n.items():
        if m:
            if a is not None or len(m) != 1 or m[0][1] != 1:
                return None
            a, k = atom(m[0][0]), c
    if a is None or a.name != "ITE" or a.args[1].const() is None or a.args[2].const() is None:
        return None
    r = t(d.n.get((), 0))
    f, g = mk(r + a.args[1] * t(k)), mk(r + a.args[2] * t(k))
    if f == g:
        return f
    return a.args[0] if f.op == "true" else Not(a.args[0])


def Le(a, b):
    d = t(a) - t(b)
    c = d.const()
    if c is not None:
        return TRUE if c <= 0 else FALSE
    f = _constite(d, lambda x: Le(x, 0))
    if f is not None:
        return f
    return F("le", d)


def Lt(a, b):
    d = t(a) - t(b)
    c = d.const()
    if c is not None:
        return TRUE if c < 0 else FALSE
    f = _constite(d, lambda x: Lt(x, 0))
    if f is not None:
        return f
    return F("lt", d)


def Ge(a, b):
    return Le(b, a)


def Gt(a, b):
    return Lt(b, a)


def Eq(a, b):
    d = t(a) - t(b)
    c = d.const()
    if c is not None:
        return TRUE if c == 0 else FALSE
    f = _constite(d, lambda x: Eq(x, 0))
    if f is not None:
        return f
    # sign-normalise so that a==b and b==a coincide
    lead = max(d.n)
    if d.n[lead] < 0:
        d = -d
    if d.n[max(d.n)] != 1 and d.d is P1:
        d = d / t(d.n[max(d.n)])
    return F("eq", d)


def Ne(a, b):
    return Not(Eq(a, b))


def Not(f):
    if f.op == "true":
        return FALSE
    if f.op == "false":
        return TRUE
    if f.op == "not":
        return f.args[0]
    if f.op == "le":
        return F("lt", -f.args[0])
    if f.op == "lt":
        return F("le", -f.args[0])
    if f.op == "and":
        return Or(*[Not(a) for a in f.args])
    if f.op == "or":
        return And(*[Not(a) for a in f.args])
    return F("not", f)


def And(*fs):
    out = []
    for f in fs:
        if f.op == "true":
            continue
        if f.op == "false":
            return FALSE
        if f.op == "and":
            out.extend(f.args)
        else:
            out.append(f)
    out = list(dict.fromkeys(out))
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return F("and", *out)


def Or(*fs):
    out = []
    for f in fs:
        if f.op == "false":
            continue
        if f.op == "true":
            return TRUE
        if f.op == "or":
            out.extend(f.args)
        else:
            out.append(f)
    out = list(dict.fromkeys(out))
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return F("or", *out)


def Pred(name, *args):
    return F("pred", name, tuple(t(a) for a in args))


def Exists(bv, lo, hi, body):
    """bounded existential over integer atom bv in [lo,hi)"""
    lo, hi = t(lo), t(hi)
    n = (hi - lo).iconst()
    if n is not None and n <= 0:
        return FALSE
    ba = single_atom(t(bv))
    if lo.const() != 0:
        body = fsubst(body, {ba.id: t(ba) + lo})
        hi, lo = hi - lo, t(0)
    if body.op == "false":
        return FALSE
    if n is not None and n <= 6:
        return Or(*[fsubst(body, {ba.id: t(i)}) for i in range(n)])
    nb = BV[_bvdepth(body)]
    body = fsubst(body, {ba.id: t(nb)})
    return F("ex", t(nb), lo, hi, body)


def Forall(bv, lo, hi, body):
    return Not(Exists(bv, lo, hi, Not(body)))


def ite(c, a, b):
    a, b = t(a), t(b)
    if c.op == "true" or a == b:
        return a
    if c.op == "false":
        return b
    if c.op == "not":
        return ite(c.args[0], b, a)
    return t(mkatom("app", "ITE", (c, a, b), "Num"))


# ------------------------------------------------------------------ substitution
def subst(x, m):
    """m: atomid -> T"""
    if not m:
        return x
    cache = {}
    return _subst(x, m, cache)


def _subst_atom(i, m, cache):
    if i in m:
        return m[i]
    if i in cache:
        return cache[i]
    a = atom(i)
    if a.kind == "var":
        r = t(a)
    else:
        changed = False
        na = []
        for y in a.args:
            if isinstance(y, T):
                z = _subst(y, m, cache)
            else:
                z = _fsubst(y, m, cache)
            changed = changed or z is not y
            na.append(z)
        if not changed or tuple(na) == a.args:
            r = t(a)
        else:
            r = rebuild(a, na)
    cache[i] = r
    return r


def rebuild(a, na):
    if a.kind == "bind":
        nb, lo, hi, body = na
        return binder(a.name, nb, lo, hi, body)
    if a.name == "POW":
        return power(*na)
    if a.name == "ITE":
        return ite(*na)
    h = SIMP.get(a.name)
    if h is not None:
        r = h(*na)
        if r is not None:
            return r
    return t(mkatom(a.kind, a.name, tuple(na), a.sort))


SIMP = {}


def _subst(x, m, cache):
    if not any(i in m or atom(i).kind != "var" for i in x.atoms()):
        return x
    n = _psubst(x.n, m, cache)
    if x.d is P1:
        return n
    return n / _psubst(x.d, m, cache)


def _psubst(p, m, cache):
    r = t(0)
    plain = {}
    for mono, c in p.items():
        keep = []
        term = None
        for a, e in mono:
            s = _subst_atom(a, m, cache)
            sa = single_atom(s)
            if sa is not None and sa.id == a:
                keep.append((a, e))
            else:
                term = (s ** e) if term is None else term * s ** e
        if term is None:
            plain[mono] = plain.get(mono, 0) + c
        else:
            r = r + T({tuple(keep): c}) * term
    plain = {k: v for k, v in plain.items() if v}
    return r + T(plain)


def fsubst(f, m):
    if not m:
        return f
    return _fsubst(f, m, {})


def _fsubst(f, m, cache):
    if f.op in ("true", "false"):
        return f
    if f.op == "le":
        return Le(_subst(f.args[0], m, cache), 0)
    if f.op == "lt":
        return Lt(_subst(f.args[0], m, cache), 0)
    if f.op == "eq":
        return Eq(_subst(f.args[0], m, cache), 0)
    if f.op == "not":
        return Not(_fsubst(f.args[0], m, cache))
    if f.op == "and":
        return And(*[_fsubst(a, m, cache) for a in f.args])
    if f.op == "or":
        return Or(*[_fsubst(a, m, cache) for a in f.args])
    if f.op == "pred":
        return F("pred", f.args[0], tuple(_subst(a, m, cache) for a in f.args[1]))
    if f.op == "ex":
        nb, lo, hi, body = f.args
        return Exists(nb, _subst(lo, m, cache), _subst(hi, m, cache), _fsubst(body, m, cache))
    raise AssertionError(f.op)


def fclosure(f):
    return _closure_atoms(f)


# ------------------------------------------------------------------ printing
def show_atom(i):
    a = atom(i)
    if a.kind == "var":
        return a.name
    if a.kind == "bind":
        return f"{a.name}[{a.args[0]}:{a.args[1]}..{a.args[2]}]({a.args[3]})"
    return f"{a.name}({', '.join(map(str, a.args))})"


def _showp(p):
    if not p:
        return "0"
    out = []
    for m, c in sorted(p.items(), key=lambda z: str(z[0])):
        s = "*".join(show_atom(a) + (f"^{e}" if e != 1 else "") for a, e in m)
        if not s:
            out.append(str(c))
        elif c == 1:
            out.append(s)
        elif c == -1:
            out.append("-" + s)
        else:
            out.append(f"{c}*{s}")
    return " + ".join(out).replace("+ -", "- ")


def show(x):
    if x.d is P1:
        return _showp(x.n)
    return f"({_showp(x.n)})/({_showp(x.d)})"


def showf(f):
    if f.op in ("true", "false"):
        return f.op
    if f.op in ("le", "lt", "eq"):
        return f"{f.args[0]} {dict(le='<=', lt='<', eq='==')[f.op]} 0"
    if f.op == "not":
        return f"!({f.args[0]})"
    if f.op in ("and", "or"):
        return "(" + (" & " if f.op == "and" else " | ").join(map(str, f.args)) + ")"
    if f.op == "pred":
        return f"{f.args[0]}({', '.join(map(str, f.args[1]))})"
    return f"EX[{f.args[0]}:{f.args[1]}..{f.args[2]}]({f.args[3]})"
