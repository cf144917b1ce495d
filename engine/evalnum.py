"""Numerical evaluation of terms: a disequality reported by the SMT solver is kept as a refutation only if the two terms
really differ at sampled values (the solver treats sums, products and specification functions as uninterpreted, so its
models can be spurious).  Used only to turn `refuted` into `unknown`, never to prove anything."""
import hashlib
import math
import random
from fractions import Fraction

from terms import *


class Cannot(Exception):
    pass


class Env:
    def __init__(self, model, seed, specs):
        self.rng = random.Random(seed)
        self.seed, self.specs, self.vars, self.fuel = seed, specs, {}, 20000
        for k, v in (model or {}).items():
            if isinstance(v, bool) or isinstance(v, int):
                self.vars[k] = v
            elif v in ("True", "False"):
                self.vars[k] = v == "True"

    def h(self, *key):
        d = hashlib.sha256(repr((self.seed,) + key).encode()).digest()
        return int.from_bytes(d[:6], "big") / 2.0 ** 48

    def term(self, x, b):
        n = self.poly(x.n, b)
        if x.d is P1:
            return n
        d = self.poly(x.d, b)
        if d == 0:
            raise Cannot("zero denominator")
        return n / d if isinstance(n, float) or isinstance(d, float) else Fraction(n) / d

    def poly(self, p, b):
        r = 0
        for m, c in p.items():
            v = c if c.denominator != 1 else int(c)
            for a, e in m:
                v = v * self.atom(atom(a), b) ** e
            r = r + v
        return r

    def atom(self, a, b):
        self.fuel -= 1
        if self.fuel < 0:
            raise Cannot("fuel")
        if a.kind == "var":
            if a.name in b:
                return b[a.name]
            key = a.name if a.sort == "Int" else (a.name, a.sort)       # real variables are sampled, not taken from the model
            if key not in self.vars:
                self.vars[key] = self.rng.randrange(0, (4, 7, 10)[self.seed % 3]) if a.sort == "Int" else self.rng.uniform(-1.5, 1.5)
            return self.vars[key]
        if a.kind == "bind":
            nb, lo, hi, body = a.args
            name = single_atom(nb).name
            lo, hi = int(self.term(lo, b)), int(self.term(hi, b))
            if hi - lo > 40 or a.name not in ("SUM", "PROD"):
                raise Cannot(a.name)
            r = 0 if a.name == "SUM" else 1
            for i in range(lo, hi):
                v = self.term(body, {**b, name: i})
                r = r + v if a.name == "SUM" else r * v
            return r
        nm = a.name
        if nm == "ITE":
            return self.term(a.args[1] if self.formula(a.args[0], b) else a.args[2], b)
        args = [self.term(x, b) if isinstance(x, T) else self.formula(x, b) for x in a.args]
        if nm == "POW":
            if args[0] == 0 and args[1] < 0:
                raise Cannot("0 power")
            if abs(args[1]) > 60:
                raise Cannot("large power")
            return args[0] ** (int(args[1]) if args[1] == int(args[1]) else float(args[1]))
        if nm in ("exp", "sin", "cos", "tanh", "sqrt"):
            try:
                return getattr(math, nm)(float(args[0]))
            except (ValueError, OverflowError):
                raise Cannot(nm)
        if nm in ("MOD", "DIV"):
            if args[1] <= 0:
                raise Cannot(nm)
            return args[0] % args[1] if nm == "MOD" else args[0] // args[1]
        if nm == "FLOOR":
            return math.floor(args[0])
        if nm == "CEIL":
            return math.ceil(args[0])
        if nm == "PI":
            return math.pi
        if nm in self.specs:
            cases = self.specs[nm](*a.args)
            if cases is not None:
                for g, v in cases:
                    if g is None or self.formula(g, b):
                        return self.term(v, b)
                raise Cannot("no case of " + nm)
        key = tuple(round(float(x), 9) for x in args)
        u = self.h(nm, key)
        return int(u * (4, 7, 10)[self.seed % 3]) if a.sort == "Int" else u * 3 - 1.5

    def formula(self, f, b):
        o = f.op
        if o == "true":
            return True
        if o == "false":
            return False
        if o == "le":
            return self.term(f.args[0], b) <= 0
        if o == "lt":
            return self.term(f.args[0], b) < 0
        if o == "eq":
            v = self.term(f.args[0], b)
            return v == 0 if not isinstance(v, float) else abs(v) < 1e-12
        if o == "not":
            return not self.formula(f.args[0], b)
        if o == "and":
            return all(self.formula(x, b) for x in f.args)
        if o == "or":
            return any(self.formula(x, b) for x in f.args)
        if o == "pred":
            args = [self.term(x, b) for x in f.args[1]]
            if not args:
                if f.args[0] not in self.vars:
                    self.vars[f.args[0]] = self.rng.random() < 0.5
                return self.vars[f.args[0]]
            return self.h(f.args[0], tuple(round(float(x), 9) for x in args)) < 0.5
        if o == "ex":
            nb, lo, hi, body = f.args
            name = single_atom(nb).name
            lo, hi = int(self.term(lo, b)), int(self.term(hi, b))
            if hi - lo > 60:
                raise Cannot("range")
            return any(self.formula(body, {**b, name: i}) for i in range(lo, hi))
        raise Cannot(o)


def agree(a, b, model, specs, tries=12):
    """True when both terms could be evaluated at several samples and agreed at every one of them"""
    n = 0
    for seed in range(tries):
        e = Env(model, seed, specs)
        try:
            x, y = e.term(a, {}), e.term(b, {})
        except (Cannot, OverflowError, ZeroDivisionError, RecursionError):
            continue
        n += 1
        if abs(x - y) > 1e-8 * (1 + abs(x) + abs(y)):
            return False
    return n >= 4


def has_binders(fs):
    return any(a.kind == "bind" for f in fs for a in closure_atoms(f))


def witness(pc, goal, model, specs, tries=6000, seconds=6.0):
    """an assignment (small integers, sampled functions) that satisfies the path condition and falsifies the goal"""
    import time
    end = time.time() + seconds
    for seed in range(tries):
        if time.time() > end:
            return None
        e = Env(model if seed % 5 == 0 else None, seed, specs)
        try:
            if all(e.formula(p, {}) for p in pc) and not e.formula(goal, {}):
                return {str(k): v for k, v in e.vars.items()}
        except (Cannot, OverflowError, ZeroDivisionError, RecursionError):
            continue
    return None


def witness_eq(pc, a, b, model, specs, tries=3000, seconds=4.0):
    """an assignment that satisfies the path condition and makes the two terms differ clearly"""
    import time
    end = time.time() + seconds
    for seed in range(tries):
        if time.time() > end:
            return None
        e = Env(model if seed % 5 == 0 else None, seed, specs)
        try:
            if all(e.formula(p, {}) for p in pc):
                x, y = e.term(a, {}), e.term(b, {})
                if abs(x - y) > 1e-6 * (1 + abs(x) + abs(y)):
                    return {str(k): v for k, v in e.vars.items()}
        except (Cannot, OverflowError, ZeroDivisionError, RecursionError):
            continue
    return None
