"""Spec functions: the mathematical objects the contracts talk about."""
from core import *
from cxx import mexp, mtanh, msin, mcos

# three-term recurrences  p_k = (a_k x + b_k) p_{k-1} - c_k p_{k-2},  p_0 = 1, p_1 = a1 x + b1
FAM = {
    "CP": dict(p1=(1, 0), rec=lambda k: (t(2), t(0), t(1))),
    "LeP": dict(p1=(1, 0), rec=lambda k: ((2 * k - 1) / k, t(0), (k - 1) / k)),
    "LaP": dict(p1=(-1, 1), rec=lambda k: (t(-1) / k, (2 * k - 1) / k, (k - 1) / k)),
    "HoPpro": dict(p1=(1, 0), rec=lambda k: (t(1), t(0), k - 1)),
    "HoPphy": dict(p1=(2, 0), rec=lambda k: (t(2), t(0), 2 * (k - 1))),
}


def poly(fam):
    """P(e,k,x) = e-th derivative of the k-th polynomial at x.  The recurrence below is the e-th
    derivative (Leibniz) of the three-term recurrence; lean/Recurrence.lean proves that it characterises
    the iterated derivative."""
    name = "P_" + fam
    a1, b1 = FAM[fam]["p1"]

    def P(e, k, x):
        return t(mkatom("app", name, (t(e), t(k), t(x)), "Real"))

    def unfold(e, k, x):
        ctx = Ctx.current
        a, b, c = FAM[fam]["rec"](k) if k.iconst() not in (0, 1) else (t(0), t(0), t(0))
        rec = (a * x + b) * P(e, k - 1, x) + e * a * P(e - 1, k - 1, x) - c * P(e, k - 2, x)
        return [
            (And(Eq(k, 0), Eq(e, 0)), t(1)),
            (And(Eq(k, 0), Ge(e, 1)), t(0)),
            (And(Eq(k, 1), Eq(e, 0)), t(a1) * x + b1),
            (And(Eq(k, 1), Eq(e, 1)), t(a1)),
            (And(Eq(k, 1), Ge(e, 2)), t(0)),
            (And(Ge(k, 2), Ge(e, 0)), rec),
        ]

    SPEC.define(name, unfold)
    return P


def fourier(d, k, x):
    """[(guard, value)] cases of the d-th derivative of the k-th Fourier function"""
    g = simp_ceil(k / t(2))
    even = Eq(simp_mod(k, t(2)), 0)
    out = [(And(Eq(k, 0), Eq(d, 0)), t(1)), (And(Eq(k, 0), Ge(d, 1)), t(0))]
    s, c = msin(g * x), mcos(g * x)
    pw = power(g, d)
    for r in range(4):
        q = Eq(simp_mod(d, t(4)), r)
        out.append((And(Ge(k, 1), even, q), pw * [c, -s, -c, s][r]))
        out.append((And(Ge(k, 1), Not(even), q), pw * [s, c, -s, -c][r]))
    return out


SPEC.define("FOURIER", fourier)


def FOURIER(d, k, x):
    return t(mkatom("app", "FOURIER", (t(d), t(k), t(x)), "Real"))


# activations: derivative tables from the ODE s' = q(s) (lean/Derivatives.lean: ode_table, sigmoid_ode, tanh_ode, swish_table)
def _dpoly(n, deriv):
    """coefficients (in s) of the n-th derivative, s' = deriv(s) polynomial"""
    p = {1: 1}
    for _ in range(n):
        q = {}
        for e, c in p.items():
            if e:
                for e2, c2 in deriv.items():
                    q[e - 1 + e2] = q.get(e - 1 + e2, 0) + c * e * c2
        p = {e: c for e, c in q.items() if c}
    return p


def sigmoid_d(n, a):
    s = t(1) / (t(1) + mexp(-t(a)))
    return _ev(_dpoly(n, {1: 1, 2: -1}), s)


def tanh_d(n, a):
    return _ev(_dpoly(n, {0: 1, 2: -1}), mtanh(a))


def _ev(p, s):
    r = t(0)
    for e, c in p.items():
        r = r + t(c) * s ** e
    return r


def swish_d(n, a):
    # (a*sigma(a))^(n) = a sigma^(n) + n sigma^(n-1)
    r = t(a) * sigmoid_d(n, a)
    if n:
        r = r + n * sigmoid_d(n - 1, a)
    return r
