"""Concrete side of the checks: the real package, freshly built, against oracles written from the property statements.

Every case is a JSON object; `check(case)` returns None or a message.  Cases are replayed verbatim from replay files."""
import json, math, os, re, sys, time
from fractions import Fraction as Fr
import numpy as np

BASE = os.path.dirname(os.path.abspath(__file__))


def pkg():
    return os.environ["TFC_PKG"]


def literals(files):
    """integers written in the current sources that are not in the recorded tree, or occur more often (search heuristic only)"""
    with open(os.path.join(BASE, "literals.json")) as f:
        base = json.load(f)
    out = []
    for fn in files:
        p = os.path.join(pkg(), "tfc", fn)
        cnt = count_literals(p)
        for k, v in cnt.items():
            if v > base.get(fn, {}).get(k, 0):
                out.append(int(k))
    return sorted(set(x for x in out if 0 <= x <= 80))


def count_literals(p):
    try:
        s = open(p).read()
    except OSError:
        return {}
    cnt = {}
    for m in re.finditer(r"(?<![\w.])(\d+)(?:\.0*)?(?![\w.])", s):
        cnt[m.group(1)] = cnt.get(m.group(1), 0) + 1
    return cnt


class Gen:
    """case generator state: seeded randomness plus size hints"""

    def __init__(self, seed, hints, lits, tier):
        self.r = np.random.default_rng(seed)
        self.tier = tier
        self.hints = hints
        self.lits = lits

    def pick(self, xs):
        return xs[int(self.r.integers(len(xs)))]

    def size(self, lo, hi, name=None):
        """mostly small; sometimes a hinted or mined literal (or a neighbour of it)"""
        u = self.r.random()
        hs = [h[name] for h in self.hints if name in h and isinstance(h[name], int)]
        if hs and u < 0.5:
            return max(lo, min(int(self.pick(hs)) + int(self.r.integers(-1, 2)), hi + 60))
        if self.lits and u < 0.6:
            return max(lo, min(int(self.pick(self.lits)) + int(self.r.integers(-2, 3)), hi + 60))
        return int(self.r.integers(lo, hi + 1))

    def seed(self):
        return int(self.r.integers(2 ** 31))

    def flag(self, p=0.5):
        return bool(self.r.random() < p)

    def domain(self):
        x0 = round(float(self.r.uniform(-3, 3)), 3)
        return x0, round(x0 + float(self.r.uniform(0.3, 4)), 3)

    def subset(self, m, maxn=None):
        """distinct indices in [0,m), any order"""
        k = int(self.r.integers(0, (m if maxn is None else min(m, maxn)) + 1))
        return [int(v) for v in self.r.permutation(m)[:k]]


# ------------------------------------------------------------------ oracles
FAM = {
    "CP": ((1, 0), lambda k: (2, 0, 1)),
    "LeP": ((1, 0), lambda k: (Fr(2 * k - 1, k), 0, Fr(k - 1, k))),
    "LaP": ((-1, 1), lambda k: (Fr(-1, k), Fr(2 * k - 1, k), Fr(k - 1, k))),
    "HoPpro": ((1, 0), lambda k: (1, 0, k - 1)),
    "HoPphy": ((2, 0), lambda k: (2, 0, 2 * (k - 1))),
}
POLYS = list(FAM)
ELMS = ["ELMReLU", "ELMSigmoid", "ELMTanh", "ELMSin", "ELMSwish"]


def poly_row(fam, m, d, z):
    """[P_k^(d)(z) for k<m], exact arithmetic on exact z (Fraction or exact complex pair)"""
    (a1, b1), rec = FAM[fam]
    zero = z * 0
    prev = None
    for e in range(d + 1):
        row = []
        for k in range(m):
            if k == 0:
                v = zero + (1 if e == 0 else 0)
            elif k == 1:
                v = z * a1 + b1 if e == 0 else (zero + a1 if e == 1 else zero)
            else:
                a, b, c = rec(k)
                v = (z * a + b) * row[k - 1] - row[k - 2] * c
                if e:
                    v = v + prev[k - 1] * (e * a)
            row.append(v)
        prev = row
    return prev


class CQ:
    """exact complex number"""

    def __init__(self, re, im=0):
        self.re, self.im = Fr(re), Fr(im)

    def __add__(self, o):
        o = o if isinstance(o, CQ) else CQ(o)
        return CQ(self.re + o.re, self.im + o.im)

    __radd__ = __add__

    def __sub__(self, o):
        o = o if isinstance(o, CQ) else CQ(o)
        return CQ(self.re - o.re, self.im - o.im)

    def __mul__(self, o):
        o = o if isinstance(o, CQ) else CQ(o)
        return CQ(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)

    __rmul__ = __mul__

    def __complex__(self):
        return complex(float(self.re), float(self.im))


def fourier_row(m, d, z):
    out = []
    for k in range(m):
        g = (k + 1) // 2
        if k == 0:
            out.append(1.0 if d == 0 else 0.0)
        else:
            ph = d % 4
            f = [np.sin, np.cos, lambda t: -np.sin(t), lambda t: -np.cos(t)]
            i = (ph + (1 if k % 2 == 0 else 0)) % 4
            out.append(float(g) ** d * f[i](g * z))
    return out


def _dp(n, start, deriv):
    p = dict(start)
    for _ in range(n):
        q = {}
        for e, c in p.items():
            if e:
                for e2, c2 in deriv.items():
                    q[e - 1 + e2] = q.get(e - 1 + e2, 0) + c * e * c2
        p = q
    return p


def act(kind, k, a):
    """k-th derivative of the activation at a (mpmath precision)"""
    import mpmath as mp
    a = mp.mpf(float(a))
    if kind == "ELMReLU":
        if k == 0:
            return float(max(a, 0))
        if k == 1:
            return 1.0 if a > 0 else 0.0
        return 0.0
    if kind == "ELMSin":
        return float([mp.sin(a), mp.cos(a), -mp.sin(a), -mp.cos(a)][k % 4])
    with mp.workdps(40):
        if kind == "ELMTanh":
            s = mp.tanh(a)
            return float(sum(c * s ** e for e, c in _dp(k, {1: 1}, {0: 1, 2: -1}).items()))
        s = 1 / (1 + mp.exp(-a))
        sg = lambda n: sum(c * s ** e for e, c in _dp(n, {1: 1}, {1: 1, 2: -1}).items())
        if kind == "ELMSigmoid":
            return float(sg(k))
        return float(a * sg(k) + (k * sg(k - 1) if k else 0))


ACTMAX = {}


def actmax(kind, k):
    if (kind, k) not in ACTMAX:
        ACTMAX[kind, k] = max(abs(act(kind, k, a)) for a in np.linspace(-12, 12, 97)) + 1e-3
    return ACTMAX[kind, k]


def close(got, want, scale, what, tol=1e-7):
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        return f"{what}: shape {got.shape}, expected {want.shape}"
    if got.size == 0:
        return None
    with np.errstate(all="ignore"):
        bad = ~(np.abs(got - want) <= tol * scale)
    bad = np.broadcast_to(bad, got.shape)
    if bad.any():
        i = tuple(int(v) for v in np.argwhere(bad)[0])
        return f"{what}: entry {i} is {got[i]!r}, expected {want[i]!r} ({int(bad.sum())} of {got.size} entries wrong)"
    return None


def colscale(want):
    """per-column magnitude with a floor"""
    want = np.asarray(want)
    if want.size == 0:
        return 1.0
    return np.max(np.abs(want), axis=0, keepdims=True) + 1.0


def expect_exit(fn):
    """runs fn; returns (kind, value): 'ok' or 'refused' (any exception, including SystemExit)"""
    try:
        return "ok", fn()
    except SystemExit:
        return "refused", "exit"
    except Exception as e:  # noqa
        return "refused", repr(e)


def in_child(code, arg):
    """run python code (a module-level function name in this harness) in a child process; returns the exit status and stdout"""
    import subprocess
    p = subprocess.run([sys.executable, "-c", code, json.dumps(arg)], capture_output=True, text=True, timeout=120, env=dict(os.environ, PYTHONPATH=BASE + ":" + pkg()))
    return p.returncode, p.stdout, p.stderr
