"""Truncated Laurent series with high-precision real coefficients: the limit of a value graph at a degenerate
mass configuration when the compared branch contains rounded decimal coefficients (GF(p) cannot compare those)."""
from fractions import Fraction as Fr
import mpmath as mp
from . import graph as G
from .graph import N
from .field import Bad

PREC = 110
TINY = mp.mpf(10) ** -55


class S:
    __slots__ = ("v", "c")

    def __init__(self, v, c):
        self.v = v
        self.c = c


def norm(s):
    c = s.c
    k = 0
    while k < len(c) and c[k] == 0:
        k += 1
    return S(s.v + k, c[k:]) if k else s


def add(a, b):
    v = min(a.v, b.v)
    n = max(0, min(a.v + len(a.c), b.v + len(b.c)) - v)
    out = []
    for k in range(v, v + n):
        x = a.c[k - a.v] if k >= a.v else mp.mpf(0)
        y = b.c[k - b.v] if k >= b.v else mp.mpf(0)
        out.append(zap([x, y]))
    return S(v, out)


def zap(t):
    """sum of terms; a sum that cancels to rounding accuracy is zero"""
    r = sum(t)
    return mp.mpf(0) if abs(r) < TINY * max((abs(x) for x in t), default=0) else r


def mul(a, b):
    a, b = norm(a), norm(b)
    n = min(len(a.c), len(b.c))
    return S(a.v + b.v, [zap([a.c[i] * b.c[k - i] for i in range(k + 1) if a.c[i] and b.c[k - i]]) for k in range(n)])


def sinv(a):
    a = norm(a)
    if not a.c:
        raise Bad("division by a vanishing series")
    x = a.c
    y = [1 / x[0]]
    for k in range(1, len(x)):
        y.append(-zap([x[j] * y[k - j] for j in range(1, k + 1) if x[j]]) * y[0])
    return S(-a.v, y)


def scale(f, a):
    return S(a.v, [f * x for x in a.c])


def deriv(a):
    return S(a.v - 1, [(a.v + k) * x for k, x in enumerate(a.c)])


def integ(a, c0):
    out = {}
    for k, x in enumerate(a.c):
        if a.v + k == -1:
            if abs(x) > TINY:
                raise Bad("log-divergent integral")
            continue
        out[a.v + k + 1] = x / (a.v + k + 1)
    if any(m < 0 and abs(x) > TINY for m, x in out.items()):
        raise Bad("singular primitive")
    hi = max(0, a.v + len(a.c))
    return S(0, [c0] + [out.get(k, mp.mpf(0)) for k in range(1, hi + 1)])


def phi_value(x, y, z):
    x, y, z = sorted((x, y, z))
    u, v = x / z, y / z
    l2 = (1 - u - v) ** 2 - 4 * u * v
    lam = mp.sqrt(mp.mpc(l2))
    X, Y = (1 + u - v - lam) / 2, (1 - u + v - lam) / 2
    p = (2 * mp.log(X) * mp.log(Y) - mp.log(u) * mp.log(v) - 2 * mp.polylog(2, X) - 2 * mp.polylog(2, Y)
         + mp.pi ** 2 / 3) / lam
    return mp.re(p) * z * l2 / 2


CONSTS = {"K:pi": lambda: +mp.pi, "K:zeta3": lambda: mp.zeta(3), "K:S2": lambda: 4 / (9 * mp.sqrt(3)) * mp.clsin(2, mp.pi / 3)}


class NumSeries:
    """assign: name -> list of coefficients (Fractions)"""

    def __init__(self, order, assign):
        self.n = order
        self.assign = assign
        self.v = {}

    def const(self, x):
        return S(0, [x] + [mp.mpf(0)] * (self.n - 1))

    def val(self, root):
        for n in G.topo([root]):
            if n.id not in self.v:
                self.v[n.id] = self.node(n)
        return norm(self.v[root.id])

    def node(self, n):
        op = n.op
        if op == "c":
            return self.const(mp.mpf(n.a[0].numerator) / n.a[0].denominator)
        if op == "v":
            nm = n.a[0]
            if nm in CONSTS:
                return self.const(CONSTS[nm]())
            c = self.assign(nm)
            c = [mp.mpf(Fr(x).numerator) / Fr(x).denominator for x in c]
            return S(0, (c + [mp.mpf(0)] * self.n)[:self.n])
        a = [self.v[x.id] for x in n.a if isinstance(x, N)]
        if op == "+":
            return add(a[0], a[1])
        if op == "*":
            return mul(a[0], a[1])
        if op == "/":
            return mul(a[0], sinv(a[1]))
        if op == "f":
            nm = n.a[0]
            if nm == "abs":
                s = norm(a[0])
                return s if not s.c or s.c[0] > 0 else scale(mp.mpf(-1), s)
            if nm == "sqrt":
                return self.sqrt(a[0])
            if nm == "log":
                return self.log(a[0])
            if nm == "dilog":
                return self.dilog(a[0])
            if nm == "phi_xyz":
                return self.phi(*a)
        raise Bad("series of %s" % (n.a[0] if op == "f" else op))

    def sqrt(self, s):
        s = norm(s)
        if not s.c or s.v % 2 or s.c[0] < 0:
            raise Bad("sqrt of a singular series")
        r = [mp.sqrt(s.c[0])]
        for k in range(1, len(s.c)):
            r.append(zap([s.c[k]] + [-r[j] * r[k - j] for j in range(1, k)]) / (2 * r[0]))
        return S(s.v // 2, r)

    def log(self, s):
        s = norm(s)
        if not s.c or s.v != 0 or s.c[0] <= 0:
            raise Bad("log of a singular series")
        return integ(mul(deriv(s), sinv(s)), mp.log(s.c[0]))

    def dilog(self, s):
        # d Li2(s) = -log(1-s)/s ds
        t = norm(s)
        if not t.c:
            return s
        if t.v < 0:
            raise Bad("dilog at infinity")
        c0 = t.c[0] if t.v == 0 else mp.mpf(0)
        om = add(self.const(mp.mpf(1)), scale(mp.mpf(-1), s))
        return integ(mul(scale(mp.mpf(-1), mul(self.log(om), sinv(t))), deriv(t)), mp.re(mp.polylog(2, c0)) if c0 else c0)

    def phi(self, x, y, z):
        neg = lambda s: scale(mp.mpf(-1), s)
        half = mp.mpf(1) / 2
        x, y, z = norm(x), norm(y), norm(z)
        if any(s.v != 0 for s in (x, y, z)):
            raise Bad("phi at a vanishing argument")
        iz = sinv(z)
        u, v = mul(x, iz), mul(y, iz)
        lu, lv = self.log(u), self.log(v)
        w = add(add(self.const(mp.mpf(1)), neg(u)), neg(v))
        lam2 = norm(add(mul(w, w), scale(mp.mpf(-4), mul(u, v))))
        if lam2.v != 0:
            raise Bad("phi on its threshold")
        g = add(mul(deriv(z), iz), scale(half, mul(deriv(lam2), sinv(lam2))))
        h = add(mul(add(scale(mp.mpf(2), lu), mul(mul(w, sinv(u)), lv)), deriv(u)),
                mul(add(scale(mp.mpf(2), lv), mul(mul(w, sinv(v)), lu)), deriv(v)))
        h = scale(half, mul(z, h))
        m = min(g.v + len(g.c), h.v + len(h.c))
        dn = lambda s: [s.c[k - s.v] if 0 <= k - s.v < len(s.c) else mp.mpf(0) for k in range(m)]
        gg, hh = dn(g), dn(h)
        f = [phi_value(x.c[0], y.c[0], z.c[0])]
        for k in range(m):
            f.append(zap([hh[k]] + [gg[j] * f[k - j] for j in range(k + 1)]) / (k + 1))
        return S(0, f)
