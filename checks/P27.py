"""P27: one-loop integrals A0, B0 and dB0/dp2."""
from fractions import Fraction as Fr
import mpmath as mp
from hv import program, interp, fperr, graph as G

LEVEL = "static"
RULE = ("the value graphs of a0, b0xx, b0 and d1_b0 are evaluated in 120-digit arithmetic at representatives of every guard cell (both sides of each guard, log-spaced in p^2/m^2 and m1^2/m2^2 over more than 30 decades, thresholds, "
        "exactly equal and vanishing arguments) and compared with the defining integrals; a first-order rounding-error bound (adjoint over the graph) of the selected branch must stay small; exchange of the masses, "
        "signs of the squared arguments and the dependence on the renormalisation scale are compared as well")
ASSUMPTIONS = ["elementary functions are correctly rounded to one unit in the last place", "double precision without overflow or underflow"]
W = "source/himalaya/mh2_fo/PV.cpp"
NS = "himalaya::mh2_fo::"
TOL = mp.mpf(10) ** -7          # sqrt(epsilon) at the pair threshold


def B0(p, m1, m2, q):
    """real part of B0"""
    if p == 0:
        if m1 == m2:
            return -mp.log(m1 / q)
        a, b = min(m1, m2), max(m1, m2)
        return 1 - mp.log(b / q) + (a * mp.log(b / a) / (a - b) if a else 0)
    if m1 == 0 and m2 == 0:
        return 2 - mp.log(p / q)
    if m1 == 0 or m2 == 0:
        m = max(m1, m2)
        return 2 - mp.log(m / q) + ((m - p) / p * mp.log(abs(m - p) / m) if m != p else 0)
    s = p - m2 + m1
    k = s * s - 4 * p * m1
    d = 2 - mp.log(m1 * m2 / q ** 2) / 2 + (m1 - m2) / (2 * p) * mp.log(m2 / m1)
    # Kaellen function < 0: below threshold, > 0: logarithm
    if k < 0:
        r = mp.sqrt(-k)
        return d - r / p * (mp.atan2(r, m1 + m2 - p))
    r = mp.sqrt(k)
    x = (m1 + m2 - p + r) / 2
    return d + r / p * mp.log(abs(x) / mp.sqrt(m1 * m2)) if r else d


def DB0(a, b):
    if a == b:
        return 1 / (6 * a)
    if a == 0 or b == 0:
        return 1 / (2 * max(a, b))
    return ((a - b) * (a + b) + 2 * a * b * mp.log(b / a)) / (2 * (a - b) ** 3)


def A0(m, q):
    return m * (1 - mp.log(m / q)) if m else mp.mpf(0)


class Fn:
    def __init__(self, L, P, I, name, n):
        self.L, self.name = L, name
        self.args = ["p2", "m12", "m22", "q2"]
        self.args = {"a0": ["m2", "q2"], "b0xx": ["p2", "m2", "q2"], "b0": ["p2", "m12", "m22", "q2"], "d1_b0": ["m12", "m22"]}[name]
        self.g = G.tn(I.call(P.fn(NS + name, n), [G.var(x) for x in self.args]))
        self.worst = {}
        self.n = 0

    def at(self, key, args, ref, scale=None, err=True):
        self.n += 1
        pt = fperr.Point(dict(zip(self.args, args)))
        try:
            v = pt.val(self.g)
            e = pt.error(self.g) if err else mp.mpf(0)
        except fperr.Undefined:
            v, e = mp.nan, mp.mpf(0)
        s = scale if scale is not None else max(1, abs(ref))
        d = abs(v - ref) / s if mp.isfinite(v) else mp.inf
        r = e / s if mp.isfinite(e) else mp.inf
        w = self.worst.setdefault(key, [0, 0, None, None])
        if not d <= w[0]:
            w[0], w[2] = d, args
        if not r <= w[1]:
            w[1], w[3] = r, args

    def done(self):
        for k, (d, r, a, b) in self.worst.items():
            txt = []
            if not d < TOL:
                txt.append("differs by %s from the integral at %s" % (mp.nstr(d, 3), self.fmt(a)))
            if not r < TOL / 10:
                txt.append("rounding errors amplified to %s at %s" % (mp.nstr(r, 3), self.fmt(b)))
            self.L.ob(self.name, k, not txt, W + " " + self.name, "; ".join(txt))

    def fmt(self, a):
        return ", ".join("%s = %s" % (x, mp.nstr(fperr.mpq(y), 12)) for x, y in zip(self.args, a))


def decades(lo, hi, fs):
    return [Fr(10) ** k * f for k in range(lo, hi + 1) for f in fs]


def around(x, ks=(3, 6, 9, 12)):
    return [x] + [x * (1 + s * Fr(1, 10 ** k)) for k in ks for s in (1, -1)]


def run(L):
    mp.mp.dps = 120
    P = program.Program()
    I = interp.Interp(P)
    I.keep_log1p = True
    thorough = L.tier != "quick"
    f = {n: Fn(L, P, I, n, k) for n, k in (("a0", 2), ("b0xx", 3), ("b0", 4), ("d1_b0", 2))}
    q = fperr.mpq
    two = Fr(3, 2)
    # A0
    for m in decades(-12, 12, (1, Fr(7, 3))):
        for Q in (two, Fr(10) ** 6):
            for s in (1, -1):
                f["a0"].at("sign %+d" % s, (s * m, Q), A0(q(m), q(Q)), abs(q(m)))
    f["a0"].at("zero", (0, two), 0)
    # B0 for equal masses
    grid = decades(-24, 24, (1, 2, Fr(7, 2)) if not thorough else (1, Fr(3, 2), 2, 3, Fr(9, 2), 7))
    for th in (4, Fr(1, 1000), 100, 10 ** 15):
        grid += around(Fr(th))
    for t in grid:
        for m, Q in ((1, two), (Fr(10) ** 6, Fr(10) ** 4)):
            f["b0xx"].at(dec("p2/m2", t), (t * m, m, Q), B0(q(t * m), q(m), q(m), q(Q)), None, t != 4)
        f["b0xx"].at("signs", (-t, -1, -two), B0(q(t), q(1), q(1), q(two)), None, False)
        f["b0"].at("equal masses", (t, 1, 1, two), B0(q(t), q(1), q(1), q(two)), None, t != 4)
    for n, a in (("b0xx", (0, 1, two)), ("b0xx", (1, 0, two)), ("b0", (0, 1, 1, two)), ("b0", (1, 0, 0, two))):
        f[n].at("vanishing argument", a, B0(q(a[0]), q(a[1]), q(a[-2]), q(two)))
    # B0 for different masses
    ratios = decades(-36, -1, (1, Fr(7, 2)) if thorough else (Fr(2),)) + [Fr(3, 10), Fr(1, 2), Fr(7, 10), Fr(9, 10), Fr(99, 100)] + [1 - Fr(1, 10 ** k) for k in range(3, 17)] + [Fr(0)]
    ratios += around(Fr(1, 10 ** 15), (3, 9)) + around(Fr(1, 10 ** 30), (3, 9))
    for i, r in enumerate(ratios):
        ps = decades(-26, 26, (1, 3) if thorough else (Fr(2) if i % 2 else Fr(5),)) + [Fr(0)]
        if r:
            ps += around(r * Fr(1, 10 ** 11), (3, 9))
        rt = Fr(*mp_ratio(r))
        for th in (Fr(1), (1 - rt) ** 2, (1 + rt) ** 2, 1 - r, 1 + r):
            if th > 0:
                ps += [th] + [th * (1 + s * Fr(1, 10 ** k)) for k in ((3, 7, 12) if thorough else (3, 8)) for s in (1, -1)]
        if r and i % 4 == 0 or thorough:
            ps += [1001 * r, 999 * r, 1000 - r, Fr(10 ** 3)]
        for p in ps:
            ref = B0(q(p), q(r), q(1), q(two))
            f["b0"].at(dec("m1^2/m2^2", r), (p, r, 1, two), ref, None, p not in THR(r, rt))
            if i % 5 == 0:
                f["b0"].at("exchanged masses", (p, 1, r, two), ref, None, False)
                f["b0"].at("signs", (-p, -r, -1, -two), ref, None, False)
                s = Fr(10) ** 5
                f["b0"].at("other units", (p * s, r * s, s, two * s), ref, None, False)
    # dB0/dp2
    for i, r in enumerate(ratios + [1 + Fr(1, 10 ** k) for k in range(1, 16)] + around(Fr(105, 100), (3, 9)) + around(Fr(95, 100), (3, 9)) + around(Fr(1, 10 ** 14), (3, 9)) + [Fr(1)] + decades(1, 30, (2,))):
        ref = DB0(q(r), q(1))
        f["d1_b0"].at(dec("m1^2/m2^2", r), (r, 1), ref, abs(ref))
        f["d1_b0"].at("exchanged masses", (1, r), ref, abs(ref), False)
        s = Fr(10) ** 5
        f["d1_b0"].at("other units", (r * s, s), ref / q(s), abs(ref / q(s)), False)
        f["d1_b0"].at("signs", (-r, -1), ref, abs(ref), False)
    for x in f.values():
        x.done()
    L.extra["points"] = sum(x.n for x in f.values())
    L.funcs |= I.funcs_seen
    L.assumptions += ASSUMPTIONS


def THR(r, rt):
    """square-root thresholds: derivative infinite, the bound does not exist"""
    return ((1 - rt) ** 2, (1 + rt) ** 2, Fr(1) if r == 0 else None)


def mp_ratio(r):
    with mp.workdps(40):
        x = mp.sqrt(fperr.mpq(r))
        e = int(mp.floor(mp.log10(x))) if x else 0
        k = 30 - e
        return int(mp.nint(x * mp.mpf(10) ** k)), 10 ** k


def dec(name, t):
    if t == 0:
        return name + " = 0"
    if abs(t - 1) < Fr(1, 10):
        k = 0
        while abs(t - 1) * 10 ** k < 1 and k < 20:
            k += 1
        return name + (" = 1" if t == 1 else " = 1%s1e-%d" % ("-+"[t > 1], k))
    k = 0
    while t * Fr(10) ** -k >= 10:
        k += 1
    while t * Fr(10) ** -k < 1:
        k -= 1
    return name + " ~ 1e%d" % k
