"""P28: special functions: dilogarithm (real and complex), Clausen function, Phi."""
from fractions import Fraction as Fr
import mpmath as mp
from hv import program, interp, fperr, graph as G

LEVEL = "static"
RULE = ("the value graphs of the two dilog overloads, clausen_2 and phi_xyz are evaluated in 60-digit arithmetic at representatives of every guard cell (both sides of each guard, log-spaced magnitudes, all quadrants, exact special points, "
        "every permutation of the arguments of Phi and other units) and compared with the defining functions; a first-order rounding-error bound (adjoint over the graph) of the selected branch must stay small")
ASSUMPTIONS = ["elementary functions are correctly rounded to one unit in the last place", "double precision without overflow or underflow"]
LI = "source/himalaya/misc/Li2.cpp"
TF = "source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp"
q = fperr.mpq


def phi(x, y, z):
    """Delta(x,y,z)/(2 z) * Phi(x,y,z) with the masses sorted"""
    x, y, z = sorted((q(x), q(y), q(z)))
    u, v = x / z, y / z
    l2 = (1 - u - v) ** 2 - 4 * u * v
    if l2 == 0:
        return mp.mpf(0)
    l = mp.sqrt(mp.mpc(l2))
    a, b = 2 * u / (1 + u - v + l), 2 * v / (1 - u + v + l)
    F = (2 * mp.log(a) * mp.log(b) - mp.log(u) * mp.log(v) - 2 * mp.polylog(2, a) - 2 * mp.polylog(2, b) + mp.pi ** 2 / 3) / l
    return mp.re(F) * z * l2 / 2


class Fn:
    def __init__(self, L, roots, names, where, tol):
        self.L, self.roots, self.names, self.where, self.tol = L, [G.tn(r) for r in roots], names, where, tol
        self.worst = {}

    def at(self, key, args, ref, vs, es=None):
        """ref: list of values, vs: scale of the value comparison, es: scale of the rounding errors"""
        pt = fperr.Point(dict(zip(self.names, args)))
        try:
            val = [pt.val(r) for r in self.roots]
            e = max([pt.error(r) for r in self.roots]) if es is not None else mp.mpf(0)
        except fperr.Undefined:
            val, e = [mp.nan], mp.mpf(0)
        d = max([abs(a - b) if mp.isfinite(a) else mp.inf for a, b in zip(val, ref)])
        d = d / vs if vs else (mp.mpf(0) if d == 0 else mp.inf)
        r = e / es if es and mp.isfinite(e) else (mp.inf if es else mp.mpf(0))
        w = self.worst.setdefault(key, [mp.mpf(0), mp.mpf(0), None, None, 0])
        w[4] += 1
        if not d <= w[0]:
            w[0], w[2] = d, args
        if not r <= w[1]:
            w[1], w[3] = r, args

    def done(self, kind):
        for k, (d, r, a, b, n) in self.worst.items():
            txt = []
            if not d < self.tol:
                txt.append("differs by %s (relative) from the function at %s" % (mp.nstr(d, 3), self.fmt(a)))
            if not r < 100 * self.tol:
                txt.append("rounding errors amplified to %s at %s" % (mp.nstr(r, 3), self.fmt(b)))
            self.L.ob(kind, k, not txt, self.where, "; ".join(txt))
        self.L.extra[kind] = "worst deviation %s, worst rounding error %s, %d points" % (
            mp.nstr(max(w[0] for w in self.worst.values()), 3), mp.nstr(max(w[1] for w in self.worst.values()), 3), sum(w[4] for w in self.worst.values()))

    def fmt(self, a):
        return ", ".join("%s = %s" % (x, mp.nstr(fperr.mpq(y), 12)) for x, y in zip(self.names, a))


def near(x, ks=(1, 2, 4, 8, 12)):
    return [x * (1 + s * Fr(1, 10 ** k)) for k in ks for s in (1, -1)]


def piq(n, d=1):
    """rational approximation of n/d*pi with 50 digits"""
    return Fr(int(mp.nint(mp.pi * 10 ** 50))) / 10 ** 50 * Fr(n, d)


def run(L):
    mp.mp.dps = 60
    thorough = L.tier != "quick"
    P = program.Program()
    I = interp.Interp(P)
    I.keep_log1p = True
    ov = {str(f.tu.types[f.params[0][2]]).count("complex") > 0: f for f in P.by_qn.get("himalaya::dilog", []) if len(f.params) == 1}
    L.need(set(ov) == {True, False}, "two overloads of dilog")
    x, y, z = G.var("x"), G.var("y"), G.var("z")

    # real dilogarithm
    F = Fn(L, [I.call(ov[False], [x])], ["x"], LI + " dilog", mp.mpf(10) ** -14)
    pts = [(s * Fr(10) ** k * m) for k in range(-18, 19) for m in (1, 2, 5) for s in (1, -1)]
    pts += [s * Fr(i, 16) for i in range(1, 80 if thorough else 56) for s in (1, -1)]
    for c in (Fr(1), Fr(2), Fr(1, 2), Fr(-1), Fr(-2)):
        pts += [c] + near(c)
    for t in pts:
        R = mp.re(mp.polylog(2, q(t)))
        key = "x < -1" if t < -1 else "x = -1" if t == -1 else "-1 < x < 0" if t < 0 else "0 < x < 1/2" if t < Fr(1, 2) else "1/2 <= x < 1" if t < 1 else "x = 1" if t == 1 else "1 < x < 2" if t < 2 else "x >= 2"
        s = abs(R) if abs(t) <= 2 else max(1, abs(R))
        F.at(key, (t,), [R], s, s)
    F.at("x = 0", (Fr(0),), [mp.mpf(0)], mp.mpf(1))
    F.done("dilog")

    # complex dilogarithm
    c = I.call(ov[True], [interp.Cx(x, y)])
    F = Fn(L, [c.re, c.im], ["Re z", "Im z"], LI + " dilog(complex)", mp.mpf(10) ** -13)
    F.names = ["x", "y"]
    mods = [Fr(10) ** k * m for k in range(-12, 13) for m in (1, 3)] + [Fr(i, 8) for i in range(1, 24)] + near(Fr(1), (1, 2, 4))
    dirs = [(Fr(3, 5), Fr(4, 5)), (Fr(4, 5), Fr(3, 5)), (Fr(99, 101), Fr(20, 101)), (Fr(20, 101), Fr(99, 101)), (Fr(1999999, 2000001), Fr(2827, 2000001)), (Fr(0), Fr(1)), (Fr(1, 2), Fr(55, 64))]
    if thorough:
        dirs += [(Fr(1 - t * t, 1) / (1 + t * t), 2 * t / (1 + t * t)) for t in (Fr(1, 50), Fr(1, 7), Fr(1, 4), Fr(7, 10), Fr(9, 10), Fr(49, 50))]

    def cpt(a, b):
        w = mp.mpc(q(a), q(b))
        R = mp.polylog(2, w)
        n = a * a + b * b
        key = "Re z %s 1/2, %s, %s half plane" % ("<=" if a <= Fr(1, 2) else ">", ("|z| <= 1" if n <= 1 else "|z| > 1") if a <= Fr(1, 2) else ("|z|^2 <= 2 Re z" if n <= 2 * a else "|z|^2 > 2 Re z"), "upper" if b > 0 else "lower")
        if n < Fr(1, 10 ** 15):
            key = "|z| -> 0"
        F.at(key, (a, b), [mp.re(R), mp.im(R)], abs(R), abs(R))
    for i, m in enumerate(mods):
        for j, (a, b) in enumerate(dirs):
            for sa, sb in ((1, 1), (-1, 1), (1, -1), (-1, -1)):
                if thorough or (i + j) % 2 == 0 or sa * sb > 0:
                    cpt(sa * m * a, sb * m * b)
    for a in [Fr(1, 2), Fr(1), Fr(3, 2), Fr(2)] + near(Fr(1, 2), (3, 9)) + near(Fr(1), (3, 9)):
        for b in (Fr(1, 10 ** 9), Fr(1, 1000), Fr(1, 2), Fr(3, 4), Fr(1), Fr(2)):
            cpt(a, b)
            cpt(a, -b)
    for t in (Fr(-5), Fr(-1), Fr(-1, 3), Fr(1, 3), Fr(3, 4), Fr(1)):
        F.at("real axis, x <= 1", (t, Fr(0)), [mp.re(mp.polylog(2, q(t))), mp.mpf(0)], mp.mpf(1))
    for t in (Fr(101, 100), Fr(3, 2), Fr(2), Fr(12), Fr(10 ** 6)):
        F.at("real axis, x > 1", (t, Fr(0)), [mp.re(mp.polylog(2, q(t))), -mp.pi * mp.log(q(t))], mp.mpf(1))
    F.done("complex dilog")

    # Clausen function
    F = Fn(L, [I.call(P.fn("himalaya::clausen_2", 1), [x])], ["x"], LI + " clausen_2", mp.mpf(10) ** -14)
    for k in range(-18, 0):
        for m in (1, 4):
            t = m * Fr(10) ** k
            R = mp.clsin(2, q(t))
            F.at("0 < x < pi/2", (t,), [R], abs(R), abs(R))
    for i in range(1, 64 if thorough else 40):
        for per in ((0, -1, 1, 3) if i % 5 == 0 or thorough else (0, -1)):
            t = piq(i, 20) + per * piq(2)
            t += Fr(1, 1000) if i % 20 == 0 else 0
            R = mp.clsin(2, q(t))
            u = abs(t) - (abs(t) // piq(2)) * piq(2)
            key = ("0 < x < pi/2" if u < piq(1, 2) else "pi/2 <= x < pi" if u < piq(1) else "pi < x < 2 pi") + (", negative argument" if t < 0 else "") + (", beyond the first period" if abs(t) > piq(2) else "")
            F.at(key, (t,), [R], max(abs(R), mp.mpf(10) ** -3), mp.mpf(1) * max(1, abs(q(t))))
    for k in (3, 6, 9):
        for c in (piq(1, 2), piq(1), piq(3, 2), piq(2)):
            for s in (1, -1):
                t = c + s * Fr(1, 10 ** k)
                R = mp.clsin(2, q(t))
                F.at("close to multiples of pi/2", (t,), [R], mp.mpf(10) ** -2, mp.mpf(1))
    F.at("x = 0", (Fr(0),), [mp.mpf(0)], mp.mpf(1))
    F.done("clausen_2")

    # Phi
    F = Fn(L, [I.call(P.fn("himalaya::mh2_eft::threshold_loop_functions::phi_xyz", 3), [x, y, z])], ["x", "y", "z"], TF + " phi_xyz", mp.mpf(10) ** -10)
    us = [Fr(10) ** k * m for k in (range(-15, 0) if thorough else (-14, -12, -9, -7, -6, -5, -4, -3, -2, -1)) for m in ((1, 3, 7) if thorough else (1, 3))] + [Fr(i, 10) for i in range(2, 10)] + [Fr(22, 10 ** 5), Fr(21, 10 ** 5), Fr(99, 100), Fr(1)]
    for i, u in enumerate(us):
        for v in us + [u * (1 + Fr(1, 1000)), u * (1 + Fr(1, 10 ** 8))]:
            if v < u or v > 1:
                continue
            l2 = (1 - u - v) ** 2 - 4 * u * v
            if l2 == 0:
                continue
            R = phi(u, v, Fr(1))
            key = ("lambda^2 > 0" if l2 > 0 else "lambda^2 < 0") + (", two equal masses" if u == v and v < 1 or v == 1 and u < 1 else ", three equal masses" if v == 1 else "") + (", one mass below 1/5000" if u < Fr(1, 5000) <= v else ", two masses below 1/5000" if v < Fr(1, 5000) else "")
            F.at(key, (u, v, Fr(1)), [R], abs(R), max(1, abs(R)))
            if (i % 3 == 0 or thorough) and u != v:
                for p in ((u, Fr(1), v), (v, u, Fr(1)), (v, Fr(1), u), (Fr(1), u, v), (Fr(1), v, u)):
                    F.at("permutations", p, [R], abs(R))
                s = Fr(5000 ** 2)
                F.at("other units", (u * s, v * s, s), [R * s], abs(R * s), max(1, abs(R)) * s)
    # close to lambda^2 = 0
    for u in [Fr(1, 4), Fr(1, 9), Fr(4, 9), Fr(1, 100), Fr(81, 100), Fr(1, 10 ** 4)]:
        r = Fr(int(mp.nint(mp.sqrt(q(u)) * 10 ** 20)), 10 ** 20)
        for k in (2, 3, 5, 7, 9, 11):
            for s in (1, -1):
                v = (1 - r) ** 2 * (1 + s * Fr(1, 10 ** k))
                R = phi(u, v, Fr(1))
                F.at("close to lambda^2 = 0, %s" % ("lambda^2 > 0" if s < 0 else "lambda^2 < 0"), (u, v, Fr(1)), [R], mp.mpf(10) ** -4, mp.mpf(1))
        F.at("lambda^2 = 0", (u, (1 - r) ** 2, Fr(1)), [mp.mpf(0)], mp.mpf(10) ** -4)
    F.done("phi_xyz")
    L.funcs |= set(I.funcs_seen)
    L.notes.append("Phi is Delta(x,y,z)/(2 z) times the Davydychev-Tausk function of the sorted squared masses; its sign and normalisation are those used by the two-loop thresholds")
