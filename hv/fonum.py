"""Multiprecision evaluation of the fixed-order graphs (eigenvalues and -vectors by definition)."""
import random
from fractions import Fraction as Fr
import mpmath as mp
from . import fo, fperr, graph as G
from .interp import Cx, Ref


def tiny(x, big):
    return abs(x) < big * mp.mpf(10) ** (-mp.mp.dps * 2 // 3)


class Num(fperr.Point):
    """pv: (A0(m2,q2), B0(p2,m1,m2,q2), dB0(m1,m2)) used for the opaque one-loop integrals"""

    def __init__(self, assign, pv):
        super().__init__(assign)
        self.pv = pv
        self.mem = {}

    def spectral(self, kind, a):
        k = (kind,) + tuple(a)
        r = self.mem.get(k)
        if r is None:
            n = int(round(len(a) ** .5))
            m = mp.matrix(n, n)
            for i in range(n):
                for j in range(n):
                    m[i, j] = a[i * n + j]
            if kind == "herm":          # m = z^T w z, ascending
                w, q = mp.eigsy(m)
                r = (list(w), [[q[j, i] for j in range(n)] for i in range(n)])
            elif kind == "sym":         # m = z^T |w| z with complex z, ascending
                w, q = mp.eigsy(m)
                o = sorted(range(n), key=lambda i: abs(w[i]))
                r = ([abs(w[i]) for i in o], [[q[j, i] * (1 if w[i] > 0 else mp.mpc(0, 1)) for j in range(n)] for i in o])
            else:                       # m = u^T s v, ascending
                u, s, v = mp.svd_r(m)
                o = list(range(n))[::-1]
                r = ([s[i] for i in o], [[u[j, i] for j in range(n)] for i in o], [[v[i, j] for j in range(n)] for i in o])
            self.mem[k] = r
        return r

    def node(self, n, a):
        if n.op == "f":
            nm = str(n.a[0])
            if nm.startswith(("eig:", "evec:")):
                t = nm.split(":")
                r = self.spectral(t[1], a)
                if t[0] == "eig":
                    return r[0][int(t[2])]
                v = r[int(t[2])][int(t[3][0])][int(t[3][1])]
                return mp.im(v) if t[4] == "i" else mp.re(v)
            if nm == "b0":
                p, m1, m2, q = [abs(x) for x in (a if len(a) == 4 else (a[0], a[1], a[1], a[2]))]
                p, m1, m2 = [mp.mpf(0) if tiny(x, q) else x for x in (p, m1, m2)]
                return self.pv[1](p, m1, m2, q) if p + m1 + m2 else mp.mpf(0)
            if nm == "a0":
                return mp.mpf(0) if tiny(a[0], a[1]) else self.pv[0](abs(a[0]), abs(a[1]))
            if nm == "d1_b0":
                return self.pv[2](*[abs(x) for x in a])
        return super().node(n, a)


class Graphs(fo.Fo):
    """fixed-order graphs for numerical evaluation: eigenvectors with their complex phases"""

    def __init__(self, P_, **kw):
        super().__init__(P_, extra=self.hook, **kw)

    def hook(self, I, f, args, this):
        b = f.qn.split("::")[-1]
        if not f.qn.startswith("himalaya::"):
            return NotImplemented
        if b in ("fs_diagonalize_hermitian", "fs_diagonalize_symmetric") and len(args) == 3 or b == "fs_svd" and len(args) == 4:
            m = I.tomat(I.get(args[0]) if isinstance(args[0], Ref) else args[0])
            n = m.r
            ent = [m.at(i, j) for i in range(n) for j in range(n)]
            kd = {"fs_diagonalize_hermitian": "herm", "fs_diagonalize_symmetric": "sym", "fs_svd": "svd"}[b]
            self.put(args[1], [G.fn("eig:%s:%d" % (kd, i), *ent) for i in range(n)])

            def ev(k, c):
                return [G.fn("evec:%s:%d:%d%d:%s" % (kd, k, i, j, c), *ent) for i in range(n) for j in range(n)]
            if kd == "sym":
                self.put(args[2], [Cx(x, y) for x, y in zip(ev(1, "r"), ev(1, "i"))])
            else:
                self.put(args[2], ev(1, "r"))
                if kd == "svd":
                    self.put(args[3], ev(2, "r"))
            return None
        if b in ("a0", "b0", "d1_b0"):
            return G.fn(b, *[I.get(x) if isinstance(x, Ref) else x for x in args])
        return NotImplemented


def complete(a):
    """masses of the third generation and of the vector bosons from the Lagrangian parameters"""
    s2 = mp.sqrt(2)
    v = mp.sqrt(a["p.vu"] ** 2 + a["p.vd"] ** 2)
    a["p.Mt"] = a["p.Yu(2,2)"] * a["p.vu"] / s2
    a["p.Mb"] = a["p.Yd(2,2)"] * a["p.vd"] / s2
    a["p.Mtau"] = a["p.Ye(2,2)"] * a["p.vd"] / s2
    a["p.MW"] = a["p.g2"] * v / 2
    a["p.MZ"] = mp.sqrt(a["p.g2"] ** 2 + a["p.g1"] ** 2 * 3 / 5) * v / 2
    tb = a["p.vu"] / a["p.vd"]
    for nm, s2n, L, R, A, m, x in (("MSt", "s2t", "mq2", "mu2", "Au", "Mt", 1 / tb), ("MSb", "s2b", "mq2", "md2", "Ad", "Mb", tb), ("MStau", "s2tau", "ml2", "me2", "Ae", "Mtau", tb)):
        X = a["p.%s(2,2)" % A] - a["p.mu"] * x
        l, r, f = a["p.%s(2,2)" % L], a["p.%s(2,2)" % R], a["p." + m]
        w, q = mp.eigsy(mp.matrix([[l + f * f, f * X], [f * X, r + f * f]]))
        a["p.%s(0)" % nm], a["p.%s(1)" % nm] = mp.sqrt(w[0]), mp.sqrt(w[1])
        a["p." + s2n] = 2 * f * X / (w[0] - w[1]) if w[1] != w[0] else mp.mpf(0)
    return a


def spectrum(seed, v, tb=None, gauge=1, yu=1, yd=1, ye=1, equal=()):
    """parameter point with SUSY masses of order one and electroweak scale v"""
    r = random.Random(seed)
    q = fperr.mpq

    def R(a, b):
        return q(Fr(r.randint(int(a * 10000), int(b * 10000)), 10000))
    a = {}
    t = R(1.2, 6)
    t = q(tb) if tb else t
    a["p.vd"] = q(v) / mp.sqrt(1 + t * t)
    a["p.vu"] = a["p.vd"] * t
    a["p.g1"], a["p.g2"], a["p.g3"] = R(.3, .6) * gauge, R(.5, .8) * gauge, mp.mpf(1)
    for m in ("mq2", "mu2", "md2", "ml2", "me2"):
        for k in range(3):
            a["p.%s(%d,%d)" % (m, k, k)] = R(.6, 2.5) ** 2
    for x in ("M1", "M2", "mu", "MA", "scale", "MG"):
        a["p." + x] = R(.5, 2.5)
    for x in ("M1", "M2", "mu"):
        a["p." + x] *= r.choice((1, -1))
    for x in ("Au", "Ad", "Ae"):
        for k in range(3):
            a["p.%s(%d,%d)" % (x, k, k)] = R(-2, 2)
    for x, f in (("Yu", yu), ("Yd", yd), ("Ye", ye)):
        a["p.%s(2,2)" % x] = R(.3, .9) * f
        for k in range(2):
            a["p.%s(%d,%d)" % (x, k, k)] = mp.mpf(0)
    for i, j in equal:
        a[i] = a[j]
    for i in range(3):
        for j in range(3):
            if i != j:
                for m in ("mq2", "mu2", "md2", "ml2", "me2", "Au", "Ad", "Ae", "Yu", "Yd", "Ye"):
                    a["p.%s(%d,%d)" % (m, i, j)] = mp.mpf(0)
    return complete(a)
