"""P33: fixed-order and EFT calculation agree at one loop for heavy superpartners."""
from fractions import Fraction as Fr
import mpmath as mp
from hv import program, fonum, thr, graph as G
from checks import P12
from checks.P27 import B0, A0, DB0

LEVEL = "static"
RULE = ("the value graphs of the fixed-order 1-loop self-energy (projected on the light Higgs boson) and of the EFT 1-loop correction with the value graphs of the threshold corrections inserted are evaluated in 110-digit arithmetic for "
        "spectra of superpartner masses of order one and an electroweak scale of 1e-13; after adding the known dependence on light fermion masses beyond the EFT orders, the difference must be the universal shift of v^2 from gauginos and "
        "higgsinos (computed from the momentum derivative of the same self-energy minus that of the standard model) which the EFT calculation omits")
ASSUMPTIONS = ["one-loop integrals: P27", "the diagonalisations of Linalg.hpp satisfy their documented decompositions", "cells of the parameter space are represented by points with generic masses"]
V = Fr(1, 10 ** 13)
PV = (A0, B0, DB0)
W = "source/himalaya/mh2_eft/ThresholdCalculator.cpp, Mh2EFTCalculator.cpp vs. source/himalaya/mh2_fo/MSSM_mass_eigenstates.cpp"
REL = mp.mpf(10) ** -9


def ent(m):
    return [G.tn(m.at(i, j)) for i in range(2) for j in range(2)]


class Calc:
    def __init__(self, P):
        self.K = 1 / (16 * mp.pi ** 2)
        self.F = F = fonum.Graphs(P)
        o = F.mass_eigenstates(0)
        self.m0 = ent(F.call(o, "get_mass_matrix_hh"))
        self.m1 = ent(F.call(o, "delta_mh2_1loop", G.var("p2")))
        self.E = P12.Eft(P)
        self.T = {}
        self.P = P
        self.funcs = set(F.I.funcs_seen)

    def thresholds(self, limit):
        if limit not in self.T:
            T = thr.Thr(self.P, inline_loops=True)
            T.set_limit(T.limits[limit])
            self.T[limit] = T
        return self.T[limit]

    def num(self, a):
        return fonum.Num(a, PV)

    def light(self, a):
        N = self.num(a)
        m = [N.val(n) for n in self.m0]
        w, q = mp.eigsy(mp.matrix([[m[0], m[1]], [m[2], m[3]]]))
        return w[0], q[:, 0]

    def se(self, a, p2, h):
        b = dict(a)
        b["p2"] = p2
        N = self.num(b)
        d = [N.val(n) for n in self.m1]
        return (h.T * mp.matrix([[d[0], d[1]], [d[2], d[3]]]) * h)[0]

    def eft(self, a, limit="GENERAL"):
        ks = [k for k in self.E.coup if not k.startswith(("FIRST", "NUMBER")) and k != "ONLY_AT_AS"]
        self.E.flags(ks)
        g = self.E.loop(1)
        T = self.thresholds(limit)
        N = self.num(a)
        for n in G.topo([g]):
            if n.op == "v" and n.a[0].startswith("thr:"):
                _, o, sch, l = n.a[0].split(":")
                N.assign[n.a[0]] = self.num(a).val(T.get(o, sch))
        self.vev = {o: self.num(a).val(T.get("VEV_" + o, "DRBARPRIME")) for o in ("YT2", "YB2", "YTAU2")}
        return N.val(g)

    # light fermions: the EFT expands in mt^2 > mh^2/4 and in mb, mtau -> 0
    def fermions(self, a, mh):
        v2 = a["p.vu"] ** 2 + a["p.vd"] ** 2
        Q = a["p.scale"] ** 2
        lm = mp.log(Q / a["p.Mt"] ** 2)
        m = a["p.Mt"] ** 2
        out = 3 * 2 * m / v2 * ((4 * m - mh) * B0(mh, m, m, Q) - (4 * m - mh) * lm - mh * 2 / 3)
        for n, c in (("p.Mb", 3), ("p.Mtau", 1)):
            m = a[n] ** 2
            if m:
                out += c * 2 * m / v2 * (4 * m - mh) * (B0(mh, m, m, Q) - B0(mh, mp.mpf(0), mp.mpf(0), Q))
        return self.K * out

    # standard model self-energy (Feynman gauge), momentum-dependent part
    def sm(self, a, mh, p):
        v2 = a["p.vu"] ** 2 + a["p.vd"] ** 2
        Q = a["p.scale"] ** 2
        z, w = a["p.MZ"] ** 2, a["p.MW"] ** 2

        def B(m):
            return B0(p, m, m, Q)
        r = mp.mpf(0)
        for n, c in (("p.Mt", 3), ("p.Mb", 3), ("p.Mtau", 1)):
            m = a[n] ** 2
            if m:
                r += c * 2 * m / v2 * (p - 4 * m) * B(m)
        for m, c in ((w, 2), (z, 1)):
            r += c * (m / v2 * -(2 * p + m) * B(m) + 7 * m / v2 * m * B(m) + mh ** 2 / v2 / 2 * B(m))
        r += mp.mpf(9) / 2 * mh ** 2 / v2 * B(mh)
        return -self.K * r

    def compare(self, a, limit="GENERAL"):
        """(difference FO - EFT in units of v^2/(16 pi^2), expected difference)"""
        v2 = a["p.vu"] ** 2 + a["p.vd"] ** 2
        mh, h = self.light(a)
        if a["p.g1"] == 0 and a["p.g2"] == 0:
            mh = mp.mpf(0)
        d = self.se(a, mh, h) - self.eft(a, limit) - self.fermions(a, mh)
        x = mp.mpf(0)
        if mh:
            e = mp.mpf(10) ** -15
            hi, lo = mh * (1 + e), mh * (1 - e)
            der = (self.se(a, hi, h) - self.se(a, lo, h) - self.sm(a, mh, hi) + self.sm(a, mh, lo)) / (2 * mh * e)
            yuk = 2 * self.K * sum(self.vev[o] * 2 * a["p." + m] ** 2 for o, m in (("YT2", "Mt"), ("YB2", "Mb"), ("YTAU2", "Mtau"))) / v2
            x = mh * (-der - yuk + self.K * mh / v2)
        return d / v2 / self.K, x / v2 / self.K


def run(L):
    mp.mp.dps = 110
    P = program.Program()
    C = Calc(P)
    z = mp.mpf(10) ** -12
    n = 6 if L.tier == "quick" else 40
    jobs = []
    for s in range(1, n + 1):
        jobs.append(("all couplings, spectrum %d" % s, dict(seed=s), "GENERAL"))
    for s, t in enumerate((Fr(1), Fr(1001, 1000), Fr(12), Fr(60), Fr(1, 2)), 101):
        jobs.append(("tan(beta) = %s" % float(t) if t != 1 else "tan(beta) = 1.00001", dict(seed=s, tb=t if t != 1 else Fr(100001, 100000)), "GENERAL"))
    for k, kw in (("gauge couplings and yt", dict(yd=0, ye=0)), ("gauge couplings and yb", dict(yu=z, ye=0)), ("gauge couplings and ytau", dict(yu=z, yd=0)), ("gauge couplings", dict(yu=z, yd=0, ye=0)), ("yt", dict(gauge=0, yd=0, ye=0))):
        for s in (201, 202) if L.tier == "quick" else range(201, 211):
            jobs.append(("only %s, spectrum %d" % (k, s), dict(seed=s, **kw), "GENERAL"))
    q3, u3, m3 = "p.mq2(2,2)", "p.mu2(2,2)", "p.MG"
    for s in (301, 302):
        jobs.append(("MQ3_EQ_MU3, spectrum %d" % s, dict(seed=s, equal=((u3, q3),)), "MQ3_EQ_MU3"))
        jobs.append(("equal soft masses of all sfermions, spectrum %d" % s, dict(seed=s, equal=[("p.%s(%d,%d)" % (m, k, k), q3) for m in ("mq2", "mu2", "md2", "ml2", "me2") for k in range(3)]), "MQ3_EQ_MU3"))
    for k, kw, lim in jobs:
        a = fonum.spectrum(v=V, **kw)
        try:
            d, x = C.compare(a, lim)
            ok = mp.isfinite(d) and abs(d - x) <= REL * max(1, abs(d))
        except (ZeroDivisionError, ValueError):
            d = x = mp.nan
            ok = False
        L.ob("fixed order = EFT", k, ok, W, "" if ok else "difference of the two calculations %s, expected %s (units v^2/(16 pi^2), tan(beta) = %s)" % (mp.nstr(d, 8), mp.nstr(x, 8), mp.nstr(a["p.vu"] / a["p.vd"], 6)))
    L.funcs |= C.funcs
    for T in C.T.values():
        L.funcs |= set(T.I.funcs_seen)
    L.funcs |= set(C.E.I.funcs_seen)
    L.notes.append("The EFT calculation omits (documented in its source) the threshold of v^2 of order g1^2, g2^2; the expected difference contains it. Its light-field part relative to the fixed-order result is the constant Mh^4/(16 pi^2 v^2).")
