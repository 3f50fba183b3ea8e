"""P34: two-loop fixed-order corrections (Fortran routines included) and two-loop EFT threshold corrections agree."""
import random
from fractions import Fraction as Fr
import mpmath as mp
from hv import program, fonum, f77, thr, interp, graph as G
from checks import P12
from checks.P33 import ent, PV

LEVEL = "static"
RULE = ("both calculations are reduced to value graphs: the 2-loop self-energies of MSSM_mass_eigenstates including the Fortran routines of DSZHiggs.f (own front end for fixed-form Fortran; the loop function phi and the dilogarithm stay symbols that are evaluated by their "
        "definitions), and the 2-loop EFT correction with the value graphs of all 1- and 2-loop threshold corrections inserted.  They are evaluated in 200-digit arithmetic for superpartner masses of order one and an electroweak scale of 1e-20.  Per coupling order, "
        "(fixed order) - (EFT) - (known dependence on logarithms of light fermion masses that the EFT calculation approximates) must be one number for all superpartner spectra, mixings, signs and tan(beta) at given standard model Yukawa couplings and scale; at O(at*as) and O(at^2) it must vanish")
ASSUMPTIONS = ["phi and dilog: P28", "the parameters detuned by constant factors in the code of LAMBDA_YT6 are undone by the inverse factors", "cells of the parameter space are represented by points with generic masses", "named constants of the Fortran routines below 1e-3 (the eps_* of the guards) are treated as zero"]
V = Fr(1, 10 ** 20)
FO = "source/himalaya/mh2_fo/MSSM_mass_eigenstates.cpp, mh2l/DSZHiggs.cpp, mh2l/DSZHiggs.f"
EF = "source/himalaya/mh2_eft/Mh2EFTCalculator.cpp, ThresholdCalculator.cpp"
FLOOR = mp.mpf(10) ** -12
REL = mp.mpf(10) ** -9
DR = "DRBARPRIME"
# Yukawa threshold corrections (fermion, coupling) and vev/lambda thresholds
DY = {("t", "t"): "YT_YT", ("t", "b"): "YT_YB", ("b", "b"): "YB_YB", ("b", "t"): "YB_YT", ("l", "l"): "YTAU_YTAU", ("l", "b"): "YTAU_YB", ("b", "l"): None}
DV = dict(t="VEV_YT2", b="VEV_YB2", l="VEV_YTAU2")
LA = dict(t="LAMBDA_AT", b="LAMBDA_YB4", l="LAMBDA_YTAU4")
NC = dict(t=3, b=3, l=1)
MF = dict(t="Mt", b="Mb", l="Mtau")


class Dilog:
    def __init__(self):
        self.c = [mp.bernoulli(k) / mp.factorial(k + 1) for k in range(320)]

    def __call__(self, z):
        z = mp.mpc(z)
        if z == 0:
            return mp.mpf(0)
        if z == 1:
            return mp.pi ** 2 / 6
        if abs(z) > 1:
            return -self(1 / z) - mp.pi ** 2 / 6 - mp.log(-z) ** 2 / 2
        if z.real > mp.mpf(1) / 2:
            return mp.pi ** 2 / 6 - mp.log(z) * mp.log(1 - z) - self(1 - z)
        u = -mp.log(1 - z)
        r, p = mp.mpf(0), u
        for b in self.c:
            if b:
                r += b * p
            p *= u
        return r


LI = None


def phi(x, y, z):
    """Davydychev-Tausk function for z >= x, y"""
    u, v = x / z, y / z
    w = mp.sqrt(mp.mpc((1 - u - v) ** 2 - 4 * u * v))
    p, m = 2 * u / (1 + u - v + w), 2 * v / (1 - u + v + w)
    return mp.re((2 * mp.log(p) * mp.log(m) - mp.log(u) * mp.log(v) - 2 * (LI(p) + LI(m)) + mp.pi ** 2 / 3) / w)


class Num(fonum.Num):
    def node(self, n, a):
        if n.op == "f":
            k = n.a[0]
            if k == "phi3":
                x, y, z = a
                m = max(x, y, z)
                return phi(x, y, z) if m == z else z / x * phi(z, y, x) if m == x else z / y * phi(z, x, y)
            if k == "dilog":
                return mp.re(LI(a[0]))
            if k == "phi_xyz":
                x, y, z = sorted(a)
                u, v = x / z, y / z
                return phi(x, y, z) * z * ((1 - u - v) ** 2 - 4 * u * v) / 2
        return super().node(n, a)


def val(g, a):
    return Num(dict(a), PV).val(g)


SMALL = Fr(1, 1000)         # the named constants of the guards (eps_*)


def fortran_call(M, name, boxes):
    if name == "phi":
        return G.fn("phi3", *[b.v for b in boxes])
    if name == "pli2":
        return G.fn("dilog", boxes[0].v)
    return NotImplemented


class Graphs(fonum.Graphs):
    def __init__(self, P, F, **kw):
        super().__init__(P, **kw)
        self.F = F
        self.used = set()
        for n in F.exports:
            self.I.intr[n] = self.routine(n)
        self.I.intr["phi_"] = lambda fr, args, e: G.fn("phi3", *[G.tn(self.I.get(x.ref)) for x in args])

    def routine(self, n):
        def f(fr, args, e):
            I = self.I
            M = f77.Machine(self.F, on_call=fortran_call)
            M.small = SMALL
            bs = []
            for x in args:
                v = I.get(x.ref)
                undef = v is None or isinstance(v, G.N) and v.op == "v" and v.a[0].startswith("uninit")
                bs.append(f77.Box(None if undef else G.tn(v)))
            M.call(n, bs)
            self.used.add("DSZHiggs.f::" + n)
            for x, b in zip(args, bs):
                I.put(x.ref, b.v)
            return G.ZERO
        return f


def small(c):
    """|parameter| < (tiny constant) does not hold at the points considered"""
    if c.op == "cmp" and c.a[0] == "<" and c.a[1].op == "f" and c.a[1].a[0] == "abs" and c.a[1].a[1].op == "v" and c.a[2].op == "c":
        return False
    return None


def rebuild(g, m):
    memo = {}
    for n in G.topo([g]):
        if n.id in m:
            memo[n.id] = m[n.id]
        elif n.op in ("c", "v", "throw"):
            memo[n.id] = n
        else:
            memo[n.id] = G.rebuild(n, [memo[x.id] if isinstance(x, G.N) else x for x in n.a])
    return memo[g.id]


class Two:
    def __init__(self, P):
        self.P = P
        self.F = f77.File(P.repo + "/source/himalaya/mh2l/DSZHiggs.f")
        self.fo = F = Graphs(P, self.F, decide=small)
        o = F.mass_eigenstates(0)
        self.m0 = ent(F.call(o, "get_mass_matrix_hh_gaugeless"))
        self.m1 = ent(F.call(o, "delta_mh2_1loop_gaugeless"))
        self.m2 = ent(F.call(o, "delta_mh2_2loop"))
        self.E = P12.Eft(P)
        self.E.flags([k for k in self.E.coup if not k.startswith(("FIRST", "NUMBER")) and k != "ONLY_AT_AS"])
        self.e2 = self.E.loop(2)
        self.T = thr.Thr(P, inline_loops=True)
        self.T.set_limit(self.T.limits["GENERAL"])
        self.TH = {}
        self.need = sorted({n.a[0].split(":")[1] for n in G.topo([self.e2]) if n.op == "v" and n.a[0].startswith("thr:")})

    # -- undo the deliberate detuning of masses by constants close to one (LAMBDA_YT6)
    def tuned(self, g):
        f = {}
        for n in G.topo([g]):
            if n.op == "*":
                for c, v in ((n.a[0], n.a[1]), (n.a[1], n.a[0])):
                    if v.op == "v" and v.a[0].startswith("p.") and not G.variables([c]):
                        x = val(c, {})
                        if abs(x - 1) < mp.mpf("0.1") and x != 1:
                            f.setdefault(v.a[0], []).append((x, c))
        if not f:
            return g
        X = {}
        for nm in ("calcXt", "calcYt"):
            fn = [f_ for q, l in self.P.by_qn.items() for f_ in l if q.endswith("ThresholdCalculator::" + nm)][0]
            X[self.T.I.call(fn, [], self.T.o)] = G.var("keep:" + nm)
        inv = {v.a[0]: k for k, v in X.items()}
        g1 = rebuild(g, {k.id: v for k, v in X.items()})
        g2 = G.substitute([g1], {k: G.div(G.var(k), l[0][1]) for k, l in f.items()})[0]
        return G.substitute([g2], inv)[0]

    def th(self, o):
        if o not in self.TH:
            self.TH[o] = self.tuned(self.T.get(o, DR))
        return self.TH[o]

    def fixed(self, a):
        a = dict(a)
        for nm, s2, l, r in (("MSt", "s2t", "mq2", "mu2"), ("MSb", "s2b", "mq2", "md2"), ("MStau", "s2tau", "ml2", "me2")):
            d = a["p.%s(0)" % nm] ** 2 - a["p.%s(1)" % nm] ** 2
            a["p.theta_" + s2[2:]] = mp.atan2(a["p." + s2], (a["p.%s(2,2)" % l] - a["p.%s(2,2)" % r]) / d) / 2
        N = Num(a, PV)
        A, B, M = [[N.val(x) for x in k] for k in (self.m0, self.m1, self.m2)]
        w, q = mp.eigsy(mp.matrix([[A[0], A[1]], [A[2], A[3]]]))
        h, H = q[:, 0], q[:, 1]

        def f(p, m, r):
            return (p.T * mp.matrix([[m[0], m[1]], [m[2], m[3]]]) * r)[0]
        return f(h, M, h) - f(h, B, H) ** 2 / w[1]

    def eft(self, a):
        N = Num(dict(a), PV)
        t = {}
        for n in G.topo([self.e2]):
            if n.op == "v" and n.a[0].startswith("thr:"):
                o = n.a[0].split(":")[1]
                t[o] = N.assign[n.a[0]] = val(self.th(o), a)
        return N.val(self.e2), t

    def light(self, a, t):
        """the EFT calculation uses ln(Q^2/mt^2) for all fermions and massless b, tau in the loop functions: difference to the exact 1-loop standard model amplitudes"""
        v2 = a["p.vu"] ** 2 + a["p.vd"] ** 2
        lg = {f: mp.log(a["p.scale"] ** 2 / a["p." + MF[f]] ** 2) for f in MF}
        Y = {f: 2 * a["p." + MF[f]] ** 2 / v2 for f in MF}
        s2 = {"t": a["p.vu"] ** 2 / v2, "b": a["p.vd"] ** 2 / v2, "l": a["p.vd"] ** 2 / v2}
        lm = lg["t"]
        r = mp.mpf(0)
        for f in "tbl":
            for g in "tbl":
                if set((f, g)) == set("tl"):
                    continue
                code = (mp.mpf(2) / 3 if g == "t" else 1) - lm
                r += NC[g] * Y[g] * Y[f] ** 2 * t[LA[f]] * ((mp.mpf(2) / 3 - lg[g]) - code)
                r += 8 * NC[f] * Y[f] ** 2 * t[DV[g]] * Y[g] * (lg[f] - lm)
                if (f, g) in DY:
                    d = t[DY[f, g]] if DY[f, g] else -s2["b"] * t["VEV_YTAU2"]
                    code = 4 * NC[f] * lm - (2 * NC[f] if f == "t" else 0)
                    r += 4 * Y[f] ** 2 * d * Y[g] / s2[g] * ((4 * NC[f] * lg[f] - 2 * NC[f]) - code)
        r += 48 * Y["b"] ** 2 * a["p.g3"] ** 2 * t["YB_AS"] * (lg["b"] - mp.mpf(1) / 2 - lm)
        return r * v2 / 2 / (16 * mp.pi ** 2) ** 2

    def diff(self, a):
        v2 = a["p.vu"] ** 2 + a["p.vd"] ** 2
        f = self.fixed(a)
        e, t = self.eft(a)
        u = v2 / (16 * mp.pi ** 2) ** 2
        return (f - e - self.light(a, t)) / u, f / u, t


BASE = ("1.1", "1.5", "1.95", "2.6", "3.4")
TB = (5, 2, Fr(1, 2), 12, 40, 3)


def point(seed, y, scale):
    """y: standard model Yukawa couplings of t, b, tau"""
    r = random.Random(seed)
    tb = TB[seed % len(TB)]
    a = fonum.spectrum(seed, V, gauge=0, tb=tb)
    m = [mp.mpf(x) for x in BASE]
    r.shuffle(m)
    m = [x * (1 + mp.mpf(r.randint(-3, 3)) / 100) for x in m]
    t = mp.mpf(tb.numerator) / tb.denominator
    c, s = 1 / mp.sqrt(1 + t * t), t / mp.sqrt(1 + t * t)
    for i, (k, x) in enumerate(zip(("Yu", "Yd", "Ye"), "tbl")):
        a["p.%s(2,2)" % k] = mp.mpf(y.get(x, (1 + i) * mp.mpf(10) ** -12)) / (s if x == "t" else c)
    a["p.g3"] = mp.mpf(y.get("g3", 0))
    a["p.mq2(2,2)"], a["p.mu2(2,2)"], a["p.md2(2,2)"] = [x * x for x in m[:3]]
    a["p.ml2(2,2)"], a["p.me2(2,2)"] = mp.mpf(r.randint(100, 140)) / 100, mp.mpf(r.randint(200, 300)) / 100
    a["p.mu"], a["p.MA"] = m[3] * r.choice((1, -1)), m[4]
    a["p.scale"] = mp.mpf(scale)
    X = [mp.mpf(r.choice((-1, 1)) * r.randint(5, 40)) / 10 for _ in range(3)]
    a["p.Au(2,2)"] = X[0] + a["p.mu"] / t
    a["p.Ad(2,2)"] = X[1] + a["p.mu"] * t
    a["p.Ae(2,2)"] = X[2] + a["p.mu"] * t
    return fonum.complete(a)


Y0, E0 = mp.mpf("0.7"), mp.mpf(10) ** -5
# coupling order: (dominant coupling, other coupling, threshold corrections specific to it, routines)
SECTORS = [
    ("yt^6", "t", None, "LAMBDA_YT6, YT_YT, VEV_YT2, LAMBDA_AT", "delta_mh2_2loop_at_at"),
    ("yt^4 g3^2", "t", "g3", "LAMBDA_AT_AS, YT_AS", "delta_mh2_2loop_at_as"),
    ("yb^6", "b", None, "LAMBDA_YB6, YB_YB, VEV_YB2", "delta_mh2_2loop_at_ab"),
    ("yb^4 g3^2", "b", "g3", "LAMBDA_YB4_G32, YB_AS", "delta_mh2_2loop_ab_as"),
    ("ytau^6", "l", None, "LAMBDA_YTAU6, YTAU_YTAU, VEV_YTAU2", "delta_mh2_2loop_atau_atau"),
    ("yt^4 yb^2", "t", "b", "LAMBDA_YT4_YB2, YT_YB, VEV_YB2", "delta_mh2_2loop_at_ab"),
    ("yb^4 yt^2", "b", "t", "LAMBDA_YT2_YB4, YB_YT, VEV_YT2", "delta_mh2_2loop_at_ab"),
    ("yb^4 ytau^2", "b", "l", "LAMBDA_YTAU2_YB4, VEV_YTAU2", "delta_mh2_2loop_ab_atau"),
    ("ytau^4 yb^2", "l", "b", "LAMBDA_YTAU4_YB2, YTAU_YB, VEV_YB2", "delta_mh2_2loop_ab_atau"),
]


def run(L):
    global LI
    mp.mp.dps = 200
    LI = Dilog()
    P = program.Program()
    C = Two(P)
    n = 5 if L.tier == "quick" else 24
    ref = {}
    base = {}

    def D(s, y, Q):
        try:
            d, f, t = C.diff(point(s, y, Q))
            return (d, f, t) if mp.isfinite(d) else None
        except (ZeroDivisionError, ValueError):
            return None
    for Q in ("3",) if L.tier == "quick" else ("3", "0.7"):
        for name, big, sml, ths, rout in SECTORS:
            for s in range(1, n + 1):
                k = (s, big, Q)
                if k not in base:
                    base[k] = D(s, {big: Y0}, Q)
                key = "%s, spectrum %d (tan(beta) = %s), scale %s" % (name, s, TB[s % len(TB)], Q)
                where = "%s: %s; %s: %s" % (EF, ths, FO, rout)
                r = base[k]
                size = mp.mpf(1)
                if r is not None and sml:
                    e = mp.mpf(1) if sml == "g3" else E0
                    q = D(s, {big: Y0, sml: e}, Q)
                    if q is not None:
                        norm = Y0 ** 4 * e ** 2
                        r = ((q[0] - r[0]) / norm, (q[1] - r[1]) / norm, q[2])
                    else:
                        r = None
                if r is None:
                    L.ob("fixed order = EFT", key, False, where, "the result is not a number")
                    continue
                d, f, t = r
                size = max(abs(f), 1)
                if big == "t" and sml in (None, "g3"):
                    want = mp.mpf(0)
                elif (name, Q) not in ref:
                    ref[name, Q] = [d, size, s]
                    continue
                else:
                    want = ref[name, Q][0]
                    size = max(size, ref[name, Q][1])
                ok = abs(d - want) <= REL * min(size, mp.mpf(10) ** 6)
                L.ob("fixed order = EFT", key, ok, where, "" if ok else "fixed order - EFT = %s in units of v^2/(16 pi^2)^2 times couplings, expected %s%s (fixed-order result: %s)" % (
                    mp.nstr(d, 10), mp.nstr(want, 10), "" if want == 0 else " as for spectrum %d" % ref[name, Q][2], mp.nstr(f, 6)))
    L.need(len(C.need) >= 15, "threshold corrections of the 2-loop EFT calculation")
    L.funcs |= set(C.fo.I.funcs_seen) | set(C.T.I.funcs_seen) | set(C.E.I.funcs_seen) | C.fo.used
    L.notes.append("Fortran routines evaluated: %s" % ", ".join(sorted(C.fo.used)))
    L.notes.append("at O(yb^n) the difference between the two calculations is the standard model part beyond leading logarithms, which the EFT calculation does not contain; it depends on standard model parameters only")
