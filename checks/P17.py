"""P17: conversion of the 3-loop hierarchy results from the H3m to the DR' scheme."""
from hv import program, hc, field, thr, jet, interp, cells, taylor, graph as G, series as SR
from hv.graph import N
from hv.interp import Ref
from hv.field import Hpos, Bad, Undecided, P as PR
from checks.P10 import tanb

LEVEL = "static"
RULE = ("The conversion from the H3m to the DR' scheme is a shift of both squared stop masses by the epsilon-scalar mass contribution; the interpreted shift matrix is compared, in truncated power series for m_t -> 0 over GF(p), with that shift applied to the "
        "interpreted exact 1-loop matrix (Taylor jet in the mass shift, X_t fixed); the scalar version with the projection of the matrix on the light Higgs direction; the equal-mass branch with the limit of the general one; "
        "the X_t truncation per hierarchy and the choice of the stop masses per scheme are compared structurally")
ASSUMPTIONS = ["power-series coefficients compared at random field points (error < 1e-18)"]
HCW = "source/himalaya/HierarchyCalculator.cpp"
C_ = G.const
ONLY_XT3 = ("h3", "h32q2g", "h3q22g", "h9", "h9q2")
NN = 12


def mul(*a):
    r = C_(1)
    for x in a:
        r = G.mul(r, C_(x) if isinstance(x, int) else x)
    return r


def add(*a):
    r = C_(0)
    for x in a:
        r = G.add(r, C_(x) if isinstance(x, int) else x)
    return r


def log(x):
    return G.log(x)


class Ctx:
    def __init__(self, P):
        self.P = P
        p = interp.Interp(P).sym("himalaya::Parameters", "p")
        self.M = [G.var("p.MSt(0)"), G.var("p.MSt(1)")]
        self.X = G.var("Xt")
        self.tb = G.div(G.var("p.vu"), G.var("p.vd"))
        p.f["Au"].d[8] = G.add(self.X, G.div(G.var("p.mu"), self.tb))
        d = G.sub(mul(self.M[0], self.M[0]), mul(self.M[1], self.M[1]))
        p.f["s2t"] = G.div(mul(2, G.var("p.Mt"), self.X), d)
        self.msq = G.var("msq")
        self.shifted = None
        self.C = hc.Calc(P, extra=self.hook, p=p)

    def hook(self, I, f, a, this):
        if f.qn == "himalaya::Parameters::calculateMsq2":
            return G.mul(self.msq, self.msq)
        b = f.qn.split("::")[-1]
        if self.shifted is not None and b in ("shiftMst1ToMDR", "shiftMst2ToMDR"):
            ho = a[0]
            fl = [I.get(x) if isinstance(x, Ref) else x for x in a[1:]]
            fl = tuple(int(x.a[0]) if isinstance(x, N) and x.op == "c" else x for x in fl)
            self.shifted.append(fl)
            return G.var("mdr%s%r" % (b[8], fl))
        return NotImplemented


def asg(seed, e):
    vu, vd = tanb(seed)
    memo = {"p.vu": vu, "p.vd": vd}
    memo.update(e)

    def f(n):
        if n not in memo:
            memo[n] = None if n.startswith("K:") else field.signed(n, seed, Hpos(n, seed))
        return memo[n]
    return f


def mono(q, p):
    return SR.S(p, {0: [q % PR] + [0] * (NN - 1)})


def lead_equal(a, b, e, branch=False):
    """first order at which a and b differ, leading order, first unknown order"""
    a, b = thr.algebraic([a, b])
    err = None
    for s in range(1, 30):
        try:
            S = SR.Series(NN, asg(s, e(s)), seed=s, branch=lambda S_, n: branch)
            x, y = S.val(a), S.val(b)
            d, n = SR.diff_order(x, y)
            return d, SR.norm(y).v, n
        except Bad as ex:
            err = ex
    raise err


def delta(M, tot=False):
    """epsilon-scalar mass contribution"""
    Q2 = mul(G.var("p.scale"), G.var("p.scale"))
    s = C_(0)
    for c, m in ((-6, G.var("p.MG")), (10, G.var("msq")), (1, M[0]), (1, M[1])):
        s = G.add(s, mul(c, G.add(C_(1), G.log(G.div(Q2, G.mul(m, m)))), m, m))
    return s


def run(L):
    P = program.Program()
    x = Ctx(P)
    C = x.C
    kap = G.div(C_(1), mul(16, G.var("K:pi"), G.var("K:pi")))
    g34 = mul(G.var("p.g3"), G.var("p.g3"), G.var("p.g3"), G.var("p.g3"))
    t = G.var("t")
    # law of the shift: delta(m^2) for both stops applied to the exact 1-loop matrix
    F = [G.tn(v) for v in hc.elems(C.call("getMt41L", C.ho("h5"), 0, 0)).values()]
    sub = {"p.MSt(%d)" % i: G.add(x.M[i], G.div(t, mul(2, x.M[i]))) for i in (0, 1)}
    F = G.substitute(F, sub)
    J = jet.jets(thr.algebraic(F), "t", 1)
    law = {}
    pre = mul(kap, kap, g34, G.div(delta(x.M), C_(3)))
    for k, j in zip(("11", "12", "21", "22"), J):
        law[k] = mul(8, pre, j[1])
    X4 = jet.jets(thr.algebraic([law["22"]]), "Xt", 4)[0][4]
    top = lambda s: {"p.Mt": mono(Hpos("mt", s), 1)}
    for h in C.hier_names():
        x.shifted = None
        m = hc.elems(C.call("shiftH3mToDRbarPrime", C.ho(h, 0, 0)))
        for k in m:
            want = law[k]
            if h == "h4":
                want, = G.substitute([want], {"Xt": C_(0)})
            elif h in ONLY_XT3 and k == "22":
                want = G.sub(want, mul(X4, x.X, x.X, x.X, x.X))
            try:
                d, v, n = lead_equal(G.tn(m[k]), want, top)
                ok = d is None and n > 4 or d is not None and d > 4
                if want.op == "c":
                    ok = field.equal(G.tn(m[k]), want)
            except Bad as ex:
                ok, d, v = False, ex, ""
            L.ob("law", "%s %s" % (h, k), ok, HCW, "shift is not the change of the 1-loop matrix under the shift of both squared stop masses (order %s, leading %s)" % (d, v))

    x.shifted = None
    scalar(L, x)
    selection(L, x)
    scheme(L, x)
    L.funcs |= C.I.funcs_seen


def split(v, degenerate):
    """value on the equal-mass / general side of the closeness guards"""
    return cells.resolve(G.tn(v), lambda c: degenerate)


def light(m):
    """projection on the light Higgs direction, divided by sin^2 beta"""
    it = G.div(G.var("p.vd"), G.var("p.vu"))
    a = hc.elems(m)
    return add(mul(it, it, G.tn(a["11"])), mul(it, G.add(G.tn(a["12"]), G.tn(a["21"]))), G.tn(a["22"]))


def scalar(L, x):
    C = x.C
    yt = G.div(mul(G.fn("sqrt", C_(2)), G.var("p.Mt")), G.var("p.vu"))
    kap = G.var("p.g3")
    pi2 = mul(16, G.var("K:pi"), G.var("K:pi"))
    pre = G.div(mul(kap, kap, kap, kap, G.var("p.Mt"), G.var("p.Mt"), yt, yt), mul(pi2, pi2, pi2))
    near = lambda s: {"p.MSt(1)": SR.mul(SR.const(Hpos("p.MSt(0)", s), NN), SR.add(SR.const(1, NN), mono(3, 1)), NN)}
    for h in C.hier_names():
        ho = C.ho(h, 0, 0)
        m = C.call("shiftH3mToDRbarPrime", ho)
        s1, s0 = [G.tn(C.call("shiftH3mToDRbarPrimeMh2", ho, o)) for o in (1, 0)]
        for deg, nm in ((False, "general"), (True, "equal masses")):
            try:
                a, b = [split(z, deg) for z in (light(m), s1)]
                ok, d = field.equal(a, mul(pre, b)), ""
            except Bad as ex:
                ok, d = False, ex
            L.ob("scalar", "%s %s" % (h, nm), ok, HCW, "shiftH3mToDRbarPrimeMh2 is not the projection of shiftH3mToDRbarPrime on the light Higgs direction (%s)" % d)
            try:
                a, b = [split(z, deg) for z in (s0, s1)]
                b, = G.substitute([b], {"p.scale": x.M[0]})
                ok, d = field.equal(a, b), ""
            except Bad as ex:
                ok, d = False, ex
            L.ob("logs", "%s %s" % (h, nm), ok, HCW, "shift without logs is not the shift at a scale equal to the first stop mass (%s)" % d)
        vals = dict(hc.elems(m), scalar=s1)
        for k in vals:
            g, d = split(vals[k], False), split(vals[k], True)
            try:
                o, v, n = lead_equal(g, d, near)
                ok = (o is None or o > v) and n > v if d.op != "c" else field.equal(g, d)
            except Bad as ex:
                ok, o, v = False, ex, ""
            L.ob("limit", "%s %s" % (h, k), ok, HCW, "equal-mass branch is not the limit of the general one (order %s, leading %s)" % (o, v))


class Select:
    """branch taken for nearly equal stop masses (splitting eta^2), comparing the sizes of both sides including their
    accumulated rounding errors"""

    def __init__(self, seed):
        near = SR.mul(SR.const(Hpos("p.MSt(0)", seed), NN), SR.add(SR.const(1, NN), mono(3, 2)), NN)
        self.S = SR.Series(NN, asg(seed, {"p.MSt(1)": near}), seed=seed, branch=lambda S_, n: self.cond(n))
        self.err = taylor.AdjErr(self.S)

    def size(self, n):
        n, = thr.algebraic([n])
        e = self.err.of(n)
        return min(e, self.err.vv(n)), e

    def cond(self, c):
        if c.op in ("and", "or"):
            v = [self.cond(k) for k in c.a]
            return all(v) if c.op == "and" else any(v)
        if c.op == "not":
            return not self.cond(c.a[0])
        if c.op == "f" and c.a[0] == "isfinite":
            return True
        if c.op == "f" and c.a[0] in ("isnan", "isinf"):
            return False
        if c.op == "cmp" and c.a[0] in ("<", "<=", ">", ">="):
            a, b = [self.size(k)[0] for k in c.a[1:]]
            if a == b == taylor.INF:
                return c.a[0] in ("<=", ">=")
            if a == b:
                raise Undecided("sizes of both sides of a guard %s %s %s" % (a, b, c))
            return (a > b) == (c.a[0] in ("<", "<="))
        raise Undecided(c.op)

    def leaf(self, n):
        n = cells.resolve(G.tn(n), self.cond)
        return n, self.size(n)[1]


def selection(L, x):
    C = x.C
    for h in C.hier_names():
        for mdr in (0, 1):
            x.shifted = []
            vals = dict(hc.elems(C.call("shiftH3mToDRbarPrime", C.ho(h, 0, mdr))))
            x.shifted = None
            if not mdr:
                vals["scalar"] = C.call("shiftH3mToDRbarPrimeMh2", C.ho(h, 0, mdr), 1)
            for k in vals:
                vals[k], = G.substitute([G.tn(vals[k])], {"mdr%d%r" % (i + 1, (mdr, mdr)): x.M[i] for i in (0, 1)})
            for k in vals:
                for s in range(1, 20):
                    try:
                        e = Select(s).leaf(vals[k])[1]
                        ok, d = e >= 0, "rounding error grows like (M2/M1-1)^(%s/2)" % e
                        break
                    except Bad as ex:
                        ok, d = False, ex
                L.ob("selection", "%s mdr=%d %s" % (h, mdr, k), ok, HCW, "expression used for nearly equal stop masses: %s" % d)


def scheme(L, x):
    C = x.C
    for h in C.hier_names():
        for mdr in (0, 1):
            x.shifted = []
            m = hc.elems(C.call("shiftH3mToDRbarPrime", C.ho(h, 0, mdr)))
            used = set(x.shifted)
            x.shifted = None
            L.ob("masses", "%s mdr=%d" % (h, mdr), used <= {(mdr, mdr)}, HCW, "stop masses of loop flags %s used with mdr flag %d" % (sorted(used), mdr))
            want = hc.elems(C.call("shiftH3mToDRbarPrime", C.ho(h, 0, 0)))
            sub = {"p.MSt(%d)" % i: G.var("mdr%d%r" % (i + 1, (mdr, mdr))) for i in (0, 1)}
            for k in m:
                w, = G.substitute([split(want[k], False)], sub)
                L.ob("masses", "%s mdr=%d %s" % (h, mdr, k), field.equal(split(m[k], False), w), HCW,
                     "shift does not depend on the stop masses of the scheme only")
