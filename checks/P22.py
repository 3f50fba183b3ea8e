"""P22: composition of the result object from the parts of the calculation."""
from fractions import Fraction as Fr
from hv import program, hc, field, graph as G
from hv.graph import N
from hv.interp import Obj, Mat, Ref

LEVEL = "static"
RULE = ("calculateDMh3L is interpreted with the parts it combines left uninterpreted (hierarchy selection, hierarchy expansion, exact 1- and 2-loop terms, expansion uncertainty, threshold corrections, "
        "fixed-order calculator); every field of the resulting object is compared in GF(p) with its definition in terms of these parts, for each hierarchy and for top and bottom")
ASSUMPTIONS = ["the parts are pure functions of their arguments, the switches and the parameters they are constructed with (covered by other properties)"]
HCW = "source/himalaya/HierarchyCalculator.cpp"
EFT = "himalaya::mh2_eft::"
C_ = G.const
FIRSTX = ("h3", "h32q2g", "h3q22g", "h9", "h9q2")


class Parts:
    def __init__(self, P):
        self.P = P
        self.h = None
        self.cmp = 0
        self.C = hc.Calc(P, extra=self.hook)
        self.I = self.C.I
        self.I.on_construct = self.ctor
        self.m0 = [G.var("tree%d%d" % ij) for ij in ((0, 0), (0, 1), (0, 1), (1, 1))]

    def flat(self, args):
        return sum((self.I.flat(self.I.get(a) if isinstance(a, Ref) else a, []) for a in args), [])

    def ctor(self, I, f, args):
        cls = f.d["cls"]
        if cls in ("himalaya::mh2_fo::MSSM_mass_eigenstates", EFT + "ThresholdCalculator"):
            if len(args) == 1 and isinstance(args[0], Ref) and isinstance(I.get(args[0]), Obj) and I.get(args[0]).cls == cls:
                return NotImplemented
            o = Obj(cls)
            o.f["state"] = G.fn("new:" + cls, *self.flat([a for i, a in enumerate(args) if not (i == 1 and "Threshold" in cls)]))   # verbosity
            return o
        return NotImplemented

    def hook(self, I, f, args, this):
        q = f.qn
        b = q.split("::")[-1]
        if isinstance(this, Ref):
            this = I.get(this)
        if isinstance(this, Obj) and "state" in this.f:
            a = [this.f["state"]] + self.flat(args)
            if f.ret() == "void":
                I.put(Ref(this, "state"), G.fn("mut:" + q, *a))
                return None
            return I.shaped(f.ret(), q, a)
        if not q.startswith(hc.HC + "::"):
            return NotImplemented
        if b == "compareHierarchies":
            ho = args[0]
            self.cmp += 1
            self.C.m(ho, hc.HO + "::setSuitableHierarchy", self.h)
            self.C.m(ho, hc.HO + "::setDMh", 0, Mat(2, 2, list(self.m0)))
            return C_(self.h)
        if b in ("calculateHierarchy", "getMt41L", "getMt42L", "getExpansionUncertainty", "shiftH3mToDRbarPrime", "shiftH3mToDRbarPrimeMh2", "shiftMst1ToMDR", "shiftMst2ToMDR"):
            ho = args[0]
            st = [G.tn(self.C.m(ho, hc.HO + "::" + g)) for g in ("getSuitableHierarchy", "getIsAlphab", "getMDRFlag")]
            a = st + [G.tn(x) for x in self.I.flat(self.C.hc.f["expansionDepth"], [])] + self.flat(args[1:])
            if b == "calculateHierarchy" and [x.a[0] if x.op == "c" else None for x in a[-3:]] == [0, 0, 1]:
                for s in ("DLambdaH3m", "DLambdaNonLog"):
                    self.C.m(ho, hc.HO + "::set" + s, G.fn(s, *a))
                self.C.m(ho, hc.HO + "::setMDRMasses", Mat(2, 1, [G.fn("MDR1", *a), G.fn("MDR2", *a)]))
            r = I.shaped(f.ret(), b, a)
            if isinstance(r, Mat):
                r.d[2] = r.d[1]
            return r
        return NotImplemented


def run(L):
    P = program.Program()
    X = Parts(P)
    C = X.C
    S = dict(C.hs)
    v2 = G.add(G.mul(G.var("p.vu"), G.var("p.vu")), G.mul(G.var("p.vd"), G.var("p.vd")))
    for n in C.hier_names():
        for ab in (0, 1):
            one(L, P, X, n, S[n], ab, v2)
    for n in ("h3", "h4", "h5", "h6", "h6b", "h9", "h32q2g", "h9q2"):
        omit(L, P, X, n, S[n], v2)
    L.funcs |= X.I.funcs_seen
    L.assumptions += ASSUMPTIONS


def enum(P, last):
    c = [e for q, e in P.enums.items() if q.endswith("::" + last) and len(e["vals"]) > 2]
    if not c:
        raise program.AnalysisBroken("enumeration " + last)
    return dict(c[0]["vals"])


class Eft:
    """Mh2EFTCalculator and ThresholdCalculator used through their public members"""

    def __init__(self, X, p, only=None):
        P, I = X.P, X.I
        self.X, self.P, self.I = X, P, I
        ct = [f for f in P.by_qn[EFT + "ThresholdCalculator::ThresholdCalculator"] if 1 <= len(f.params) <= 4 and not f.d["defaulted"]]
        self.tc = I.construct(ct[0], [p] + [C_(1), C_(0)][:len(ct[0].params) - 1])
        ct = [f for f in P.by_qn[EFT + "Mh2EFTCalculator::Mh2EFTCalculator"] if 1 <= len(f.params) <= 4 and not f.d["defaulted"]]
        self.mh = I.construct(ct[0], [p] + [C_(1)] * (len(ct[0].params) - 1))
        if only is not None:
            o = enum(P, "CouplingOrders::CouplingOrders")
            for k, v in o.items():
                if k not in only and not k.startswith(("FIRST", "NUMBER")):
                    self.m(self.mh, "Mh2EFTCalculator::setCorrectionFlag", v, 0)

    def m(self, o, name, *a):
        f = [g for g in self.P.by_qn[EFT + name]]
        f = [g for g in f if len(g.params) >= len(a)][0]
        return self.I.call(f, [C_(x) if isinstance(x, (int, Fr)) else x for x in a], o)

    def thr(self, name, scheme="DRBARPRIME", logs=1):
        return G.tn(self.m(self.tc, "ThresholdCalculator::getThresholdCorrection", enum(self.P, "ThresholdCouplingOrders")[name],
                           enum(self.P, "RenSchemes")[scheme], logs))

    def mh2(self, n, *a):
        return G.tn(self.m(self.mh, "Mh2EFTCalculator::getDeltaMh2EFT%dLoop" % n, *a))


def copy_p(X, **kw):
    I = X.I
    from hv.interp import copyv
    return copyv(X.C.p)


def mul(*a):
    r = C_(1)
    for x in a:
        r = G.mul(r, C_(x) if isinstance(x, (int, Fr)) else x)
    return r


def prefs(v2):
    p = lambda n: G.var("p." + n)
    k = G.div(C_(1), mul(16, G.var("K:pi"), G.var("K:pi")))
    gt2 = G.div(mul(2, p("Mt"), p("Mt")), v2)
    base = mul(p("Mt"), p("Mt"), gt2)
    g32 = mul(p("g3"), p("g3"))
    return {1: mul(k, base), 2: mul(k, k, base, g32), 3: mul(k, k, k, base, g32, g32)}


def eq(L, kind, key, got, want, detail):
    got, want = G.tn(got), G.tn(want)
    ok = got is want
    if not ok:
        try:
            ok = field.equal(got, want, funcs={"sqrt": sqrt_vev})
        except field.Bad:
            ok = field.equal(got, want, funcs={"sqrt": lambda g, n: g.rnd("sqrt", g.val(n.a[1]))})
    L.ob(kind, key, ok, HCW, detail)


def sqrt_vev(g, n):
    return None


def masses(X):
    """parameters with the stop mass eigenvalues in place of the soft-breaking masses"""
    p = copy_p(X)
    for nm, i in (("mu2", 0), ("mq2", 1)):
        m = p.f[nm]
        s = G.tn(X.I.flat(X.C.p.f["MSt"], [])[i])
        m.d[8] = G.mul(s, s)
    return p


def get(C, o, name, *a):
    return C.m(o, hc.HO + "::get" + name, *a)


def mat(m):
    return [G.tn(m.at(0, 0)), G.tn(m.at(0, 1)), G.tn(m.at(1, 0)), G.tn(m.at(1, 1))]


def madd(*ms):
    r = [C_(0)] * 4
    for s, m in ms:
        r = [G.add(x, mul(s, y)) for x, y in zip(r, mat(m))]
    return r


def one(L, P, X, n, h, ab, v2):
    C, I = X.C, X.I
    X.h = h
    X.cmp = 0
    o = C.call("calculateDMh3L", ab)
    tag = "%s %s" % (n, "bottom" if ab else "top")
    L.ob("selection", tag, X.cmp == 1, HCW, "the hierarchy is selected %d times" % X.cmp)
    L.ob("selection", tag + " stored", G.tn(get(C, o, "SuitableHierarchy")) is C_(h), HCW, "the reported hierarchy is not the selected one")
    q = C.ho(h, ab, 0)
    q1 = C.ho(h, ab, 1)
    el = ("11", "12", "21", "22")

    def mats(key, got, want, detail):
        for e, a, b in zip(el, mat(got), want):
            eq(L, "matrix", "%s %s %s" % (tag, key, e), a, b, detail)
    m0 = Mat(2, 2, list(X.m0))
    H = C.m(C.hc, hc.HC + "::calculateHierarchy", q, 0, 0, 1)
    sh = C.call("shiftH3mToDRbarPrime", q)
    raw = {s: get(C, q, s) for s in ("DLambdaH3m", "DLambdaNonLog")}
    m1, m2 = C.call("getMt41L", q, 0, 0), C.call("getMt42L", q, 0, 0)
    mats("tree", get(C, o, "DMh", 0), mat(m0), "tree-level matrix is not the one found during the selection")
    mats("1-loop", get(C, o, "DMh", 1), mat(m1), "1-loop matrix is not the exact DR' result")
    mats("2-loop", get(C, o, "DMh", 2), mat(m2), "2-loop matrix is not the exact DR' result")
    d3 = madd((1, H), (1, sh))
    mats("3-loop", get(C, o, "DMh", 3), d3, "3-loop matrix is not the expansion of the selected hierarchy converted to DR'")
    mats("to H3m", get(C, o, "DMhDRbarPrimeToH3mShift"), madd((-1, sh)), "DR' -> H3m shift does not undo the conversion contained in the 3-loop matrix")
    H1 = C.m(C.hc, hc.HC + "::calculateHierarchy", q1, 0, 0, 1)
    sh1 = C.call("shiftH3mToDRbarPrime", q1)
    want = madd((1, C.call("getMt41L", q1, 1, 1)), (-1, C.call("getMt41L", q1, 0, 0)), (1, C.call("getMt42L", q1, 1, 1)), (-1, C.call("getMt42L", q1, 0, 0)), (1, H1), (1, sh1))
    want = [G.sub(a, b) for a, b in zip(want, d3)]
    mats("to MDR'", get(C, o, "DMhDRbarPrimeToMDRbarPrimeShift"), want, "DR' -> MDR' shift is not the difference of the 1-, 2- and 3-loop matrices in the two schemes")
    a, b = ([G.tn(x) for x in I.flat(get(C, x, "MDRMasses"), [])] for x in (o, q1))
    for k, f in (("sum", G.add), ("product", G.mul)):   # ordering: P21
        eq(L, "MDR masses", "%s %s" % (tag, k), f(*a), f(*b), "MDR' masses reported are not those of the 3-loop terms in the MDR' scheme")
    # expansion uncertainty
    tot = Mat(2, 2, madd((1, m0), (1, m1), (1, m2)))
    eq(L, "uncertainty", tag + " 3-loop", get(C, o, "DMhExpUncertainty", 3), C.call("getExpansionUncertainty", q, tot, 0, 0, 1), "3-loop expansion uncertainty is not evaluated for the sum of the lower orders")
    eq(L, "uncertainty", tag + " 1-loop", get(C, o, "DMhExpUncertainty", 1), C_(0), "1-loop expansion uncertainty is not zero")
    # lambda
    A = Eft(X, masses(X), ("YT4", "G32YT4", "ONLY_AT_AS"))
    pr = prefs(v2)
    eq(L, "lambda", tag + " 0-loop", get(C, o, "DLambda", 0), G.div(A.mh2(0), v2), "tree-level quartic coupling")
    for k, nm in ((1, "LAMBDA_AT"), (2, "LAMBDA_AT_AS")):
        eq(L, "lambda", "%s %d-loop" % (tag, k), get(C, o, "DLambda", k), G.div(mul(pr[k], A.thr(nm)), v2), "%d-loop Delta lambda is not the DR' threshold correction %s" % (k, nm))
    sub = {x: A.mh2(3, 0, x, 0) for x in (0, 1)}
    q = C.ho(h, ab, 0)
    smh = {x: C.call("shiftH3mToDRbarPrimeMh2", q, x) for x in (0, 1)}
    nonlog = G.sub(mul(pr[3], G.add(raw["DLambdaNonLog"], smh[0])), sub[0])
    h3m = G.sub(mul(pr[3], G.add(raw["DLambdaH3m"], smh[1])), sub[1])
    logs = mul(pr[3], G.sub(A.thr("LAMBDA_AT_AS2", logs=1), A.thr("LAMBDA_AT_AS2", logs=0)))
    eft = G.add(nonlog, logs)
    xt = 3 if n in FIRSTX else 4
    shift3 = mul(pr[3], A.m(A.tc, "ThresholdCalculator::getDRbarPrimeToMSbarShift", xt, 1, 0))
    unc = G.abs_(G.div(mul(pr[3], A.m(A.tc, "ThresholdCalculator::getDRbarPrimeToMSbarXtTerms", A.m(A.tc, "ThresholdCalculator::getLimit"), 4, 1)), v2)) if xt == 3 else C_(0)
    z = C_(0)
    exp = {"H3m": h3m, "EFT": eft, "NonLog": nonlog}
    for k, w in exp.items():
        eq(L, "lambda", "%s 3-loop %s" % (tag, k), get(C, o, "DLambda" + k), z if ab else G.div(w, v2), "3-loop Delta lambda (%s) is not the matched, DR' converted value over v^2" % k)
    eq(L, "lambda", tag + " 3-loop", get(C, o, "DLambda", 3), z if ab else G.div(eft, v2), "3-loop Delta lambda is not the EFT value")
    H3, E3 = get(C, o, "DLambdaH3m"), get(C, o, "DLambdaEFT")
    eq(L, "lambda uncertainty", tag + " exp", get(C, o, "DLambdaUncertainty", 3), z if ab else G.add(unc, G.abs_(G.sub(H3, E3))),
       "3-loop uncertainty of Delta lambda is not missing X_t terms plus difference of the two determinations")
    for k in (0, 1):
        eq(L, "MS shift", "%s %d-loop" % (tag, k), get(C, o, "DLambdaDRbarPrimeToMSbarShift", k), z, "no scheme shift expected")
    w2 = mul(-4, pr[2], A.thr("LAMBDA_AT"), A.thr("YT_AS"))
    eq(L, "MS shift", tag + " 2-loop", get(C, o, "DLambdaDRbarPrimeToMSbarShift", 2), z if ab else G.div(w2, v2), "2-loop DR' -> MS-bar shift of Delta lambda is not prefactor * (-4 lambda_at * delta yt_as) / v^2")
    eq(L, "MS shift", tag + " 3-loop", get(C, o, "DLambdaDRbarPrimeToMSbarShift", 3), z if ab else G.div(shift3, v2), "3-loop DR' -> MS-bar shift of Delta lambda")
    # fixed order and EFT masses
    ct = [f for f in P.by_qn["himalaya::mh2_fo::MSSM_mass_eigenstates::MSSM_mass_eigenstates"] if len(f.params) == 2][0]
    fo = {}
    for at in (0, 1):
        m = I.construct(ct, [C.p, C_(at)])
        r = I.call(P.fn("himalaya::mh2_fo::MSSM_mass_eigenstates::calculate_Mh2", 0), [], m)
        fo[at] = [G.tn(x) for x in I.flat(r, [])]
    d2 = perturbative(P, I, [get(C, o, "DMh", k) for k in range(4)])
    for k in range(4):
        eq(L, "mass", "%s FO %d" % (tag, k), get(C, o, "DMh2FO", k), fo[0][k] if k < 3 else d2[3], "%d-loop fixed-order contribution" % k)
        eq(L, "mass", "%s FO at %d" % (tag, k), get(C, o, "DMh2FOAt", k), z if k == 0 else fo[1][k] if k < 3 else d2[3], "%d-loop O(at) fixed-order contribution" % k)
        eq(L, "mass", "%s perturbative %d" % (tag, k), get(C, o, "DMh2", k), d2[k], "%d-loop contribution to the lighter squared mass is not the perturbative eigenvalue of the reported matrices" % k)
    F = Eft(X, C.p)
    eftm = [F.mh2(0), F.mh2(1, 1, 1), F.mh2(2, 1, 1), G.add(F.mh2(3, 1, 1, 0), eft if not ab else z)]
    gm = [g for g in ("DMh2EFT", "DMh2EFTAt") if hc.HO + "::get" + g in P.by_qn][0]
    for k in range(4):
        eq(L, "mass", "%s EFT %d" % (tag, k), get(C, o, gm, k), eftm[k], "%d-loop EFT contribution" % k)


def perturbative(P, I, ms):
    f = [g for q, l in P.by_qn.items() if q.endswith("fs_diagonalize_hermitian_perturbatively") for g in l if len(g.params) == 4]
    if not f:
        raise program.AnalysisBroken("fs_diagonalize_hermitian_perturbatively not found")
    r = I.call(f[0], [Mat(2, 2, mat(m)) for m in ms], None)
    x = [G.tn(v) for v in I.flat(r, [])]
    return [x[2 * k] for k in range(4)]


def omit(L, P, X, n, h, v2):
    pass
