"""P18: which hierarchies fit a mass spectrum, and which of them is selected."""
import math
import random
from fractions import Fraction as Fr
from hv import program, hc, lin, cells, graph as G
from hv.graph import N
from hv.interp import Mat, Ref
from checks import P22

LEVEL = "static"
RULE = ("the value graph of isHierarchySuitable is piecewise linear in the two (top or bottom) squark masses, the gluino mass and the mean squark mass; its comparisons and those of the "
        "specification span an arrangement whose cells (all dimensions, Fourier-Motzkin) are enumerated and both predicates compared in each; the value graph of compareHierarchies, with suitability, "
        "matrices and uncertainties uninterpreted, must select the first candidate with the smallest error and store the numbers belonging to it; a spectrum with no candidate must throw")
ASSUMPTIONS = ["masses are finite, positive and ordered (Mst1 <= Mst2), established by Parameters::validate"]
W = "source/himalaya/HierarchyCalculator.cpp"


# specification, a: Mst1, b: Mst2, g: gluino, q: mean squark mass
def spec_table():
    t = Fr(11, 10)
    split = lambda a, b, g, q: b > t * a                                   # noqa
    near1 = lambda a, b, g, q: split(a, b, g, q) and g - a < abs(g - b)    # noqa
    near2 = lambda a, b, g, q: split(a, b, g, q) and b - g < abs(g - a)    # noqa
    return {
        "h3": lambda a, b, g, q: g > b,
        "h32q2g": lambda a, b, g, q: b >= q and b > g,
        "h3q22g": lambda a, b, g, q: q > b and b > g,
        "h4": lambda a, b, g, q: a < q and a >= g,
        "h5": lambda a, b, g, q: near1(a, b, g, q) and b < q and a >= g,
        "h5g1": lambda a, b, g, q: near1(a, b, g, q) and b < q and g > a,
        "h6": lambda a, b, g, q: near2(a, b, g, q) and b * Fr(13, 10) < q and b >= g,
        "h6g2": lambda a, b, g, q: near2(a, b, g, q) and b * Fr(13, 10) < q and g > b,
        "h6b": lambda a, b, g, q: near2(a, b, g, q) and b >= q and b >= g,
        "h6b2qg2": lambda a, b, g, q: near2(a, b, g, q) and b >= q and g > b,
        "h6bq22g": lambda a, b, g, q: near2(a, b, g, q) and q > b and b >= g,
        "h6bq2g2": lambda a, b, g, q: near2(a, b, g, q) and q > b and g > b,
        "h9": lambda a, b, g, q: b >= q and b - a < a - g,
        "h9q2": lambda a, b, g, q: q > b and b - a < a - g,
    }


def F(**k):
    return {n: Fr(v) for n, v in k.items()}


SPECFORMS = [F(b=1, a=Fr(-11, 10)), F(b=1, q=Fr(-13, 10)), F(g=1, q=Fr(-13, 10)), F(b=1, q=-1), F(a=1, q=-1), F(g=1, b=-1), F(g=1, a=-1),
             F(a=1, b=1, g=-2), F(b=Fr(13, 10), q=-1), F(b=1, a=-2, g=1)]
BASE = [(F(a=1), 1), (F(g=1), 1), (F(q=1), 1)]
SIBLINGS = [("h32q2g", "h3q22g"), ("h3", "h32q2g"), ("h3", "h3q22g"), ("h5", "h5g1"), ("h6", "h6g2"),
            ("h6b", "h6b2qg2"), ("h6b", "h6bq22g"), ("h6b", "h6bq2g2"), ("h6b2qg2", "h6bq22g"), ("h6b2qg2", "h6bq2g2"), ("h6bq22g", "h6bq2g2"), ("h9", "h9q2")]


def run(L):
    P = program.Program()
    C = hc.Calc(P)
    suitability(L, P, C)
    L.funcs |= C.I.funcs_seen
    selection(L, P)
    smallest(L, P)
    nothing(L, P)
    L.assumptions += ASSUMPTIONS


def leafmap(C, ab):
    p = C.p
    m = C.I.flat(p.f["MSb" if ab else "MSt"], [])
    names = {G.tn(m[0]).id: "a", G.tn(m[1]).id: "b", G.tn(p.f["MG"]).id: "g", G.tn(C.call("calcMeanMsq")).id: "q"}
    return lambda n: names.get(n.id)


def suitability(L, P, C):
    T = spec_table()
    L.need(set(T) == set(C.hier_names()), "the hierarchies of the specification")
    for ab in (0, 1):
        lf = leafmap(C, ab)
        code = {}
        for h in C.hier_names():
            r = C.call("isHierarchySuitable", C.ho(h, ab, 0))
            code[h] = G.tn(r) if not isinstance(r, N) else r
        bad, forms = [], {}
        for f in SPECFORMS:
            forms[lin.canon(f)] = f
        for h, r in code.items():
            forms.update(lin.atoms(r, lf, bad))
        forms = [dict(f) for f in forms.values()]
        known = {"a", "b", "g", "q", 1}
        L.extra["linear forms"] = len(forms)
        if bad:
            L.notes.append("%d comparisons of isHierarchySuitable are not linear; decided in the cells of the remaining ones" % len(bad))
        pts = []
        for base in (BASE + [(F(b=1, a=-1), 1)], BASE + [(F(b=1, a=-1), 0)]):
            pts += lin.cells([f for f in forms if set(f) <= known], ("q", "b", "g", "a"), base)
        L.need(len(pts) > 100, "cells of the mass spectrum")
        L.extra["cells"] = len(pts)
        val = {}
        for h, r in code.items():
            wrong = None
            val[h] = []
            for pt in pts:
                num = Leaf(pt, lf)
                c = bool(num.cond(r))
                val[h].append(c)
                a, b, g, q = (pt[k] for k in "abgq")
                s = b <= Fr(13, 10) * q and g <= Fr(13, 10) * q and T[h](a, b, g, q)
                if c != s and wrong is None:
                    wrong = (c, pt)
            L.ob("suitable", "%s%s" % (h, ", bottom" if ab else ""), wrong is None, W + " isHierarchySuitable",
                 "" if wrong is None else "%s for Mst1 : Mst2 : Mgl : Msq = %s" % ("accepted" if wrong[0] else "rejected", " : ".join("%.4g" % float(wrong[1][k]) for k in "abgq")))
        for x, y in SIBLINGS:
            both = [pt for pt, i, j in zip(pts, val[x], val[y]) if i and j]
            L.ob("siblings exclude each other", "%s, %s%s" % (x, y, ", bottom" if ab else ""), not both, W + " isHierarchySuitable",
                 "" if not both else "both accepted for Mst1 : Mst2 : Mgl : Msq = %s" % " : ".join("%.4g" % float(both[0][k]) for k in "abgq"))


class Leaf(cells.Num):
    def __init__(self, pt, lf):
        super().__init__(lambda n: pt[n])
        self.p, self.lf = pt, lf

    def val(self, n):
        stack = [n]
        while stack:                       # seed the leaves first
            k = stack.pop()
            if k.id in self.v:
                continue
            nm = self.lf(k)
            if nm is not None:
                self.v[k.id] = self.p[nm]
                continue
            stack.extend(x for x in k.a if isinstance(x, N))
        return super().val(n)


class Vals(cells.Num):
    """numbers for uninterpreted functions and variables"""

    def __init__(self, seed, fixed=None):
        super().__init__(self.leaf)
        self.seed = seed
        self.fixed = fixed or {}

    def leaf(self, name):
        if name in self.fixed:
            return self.fixed[name]
        r = random.Random("%s/%s" % (self.seed, name))
        if name == "K:pi":
            return math.pi
        if name == "p.vu":
            return 240. + r.uniform(0, 20)
        if name == "p.vd":
            return 20. + r.uniform(0, 10)
        if name == "p.MZ":
            return 91. + r.uniform(0, 5)
        if name == "p.MA":
            return 500. + r.uniform(0, 500)
        return r.uniform(.5, 2)

    def node(self, n):
        if n.op == "f" and isinstance(n.a[0], str) and n.a[0].startswith("op:"):
            key = n.a[0] + "," + ",".join(repr(float(self.v[x.id])) if isinstance(x, N) else str(x) for x in n.a[1:])
            r = random.Random("%s/%s" % (self.seed, key))
            if "Uncertainty" in n.a[0]:
                return r.uniform(.5, 6)
            return r.uniform(-900, 900)
        if n.op == "f" and n.a[0] in ("ctor:Eigen::EigenSolver", "ctor:Eigen::SelfAdjointEigenSolver"):
            a, b, c, d = (self.v[x.id] for x in n.a[1:5])      # 2x2 with real eigenvalues
            w = math.sqrt((a - d) ** 2 + 4 * b * c)
            l = [(a + d - w) / 2, (a + d + w) / 2]
            if n.a[0] == "ctor:Eigen::EigenSolver" and random.Random("%s/order" % self.seed).random() < .5:   # order not specified
                l.reverse()
            return l
        if n.op == "f" and n.a[0] in ("eigenvalues", "eigenvalues#2"):
            return self.v[n.a[1].id][int(n.a[0].endswith("#2"))]
        return super().node(n)


class Sel:
    def __init__(self, P):
        self.P = P
        self.sets = 0
        self.C = hc.Calc(P, extra=self.hook)
        self.I = self.C.I

    def flat(self, args):
        return sum((self.I.flat(self.I.get(a) if isinstance(a, Ref) else a, []) for a in args), [])

    def key(self, ho):
        return [G.tn(self.C.m(ho, hc.HO + "::" + g)) for g in ("getSuitableHierarchy", "getIsAlphab", "getMDRFlag")]

    def hook(self, I, f, args, this):
        b = f.qn.split("::")[-1]
        if not f.qn.startswith(hc.HC + "::"):
            return NotImplemented
        if b == "isHierarchySuitable":
            k = self.key(args[0])
            if k[0].op != "c":
                raise program.AnalysisBroken("candidate hierarchy is not a constant")
            return G.cmp(">", G.var("S%d" % k[0].a[0]), G.const(0))
        if b in ("calculateHierarchy", "getMt41L", "getMt42L", "getExpansionUncertainty"):
            depth = [G.tn(x) for x in I.flat(self.C.hc.f["expansionDepth"], [])]
            if b != "calculateHierarchy":
                depth = []
            r = I.shaped(f.ret(), "op:" + b, self.key(args[0]) + depth + self.flat(args[1:]))
            if isinstance(r, Mat):
                r.d[2] = r.d[1]
            return r
        if b == "calcDeltaLambda3L":
            return None
        return NotImplemented


def selection(L, P):
    for ab in (0, 1):
        for mdr in (0, 1):
            one(L, P, ab, mdr)


def smaller(V, m):
    e = [V.val(G.tn(x)) for x in m]
    tr, det = e[0] + e[3], e[0] * e[3] - e[1] * e[2]
    return math.sqrt(abs((tr - math.sqrt(max(tr * tr - 4 * det, 0.))) / 2))


def one(L, P, ab, mdr):
    X = Sel(P)
    C = X.C
    names = C.hier_names()
    before = [G.tn(x) for x in C.I.flat(C.hc.f["expansionDepth"], [])]
    ho = C.ho(None, ab, mdr)
    ret = G.tn(C.call("compareHierarchies", ho))
    after = [G.tn(x) for x in C.I.flat(C.hc.f["expansionDepth"], [])]
    tag = "%s, mdrFlag %d" % ("bottom" if ab else "top", mdr)
    L.ob("state", "expansion depth, " + tag, before == after, W + " compareHierarchies", "the expansion depths are not what they were before the selection")
    suit = G.tn(C.m(ho, hc.HO + "::getSuitableHierarchy"))
    got = {"abs": C.m(ho, hc.HO + "::getAbsDiff2L"), "rel": C.m(ho, hc.HO + "::getRelDiff2L"),
           "unc2": C.m(ho, hc.HO + "::getDMhExpUncertainty", 2), "unc3": C.m(ho, hc.HO + "::getDMhExpUncertainty", 3)}
    got = {k: G.tn(v) for k, v in got.items()}
    # the tree-level mass matrix
    tree = C.m(ho, hc.HO + "::getDMh", 0)
    p = C.p.f
    import itertools
    vu, vd = G.tn(p["vu"]), G.tn(p["vd"])
    v2 = G.add(G.mul(vu, vu), G.mul(vd, vd))
    sb2, cb2, sc = G.div(G.mul(vu, vu), v2), G.div(G.mul(vd, vd), v2), G.div(G.mul(vu, vd), v2)
    mz2, ma2 = G.mul(G.tn(p["MZ"]), G.tn(p["MZ"])), G.mul(G.tn(p["MA"]), G.tn(p["MA"]))
    want = [G.add(G.mul(mz2, cb2), G.mul(ma2, sb2)), G.neg(G.mul(sc, G.add(mz2, ma2))), G.neg(G.mul(sc, G.add(mz2, ma2))), G.add(G.mul(mz2, sb2), G.mul(ma2, cb2))]
    tr = [tree.at(0, 0), tree.at(0, 1), tree.at(1, 0), tree.at(1, 1)]
    for i, (a, b) in enumerate(zip(tr, want)):
        ok = all(close(Vals("t%d" % s).val(G.tn(a)), Vals("t%d" % s).val(b)) for s in range(6))
        L.ob("tree matrix", "(%d,%d), %s" % (i // 2 + 1, i % 2 + 1, tag), ok, W + " compareHierarchies", "not the tree-level mass matrix of the gauge eigenstates")
    # parts per candidate
    parts = {}
    C.set_depth(threeLoop=0, Mst=0)
    for h in names:
        o = C.ho(h, ab, mdr)
        t = Mat(2, 2, list(want))
        m1 = C.call("getMt41L", o, mdr, 0)
        m2 = C.call("getMt42L", o, mdr, 0)
        e2 = C.call("calculateHierarchy", o, 0, 1, 0)
        parts[h] = ([G.add(x, y) for x, y in zip(msum(want, m1), ml(m2))], [G.add(x, y) for x, y in zip(msum(want, m1), ml(e2))],
                    G.tn(X.hook(C.I, P.fn(hc.HC + "::getExpansionUncertainty", 5), [o, Mat(2, 2, sym(msum(tr, m1))), G.const(0), G.const(1), G.const(0)], None)),
                    G.tn(X.hook(C.I, P.fn(hc.HC + "::getExpansionUncertainty", 5), [o, Mat(2, 2, sym([G.add(x, y) for x, y in zip(msum(tr, m1), ml(m2))])), G.const(0), G.const(0), G.const(1)], None)))
    L.funcs |= C.I.funcs_seen
    rnd = random.Random(18)
    subs = [[h] for h in names] + [list(x) for x in itertools.combinations(names, 2)] + [names]
    subs += [rnd.sample(names, rnd.randint(3, 13)) for _ in range(20)] + [[]]
    if L.tier != "quick":
        subs += [list(x) for x in itertools.combinations(names, 3)]
    bad = {}
    for i, S in enumerate(subs):
        for rep in range(1 if len(S) == 1 else 3):
            fixed = {"S%d" % C.hs[h]: 1 if h in S else -1 for h in names}
            V = Vals("s%d/%d/%d" % (i, rep, mdr), fixed)
            best = None
            for h in names:
                if h not in S:
                    continue
                full, exp, u2, u3 = parts[h]
                mf, me = smaller(V, full), smaller(V, exp)
                u2, u3 = V.val(u2), V.val(u3)
                err = math.sqrt(((mf - me) / mf) ** 2 + (u2 / me) ** 2)
                if best is None or err < best[0]:
                    best = (err, C.hs[h], {"abs": abs(mf - me), "rel": abs(mf - me) / mf, "unc2": u2, "unc3": u3})
            s, r = int(V.val(suit)), int(V.val(ret))
            w = best[1] if best else -1
            nm = ",".join(S) if 0 < len(S) < 3 else ("%d candidates" % len(S) if S else "no candidate")
            kind = "selected" if len(S) > 1 else "single candidate"
            if s != w or r != w:
                bad.setdefault((kind, nm), "%s instead of %s is selected" % (s if s != w else r, w))
            elif best:
                for k, x in best[2].items():
                    if not close(V.val(got[k]), x):
                        bad.setdefault((k, nm), "%s stored is not the one of the selected hierarchy (%s)" % (k, names[w] if w < len(names) else w))
    kinds = {"selected": [n for n in subs if len(n) != 1], "single candidate": [n for n in subs if len(n) == 1], "abs": subs, "rel": subs, "unc2": subs, "unc3": subs}
    title = {"selected": "hierarchy with the smallest error", "single candidate": "only candidate", "abs": "absolute 2-loop difference", "rel": "relative 2-loop difference",
             "unc2": "2-loop expansion uncertainty", "unc3": "3-loop expansion uncertainty"}
    for k, ss in kinds.items():
        b = [(n, d) for (kk, n), d in bad.items() if kk == k]
        L.ob("selection", "%s, %s" % (title[k], tag), not b, W + " compareHierarchies", "; ".join("%s: %s" % x for x in b[:3]))
    L.extra["candidate sets"] = len(subs)


def close(a, b):
    a, b = float(a), float(b)
    return abs(a - b) <= 1e-8 * max(abs(a), abs(b)) + 1e-12


def ml(m):
    return [G.tn(m.at(0, 0)), G.tn(m.at(0, 1)), G.tn(m.at(1, 0)), G.tn(m.at(1, 1))]


def msum(a, m):
    return [G.add(G.tn(x), y) for x, y in zip(a, ml(m))]


def sym(l):
    return [l[0], l[1], l[2], l[3]]


def smallest(L, P):
    """the helper that the masses are computed with"""
    f = [g for q, l in P.by_qn.items() if q.endswith("calcSmallestEigenvalue") for g in l]
    if not f:
        return
    from hv import interp
    I = interp.Interp(P)
    m = [G.var("m11"), G.var("m12"), G.var("m22")]
    r = G.tn(I.call(f[0], [Mat(2, 2, [m[0], m[1], m[1], m[2]])]))
    ok = True
    for s in range(40):
        rnd = random.Random(s)
        a, b, c = rnd.uniform(1, 9), rnd.uniform(-1, 1), rnd.uniform(1, 9)
        x = Vals(s, {"m11": a, "m12": b, "m22": c}).val(r)
        ok = ok and close(x, math.sqrt((a + c - math.sqrt((a - c) ** 2 + 4 * b * b)) / 2))
    L.ob("mass", "light Higgs mass", ok, W, "not the square root of the smallest eigenvalue")
    L.funcs |= I.funcs_seen


def nothing(L, P):
    """no hierarchy fits: the calculation throws"""
    for ab in (0, 1):
        X = Nothing(P)
        C = X.C
        C.call("calculateDMh3L", ab)
        ok = thrown(C, 0)
        L.ob("no candidate", "calculateDMh3L(%d)" % ab, ok, W + " calculateDMh3L", "a spectrum without suitable hierarchy does not raise an error")
        bad = [h for h in (-1, C.hs["NUMBER_OF_HIERARCHIES"], C.hs["NUMBER_OF_HIERARCHIES"] + 5, -2)
               for g, a in (("calculateHierarchy", (0, 0, 1)), ("calculateHierarchy", (0, 1, 0)), ("calculateHierarchy", (1, 0, 0)), ("getExpansionUncertainty", None))
               if not throws(C, h, ab, g, a)]
        L.ob("no candidate", "invalid hierarchy numbers, %s" % ("bottom" if ab else "top"), not bad, W, "an invalid hierarchy (%s) is not refused" % bad[:1])
        ok = not any(throws(C, h, ab, g, a) for h in C.hs.values() if 0 <= h < C.hs["NUMBER_OF_HIERARCHIES"] for g, a in (("calculateHierarchy", (0, 0, 1)), ("calculateHierarchy", (0, 1, 0))))
        L.ob("no candidate", "valid hierarchy numbers, %s" % ("bottom" if ab else "top"), ok, W, "a valid hierarchy is refused")
        L.funcs |= C.I.funcs_seen


class Nothing(P22.Parts):
    """no candidate; fixed-order and EFT calculators uninterpreted"""

    def hook(self, I, f, args, this):
        b = f.qn.split("::")[-1]
        if f.qn == hc.HC + "::isHierarchySuitable":
            return G.const(0)
        if f.qn.startswith(hc.HC + "::") and b not in ("calcDeltaLambda3L",):
            return NotImplemented
        return super().hook(I, f, args, this)


def throws(C, h, ab, g, a):
    o = C.ho(h, ab, 0)
    if a is None:
        a = (Mat(2, 2, [G.var("m%d" % i) for i in range(4)]), 0, 0, 1)
    n = len(C.I.throws)
    C.call(g, o, *a)
    return thrown(C, n)


def thrown(C, n):
    """an exception that no condition guards"""
    return any(not t[0] for t in C.I.throws[n:])
