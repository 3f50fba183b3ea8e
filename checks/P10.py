"""P10: every mass-hierarchy expansion approximates the same function."""
import json, os
from hv import program, hc, thr, field, graph as G, series as SR
from hv.field import Hpos, Bad, P as PR

LEVEL = "other"
RULE = ("Abstract interpretation of HierarchyCalculator::calculateHierarchy and getMt41L into value graphs, evaluated in a truncated "
        "(log-)power-series domain over GF(p) for families of mass spectra approaching a common corner of validity: every expansion must agree with the exact "
        "1-loop result, and with every sibling expansion at 1, 2 and 3 loops and in Delta(lambda), through the order in the mass differences and mass ratios that both keep.")
ASSUMPTIONS = ["agreement of power-series coefficients is tested at random field points (error < 1e-18)",
               "orders kept by the expansions are listed in checks/P10_orders.json (truncation orders of the published expansions)",
               "the exact 2-loop routine and the 3-loop constants common to all siblings of a family are not decided here"]
W = "source/himalaya/hierarchies/%s.cpp"
TABLE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "P10_orders.json")
N = 9


def mono(q, p, n=N):
    return SR.S(p, {0: [q % PR] + [0] * (n - 1)})


def k(x):
    return SR.const(x % PR, N)


def near(b, q, p):
    return SR.mul(b, SR.add(k(1), mono(q, p)), N)


def tanb(seed):
    """vu, vd on a Pythagorean parametrisation (sin, cos of beta are field elements)"""
    for i in range(1000):
        v, w = Hpos("v", seed), field.H("w", seed, i)
        d = field.inv((1 + w * w) % PR)
        vu, vd = v * 2 * w % PR * d % PR, v * (1 - w * w) % PR * d % PR
        if field.is_pos(vu) and field.is_pos(vd):
            return vu, vd


def series(seed, e):
    vu, vd = tanb(seed)
    memo = {"p.vu": vu, "p.vd": vd}
    memo.update(e)

    def asg(n):
        if n not in memo:
            memo[n] = None if n.startswith("K:") else field.signed(n, seed, Hpos(n, seed))
        return memo[n]
    return SR.Series(N, asg, seed=seed)


def eq_family(var):
    """stop masses, squark mass and gluino mass close to each other; var: which of them differ at O(t)"""
    def f(seed):
        M = k(Hpos("M", seed))
        d = lambda x, q: near(M, q, 1) if x in var else M
        sq = d("q", 11)
        return {"p.MSt(0)": M, "p.MSt(1)": d("t", 3), "p.MG": d("g", 5), "msq2": SR.mul(sq, sq, N)}
    return f


def split(kind, var, sm):
    """light stop much lighter than heavy stop: MSt1 ~ t^sm; gluino close to MSt1 (5) or to MSt2 (6, 6b); squarks heavy or close to MSt2 (6b)"""
    def f(seed):
        M, s, q = k(Hpos("M", seed)), Hpos("s", seed), k(Hpos("q", seed))
        ms = mono(s, sm) if sm else k(s)
        base = ms if kind == "5" else M
        e = {"p.MSt(0)": ms, "p.MSt(1)": M, "p.Mt": mono(Hpos("mt", seed), sm + 1) if sm else k(Hpos("mt", seed)),
             "p.MG": near(base, 5, 1) if "g" in var else base}
        if kind == "6b":
            q = near(M, 7, 1) if "q" in var else M
        e["msq2"] = SR.mul(q, q, N)
        return e
    return f


def exact1(kind):
    def f(seed):
        if kind == "near":  # nearly degenerate stops, top much lighter
            M = k(Hpos("M", seed))
            return {"p.MSt(0)": M, "p.MSt(1)": near(M, 3, 2), "p.Mt": mono(Hpos("mt", seed), 1)}
        if kind == "near1":
            M = k(Hpos("M", seed))
            return {"p.MSt(0)": M, "p.MSt(1)": near(M, 3, 1), "p.Mt": mono(Hpos("mt", seed), 1)}
        if kind == "split":
            M = k(Hpos("M", seed))
            return {"p.MSt(0)": mono(Hpos("s", seed), 1), "p.MSt(1)": M, "p.Mt": mono(Hpos("mt", seed), 2), "p.s2t": mono(Hpos("s2", seed), 1)}
        M = k(Hpos("M", seed))  # one common stop mass, no mixing
        return {"p.MSt(0)": M, "p.MSt(1)": M, "p.Mt": mono(Hpos("mt", seed), 1), "p.s2t": 0}
    return f


PAIRS = []
for a, b in (("h3", "h32q2g"), ("h3", "h3q22g"), ("h32q2g", "h3q22g"), ("h9", "h9q2")):
    for var in ("tqg", "t", "q", "g"):
        PAIRS.append((a, b, "equal masses, %s" % var, eq_family(var)))
for a, b, kd, vs in (("h5", "h5g1", "5", ("g",)), ("h6", "h6g2", "6", ("g",)),
                     ("h6b", "h6b2qg2", "6b", ("gq", "g", "q")), ("h6b", "h6bq22g", "6b", ("gq", "g", "q")), ("h6b", "h6bq2g2", "6b", ("gq", "g", "q")),
                     ("h6b2qg2", "h6bq22g", "6b", ("gq",)), ("h6b2qg2", "h6bq2g2", "6b", ("gq",)), ("h6bq22g", "h6bq2g2", "6b", ("gq",))):
    for var in vs:
        for sm in (0, 2):
            PAIRS.append((a, b, "split stops, %s, MSt1~t^%d" % (var, sm), split(kd, var, sm)))
EXACT = {"h3": ("near", "near1"), "h32q2g": ("near", "near1"), "h3q22g": ("near", "near1"), "h9": ("near", "near1"), "h9q2": ("near", "near1"),
         "h4": ("common",), "h5": ("split",), "h5g1": ("split",), "h6": ("split",), "h6g2": ("split",), "h6b": ("split",), "h6b2qg2": ("split",),
         "h6bq22g": ("split",), "h6bq2g2": ("split",)}
LOOPS = {1: (1, 0, 0), 2: (0, 1, 0), 3: (0, 0, 1)}


def order(a, b, fam, seeds=range(1, 40)):
    """(valuation of a, first order at which a and b differ or None, first unknown order)"""
    a, b = thr.algebraic([G.tn(a), G.tn(b)])
    err = None
    for s in seeds:
        try:
            S = series(s, fam(s))
            x, y = S.val(a), S.val(b)
            d, n = SR.diff_order(x, y)
            return SR.norm(x).v, d, n
        except Bad as ex:
            err = ex
    raise err


class Exprs:
    def __init__(self, P):
        self.C = hc.Calc(P)
        self.memo = {}

    def get(self, h, loop, mdr=0):
        key = (h, loop, mdr)
        if key not in self.memo:
            m, o = self.C.hierarchy(h, LOOPS[loop], mdr)
            r = {x: y for x, y in hc.elems(m).items() if x != "21"}
            self.memo[key] = r, (hc.elems(m)["21"] is hc.elems(m)["12"]), o
            if loop == 3:
                r["lambda"] = self.C.m(o, hc.HO + "::getDLambdaH3m")
                r["lambda nonlog"] = self.C.m(o, hc.HO + "::getDLambdaNonLog")
        return self.memo[key][0]


def obligations(E):
    for h, fams in EXACT.items():
        m = hc.elems(E.C.call("getMt41L", E.C.ho(h), 0, 0))
        e = E.get(h, 1)
        for f in fams:
            for x in ("11", "12", "22"):
                yield "%s vs exact 1-loop, %s, %s" % (h, f, x), h, e[x], m[x], exact1(f), None
    for a, b, nm, fam in PAIRS:
        for loop in (1, 2, 3):
            ea, eb = E.get(a, loop), E.get(b, loop)
            for x in ea:
                yield "%s vs %s, %d-loop, %s, %s" % (a, b, loop, nm, x), b, ea[x], eb[x], fam, None


def run(L):
    P = program.Program()
    E = Exprs(P)
    req = json.load(open(TABLE)) if os.path.exists(TABLE) else {}
    dump = {}
    for key, h, a, b, fam, _ in obligations(E):
        try:
            v, d, n = order(a, b, fam)
        except Bad as ex:
            L.ob("agreement", key, key not in req, W % h.replace("h", "H", 1), "no value in this corner: %s" % ex)
            continue
        except field.Undecided as ex:
            L.ob("agreement", key, False, W % h.replace("h", "H", 1), "depends on a run-time condition %s" % G.show(ex.n, 3))
            continue
        dump[key] = [v, d if d is not None else n, d is None]
        if key not in req:
            continue
        rv, rd, _ = req[key]
        got = n if d is None else d
        ok = v == rv and (got >= rd or d is None and n >= min(rd, n))
        L.ob("agreement", key, ok, W % h.replace("h", "H", 1),
             "leading order %s (expected %s), agreement through order %s (expected %s)" % (v, rv, got - 1, rd - 1))
    if os.environ.get("P10_DUMP"):
        json.dump({kk: x for kk, x in dump.items() if x[1] - x[0] > 0}, open(TABLE, "w"), indent=0, sort_keys=True)
    for (h, loop, mdr), (r, sym, o) in sorted(E.memo.items()):
        L.ob("symmetric", "%s %d-loop" % (h, loop), sym, "source/himalaya/HierarchyCalculator.cpp", "self-energy matrix is not symmetric")
    L.need(all(len(G.variables([r[x]])) > 3 for (h, loop, mdr), (r, _, _) in E.memo.items() if loop == 3 for x in ("lambda", "lambda nonlog")),
           "3-loop Delta lambda of every hierarchy")
    L.funcs |= E.C.I.funcs_seen
    L.assumptions += ASSUMPTIONS
