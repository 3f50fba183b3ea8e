"""P09: DR' and MDR' versions of a hierarchy describe the same Higgs mass matrix."""
import json, os
from hv import program, hc, thr, field, graph as G, series as SR, jet
from hv.field import Hpos, Bad, P as PR
from checks import P10 as T

LEVEL = "other"
RULE = ("Abstract interpretation of HierarchyCalculator (getMt41L, calculateHierarchy, stop-mass shifts) into value graphs; the sum of the 1-, 2- and 3-loop parts is expanded "
        "in g3^2 with Taylor jets of the graph (mass shifts included) and each order in alpha_s is evaluated in a truncated log-power-series domain over GF(p): in the MDR' scheme "
        "(shifted masses + expansion with mdrFlag=1) and in the DR' scheme it must be the same through the order in masses and mixing that the expansion keeps.")
ASSUMPTIONS = ["power-series coefficients compared at random field points (error < 1e-18)",
               "orders through which both schemes agree are listed in checks/P09_orders.json"]
TABLE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "P09_orders.json")
N = 16
W = "source/himalaya/HierarchyCalculator.cpp"


def mono(q, p):
    return SR.S(p, {0: [q % PR] + [0] * (N - 1)})


def mul(a, b):
    return SR.mul(a, b, N)


def one(q, p):
    return SR.add(mono(1, 0), mono(q, p)) if p else mono(1, 0)


def fam(kind, sp):
    """(MSt1, MSt2, MG, Msq, Mt, s2t) as powers of t"""
    def f(s):
        H = lambda n: Hpos(n, s)
        M, ms, q = H("M"), H("ms"), H("q")
        if kind == "eq":
            a, b, g, x, mt = mono(M, 0), mul(mono(M, 0), one(3, 2)), mul(mono(M, 0), one(5, 2)), mul(mono(M, 0), one(11, 2)), 1
        elif kind == "4":
            a, b, g, x, mt = mono(M, 1), mul(mono(M, 1), one(3, 4)), mono(M, 1), mono(q, 0), 3
        elif kind == "5":
            a, b, g, x, mt = mono(ms, 2), mono(M, 1), mul(mono(ms, 2), one(5, 2)), mono(q, 0), 4
        elif kind == "6":
            a, b, g, x, mt = mono(ms, 2), mono(M, 1), mul(mono(M, 1), one(5, 2)), mono(q, 0), 4
        else:
            a, b, g, x, mt = mono(ms, 1), mono(M, 0), mul(mono(M, 0), one(5, 2)), mul(mono(M, 0), one(7, 2)), 3
        return {"p.MSt(0)": a, "p.MSt(1)": b, "p.MG": g, "msq": x, "p.Mt": mono(H("mt"), mt),
                "p.s2t": 0 if sp is None else mono(H("s2"), sp)}
    return f


CASES = []
for h in ("h3", "h32q2g", "h3q22g", "h9", "h9q2"):
    CASES.append((h, "equal masses", fam("eq", 0)))
CASES.append(("h4", "heavy squarks", fam("4", None)))
for h in ("h5", "h5g1"):
    CASES += [(h, "split, s2t~t^%d" % k, fam("5", k)) for k in (3, 5)]
for h in ("h6", "h6g2"):
    CASES += [(h, "split, s2t~t^%d" % k, fam("6", k)) for k in (3, 5)]
for h in ("h6b", "h6b2qg2", "h6bq22g", "h6bq2g2"):
    CASES += [(h, "split, s2t~t^%d" % k, fam("6b", k)) for k in (3, 5)]
EL = ("11", "12", "22")


def coeffs(C, h):
    """per element: {1: (DR', MDR'), 2: (DR', MDR')} coefficients of g3^2 and g3^4"""
    e = lambda m: [G.tn(hc.elems(m)[x]) for x in EL]
    roots = []
    for mdr in (0, 1):
        roots += e(C.call("getMt41L", C.ho(h, 0, mdr), mdr, mdr)) + e(C.hierarchy(h, (0, 1, 0), mdr)[0]) + e(C.hierarchy(h, (0, 0, 1), mdr)[0])
    js = jet.jets(roots, "p.g3", 4)
    out = {}
    for i, x in enumerate(EL):
        out[x] = {}
        for o in (0, 1, 2, 3, 4):
            a, b = [G.add(G.add(js[9 * m + i][o], js[9 * m + 3 + i][o]), js[9 * m + 6 + i][o]) for m in (0, 1)]
            out[x][o] = a, b
    return out


def order(a, b, f, seeds=range(1, 40)):
    a, b = thr.algebraic([a, b])
    err = None
    for s in seeds:
        try:
            vu, vd = T.tanb(s)
            memo = {"p.vu": vu, "p.vd": vd}
            memo.update(f(s))

            def asg(n):
                if n not in memo:
                    memo[n] = None if n.startswith("K:") else field.signed(n, s, Hpos(n, s))
                return memo[n]
            S = SR.Series(N, asg, seed=s)
            x, y = S.val(a), S.val(b)
            d, n = SR.diff_order(x, y)
            return SR.norm(x).v, d, n
        except Bad as ex:
            err = ex
    raise err


def run(L):
    P = program.Program()
    msq = G.var("msq")
    C = hc.Calc(P, extra=lambda I, f, a, t: G.mul(msq, msq) if f.qn == "himalaya::Parameters::calculateMsq2" else NotImplemented)
    req = json.load(open(TABLE)) if os.path.exists(TABLE) else {}
    dump = {}
    memo = {}
    for h, nm, f in CASES:
        if h not in memo:
            memo[h] = coeffs(C, h)
        where = "source/himalaya/hierarchies/%s.cpp" % h.replace("h", "H", 1)
        for x in EL:
            for o in (1, 3):
                a, b = memo[h][x][o]
                if nm == "equal masses" or nm.endswith("5") or h == "h4":
                    L.ob("odd", "%s (%s) g3^%d" % (h, x, o), all(n.op == "c" and n.a[0] == 0 for n in (a, b)), W, "an odd power of g3 is present")
            for o in (2, 4):
                a, b = memo[h][x][o]
                key = "%s (%s), alpha_s^%d, %s" % (h, x, o // 2, nm)
                try:
                    v, d, n = order(a, b, f)
                except Bad as ex:
                    L.ob("scheme", key, key not in req, where, "no value: %s" % ex)
                    continue
                except field.Undecided as ex:
                    L.ob("scheme", key, False, where, "depends on a run-time condition %s" % G.show(ex.n, 3))
                    continue
                dump[key] = [v, n if d is None else d, d is None]
                if key in req:
                    rv, rd, rn = req[key]
                    got = n if d is None else d
                    L.ob("scheme", key, v == rv and (got >= rd or d is None), where,
                         "leading order %s (expected %s), agreement through order %s (expected %s)" % (v, rv, got - 1, rd - 1))
    if os.environ.get("P09_DUMP"):
        json.dump({kk: x for kk, x in dump.items() if x[1] - x[0] > 0}, open(TABLE, "w"), indent=0, sort_keys=True)
    L.need(len(req) > 0, "order table checks/P09_orders.json")
    L.funcs |= C.I.funcs_seen
    L.assumptions += ASSUMPTIONS
