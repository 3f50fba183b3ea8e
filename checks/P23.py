"""P23: bottom loops use the same formulas as top loops, with the parameters of the bottom sector."""
import multiprocessing, os
from hv import program, hc, thr, field, graph as G
from hv.field import Bad
from checks import P10

LEVEL = "static"
RULE = ("Abstract interpretation of calculateHierarchy (14 hierarchies, each loop order, DR' and MDR', truncated and full expansions), getMt41L, getMt42L, getExpansionUncertainty, the stop-mass shifts and the H3m -> DR' conversion for a HierarchyObject with and without "
        "isAlphab; the value graph for bottom loops must equal the graph for top loops with m_t, the stop masses, the mixing angle and A_t replaced by their bottom counterparts, and must not contain any top parameter (algebraic identity test over GF(p))")
ASSUMPTIONS = ["identities are tested at random field points (error < 1e-18)", "the exchange of the two Higgs doublets (tan(beta) <-> 1/tan(beta)) is not part of the property"]
HCW = "source/himalaya/HierarchyCalculator.cpp"
MAP = {"p.MSt(0)": "p.MSb(0)", "p.MSt(1)": "p.MSb(1)", "p.Mt": "p.Mb", "p.s2t": "p.s2b", "p.theta_t": "p.theta_b", "p.Au(2,2)": "p.Ad(2,2)"}
TOP = set(MAP)


SHIFT = {"shiftH3mToDRbarPrime": {k: v for k, v in MAP.items() if k not in ("p.Mt", "p.Au(2,2)")}, "shiftH3mToDRbarPrimeMh2": {}}


def compare(a, b, MAP=MAP):
    """problem or None; a: top, b: bottom"""
    s, = G.substitute([a], {k: G.var(v) for k, v in MAP.items()})
    left = sorted(TOP & set(G.variables([b])))
    if s is b:
        return None
    try:
        x, y = thr.algebraic([s, b])
        if field.equal(x, y):
            return None
    except field.Undecided as e:
        return "depends on a run-time condition %s that differs" % G.show(e.n, 3)
    except Bad as e:
        return "no value: %s" % e
    return "differs from the top formula with bottom parameters" + (", uses " + ", ".join(left) if left else "")


def elems(r):
    if isinstance(r, G.N):
        return {"": r}
    try:
        return {k: G.tn(v) for k, v in hc.elems(r).items() if k != "21"}
    except AttributeError:
        return {"": G.tn(r)}


def pairs(h):
    C = CC
    for mdr in (0, 1):
        for loop in (1, 2, 3):
            r = []
            for ab in (0, 1):
                m, o = C.hierarchy(h, P10.LOOPS[loop], mdr, ab)
                e = elems(m)
                if loop == 3:
                    for s in ("DLambdaH3m", "DLambdaNonLog"):
                        e[s] = G.tn(C.m(o, hc.HO + "::get" + s))
                    for i, v in enumerate(C.I.flat(C.m(o, hc.HO + "::getMDRMasses"), [])):
                        e["MDR mass %d" % i] = v
                r.append(e)
            for k in r[0]:
                yield "hierarchy", "%s, %d-loop, mdr=%d, %s" % (h, loop, mdr, k), "source/himalaya/hierarchies/%s.cpp" % h.replace("h", "H", 1), r[0][k], r[1][k]
        calls = [("getMt41L", (i, j)) for i, j in ((0, 0), (1, 0), (0, 1), (1, 1))] + [("getMt42L", (i, j)) for i, j in ((0, 0), (1, 0), (0, 1), (1, 1))]
        calls += [(s, (i, j)) for s in ("shiftMst1ToMDR", "shiftMst2ToMDR") for i, j in ((0, 0), (1, 0), (0, 1), (1, 1))]
        calls += [("shiftH3mToDRbarPrime", ()), ("shiftH3mToDRbarPrimeMh2", (0,)), ("shiftH3mToDRbarPrimeMh2", (1,))]
        for nm, a in calls:
            r = [elems(C.call(nm, C.ho(h, ab, mdr), *a)) for ab in (0, 1)]
            for k in r[0]:
                yield nm, "%s, arguments %s, mdr=%d, %s" % (h, a, mdr, k), HCW, r[0][k], r[1][k]


def job(h):
    out = []
    for k, key, w, a, b in pairs(h):
        bad = compare(a, b)
        if bad and k in SHIFT:
            out.append((k, "top parameters", w, "parameters of the top sector are used: " + bad))
            bad = compare(a, b, SHIFT[k])       # everything else
        out.append((k, key, w, bad))
    return out, CC.I.funcs_seen


def run(L):
    global CC
    P = program.Program()
    CC = hc.Calc(P)
    with multiprocessing.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as pool:
        for obs, fs in pool.imap(job, CC.hier_names(), 1):
            L.funcs |= fs
            for kind, key, w, bad in obs:
                L.ob(kind, key, bad is None, w, bad or "")
    L.need(L.n > 700, "values for top and bottom loops")
    L.assumptions += ASSUMPTIONS
