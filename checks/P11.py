"""P11: expansion-depth and loop-order flags of the hierarchies, and the expansion uncertainty built from them."""
import json, os
from hv import program, hc, thr, field, graph as G, series as SR
from hv.field import Hpos, Bad, P as PR
from hv.interp import Mat
from checks import P10 as T

LEVEL = "other"
RULE = ("Abstract interpretation of calculateHierarchy with each expansion-depth flag lowered in turn: the value graph must not depend on flags of other hierarchies, and the difference "
        "with/without a flag, evaluated in a truncated log-power-series domain over GF(p), must be a term of (at least) the recorded highest order in the variable the flag is named after. "
        "Loop flags: additivity and power of g3 by GF(p) value numbering. getExpansionUncertainty: value graph equal to the quadratic sum of the differences.")
ASSUMPTIONS = ["leading powers of the difference are compared at random field points (error < 1e-18)", "recorded orders in checks/P11_orders.json"]
TABLE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "P11_orders.json")
N = 9
W = "source/himalaya/hierarchies/%s.cpp"
HCW = "source/himalaya/HierarchyCalculator.cpp"
MOTHER = {"h3": "h3", "h32q2g": "h3", "h3q22g": "h3", "h4": "h4", "h5": "h5", "h5g1": "h5", "h6": "h6", "h6g2": "h6",
          "h6b": "h6b", "h6b2qg2": "h6b", "h6bq22g": "h6b", "h6bq2g2": "h6b", "h9": "h9", "h9q2": "h9"}
FLAGS = {"h3": ("Dmglst1", "Dmsqst1", "Dmst12"), "h4": ("At", "lmMsusy", "Msq", "Msusy"), "h5": ("Dmglst1", "Msq"), "h6": ("Dmglst2", "Msq"),
         "h6b": ("Dmglst2", "Dmsqst2"), "h9": ("Dmsqst1", "Dmst12", "Mgl")}
EXTRA = {"h6": ("Mst",), "h6b": ("Mst",), "h9": ("threeLoop",)}   # truncations used only when hierarchies are compared


NN = 24


def mono(q, p):
    return SR.S(p, {0: [q % PR] + [0] * (NN - 1)})


def near(b, q):
    return SR.mul(b, SR.add(mono(1, 0), mono(q, 1)), NN)


def fam(mother, flag):
    def f(s):
        M, m2, q, g = (mono(Hpos(x, s), 0) for x in ("M", "m2", "q", "g"))
        e = {"p.MSt(0)": M, "p.MSt(1)": m2, "p.MG": g, "msq": q}
        if flag == "Dmglst1":
            e["p.MG"] = near(M, 3)
        elif flag == "Dmglst2":
            e["p.MG"] = near(m2, 3)
        elif flag == "Dmsqst1":
            e["msq"] = near(M, 3)
        elif flag == "Dmsqst2":
            e["msq"] = near(m2, 3)
        elif flag == "Dmst12":
            e["p.MSt(1)"] = near(M, 3)
        elif flag == "Msq":
            e["msq"] = mono(Hpos("q", s), -1)
        elif flag == "Mst":
            e["p.MSt(0)"] = mono(Hpos("M", s), 1)
        elif flag in ("Mgl", "threeLoop"):
            e["p.MG"] = mono(Hpos("g", s), 1)
        elif flag == "At":
            e["p.Au(2,2)"] = mono(Hpos("A", s), 1)
        if mother == "h4":
            e["p.MSt(1)"] = M
            e["p.MG"] = M
            if flag == "Msusy":
                e["p.MSt(0)"] = e["p.MSt(1)"] = e["p.MG"] = mono(Hpos("M", s), 1)
            if flag == "lmMsusy":
                e["p.scale"] = near(M, 3)
        return e
    return f


def valuation(roots, f, n=N, seeds=range(1, 40)):
    roots = thr.algebraic(roots)
    err = None
    for s in seeds:
        try:
            vu, vd = T.tanb(s)
            memo = {"p.vu": vu, "p.vd": vd}
            memo.update(f(s))

            def asg(n):
                if n not in memo:
                    memo[n] = None if n.startswith("K:") else field.signed(n, s, Hpos(n, s))
                return memo[n]
            S = SR.Series(n, asg, seed=s)
            out = []
            for r in roots:
                x = SR.norm(S.val(r))
                out.append(x.v if x.n and any(any(c) for c in x.d.values()) else None)
            return out
        except Bad as ex:
            err = ex
    raise err


LOOPS = {1: (1, 0, 0), 2: (0, 1, 0), 3: (0, 0, 1)}
EL = ("11", "12", "22")


class Values:
    def __init__(self, C):
        self.C = C
        self.memo = {}

    def symbolic(self, h, loop):
        """value graphs with every expansion flag a variable"""
        C = self.C
        C.set_depth(**{f: G.var("depth:" + f) for f in C.flags})
        m, o = C.hierarchy(h, LOOPS[loop], 0)
        C.set_depth(**{f: 1 for f in C.flags})
        r = {x: G.tn(hc.elems(m)[x]) for x in EL}
        if loop == 3:
            r["lambda"] = G.tn(C.m(o, hc.HO + "::getDLambdaH3m"))
            r["lambda nonlog"] = G.tn(C.m(o, hc.HO + "::getDLambdaNonLog"))
        return r

    def get(self, h, loop, flag=None):
        k = h, loop, flag
        if k not in self.memo:
            if (h, loop) not in self.memo:
                self.memo[h, loop] = self.symbolic(h, loop)
            r = self.memo[h, loop]
            if flag is not None and "depth:" + flag not in G.variables(r.values()):
                self.memo[k] = self.get(h, loop)
            else:
                n = G.substitute(list(r.values()), {"depth:" + f: G.const(int(f != flag)) for f in self.C.flags})
                self.memo[k] = dict(zip(r, n))
        return self.memo[k]


def lam(C, m):
    """square root of the smallest eigenvalue, as computed by the code under analysis"""
    f = [g for q, l in C.P.by_qn.items() if q.endswith("calcSmallestEigenvalue") for g in l]
    if f:
        return G.tn(C.I.call(f[0], [m], None))
    raise program.AnalysisBroken("smallest-eigenvalue helper not found")


def equal_opaque(a, b):
    """equal with square roots (and with them the eigenvalues) uninterpreted"""
    if a is b:
        return True
    try:
        return field.equal(a, b, funcs={"sqrt": lambda g, n: g.rnd("sqrt", g.val(n.a[1]))})
    except (field.Bad, field.Undecided):
        return False


def run(L):
    P = program.Program()
    msq = G.var("msq")
    C = hc.Calc(P, extra=lambda I, f, a, t: G.mul(msq, msq) if f.qn == "himalaya::Parameters::calculateMsq2" else NotImplemented)
    req = json.load(open(TABLE)) if os.path.exists(TABLE) else {}
    dump = {}
    flags = C.flags = [k for k in C.depth if k not in ("FIRST", "NUMBER_OF_EXPANSIONS")]
    V = Values(C)
    for h in C.hier_names():
        if h not in MOTHER:
            L.ob("hierarchy", h, False, HCW, "hierarchy unknown to the specification")
            continue
        mo = MOTHER[h]
        own = FLAGS[mo] + EXTRA.get(mo, ())
        where = W % h.replace("h", "H", 1)
        for fl in flags:
            acts = False
            for loop in (1, 2, 3):
                a, b = V.get(h, loop), V.get(h, loop, fl)
                for x in a:
                    same = a[x] is b[x]
                    key = "%s %s %d-loop %s" % (h, fl, loop, x)
                    if fl not in own:
                        L.ob("foreign", key, same or field.equal(a[x], b[x]), where, "result depends on the expansion depth of %s, which is not an expansion variable of %s" % (fl, h))
                        continue
                    if same:
                        dump[key] = None
                    else:
                        try:
                            va, vd = valuation([a[x], G.sub(a[x], b[x])], fam(mo, fl), NN if mo == "h4" else N)
                        except Bad as ex:
                            L.ob("order", key, False, where, "no value: %s" % ex)
                            continue
                        dump[key] = vd
                    if dump[key] is not None:
                        acts = True
                    if key in req:
                        r, g = req[key], dump[key]
                        L.ob("order", key, r == g, where, "lowering the depth changes order %s of the expansion (expected: %s)" % (g, r))
            if fl in own:
                L.ob("acts", "%s %s" % (h, fl), acts, where, "the expansion depth of %s has no effect in %s" % (fl, h))
    # loop flags
    two = G.var("two")
    for h in C.hier_names():
        m, _ = C.hierarchy(h, (1, 1, 1), 0)
        e = hc.elems(m)
        for x in EL:
            s = G.const(0)
            for loop in (1, 2, 3):
                v = V.get(h, loop)[x]
                s = G.add(s, v)
                w, = G.substitute([v], {"p.g3": G.mul(two, G.var("p.g3"))})
                L.ob("power", "%s %d-loop %s" % (h, loop, x), field.equal(w, G.mul(G.powi(two, 2 * (loop - 1)), v)), W % h.replace("h", "H", 1),
                     "the %d-loop part is not proportional to alpha_s^%d" % (loop, loop - 1))
            L.ob("additive", "%s %s" % (h, x), field.equal(s, G.tn(e[x])), HCW, "requesting all loop orders is not the sum of the orders requested one by one")
        m, o = C.hierarchy(h, (0, 0, 0), 0)
        L.ob("additive", "%s none" % h, all(G.tn(v).op == "c" and G.tn(v).a[0] == 0 for v in hc.elems(m).values()), HCW, "result without any loop order is not zero")
    # expansion uncertainty
    M = Mat(2, 2, [G.var("m11"), G.var("m12"), G.var("m12"), G.var("m22")])

    def full(m):
        e = [G.tn(x) for x in m]
        return Mat(2, 2, [G.add(M.at(0, 0), e[0]), G.add(M.at(0, 1), e[1]), G.add(M.at(1, 0), e[1]), G.add(M.at(1, 1), e[2])])
    f = P.fn(hc.HC + "::getExpansionUncertainty", 5)
    for h in C.hier_names():
        for start, loop in ((0, 2), (1, 3)) if L.tier == "quick" else ((0, 2), (1, 2), (0, 3), (1, 3)):
            C.set_depth(Mst=start, threeLoop=start)
            if True:
                o = C.ho(h, 0, 0)
                before = list(C.hc.f["expansionDepth"].d)
                got = C.I.call(f, [o, M] + [G.const(i) for i in LOOPS[loop]], C.hc)
                after = [G.tn(x) for x in C.hc.f["expansionDepth"].d]
                L.ob("restore", "%s %d-loop start %d" % (h, loop, start), all(a is G.tn(b) for a, b in zip(after, before)), HCW,
                     "getExpansionUncertainty leaves the expansion flags changed")
                b0 = lam(C, full([V.get(h, loop)[x] for x in EL]))
                s = G.const(0)
                for fl in FLAGS[MOTHER[h]]:
                    d = G.sub(b0, lam(C, full([V.get(h, loop, fl)[x] for x in EL])))
                    s = G.add(s, G.mul(d, d))
                got = G.tn(got)
                L.ob("uncertainty", "%s %d-loop start %d" % (h, loop, start), equal_opaque(got, G.sqrt(s)), HCW,
                     "expansion uncertainty is not the quadratic sum of the changes under lowering each expansion depth of %s" % MOTHER[h])
            C.set_depth(Mst=1, threeLoop=1)
    if os.environ.get("P11_DUMP"):
        json.dump(dump, open(TABLE, "w"), indent=0, sort_keys=True)
    L.need(len(req) > 0 or os.environ.get("P11_DUMP"), "order table")
    L.funcs |= C.I.funcs_seen
    L.assumptions += ASSUMPTIONS
