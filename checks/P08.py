"""P08: results do not depend on the unit of mass."""
import multiprocessing, os, re
from hv import program, hc, thr, f77, dim, field, interp, graph as G
from hv.graph import N
from checks import P22, P34, P18

LEVEL = "other"
RULE = ("Dimensional analysis on value graphs obtained by abstract interpretation of the C++ and Fortran sources: every dimensionful input X of degree d is replaced by Lam^d X and each public "
        "result must be Lam^n times itself (n = 2 for squared masses and mass matrices, 1 for masses, 0 for couplings, threshold corrections and decisions). Logarithms contribute d log(Lam), "
        "loop functions are homogeneous by their definition provided that all their arguments have the proper degree. Every guard must compare quantities of equal degree; every branch must have the degree of its alternative.")
ASSUMPTIONS = ["identities are tested at random points of GF(p) (error < 1e-18)",
               "a guard that compares a dimensionful quantity with a constant of at most 1e-8 asks whether it is zero; the property is claimed for the non-zero case",
               "eigenvalues scale as the matrix, eigenvectors do not scale (property of diagonalisation)"]

INV = {"g1", "g2", "g3", "Yu", "Yd", "Ye", "s2t", "s2b", "s2tau", "theta_t", "theta_b", "theta_tau", "massLimit3LThreshold"}
SQ = {"mq2", "md2", "mu2", "ml2", "me2"}
THC = "source/himalaya/mh2_eft/ThresholdCorrections.cpp"


def field_dim(f):
    return 0 if f in INV else 2 if f in SQ else 1


def dims(v):
    if v == "msq2" or v.startswith("tree"):
        return 2
    m = re.match(r"p\.(\w+)", v)
    return field_dim(m.group(1)) if m else 0


OPQ = {"dsz_at_as": (2, (2, 1, 2, 2, 0, 0, 2, 1, 0, 2, 0, 0)), "phi_xyz": (0, "same"), "phi3": (0, "same"),
       "a0": (2, (2, 2)), "b0": (0, (2, 2, 2, 2)), "d1_b0": (-2, (2, 2)),
       "getMt41L": (2, None), "getMt42L": (2, None), "calculateHierarchy": (2, None), "shiftH3mToDRbarPrime": (2, None), "shiftH3mToDRbarPrimeMh2": (0, None),
       "getExpansionUncertainty": (2, None), "DLambdaH3m": (0, None), "DLambdaNonLog": (0, None), "MDR1": (1, None), "MDR2": (1, None), "shiftMst1ToMDR": (1, None), "shiftMst2ToMDR": (1, None)}
TAIL = {"getThresholdCorrection": 0, "getDRbarPrimeToMSbarShift": 0, "getDRbarPrimeToMSbarXtTerms": 0, "getLimit": 0, "calculate_Mh2": 2}


def funcs(nm):
    if nm in OPQ:
        return OPQ[nm]
    if nm.startswith("eig:"):
        return ("arg", "same")
    if nm.startswith("evec:"):
        return (0, "same")
    if nm.startswith(("new:", "mut:")):
        return (0, None)
    b = nm.split("::")[-1]
    if b in TAIL:
        return (TAIL[b], None)
    return None


class Job:
    def __init__(self, L):
        self.L = L
        self.D = dim.Dim(dims, funcs)

    def ob(self, kind, key, g, want, where, note="", record=True):
        g = thr.real(g if isinstance(g, N) else G.tn(g))
        self.D.wrong_guards = []
        try:
            d, bad = self.D.of(g)
        except dim.Inhomogeneous as e:
            d, bad = None, [str(e)]
        if d is not None and d != want and not bad:
            bad = ["degree %d instead of %d" % (d, want)]
        wg = self.D.wrong_guards
        if record:
            self.L.ob(kind, key, not bad, where, note + "; ".join(bad)[:400])
            self.L.ob("guards of " + kind, key, not wg, where, note + "; ".join(wg)[:400])
        return not bad and not wg


def run(L):
    P = program.Program()
    J = Job(L)
    thresholds(J, P)
    hierarchies(J, P)
    results(J, P)
    fixed_order(J, P)
    L.extra.update({"graph " + k: v for k, v in J.D.n.items()})


def thresholds(J, P):
    T = thr.Thr(P)
    sch = sorted({v: k for k, v in sorted(T.schemes.items(), key=lambda x: x[0], reverse=True)}.values())
    for o in T.orders:
        if o.startswith(("FIRST", "NUMBER")):
            continue
        for ln, lim in (sorted(T.limits.items(), key=lambda x: x[1]) if o == "LAMBDA_AT_AS2" else [("GENERAL", T.limits["GENERAL"])]):
            if ln.startswith(("FIRST", "NUMBER")):
                continue
            T.set_limit(lim)
            for s in sch:
                if s.startswith(("FIRST", "NUMBER")):
                    continue
                for omit in (0, 1):
                    J.ob("threshold", "%s %s, omitLogs=%d" % (o, ln, omit), T.get(o, s, omit), 0, THC, s + ": ")
    for ln, lim in sorted(T.limits.items(), key=lambda x: x[1]):
        if ln.startswith(("FIRST", "NUMBER")):
            continue
        T.set_limit(lim)
        for omit in (0, 1):
            for xt in (0, 1):
                J.ob("threshold", "DR' -> MSbar shift %s, omitLogs=%d, omitXtLogs=%d" % (ln, omit, xt), T.shift(4, omit, xt), 0, THC)
    J.L.funcs |= T.I.funcs_seen


class Rec:
    """obligations recorded in a subprocess"""

    def __init__(self):
        self.obs, self.funcs = [], set()

    def ob(self, *a):
        self.obs.append(a)


def part(x):
    r = Rec()
    J = Job(r)
    hierarchies(J, PROG, [x])
    return r.obs, r.funcs, J.D.n


def spread(J, P, names):
    """hierarchies distributed over subprocesses"""
    global PROG
    PROG = P
    with multiprocessing.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as pool:
        for obs, fs, n in pool.imap(part, [(h, ab) for h in names for ab in (0, 1)], 1):
            for o in obs:
                J.L.ob(*o)
            J.L.funcs |= fs
            for k, v in n.items():
                J.D.n[k] = J.D.n.get(k, 0) + v


def mat(m):
    return {k: G.tn(v) for k, v in hc.elems(m).items() if k != "21"}


def hierarchies(J, P, only=None):
    HW = "source/himalaya/hierarchies/"
    HCW = "source/himalaya/HierarchyCalculator.cpp"
    C = hc.Calc(P)
    D2 = G.var("Dmsq!")
    J.D.fresh["Dmsq!"] = 2
    hit, pos = [], {}
    M = hc.Calc(P)

    def ctor(I, f, args):
        """expansion parameter: difference of the mean squark mass and another mass passed on"""
        if not f.d["cls"].startswith("himalaya::hierarchies::") or len(args) < 8:
            return NotImplemented
        gs = [I.get(a) if isinstance(a, interp.Ref) else a for a in args]
        lin = [g for g in gs if isinstance(g, N) and g.op != "c" and not any(k.op == "ite" for k in G.topo([g]))]
        for i, g in enumerate(gs):
            if pos.get(f.d["cls"], i) != i:
                continue
            if any(g is x for x in lin) and any(k.op == "v" and k.a[0] == "msq2" for k in G.topo([g])):
                for y in lin:
                    t = G.add(g, y)
                    if field.equal(G.mul(t, t), G.abs_(G.var("msq2")), seeds=range(0, 400)):
                        args[i] = D2
                        pos[f.d["cls"]] = i     # stop masses do not depend on the squark mass for mdr = 0, which comes first
                        hit.append(1)
                        break
        return NotImplemented
    M.I.on_construct = ctor
    if only is not None:
        for h, ab in only:
            for mdr in (0, 1):
                for n in (1, 2, 3):
                    fl = tuple(int(i == n) for i in (1, 2, 3))
                    r, o = C.hierarchy(h, fl, mdr, ab)
                    tag = "%s%s, %d-loop, mdr=%d" % (h, ", bottom" if ab else "", n, mdr)
                    vals = [(e, v, 2) for e, v in mat(r).items()]
                    if n == 3:
                        vals += [(s, C.m(o, hc.HO + "::get" + s), 0) for s in ("DLambdaH3m", "DLambdaNonLog")]
                        vals += [("MDR mass %d" % i, v, 1) for i, v in enumerate(C.I.flat(C.m(o, hc.HO + "::getMDRMasses"), []))]
                    W = HW + h[0].upper() + h[1:] + ".cpp"
                    if n < 3 or all([J.ob("hierarchy", "", v, d, W, record=False) for e, v, d in vals]):
                        for e, v, d in vals:
                            J.ob("hierarchy", "%s, %s" % (tag, e), v, d, W)
                        continue
                    # a difference of two masses used in place of a difference of two squared masses?
                    del hit[:]
                    r2, o2 = M.hierarchy(h, fl, mdr, ab)
                    if hit:
                        J.L.ob("expansion parameter", h, False, HCW, "a difference of two masses is used as a difference of two squared masses")
                        vals = [(e, v, 2) for e, v in mat(r2).items()] + [(s, M.m(o2, hc.HO + "::get" + s), 0) for s in ("DLambdaH3m", "DLambdaNonLog")]
                    for e, v, d in vals:
                        J.ob("hierarchy formula", "%s, %s" % (tag, e), v, d, W)
        J.L.funcs |= C.I.funcs_seen
        return
    spread(J, P, C.hier_names())
    for ab in (0, 1):
        for h in C.hier_names():
            t = h + (", bottom" if ab else "")
            J.ob("decision", t + ", isHierarchySuitable", C.call("isHierarchySuitable", C.ho(h, ab, 0)), 0, HCW)
        for mdr in (0, 1):
            o = C.ho("h3", ab, mdr)
            for nm, a in (("getMt41L", (0, 0)), ("getMt41L", (1, 1)), ("getMt42L", (0, 0)), ("getMt42L", (1, 1)), ("shiftH3mToDRbarPrime", ())):
                for e, v in mat(C.call(nm, o, *a)).items():
                    J.ob("mass matrix", "%s%s%s, mdr=%d, %s" % (nm, a or "", ", bottom" if ab else "", mdr, e), v, 2, HCW)
            J.ob("mass matrix", "shiftH3mToDRbarPrimeMh2%s, mdr=%d" % (", bottom" if ab else "", mdr), C.call("shiftH3mToDRbarPrimeMh2", o, 1), 0, HCW)
    J.L.funcs |= C.I.funcs_seen
    J.L.need(sum(k[1] for k in J.L.kinds.values()) > 300, "value graphs of the hierarchies")


GET = {"DMh": 2, "DMh2": 2, "DLambda": 0, "DLambdaUncertainty": 0, "DMhExpUncertainty": 2, "DLambdaDRbarPrimeToMSbarShift": 0, "DMh2EFTAt": 2, "DMh2FO": 2, "DMh2FOAt": 2}
GET0 = {"DMhDRbarPrimeToMDRbarPrimeShift": 2, "DMhDRbarPrimeToH3mShift": 2, "DLambdaH3m": 0, "DLambdaNonLog": 0, "DLambdaEFT": 0, "MDRMasses": 1}


def results(J, P):
    X = P22.Parts(P)
    HCW = "source/himalaya/HierarchyCalculator.cpp"
    for ab in (0, 1):
        for n in ("h3", "h6b"):
            X.h = X.C.hs[n]
            o = X.C.call("calculateDMh3L", ab)
            for g, d in list(GET.items()) + list(GET0.items()):
                for lo in (((1, 2, 3) if "Unc" in g else (0, 1, 2, 3)) if g in GET else (None,)):
                    r = X.C.m(o, hc.HO + "::get" + g, *([] if lo is None else [lo]))
                    for i, v in enumerate(X.I.flat(r, [])):
                        J.ob("result", "%s%s, get%s(%s) %d" % (n, ", bottom" if ab else "", g, "" if lo is None else lo, i), v, d, HCW)
    E = P22.Eft(X, X.C.p)
    for n in range(4):
        J.ob("EFT", "getDeltaMh2EFT%dLoop" % n, mh2(E, n), 2, "source/himalaya/mh2_eft/Mh2EFTCalculator.cpp")


def mh2(E, n):
    for a in ((), (1,), (1, 1), (1, 1, 1)):
        try:
            return E.mh2(n, *a)
        except IndexError:
            continue


def fixed_order(J, P):
    F = f77.File(P.repo + "/source/himalaya/mh2l/DSZHiggs.f")
    W = "source/himalaya/mh2_fo/MSSM_mass_eigenstates.cpp"
    for only_at in (0, 1):
        S = P34.Graphs(P, F)
        o = S.mass_eigenstates(only_at)
        r = S.call(o, "calculate_Mh2")
        for i, v in enumerate(S.I.flat(r, [])):
            J.ob("fixed order", "%d-loop, only O(at) = %d" % (i, only_at), v, 2, W)
        for nm in ("get_mass_matrix_hh", "get_mass_matrix_hh_gaugeless", "delta_mh2_1loop", "delta_mh2_1loop_gaugeless", "delta_mh2_2loop"):
            try:
                m = S.call(o, nm)
            except program.AnalysisBroken:
                continue
            for i, v in enumerate(S.I.flat(m, [])):
                J.ob("fixed order", "%s %d, only O(at) = %d" % (nm, i, only_at), v, 2, W)
