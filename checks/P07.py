"""P07: threshold corrections: every special mass case is the limit of the general case."""
from fractions import Fraction as Fr
import itertools
from hv import program, thr, graph as G, cells, series as SR, numser as NS, field
import mpmath as mp
from hv.field import Hpos, Bad, H

LEVEL = "other"
RULE = ("Abstract interpretation of the threshold calculator through its public interface; the branch selected for each "
        "mass-limit setting, and the branch each in-function closeness guard selects, is compared with the general-mass "
        "expression in the domain of truncated (log-)power series over GF(p) around the degenerate mass configuration "
        "(dilogarithms and the Davydychev-Tausk function expanded through their functional / differential equations): "
        "the difference must vanish at leading order and the limit expression must be regular there. Limit expressions written with rounded "
        "decimals are compared with the limit of the general expression in high-precision real power series. Every branch taken at "
        "exactly equal masses must evaluate without a division by zero.")
ASSUMPTIONS = ["masses positive; the dilogarithm and phi_xyz routines compute Li2 and the Davydychev-Tausk function",
               "probabilistic identity test over GF(p), p ~ 2^85: error probability < 1e-18 per identity"]
N = 14
v = G.var
MASS = {"p.mq2(2,2)": "mQ", "p.mu2(2,2)": "mU", "p.md2(2,2)": "mD", "p.ml2(2,2)": "mL", "p.me2(2,2)": "mE", "msq2": "mS"}
LIN = {"p.MG": "m3", "p.MA": "mA", "p.mu": "mH", "p.MSt(0)": "mt1"}
SUB = {k: G.mul(v(n), v(n)) for k, n in MASS.items()}
SUB.update({k: v(n) for k, n in LIN.items()})
BASE = {"mQ": 17, "mU": 23, "mD": 27, "mL": 43, "mE": 51, "mS": 37, "m3": 29, "mA": 61, "mH": 13, "mt1": 19}
DIRS = {"MQ3_EQ_MU3": [("mU", "mQ", 3)], "MQ3_EQ_M3": [("m3", "mQ", -5)], "MU3_EQ_M3": [("m3", "mU", 3)],
        "MQ3_EQ_MU3_EQ_M3": [("mU", "mQ", 3), ("m3", "mQ", -5)],
        "DEGENERATE": [("mU", "mQ", 3), ("m3", "mQ", -5), ("mS", "mQ", 7)], "GENERAL": []}


def seedv(nm, seed):
    return Fr(int(H("rep", nm, seed) % 900) + 100, 10)


def point(dirs, eps, seed):
    d = {k: Fr(x) for k, x in BASE.items()}
    for a, b, k in dirs:
        d[a] = d[b] * (1 + k * eps)

    def f(nm):
        if nm in d:
            return d[nm]
        if nm.startswith("K:"):
            return {"K:pi": 3.141592653589793, "K:zeta3": 1.2020569031595942, "K:S2": 0.26043413763216}.get(nm, 0.577)
        return seedv(nm, seed)
    return f


def assign(dirs, seed):
    d = {k: SR.const(Hpos(k, seed), N) for k in BASE}
    for a, b, k in dirs:
        d[a] = SR.mul(SR.const(Hpos(b, seed), N), SR.eps_series(1, k, N), N)
    return d.get


def compare(gen, lim, dirs, eps, seed):
    num = cells.Num(point(dirs, eps, seed))
    lm = thr.canon_dilog(cells.resolve(lim, num.cond), num)
    if gen is lim:
        g0 = cells.Num(point([], eps, seed))
        gg = cells.resolve(gen, g0.cond)
    else:
        gg = cells.resolve(gen, num.cond)
    gg = thr.canon_dilog(gg, num)
    if gg is lm:
        return None, 0, True
    ser = SR.Series(N, assign(dirs, seed), seed=seed)
    b = ser.val(lm)
    a = ser.val(gg)
    k, end = SR.diff_order(a, b)
    return k, SR.norm(b).v, False


def ob(L, kind, key, where, gen, lim, dirs, seeds, eps=(Fr(1, 10 ** 4), Fr(-1, 10 ** 4))):
    done, bad = 0, None
    for s in range(40):
        if done == seeds:
            break
        try:
            res = [compare(gen, lim, dirs, e, s) for e in eps]
        except Bad as ex:
            bad = ex
            continue
        done += 1
        for k, vb, same in res:
            if not (same or k is None or k >= 1):
                L.ob(kind, key, False, where,
                     "differs from the general-mass expression at order eps^%s as the masses become equal" % k)
                return
    if not done:
        L.ob(kind, key, False, where, "cannot be expanded around the degenerate point: %s" % bad)
        return
    L.ob(kind, key, True, where)


def run(L):
    P_ = program.Program()
    T = thr.Thr(P_)
    seeds = 2 if L.tier == "quick" else 6
    f = P_.fn(thr.TC + "::getThresholdCorrection")
    where = f.where()
    lv = T.limits
    L.need(all(k in lv for k in DIRS), "Limits enumerators")
    subs = lambda r: G.substitute([r], SUB)[0]
    # which corrections depend on the limit setting
    lim = v("limit")
    T.set_limit(lim)
    dep = [o for o in T.orders if "limit" in G.variables([T.get(o, "DRBARPRIME", v("omitLogs"))])]
    L.need(len(dep) >= 5, "limit-dependent threshold corrections (found %d)" % len(dep))
    for o in dep:
        for sch in ("TEST", "DRBARPRIME"):
            for omit in (0, 1):
                T.set_limit(lv["GENERAL"])
                g = subs(T.get(o, sch, omit))
                for ln, d in DIRS.items():
                    if ln == "GENERAL":
                        continue
                    T.set_limit(lv[ln])
                    ob(L, "limit", "%s/%s/omitLogs=%d in %s" % (o, sch, omit, ln), where, g, subs(T.get(o, sch, omit)), d,
                       seeds, eps=(Fr(1, 10 ** 4),))
    for k in (4, 5, 6):
        for omit in (0, 1):
            g = subs(T.xt_terms(lv["GENERAL"], k, omit))
            for ln, d in DIRS.items():
                if ln != "GENERAL":
                    ob(L, "limit", "XtTerms(%d)/omitLogs=%d in %s" % (k, omit, ln), where, g,
                       subs(T.xt_terms(lv[ln], k, omit)), d, seeds, eps=(Fr(1, 10 ** 4),))
    # xt truncation flags of the three-loop quartic
    for xo in (3, 4, 5, 6):
        T.set_xt_order(xo)
        T.set_limit(lv["GENERAL"])
        g = subs(T.get("LAMBDA_AT_AS2", "TEST", 1))
        for ln, d in DIRS.items():
            if ln != "GENERAL":
                T.set_limit(lv[ln])
                ob(L, "limit", "LAMBDA_AT_AS2/xtOrder=%d in %s" % (xo, ln), where, g,
                   subs(T.get("LAMBDA_AT_AS2", "TEST", 1)), d, seeds, eps=(Fr(1, 10 ** 4),))
    T.set_xt_order(6)
    # closeness guards inside the corrections
    T.set_limit(lv["GENERAL"])
    nm = 0
    rounded = []
    for o in T.orders:
        r = T.get(o, "DRBARPRIME", 1)
        if not any(n.op == "ite" for n in G.topo([r])):
            continue
        r = subs(r)
        ms = masses(r)
        ks = [3, -5, 7, -11, 13, 17, -19]
        strata = [[(b, a, 3)] for a, b in itertools.combinations(ms, 2)]
        strata += [[(b, a, 3), (c, a, -5)] for a, b, c in itertools.combinations(ms, 3)]
        if len(ms) > 3:
            strata.append([(m, ms[0], ks[i]) for i, m in enumerate(ms[1:])])
        if len(ms) == 4:
            strata.append([(ms[1], ms[0], 3), (ms[3], ms[2], -5)])
            strata.append([(ms[2], ms[0], 3), (ms[3], ms[1], -5)])
            strata.append([(ms[3], ms[0], 3), (ms[2], ms[1], -5)])
        for d in strata:
            if has_decimals(r, d):
                if o not in rounded:
                    rounded.append(o)
                continue
            ob(L, "guard", "%s near %s" % (o, ", ".join("%s=%s" % (a, b) for a, b, _ in d)), where, r, r, d, seeds,
               eps=(Fr(1, 10 ** 5),))
            nm += 1
    L.need(nm > 0, "guarded corrections")
    # limit expressions with rounded decimals
    L.need(len(rounded) > 0, "limit expressions with decimal coefficients")
    for o in rounded:
        decimals(L, where, o, subs(T.get(o, "DRBARPRIME", 1)))
    # no division by zero at exactly equal masses, in the branch taken there
    TI = thr.Thr(P_, inline_loops=True)
    for o in TI.orders:
        for ln, d in DIRS.items():
            if ln != "GENERAL" and o not in dep:
                continue
            TI.set_limit(lv[ln])
            r = subs(TI.get(o, "DRBARPRIME", 1))
            eq = {a: b for a, b, _ in d}
            ms = [m for m in masses(r) if m not in eq]
            groups = [()] + list(itertools.combinations(ms, 2)) + ([tuple(ms)] if len(ms) > 2 else [])
            for c in groups:
                if o in dep and len([m for m in c if m in ("mQ", "mU", "m3", "mS")]) > 1:
                    continue     # covered by the limit setting that applies there
                e = dict(eq)
                e.update({m: c[0] for m in c[1:]})
                exact(L, where, "%s in %s%s" % (o, ln, " with " + "=".join(c) if c else ""), r, e)
    L.funcs |= T.I.funcs_seen | TI.I.funcs_seen
    L.extra["limit_dependent_corrections"] = dep
    L.extra["rounded_limit_expressions"] = rounded


def masses(r):
    vs = G.variables([r])
    return [m for m in ("mQ", "mU", "mD", "mL", "mE", "m3", "mA", "mH") if m in vs]


def has_decimals(r, d):
    """does the branch taken at this configuration contain rounded decimal coefficients?"""
    num = cells.Num(point(d, Fr(1, 10 ** 5), 1))
    q = cells.resolve(r, num.cond)
    return any(n.op == "c" and n.a[0].denominator > 10 ** 7 for n in G.topo([q]))


def exact(L, where, key, r, eq):
    for m in list(eq):
        while eq[m] in eq:
            eq[m] = eq[eq[m]]
    s = G.substitute([r], {m: v(b) for m, b in eq.items()})[0]
    err = None
    for sd in range(3):
        num = cells.Num(lambda nm, f=point([], Fr(0), sd): f(eq.get(nm, nm)))
        try:
            q = thr.canon_dilog(cells.resolve(s, num.cond), num)
        except (ArithmeticError, Bad) as ex:
            err = ex
            continue
        try:
            field.value([q])
            L.ob("exact", key, True, where)
            return
        except Bad as ex:
            err = ex
    L.ob("exact", key, False, where, "the branch taken at exactly equal masses is singular: %s" % err)


KS = {"mU": 3, "mD": -5, "mE": 7, "mA": -11, "mH": 13, "m3": 5}


def real_point(free, q, vu, vd, X):
    """all masses M(1 + k eps), those in free at another constant value; sfermion mixing X*M"""
    M = Fr(10)
    base = {k: [M, M * KS.get(k, 0)] for k in BASE}
    for k, x in free.items():
        base[k] = [x]
    base.update({"p.scale": [q], "p.vu": [vu], "p.vd": [vd]})
    tb = vu / vd
    mh = base["mH"]
    base["p.Au(2,2)"] = [X * M + mh[0] / tb] + [x / tb for x in mh[1:]]
    for k in ("p.Ad(2,2)", "p.Ae(2,2)"):
        base[k] = [X * M + mh[0] * tb] + [x * tb for x in mh[1:]]

    def asg(n):
        return base.get(n, [Fr(1)])

    def pt(n, eps=Fr(1, 10 ** 5)):
        if n in NS.CONSTS:
            return Fr(mp.nstr(NS.CONSTS[n](), 20))
        return sum(c * eps ** k for k, c in enumerate(asg(n)))
    return asg, pt


def decimals(L, where, o, r):
    """limit expression with rounded coefficients against the limit of the general expression"""
    mp.mp.dps = NS.PREC
    far = cells.Num(point([], Fr(1, 10 ** 5), 1))
    gen = cells.resolve(r, far.cond)
    # a general expression evaluated with deliberately shifted masses agrees only up to the size of the shift
    shifted = any(n.op == "c" and 0 < abs(n.a[0] - 1) < Fr(4, 100) for n in G.topo([gen]))
    tol = 5e-2 if shifted else 3e-6
    hfree = {} if not any(n.op == "f" and n.a[0] == "dilog" for n in G.topo([cells.resolve(
        r, cells.Num(real_point({}, Fr(10), Fr(24), Fr(7), Fr(1))[1]).cond)])) else {"mH": Fr(7)}
    pts = [(Fr(24), Fr(7), Fr(1)), (Fr(3), Fr(4), Fr(-2)), (Fr(3), Fr(4), Fr(0))]
    if L.tier == "thorough":
        pts += [(Fr(60), Fr(11), Fr(2)), (Fr(5), Fr(12), Fr(1, 2)), (Fr(12), Fr(5), Fr(-1))]
    for name, free, q in (("scale = M", {}, Fr(10)), ("scale != M", {}, Fr(13)), ("mA != M", {"mA": Fr(15)}, Fr(10)),
                          ("mu != M", {"mH": Fr(6)}, Fr(10)), ("mu < 0", {"mH": Fr(-7)}, Fr(10))):
        fr = dict(hfree)
        fr.update(free)
        ok, detail = True, ""
        for vu, vd, X in pts:
            asg, pt = real_point(fr, q, vu, vd, X)
            num = cells.Num(pt)
            lim = cells.resolve(r, num.cond)
            if lim is gen:
                break
            try:
                ns = NS.NumSeries(24, asg)
                a, b = ns.val(thr.canon_dilog(gen, num)), ns.val(thr.canon_dilog(lim, num))
            except Bad as ex:
                ok, detail = False, "cannot be expanded around the degenerate point: %s" % ex
                break
            if a.v < 0 or b.v < 0:
                ok, detail = False, "singular at equal masses"
                break
            x = a.c[0] if a.v == 0 and a.c else mp.mpf(0)
            y = b.c[0] if b.v == 0 and b.c else mp.mpf(0)
            if abs(x - y) > tol * max(abs(x), abs(y), 40 if shifted else 1):
                ok = False
                detail = "general expression tends to %s, the special case gives %s" % (mp.nstr(x, 9), mp.nstr(y, 9))
                break
        L.ob("rounded limit", "%s at equal masses, %s" % (o, name), ok, where, detail)
