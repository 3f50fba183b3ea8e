"""P26: the elements of the mass-matrix corrections are second derivatives of one effective potential."""
import json, multiprocessing, os
from hv import program, hc, thr, jet, field, graph as G, series as SR
from hv.field import Hpos, Bad
from checks import P10, P17

LEVEL = "other"
RULE = ("Abstract interpretation of calculateHierarchy and getMt41L into value graphs; Taylor jets in X_t (stop masses, mu and tan(beta) fixed) of the elements, which must fulfil the relations between second derivatives of a potential "
        "V(|m_t|^2, Re(m_t^* m_t X_t), |m_t X_t|^2) at fixed M_A: S11 = mu^2 a, S12 = -mu (B + m a), S22 = C + 2 m B + m^2 a with m = mu/tan(beta), a, B, C independent of mu, and "
        "dC/dX = (4 + 2 D) B, d^(n+1)B = 3 (1 + D) a for the coefficients of X^(n+1) and X^n, n >= 1, D = d/dlog(m_t^2); the coefficients are compared in truncated power series over GF(p) for m_t -> 0 and masses approaching the corner in which the hierarchy holds")
ASSUMPTIONS = ["agreement of power-series coefficients is tested at random field points (error < 1e-18)",
               "orders in the mass differences and ratios kept by the published expansions are listed in checks/P26_orders.json",
               "a change that multiplies all elements by the same factor or adds another potential of this form is not seen here (P10, P09, P32 compare the values)"]
W = "source/himalaya/hierarchies/%s.cpp"
HCW = "source/himalaya/HierarchyCalculator.cpp"
TABLE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "P26_orders.json")
MTP = 6
EQ = ("h3", "h32q2g", "h3q22g", "h4", "h9", "h9q2")


def mul(*a):
    return P17.mul(*a)


def neg(a):
    return G.mul(G.const(-1), a)


class Ctx(P17.Ctx):
    def __init__(self, P):
        super().__init__(P)
        self.msq = G.sqrt(G.var("msq2"))

    def matrix(self, h, loop):
        C = self.C
        m = C.call("getMt41L", C.ho(h), 0, 0) if loop == 0 else C.hierarchy(h, P10.LOOPS[loop], 0)[0]
        e = {k: G.tn(v) for k, v in hc.elems(m).items()}
        return thr.algebraic([e["11"], e["12"], e["22"]])


def coefficients(x, h, loop):
    """coefficients of X^n (and their derivatives by log mt^2) of a, B, C for two values of mu"""
    r = x.matrix(h, loop)
    fl = [q for j in jet.jets(r, "Xt", 4) for q in j]
    s = G.substitute(fl, {"p.Mt": mul(G.var("p.Mt"), G.add(G.const(1), G.var("s!")))})
    dl = [mul(G.sub(j[1], mul(4, j[0])), G.div(G.const(1), G.const(2))) for j in jet.jets(s, "s!", 1)]
    out = []
    for v in (G.var("mu1"), neg(G.var("mu2"))):
        m = G.div(v, x.tb)
        res = []
        for f in (fl, dl):
            f = G.substitute(f, {"p.mu": v})
            a = [G.div(q, mul(v, v)) for q in f[:5]]
            B = [G.sub(neg(G.div(q, v)), mul(m, y)) for q, y in zip(f[5:10], a)]
            C = [G.sub(G.sub(q, mul(2, m, y)), mul(m, m, z)) for q, y, z in zip(f[10:], B, a)]
            res.append((a, B, C))
        out.append(res)
    return out


def relations(x, h, loop):
    ((a, B, C), (da, dB, dC)), ((a2, B2, C2), _) = coefficients(x, h, loop)
    for nm, n, p, q in (("S11", 3, a, a2), ("S12", 4, B, B2), ("S22", 5, C, C2)):
        for i in range(n):
            yield "%s, mu/tan(beta) dependence, Xt^%d" % (nm, i), p[i], q[i]
    for i in range(4):
        yield "S22 vs S12, Xt^%d" % i, mul(i + 1, C[i + 1]), G.add(mul(4, B[i]), mul(2, dB[i]))
    for i in (1, 2):
        yield "S12 vs S11, Xt^%d" % i, mul(i + 1, B[i + 1]), mul(3, G.add(a[i], da[i]))


def heavy_gluon(kind):
    """gluino much lighter than the (nearly equal) squarks"""
    def f(seed):
        e = P10.eq_family("tq")(seed)
        e["p.MG"] = P10.mono(Hpos("g", seed), 1 if kind else 2)
        return e
    return f


def general(seed):
    return {}


def families(h, loop):
    if loop == 0:
        return [("all masses", general)]
    if h in EQ:
        f = [("equal masses, " + v, P10.eq_family(v)) for v in ("tqg", "t", "q", "g")]
        return f + ([("light gluino", heavy_gluon(1))] if h in ("h9", "h9q2") else [])
    kd, vs = ("5", ("g",)) if h in ("h5", "h5g1") else ("6", ("g",)) if h in ("h6", "h6g2") else ("6b", ("gq", "g", "q"))
    return [("split stops, %s, MSt1~t^%d" % (v, sm), P10.split(kd, v, sm)) for v in vs for sm in (1, 2)]


def order(a, b, fam):
    err = None
    for s in range(1, 40):
        try:
            e = dict(fam(s))
            e["p.Mt"] = P10.mono(Hpos("mt", s), MTP if fam is not general else 1)
            if fam is general:
                e["msq2"] = P10.k(pow(Hpos("msq", s), 2))
            S = P10.series(s, e)
            u, v = S.val(a), S.val(b)
            d, n = SR.diff_order(u, v)
            if fam is general:      # leading power of mt only
                lo = SR.norm(u).v
                n = min(n, lo + 2)
                d = None if d is None or d >= lo + 2 else d
            return SR.norm(u).v, d, n
        except Bad as ex:
            err = ex
    raise err


def job(hl):
    h, loop = hl
    out = []
    w = "%s, %s" % (h if loop else "exact", "%d-loop" % (loop or 1))
    try:
        R = list(relations(X, h, loop))
        al = thr.algebraic([q for _, a, b in R for q in (a, b)])
    except (Bad, field.Undecided) as ex:    # not a polynomial in X_t
        return [(w, h, loop, "no Taylor expansion in Xt: %s" % ex)], X.C.I.funcs_seen
    for fn, fam in families(h, loop):
        for i, (nm, _, _) in enumerate(R):
            key = "%s, %s, %s" % (w, fn, nm)
            try:
                out.append((key, h, loop, order(al[2 * i], al[2 * i + 1], fam)))
            except field.Undecided as ex:
                out.append((key, h, loop, "depends on a run-time condition %s" % G.show(ex.n, 3)))
            except Bad as ex:
                out.append((key, h, loop, "no value in this corner: %s" % ex))
    return out, X.C.I.funcs_seen


def run(L):
    global X
    P = program.Program()
    X = Ctx(P)
    req = json.load(open(TABLE)) if os.path.exists(TABLE) else {}
    dump, seen = {}, set()
    todo = [("h3", 0)] + [(h, l) for l in (3, 2, 1) for h in X.C.hier_names()]
    with multiprocessing.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as pool:
        for obs, fs in pool.imap(job, todo, 1):
            L.funcs |= fs
            for key, h, loop, r in obs:
                w = W % h.replace("h", "H", 1) if loop else HCW
                if isinstance(r, str):
                    hit = [k for k in req if k == key or k.startswith(key + ", ")]
                    L.ob("relation", key, not hit, w, r)
                    seen.update(hit)
                    continue
                v, d, n = r
                dump[key] = [v, d if d is not None else n, d is None]
                if key not in req:
                    continue
                seen.add(key)
                rv, rd, _ = req[key]
                got = n if d is None else d
                L.ob("relation", key, v == rv and got >= min(rd, n) and (got >= rd or d is None), w,
                     "leading order %s (expected %s), relation holds below order %s (expected %s)" % (v, rv, got, rd))
    if os.environ.get("P26_DUMP"):
        json.dump({k: x for k, x in dump.items() if x[1] - x[0] > 0 and (x[0] > 9 or k.startswith("exact")) or x[2]}, open(TABLE, "w"), indent=0, sort_keys=True)
    L.need(not set(req) - seen, "all relations of the table")
    L.extra["relations without accuracy requirement"] = len(dump) - len([k for k in dump if k in req])
