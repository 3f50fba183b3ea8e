"""P32: the hierarchy expansions against the EFT calculation and against their own Delta lambda."""
import json, os, multiprocessing
from fractions import Fraction as Fr
from hv import program, hc, thr, field, jet, cells, graph as G, series as SR, interp
from hv.interp import Ref
from hv.field import Hpos, Bad, P as PR
import checks.P22 as P22, checks.P10 as P10

LEVEL = "static"
RULE = ("The light-Higgs projection of the interpreted self-energy matrix of every hierarchy at 1 and 2 loops, and its scale dependence at 3 loops (converted to the DR' scheme), must agree with the interpreted EFT "
        "calculation (threshold corrections and Standard Model loops, O(alpha_t alpha_s^n) only), coefficient by coefficient in X_t, through the committed order in the small quantities of the hierarchy; Delta lambda "
        "extracted from the hierarchy must be the 3-loop result without log(Q/Mt), and its logarithm-free version the value at Q = MSt1")
ASSUMPTIONS = ["power-series coefficients compared at random field points (error < 1e-18)",
               "the orders of agreement are a committed table (checks/P32_orders.json); orders where truncations differ are not compared"]
TABLE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "P32_orders.json")
HCW = "source/himalaya/hierarchies/H%s.cpp"
K, NN = 20, 14
EPS = Fr(1, 10 ** 4)
KIND = {"h3": "eq", "h32q2g": "eq", "h3q22g": "eq", "h9": "9", "h9q2": "9", "h4": "4", "h5": "5", "h5g1": "5", "h6": "6", "h6g2": "6",
        "h6b": "6b", "h6b2qg2": "6b", "h6bq22g": "6b", "h6bq2g2": "6b"}
TOP = 4


class FieldCorner:
    def __init__(self, seed):
        self.seed = seed

    def c(self, nm):
        return SR.const(Hpos(nm, self.seed), NN)

    def mono(self, nm, p):
        return SR.S(p, {0: [Hpos(nm, self.seed)] + [0] * (NN - 1)})

    def near(self, b, q, p):
        return SR.mul(b, SR.add(SR.const(1, NN), SR.S(p, {0: [q] + [0] * (NN - 1)})), NN)


class PointCorner:
    """representative rational point of the corner (decides the mass-case guards)"""
    BASE = {"M": 17, "m": 13, "q": 29, "g": 7}

    def c(self, nm):
        return Fr(self.BASE[nm])

    def mono(self, nm, p):
        return Fr(self.BASE[nm]) * EPS ** p

    def near(self, b, q, p):
        return b * (1 + q * EPS ** p)


def corner(R, kind):
    M, near = R.c("M"), R.near
    e = {}
    if kind == "eq":
        t = (M, near(M, 3, 1), near(M, 5, 1), near(M, 11, 1))
    if kind == "9":
        t = (M, near(M, 3, 1), R.mono("g", 2), near(M, 11, 1))
    if kind == "4":
        m = R.mono("m", 2)
        t = (m, m, m, M)
    if kind in ("5", "6"):
        m, M = R.mono("m", 4), R.mono("M", 2)
        t = (m, M, near(m if kind == "5" else M, 5, 1), R.c("q"))
        e["p.mu"] = R.mono("m", 2)
    if kind == "6b":
        m = R.mono("m", 2)
        t = (m, M, near(M, 5, 1), near(M, 7, 1))
    e.update(zip(("p.MSt(0)", "p.MSt(1)", "p.MG", "msq"), t))
    return e


class X:
    def __init__(self, P, nomix=False):
        self.P = P
        self.msq = G.var("msq")
        Xt = G.const(0) if nomix else G.var("Xt")
        p = interp.Interp(P).sym("himalaya::Parameters", "p")
        M = [G.var("p.MSt(%d)" % i) for i in (0, 1)]
        if nomix:
            M[1] = M[0]
            p.f["MSt"].d[1] = M[0]
            p.f["MG"] = M[0]
        p.f["mu2"].d[8] = G.mul(M[0], M[0])
        p.f["mq2"].d[8] = G.mul(M[1], M[1])
        p.f["Au"].d[8] = G.add(Xt, G.div(G.mul(G.var("p.mu"), G.var("p.vd")), G.var("p.vu")))
        p.f["s2t"] = G.const(0) if nomix else G.div(G.mul(G.const(2), G.mul(G.var("p.Mt"), Xt)), G.sub(G.mul(M[0], M[0]), G.mul(M[1], M[1])))
        self.limit = [c["vals"] for q, c in P.enums.items() if q.endswith("::Limits")][0]
        self.limit = dict(self.limit)["MQ3_EQ_MU3_EQ_M3" if nomix else "GENERAL"]
        self.C = hc.Calc(P, extra=self.hook, p=p)
        self.I = self.C.I
        self.I.on_construct = self.ctor

    def hook(self, I, f, a, this):
        if f.qn == "himalaya::Parameters::calculateMsq2":
            return G.mul(self.msq, self.msq)
        if f.qn == "himalaya::dilog":
            return G.fn("dilog", *[I.get(x) if isinstance(x, Ref) else x for x in a])
        return NotImplemented

    def ctor(self, I, f, args):
        """threshold corrections for general (h4: equal) masses"""
        if f.d["cls"].endswith("::ThresholdCalculator") and len(args) >= 1 and len(f.params) == 3:
            I.on_construct = None
            o = I.construct(f, args)
            I.call(self.P.fn(thr.TC + "::setLimit"), [G.const(self.limit)], o)
            I.on_construct = self.ctor
            return o
        return NotImplemented


def light(m):
    """projection on the light Higgs direction"""
    vu, vd = G.var("p.vu"), G.var("p.vd")
    v2 = G.add(G.mul(vu, vu), G.mul(vd, vd))
    a = [G.tn(x) for x in (m.at(0, 0), m.at(0, 1), m.at(1, 1))]
    r = G.add(G.add(G.mul(G.mul(vd, vd), a[0]), G.mul(G.const(2), G.mul(G.mul(vu, vd), a[1]))), G.mul(G.mul(vu, vu), a[2]))
    return G.div(r, v2)


def guard(num):
    def f(c):
        if c.op == "f" and c.a[0] in ("isnan", "isinf"):
            return False
        if c.op == "f" and c.a[0] == "isfinite":
            return True
        if c.op == "not":
            return not f(c.a[0])
        if c.op in ("or", "and"):
            v = [f(x) for x in c.a]
            return any(v) if c.op == "or" else all(v)
        if any(k.op == "f" and k.a[0] in ("isnan", "isfinite") for k in G.topo([c])):
            return False
        return num.cond(c)
    return f


def resolver(kind):
    rp = corner(PointCorner(), kind)
    rp.update({"p.scale": Fr(21), "p.Mt": Fr(1, 10), "Xt": Fr(1, 1000)})

    def pt(n):
        if n in rp:
            return rp[n]
        if n.startswith("K:"):
            return {"K:pi": 3.141592653589793}.get(n, 0.7)
        return Fr(int(field.H(n) % 900) + 100, 10)
    num = cells.Num(pt)
    g = guard(num)
    return lambda n: thr.canon_dilog(cells.resolve(G.tn(n), g), num)


def value(n, kind, seed, scale, kk=K, mt=None):
    P10.N = NN
    f = corner(FieldCorner(seed), kind)
    f["p.scale"] = scale
    f["p.Mt"] = SR.S(kk, {0: [mt or Hpos("mt", seed)] + [0] * (NN - 1)})
    return P10.series(seed, f).val(n)


def sub(u, v):
    return SR.add(u, SR.smul(PR - 1, v))


def orders(a, b, kind, mode):
    """(leading order of either, first order of disagreement, first unknown order)"""
    err = None
    for s in range(1, 30):
        try:
            if mode == "value":
                x, y = [value(n, kind, s, Hpos("scale1", s)) for n in (a, b)]
            if mode == "scale":
                x, y = [sub(value(n, kind, s, Hpos("scale1", s)), value(n, kind, s, Hpos("scale2", s))) for n in (a, b)]
            if mode == "nolog":
                x, y = [nolog(n, kind, s) for n in (a, b)]
            d, n = SR.diff_order(x, y)
            z = [SR.norm(w) for w in (x, y)]
            return [min([w.v for w in z if w.n] or [None]), d, n] if any(w.n for w in z) else [None, d, n]
        except Bad as ex:
            err = ex
    raise err


def nolog(n, kind, s):
    """value with log(Q^2/Mt^2) -> 0: Mt = Q eps^k, constant term of the polynomial in k"""
    sc = Hpos("scale1", s)
    ks = [K + i for i in range(TOP)]
    tot = None
    for k in ks:
        w = 1
        for j in ks:
            if j != k:
                w = w * (PR - j) % PR * field.inv((k - j) % PR) % PR
        x = value(n, kind, s, sc, k, sc)
        x = SR.smul(w, SR.S(x.v - 4 * k, x.d))
        tot = x if tot is None else SR.add(tot, x)
    return tot


def work(h):
    P, e, v3 = SHARED
    kind = KIND[h]
    out, seen = [], set()
    x = e["X4" if h == "h4" else "X"]
    C = x.C
    res = resolver(kind)
    pairs = []
    for loop in (1, 2, 3):
        m, o = C.hierarchy(h, P10.LOOPS[loop], 0)
        g = light(m)
        if loop == 3:
            lam = G.mul(v3, G.tn(C.m(o, hc.HO + "::getDLambdaH3m")))
            non = G.mul(v3, G.tn(C.m(o, hc.HO + "::getDLambdaNonLog")))
            pairs.append(("Delta lambda", g, lam, "nolog"))
            at, = G.substitute([lam], {"p.scale": G.var("p.MSt(0)")})
            pairs.append(("Delta lambda at MSt1", at, non, "value"))
            g = G.add(g, light(C.call("shiftH3mToDRbarPrime", C.ho(h, 0, 0))))
        pairs.append(("%d-loop" % loop, g, e[loop, h == "h4"], "scale" if loop == 3 else "value"))
    for nm, a, b, mode in pairs:
        try:
            J = jet.jets(thr.algebraic([res(a), res(b)]), "Xt", 4)
        except Bad as ex:
            out.append(("%s %s" % (h, nm), None, "no Taylor expansion in X_t: %s" % ex))
            continue
        for k in range(5):
            if J[0][k].op == "c" and J[1][k].op == "c":
                out.append(("%s %s Xt^%d" % (h, nm, k), ["const", str(J[0][k].a[0]), str(J[1][k].a[0])], ""))
                continue
            try:
                out.append(("%s %s Xt^%d" % (h, nm, k), orders(J[0][k], J[1][k], kind, mode), ""))
            except Bad as ex:
                out.append(("%s %s Xt^%d" % (h, nm, k), None, str(ex)))
    return h, out, set(C.I.funcs_seen)


SHARED = None


def task(h):
    import sys, threading
    sys.setrecursionlimit(200000)
    threading.stack_size(256 * 1024 * 1024)
    r = []
    t = threading.Thread(target=lambda: r.append(work(h)))
    t.start()
    t.join()
    if not r:
        raise program.AnalysisBroken("analysis of %s failed" % h)
    return r[0]


def run(L):
    global SHARED
    P = program.Program()
    v2 = G.add(G.mul(G.var("p.vu"), G.var("p.vu")), G.mul(G.var("p.vd"), G.var("p.vd")))
    e = {"X": X(P), "X4": X(P, True)}
    for nm, x in (("X", e["X"]), ("X4", e["X4"])):
        A = P22.Eft(x, x.C.p, ("YT4", "G32YT4", "ONLY_AT_AS"))
        for l in (1, 2, 3):
            e[l, nm == "X4"] = thr.real(A.mh2(l, *((1, 1) if l < 3 else (1, 1, 1))))
            L.need(len(G.variables([e[l, nm == "X4"]])) > 3, "%d-loop EFT value" % l)
        L.funcs |= x.I.funcs_seen
    SHARED = P, e, P22.prefs(v2)[3]
    names = [h for h in e["X"].C.hier_names()]
    L.need(set(names) == set(KIND), "list of hierarchies")
    req = json.load(open(TABLE)) if os.path.exists(TABLE) else {}
    dump = {}
    with multiprocessing.get_context("fork").Pool(8) as pool:
        for h, out, seen in pool.imap_unordered(task, names, chunksize=1):
            L.funcs |= seen
            for key, got, why in out:
                dump[key] = got
                if key not in req:
                    continue
                want, ok = req[key], False
                if want[0] == "const":
                    ok = got == want
                elif got is not None and got[0] != "const":
                    lead, d, n = got
                    # a shorter series without disagreement is no disagreement
                    ok = lead == want[0] and (d >= want[1] if d is not None else n > lead)
                L.ob("agreement", key, ok, HCW % h[1:], "leading order %s (expected %s), agreement below order %s (expected %s) %s"
                     % (got and got[0], want[0], got and (got[1] if got[1] is not None else got[2]), want[1], why))
    if os.environ.get("P32_DUMP"):
        t = {}
        for k, g in dump.items():
            if g is None:
                print("not expandable:", k)
            elif g[0] == "const":
                if g[1] == g[2] and g[1] != "0":
                    t[k] = g
            elif g[0] is not None:
                r = min(x for x in (g[1], g[2]) if x is not None)
                if r > g[0]:
                    t[k] = [g[0], r]
                else:
                    print("no agreement:", k, g)
        json.dump(t, open(TABLE, "w"), indent=0, sort_keys=True)
    L.need(set(req) <= set(dump) or os.environ.get("P32_DUMP"), "every obligation of the table")
    L.assumptions += ASSUMPTIONS
