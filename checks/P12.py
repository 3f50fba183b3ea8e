"""P12: coupling-order switches of the EFT calculation of the Higgs mass."""
from fractions import Fraction as Fr
import re
from hv import program, interp, field, cells, graph as G
from hv.graph import N
from hv.interp import Obj

LEVEL = "static"
RULE = ("getDeltaMh2EFT{0,1,2,3}Loop are interpreted with the threshold corrections and B0 functions uninterpreted, for every coupling-order switch alone, all, and none: the orders add up, each is proportional to the "
        "powers of couplings in its name (logarithms held fixed), uses only threshold corrections and logarithm switches it is allowed to, and contributes to one loop order; construction with a vanishing coupling must leave the orders without it unchanged. "
        "Identities in GF(p)")
ASSUMPTIONS = ["threshold corrections are pure functions of order, scheme, log switch and parameters (P07)", "discardNaN is the identity on numbers"]
W = "source/himalaya/mh2_eft/Mh2EFTCalculator.cpp"
EFT = "himalaya::mh2_eft::"
C_ = G.const

# order -> loop order, powers of (g1, g2, g3, yt, yb, ytau)
ORD = {
    "G12G22": (1, (2, 2, 0, 0, 0, 0)), "G14": (1, (4, 0, 0, 0, 0, 0)), "G24": (1, (0, 4, 0, 0, 0, 0)),
    "G12YB2": (1, (2, 0, 0, 0, 2, 0)), "G22YB2": (1, (0, 2, 0, 0, 2, 0)), "YB4": (1, (0, 0, 0, 0, 4, 0)),
    "G12YTAU2": (1, (2, 0, 0, 0, 0, 2)), "G22YTAU2": (1, (0, 2, 0, 0, 0, 2)), "YTAU4": (1, (0, 0, 0, 0, 0, 4)),
    "G12YT2": (1, (2, 0, 0, 2, 0, 0)), "G22YT2": (1, (0, 2, 0, 2, 0, 0)), "YT4": (1, (0, 0, 0, 4, 0, 0)),
    "G32YB4": (2, (0, 0, 2, 0, 4, 0)), "YB6": (2, (0, 0, 0, 0, 6, 0)), "YT6": (2, (0, 0, 0, 6, 0, 0)),
    "YTAU2YB4": (2, (0, 0, 0, 0, 4, 2)), "YTAU6": (2, (0, 0, 0, 0, 0, 6)), "YT2YB4": (2, (0, 0, 0, 2, 4, 0)),
    "G32YT4": (2, (0, 0, 2, 4, 0, 0)), "YB2YT4": (2, (0, 0, 0, 4, 2, 0)), "YTAU4YB2": (2, (0, 0, 0, 0, 2, 4)),
}
PAR = ("p.g1", "p.g2", "p.g3", "p.Mt", "p.Mb", "p.Mtau")
DEFAULT = ("YT4", "G32YT4", "YT6")


class Eft:
    def __init__(self, P, zero=(), opaque=True):
        self.P = P
        self.I = I = interp.Interp(P, decide=self.decide)
        I.on_call = self.hook
        I.on_construct = self.ctor
        self.opaque = opaque
        self.p = I.sym("himalaya::Parameters", "p")
        for z in zero:
            self.p.f[z] = C_(0)
        self.coup = [e for q, e in P.enums.items() if q.endswith("::CouplingOrders") and "YTAU4YB2" in dict(e["vals"])]
        self.thr = [e for q, e in P.enums.items() if q.endswith("::ThresholdCouplingOrders") and len(e["vals"]) > 2]
        self.sch = [e for q, e in P.enums.items() if q.endswith("::RenSchemes") and len(e["vals"]) > 1]
        if not (self.coup and self.thr and self.sch):
            raise program.AnalysisBroken("enumerations of the EFT calculation")
        self.coup = dict(self.coup[0]["vals"])
        self.thr = {v: k for k, v in dict(self.thr[0]["vals"]).items() if not k.startswith(("FIRST", "NUMBER"))}
        self.sch = {v: k for k, v in dict(self.sch[0]["vals"]).items() if not k.startswith(("FIRST", "NUMBER"))}
        ct = [f for f in P.by_qn[EFT + "Mh2EFTCalculator::Mh2EFTCalculator"] if 1 <= len(f.params) <= 4 and not f.d["defaulted"]]
        self.mh = I.construct(ct[0], [self.p] + [C_(0)] * (len(ct[0].params) - 1))

    def decide(self, c):
        """generic couplings and masses are not negligible; nothing is NaN"""
        s = [n for n in G.topo([c])] if isinstance(c, N) else []
        if isinstance(c, N) and c.op == "f" and c.a[0] == "isnan":
            return False
        if isinstance(c, N) and c.op == "cmp" and all(n.op != "v" or n.a[0] in PAR for n in s):
            try:
                return cells.Num(lambda n: Fr(7, 3)).cond(c)
            except cells.NoValue:
                return None
        return None

    def ctor(self, I, f, args):
        if f.d["cls"] == EFT + "ThresholdCalculator":
            o = Obj(f.d["cls"])
            o.f["state"] = C_(1)
            return o
        return NotImplemented

    def hook(self, I, f, args, this):
        b = f.qn.split("::")[-1]
        if f.qn == "himalaya::Parameters::validate":
            return None
        if f.qn.startswith(EFT + "ThresholdCalculator::"):
            if b != "getThresholdCorrection":
                raise program.AnalysisBroken("EFT calculation calls " + f.qn)
            t, s, l = [I.get(a) if isinstance(a, interp.Ref) else a for a in args]
            t, s, l = [x if isinstance(x, int) else (int(x.a[0]) if isinstance(x, N) and x.op == "c" else x) for x in (t, s, l)]
            if not isinstance(t, int) or not isinstance(s, int):
                raise program.AnalysisBroken("threshold correction of unknown order or scheme")
            return G.var("thr:%s:%s:%s" % (self.thr.get(t, t), self.sch.get(s, s), l if isinstance(l, int) else "mssm"))
        if f.qn.startswith("himalaya::mh2_fo::b0"):
            return G.fn("b0", *[G.tn(I.get(a) if isinstance(a, interp.Ref) else a) for a in args])
        return NotImplemented

    def m(self, name, *a):
        f = [g for g in self.P.by_qn[EFT + "Mh2EFTCalculator::" + name] if len(g.params) == len(a)][0]
        return self.I.call(f, [C_(x) if isinstance(x, (int, Fr)) else x for x in a], self.mh)

    def flags(self, on):
        for k, v in self.coup.items():
            if not k.startswith(("FIRST", "NUMBER")):
                self.m("setCorrectionFlag", v, 1 if k in on else 0)

    def loop(self, n, sm=1, mssm=1):
        a = {0: (), 1: (sm, mssm), 2: (sm, mssm), 3: (sm, mssm, 0)}[n]
        return clean(G.tn(self.m("getDeltaMh2EFT%dLoop" % n, *a)))


def clean(r):
    """drop the not-a-number guards"""
    def cond(c):
        if c.op == "f" and c.a[0] == "isnan":
            return False
        if c.op == "not" and c.a[0].op == "f" and c.a[0].a[0] == "isnan":
            return True
        raise program.AnalysisBroken("unexpected branch in the EFT calculation")
    return cells.resolve(r, cond)


def freeze(r):
    """logarithms and B0 become variables"""
    memo = {}
    for n in G.topo([r]):
        if n.op == "f" and n.a[0] in ("log", "b0"):
            memo[n.id] = G.var("fz:%d" % n.id)
        elif n.op in ("c", "v"):
            memo[n.id] = n
        else:
            memo[n.id] = G.rebuild(n, [memo[x.id] if isinstance(x, N) else x for x in n.a])
    return memo[r.id]


def eq(a, b):
    try:
        return field.equal(a, b)
    except field.Bad:
        return False


def zero(a):
    return a.op == "c" and a.a[0] == 0 or eq(a, C_(0))


def thrs(r):
    return {n.a[0] for n in G.topo([r]) if n.op == "v" and n.a[0].startswith("thr:")}


def scaled(r, sub):
    return G.substitute([r], {k: G.mul(G.var("s"), G.var(k)) for k in sub})[0]


def power(n):
    return G.powi(G.var("s"), n) if n >= 0 else G.div(C_(1), G.powi(G.var("s"), -n))


def run(L):
    P = program.Program()
    E = Eft(P)
    L.need(set(ORD) <= set(E.coup), "coupling orders of the EFT calculation")
    # default switches
    default = {n: E.loop(n) for n in (1, 2)}
    one = {}
    for f in ORD:
        E.flags([f])
        one[f] = {n: E.loop(n) for n in (1, 2)}
    E.flags([])
    for n in (1, 2):
        L.ob("switch", "%d loop, none" % n, zero(E.loop(n)), W, "a contribution is left when every order is switched off")
    E.flags(list(E.coup))
    total = {n: E.loop(n) for n in (1, 2)}
    for n in (1, 2):
        s = C_(0)
        for f in ORD:
            s = G.add(s, one[f][n])
        L.ob("switch", "%d loop, all" % n, eq(total[n], s), W, "the orders do not add up to the result with all of them")
        s = C_(0)
        for f in DEFAULT:
            s = G.add(s, one[f][n])
        L.ob("switch", "%d loop, default" % n, eq(default[n], s), W, "after construction exactly O(at), O(at*as) and O(at^2) contribute")
    for f, (loop, pw) in ORD.items():
        other = 3 - loop
        L.ob("loop order", f, zero(one[f][other]) and not zero(one[f][loop]), W, "%s contributes to %d loops, not to %d loops" % (f, other, loop) if not zero(one[f][other]) else "%s does not contribute" % f)
        # pairs: a switch does not act on another order
        E.flags([k for k in ORD if k != f])
        for n in (1, 2):
            L.ob("switched off", "%s, %d loop" % (f, n), eq(G.add(E.loop(n), one[f][n]), total[n]), W, "switching %s off does not remove exactly its own terms" % f)
        r = freeze(one[f][loop])
        for x, k in zip(PAR, pw):
            L.ob("coupling", "%s, %s^%d" % (f, x[2:], k), eq(scaled(r, [x]), G.mul(power(k), r)), W, "not proportional to %s^%d" % (x[2:], k))
        ny = sum(pw[3:])
        rv = scaled(r, ["p.vu", "p.vd"])
        L.ob("coupling", "%s, v^%d" % (f, 2 - ny), eq(rv, G.mul(power(2 - ny), r)), W, "not proportional to v^%d" % (2 - ny))
        logs(L, E, f, loop, one[f][loop], r)
        thresholds(L, f, one[f][loop])
    others(L, P, E)
    vanishing(L, P)
    leptons(L, one)
    L.funcs |= E.I.funcs_seen
    L.assumptions += ASSUMPTIONS


def logs(L, E, f, loop, r, fr):
    """omitSMLogs = 0 removes the logarithms of Q/Mt and nothing else; omitMSSMLogs is handed to every threshold"""
    E.flags([f])
    off = E.loop(loop, 0, 1)
    at = G.substitute([r], {"p.scale": G.var("p.Mt")})[0]
    L.ob("SM logs", f, eq(off, at), W, "without SM logarithms the result is not the one at Q = Mt (threshold corrections unchanged)")
    dep = {n.a[0] for n in G.topo([off]) if n.op == "v"}
    L.ob("SM logs", f + ", no scale left", "p.scale" not in dep, W, "a logarithm of the renormalisation scale is left")
    ms = E.loop(loop, 1, 0)
    want = G.substitute([r], {t: G.var(t[:-1] + "0") for t in thrs(r)})[0]
    L.ob("MSSM logs", f, eq(ms, want) and all(t.endswith(":0") for t in thrs(ms)), W, "the switch of the MSSM logarithms is not passed on to every threshold correction")


def thresholds(L, f, r):
    """DR' corrections whose couplings divide the order"""
    bad = []
    want = dict(zip(("G1", "G2", "AS", "YT", "YB", "YTAU"), ORD[f][1]))
    for t in sorted(thrs(r)):
        _, name, scheme, lg = t.split(":")
        c = content(name)
        if scheme != "DRBARPRIME":
            bad.append("%s in scheme %s" % (name, scheme))
        elif any(c.get(k, 0) > want[k] for k in c):
            bad.append(name)
    L.ob("thresholds", f, not bad, W, "uses %s" % ", ".join(bad))
    lam = [t.split(":")[1] for t in thrs(r) if t.split(":")[1].startswith("LAMBDA") and content(t.split(":")[1]) == {k: v for k, v in want.items() if v}]
    n = 3 if f in ("G12G22", "G14", "G24") else 1
    L.ob("thresholds", f + ", Delta lambda", len(lam) == n, W, "uses %s as quartic coupling correction" % (lam or "none"))


def content(name):
    """powers of couplings of a threshold correction, from its name"""
    m = re.match(r"(G1_G1|G2_G2|VEV_YT2|VEV_YB2|VEV_YTAU2)$", name)
    fixed = {"LAMBDA_AT": {"YT": 4}, "LAMBDA_AT_AS": {"YT": 4, "AS": 2}, "LAMBDA_AT_AS2": {"YT": 4, "AS": 4}, "G1_G1": {"G1": 2}, "G2_G2": {"G2": 2}, "G3_AS": {"AS": 2},
             "YT_AS": {"AS": 2}, "YT_AS2": {"AS": 4}, "YB_AS": {"AS": 2}, "YT_YT": {"YT": 2}, "YT_YB": {"YB": 2}, "YB_YT": {"YT": 2}, "YB_YB": {"YB": 2}, "YTAU_YTAU": {"YTAU": 2}, "YTAU_YB": {"YB": 2},
             "AT_AS": {"AS": 2}, "AT_AS2": {"AS": 4}}
    if name in fixed:
        return fixed[name]
    d = {}
    for x in re.findall(r"(G1|G2|G3|YTAU|YT|YB)(\d)", name):
        d[{"G3": "AS"}.get(x[0], x[0])] = int(x[1])
    return d


def others(L, P, E):
    """tree level and 3 loops"""
    vu, vd, mz = G.var("p.vu"), G.var("p.vd"), G.var("p.MZ")
    sq = lambda x: G.mul(x, x)  # noqa
    c2b = G.div(G.sub(sq(vd), sq(vu)), G.add(sq(vd), sq(vu)))
    L.ob("tree", "MZ^2 cos^2(2 beta)", eq(E.loop(0), G.mul(sq(mz), sq(c2b))), W, "not MZ^2 cos^2(2 beta)")
    r = E.loop(3)
    fz = freeze(r)
    for x, k in zip(PAR, (0, 0, 4, 4, 0, 0)):
        L.ob("coupling", "3 loop, %s^%d" % (x[2:], k), eq(scaled(fz, [x]), G.mul(power(k), fz)), W, "3-loop term not proportional to %s^%d" % (x[2:], k))
    L.ob("coupling", "3 loop, v^-2", eq(scaled(fz, ["p.vu", "p.vd"]), G.mul(power(-2), fz)), W, "3-loop term not proportional to 1/v^2")
    L.ob("thresholds", "3 loop", thrs(r) == {"thr:%s:DRBARPRIME:1" % t for t in ("YT_AS", "YT_AS2", "G3_AS")}, W, "uses %s" % sorted(thrs(r)))
    f = clean(G.tn(E.m("getDeltaMh2EFT3Loop", 0, 1, 0)))
    L.ob("SM logs", "3 loop", eq(f, G.substitute([r], {"p.scale": G.var("p.Mt")})[0]), W, "without SM logarithms the result is not the one at Q = Mt")
    m = clean(G.tn(E.m("getDeltaMh2EFT3Loop", 1, 0, 0)))
    L.ob("MSSM logs", "3 loop", all(t.endswith(":0") for t in thrs(m)) and eq(m, G.substitute([r], {t: G.var(t[:-1] + "0") for t in thrs(r)})[0]), W, "the switch of the MSSM logarithms is not passed on")
    d = clean(G.tn(E.m("getDeltaMh2EFT3Loop", 1, 1, 1)))
    k = G.div(C_(1), G.mul(C_(16), G.mul(G.var("K:pi"), G.var("K:pi"))))
    mt = G.var("p.Mt")
    pref = G.mul(G.powi(k, 3), G.div(G.mul(C_(2), G.mul(G.powi(mt, 4), G.powi(G.var("p.g3"), 4))), G.add(sq(vu), sq(vd))))
    L.ob("switch", "3 loop, Delta lambda", eq(G.sub(d, r), G.mul(pref, G.var("thr:LAMBDA_AT_AS2:DRBARPRIME:1"))), W, "the 3-loop Delta lambda switch does not add 2 Mt^4 g3^4/v^2/(16 pi^2)^3 times the correction")


def vanishing(L, P):
    """a vanishing coupling or mass switches off the orders that contain it, and only those"""
    E = Eft(P)
    ref = {}
    for f in DEFAULT:
        E.flags([f])
        ref[f] = {n: E.loop(n) for n in (1, 2)}
    for i, x in enumerate(PAR):
        z = Eft(P, zero=(x[2:],))
        for n in (1, 2):
            r = z.loop(n)
            s = C_(0)
            for f in DEFAULT:
                if not ORD[f][1][i] and ORD[f][0] == n:
                    s = G.add(s, G.substitute([ref[f][n]], {x: C_(0)})[0])
            ok = eq(r, s)
            L.ob("vanishing coupling", "%s = 0, %d loop" % (x[2:], n), ok, W, "for %s = 0 an order without %s is missing, or one with it is evaluated" % (x[2:], x[2:]))
        for f in ORD:      # switched on by hand: still no contribution
            pass
        L.funcs |= z.I.funcs_seen


def leptons(L, one):
    """tau terms are bottom terms without the colour factor"""
    for t, b in (("G12YTAU2", "G12YB2"), ("G22YTAU2", "G22YB2"), ("YTAU4", "YB4")):
        rt, rb = one[t][1], one[b][1]
        z = lambda r: G.substitute([r], {x: C_(0) for x in thrs(r)})[0]    # noqa
        a = G.substitute([z(rt)], {"p.Mtau": G.var("p.Mb")})[0]
        L.ob("colour factor", "%s, %s" % (t, b), eq(G.mul(C_(3), a), z(rb)), W, "the fermion loop of %s is not 1/3 of that of %s" % (t, b))
        for x in sorted(thrs(rt)):
            y = x.replace("YTAU", "YB")
            ca = G.substitute([G.sub(rt, z(rt))], {"p.Mtau": G.var("p.Mb")})[0]
            ca = G.substitute([ca], {k: G.var(k.replace("YTAU", "YB")) for k in thrs(rt)})[0]
            L.ob("colour factor", "%s, threshold part" % t, eq(ca, G.sub(rb, z(rb))), W, "threshold corrections enter %s and %s differently" % (t, b))
            break
