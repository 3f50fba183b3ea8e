"""P13: coupling-order switches and assembly of the 2-loop fixed-order correction."""
import itertools
from fractions import Fraction as Fr
from hv import program, fo, graph as G, interp, field
from hv.field import Bad
from checks.P14 import v, c, mul, add, sq

LEVEL = "other"
RULE = ("Abstract interpretation of the MSSM_mass_eigenstates constructor, set_correction and delta_mh2_2loop with the 2-loop "
        "routines of mh2l uninterpreted: for every massless-fermion case, every switch and both modes the result must be the sum of exactly the "
        "enabled routines, each called with the masses, mixing angle, couplings, mu sign, tan(beta) and scale of its own sector (GF(p) value numbering).")
ASSUMPTIONS = ["the 2-loop routines are uninterpreted functions of their arguments",
               "identities hold except with probability < 1e-20 (random evaluation in GF(p))"]
W = "source/himalaya/mh2_fo/MSSM_mass_eigenstates.cpp"
BIG = ("G32YT4", "G32YB4", "YB6", "YT6", "YTAU6", "YTAU2YB4", "YTAU4YB2")
FREE = object()


def dsz(I, f, args):
    a = [G.tn(I.get(x) if isinstance(x, interp.Ref) else x) for x in args]
    nm = "dsz:" + f.qn.split("_2loop_")[1]
    return interp.Mat(2, 2, [G.fn(nm + ":%d%d" % (i, j), *a) for i, j in ((0, 0), (0, 1), (0, 1), (1, 1))])


class Obj13:
    def __init__(self, P, at, zero=(), conv=None):
        self.zero = set(zero)
        self.conv = conv
        self.seen_validate = []
        self.calls = []
        self.F = fo.Fo(P, extra=self.extra, decide=self.decide)
        self.o = self.F.mass_eigenstates(at)
        self.enum = P.enums["himalaya::CouplingOrders::CouplingOrders"]["vals"]
        self.enum = dict(self.enum)

    def decide(self, cnd):
        # the massless-fermion conditions and the convergence test: decided by the case under study
        if cnd.op == "cmp":
            vs = G.variables([cnd])
            for m in ("Mt", "Mb", "Mtau"):
                if "p." + m in vs and len(vs) == 1:
                    x = Fr(0) if m in self.zero else Fr(3)
                    r = G.substitute([cnd], {"p." + m: G.const(x)})[0]
                    return r if isinstance(r, bool) else bool(r.a[0]) if r.op == "c" else None
        return None

    def extra(self, I, f, args, this):
        q = f.qn
        if q.startswith("himalaya::mh2l::delta_mh2_2loop_"):
            self.calls.append(q.split("_2loop_")[1])
            return dsz(I, f, args)
        if q == "himalaya::Parameters::validate":
            self.seen_validate.append(I.get(this) if isinstance(this, interp.Ref) else this)
            return None
        if q.endswith("is_equal_rel") and self.conv is not None:
            return bool(self.conv.pop(0))
        return NotImplemented

    def mom_it(self, P, name):
        e = P.enums["himalaya::mh2_fo::Momentum_iteration"]["vals"]
        return dict(e)[name]

    def setc(self, order, val):
        self.F.call(self.o, "set_correction", self.enum[order], val)

    def two_loop(self):
        self.calls = []
        return self.F.I.tomat(self.F.call(self.o, "delta_mh2_2loop"))


def expected_terms(at):
    """name -> 2x2 of uninterpreted nodes with the arguments the physics demands"""
    r2 = G.sqrt(c(Fr(1, 2)))
    mf2 = lambda Y, vv: sq(mul(r2, v(Y + "(2,2)"), v(vv)))
    s, cs = (lambda t: G.fn("sin", v(t))), (lambda t: G.fn("cos", v(t)))
    m2 = lambda n, i: sq(v("%s(%d)" % (n, i)))
    tanb = G.div(v("vu"), v("vd"))
    cotb = G.div(v("vd"), v("vu"))
    vev2 = add(sq(v("vu")), sq(v("vd")))
    mu = mul(-1, v("mu"))
    q2 = sq(v("scale"))
    heavy = c(1)
    mt2, mb2, ml2 = mf2("Yu", "vu"), mf2("Yd", "vd"), mf2("Ye", "vd")
    st = [m2("MSt", 0), m2("MSt", 1)]
    sb = [m2("MSb", 0), m2("MSb", 1)]
    sl = [m2("MStau", 0), m2("MStau", 1)]
    t, b, l = [(s("theta_" + x), cs("theta_" + x)) for x in ("t", "b", "tau")]
    A = {
        "at_as": [mt2, v("MG"), *st, *t, q2, mu, tanb, vev2, v("g3"), heavy],
        "ab_as": [mb2, v("MG"), *sb, *b, q2, mu, cotb, vev2, v("g3"), heavy],
        "at_at": [mt2, mb2, sq(v("MA")), *st, *sb, *t, *b, q2, mu, tanb, vev2, heavy, c(at)],
        "atau_atau": [ml2, sq(v("MA")), v("ml2(2,2)"), *sl, *l, q2, mu, tanb, vev2, heavy],
        "ab_atau": [ml2, mb2, *sl, *sb, *l, *b, q2, mu, tanb, vev2, heavy],
    }
    return {k: {(i, j): G.fn("dsz:%s:%d%d" % (k, min(i, j), max(i, j)), *a) for i in (0, 1) for j in (0, 1)} for k, a in A.items()}


ROUTE = {"at_as": ("G32YT4",), "ab_as": ("G32YB4",), "at_at": ("YT6",), "atau_atau": ("YTAU6",), "ab_atau": ("YTAU2YB4", "YTAU4YB2")}


def eqv(a, b):
    try:
        return field.equal(G.tn(a), G.tn(b))
    except Bad:
        return False
    except field.Undecided:
        return False


def compare(L, kind, key, m, terms, on, at):
    ok = True
    for i, j in ((0, 0), (0, 1), (1, 0), (1, 1)):
        want = c(0)
        for k in on:
            want = add(want, terms[k][(i, j)])
        ok = ok and eqv(m.at(i, j), want)
    return L.ob(kind, key, ok, W, "result is not the sum of the routines %s with the arguments of their sectors" % sorted(on))


def run(L):
    P = program.Program()
    terms = expected_terms(0)
    L.need("himalaya::CouplingOrders::CouplingOrders" in P.enums, "CouplingOrders")
    # -- generic masses, momentum iteration off
    D = Obj13(P, 0)
    off = D.mom_it(P, "off")

    def set_off(d):
        d.F.call(d.o, "set_mom_it", off, Fr(1, 1000), 100)
    set_off(D)
    full = set(ROUTE)
    compare(L, "assembly", "all corrections", D.two_loop(), terms, full, 0)
    for k, orders in ROUTE.items():
        for o in orders:
            D.setc(o, 0)
        compare(L, "switch", "off " + "+".join(orders), D.two_loop(), terms, full - {k}, 0)
        for o in orders:
            D.setc(o, 1)
        if len(orders) > 1:
            for o in orders:
                D.setc(o, 0)
                compare(L, "switch", "only %s off" % o, D.two_loop(), terms, full, 0)
                D.setc(o, 1)
    known = set(D.enum) - {"NUMBER_OF_COUPLING_ORDERS"}
    for o in sorted(known):
        if any(o in r for r in ROUTE.values()) or o == "ONLY_AT_AS" or "NUMBER" in o:
            continue
        D.setc(o, 0)
        compare(L, "switch", "off %s (no 2-loop term of this order)" % o, D.two_loop(), terms, full, 0)
        D.setc(o, 1)
    for o in sorted(known):
        if "NUMBER" not in o and o != "ONLY_AT_AS":
            D.setc(o, 0)
    compare(L, "assembly", "all corrections off", D.two_loop(), terms, set(), 0)
    for k, orders in ROUTE.items():
        for o in orders:
            D.setc(o, 1)
            compare(L, "switch", "only %s on" % o, D.two_loop(), terms, {k}, 0)
            D.setc(o, 0)
    L.funcs |= D.F.I.funcs_seen
    # -- massless fermions: a routine that is singular there is not called, all others are
    for n in range(0, 4):
        for zero in itertools.combinations(("Mt", "Mb", "Mtau"), n):
            D = Obj13(P, 0, zero)
            set_off(D)
            D.two_loop()
            D2 = D.two_loop()
            key = ",".join(zero) or "none"
            want = {"at_as": "Mt" not in zero, "ab_as": "Mb" not in zero,
                    "at_at": False if "Mt" in zero else FREE if "Mb" in zero else True,
                    "atau_atau": "Mtau" not in zero, "ab_atau": "Mb" not in zero and "Mtau" not in zero}
            got = set(D.calls)
            for k, w in want.items():
                if w is FREE:
                    continue
                L.ob("massless", "zero masses: %s, %s" % (key, k), (k in got) == w, W,
                     "routine is %s although it is %s there" % (("not called", "regular") if w else ("called", "singular")))
            compare(L, "massless", "zero masses: %s, sum" % key, D2, terms, got, 0)
    # -- O(at)-only object
    D = Obj13(P, 1)
    set_off(D)
    m = D.two_loop()
    L.ob("only-at", "routines of the O(at)-only object", sorted(D.calls) == ["at_as", "at_at"], W, "calls %s" % sorted(D.calls))
    ta = expected_terms(1)
    ok = True
    for i, j in ((0, 0), (0, 1), (1, 0), (1, 1)):
        rest = G.sub(m.at(i, j), ta["at_as"][(i, j)])
        nodes = [x for x in G.topo([rest]) if x.op == "f" and str(x.a[0]).startswith("dsz:")]
        atat = [x for x in nodes if x.a[0].startswith("dsz:at_at")]
        if not atat:
            ok = False
            continue
        x = atat[0]
        ok = ok and eqv(rest, x) and x.a[0] == "dsz:at_at:%d%d" % (min(i, j), max(i, j))
        w = ta["at_at"][(i, j)]
        for pos in (0, 2, 3, 4, 7, 8, 11, 12, 13, 14, 15, 16):  # all arguments but those of the bottom sector
            L.ob("only-at", "argument %d of delta_mh2_2loop_at_at (%d,%d)" % (pos, i, j), eqv(x.a[1 + pos], w.a[1 + pos]), W,
                 "argument of the O(at^2) routine differs")
    L.ob("only-at", "2-loop sum of the O(at)-only object", ok, W, "not the sum of the O(at*as) and the top-Yukawa-only O(at^2) routine")
    vs = D.seen_validate
    L.ob("only-at", "spectrum recomputed", len(vs) >= 1, W, "DR' masses of the O(at)-only object are not recomputed")
    for o in vs[:1]:
        f = o.f
        nan = lambda n: n.op == "v" and n.a[0] == "K:nan"
        for nm in ("Mb", "Mtau", "s2b", "s2tau", "theta_b", "theta_tau"):
            L.ob("only-at", "derived parameter " + nm, nan(f[nm]), W, "not reset: stays at the value of the full model")
        for nm in ("MSb", "MStau"):
            L.ob("only-at", "derived parameter " + nm, all(nan(x) for x in f[nm].d), W, "not reset: stays at the value of the full model")
        for nm in ("Yd", "Ye", "Yu"):
            for i in range(3):
                for j in range(3):
                    x = f[nm].at(i, j)
                    if nm == "Yu" and i == j == 2:
                        ok = x is v("Yu(2,2)")
                    elif i == j == 2:
                        ok = x.op == "c" and 0 <= x.a[0] < Fr(1, 10 ** 5)
                    else:
                        ok = x.op == "c" and x.a[0] == 0
                    L.ob("only-at", "%s(%d,%d)" % (nm, i, j), ok, W, "Yukawa coupling of the O(at)-only object")
        for nm in ("g1", "g2"):
            L.ob("only-at", nm, f[nm].op == "c" and f[nm].a[0] == 0, W, "electroweak coupling of the O(at)-only object")
        for nm in ("g3", "vu", "vd", "mu", "MA", "scale", "MG", "M1", "M2"):
            L.ob("only-at", nm, f[nm] is v(nm), W, "parameter of the O(at)-only object changed")
        for nm in ("Au", "Ad", "Ae", "mq2", "mu2", "md2", "ml2", "me2"):
            ok = all(f[nm].at(i, j) is v("%s(%d,%d)" % (nm, i, j)) for i in range(3) for j in range(3))
            L.ob("only-at", nm, ok, W, "parameter of the O(at)-only object changed")
    L.assumptions += ASSUMPTIONS
