"""Value graphs of the threshold-correction calculator (public API only)."""
from fractions import Fraction as Fr
import random
from . import program, interp, graph as G, cells, series as SR
from .graph import N

NS = "himalaya::mh2_eft::"
TC = NS + "ThresholdCalculator"
LOOP = NS + "threshold_loop_functions::"


def last(qn):
    return qn.split("::")[-1]


class Thr:
    def __init__(self, P_, inline_loops=False, keep_phi=True, p=None):
        self.P = P_
        self.I = I = interp.Interp(P_)
        self.inline = inline_loops

        def oc(I, f, args, this):
            q = f.qn
            if q == "himalaya::Parameters::validate":
                return None
            if q == "himalaya::Parameters::calculateMsq2":
                return G.var("msq2")
            if q == "himalaya::dilog":
                a = self.arg(args[0])
                if isinstance(a, interp.Cx):
                    if a.im.op == "c" and a.im.a[0] == 0:
                        return interp.Cx(G.fn("dilog", a.re), G.fn("dilog.im", a.re))
                    return interp.Cx(G.fn("cdilog.re", a.re, a.im), G.fn("cdilog.im", a.re, a.im))
                return G.fn("dilog", a)
            if q.startswith(LOOP):
                nm = last(q)
                if nm == "phi_xyz" or (not inline_loops and nm in LOOPNAMES):
                    return G.fn(nm, *[self.arg(a) for a in args])
            return NotImplemented
        I.on_call = oc
        self.p = p or I.sym("himalaya::Parameters", "p")
        ct = [f for f in P_.by_qn.get(TC + "::ThresholdCalculator", []) if len(f.params) == 3]
        if len(ct) != 1:
            raise program.AnalysisBroken("ThresholdCalculator(Parameters, bool, bool) not found")
        self.o = I.construct(ct[0], [self.p, G.const(0), G.const(1)])
        self.orders = dict(P_.enums[NS + "ThresholdCouplingOrders"]["vals"])
        self.limits = dict(P_.enums[NS + "Limits"]["vals"])
        self.schemes = dict(P_.enums[NS + "RenSchemes"]["vals"])
        self.limit = None

    def arg(self, a):
        return self.I.get(a) if isinstance(a, interp.Ref) else a

    def set_limit(self, v):
        v = G.const(v) if isinstance(v, int) else v
        self.I.call(self.P.fn(TC + "::setLimit"), [v], self.o)

    def set_xt_order(self, v):
        self.I.call(self.P.fn(TC + "::setXtOrderOfDeltaLambdaAtAs2"), [G.const(v)], self.o)

    def get(self, order, scheme="DRBARPRIME", omit=1):
        omit = G.const(omit) if isinstance(omit, int) else omit
        r = self.I.call(self.P.fn(TC + "::getThresholdCorrection"),
                        [G.const(self.orders[order]), G.const(self.schemes[scheme]), omit], self.o)
        return real(r)

    def xt_terms(self, limit, order, omit=1):
        return real(self.I.call(self.P.fn(TC + "::getDRbarPrimeToMSbarXtTerms"),
                                [G.const(limit), G.const(order), G.const(omit)], self.o))

    def shift(self, order, omit=1, omitxt=1):
        return real(self.I.call(self.P.fn(TC + "::getDRbarPrimeToMSbarShift"),
                                [G.const(order), G.const(omit), G.const(omitxt)], self.o))


LOOPNAMES = {"F1", "F2", "F3", "F4", "F5", "F6", "F7", "F8", "F9", "f", "g", "f1", "f2", "f3", "f4", "f5", "f6",
             "f7", "f8"}


def real(n):
    """complex helper nodes with real argument -> real functions (real parts)"""
    if not isinstance(n, N):
        n = G.const(n) if isinstance(n, (int, Fr)) else n
    memo = {}
    for k in G.topo([n]):
        if k.op in ("c", "v", "throw"):
            memo[k.id] = k
            continue
        a = [memo[x.id] if isinstance(x, N) else x for x in k.a]
        if k.op == "f" and k.a[0] == "clog.re" and a[2].op == "c" and a[2].a[0] == 0:
            memo[k.id] = G.log(G.abs_(a[1]))
        else:
            memo[k.id] = k if all(x is y for x, y in zip(a, k.a)) else G.rebuild(k, a)
    return memo[n.id]


def canon_dilog(root, num):
    """rewrite every dilog so that its argument lies in (0,1/2] at the representative point
    (real-part functional equations of Li2)"""
    memo = {}
    pi2 = G.mul(G.var("K:pi"), G.var("K:pi"))
    for k in G.topo([root]):
        if k.op in ("c", "v", "throw"):
            memo[k.id] = k
            continue
        a = [memo[x.id] if isinstance(x, N) else x for x in k.a]
        if k.op == "f" and k.a[0] == "dilog":
            memo[k.id] = li2(a[1], num, pi2)
        elif k.op == "f" and k.a[0] in ("max", "min") and len(k.a) == 3:
            x, y = num.val(k.a[1]), num.val(k.a[2])
            memo[k.id] = a[1] if (x >= y) == (k.a[0] == "max") else a[2]
        elif k.op == "f" and k.a[0] in ("sin", "cos", "tan"):
            t = trig(k.a[0], a[1])
            memo[k.id] = G.rebuild(k, a) if t is None else t
        else:
            memo[k.id] = k if all(x is y for x, y in zip(a, k.a)) else G.rebuild(k, a)
    return memo[root.id]


def algebraic(roots):
    """sin/cos/tan of multiples of an arcus tangent rewritten as algebraic expressions"""
    memo = {}
    for k in G.topo(roots):
        if k.op in ("c", "v", "throw"):
            memo[k.id] = k
            continue
        a = [memo[x.id] if isinstance(x, N) else x for x in k.a]
        t = trig(k.a[0], a[1]) if k.op == "f" and k.a[0] in ("sin", "cos", "tan") else None
        if t is not None:
            memo[k.id] = t
        else:
            memo[k.id] = k if all(x is y for x, y in zip(a, k.a)) else G.rebuild(k, a)
    return [memo[r.id] for r in roots]


def trig(nm, x):
    """sin/cos/tan of an integer multiple of an arcus tangent, as an algebraic expression"""
    m = 1
    if x.op == "*" and x.a[0].op == "c":
        m, x = x.a[0].a[0], x.a[1]
    if not (x.op == "f" and x.a[0] == "atan") or m != int(m) or abs(m) > 8:
        return None
    t = x.a[1]
    re, im = G.const(1), G.const(0)
    for _ in range(abs(int(m))):
        re, im = G.add(re, G.neg(G.mul(im, t))), G.add(im, G.mul(re, t))
    if m < 0:
        im = G.neg(im)
    if nm == "tan":
        return G.div(im, re)
    d = G.add(G.const(1), G.mul(t, t))
    k = abs(int(m))
    r = G.const(1)
    for _ in range(k // 2):
        r = G.mul(r, d)
    if k % 2:
        r = G.mul(r, G.sqrt(d))
    return G.div(re if nm == "cos" else im, r)


def L(x):
    return G.log(G.abs_(x))


def one_minus(x):
    """1-x in factored form when x is written as 1-r"""
    if x.op == "+":
        a, b = x.a
        if b.op == "c":
            a, b = b, a
        if a.op == "c" and a.a[0] == 1:
            return G.neg(b)
    return G.add(G.const(1), G.neg(x))


def li2(x, num, pi2, om=None, depth=0):
    """Li2(x) with om = 1-x; leaves are fn('dilog', y, 1-y) with y in (0,1/2] at the representative point"""
    v = num.val(x)
    one = G.const(1)
    if om is None:
        om = one_minus(x)
        a, b = numden(om)
        om = G.div(a, b)
        x = G.div(G.add(b, G.neg(a)), b)
    if depth > 5 or 0 < v <= Fr(1, 2):
        return G.fn("dilog", x, om)
    if v > 1 or v < -1:
        # Li2(x) = -Li2(1/x) - log^2|x|/2 + (x>0: pi^2/3, x<0: -pi^2/6)
        c = G.mul(G.const(Fr(1, 3) if v > 0 else Fr(-1, 6)), pi2)
        l = L(x)
        r = li2(G.div(one, x), num, pi2, G.neg(G.div(om, x)), depth + 1)
        return G.add(G.add(G.neg(r), G.mul(G.const(Fr(-1, 2)), G.mul(l, l))), c)
    if v < 0:
        # Li2(x) = -Li2(x/(x-1)) - log^2(1-x)/2
        l = L(om)
        r = li2(G.neg(G.div(x, om)), num, pi2, G.div(one, om), depth + 1)
        return G.add(G.neg(r), G.mul(G.const(Fr(-1, 2)), G.mul(l, l)))
    if v > Fr(1, 2):
        r = li2(om, num, pi2, x, depth + 1)
        return G.add(G.add(G.neg(r), G.neg(G.mul(L(x), L(om)))), G.mul(G.const(Fr(1, 6)), pi2))
    return G.fn("dilog", x, om)


def numden(n):
    """numerator and denominator of a quotient expression"""
    if n.op == "/":
        a, b = numden(n.a[0])
        c, d = numden(n.a[1])
        return G.mul(a, d), G.mul(b, c)
    if n.op == "*":
        a, b = numden(n.a[0])
        c, d = numden(n.a[1])
        return G.mul(a, c), G.mul(b, d)
    if n.op == "c":
        return G.const(n.a[0].numerator), G.const(n.a[0].denominator)
    return n, G.const(1)
