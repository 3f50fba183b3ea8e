"""Branch agreement of piecewise functions: truncation order and rounding-error
order of every guard cell around every singular stratum."""
from fractions import Fraction
import math
from . import graph as G, series as SR, cells
from .field import GF, Bad, P, H, Hpos, frac, inv
from .graph import N

INF = 10 ** 6


def scal(c, s):
    return SR.smul(frac(Fraction(c)), s)


def powvar(n, p, coeff):
    """coeff * eps^p"""
    l = [0] * n
    if p < n:
        l[p] = coeff % P
    return SR.S(0, {0: l})


class Err:
    """order (in eps) of the accumulated rounding error of each node"""

    def __init__(self, ser):
        self.s = ser
        self.e = {}

    def of(self, root):
        for n in G.topo([root]):
            self.e[n.id] = self._of(n)
        return self.e[root.id]

    def vv(self, n):
        s = SR.norm(self.s.val(n))
        return s.v if s.n else INF

    def _of(self, n):
        e = self.e
        op = n.op
        if op == "v":
            return INF if not n.a[0].startswith("K:") else 0
        if op == "c":
            q = n.a[0]
            return INF if q.denominator & (q.denominator - 1) == 0 else 0
        v = self.vv(n)
        if op == "+":
            return min(e[n.a[0].id], e[n.a[1].id], v)
        if op == "*":
            if n.a[0].op == "c" and abs(n.a[0].a[0]) in (1, 2, 4, Fraction(1, 2)):
                return e[n.a[1].id]
            v1, v2 = self.vv(n.a[0]), self.vv(n.a[1])
            return min(e[n.a[0].id] + v2, e[n.a[1].id] + v1, v)
        if op == "/":
            v1, v2 = self.vv(n.a[0]), self.vv(n.a[1])
            return min(e[n.a[0].id] - v2, v1 + e[n.a[1].id] - 2 * v2, v)
        if op == "f":
            nm = n.a[0]
            ks = [k for k in n.a[1:] if isinstance(k, N)]
            va = self.vv(ks[0])
            ea = e[ks[0].id]
            if nm == "abs":
                return ea
            if nm == "log":
                return min(ea - va, v)
            if nm == "sqrt":
                return min(ea - va // 2, v)
            return min([e[k.id] for k in ks] + [0])
        return 0


class AdjErr(Err):
    """like Err, with the correlation of errors between all uses of an intermediate value (adjoint method)"""

    def of(self, root):
        S, N_ = self.s, self.s.n
        ad = {root.id: SR.const(1, N_)}
        e = INF

        def give(n, s):
            ad[n.id] = SR.add(ad[n.id], s) if n.id in ad else s
        for n in reversed(list(G.topo([root]))):
            if n.id not in ad:
                continue
            a = ad[n.id]
            va = SR.norm(a)
            va = va.v if va.n else INF
            op = n.op
            exact = op == "v" and not n.a[0].startswith("K:") or op == "c" and n.a[0].denominator & (n.a[0].denominator - 1) == 0 \
                or op == "*" and n.a[0].op == "c" and abs(n.a[0].a[0]) in (1, 2, 4, Fraction(1, 2)) or op == "f" and n.a[0] == "abs"
            if not exact and self.vv(n) < INF:
                e = min(e, va + self.vv(n))
            if op == "+":
                give(n.a[0], a)
                give(n.a[1], a)
            elif op == "*":
                give(n.a[0], SR.mul(a, S.val(n.a[1]), N_))
                give(n.a[1], SR.mul(a, S.val(n.a[0]), N_))
            elif op == "/":
                i = SR.sinv(S.val(n.a[1]))
                give(n.a[0], SR.mul(a, i, N_))
                give(n.a[1], SR.smul(P - 1, SR.mul(SR.mul(a, S.val(n), N_), i, N_)))
            elif op == "f":
                nm = n.a[0]
                ks = [k for k in n.a[1:] if isinstance(k, N)]
                k = ks[0]
                if nm == "log":
                    give(k, SR.mul(a, SR.sinv(S.val(k)), N_))
                elif nm == "sqrt":
                    give(k, SR.mul(a, SR.sinv(SR.smul(2, S.val(n))), N_))
                elif nm == "abs":
                    give(k, SR.mul(a, SR.mul(S.val(n), SR.sinv(S.val(k)), N_), N_))
                else:
                    e = min(e, va)
        return e


def bad_logs(root, num):
    """logs / sqrts in the resolved leaf whose argument is not positive at the point"""
    out = []
    for n in G.topo([root]):
        if n.op == "f" and n.a[0] in ("log", "sqrt"):
            x = num.val(n.a[1])
            if not x > 0 and not (n.a[0] == "sqrt" and x == 0):
                out.append(n)
    return out


def exact_singular(root, num):
    """divisions by exact zero (or log 0) in the resolved leaf at the point"""
    out = []
    for n in G.topo([root]):
        if n.op == "/" and num.val(n.a[1]) == 0:
            out.append(n)
        if n.op == "f" and n.a[0] == "log" and not num.val(n.a[1]) > 0:
            out.append(n)
    return out
