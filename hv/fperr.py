"""First-order rounding-error analysis of a value graph at a point of a guard cell.

Value and accumulated error bound: every inexact node n contributes u*|n|*|d root/d n|
(adjoint method), evaluated in multiple precision; guards select the branch."""
import mpmath as mp
from fractions import Fraction as Fr
from . import graph as G
from .graph import N

U = mp.mpf(2) ** -53


class Undefined(Exception):
    pass


def mpq(q):
    q = Fr(q)
    return mp.mpf(q.numerator) / q.denominator


class Point:
    def __init__(self, assign, funcs=None, ulp=None):
        self.assign = {k: (mpq(v) if isinstance(v, (int, Fr)) else mp.mpf(v)) for k, v in assign.items()}
        self.v = {}
        self.funcs = funcs or {}
        self.ulp = ulp or {}
        self.pick = {}

    # ---- values
    def val(self, root):
        st = [root]
        while st:
            n = st[-1]
            if n.id in self.v:
                st.pop()
                continue
            if n.op == "ite":
                c = n.a[0]
                need = [x for x in self.leaves(c) if x.id not in self.v]
                if need:
                    st.extend(need)
                    continue
                try:
                    b = n.a[1] if self.cond(c) else n.a[2]
                except KeyError:
                    raise Undefined("guard")
                if b.id in self.v:
                    self.v[n.id] = self.v[b.id]
                    self.pick[n.id] = b
                    st.pop()
                else:
                    st.append(b)
                continue
            if n.op in ("cmp", "and", "or", "not"):
                need = [x for x in self.leaves(n) if x.id not in self.v]
                if need:
                    st.extend(need)
                    continue
                self.v[n.id] = mp.mpf(int(self.cond(n)))
                st.pop()
                continue
            need = [x for x in n.a if isinstance(x, N) and x.id not in self.v]
            if need:
                st.extend(need)
                continue
            try:
                self.v[n.id] = self.node(n, [self.v[x.id] for x in n.a if isinstance(x, N)])
            except (ZeroDivisionError, ValueError):
                self.v[n.id] = mp.nan
            st.pop()
        return self.v[root.id]

    def leaves(self, c):
        out = []
        if not isinstance(c, N) or c.op == "c":
            return out
        if c.op in ("and", "or", "not"):
            for x in c.a:
                out += self.leaves(x)
        elif c.op == "cmp":
            out += [c.a[1], c.a[2]]
        elif c.op == "f":
            out += [x for x in c.a if isinstance(x, N)]
        else:
            out.append(c)
        return out

    def cond(self, c):
        if isinstance(c, bool):
            return c
        if c.op == "c":
            return c.a[0] != 0
        if c.op == "not":
            return not self.cond(c.a[0])
        if c.op == "and":
            return self.cond(c.a[0]) and self.cond(c.a[1])
        if c.op == "or":
            return self.cond(c.a[0]) or self.cond(c.a[1])
        if c.op == "cmp":
            a, b = self.v[c.a[1].id], self.v[c.a[2].id]
            return {"<": a < b, "<=": a <= b, "==": a == b, ">": a > b, ">=": a >= b, "!=": a != b}[c.a[0]]
        if c.op == "f" and c.a[0] in ("isfinite", "isnan", "isinf"):
            x = self.v[c.a[1].id]
            return {"isfinite": bool(mp.isfinite(x)), "isnan": bool(mp.isnan(x)), "isinf": bool(mp.isinf(x))}[c.a[0]]
        return self.v[c.id] != 0

    def node(self, n, a):
        op = n.op
        if op == "c":
            return mpq(n.a[0])
        if op == "v":
            if n.a[0] in KVAL:
                return KVAL[n.a[0]]()
            return self.assign[n.a[0]]
        if op == "+":
            return a[0] + a[1]
        if op == "*":
            return a[0] * a[1]
        if op == "/":
            return a[0] / a[1]
        nm = n.a[0]
        if nm in self.funcs:
            return self.funcs[nm](*a)[0]
        return FN[nm][0](*a)

    # ---- error bound
    def error(self, root):
        self.val(root)
        order, seen, st = [], set(), [(root, 0)]
        while st:
            n, k = st.pop()
            if k:
                order.append(n)
                continue
            if n.id in seen:
                continue
            seen.add(n.id)
            st.append((n, 1))
            for x in ([self.pick[n.id]] if n.op == "ite" else [] if n.op in ("cmp", "and", "or", "not") else [x for x in n.a if isinstance(x, N)]):
                st.append((x, 0))
        adj = {n.id: mp.mpf(0) for n in order}
        adj[root.id] = mp.mpf(1)
        tot = mp.mpf(0)
        for n in reversed(order):
            A = adj[n.id]
            v = self.v[n.id]
            if n.op == "ite":
                adj[self.pick[n.id].id] += A
                continue
            x = [y for y in n.a if isinstance(y, N)]
            if n.op in ("v", "c"):
                if n.op == "c" and n.a[0].denominator & (n.a[0].denominator - 1) or n.op == "v" and n.a[0].startswith("K:"):
                    tot += abs(A * v) * U
                continue
            if A == 0:
                continue
            tot += abs(A * v) * U * self.ulps(n, x)
            try:
                d = self.partial(n, [self.v[y.id] for y in x])
            except ZeroDivisionError:
                return mp.inf
            for y, dy in zip(x, d):
                if dy is not None:
                    adj[y.id] += A * dy
        return tot

    def ulps(self, n, x):
        if n.op == "*" and any(y.op == "c" and abs(y.a[0]).numerator in (1, 2, 4) and y.a[0].denominator in (1, 2, 4) for y in x):
            return 0
        if n.op == "f" and n.a[0] in ("abs", "min", "max"):
            return 0
        if n.op in ("cmp", "and", "or", "not"):
            return 0
        return 1

    def partial(self, n, a):
        if n.op == "+":
            return [1, 1]
        if n.op == "*":
            return [a[1], a[0]]
        if n.op == "/":
            return [1 / a[1], -a[0] / a[1] ** 2]
        if n.op in ("cmp", "and", "or", "not"):
            return [None] * len(a)
        nm = n.a[0]
        if nm in self.funcs:
            return self.funcs[nm](*a)[1]
        return FN[nm][1](*a)


def _csq(re, im):
    s = mp.sqrt(mp.mpc(re, im))
    return s


KVAL = {"K:pi": lambda: +mp.pi, "K:log2": lambda: mp.log(2), "K:zeta2": lambda: mp.zeta(2), "K:zeta3": lambda: mp.zeta(3),
        "K:S2": lambda: 4 / (9 * mp.sqrt(3)) * mp.clsin(2, mp.pi / 3)}
FN = {
    "log": (lambda x: mp.log(x) if x > 0 else mp.nan, lambda x: [1 / x]),
    "sqrt": (lambda x: mp.sqrt(x) if x >= 0 else mp.nan, lambda x: [1 / (2 * mp.sqrt(x)) if x else mp.inf]),
    "abs": (abs, lambda x: [mp.sign(x)]),
    "asin": (lambda x: mp.asin(x) if abs(x) <= 1 else mp.nan, lambda x: [1 / mp.sqrt(1 - x * x) if abs(x) < 1 else 0]),
    "acos": (lambda x: mp.acos(x) if abs(x) <= 1 else mp.nan, lambda x: [-1 / mp.sqrt(1 - x * x) if abs(x) < 1 else 0]),
    "atan": (mp.atan, lambda x: [1 / (1 + x * x)]),
    "atan2": (lambda y, x: mp.atan2(y, x), lambda y, x: [x / (x * x + y * y), -y / (x * x + y * y)]),
    "sin": (mp.sin, lambda x: [mp.cos(x)]),
    "cos": (mp.cos, lambda x: [-mp.sin(x)]),
    "pow": (lambda x, y: mp.power(x, y) if x > 0 else mp.nan, lambda x, y: [y * mp.power(x, y - 1), mp.log(x) * mp.power(x, y)]),
    "fmod": (lambda x, y: mp.fmod(x, y), lambda x, y: [1, -mp.floor(x / y)]),
    "clog.re": (lambda x, y: mp.log(mp.hypot(x, y)), lambda x, y: [x / (x * x + y * y), y / (x * x + y * y)]),
    "clog.im": (lambda x, y: mp.atan2(y, x), lambda x, y: [-y / (x * x + y * y), x / (x * x + y * y)]),
    "exp": (mp.exp, lambda x: [mp.exp(x)]),
    "log1p": (mp.log1p, lambda x: [1 / (1 + x)]),
    "min": (min, lambda x, y: [1, 0] if x <= y else [0, 1]),
    "max": (max, lambda x, y: [1, 0] if x >= y else [0, 1]),
    "hypot": (lambda x, y: mp.sqrt(x * x + y * y), lambda x, y: [x / mp.hypot(x, y), y / mp.hypot(x, y)]),
    "csqrt.re": (lambda x, y: _csq(x, y).real, lambda x, y: [(1 / (2 * _csq(x, y))).real, -(1 / (2 * _csq(x, y))).imag]),
    "csqrt.im": (lambda x, y: _csq(x, y).imag, lambda x, y: [(1 / (2 * _csq(x, y))).imag, (1 / (2 * _csq(x, y))).real]),
}
