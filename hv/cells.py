"""Guard cells: resolve the branches of a gated value at a representative
rational point, and numeric constant folding of guard expressions."""
from fractions import Fraction
import math
from . import graph as G
from .graph import N


class NoValue(Exception):
    pass


class Num:
    """constant folding of guards (abs, +, *, /, comparisons) at a rational point"""

    def __init__(self, point):
        self.pt = point
        self.v = {}

    def val(self, n):
        r = self.v.get(n.id)
        if r is not None:
            return r
        stack = [n]
        while stack:
            k = stack[-1]
            if k.id in self.v:
                stack.pop()
                continue
            if k.op == "ite":
                c = self.cond(k.a[0])
                b = k.a[1] if c else k.a[2]
                if b.id in self.v:
                    self.v[k.id] = self.v[b.id]
                    stack.pop()
                else:
                    stack.append(b)
                continue
            need = [x for x in k.a if isinstance(x, N) and x.id not in self.v]
            if need and k.op not in ("cmp", "and", "or", "not"):
                stack.extend(need)
                continue
            self.v[k.id] = self.node(k)
            stack.pop()
        return self.v[n.id]

    def node(self, n):
        op = n.op
        v = self.v
        try:
            if op == "c":
                return n.a[0]
            if op == "v":
                return self.pt(n.a[0])
            if op == "+":
                return v[n.a[0].id] + v[n.a[1].id]
            if op == "*":
                return v[n.a[0].id] * v[n.a[1].id]
            if op == "/":
                return v[n.a[0].id] / v[n.a[1].id]
            if op in ("cmp", "and", "or", "not"):
                return int(self.cond(n))
            if op == "f":
                a = [v[x.id] for x in n.a[1:] if isinstance(x, N)]
                nm = n.a[0]
                if nm == "abs":
                    return abs(a[0])
                if nm == "max":
                    return max(a)
                if nm == "min":
                    return min(a)
                f = getattr(math, nm, None)
                if f is not None:
                    return f(*[float(x) for x in a])
        except (ZeroDivisionError, ValueError, OverflowError):
            return float("nan")
        raise NoValue("%s %s" % (op, n.a[:1]))

    def cond(self, n):
        if isinstance(n, bool):
            return n
        if n.op == "c":
            return n.a[0] != 0
        if n.op == "not":
            return not self.cond(n.a[0])
        if n.op == "and":
            return self.cond(n.a[0]) and self.cond(n.a[1])
        if n.op == "or":
            return self.cond(n.a[0]) or self.cond(n.a[1])
        if n.op == "cmp":
            a, b = self.val(n.a[1]), self.val(n.a[2])
            return {"<": a < b, "<=": a <= b, "==": a == b, ">": a > b, ">=": a >= b, "!=": a != b}[n.a[0]]
        if n.op == "ite":
            return self.cond(n.a[1] if self.cond(n.a[0]) else n.a[2])
        if n.op == "f" and n.a[0] in ("isfinite", "isnan", "isinf"):
            x = float(self.val(n.a[1]))
            return {"isfinite": math.isfinite(x), "isnan": math.isnan(x), "isinf": math.isinf(x)}[n.a[0]]
        raise NoValue("cond " + n.op)


def resolve(root, cond, memo=None):
    """copy of the graph with every ite replaced by the branch cond() selects"""
    memo = {} if memo is None else memo
    stack = [root]
    while stack:
        n = stack[-1]
        if n.id in memo:
            stack.pop()
            continue
        if n.op == "ite":
            b = n.a[1] if cond(n.a[0]) else n.a[2]
            if b.id in memo:
                memo[n.id] = memo[b.id]
                stack.pop()
            else:
                stack.append(b)
            continue
        if n.op in ("c", "v"):
            memo[n.id] = n
            stack.pop()
            continue
        need = [x for x in n.a if isinstance(x, N) and x.id not in memo]
        if need:
            stack.extend(need)
            continue
        a = [memo[x.id] if isinstance(x, N) else x for x in n.a]
        memo[n.id] = G.rebuild(n, a) if hasattr(G, "rebuild") else G.mk(n.op, *a)
        stack.pop()
    return memo[root.id]


def guards(root):
    """all comparison nodes under ite conditions"""
    out = []
    for n in G.topo([root]):
        if n.op == "cmp":
            out.append(n)
    return out


def thresholds(root):
    """positive constants that guard comparisons compare against"""
    out = set()
    for n in guards(root):
        for x in (n.a[1], n.a[2]):
            if x.op == "c" and 0 < x.a[0] < Fraction(1, 2):
                out.add(x.a[0])
    return sorted(out)
