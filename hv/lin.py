"""Linear forms of value graphs, and exact cells of an arrangement of linear
forms (Fourier-Motzkin elimination over the rationals)."""
from fractions import Fraction as Fr
from . import graph as G
from .graph import N


class NotLinear(Exception):
    pass


def form(n, leaf):
    """{name: coefficient} (key 1: constant); leaf(n) -> name or None"""
    nm = leaf(n)
    if nm is not None:
        return {nm: Fr(1)}
    if n.op == "c":
        return {1: Fr(n.a[0])}
    if n.op == "+":
        return add(form(n.a[0], leaf), form(n.a[1], leaf))
    if n.op == "*":
        a, b = form(n.a[0], leaf), form(n.a[1], leaf)
        for x, y in ((a, b), (b, a)):
            if set(x) <= {1}:
                return scale(y, x.get(1, Fr(0)))
    if n.op == "/":
        a, b = form(n.a[0], leaf), form(n.a[1], leaf)
        if set(b) <= {1} and b.get(1):
            return scale(a, 1 / b[1])
    raise NotLinear(n)


def add(a, b, f=1):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + f * v
    return {k: v for k, v in r.items() if v}


def scale(a, f):
    return {k: v * f for k, v in a.items() if v * f}


def canon(f):
    """form up to a nonzero factor (hashable)"""
    ks = sorted(f, key=str)
    if not ks:
        return ()
    c = f[ks[0]]
    return tuple((k, f[k] / c) for k in ks)


def atoms(root, leaf, bad=None):
    """canonical linear forms whose sign decides the comparisons, abs, min and max of a graph"""
    out = {}

    def put(f):
        c = canon({k: v for k, v in f.items()})
        if c and any(k != 1 for k, _ in c):
            out[c] = dict(c)

    def variants(n, depth=0):
        """linear forms a piecewise linear node can take"""
        try:
            return [form(n, leaf)]
        except NotLinear:
            pass
        if depth > 40:
            raise NotLinear(n)
        if n.op == "f" and n.a[0] == "abs":
            v = variants(n.a[1], depth + 1)
            for f in v:
                put(f)
            return v + [scale(f, -1) for f in v]
        if n.op == "f" and n.a[0] in ("min", "max"):
            v = [variants(x, depth + 1) for x in n.a[1:]]
            for f in v[0]:
                for g in v[1]:
                    put(add(f, g, -1))
            return v[0] + v[1]
        if n.op == "ite":
            return variants(n.a[1], depth + 1) + variants(n.a[2], depth + 1)
        if n.op == "+":
            return [add(a, b) for a in variants(n.a[0], depth + 1) for b in variants(n.a[1], depth + 1)]
        if n.op in "*/":
            a, b = variants(n.a[0], depth + 1), variants(n.a[1], depth + 1)
            if all(set(f) <= {1} for f in b):
                return [scale(f, g.get(1, Fr(0)) if n.op == "*" else 1 / g[1]) for f in a for g in b]
            if n.op == "*" and all(set(f) <= {1} for f in a):
                return [scale(f, g.get(1, Fr(0))) for f in b for g in a]
            if n.op == "/":                 # ratio compared with a constant: cross-multiplied by the caller
                raise NotLinear(n)
        raise NotLinear(n)

    for n in G.topo([root]):
        if n.op == "f" and n.a[0] in ("abs", "min", "max"):
            try:
                variants(n)
            except NotLinear:
                if bad is not None:
                    bad.append(n)
        if n.op == "cmp":
            a, b = n.a[1], n.a[2]
            try:
                if a.op == "/" or b.op == "/":
                    na, da = (a.a if a.op == "/" else (a, None))
                    nb, db = (b.a if b.op == "/" else (b, None))
                    l = variants(na) if db is None else mulv(variants(na), variants(db))
                    r = variants(nb) if da is None else mulv(variants(nb), variants(da))
                else:
                    l, r = variants(a), variants(b)
                for f in l:
                    for g in r:
                        put(add(f, g, -1))
            except NotLinear:
                if bad is not None:
                    bad.append(n)
    return out


def mulv(a, b):
    out = []
    for f in a:
        for g in b:
            if set(f) <= {1}:
                out.append(scale(g, f.get(1, Fr(0))))
            elif set(g) <= {1}:
                out.append(scale(f, g.get(1, Fr(0))))
            else:
                raise NotLinear(None)
    return out


def feasible(cons, names):
    """a rational point satisfying all (form, sign): sign +1: form > 0, 0: form = 0; None if empty"""
    eq = [dict(f) for f, s in cons if s == 0]
    gt = [dict(f) if s > 0 else scale(f, -1) for f, s in cons if s != 0]
    steps = []
    names = list(names)
    # Gauss
    while eq:
        f = eq.pop()
        vs = [k for k in f if k != 1]
        if not vs:
            if f.get(1):
                return None
            continue
        x = vs[0]
        expr = scale({k: v for k, v in f.items() if k != x}, -1 / f[x])

        def sub(g):
            if x not in g:
                return g
            return add({k: v for k, v in g.items() if k != x}, expr, g[x])
        eq = [sub(g) for g in eq]
        gt = [sub(g) for g in gt]
        steps.append(("eq", x, expr))
        names = [k for k in names if k != x]
    for x in names:
        lo = [g for g in gt if g.get(x, 0) > 0]
        hi = [g for g in gt if g.get(x, 0) < 0]
        no = [g for g in gt if not g.get(x, 0)]
        low = [scale({k: v for k, v in g.items() if k != x}, -1 / g[x]) for g in lo]     # x > low
        upp = [scale({k: v for k, v in g.items() if k != x}, -1 / g[x]) for g in hi]     # x < upp
        steps.append(("fm", x, low, upp))
        seen = set()
        gt = []
        for g in no + [add(u, l, -1) for u in upp for l in low]:
            if set(g) <= {1}:
                if g.get(1, 0) <= 0:
                    return None
                continue
            m = max(abs(v) for v in g.values())
            k = tuple(sorted(((str(a), b / m) for a, b in g.items())))
            if k not in seen:
                seen.add(k)
                gt.append(g)
    for g in gt:
        if g.get(1, 0) <= 0:
            return None
    pt = {}

    def ev(f):
        return sum((v * (1 if k == 1 else pt[k]) for k, v in f.items()), Fr(0))
    for s in reversed(steps):
        if s[0] == "eq":
            pt[s[1]] = ev(s[2])
            continue
        lo = max((ev(f) for f in s[2]), default=None)
        up = min((ev(f) for f in s[3]), default=None)
        if lo is None and up is None:
            pt[s[1]] = Fr(1)
        elif lo is None:
            pt[s[1]] = up - 1
        elif up is None:
            pt[s[1]] = lo + 1
        else:
            pt[s[1]] = (lo + up) / 2
    return pt


def cells(forms, names, base):
    """one rational point in every cell (all dimensions) of the arrangement inside the base cone"""
    out = []

    def rec(i, cons):
        pt = feasible(cons, names)
        if pt is None:
            return
        if i == len(forms):
            out.append(pt)
            return
        for s in (1, -1, 0):
            rec(i + 1, cons + [(forms[i], s)])
    rec(0, list(base))
    return out
