"""Homogeneity degrees of value graphs under a common rescaling of all dimensionful inputs."""
from . import graph as G, field
from .graph import N

LAM = G.var("Lam")
TINY = 1e-8
LOGL = G.log(LAM)


class Inhomogeneous(Exception):
    pass


def zero(n):
    return n.op == "c" and n.a[0] == 0


def power(d):
    return G.powi(LAM, d) if d >= 0 else G.div(G.const(1), G.powi(LAM, -d))


class Dim:
    """dims: variable name -> degree; funcs: opaque function -> (degree, expected degrees of the arguments or None)"""

    CANDS = (0, 2, 1, 4, 3, -2, 6, 8, -1, -4, 5, 7, -3, -6, 10, 12, -8)

    def __init__(self, dims, funcs):
        self.dims, self.funcs = dims, funcs
        self.fresh = {}
        self.sc, self.dg, self.rp = {}, {}, {}
        self.bad = []
        self.guards = {}
        self.n = {"cmp": 0, "ite": 0, "fn": 0, "zero guards": 0}

    def var(self, name):
        return self.fresh[name] if name in self.fresh else self.dims(name)

    # -- rescaled graph
    def scale(self, root):
        sc = self.sc
        for k in G.topo([root]):
            if k.id in sc:
                continue
            if k.op == "v":
                d = self.var(k.a[0])
                sc[k.id] = G.mul(k, power(d)) if d else k
            elif k.op in ("c", "throw"):
                sc[k.id] = k
            else:
                a = [sc[x.id] if isinstance(x, N) else x for x in k.a]
                if k.op == "f":
                    self.n["fn"] += 1
                    try:
                        sc[k.id] = self.fn(k)
                        continue
                    except Inhomogeneous as e:
                        if not (str(k.a[0]) in ("log", "sqrt", "abs")):
                            raise
                sc[k.id] = k if all(x is y for x, y in zip(a, k.a)) else G.rebuild(k, a)
        return sc[root.id]

    def fn(self, k):
        nm = str(k.a[0])
        ds = [self.degree(x) if isinstance(x, N) else None for x in k.a[1:]]
        known = {d for d in ds if d is not None}

        def by(d):
            return G.mul(k, power(d)) if d else k
        if nm == "log":
            d = ds[0] or 0
            return G.add(k, G.mul(G.const(d), LOGL)) if d else k
        if nm == "sqrt":
            d = ds[0] or 0
            if d % 2:
                raise Inhomogeneous("square root of a quantity of degree %d" % d)
            return by(d // 2)
        if nm in ("abs", "max", "min"):
            if len(known) > 1:
                raise Inhomogeneous("%s of quantities of degrees %s" % (nm, sorted(known)))
            return by(known.pop() if known else 0)
        if nm in ("isnan", "isfinite", "isinf", "sign"):
            return k
        base = nm.split("#")[0]
        r = self.funcs(base)
        if r is not None:
            d, want = r
            if want == "same":
                if len(known) > 1:
                    raise Inhomogeneous("%s of quantities of degrees %s" % (nm, sorted(known)))
                return by((known.pop() if known else 0) if d == "arg" else d)
            if want is not None:
                if len(want) != len(ds) or any(x is not None and x != w for x, w in zip(ds, want)):
                    raise Inhomogeneous("%s of quantities of degrees %s" % (nm, ds))
            return by(d)
        if known <= {0}:
            return k
        raise Inhomogeneous("%s of quantities of degrees %s" % (nm, ds))

    # -- degree of a graph without branches
    def degree(self, n):
        """None: identically zero (any degree)"""
        if n.id in self.dg:
            r = self.dg[n.id]
            if isinstance(r, Inhomogeneous):
                raise r
            return r
        try:
            r = self.find(n)
        except Inhomogeneous as e:
            self.dg[n.id] = e
            raise
        self.dg[n.id] = r
        return r

    def find(self, n):
        if zero(n):
            return None
        if n.op == "c":
            return 0
        if n.op == "v":
            return self.var(n.a[0])
        if n.op == "f" and n.a[0] != "log":
            s = self.scale(n)
            if s is n:
                return 0
            if s.op == "*":
                for d in range(-8, 9):
                    if s is G.mul(n, power(d)):
                        return d
        s = self.scale(n)
        if s is n:
            return 0
        for d in self.cands(n):
            if field.equal(s, G.mul(n, power(d)), seeds=range(0, 400)):
                return d
        raise Inhomogeneous("terms of different degree")

    def cands(self, n):
        """the degree suggested by the first product found comes first"""
        k = n
        for _ in range(10000):
            if k.op == "+":
                k = k.a[0]
            else:
                break
        d = self.guess(k)
        return ([d] if d is not None else []) + [c for c in self.CANDS if c != d]

    def guess(self, k, depth=40):
        if depth == 0:
            return None
        if k.op == "c":
            return 0
        if k.op == "v":
            return self.var(k.a[0])
        if k.op == "+":
            return self.guess(k.a[0], depth - 1)
        if k.op in ("*", "/"):
            a, b = self.guess(k.a[0], depth - 1), self.guess(k.a[1], depth - 1)
            if a is None or b is None:
                return None
            return a + b if k.op == "*" else a - b
        if k.op == "f":
            s = self.sc.get(k.id)
            if k.id in self.dg and isinstance(self.dg[k.id], int):
                return self.dg[k.id]
        return None

    # -- branches
    def generic(self, c):
        """truth value of a guard that asks whether a dimensionful quantity is numerically zero"""
        if c.op == "c":
            return bool(c.a[0])
        if c.op == "not":
            r = self.generic(c.a[0])
            return None if r is None else not r
        if c.op in ("and", "or"):
            r = [self.generic(x) for x in c.a]
            dom = c.op == "or"
            if dom in r:
                return dom
            return None if None in r else not dom
        if c.op != "cmp":
            return None
        x, y = c.a[1], c.a[2]
        for v, k, sw in ((x, y, 0), (y, x, 1)):
            if k.op == "c" and v.op != "c" and abs(k.a[0]) <= TINY:
                if c.a[0] in ("==", "!="):
                    return c.a[0] == "!="
                if k.a[0] == 0 or any(z.op in ("ite", "cmp") for z in G.topo([v])):
                    continue
                try:
                    d = self.degree(v)
                except Inhomogeneous:
                    continue
                if d:
                    self.n["zero guards"] += 1
                    lt = c.a[0] in ("<", "<=")
                    return not lt if not sw else lt
        return None

    def simplify(self, root):
        memo = self.simp if hasattr(self, "simp") else {}
        self.simp = memo
        for k in G.topo([root]):
            if k.id in memo:
                continue
            if k.op in ("c", "v", "throw"):
                memo[k.id] = k
                continue
            a = [memo[x.id] if isinstance(x, N) else x for x in k.a]
            n = k if all(x is y for x, y in zip(a, k.a)) else G.rebuild(k, a)
            if n.op == "ite":
                g = self.generic(n.a[0])
                if g is not None:
                    n = n.a[1] if g else n.a[2]
            memo[k.id] = n
        return memo[root.id]

    def strip(self, root):
        """replace homogeneous branches by fresh variables of their degree; the guards of the branches must compare quantities of equal degree"""
        rp = self.rp
        for k in G.topo([root]):
            if k.id in rp:
                continue
            if k.op in ("c", "v", "throw"):
                rp[k.id] = k
                continue
            a = [rp[x.id] if isinstance(x, N) else x for x in k.a]
            n = k if all(x is y for x, y in zip(a, k.a)) else G.rebuild(k, a)
            if n.op == "cmp":
                self.n["cmp"] += 1
                try:
                    if self.generic(n) is not None:
                        rp[k.id] = G.const(int(self.generic(n)))
                        continue
                    x, y = self.degree(n.a[1]), self.degree(n.a[2])
                    if x is not None and y is not None and x != y:
                        self.guards[k.id] = "comparison of degree %d with degree %d: %s" % (x, y, str(n)[:160])
                except (Inhomogeneous, field.Undecided) as e:
                    if not self.left(n):
                        self.guards[k.id] = "comparison %s: %s" % (str(n)[:120], e)
                n = self.truth(n)
            elif n.op in ("and", "or", "not"):
                n = self.truth(n)
            elif n.op == "f" and self.funcs(str(n.a[0]).split("#")[0]) is not None and not self.left(n):
                try:
                    d = self.degree(n)
                except (Inhomogeneous, field.Undecided) as e:
                    self.bad.append(str(e))
                    d = 0
                nm = "fn!%d" % n.id
                self.fresh[nm] = d or 0
                n = G.var(nm)
            elif n.op == "ite":
                self.n["ite"] += 1
                try:
                    ds = {self.degree(x) for x in n.a[1:] if x.op != "throw"} - {None}
                    if len(ds) > 1:
                        self.bad.append("branches of degrees %s: %s" % (sorted(ds), str(n)[:160]))
                    nm = "ite!%d" % n.id
                    self.fresh[nm] = ds.pop() if ds else 0
                    n = G.var(nm)
                except (Inhomogeneous, field.Undecided):
                    pass    # decided with the whole expression
            rp[k.id] = n
        return rp[root.id]

    def truth(self, n):
        nm = "truth!%d" % n.id
        self.fresh[nm] = 0
        return G.var(nm)

    @staticmethod
    def left(n):
        return any(k.op == "ite" for k in G.topo([n]))

    def of(self, root, limit=256):
        """(degree, problems)"""
        self.bad = []
        root = self.simplify(root)
        n = self.strip(root)
        self.wrong_guards = list(dict.fromkeys(self.guards[k.id] for k in G.topo([root]) if k.id in self.guards))
        out = set()
        conds = {}
        for k in G.topo([n]):
            if k.op == "ite":
                conds[k.a[0].id] = k.a[0]
        todo = [{}]
        tried = 0
        while todo:
            asg = todo.pop()
            g, c = pick(n, asg)
            if c is not None:
                todo += [{**asg, c.id: v} for v in (True, False)]
                continue
            tried += 1
            if tried > limit:
                self.bad.append("too many combinations of branches")
                break
            try:
                out.add(self.degree(g))
            except Inhomogeneous as e:
                self.bad.append(str(e))
        self.n["combinations"] = self.n.get("combinations", 0) + tried
        out.discard(None)
        if len(out) > 1:
            self.bad.append("degrees %s in different branches" % sorted(out))
        return (out.pop() if out else None), list(dict.fromkeys(self.bad))    # problems of the guards: self.wrong_guards


def pick(root, asg):
    """resolve the branches with known guards; returns (graph, first undecided guard)"""
    memo = {}
    stack = [root]
    while stack:
        k = stack[-1]
        if k.id in memo:
            stack.pop()
            continue
        if k.op == "ite":
            c = k.a[0]
            if c.id not in asg:
                return None, c
            b = k.a[1] if asg[c.id] else k.a[2]
            if b.id in memo:
                memo[k.id] = memo[b.id]
                stack.pop()
            else:
                stack.append(b)
            continue
        if k.op in ("c", "v", "throw"):
            memo[k.id] = k
            stack.pop()
            continue
        need = [x for x in k.a if isinstance(x, N) and x.id not in memo]
        if need:
            stack.extend(need)
            continue
        a = [memo[x.id] if isinstance(x, N) else x for x in k.a]
        memo[k.id] = k if all(x is y for x, y in zip(a, k.a)) else G.rebuild(k, a)
        stack.pop()
    return memo[root.id], None
