"""Truncated Laurent(-log) series over GF(p): the limit/continuity domain.

A value is sum_{l,k} c[l][k] * eps^(v+k) * (log eps)^l  + O(eps^(v+n))."""
from fractions import Fraction
from . import graph as G
from .graph import N
from .field import P, H, Hpos, inv, frac, is_pos, fsqrt, Bad, Undecided, logint, GF


class S:
    __slots__ = ("v", "d")      # d: {l: list of n coefficients}

    def __init__(self, v, d):
        self.v = v
        self.d = d

    @property
    def n(self):
        for x in self.d.values():
            return len(x)
        return 0


def const(c, n):
    return S(0, {0: [c % P] + [0] * (n - 1)})


def norm(s):
    """strip leading zeros (keeps absolute precision)"""
    n = s.n
    d = {l: x for l, x in s.d.items() if any(x)} or {0: [0] * n}
    k = 0
    while k < n and all(x[k] == 0 for x in d.values()):
        k += 1
    if k == 0:
        return S(s.v, d)
    if k == n:
        return S(s.v + n, {0: []})
    return S(s.v + k, {l: x[k:] for l, x in d.items()})


def add(a, b):
    v = min(a.v, b.v)
    end = min(a.v + a.n, b.v + b.n)
    n = max(0, end - v)
    d = {}
    for s in (a, b):
        off = s.v - v
        for l, x in s.d.items():
            t = d.get(l)
            if t is None:
                t = d[l] = [0] * n
            for k, c in enumerate(x):
                if off + k < n:
                    t[off + k] += c
    for l in d:
        d[l] = [c % P for c in d[l]]
    if not d:
        d = {0: [0] * n}
    return S(v, d)


def mul(a, b, N_):
    a, b = norm(a), norm(b)
    n = min(a.n, b.n)
    d = {}
    for l, x in a.d.items():
        for m, y in b.d.items():
            t = d.get(l + m)
            if t is None:
                t = d[l + m] = [0] * n
            for i in range(n):
                c = x[i]
                if c:
                    for j in range(n - i):
                        t[i + j] += c * y[j]
    for l in d:
        d[l] = [c % P for c in d[l]]
    if not d:
        d = {0: [0] * n}
    return S(a.v + b.v, d)


def smul(c, a):
    return S(a.v, {l: [c * y % P for y in x] for l, x in a.d.items()})


def sinv(a):
    a = norm(a)
    if a.n == 0:
        raise Bad("division by series that vanishes to working precision")
    if set(a.d) != {0}:
        raise Bad("division by logarithmic series")
    x = a.d[0]
    i0 = inv(x[0])
    y = [i0]
    for k in range(1, len(x)):
        s = 0
        for j in range(1, k + 1):
            s += x[j] * y[k - j]
        y.append(-s * i0 % P)
    return S(-a.v, {0: y})


def ssqrt(a):
    a = norm(a)
    if a.n == 0:
        return S(a.v // 2, {0: []})
    if set(a.d) != {0}:
        raise Bad("sqrt of log series")
    if a.v % 2:
        raise Bad("sqrt of odd power")
    x = a.d[0]
    r = [fsqrt(x[0])]
    i2 = inv(2 * r[0])
    for k in range(1, len(x)):
        s = x[k]
        for j in range(1, k):
            s -= r[j] * r[k - j]
        r.append(s * i2 % P)
    return S(a.v // 2, {0: r})


def log1p(x, n):
    """log of 1 + sum_{k>=1} x_k eps^k ; x list with x[0]==1"""
    # L' = x'/x
    out = [0] * n
    for k in range(1, n):
        s = k * x[k]
        for j in range(1, k):
            s -= j * out[j] * x[k - j]
        out[k] = s % P * inv(k) % P
    return out


class Series:
    """evaluate nodes as series; assign: name -> S | int | None"""

    def __init__(self, order, assign, seed=0, branch=None, funcs=None):
        self.n = order
        self.assign = assign
        self.seed = seed
        self.branch = branch
        self.v = {}
        self.gf = GF(seed=seed)
        self.funcs = funcs or {}
        self.conds = {}

    def const(self, c):
        return const(c, self.n)

    def var(self, name):
        x = self.assign(name)
        if x is None:
            x = self.gf.var(name)
        if isinstance(x, S):
            return x
        return self.const(x)

    def cond(self, n):
        r = self.conds.get(n.id)
        if r is None:
            r = self.conds[n.id] = self._cond(n)
        return r

    def _cond(self, n):
        if self.branch is not None:
            r = self.branch(self, n)
            if r is not None:
                return r
        if n.op == "c":
            return n.a[0] != 0
        if n.op == "not":
            return not self.cond(n.a[0])
        if n.op == "and":
            return self.cond(n.a[0]) and self.cond(n.a[1])
        if n.op == "or":
            return self.cond(n.a[0]) or self.cond(n.a[1])
        raise Undecided(n)

    def factors(self, n, e, out):
        if n.op == "*":
            self.factors(n.a[0], e, out)
            self.factors(n.a[1], e, out)
        elif n.op == "/" and self.unit(n):
            out.append((n, e))
        elif n.op == "/":
            self.factors(n.a[0], e, out)
            self.factors(n.a[1], -e, out)
        elif n.op == "f" and n.a[0] == "sqrt":
            self.factors(n.a[1], e / 2, out)
        elif n.op == "f" and n.a[0] == "abs":
            self.factors(n.a[1], e, out)
        elif n.op == "ite":
            self.factors(n.a[1] if self.cond(n.a[0]) else n.a[2], e, out)
        elif n.op == "+" and G.multiple(n):
            c, x = G.multiple(n)
            out.append((G.const(c), e))
            self.factors(x, e, out)
        else:
            out.append((n, e))
        return out

    def unit(self, n):
        """is this quotient 1 + O(eps)?"""
        return n.a[0].op == "+" and self.one(n)

    def one(self, n):
        try:
            s = norm(self.val(n))
        except (Bad, Undecided):
            return False
        return s.v == 0 and s.n > 0 and set(s.d) == {0} and s.d[0][0] == 1

    def slog(self, s):
        """log of |series| (monomial leading term)"""
        s = norm(s)
        if s.n == 0:
            raise Bad("log of zero")
        if set(s.d) != {0}:
            raise Bad("log of log series")
        x = s.d[0]
        c = x[0]
        ic = inv(c)
        u = [y * ic % P for y in x]
        r = S(0, {0: log1p(u, len(u))})
        r.d[0][0] = self.gf.logv(c)
        if s.v:
            r = add(r, S(0, {1: [s.v % P] + [0] * (len(u) - 1), 0: [0] * len(u)}))
        return r

    def log(self, arg):
        r = self.const(0)
        if self.one(arg):
            return self.slog(self.val(arg))
        for n, e in self.factors(arg, Fraction(1), []):
            if n.op == "c":
                if n.a[0] == 0:
                    raise Bad("log 0")
                t = self.const(logint(abs(n.a[0]), self.seed))
            else:
                t = self.slog(self.val(n))
            r = add(r, smul(frac(e), t))
        return r

    def val(self, root):
        v = self.v
        if root.id in v:
            return v[root.id]
        stack = [root]
        while stack:
            n = stack[-1]
            if n.id in v:
                stack.pop()
                continue
            op = n.op
            if op == "ite":
                k = n.a[1] if self.cond(n.a[0]) else n.a[2]
                if k.id in v:
                    v[n.id] = v[k.id]
                    stack.pop()
                else:
                    stack.append(k)
                continue
            if op == "f" and n.a[0] == "log":
                v[n.id] = self.log(n.a[1])
                stack.pop()
                continue
            need = [k for k in n.a if isinstance(k, N) and k.id not in v]
            if need:
                stack.extend(need)
                continue
            v[n.id] = self.node(n)
            stack.pop()
        return v[root.id]

    def node(self, n):
        op = n.op
        v = self.v
        if op == "+":
            return add(v[n.a[0].id], v[n.a[1].id])
        if op == "*":
            if n.a[0].op == "c":
                return smul(frac(n.a[0].a[0]), v[n.a[1].id])
            return mul(v[n.a[0].id], v[n.a[1].id], self.n)
        if op == "/":
            return mul(v[n.a[0].id], sinv(v[n.a[1].id]), self.n)
        if op == "c":
            return self.const(frac(n.a[0]))
        if op == "v":
            return self.var(n.a[0])
        if op == "f":
            nm = n.a[0]
            h = self.funcs.get(nm)
            if h is not None:
                return h(self, n)
            if nm == "sqrt":
                return ssqrt(v[n.a[1].id])
            if nm == "abs":
                s = norm(v[n.a[1].id])
                if s.n == 0 or set(s.d) != {0}:
                    return s
                return s if is_pos(s.d[0][0]) else smul(P - 1, s)
            if nm == "dilog":
                om = self.log(n.a[2]) if len(n.a) > 2 else None
                return self.dilog(v[n.a[1].id], om)
            if nm == "phi_xyz":
                return self.phi(n)
            raise Bad("series of function " + nm)
        raise Bad("series of op " + op)

    # ---- dilogarithm
    def li2const(self, c):
        if c == 0:
            return 0
        pi2 = pow(self.gf.var("K:pi"), 2, P)
        if c == 1:
            return pi2 * inv(6) % P
        if c == P - 1:
            return -pi2 * inv(12) % P
        return H("li2", self.seed, c)

    def dilog(self, s, lom=None):
        s = norm(s)
        if set(s.d) != {0}:
            raise Bad("dilog of log series")
        n = self.n
        one = self.const(1)
        # integrate  Li2'(s) = -log(1-s)/s * s'
        if s.n == 0:
            return S(s.v, {0: []})
        if s.v < 0:
            raise Bad("dilog at infinity")
        if s.v > 0:
            c0 = 0
        else:
            c0 = s.d[0][0]
        om = norm(add(one, smul(P - 1, s)))
        if om.n == 0:
            # argument 1 to working precision
            return S(0, {0: [self.li2const(1)]})
        if c0 == 0:
            # power series sum s^k/k^2
            r = S(0, {0: [0] * (s.v + s.n)})
            t = one
            k = 1
            while True:
                t = mul(t, s, n)
                if t.v >= s.v + s.n or k > 4 * n:
                    break
                r = add(r, smul(inv(k * k), t))
                k += 1
            return r
        lg = self.slog(om) if lom is None else lom
        f = smul(P - 1, mul(lg, sinv(s), n))
        # derivative of s wrt eps
        x = s.d[0]
        ds = S(s.v - 1, {0: [(s.v + k) * c % P for k, c in enumerate(x)]})
        f = mul(f, ds, n)
        return add(self.integrate(f), S(0, {0: [self.li2const(c0)] + [0] * (n - 1)}))

    def phi(self, n):
        """phi_xyz(x,y,z) = z/2 lambda S(u,v) with lambda dS/du = 2 ln u + (1-u-v)/u ln v (u <-> v):
        series solution of F' = F g + h"""
        N_ = self.n
        x, y, z = [norm(self.v[k.id]) for k in n.a[1:]]
        for s in (x, y, z):
            if s.n == 0 or s.v != 0 or set(s.d) != {0}:
                raise Bad("phi at a vanishing argument")
        lx, ly, lz = [self.log(k) for k in n.a[1:]]
        neg = lambda s: smul(P - 1, s)
        iz = sinv(z)
        u, v = mul(x, iz, N_), mul(y, iz, N_)
        lu, lv = add(lx, neg(lz)), add(ly, neg(lz))
        one = self.const(1)
        w = add(add(one, neg(u)), neg(v))
        lam2 = norm(add(mul(w, w, N_), smul(P - 4, mul(u, v, N_))))
        if lam2.n == 0 or lam2.v != 0:
            raise Bad("phi on its threshold")
        g = add(mul(deriv(z), iz, N_), smul(inv(2), mul(deriv(lam2), sinv(lam2), N_)))
        h = add(mul(add(smul(2, lu), mul(mul(w, sinv(u), N_), lv, N_)), deriv(u), N_),
                mul(add(smul(2, lv), mul(mul(w, sinv(v), N_), lu, N_)), deriv(v), N_))
        h = smul(inv(2), mul(z, h, N_))
        m = min(dense_len(g), dense_len(h))
        gg, hh = dense(g, m), dense(h, m)
        from .field import phi_const
        f = [phi_const(self.gf, [s.d[0][0] for s in (x, y, z)])]
        for k in range(m):
            t = hh[k]
            for j in range(k + 1):
                t += gg[j] * f[k - j]
            f.append(t % P * inv(k + 1) % P)
        return S(0, {0: f})

    def integrate(self, f):
        """integral of a log series (no eps^-1 terms)"""
        out = {}
        n = f.n
        v = f.v + 1
        ls = sorted(f.d, reverse=True)
        for l in ls:
            for k, c in enumerate(f.d[l]):
                if c == 0:
                    continue
                m = v + k            # eps^(m-1) log^l -> sum
                if m == 0:
                    raise Bad("log-divergent integral")
                # int e^(m-1) L^l = e^m sum_j (-1)^j l!/(l-j)! L^(l-j)/m^(j+1)
                coef = c * inv(m) % P
                for j in range(l + 1):
                    out.setdefault(l - j, [0] * n)
                    out[l - j][k] = (out[l - j][k] + coef) % P
                    coef = -coef * (l - j) % P * inv(m) % P
        if not out:
            out = {0: [0] * n}
        return S(v, out)


def deriv(s):
    s = norm(s)
    if s.n == 0:
        return S(max(s.v - 1, 0), {0: []})
    if set(s.d) != {0}:
        raise Bad("derivative of log series")
    return S(s.v - 1, {0: [(s.v + k) * c % P for k, c in enumerate(s.d[0])]})


def dense_len(s):
    return s.v + s.n


def dense(s, m):
    """coefficients eps^0..eps^(m-1)"""
    out = [0] * m
    for l, x in s.d.items():
        if l != 0 and any(x):
            raise Bad("log series")
    for k, c in enumerate(s.d.get(0, [])):
        if s.v + k < 0:
            if c:
                raise Bad("pole")
            continue
        if s.v + k < m:
            out[s.v + k] = c
    return out


def eps_series(c0, c1, n):
    """c0 + c1*eps"""
    return S(0, {0: ([c0 % P, c1 % P] + [0] * n)[:n]})


def diff_order(a, b):
    """first power of eps at which two series differ (None if equal to precision), and precision"""
    d = add(a, smul(P - 1, b))
    end = d.v + d.n
    d = norm(d)
    if d.n == 0:
        return None, end
    return d.v, end
