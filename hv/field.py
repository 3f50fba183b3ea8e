"""Algebraic value-number domains over the value graph.

GF(p) fingerprint domain (random interpretation, Gulwani & Necula): two
expressions get the same value number iff they are equal as algebraic
functions (up to probability ~ deg/p < 1e-12); transcendental functions are
interpreted structurally (log of a product, trig of a sum of angles, ...) and
hashed on irreducible arguments.

p = 3 mod 4 and all small primes are quadratic residues, so the quadratic
residues behave like the positive numbers: sqrt is multiplicative and
sqrt(x*x) = |x|.
"""
import re, hashlib
from fractions import Fraction
from . import graph as G
from .graph import N


# prime, = 7 mod 8, every prime <= 113 is a quadratic residue: the principal square root (the one that is
# itself a residue) is multiplicative and agrees with the usual root on all rationals built from small primes
P = 30483571513650300207187871
HALF = (P - 1) // 2
RT = (P + 1) // 4


class Bad(Exception):
    """evaluation point unusable (division by zero, non-residue): resample"""


class Undecided(Exception):
    def __init__(self, n):
        self.n = n


def H(*parts):
    """deterministic pseudo-random field element"""
    h = hashlib.blake2b(repr(parts).encode(), digest_size=16).digest()
    return int.from_bytes(h, "little") % P


def Hpos(*parts):
    r = H(*parts)
    return r * r % P


SIGNED = re.compile(r"(p\.)?(mu|Mu|M[12]|A[ude]\(\d,\d\)|s2t|s2b|s2tau|X[tb]|Xtau)$")


def signed(name, seed, x):
    """parameters that may be negative get either sign, depending on the seed"""
    if isinstance(name, str) and SIGNED.match(name) and H("sign", seed, name) & 1:
        return (-x) % P
    return x


def is_pos(x):
    return pow(x, HALF, P) == 1


def fsqrt(x):
    if x == 0:
        return 0
    if not is_pos(x):
        raise Bad("sqrt of non-residue")
    return pow(x, RT, P)


def inv(x):
    x %= P
    if x == 0:
        raise Bad("division by zero")
    return pow(x, P - 2, P)


def frac(q):
    return q.numerator % P * inv(q.denominator) % P


def primes(n):
    out = {}
    n = abs(n)
    q = 2
    while q * q <= n and q < 100000:
        while n % q == 0:
            out[q] = out.get(q, 0) + 1
            n //= q
        q += 1 if q == 2 else 2
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def logint(q, seed):
    """log of a positive rational as combination of logs of primes"""
    r = 0
    for pr, k in primes(q.numerator).items():
        r += k * logprime(pr, seed)
    for pr, k in primes(q.denominator).items():
        r -= k * logprime(pr, seed)
    return r % P


def logprime(q, seed):
    if q == 2:
        return H("var", seed, "K:log2")
    return H("log", seed, q)


class GF:
    """evaluate graph nodes in GF(p).

    assign: dict or callable name -> field element (None: random)
    branch: callable cond-node -> True/False (default: Undecided)
    scale : optional (kappa, l, degree(name)) for homogeneity testing
    """

    def __init__(self, seed=0, assign=None, branch=None, positive=None, funcs=None):
        self.seed = seed
        self.assign = assign if callable(assign) else (assign or {}).get
        self.branch = branch
        self.v = {}
        self.funcs = funcs or {}
        self.used_ites = {}

    def var(self, name):
        x = self.assign(name)
        if x is None:
            if name == "K:zeta2":
                return None
            return signed(name, self.seed, Hpos("var", self.seed, name)) if not name.startswith("K:") else H("var", self.seed, name)
        return x % P

    def rnd(self, *a):
        return H("u", self.seed, *a)

    # -- log structure: list of (node, exponent), plus constant
    def factors(self, n, e, out):
        if n.op == "*":
            self.factors(n.a[0], e, out)
            self.factors(n.a[1], e, out)
        elif n.op == "/":
            self.factors(n.a[0], e, out)
            self.factors(n.a[1], -e, out)
        elif n.op == "f" and n.a[0] == "sqrt":
            self.factors(n.a[1], e / 2, out)
        elif n.op == "f" and n.a[0] == "abs":
            self.factors(n.a[1], e, out)
        elif n.op == "ite":
            c = self.cond(n.a[0])
            self.factors(n.a[1] if c else n.a[2], e, out)
        elif n.op == "+" and G.multiple(n):
            c, x = G.multiple(n)
            out.append((G.const(c), e))
            self.factors(x, e, out)
        else:
            out.append((n, e))
        return out

    def log(self, arg):
        r = 0
        for n, e in self.factors(arg, Fraction(1), []):
            if n.op == "c":
                q = n.a[0]
                if q == 0:
                    raise Bad("log 0")
                t = logint(abs(q), self.seed)
            else:
                t = self.logv(self.val(n), n)
            r = (r + frac(e) * t) % P
        return r

    def logv(self, x, n=None):
        if x == 0:
            raise Bad("log 0")
        if x == 1 or x == P - 1:
            return 0
        # log|x|, log(1/x) = -log x
        y = inv(x)
        c = min(x, P - x)
        d = min(y, P - y)
        if c <= d:
            return H("log", self.seed, c)
        return (-H("log", self.seed, d)) % P

    def angle(self, n, k, out):
        """linear decomposition of an angle: {atom: coefficient}"""
        if n.op == "+":
            self.angle(n.a[0], k, out)
            self.angle(n.a[1], k, out)
        elif n.op == "*" and n.a[0].op == "c":
            self.angle(n.a[1], k * n.a[0].a[0], out)
        elif n.op == "ite":
            self.angle(n.a[1] if self.cond(n.a[0]) else n.a[2], k, out)
        else:
            out[n] = out.get(n, 0) + k
        return out

    def trig(self, arg):
        """(cos, sin) of an angle node"""
        c, s = 1, 0
        for a, k in self.angle(arg, Fraction(1), {}).items():
            if k == 0:
                continue
            if a.op == "c":
                if a.a[0] == 0:
                    continue
                ca, sa, kk = self._circ(("c", str(a.a[0] * k))), None, 1
                ca, sa = ca
            elif a.op == "v" and a.a[0] == "K:pi":
                m = k * 2
                if m.denominator != 1:
                    m4 = k * 4
                    if m4.denominator == 1:
                        r = fsqrt(inv(2))
                        j = int(m4) % 8
                        ca = [1, r, 0, -r, -1, -r, 0, r][j] % P
                        sa = [0, r, 1, r, 0, -r, -1, -r][j] % P
                        kk = 1
                    else:
                        ca, sa = self._circ(("pi", str(k)))
                        kk = 1
                else:
                    j = int(m) % 4
                    ca, sa = [(1, 0), (0, 1), (P - 1, 0), (0, P - 1)][j]
                    kk = 1
            else:
                den = k.denominator
                ca, sa = self.atom(a, den)
                kk = k.numerator
            if kk < 0:
                sa = -sa % P
                kk = -kk
            for _ in range(int(kk)):
                c, s = (c * ca - s * sa) % P, (s * ca + c * sa) % P
        return c, s

    def _circ(self, key):
        t = self.rnd("circ", key)
        d = inv(1 + t * t)
        return (1 - t * t) * d % P, 2 * t * d % P

    def atom(self, a, den):
        if a.op == "f" and den == 1:
            nm = a.a[0]
            if nm == "atan":
                x = self.val(a.a[1])
                r = inv(fsqrt((1 + x * x) % P))
                return r, x * r % P
            if nm == "asin":
                x = self.val(a.a[1])
                return fsqrt((1 - x * x) % P), x
            if nm == "acos":
                x = self.val(a.a[1])
                return x, fsqrt((1 - x * x) % P)
            if nm == "atan2":
                y, x = self.val(a.a[1]), self.val(a.a[2])
                r = inv(fsqrt((x * x + y * y) % P))
                return x * r % P, y * r % P
        if den == 1:
            # half angle of asin etc. handled through doubling: base atom with t
            c, s = self._half(a)
            return (c * c - s * s) % P, 2 * c * s % P
        if den == 2:
            return self._half(a)
        return self._circ((self.val(a), den))

    def _half(self, a):
        if a.op == "f" and a.a[0] in ("asin", "acos", "atan"):
            c, s = self.atom(a, 1)
            ch = fsqrt((1 + c) * inv(2) % P)
            return ch, s * inv(2 * ch) % P
        return self._circ(("half", self.val(a)))

    def cond(self, n):
        v = self.v.get(("cond", n.id))
        if v is None:
            v = self._cond(n)
            self.v[("cond", n.id)] = v
        return v

    def _cond(self, n):
        if self.branch is not None:
            r = self.branch(n)
            if r is not None:
                return r
        if n.op == "c":
            return n.a[0] != 0
        if n.op == "not":
            return not self.cond(n.a[0])
        if n.op == "and":
            return self.cond(n.a[0]) and self.cond(n.a[1])
        if n.op == "or":
            return self.cond(n.a[0]) or self.cond(n.a[1])
        if n.op == "cmp" and n.a[0] == "==":
            return self.val(n.a[1]) == self.val(n.a[2])
        raise Undecided(n)

    def val(self, root):
        v = self.v
        if root.id in v:
            return v[root.id]
        stack = [root]
        while stack:
            n = stack[-1]
            if n.id in v:
                stack.pop()
                continue
            op = n.op
            if op == "ite":
                k = n.a[1] if self.cond(n.a[0]) else n.a[2]
                self.used_ites[n.id] = k is n.a[1]
                if k.id in v:
                    v[n.id] = v[k.id]
                    stack.pop()
                else:
                    stack.append(k)
                continue
            if op in ("cmp", "and", "or", "not"):
                v[n.id] = int(self.cond(n))
                stack.pop()
                continue
            if op == "f" and n.a[0] in ("log", "cos", "sin", "tan"):
                v[n.id] = self.fn(n)
                stack.pop()
                continue
            need = [k for k in n.a if isinstance(k, N) and k.id not in v]
            if need:
                stack.extend(need)
                continue
            v[n.id] = self.node(n)
            stack.pop()
        return v[root.id]

    def node(self, n):
        op = n.op
        v = self.v
        if op == "+":
            return (v[n.a[0].id] + v[n.a[1].id]) % P
        if op == "*":
            return v[n.a[0].id] * v[n.a[1].id] % P
        if op == "/":
            return v[n.a[0].id] * inv(v[n.a[1].id]) % P
        if op == "c":
            return frac(n.a[0])
        if op == "v":
            return self.var(n.a[0])
        if op == "throw":
            return self.rnd("throw")
        if op == "f":
            return self.fn(n)
        return self.rnd(op, *[v[k.id] if isinstance(k, N) else k for k in n.a])

    def extreme(self, nm, n):
        """max/min: associative, symmetric, idempotent; of two values: one of them"""
        s, st = set(), [n]
        while st:
            k = st.pop()
            if k.op == "f" and k.a[0] == nm:
                st += k.a[1:]
            else:
                s.add(self.val(k))
        if len(s) == 1:
            return s.pop()
        if len(s) > 2:
            return self.rnd(nm, *sorted(s))
        a, b = sorted(s)
        return b if is_pos((b - a) % P) == (nm == "max") else a

    def fn(self, n):
        nm = n.a[0]
        h = self.funcs.get(nm)
        if h is not None:
            r = h(self, n)
            if r is not None:
                return r % P
        if nm == "log":
            return self.log(n.a[1])
        if nm in ("cos", "sin", "tan"):
            c, s = self.trig(n.a[1])
            if nm == "cos":
                return c
            if nm == "sin":
                return s
            return s * inv(c) % P
        a = [self.val(k) for k in n.a[1:] if isinstance(k, N)]
        if nm == "sqrt":
            return fsqrt(a[0])
        if nm == "phi_xyz":
            return phi_const(self, a)
        if nm == "abs":
            return a[0] if a[0] == 0 or is_pos(a[0]) else P - a[0]
        if nm in ("max", "min"):
            return self.extreme(nm, n)
        if nm == "atan" and a[0] == 0:
            return 0
        return self.rnd(nm, *a)


def phi_const(g, a):
    """Davydychev-Tausk function: symmetric, homogeneous of degree 1"""
    t = sum(a) % P
    if a[0] == a[1] == a[2]:
        return -g.var("K:S2") * 27 % P * inv(2) % P * a[0] % P
    it = inv(t)
    return t * H("phi", g.seed, *sorted(x * it % P for x in a)) % P


def value(roots, seeds=range(0, 40), **kw):
    """evaluate roots at the first usable sample point(s)"""
    last = None
    for s in seeds:
        try:
            g = GF(seed=s, **kw)
            return [g.val(r) for r in roots]
        except Bad as e:
            last = e
    raise Bad("no usable sample point: %s" % last)


def equal(a, b, tries=2, seeds=range(0, 60), branch=None, assign=None, funcs=None):
    """are two nodes equal as algebraic functions?"""
    done = 0
    for s in seeds:
        try:
            asg = assign(s) if assign is not None else None
            g = GF(seed=s, assign=asg, branch=branch, funcs=funcs)
            if g.val(a) != g.val(b):
                return False
            done += 1
            if done >= tries:
                return True
        except Bad:
            continue
    raise Bad("no usable sample point for comparison")
