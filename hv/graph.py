"""Hash-consed value graph (gated SSA): the common IR of all numeric analyses.

Every node denotes the value an expression of /repo's program has as a function
of the symbolic inputs; helper calls, locals, loops with constant bounds and
branches have already been resolved by hv.interp.
"""
from fractions import Fraction
import sys
sys.setrecursionlimit(200000)


class N:
    __slots__ = ("op", "a", "id", "loc", "__weakref__")

    def __init__(self, op, a, id, loc):
        self.op = op
        self.a = a
        self.id = id
        self.loc = loc

    def __repr__(self):
        return show(self, 4)

    def __bool__(self):
        raise TypeError("symbolic node used as bool")


_tab = {}
_cnt = [0]
cur_loc = [None]


def mk(op, *a):
    key = (op, tuple(x.id if isinstance(x, N) else ("#", type(x).__name__, x) for x in a))
    n = _tab.get(key)
    if n is None:
        n = N(op, a, _cnt[0], cur_loc[0])
        _cnt[0] += 1
        _tab[key] = n
    return n


def reset():
    _tab.clear()


def const(v):
    if isinstance(v, bool):
        v = int(v)
    return mk("c", Fraction(v))


def var(name):
    return mk("v", name)


def is_c(n):
    return isinstance(n, N) and n.op == "c"


def tn(x):
    """to node"""
    if isinstance(x, N):
        return x
    if isinstance(x, bool):
        return const(int(x))
    if isinstance(x, (int, Fraction)):
        return const(x)
    if isinstance(x, float):
        return const(Fraction(x))
    raise TypeError("not a scalar: %r" % (x,))


ZERO = const(0)
ONE = const(1)
MONE = const(-1)


def _lift(f):
    """arithmetic on a throw value is that throw value"""
    return f


def add(a, b):
    a, b = tn(a), tn(b)
    if a.op == "throw":
        return a
    if b.op == "throw":
        return b
    if a.op == "c":
        if b.op == "c":
            return const(a.a[0] + b.a[0])
        if a.a[0] == 0:
            return b
    elif b.op == "c" and b.a[0] == 0:
        return a
    # x + (-1)*x -> 0
    if b.op == "*" and b.a[0] is MONE and b.a[1] is a:
        return ZERO
    if a.op == "*" and a.a[0] is MONE and a.a[1] is b:
        return ZERO
    return mk("+", a, b)


def mul(a, b):
    a, b = tn(a), tn(b)
    if a.op == "throw":
        return a
    if b.op == "throw":
        return b
    if a.op == "c":
        if b.op == "c":
            return const(a.a[0] * b.a[0])
        if a.a[0] == 1:
            return b
        if a.a[0] == 0:
            return ZERO
        if b.op == "*" and b.a[0].op == "c":
            return mul(const(a.a[0] * b.a[0].a[0]), b.a[1])
    elif b.op == "c":
        return mul(b, a)
    return mk("*", a, b)


def neg(a):
    return mul(MONE, a)


def sub(a, b):
    return add(a, neg(b))


def div(a, b):
    a, b = tn(a), tn(b)
    if a.op == "throw":
        return a
    if b.op == "throw":
        return b
    if b.op == "c" and b.a[0] != 0:
        if a.op == "c":
            return const(a.a[0] / b.a[0])
        return mul(const(1 / b.a[0]), a)
    if a.op == "c" and a.a[0] == 0 and not (b.op == "c"):
        return ZERO
    return mk("/", a, b)


def powi(a, n):
    if n < 0:
        return div(ONE, powi(a, -n))
    if n == 0:
        return ONE
    r = None
    base = tn(a)
    while n:
        if n & 1:
            r = base if r is None else mul(r, base)
        n >>= 1
        if n:
            base = mul(base, base)
    return r


def fn(name, *args):
    return mk("f", name, *args)


def _rat_sqrt(q):
    if q < 0:
        return None
    from math import isqrt
    a, b = isqrt(q.numerator), isqrt(q.denominator)
    if a * a == q.numerator and b * b == q.denominator:
        return Fraction(a, b)
    return None


def sqrt(a):
    a = tn(a)
    if a.op == "throw":
        return a
    if a.op == "c":
        r = _rat_sqrt(a.a[0])
        if r is not None:
            return const(r)
    if a.op == "*" and a.a[0] is a.a[1]:
        return abs_(a.a[0])
    return fn("sqrt", a)


def is_neg_of(a, b):
    return neg(a) is b or a is neg(b)


def abs_(a):
    a = tn(a)
    if a.op == "throw":
        return a
    if a.op == "c":
        return const(abs(a.a[0]))
    if a.op == "*" and a.a[0].op == "c" and a.a[0].a[0] < 0:
        return mul(const(-a.a[0].a[0]), abs_(a.a[1]))
    if a.op == "f" and a.a[0] in ("abs", "sqrt"):
        return a
    return fn("abs", a)


def log(a):
    a = tn(a)
    if a.op == "throw":
        return a
    if a.op == "c" and a.a[0] == 1:
        return ZERO
    return fn("log", a)


CMP = {"<": lambda x, y: x < y, "<=": lambda x, y: x <= y, ">": lambda x, y: x > y,
       ">=": lambda x, y: x >= y, "==": lambda x, y: x == y, "!=": lambda x, y: x != y}
_FLIP = {">": "<", ">=": "<="}


def cmp(op, a, b):
    """comparison; returns python bool when decided, canonical '<','<=','==' otherwise"""
    if not isinstance(a, N) and not isinstance(b, N):
        return CMP[op](a, b)
    a, b = tn(a), tn(b)
    if a.op == "c" and b.op == "c":
        return CMP[op](a.a[0], b.a[0])
    if a is b and op in ("<=", ">=", "=="):
        if a.op in ("v", "c"):
            pass
    if op in _FLIP:
        op, a, b = _FLIP[op], b, a
    if op == "!=":
        return lnot(cmp("==", a, b))
    if op == "==" and a.id > b.id:
        a, b = b, a
    # distribute over ite of constants:  ite(c,1,0) == 0
    for x, y, sw in ((a, b, False), (b, a, True)):
        if x.op == "ite" and y.op == "c" and is_c(x.a[1]) and is_c(x.a[2]):
            t = CMP[op](y.a[0], x.a[1].a[0]) if sw else CMP[op](x.a[1].a[0], y.a[0])
            e = CMP[op](y.a[0], x.a[2].a[0]) if sw else CMP[op](x.a[2].a[0], y.a[0])
            return lite(x.a[0], t, e)
    return mk("cmp", op, a, b)


def lite(c, t, e):
    if isinstance(t, bool) and isinstance(e, bool):
        if t == e:
            return t
        return c if t else lnot(c)
    return ite(c, t, e)


def lnot(a):
    if isinstance(a, bool):
        return not a
    if not isinstance(a, N):
        return not a
    if a.op == "c":
        return a.a[0] == 0
    if a.op == "not":
        return a.a[0]
    return mk("not", a)


def tobool(a):
    """normalise a scalar to bool-or-node condition"""
    if isinstance(a, bool):
        return a
    if isinstance(a, (int, Fraction)):
        return a != 0
    if isinstance(a, N):
        if a.op == "c":
            return a.a[0] != 0
        if a.op in ("cmp", "not", "and", "or", "isnan"):
            return a
        if a.op == "f" and a.a[0] in ("isnan", "isfinite", "isinf", "signbit"):
            return a
        if a.op == "ite":
            t, e = a.a[1], a.a[2]
            if t.op in ("c",) and e.op == "c":
                return lite(a.a[0], t.a[0] != 0, e.a[0] != 0)
            if t.op in ("c", "cmp", "not", "and", "or") and e.op in ("c", "cmp", "not", "and", "or"):
                tb, eb = tobool(t), tobool(e)
                return lor(land(a.a[0], tb), land(lnot(a.a[0]), eb))
        if a.op == "throw":
            return a
        return lnot(cmp("==", a, ZERO))
    return a


def land(a, b):
    if isinstance(a, bool):
        return b if a else False
    if isinstance(b, bool):
        return a if b else False
    if a is b:
        return a
    return mk("and", a, b)


def lor(a, b):
    if isinstance(a, bool):
        return True if a else b
    if isinstance(b, bool):
        return True if b else a
    if a is b:
        return a
    return mk("or", a, b)


def ite(c, t, e):
    if isinstance(c, bool):
        return t if c else e
    if t is e:
        return t
    if not isinstance(t, N) and not isinstance(e, N) and t == e and type(t) == type(e):
        return t
    t, e = tn(t), tn(e)
    if t is e:
        return t
    if c.op == "not":
        return ite(c.a[0], e, t)
    # |x|
    if c.op == "cmp" and c.a[0] in ("<", "<=") and is_neg_of(t, e):
        l, r = c.a[1], c.a[2]
        if l.op == "c" and l.a[0] == 0:      # 0 <= r
            if t is r:
                return abs_(r)
            if e is r:
                return neg(abs_(r))
        if r.op == "c" and r.a[0] == 0:      # l <= 0
            if e is l:
                return abs_(l)
            if t is l:
                return neg(abs_(l))
    # max / min
    if c.op == "cmp" and c.a[0] in ("<", "<="):
        l, r = c.a[1], c.a[2]
        if t is r and e is l:
            return fmax(l, r)
        if t is l and e is r:
            return fmin(l, r)
    return mk("ite", c, t, e)


def fmax(a, b):
    a, b = tn(a), tn(b)
    if a.op == "c" and b.op == "c":
        return const(max(a.a[0], b.a[0]))
    if a is b:
        return a
    if a.id > b.id:
        a, b = b, a
    return fn("max", a, b)


def fmin(a, b):
    a, b = tn(a), tn(b)
    if a.op == "c" and b.op == "c":
        return const(min(a.a[0], b.a[0]))
    if a is b:
        return a
    if a.id > b.id:
        a, b = b, a
    return fn("min", a, b)


def throw(msg):
    return mk("throw", msg)


def kids(n):
    return [x for x in n.a if isinstance(x, N)]


def topo(roots):
    """all nodes reachable from roots, children first"""
    seen = set()
    order = []
    stack = [(r, False) for r in reversed(list(roots))]
    while stack:
        n, done = stack.pop()
        if done:
            order.append(n)
            continue
        if n.id in seen:
            continue
        seen.add(n.id)
        stack.append((n, True))
        for k in n.a:
            if isinstance(k, N) and k.id not in seen:
                stack.append((k, False))
    return order


def variables(roots):
    return {n.a[0] for n in topo(roots) if n.op == "v"}


def substitute(roots, m):
    """rebuild roots with variables replaced; m: var-name -> node (or callable(name)->node|None)"""
    memo = {}
    get = m if callable(m) else m.get
    for n in topo(roots):
        if n.op == "v":
            r = get(n.a[0])
            memo[n.id] = n if r is None else tn(r)
        elif n.op in ("c", "throw"):
            memo[n.id] = n
        else:
            memo[n.id] = rebuild(n, [memo[x.id] if isinstance(x, N) else x for x in n.a])
    return [memo[r.id] for r in roots]


def rebuild(n, a):
    op = n.op
    save = cur_loc[0]
    cur_loc[0] = n.loc
    try:
        if op == "+":
            return add(*a)
        if op == "*":
            return mul(*a)
        if op == "/":
            return div(*a)
        if op == "cmp":
            r = cmp(*a)
            return r if isinstance(r, N) else const(int(r))
        if op == "not":
            r = lnot(tobool(a[0]))
            return r if isinstance(r, N) else const(int(r))
        if op == "and":
            r = land(tobool(a[0]), tobool(a[1]))
            return r if isinstance(r, N) else const(int(r))
        if op == "or":
            r = lor(tobool(a[0]), tobool(a[1]))
            return r if isinstance(r, N) else const(int(r))
        if op == "ite":
            return tn(ite(tobool(a[0]), a[1], a[2]))
        if op == "f":
            nm = a[0]
            if nm == "sqrt":
                return sqrt(a[1])
            if nm == "abs":
                return abs_(a[1])
            if nm == "log":
                return log(a[1])
            if nm == "max":
                return fmax(a[1], a[2])
            if nm == "min":
                return fmin(a[1], a[2])
        return mk(op, *a)
    finally:
        cur_loc[0] = save


def show(n, depth=6):
    if not isinstance(n, N):
        return str(n)
    if n.op == "c":
        v = n.a[0]
        return str(v) if v.denominator < 10**6 else repr(float(v))
    if n.op == "v":
        return n.a[0]
    if n.op == "throw":
        return "THROW"
    if depth <= 0:
        return "..."
    d = depth - 1
    if n.op in "+*/":
        return "(" + show(n.a[0], d) + n.op + show(n.a[1], d) + ")"
    if n.op == "cmp":
        return "(" + show(n.a[1], d) + n.a[0] + show(n.a[2], d) + ")"
    if n.op == "f":
        return n.a[0] + "(" + ",".join(show(x, d) for x in n.a[1:]) + ")"
    return n.op + "(" + ",".join(show(x, d) for x in n.a) + ")"


def multiple(n):
    """(c, x) if the sum n is c times one term x, else None"""
    tot, atom = Fraction(0), None
    stack = [(n, Fraction(1))]
    while stack:
        k, c = stack.pop()
        if k.op == "+":
            stack += [(k.a[0], c), (k.a[1], c)]
            continue
        while k.op == "*" and (k.a[0].op == "c" or k.a[1].op == "c"):
            i = 0 if k.a[0].op == "c" else 1
            c, k = c * k.a[i].a[0], k.a[1 - i]
        if k.op == "+" and c:
            stack.append((k, c))
            continue
        if atom is None:
            atom = k
        if k is not atom:
            return None
        tot += c
    return (tot, atom) if atom is not None and tot else None
