"""Taylor coefficients of a value graph in one variable, as value graphs (jets at the variable = 0)."""
from fractions import Fraction as Fr
from . import graph as G
from .graph import N
from .field import Bad, Undecided

Z = G.const(0)


def zero(x):
    return x.op == "c" and x.a[0] == 0


def _mul(a, b, n):
    out = [Z] * (n + 1)
    for i, x in enumerate(a):
        if not zero(x):
            for j in range(n + 1 - i):
                if not zero(b[j]):
                    out[i + j] = G.add(out[i + j], G.mul(x, b[j]))
    return out


def _div(a, b, n):
    if zero(b[0]):
        raise Bad("jet: division by a quantity that vanishes at the expansion point")
    out = []
    for k in range(n + 1):
        s = a[k]
        for j in range(1, k + 1):
            if not zero(b[j]) and not zero(out[k - j]):
                s = G.sub(s, G.mul(b[j], out[k - j]))
        out.append(Z if zero(s) else G.div(s, b[0]))
    return out


def _sqrt(a, n):
    if zero(a[0]):
        raise Bad("jet: square root of a quantity that vanishes at the expansion point")
    out = [G.sqrt(a[0])]
    for k in range(1, n + 1):
        s = a[k]
        for j in range(1, k):
            s = G.sub(s, G.mul(out[j], out[k - j]))
        out.append(Z if zero(s) else G.div(s, G.mul(G.const(2), out[0])))
    return out


def _log(a, n):
    # k L_k = k u_k - sum_{j<k} j L_j u_{k-j}   with u = a/a0
    u = [Z if zero(x) else G.div(x, a[0]) for x in a]
    out = [G.log(a[0])]
    for k in range(1, n + 1):
        s = G.mul(G.const(k), u[k])
        for j in range(1, k):
            s = G.sub(s, G.mul(G.mul(G.const(j), out[j]), u[k - j]))
        out.append(Z if zero(s) else G.div(s, G.const(k)))
    return out


def jets(roots, var, n, cond=None):
    """list of [c0..cn] per root; conditions that depend on var are not supported unless decided by cond(node)"""
    memo = {}
    zs = [Z] * n
    for x in G.topo(roots):
        op = x.op
        if op == "v":
            memo[x.id] = [Z, G.const(1)] + [Z] * (n - 1) if x.a[0] == var else [x] + zs
            continue
        ks = [memo[c.id] for c in x.a if isinstance(c, N)]
        if all(all(zero(y) for y in k[1:]) for k in ks):
            if all(k[0] is c for k, c in zip(ks, [c for c in x.a if isinstance(c, N)])):
                memo[x.id] = [x] + zs
            else:
                memo[x.id] = [G.rebuild(x, [memo[c.id][0] if isinstance(c, N) else c for c in x.a])] + zs
            continue
        if op == "+":
            r = [G.add(p, q) for p, q in zip(*ks)]
        elif op == "*":
            r = _mul(ks[0], ks[1], n)
        elif op == "/":
            r = _div(ks[0], ks[1], n)
        elif op == "ite":
            c = ks[0]
            if any(not zero(y) for y in c[1:]):
                raise Undecided(x.a[0])
            r = [G.ite(c[0], p, q) if p is not q else p for p, q in zip(ks[1], ks[2])]
        elif op == "f" and x.a[0] == "sqrt":
            r = _sqrt(ks[0], n)
        elif op == "f" and x.a[0] == "log":
            r = _log(ks[0], n)
        else:
            raise Bad("jet of %s" % (x.a[0] if op == "f" else op))
        memo[x.id] = r
    return [memo[r.id] for r in roots]
