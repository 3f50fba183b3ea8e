"""P06: every piecewise loop function is one analytic function."""
from fractions import Fraction as Fr
import math
from hv import program, interp, graph as G, cells, taylor, series as SR, report
from hv.field import GF, Bad, P, Hpos, frac, inv, Undecided
from hv.graph import N

LEVEL = "other"
RULE = ("Abstract interpretation of every loop function into a gated value graph; for each singular stratum "
        "(arguments at 0, +1, -1, equal) and each closeness cell of the guards, the selected branch is compared with "
        "the generic branch in the domain of truncated power series over GF(p) (order of disagreement gives the "
        "truncation error at the cell's far end), its rounding-error order is computed (cancellation at the cell's near "
        "end), and divisions by exact zero / logs of non-positive values are reported. Symmetry, parity and "
        "normalisation are decided by global value numbering in GF(p).")
ASSUMPTIONS = ["truncation estimate of a cell is h^K with unit coefficient; rounding estimate 2e-16*h^e",
               "F1..F4: x >= 0; F8, F9: both arguments nonzero at once near 0 (their sum diverges there)"]
NS = "himalaya::mh2_eft::threshold_loop_functions::"
G1, G2 = Fr(17, 10), Fr(27, 10)
ORD1, ORD2 = 14, 26
EPS = 2.3e-16


def graph_of(P_, L, name, args):
    f = P_.fn(NS + name)
    L.need(f is not None, "loop function %s not found" % name)
    I = interp.Interp(P_)
    r = I.call(f, args)
    L.funcs |= set(getattr(x, "qn", str(x)) for x in I.funcs_seen)
    L.ob("total", name, not I.throws, f.get("loc", "") if isinstance(f, dict) else "", "may throw")
    return r


def hgrid(root, dense):
    hs = {Fr(10) ** -k for k in range(14, 0, -1)}
    for t in cells.thresholds(root):
        for q in (Fr(1, 2), Fr(9, 10), Fr(11, 10), Fr(98, 100), Fr(102, 100)):
            hs.add(t * q)
    hs |= {Fr(15, 1000), Fr(5, 1000), Fr(3, 100), Fr(2, 10), Fr(3, 1000), Fr(4, 1000), Fr(8, 1000), Fr(6, 100)}
    if dense:
        hs |= {Fr(a, 10) * Fr(10) ** -k for k in range(1, 7) for a in (2, 4, 7)}
    return sorted(h for h in hs if h <= Fr(1, 4))


def worst(d, key, val, info):
    if key not in d or val > d[key][0]:
        d[key] = (val, info)


def one_arg(P_, L, name, cs, tol_t, tol_r, dense):
    x = G.var("x")
    r = graph_of(P_, L, name, [x])
    where = loc(P_, name)
    gens = {s: cells.resolve(r, cells.Num(lambda nm: s * G1).cond) for s in (1, -1)}
    for c in cs:
        memo = {}
        w = {}
        for sg in (1, -1):
            if c == 0 and sg < 0 and 'm' not in dom(name):
                continue
            for h in [Fr(0)] + hgrid(r, True):
                X = c + sg * h
                num = cells.Num(lambda nm: X)
                leaf = cells.resolve(r, num.cond)
                gen = gens[1 if X >= 0 or 'm' not in dom(name) else -1]
                sing = taylor.exact_singular(leaf, num)
                worst(w, "S", 1 if sing else 0, "x=%s: %s" % (float(X), G.show(sing[0], 3) if sing else ""))
                if sing or h == 0:
                    if h == 0 and not sing and c == 0:
                        # exact value at the point: leading coefficient of the generic branch
                        pass
                    continue
                k = (leaf.id, gen.id)
                if k not in memo:
                    ser = SR.Series(ORD1, lambda nm: SR.eps_series(c, 1, ORD1))
                    try:
                        a, b = ser.val(leaf), ser.val(gen)
                        memo[k] = SR.diff_order(a, b)[0], taylor.Err(ser).of(leaf)
                    except Bad as ex:
                        memo[k] = ("BAD", str(ex))
                K, e = memo[k]
                if K == "BAD":
                    worst(w, "S", 1, "x=%s: %s" % (float(X), e))
                    continue
                worst(w, "T", float(h) ** K if K is not None else 0.0,
                      "|x-(%s)|=%.3g side %+d: branch agrees with the generic branch only to O(h^%s)" % (c, h, sg, K))
                worst(w, "R", 2e-16 * float(h) ** min(e, 50),
                      "|x-(%s)|=%.3g: rounding error order h^%s" % (c, h, e))
        emit(L, name, "x=%s" % c, w, where, tol_t, tol_r)
    return r


def emit(L, name, stratum, w, where, tol_t, tol_r):
    key = "%s at %s" % (name, stratum)
    if "S" in w:
        L.ob("regular", key, w["S"][0] == 0, where, "singular operation in the selected branch: " + w["S"][1])
    if "T" in w:
        L.ob("branch-agreement", key, w["T"][0] <= tol_t, where,
             "%s; estimated jump %.1e > %.0e" % (w["T"][1], w["T"][0], tol_t))
    if "R" in w:
        L.ob("cancellation", key, w["R"][0] <= tol_r, where,
             "%s; estimated error %.1e > %.0e" % (w["R"][1], w["R"][0], tol_r))


def dom(name):
    return {"F1": "p", "F2": "p", "F3": "p", "F4": "p"}.get(name, "m")


def loc(P_, name):
    f = P_.fn(NS + name)
    try:
        return "%s:%s" % (f.file.split("/repo/")[-1], f.line)
    except Exception:
        return name


def two_arg(P_, L, name, dense):
    x, y = G.var("x"), G.var("y")
    r = graph_of(P_, L, name, [x, y])
    where = loc(P_, name)
    gen = cells.resolve(r, cells.Num(lambda nm: G1 if nm == "x" else G2).cond)
    lows = name in ("F8", "F9")
    cset = (0, 1, "g") if lows else (0, 1, -1, "g")
    strata = [(a, b) for a in cset for b in cset if (a, b) != ("g", "g")] + [("g", "=")]
    hs = [Fr(0)] + hgrid(r, dense)
    if not dense:
        ks = [Fr(10) ** -k for k in range(14, 0, -1)]
        hs = [Fr(0)] + sorted(set(ks) | {Fr(15, 1000), Fr(5, 1000), Fr(3, 100)} |
                              {t * q for t in cells.thresholds(r) for q in (Fr(98, 100), Fr(102, 100))})
        hs = [h for h in hs if h <= Fr(1, 4)]
    memo = {}
    for c1, c2 in strata:
        w = {}
        if lows and (c1, c2) == (0, 0):
            continue
        for h1 in (hs if c1 != "g" else [None]):
            for h2 in (hs if c2 != "g" else [None]):
                if name == "F8" and ((c1 == 0 and not h1) or (c2 == 0 and not h2)):
                    pass
                X = (c1 if c1 != "g" else G1) + (h1 or 0)
                if c2 == "=":
                    Y = X + h2
                else:
                    Y = (c2 if c2 != "g" else G2) + (h2 or 0) * Fr(73, 100)
                num = cells.Num(lambda nm: X if nm == "x" else Y)
                leaf = cells.resolve(r, num.cond)
                sing = taylor.exact_singular(leaf, num)
                worst(w, "S", 1 if sing else 0, "(%s, %s): %s" % (float(X), float(Y), G.show(sing[0], 3) if sing else ""))
                if sing:
                    continue
                a1 = float(h1) if h1 else None
                a2 = float(h2) if h2 else None
                big = max([a for a in (a1, a2) if a] or [0])
                if not big:
                    continue

                def p(a):
                    if a is None:
                        return 7
                    return max(1, min(6, round(math.log(a) / math.log(big)))) if big < 0.9 else 1
                vx = SR.const(Hpos("gx"), ORD2) if c1 == "g" else SR.add(
                    SR.eps_series(c1, 0, ORD2), taylor.powvar(ORD2, p(a1), Hpos("a")))
                if c2 == "=":
                    vy = SR.add(vx, taylor.powvar(ORD2, p(a2), Hpos("b")))
                elif c2 == "g":
                    vy = SR.const(Hpos("gy"), ORD2)
                else:
                    vy = SR.add(SR.eps_series(c2, 0, ORD2), taylor.powvar(ORD2, p(a2), Hpos("b")))
                key = (leaf.id, c1, c2, p(a1) if a1 else 0, p(a2) if a2 else 0)
                if key not in memo:
                    ser = SR.Series(ORD2, lambda nm: vx if nm == "x" else vy)
                    try:
                        A, B = ser.val(leaf), ser.val(gen)
                        memo[key] = (SR.diff_order(A, B)[0], taylor.Err(ser).of(leaf))
                    except Bad as ex:
                        memo[key] = ("BAD", str(ex))
                K, e = memo[key]
                if K == "BAD":
                    worst(w, "S", 1, "(%s, %s): %s" % (float(X), float(Y), e))
                    continue
                worst(w, "T", big ** K if K is not None else 0.0,
                      "distances (%s, %s): agrees with the generic branch only to O(h^%s)" % (a1, a2, K))
                if (c1 == "g" or h1) and (c2 == "g" or h2):
                    worst(w, "R", 2e-16 * big ** min(e, 50), "distances (%s, %s): rounding error order h^%s" % (a1, a2, e))
        tol_t = 2e-4 if 0 in (c1, c2) else 1e-7
        emit(L, name, "(%s,%s)" % (c1, c2), w, where, tol_t, 2e-8)
    return r


from hv.field import equal


def run(L):
    dense = L.tier == "thorough"
    P_ = program.Program()
    one = {}
    for n in ("F1", "F2", "F3", "F4", "F5", "F6", "F7", "f", "g", "f1", "f2", "f3", "f4"):
        cs = (0, 1) if dom(n) == "p" else (0, 1, -1)
        one[n] = one_arg(P_, L, n, cs, 1e-9, 5e-9, dense)
    two = {}
    for n in ("F8", "F9", "f5", "f6", "f7", "f8"):
        two[n] = two_arg(P_, L, n, dense)
    # normalisation at the symmetric point, aliases, symmetry, parity of the generic branch
    x, y = G.var("x"), G.var("y")
    at = lambda v: cells.Num(lambda nm: v if nm == "x" else G2)
    for n, r in one.items():
        v = None
        try:
            v = cells.Num(lambda nm: Fr(1)).val(cells.resolve(r, at(Fr(1)).cond))
        except cells.NoValue:
            pass
        t = 0 if n == "F6" else 1
        L.ob("normalisation", "%s(1) = %d" % (n, t), v is not None and abs(float(v) - t) < 1e-9, loc(P_, n), "value %s" % v)
    for n, r in two.items():
        num = cells.Num(lambda nm: Fr(1))
        v = num.val(cells.resolve(r, num.cond))
        L.ob("normalisation", "%s(1,1) = 1" % n, abs(float(v) - 1) < 1e-9, loc(P_, n), "value %s" % v)
    for a, b in (("f", "F5"), ("g", "F7")):
        ga = cells.resolve(one[a], at(G1).cond)
        gb = cells.resolve(one[b], at(G1).cond)
        L.ob("alias", "%s = %s" % (a, b), equal(ga, gb), loc(P_, a), "generic branches differ")
    for n, s in (("f5", 1), ("f6", 1), ("f7", 1), ("f8", -1)):
        gen = cells.resolve(two[n], cells.Num(lambda nm: G1 if nm == "x" else G2).cond)
        sw = G.substitute([gen], {"x": y, "y": x})[0]
        L.ob("exchange-symmetry", n, equal(gen, sw), loc(P_, n), "generic branch not symmetric")
        mm = G.substitute([gen], {"x": G.neg(x), "y": G.neg(y)})[0]
        L.ob("parity", n, equal(mm, gen if s > 0 else G.neg(gen)), loc(P_, n), "f(-r1,-r2) != %+d f(r1,r2)" % s)
    for n in ("F8", "F9"):
        gen = cells.resolve(two[n], cells.Num(lambda nm: G1 if nm == "x" else G2).cond)
        sw = G.substitute([gen], {"x": y, "y": x})[0]
        L.ob("exchange-symmetry", n, equal(gen, sw), loc(P_, n), "generic branch not symmetric")
        mm = G.substitute([gen], {"x": G.neg(x), "y": G.neg(y)})[0]
        L.ob("parity", n, equal(mm, gen), loc(P_, n), "generic branch depends on a sign of its arguments")
    L.extra["strata"] = "one-argument: 0, 1, -1; two-argument: all pairs of {0,1,-1,generic} and r1=r2"
