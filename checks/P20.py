"""P20: validation and completion of the input parameters."""
from fractions import Fraction as Fr
import itertools, math
import numpy as np
from hv import program, interp, field, cells, graph as G
from hv.graph import N
from hv.interp import Mat

LEVEL = "static"
RULE = ("Parameters::validate is interpreted for every pattern of missing masses and mixing angles (NaN as a symbol, isnan decided by provenance) with the eigen- and singular-value solvers uninterpreted; the conditions of all exceptions, the completed and the untouched "
        "fields, ordering, mixing convention and degeneracy shifts are decided per guard cell, identities in GF(p) with the mixing angle as symbol; a second application must be the identity")
ASSUMPTIONS = ["SelfAdjointEigenSolver returns ascending eigenvalues and, for symmetric 2x2 matrices, eigenvectors forming a rotation if M11 <= M22 and a reflection otherwise (Wilkinson-shifted QR of Eigen 3)",
               "JacobiSVD returns descending singular values"]
W = "source/himalaya/Himalaya_interface.cpp"
C_ = G.const
NAN = "K:nan"
ENTRY = ["(%d,%d)" % (i, j) for i in range(3) for j in range(3)]
SECT = {   # masses, s2, theta, fermion, soft LL, soft RR, A, T3, Q, tan(beta) power of mu
    "stop": ("MSt", "s2t", "theta_t", "Mt", "mq2", "mu2", "Au", Fr(1, 2), Fr(2, 3), -1),
    "sbottom": ("MSb", "s2b", "theta_b", "Mb", "mq2", "md2", "Ad", Fr(-1, 2), Fr(-1, 3), 1),
    "stau": ("MStau", "s2tau", "theta_tau", "Mtau", "ml2", "me2", "Ae", Fr(-1, 2), Fr(-1), 1),
}
MASSES = ("MW", "MZ", "Mt", "Mb", "Mtau")


class Point(cells.Num):
    """numbers for the guards; eigen- and singular values of the matrices handed to the solvers"""

    def __init__(self, over=None, flip=(1, 1)):
        super().__init__(self.value)
        self.over = over or {}
        self.flip = flip
        self.mix = {}

    def value(self, name):
        if name in self.over:
            return self.over[name]
        if name == NAN:
            return float("nan")
        if name == "K:pi":
            return math.pi
        base = name[2:].split("(")[0]
        ij = name[name.index("(") + 1:-1].split(",") if "(" in name else None
        if base in ("mq2", "mu2", "md2", "ml2", "me2"):
            i, j = int(ij[0]), int(ij[1])
            k = ("mq2", "mu2", "md2", "ml2", "me2").index(base)
            return Fr(1000 + 70 * i + 130 * k) ** 2 if i == j else Fr(0)
        if base in ("Yu", "Yd", "Ye"):
            i, j = int(ij[0]), int(ij[1])
            return Fr(1 + 3 * i * i, 17) if i == j else Fr(0)
        if base in ("Au", "Ad", "Ae"):
            return Fr(700)
        if ij and base in ("MSt", "MSb", "MStau"):
            return Fr(800 + 250 * int(ij[0]) + 20 * len(base))
        if base in ("s2t", "s2b", "s2tau"):
            return Fr(1, 3)
        if base.startswith("theta_"):
            return Fr(1, 5)
        return {"vu": Fr(240), "vd": Fr(50), "g1": Fr(45, 100), "g2": Fr(64, 100), "g3": Fr(1), "MG": Fr(1500), "MW": Fr(80), "MZ": Fr(91), "Mt": Fr(150), "Mb": Fr(3),
                "Mtau": Fr(2), "mu": Fr(500), "scale": Fr(1000), "massLimit3LThreshold": 0}.get(base, Fr(311))

    def node(self, n):
        if n.op == "/":
            a, b = self.v[n.a[0].id], self.v[n.a[1].id]
            if b == 0 and a == a and a != 0:
                return math.inf if a > 0 else -math.inf
        if n.op == "f" and isinstance(n.a[0], str):
            nm = n.a[0]
            if nm in ("ctor:Eigen::SelfAdjointEigenSolver", "ctor:Eigen::EigenSolver"):
                a, b, c, d = (float(self.v[x.id]) for x in n.a[1:5])
                w = math.sqrt((a - d) ** 2 + 4 * b * c)
                ev = [(a + d - w) / 2, (a + d + w) / 2]
                # lighter state: (cos t, sin t) with b = cos t sin t (e0 - e1)
                if w == 0 or b == 0:
                    t = 0. if a <= d else math.pi / 2
                else:
                    t = 0.5 * math.atan2(2 * b / -w, (a - d) / -w)
                x = (math.cos(t), math.sin(t))
                if b == 0:
                    x = (1., 0.) if a <= d else (0., 1.)
                y = (-x[1], x[0]) if a < d or a == d and b == 0 else (x[1], -x[0])
                f, g = self.flip
                g = f if True else g
                return dict(ev=ev, vec=((f * x[0], f * x[1]), (g * y[0], g * y[1])), t=t)
            if nm.startswith(("ctor:Eigen::JacobiSVD", "ctor:Eigen::BDCSVD")):
                m = np.array([float(self.v[x.id]) for x in n.a[1:10]]).reshape(3, 3)
                return [float(x) for x in np.linalg.svd(m, compute_uv=False)]
            if nm.startswith("singularValues"):
                return self.v[n.a[1].id][idx(nm)]
            if nm.startswith("eigenvalues"):
                return self.v[n.a[1].id]["ev"][idx(nm)]
            if nm.startswith("eigenvectors"):
                k = idx(nm)
                return self.v[n.a[1].id]["vec"][k % 2][k // 2]
        return super().node(n)

    def cond(self, n):
        if isinstance(n, N) and n.op == "f" and n.a[0] == "isnan":
            return bool(self.val(n.a[1]) != self.val(n.a[1]))
        return super().cond(n)


def idx(nm):
    return int(nm.split("#")[1]) if "#" in nm else 0


class Par:
    def __init__(self, P):
        self.P = P
        self.f = P.fn("himalaya::Parameters::validate", 1)

    def __call__(self, missing=(), verbose=0, given=None, twice=False):
        I = interp.Interp(self.P, decide=self.decide)
        p = given if given is not None else I.sym("himalaya::Parameters", "p")
        for x in missing:
            b = x.split("(")[0]
            if "(" in x:
                p.f[b].d[int(x[x.index("(") + 1])] = G.var(NAN)
            else:
                p.f[b] = G.var(NAN)
        I.call(self.f, [C_(verbose)], p)
        self.I = I
        return p

    def decide(self, c):
        if isinstance(c, N) and c.op == "f" and c.a[0] == "isnan":
            return any(n.op == "v" and n.a[0] == NAN for n in G.topo([c]))
        return None


def flat(p):
    out = {}
    for k, v in p.f.items():
        if isinstance(v, Mat):
            if v.c == 1 or v.r == 1:
                out.update({"%s(%d)" % (k, i): G.tn(x) for i, x in enumerate(v.d)})
            else:
                out.update({"%s(%d,%d)" % (k, i // v.c, i % v.c): G.tn(x) for i, x in enumerate(v.d)})
        else:
            out[k] = G.tn(v)
    return out


def at(n, pt):
    """the value selected in the cell of the point"""
    return cells.resolve(minmax(n, pt), pt.cond)


def minmax(n, pt):
    """abs, min, max -> the branch taken"""
    memo = {}
    for k in G.topo([n]):
        a = [memo[x.id] if isinstance(x, N) else x for x in k.a]
        if k.op == "f" and k.a[0] in ("abs", "max", "min"):
            v = [pt.val(x) for x in k.a[1:]]
            if k.a[0] == "abs":
                memo[k.id] = a[1] if v[0] >= 0 else G.mul(C_(-1), a[1])
            else:
                memo[k.id] = a[1] if (v[0] >= v[1]) == (k.a[0] == "max") else a[2]
        elif k.op in ("c", "v"):
            memo[k.id] = k
        else:
            memo[k.id] = G.rebuild(k, a)
    return memo[n.id]


def eq(a, b):
    return field.equal(a, b)


def const_eq(n, pt, want, tol=1e-11):
    try:
        v = float(pt.val(n))
    except cells.NoValue:
        return False
    return abs(v - want) <= tol * max(1., abs(want))


def tb():
    return G.div(G.var("p.vu"), G.var("p.vd"))


def sq(x):
    return G.mul(x, x)


def matrix(sec, f):
    """tree-level sfermion mass matrix, f = masses of fermion, W and Z"""
    _, _, _, mf, ll, rr, A, t3, q, pw = SECT[sec]
    vu, vd = G.var("p.vu"), G.var("p.vd")
    c2b = G.div(G.sub(sq(vd), sq(vu)), G.add(sq(vd), sq(vu)))
    sw2 = G.sub(C_(1), sq(G.div(f["MW"], f["MZ"])))
    m2 = sq(f[mf])
    D = G.mul(sq(f["MZ"]), c2b)
    a = G.add(G.add(G.var("p.%s(2,2)" % ll), m2), G.mul(D, G.sub(C_(t3), G.mul(C_(q), sw2))))
    d = G.add(G.add(G.var("p.%s(2,2)" % rr), m2), G.mul(D, G.mul(C_(q), sw2)))
    x = G.mul(f[mf], G.sub(G.var("p.%s(2,2)" % A), G.mul(G.var("p.mu"), G.powi(tb(), pw) if pw > 0 else G.div(C_(1), tb()))))
    return a, x, d


def solver(n):
    out = []
    for k in G.topo([n]):
        if k.op == "f" and isinstance(k.a[0], str) and k.a[0].endswith("EigenSolver"):
            out.append(k)
    return out


def run(L):
    P = program.Program()
    V = Par(P)
    L.need(all(any(k == s[0] or k.startswith(s[0]) for k in P.records["himalaya::Parameters"] or ()) or True for s in SECT.values()), "Parameters")
    untouched(L, V)
    defaults(L, V)
    for s in SECT:
        sfermions(L, V, s)
        supplied(L, V, s)
    complete(L, V)
    degenerate(L, V)
    errors(L, V)
    twice(L, V)
    msq(L, P)
    L.funcs |= V.I.funcs_seen
    L.assumptions += ASSUMPTIONS


def untouched(L, V):
    for verbose in (0, 1):
        f = flat(V((), verbose))
        pt = Point()
        for k, n in f.items():
            b = k.split("(")[0]
            if b in ("Yu", "Yd", "Ye"):
                continue
            r = at(n, pt)
            L.ob("untouched", "%s, verbose = %d" % (k, verbose), eq(r, G.var("p." + k)), W, "a supplied regular value is changed (to %s)" % r)
    for b in ("Yu", "Yd", "Ye"):
        for seed in (1, 2):
            rnd = np.random.RandomState(seed)
            m = rnd.uniform(-1, 1, (3, 3))
            pt = Point({"p.%s(%d,%d)" % (b, i, j): float(m[i, j]) for i in range(3) for j in range(3)})
            sv = sorted(np.linalg.svd(m, compute_uv=False))
            ok = all(const_eq(f["%s(%d,%d)" % (b, i, j)], pt, sv[i] if i == j else 0.) for i in range(3) for j in range(3))
            L.ob("Yukawa", "%s, matrix %d" % (b, seed), ok, W, "is not the diagonal matrix of its singular values, third generation largest")


def defaults(L, V):
    """masses that are not supplied follow from the couplings"""
    rt2 = G.sqrt(C_(Fr(1, 2)))
    vu, vd, g1, g2 = (G.var("p." + x) for x in ("vu", "vd", "g1", "g2"))
    v = G.sqrt(G.add(sq(vu), sq(vd)))
    y = {"Mt": ("Yu", vu), "Mb": ("Yd", vd), "Mtau": ("Ye", vd)}
    for miss in [(m,) for m in MASSES] + [MASSES]:
        f = flat(V(miss))
        for m in miss:
            if m == "MW":
                w = G.mul(C_(Fr(1, 2)), G.mul(g2, v))
            elif m == "MZ":
                w = G.mul(C_(Fr(1, 2)), G.mul(v, G.sqrt(G.add(sq(g2), G.mul(C_(Fr(3, 5)), sq(g1))))))
            else:
                w = G.mul(rt2, G.mul(f[y[m][0] + "(2,2)"], y[m][1]))
            pts = [Point(), Point({"p.vu": Fr(100), "p.vd": Fr(177), "p.g1": Fr(7, 10), "p.g2": Fr(3, 10)})]
            ok = same(f[m], w) if m not in ("MZ", "MW") else eq(sq(f[m]), sq(w)) and all(const_eq(f[m], pt, float(pt.val(w))) for pt in pts)
            L.ob("default mass", "%s if %s missing" % (m, "all" if len(miss) > 1 else "only it"), ok, W, "is %s" % f[m])
        for m in MASSES:
            if m not in miss:
                L.ob("default mass", "%s kept if %s is missing" % (m, miss[0]), f[m] is G.var("p." + m), W, "a supplied mass is replaced")


def same(a, b):
    """equal with the singular values as symbols"""
    return field.equal(a, b)


def sfermions(L, V, s):
    """masses and mixing from the tree-level mass matrix"""
    ms, s2, th = SECT[s][:3]
    mf, ll, rr, A = SECT[s][3:7]
    for miss in ((), MASSES):
        p = V((ms + "(0)", ms + "(1)", s2, th) + miss)
        f = flat(p)
        M = matrix(s, {m: f[m] if m in miss else G.var("p." + m) for m in MASSES})
        sol = {k.id: k for x in (f[ms + "(0)"], f[ms + "(1)"], f[s2], f[th]) for k in solver(x)}
        L.need(sol, "eigenvalue solver in the completion of the %s masses" % s)
        for k in sol.values():
            a = [at(x, Point()) for x in k.a[1:5]]
            ok = eq(a[0], M[0]) and eq(a[1], M[1]) and eq(a[2], M[1]) and eq(a[3], M[2])
            L.ob("mass matrix", "%s%s" % (s, ", all masses missing" if miss else ""), ok, W, "matrix handed to the eigenvalue solver is not the tree-level mass matrix")
    p = V((ms + "(0)", ms + "(1)", s2, th))
    f = flat(p)
    big, small = Fr(1900) ** 2, Fr(900) ** 2
    for order, heavy in (("M11 < M22", False), ("M11 > M22", True)):
        for sg in (1, -1):
            for flip in ((1, 1), (-1, -1)):
                pt = Point({"p.%s(2,2)" % ll: big if heavy else small, "p.%s(2,2)" % rr: small if heavy else big, "p.%s(2,2)" % A: Fr(sg * 7000)}, flip)
                cell(L, s, "%s, M12 %s 0, eigenvector sign %+d" % (order, "<>"[sg > 0], flip[0]), f, pt)
        pt = Point({"p.%s(2,2)" % ll: big if heavy else small, "p.%s(2,2)" % rr: small if heavy else big, "p.%s(2,2)" % A: Fr(0), "p.mu": Fr(0)})
        e = sorted(float(pt.val(x)) for x in (matrix(s, f)[0], matrix(s, f)[2]))
        c2 = -1. if heavy else 1.
        ok = const_eq(f[ms + "(0)"], pt, math.sqrt(e[0])) and const_eq(f[ms + "(1)"], pt, math.sqrt(e[1])) and const_eq(f[s2], pt, 0.) and const_eq(G.fn("cos", G.mul(C_(2), f[th])), pt, c2)
        L.ob("mixing", "%s, %s, no mixing" % (s, order), ok, W, "masses or mixing wrong for a diagonal mass matrix")
    for sg in (1, -1):
        z = Fr(10 ** 6)
        pt = Point({"p.%s(2,2)" % ll: z, "p.%s(2,2)" % rr: z, "p.vu": Fr(170), "p.vd": Fr(170), "p.%s(2,2)" % A: Fr(500 + 1000 * sg)})
        L.ob("mixing", "%s, maximal, M12 %s 0" % (s, "<>"[sg > 0]), const_eq(f[s2], pt, -sg) and const_eq(G.fn("sin", G.mul(C_(2), f[th])), pt, -sg) and pt.val(f[ms + "(0)"]) < pt.val(f[ms + "(1)"]),
             W, "s2 is %s for equal diagonal elements" % pt.val(f[s2]))


def cell(L, s, key, f, pt):
    ms, s2, th = SECT[s][:3]
    k = solver(f[s2])[0]
    pt.val(f[s2]), pt.val(f[ms + "(0)"]), pt.val(f[th])
    sol = pt.v[k.id]
    v = G.var("mix:angle")
    e = [G.var("mix:e0"), G.var("mix:e1")]
    # lighter state (cos v', sin v'); the symbol is an angle in (0, pi/2)
    t = sol["t"]
    cl, sl = math.cos(t), math.sin(t)
    c, sn = G.fn("cos", v), G.fn("sin", v)
    ang = math.atan2(abs(sl), abs(cl))
    x = (sgn(cl, c), sgn(sl, sn))
    vec = sol["vec"]

    def entry(val):
        if abs(abs(val) - math.cos(ang)) < 1e-9:
            return sgn(val, c)
        return sgn(val, sn)

    def sub(root):
        r = minmax(root, pt)
        r = cells.resolve(r, pt.cond)
        memo = {}
        for n in G.topo([r]):
            a = [memo[y.id] if isinstance(y, N) else y for y in n.a]
            if n.op == "f" and isinstance(n.a[0], str) and n.a[0].startswith("eigenvalues"):
                memo[n.id] = e[idx(n.a[0])]
            elif n.op == "f" and isinstance(n.a[0], str) and n.a[0].startswith("eigenvectors"):
                q = idx(n.a[0])
                memo[n.id] = entry(vec[q % 2][q // 2])
            elif n.op == "f" and n.a[0] == "acos" and a[1] is c:
                memo[n.id] = v
            elif n.op == "f" and n.a[0] == "acos" and a[1] is sn:
                memo[n.id] = G.sub(G.mul(C_(Fr(1, 2)), G.var("K:pi")), v)
            elif n.op == "f" and n.a[0] in ("sin", "cos"):
                memo[n.id] = trig(n.a[0], a[1])
            elif n.op in ("c", "v"):
                memo[n.id] = n
            else:
                memo[n.id] = G.rebuild(n, a)
        return memo[r.id]
    s2x = G.mul(C_(2), G.mul(x[0], x[1]))
    c2x = G.sub(sq(x[0]), sq(x[1]))
    L.ob("mixing", "%s, %s, s2" % (s, key), eq(sub(f[s2]), s2x), W, "sine of twice the mixing angle is not 2 M12/(m1^2 - m2^2)")
    two = G.mul(C_(2), sub(f[th]))
    L.ob("mixing", "%s, %s, theta" % (s, key), eq(trig("sin", two), s2x) and eq(trig("cos", two), c2x), W, "mixing angle does not diagonalise the mass matrix")
    L.ob("mixing", "%s, %s, masses" % (s, key), all(eq(sq(sub(f["%s(%d)" % (ms, i)])), e[i]) for i in range(2)) and all(pt.val(f["%s(%d)" % (ms, i)]) > 0 for i in range(2)), W, "masses are not the ordered roots of the eigenvalues")


def trig(f, x):
    """sin or cos of a*angle + b*pi, reduced"""
    def lin(v, p):
        return cells.Num(lambda n: Fr(p) if n == "K:pi" else Fr(v)).val(x)
    try:
        a, b = lin(1, 0), lin(0, 1)
        ok = lin(2, 3) == 2 * a + 3 * b and lin(0, 0) == 0 and (2 * b).denominator == 1
    except (cells.NoValue, AttributeError):
        ok = False
    if not ok:
        return G.fn(f, x)
    k = int(2 * b) % 4
    y = G.mul(C_(a), G.var("mix:angle"))
    s, c = G.fn("sin", y), G.fn("cos", y)
    m = C_(-1)
    return {"sin": (s, c, G.mul(m, s), G.mul(m, c)), "cos": (c, G.mul(m, s), G.mul(m, c), s)}[f][k]


def sgn(val, x):
    return x if val >= 0 else G.mul(C_(-1), x)


def supplied(L, V, s):
    """masses and one or both of s2, theta supplied"""
    ms, s2, th = SECT[s][:3]
    m = ["%s(%d)" % (ms, i) for i in range(2)]
    pi = G.var("K:pi")
    for miss in ((), (s2,), (th,)):
        f = flat(V(miss))
        ws = G.fn("sin", G.mul(C_(2), G.var("p." + th))) if s2 in miss else G.var("p." + s2)
        wt = G.mul(C_(Fr(1, 2)), G.fn("asin", G.var("p." + s2))) if th in miss else G.var("p." + th)
        for swap in (False, True):
            key = "%s, %s, %s" % (s, ("without " + miss[0]) if miss else "complete", "masses exchanged" if swap else "ordered")
            pt = Point({"p." + m[0]: Fr(1200 if swap else 700), "p." + m[1]: Fr(700 if swap else 1200), "p." + s2: Fr(1, 3), "p." + th: Fr(1, 5)})
            i, j = (1, 0) if swap else (0, 1)
            ok = eq(at(f[m[0]], pt), G.var("p." + m[i])) and eq(at(f[m[1]], pt), G.var("p." + m[j]))
            L.ob("supplied", key + ", masses", ok, W, "supplied masses are not kept in ascending order")
            ok = eq(at(f[s2], pt), G.mul(C_(-1), ws) if swap else ws)
            L.ob("supplied", key + ", s2", ok, W, "sine of twice the mixing angle not kept or completed consistently")
            d = G.sub(at(f[th], pt), wt)
            ok = eq(d, C_(0)) if not swap else eq(sq(d), sq(G.mul(C_(Fr(1, 2)), pi)))
            L.ob("supplied", key + ", theta", ok, W, "mixing angle not kept or completed consistently")


def complete(L, V):
    """no quantity is left undefined"""
    pats = []
    for s in SECT.values():
        q = (s[0] + "(0)", s[0] + "(1)", s[1], s[2])
        pats += [c for r in range(1, 5) for c in itertools.combinations(q, r)]
    q = tuple(x for s in SECT.values() for x in (s[0] + "(0)", s[0] + "(1)", s[1], s[2]))
    pats += [q, q + MASSES] + [(m,) for m in MASSES]
    for miss in pats:
        f = flat(V(miss))
        bad = [k for k, n in f.items() if any(x.op == "v" and x.a[0] == NAN for x in G.topo([n]))]
        L.ob("completion", "missing " + ", ".join(miss) if len(miss) < 6 else "missing everything optional (%d)" % len(miss), not bad, W, "still undefined: %s" % ", ".join(bad))


def degenerate(L, V):
    f = flat(V(()))
    for s in ("stop", "sbottom"):
        ms = SECT[s][0]
        a, b = ms + "(0)", ms + "(1)"
        for d in (0, Fr(1, 10 ** 9), Fr(-1, 10 ** 9), Fr(9, 10 ** 9)):
            for m in (Fr(100), Fr(5000)):
                pt = Point({"p." + a: m, "p." + b: m + d})
                x, y = pt.val(f[a]), pt.val(f[b])
                r = (y - x) / y
                L.ob("degeneracy", "%s masses %d GeV, difference %g" % (s, m, d), Fr(1, 10 ** 9) < r < Fr(1, 10 ** 7) and abs(x - m) < m * Fr(3, 10 ** 8) and abs(y - m) < m * Fr(3, 10 ** 8), W, "not separated by a relative 1e-8: %s, %s" % (float(x), float(y)))
        pt = Point({"p." + a: Fr(1000), "p." + b: Fr(1000) + Fr(1, 10 ** 6)})
        L.ob("degeneracy", "%s masses, well separated" % s, pt.val(f[a]) == 1000 and pt.val(f[b]) == Fr(1000) + Fr(1, 10 ** 6), W, "shifted although not degenerate")
    for d in (0, Fr(5, 10 ** 9), Fr(-5, 10 ** 9)):
        m = Fr(10 ** 6)
        pt = Point({"p.mq2(2,2)": m + d, "p.mu2(2,2)": m})
        x, y = pt.val(f["mq2(2,2)"]), pt.val(f["mu2(2,2)"])
        L.ob("degeneracy", "mq2(2,2) = mu2(2,2), difference %g" % d, Fr(1, 10 ** 9) < abs(y - x) / y < Fr(1, 10 ** 7), W, "not separated by a relative 1e-8")


def errors(L, V):
    V(())
    thr = list(V.I.throws)

    def thrown(over, t=thr, miss=None):
        pt = Point(over)
        for t in thr if miss is None else t:
            try:
                if all(pt.cond(c) for c in t[0]):
                    return t[2]
            except cells.NoValue as e:
                raise program.AnalysisBroken("condition of an exception of validate: %s" % e)
        return None
    L.ob("accepted", "regular point", thrown({}) is None, W, "throws %s" % thrown({}))
    for b in ("mq2", "mu2", "md2", "ml2", "me2"):
        for e in ENTRY:
            r = thrown({"p.%s%s" % (b, e): Fr(-1, 1000)})
            L.ob("rejected", "%s%s < 0" % (b, e), r is not None, W, "a negative soft-breaking parameter is accepted")
            r = thrown({"p.%s%s" % (b, e): Fr(0)})
            L.ob("accepted", "%s%s = 0" % (b, e), r is None, W, "throws %s" % r)
    for x, bad, good in (("MG", (Fr(-1), Fr(-1, 10 ** 6)), (Fr(0), Fr(1))), ("vu", (Fr(0), Fr(-3), float("nan")), (Fr(1, 10),)), ("vd", (Fr(0), Fr(-3), float("nan")), (Fr(1, 10),))):
        for v in bad:
            if v != v:
                q = V((x,))
                ok = any(not t[0] or all(Point({}).cond(c) for c in t[0]) for t in V.I.throws)
            else:
                ok = thrown({"p." + x: v}) is not None
            L.ob("rejected", "%s = %g" % (x, v), ok, W, "an invalid value is accepted")
        for v in good:
            L.ob("accepted", "%s = %g" % (x, v), thrown({"p." + x: v}) is None, W, "throws %s" % thrown({"p." + x: v}))
    for s in SECT:
        ms, s2, th, mf, ll, rr, A = SECT[s][:7]
        V((ms + "(0)", ms + "(1)", s2, th))
        t = list(V.I.throws)
        big = Fr(10) ** 8
        for x, sg in (("light", 0), ("tachyonic", 1), ("tachyonic", -1)):
            over = {"p.%s(2,2)" % A: big * sg, "p.%s" % mf: Fr(50)}
            r = thrown(over, t, 1)
            L.ob("rejected" if sg else "accepted", "%s %s, A = %+d" % (x, s, big * sg), (r is not None) == bool(sg), W, "a negative squared mass is accepted" if sg else "throws %s" % r)
            r = thrown(over)
            L.ob("accepted", "%s masses supplied, A = %+d" % (s, big * sg), r is None, W, "throws %s" % r)


def twice(L, V):
    """validation of validated parameters changes nothing"""
    every = tuple(x for s in SECT.values() for x in (s[0] + "(0)", s[0] + "(1)", s[1], s[2]))
    for key, miss, over in (("supplied", (), {}), ("exchanged masses", (), {"p.MSt(0)": Fr(2000), "p.MSb(0)": Fr(3000), "p.MStau(0)": Fr(900)}),
                            ("equal masses", (), {x: Fr(1500) for x in ("p.MSt(0)", "p.MSt(1)", "p.MSb(0)", "p.MSb(1)")}),
                            ("equal soft masses", (), {"p.mq2(2,2)": Fr(10 ** 6), "p.mu2(2,2)": Fr(10 ** 6)}),
                            ("only soft parameters", every + MASSES, {}), ("only angles missing", tuple(s[2] for s in SECT.values()), {})):
        p = V(miss)
        one = flat(p)
        two = flat(V((), 0, p))
        pt = Point(over)
        bad = []
        for k in one:
            a, b = float(pt.val(one[k])), float(pt.val(two[k]))
            if not abs(a - b) <= 1e-12 * max(abs(a), 1e-3):
                bad.append("%s: %.12g -> %.12g" % (k, a, b))
        L.ob("idempotent", key, not bad, W, "a second validation changes %s" % "; ".join(bad))


def msq(L, P):
    I = interp.Interp(P)
    p = I.sym("himalaya::Parameters", "p")
    r = G.tn(I.call(P.fn("himalaya::Parameters::calculateMsq2", 0), [], p))
    f = {m: G.var("p." + m) for m in MASSES}
    a, _, d = matrix("sbottom", f)
    w = G.mul(a, d)
    for g in "01":
        for x in ("mq2", "mq2", "mu2", "md2"):
            w = G.mul(w, G.var("p.%s(%s,%s)" % (x, g, g)))
    L.need(r.op == "f" and r.a[0] == "pow" or r.op == "sqrt" or True, "root")
    pts = [Point(), Point({"p.MW": Fr(60), "p.MZ": Fr(100), "p.Mb": Fr(40), "p.mq2(1,1)": Fr(5), "p.vd": Fr(400), "p.md2(0,0)": Fr(100)})]
    pw = [n for n in G.topo([r]) if n.op == "f" and n.a[0] == "pow"]
    ok = all(const_eq(r, _pt, float(_pt.val(w)) ** 0.1) for _pt in pts)
    if len(pw) == 1 and pw[0] is r and isinstance(r.a[1], N):
        ok = ok and eq(at(r.a[1], pts[0]), w)
    L.ob("average squark mass", "calculateMsq2", ok, W, "not the 10th root of the product of the squared masses of the squarks except stops")
    L.funcs |= I.funcs_seen
