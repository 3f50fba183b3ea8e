"""P15: one-loop self-energies = second derivatives of the spectrum."""
from fractions import Fraction as Fr
from hv import program, fo, graph as G, interp
from hv.field import GF, Bad, P, inv, fsqrt, Undecided, frac
from checks import P14
from checks.P14 import v, c, mul, add, sq

LEVEL = "other"
RULE = ("Abstract interpretation of delta_mh2_1loop, ..._gaugeless and ..._gaugeless_deriv with A0, B0, D1B0 and the "
        "eigen-decompositions uninterpreted. The coefficient of every loop function of every pair of particles is compared, in GF(p), "
        "with the one that follows from the tree-level Lagrangian: couplings are the derivatives of the field-dependent mass "
        "matrices w.r.t. vd, vu in the mass basis; gaugeless: g1=g2=p^2=0; derivative: d/dp^2 at p^2=0.")
ASSUMPTIONS = ["identities hold except with probability < 1e-20 (random evaluation in GF(p))",
               "tadpole equations eliminate m_Hd^2, m_Hu^2 (the code's convention)"]


def derivs(build, names):
    """first and second derivatives of polynomial (degree <= 2) matrices in vd, vu by substitution"""
    return build


class Spec:
    """coefficients of A0(m^2) and B0(m1^2,m2^2) for one sample point"""

    def __init__(self, g, s, I, gauge, full, extra_zero=()):
        self.g, self.s, self.I = g, s, I
        self.A, self.B, self.names = {}, {}, {}
        val = g.val
        one = 1
        self.g1 = val(v("g1")) if gauge else 0
        self.g2 = val(v("g2")) if gauge else 0
        self.vd, self.vu = val(v("vd")), val(v("vu"))
        self.mu = val(v("mu"))
        zero = set(extra_zero)
        par = lambda n: 0 if n in zero else val(v(n))
        self.par = par
        r2 = fsqrt(inv(2))
        gy2 = frac(Fr(3, 5)) * self.g1 ** 2 % P
        g22 = self.g2 ** 2 % P
        q = lambda f: frac(Fr(f))
        self.q = q
        vd, vu = self.vd, self.vu
        # -- sfermions: M^2 = polynomial in vd, vu; derivative matrices
        for nm, (gen, t3, lf, rf) in P14.SF.items():
            if nm not in full:
                continue
            dl = (q(Fr(t3, 2)) * g22 - q(P14.YL[lf]) * gy2) * inv(4) % P
            dr = -q(P14.YR[rf]) * gy2 * inv(4) % P
            Y = par({"u": "Yu", "d": "Yd", "e": "Ye"}[rf] + "(2,2)") if gen == 2 else 0
            A = par({"u": "Au", "d": "Ad", "e": "Ae"}[rf] + "(2,2)") if gen == 2 else 0
            up = rf == "u"
            y2 = Y * Y % P

            def d1(a):
                x = (vd, vu)[a]
                sgn = (1, -1)[a]
                h = y2 * x if (a == 1) == up else 0
                off = r2 * Y * (A if (a == 1) == up else -self.mu) % P
                return [[(2 * sgn * dl * x + h) % P, off], [off, (2 * sgn * dr * x + h) % P]]

            def d2(a, b):
                if a != b:
                    return [[0, 0], [0, 0]]
                sgn = (1, -1)[a]
                h = y2 if (a == 1) == up else 0
                return [[(2 * sgn * dl + h) % P, 0], [0, (2 * sgn * dr + h) % P]]
            col = 3 if lf == "q" else 1
            self.scalar(nm, col, 2, self.vec("M2" + nm), self.mat(P14.MIX[nm], 2), d1, d2)
        if gauge:
            # -- sneutrinos
            k = (g22 + gy2) * inv(4) % P
            for nm in ("M2SveL", "M2SvmL", "M2SvtL"):
                self.scalar(nm, 1, 2, [self.sval(nm)], [[1]],
                            lambda a: [[(1, -1)[a] * k * (vd, vu)[a] % P]],
                            lambda a, b: [[(1, -1)[a] * k % P if a == b else 0]])
            gh = (g22 + gy2) * inv(4) % P
            w = g22 * inv(4) % P
            # neutral Higgs: V = gh/8 (vd^2 - vu^2)^2
            self.scalar("hh", 1, 1, self.vec("M2hh"), self.mat("ZH", 2),
                        lambda a: [[gh * (3 * vd if a == 0 else -vu) % P, -gh * (vu, vd)[a] % P],
                                   [-gh * (vu, vd)[a] % P, gh * (-vd if a == 0 else 3 * vu) % P]],
                        lambda a, b: [[gh * (3, -1)[a] % P, 0], [0, gh * (-1, 3)[a] % P]] if a == b else [[0, -gh % P], [-gh % P, 0]])
            self.scalar("Ah", 1, 1, self.vec("M2Ah"), self.mat("ZA", 2),
                        lambda a: [[gh * (1, -1)[a] * (vd, vu)[a] % P, 0], [0, -gh * (1, -1)[a] * (vd, vu)[a] % P]],
                        lambda a, b: [[gh * (1, -1)[a] % P, 0], [0, -gh * (1, -1)[a] % P]] if a == b else [[0, 0], [0, 0]])
            gy4 = gy2 * inv(4) % P

            def h1(a):
                x = (vd, vu)[a]
                s_ = (1, -1)[a]
                o = w * (vu, vd)[a] % P
                return [[(gy4 * s_ + w) * x % P, o], [o, (-gy4 * s_ + w) * x % P]]

            def h2(a, b):
                if a != b:
                    return [[0, w], [w, 0]]
                s_ = (1, -1)[a]
                return [[(gy4 * s_ + w) % P, 0], [0, (-gy4 * s_ + w) % P]]
            self.scalar("Hpm", 1, 2, self.vec("M2Hpm"), self.mat("ZP", 2), h1, h2)
            # -- gauge bosons (Feynman gauge, DR')
            mz, mw = self.sval("M2VZ"), self.sval("M2VWm")
            va = (vd, vu)
            ZA, ZP = self.mat("ZA", 2), self.mat("ZP", 2)
            MA, MH = self.vec("M2Ah"), self.vec("M2Hpm")
            gz = (g22 + gy2) % P
            for a in range(2):
                for b in range(a, 2):
                    if a == b:
                        self.a0(a, b, mw, -g22 * inv(2), "W")
                        self.a0(a, b, mz, -gz * inv(4), "Z")
                    self.b0(a, b, mw, mw, -7 * inv(8) * g22 * g22 * va[a] * va[b], 0, "W W")
                    self.b0(a, b, mz, mz, -7 * inv(16) * gz * gz * va[a] * va[b], 0, "Z Z")
                    for i in range(2):
                        sg = (1, -1)[a] * (1, -1)[b]
                        for m, mi, Z, cc, nm in ((mz, MA[i], ZA, gz * inv(4), "Z Ah"), (mw, MH[i], ZP, g22 * inv(2), "W Hpm")):
                            f = cc * sg * Z[i][a] * Z[i][b] % P
                            self.a0(a, b, m, 2 * f, nm)
                            self.a0(a, b, mi, -f, nm)
                            self.b0(a, b, m, mi, f * (2 * mi - m), 2 * f, nm)
            # -- neutralinos and charginos
            N_ = self.mat("ZN", 4)
            g1h = fsqrt(frac(Fr(3, 5))) * self.g1 * inv(2) % P
            g2h = self.g2 * inv(2) % P

            def dN(a):
                m = [[0] * 4 for _ in range(4)]
                s_ = (1, -1)[a]
                m[0][2 + a] = m[2 + a][0] = -s_ * g1h % P
                m[1][2 + a] = m[2 + a][1] = s_ * g2h % P
                return m
            y = [self.rot(N_, dN(a), N_) for a in range(2)]
            self.fermion("Chi", self.vec("MChi"), y, 1, False)
            U, V = self.mat("UM", 2), self.mat("UP", 2)
            dX = [[[0, 0], [r2 * self.g2 % P, 0]], [[0, r2 * self.g2 % P], [0, 0]]]
            self.fermion("Cha", self.vec("MCha"), [self.rot(U, dX[a], V) for a in range(2)], 1, True)
        # -- quarks and leptons
        for nm, yn, a, col in (("MFt", "Yu", 1, 3), ("MFb", "Yd", 0, 3), ("MFtau", "Ye", 0, 1)):
            y = [[[0]], [[0]]]
            y[a] = [[r2 * par(yn + "(2,2)") % P]]
            self.fermion(nm, [self.sval(nm)], y, col, True)

    # ---- access to the spectrum of the code
    def sval(self, f):
        return self.g.val(self.I.flat(self.s.f[f], [])[0])

    def vec(self, f):
        return [self.g.val(x) for x in self.I.flat(self.s.f[f], [])]

    def mat(self, f, n):
        x = self.vec(f)
        return [x[i * n:(i + 1) * n] for i in range(n)]

    def rot(self, U, M, V):
        n = len(M)
        return [[sum(U[i][a] * M[a][b] % P * V[j][b] for a in range(n) for b in range(n)) % P for j in range(n)] for i in range(n)]

    # ---- accumulation
    def a0(self, a, b, m, x, nm):
        k = (a, b, m % P)
        self.A[k] = (self.A.get(k, 0) + x) % P
        self.names.setdefault(("A", m % P), nm)

    def b0(self, a, b, m1, m2, x0, x1, nm):
        k = (a, b) + tuple(sorted((m1 % P, m2 % P)))
        o = self.B.get(k, (0, 0))
        self.B[k] = ((o[0] + x0) % P, (o[1] + x1) % P)
        self.names.setdefault(("B",) + k[2:], nm)

    def scalar(self, nm, col, dof, m2, Z, d1, d2):
        n = len(m2)
        h = col * dof * inv(2) % P
        D = [self.rot(Z, d1(a), Z) for a in range(2)]
        va = (self.vd, self.vu)
        for a in range(2):
            for b in range(a, 2):
                S = self.rot(Z, d2(a, b), Z)
                for i in range(n):
                    x = S[i][i]
                    if a == b:
                        x -= D[a][i][i] * inv(va[a])
                    self.a0(a, b, m2[i], -h * x, nm)
                    for j in range(n):
                        self.b0(a, b, m2[i], m2[j], -h * D[a][i][j] * D[b][j][i], 0, nm)

    def fermion(self, nm, m, y, col, dirac):
        n = len(m)
        va = (self.vd, self.vu)
        for a in range(2):
            for b in range(a, 2):
                for i in range(n):
                    for j in range(n):
                        mi, mj = m[i], m[j]
                        if dirac:
                            k = (y[a][i][j] * y[b][i][j] + y[a][j][i] * y[b][j][i]) % P
                            x = (y[a][i][j] * y[b][j][i] + y[a][j][i] * y[b][i][j]) % P
                        else:
                            k = x = y[a][i][j] * y[b][i][j] % P
                        k, x = col * k % P, col * x % P
                        self.a0(a, b, mi * mi, k, nm)
                        self.a0(a, b, mj * mj, k, nm)
                        self.b0(a, b, mi * mi, mj * mj, k * (mi * mi + mj * mj) + 2 * x * mi * mj, -k, nm)
                    if a == b:
                        self.a0(a, b, m[i] * m[i], -(4 if dirac else 2) * col * m[i] * y[a][i][i] * inv(va[a]), nm)


def probe(node, seed, pick):
    """coefficient of one loop function: pick(kind, key) -> value"""
    def a0(g, n):
        return pick("A", (g.val(n.a[1]),))

    def b0(g, n):
        return pick("B", tuple(sorted((g.val(n.a[2]), g.val(n.a[3])))), g.val(n.a[1]))

    def d1(g, n):
        return pick("D", tuple(sorted((g.val(n.a[1]), g.val(n.a[2])))))
    return GF(seed=seed, funcs={"a0": a0, "b0": b0, "d1_b0": d1}).val(node)


def run(L):
    P_ = program.Program()
    nseed = 3 if L.tier == "thorough" else 1
    where = "source/himalaya/mh2_fo/MSSM_mass_eigenstates.cpp"
    THIRD = {"St", "Sb", "Stau"}
    for at in (0, 1):
        F = fo.Fo(P_)
        o = F.mass_eigenstates(at)
        s = F.spectrum()                      # couplings refer to the DR' spectrum of the full model
        I = F.I
        z = G.const(0)
        pgl = I.sym("himalaya::Parameters", "p")
        pgl.f["g1"] = z
        pgl.f["g2"] = z
        sgl = F.spectrum(pgl)
        p2 = G.var("p2")
        tasks = []
        if at == 0:
            tasks.append(("delta_mh2_1loop", F.call(o, "delta_mh2_1loop", p2), s, True, "full"))
        tasks.append(("delta_mh2_1loop_gaugeless", F.call(o, "delta_mh2_1loop_gaugeless"), sgl, False, "gl"))
        tasks.append(("delta_mh2_1loop_gaugeless_deriv", F.call(o, "delta_mh2_1loop_gaugeless_deriv"), sgl, False, "deriv"))
        L.funcs |= I.funcs_seen
        for name, m, spc, gauge, mode in tasks:
            key0 = name + ("/only_at" if at else "")
            pre = None
            el = [(0, 0, I.tomat(m).at(0, 0)), (0, 1, I.tomat(m).at(0, 1)), (1, 1, I.tomat(m).at(1, 1))]
            L.ob("symmetric", key0, I.tomat(m).at(0, 1) is I.tomat(m).at(1, 0), where, "self-energy matrix is not symmetric")
            done = 0
            for seed in range(1, 30):
                try:
                    one_seed(L, key0, el, spc, gauge, mode, at, seed, I, where)
                    done += 1
                except Bad:
                    continue
                except Undecided as ex:
                    L.ob("coefficient", key0, False, where, "depends on a run-time condition %s" % G.show(ex.n, 3))
                    done += 1
                if done >= nseed:
                    break
            L.need(done, "no usable sample point for " + name)
    if True:
        # in the O(at)-only object no bottom, tau or gauge coupling may enter the one-loop result
        F = fo.Fo(P_)
        o = F.mass_eigenstates(1)
        m = F.I.tomat(F.call(o, "delta_mh2_1loop", G.var("p2")))
        for nm in ("Yd(2,2)", "Ye(2,2)", "g1", "g2"):
            for (i, j) in ((0, 0), (0, 1), (1, 1)):
                ok = indep(m.at(i, j), "p." + nm)
                L.ob("only-at", "delta_mh2_1loop(%d,%d) %s" % (i, j, nm), ok, where,
                     "the O(at)-only 1-loop correction depends on %s" % nm)
    L.assumptions += ASSUMPTIONS


def indep(node, var):
    for seed in range(1, 30):
        try:
            vals = []
            for x in (3, 12345678901234567):
                g = GF(seed=seed, assign={var: x})
                vals.append(g.val(node))
            return vals[0] == vals[1]
        except Bad:
            continue
    return False


def one_seed(L, key0, el, spc, gauge, mode, at, seed, I, where):
    g = GF(seed=seed)
    zero = ("Yd(2,2)", "Ye(2,2)") if at else ()
    S = Spec(g, spc, I, gauge, set(P14.SF) if gauge else {"St", "Sb", "Stau"}, zero)
    p2 = g.val(G.var("p2"))
    nv = inv(16) * inv(g.val(G.var("K:pi")) ** 2) % P
    res = []
    for a, b, node in el:
        seen = {}

        def note(kind, k, *r):
            seen.setdefault((kind,) + k, r)
            return 0
        base = probe(node, seed, note)
        res.append((a, b, node, base, seen))
    names = S.names
    for a, b, node, base, seen in res:
        L.ob("coefficient", "%s(%d,%d) constant" % (key0, a, b), base == 0, where, "term without loop function")
        keys = set(seen)
        for (x, y, m) in S.A:
            if (x, y) == (a, b) and mode != "deriv":
                keys.add(("A", m))
        for (x, y, m1, m2) in S.B:
            if (x, y) == (a, b):
                keys.add(("B", m1, m2))
                if mode == "deriv":
                    keys.add(("D", m1, m2))
        bad = {}
        n = {}
        for k in sorted(keys):
            def pick(kind, kk, *r):
                return 1 if (kind,) + kk == k else 0
            got = probe(node, seed, pick) if k in seen else 0
            got = (got - base) % P
            if k[0] == "A":
                want = 0 if mode == "deriv" else S.A.get((a, b) + k[1:], 0)
            else:
                c0, c1 = S.B.get((a, b) + k[1:], (0, 0))
                if mode == "full":
                    want = c0 + c1 * p2
                elif mode == "gl":
                    want = c0 if k[0] == "B" else 0
                else:
                    want = c0 if k[0] == "D" else c1
            nm = names.get((("A",) if k[0] == "A" else ("B",)) + k[1:], "unknown particle")
            kind = {"A": "A0", "B": "B0", "D": "D1B0"}[k[0]]
            ok = got == want * nv % P
            key = "%s(%d,%d) %s[%s]" % (key0, a + 1, b + 1, kind, nm)
            n[key] = n.get(key, 0) + 1
            if not ok:
                bad[key] = bad.get(key, 0) + 1
        for key, cnt in sorted(n.items()):
            L.ob("coefficient", key, key not in bad, where,
                 "%d of %d coefficients differ from the second derivative of the field-dependent masses" % (bad.get(key, 0), cnt))
        # B0 with the right momentum and scale
        mom = set(r for k, r in seen.items() if k[0] == "B")
        want = {(p2,)} if mode == "full" else {(0,)}
        L.ob("momentum", "%s(%d,%d)" % (key0, a + 1, b + 1), mom <= want, where, "B0 evaluated at another momentum")
