"""P16: perturbative diagonalisation and momentum iteration of the CP-even Higgs masses."""
from fractions import Fraction as Fr
from hv import program, fo, graph as G, interp, field
from hv.field import Bad
from checks.P14 import c, mul, add, sq

LEVEL = "other"
RULE = ("Abstract interpretation of fs_diagonalize_hermitian_perturbatively, calculate_Mh2(_tree) and the momentum iteration "
        "with self-energies uninterpreted. The perturbative eigenvalues must satisfy the characteristic equation of m0+t*m1+t^2*m2+t^3*m3 "
        "order by order in t (GF(p)), the lighter one first; masses and momentum-iteration terms must be built from the matrices and momenta of their loop order.")
ASSUMPTIONS = ["fs_diagonalize_hermitian returns the eigenvalues of its argument in ascending order",
               "identities hold except with probability < 1e-20 (random evaluation in GF(p))"]
W = "source/himalaya/mh2_fo/MSSM_mass_eigenstates.cpp"
WL = "source/himalaya/mh2_fo/Linalg.cpp"


def eqv(a, b):
    try:
        return field.equal(G.tn(a), G.tn(b))
    except (Bad, field.Undecided):
        return False


def lam(ms):
    """coefficients of the lighter eigenvalue of sum t^k ms[k]; ms: list of (a11,a12,a22)"""
    tr = [add(m[0], m[2]) for m in ms]
    df = [G.sub(m[0], m[2]) for m in ms]
    of = [m[1] for m in ms]
    D = []
    for k in range(len(ms)):
        s = c(0)
        for i in range(k + 1):
            s = add(s, mul(df[i], df[k - i]), mul(4, of[i], of[k - i]))
        D.append(s)
    s = [G.sqrt(D[0])]
    for k in range(1, len(ms)):
        r = D[k]
        for i in range(1, k):
            r = G.sub(r, mul(s[i], s[k - i]))
        s.append(G.div(r, mul(2, s[0])))
    return [mul(Fr(1, 2), G.sub(tr[k], s[k])) for k in range(len(ms))], [mul(Fr(1, 2), add(tr[k], s[k])) for k in range(len(ms))]


def ent(m):
    return (m.at(0, 0), m.at(0, 1), m.at(1, 1))


def sym(nm, *a):
    f = [G.fn("%s:%s" % (nm, k), *a) if a else G.var("%s:%s" % (nm, k)) for k in ("11", "12", "22")]
    return interp.Mat(2, 2, [f[0], f[1], f[1], f[2]])


class Run:
    def __init__(self, P, at):
        self.conv = []
        self.F = fo.Fo(P, extra=self.extra)
        self.P = P
        self.o = self.F.mass_eigenstates(at)

    def extra(self, I, f, args, this):
        q = f.qn
        if q == fo.ME + "::delta_mh2_1loop":
            return sym("se1", I.get(args[0]) if isinstance(args[0], interp.Ref) else args[0])
        if q == fo.ME + "::delta_mh2_1loop_gaugeless":
            return sym("se1gl")
        if q == fo.ME + "::delta_mh2_1loop_gaugeless_deriv":
            return sym("sed")
        if q == fo.ME + "::delta_mh2_2loop" and self.hide2:
            return sym("se2")
        if q.startswith("himalaya::mh2l::delta_mh2_2loop_"):
            return interp.Mat(2, 2, [c(0)] * 4)
        if q.endswith("::is_equal_rel") and self.conv is not None:
            a = [G.tn(I.get(x) if isinstance(x, interp.Ref) else x) for x in args]
            self.cmp.append(a)
            return bool(self.conv.pop(0)) if self.conv else True
        return NotImplemented

    hide2 = True
    cmp = None

    def call(self, name, *a):
        self.cmp = []
        return self.F.call(self.o, name, *a)


def tup(t):
    return list(t.d) if hasattr(t, "d") else list(t)


def run(L):
    P = program.Program()
    I = interp.Interp(P)
    # -- the closed form
    f = P.fn("himalaya::fs_diagonalize_hermitian_perturbatively", 4)
    L.need(f is not None, "fs_diagonalize_hermitian_perturbatively")
    ms = [sym("m%d" % k) for k in range(4)]
    r = tup(I.call(f, ms))
    L.need(len(r) == 4, "result of fs_diagonalize_hermitian_perturbatively")
    r = [I.tomat(I.get(x) if isinstance(x, interp.Ref) else x) for x in r]
    lo, hi = lam([ent(m) for m in ms])
    for k in range(4):
        L.ob("closed form", "order %d, light" % k, eqv(r[k].d[0], lo[k]), WL, "not the order-t^%d term of the lighter eigenvalue" % k)
        L.ob("closed form", "order %d, heavy" % k, eqv(r[k].d[1], hi[k]), WL, "not the order-t^%d term of the heavier eigenvalue" % k)
    # order by order the two eigenvalues have the trace and the determinant of the matrix
    for k in range(4):
        tr = add(ent(ms[k])[0], ent(ms[k])[2])
        L.ob("closed form", "trace, order %d" % k, eqv(add(r[k].d[0], r[k].d[1]), tr), WL, "sum of eigenvalues is not the trace")
        det, pr = c(0), c(0)
        for i in range(k + 1):
            a, b = ent(ms[i]), ent(ms[k - i])
            det = add(det, mul(a[0], b[2]), mul(-1, a[1], b[1]))
            pr = add(pr, mul(r[i].d[0], r[k - i].d[1]))
        L.ob("closed form", "determinant, order %d" % k, eqv(pr, det), WL, "product of eigenvalues is not the determinant")
    L.funcs |= I.funcs_seen
    for at in (0, 1):
        R = Run(P, at)
        I = R.F.I
        tag = "O(at)-only: " if at else ""
        m0 = I.tomat(R.call("get_mass_matrix_hh"))
        m0g = I.tomat(R.call("get_mass_matrix_hh_gaugeless"))
        tree = lam([ent(m0)])
        t = I.tomat(R.call("calculate_Mh2_tree"))
        L.ob("tree", tag + "calculate_Mh2_tree", eqv(t.d[0], tree[0][0]) and eqv(t.d[1], tree[1][0]), W, "not the eigenvalues of the tree-level matrix")
        enum = dict(P.enums["himalaya::mh2_fo::Diagonalization"]["vals"])
        mom = dict(P.enums["himalaya::mh2_fo::Momentum_iteration"]["vals"])
        se1 = sym("se1", tree[0][0])
        for d in ("default", "pert", "num"):
            if d != "default":
                R.call("set_diagonalization", enum[d])
            t = tup(R.call("calculate_Mh2"))
            if d == "num":
                e = lambda *m: G.fn("eig:2:0", *[s for s in _sum(m).d])
                want = [e(m0), G.sub(e(m0, se1), e(m0)), G.sub(e(m0, se1, sym("se2")), e(m0, se1))]
            else:
                want = [tree[0][0], lam([ent(m0), ent(se1)])[0][1], lam([ent(m0g), ent(sym("se1gl")), ent(sym("se2"))])[0][2]]
            for k in range(3):
                L.ob("masses", "%scalculate_Mh2 (%s) loop %d" % (tag, d, k), eqv(t[k], want[k]), W,
                     "not the %d-loop contribution to the lighter Higgs mass" % k)
        # momentum iteration
        R.hide2 = False
        dmh1 = lam([ent(m0g), ent(sym("se1gl"))])[0][1]
        for mode in ("default", "off", "pert"):
            if mode != "default":
                R.call("set_mom_it", mom[mode], Fr(1, 1000), 3)
            r = I.tomat(R.call("delta_mh2_2loop"))
            sd = sym("sed")
            for i, j in ((0, 0), (0, 1), (1, 0), (1, 1)):
                want = c(0) if mode == "off" else mul(sd.at(i, j), dmh1)
                L.ob("momentum iteration", "%s%s (%d,%d)" % (tag, mode, i, j), eqv(r.at(i, j), want), W,
                     "not d(self-energy)/dp^2 times the 1-loop mass shift")
        try:
            numeric(L, R, m0, mom, tag)
        except interp.Unsupported as ex:
            # the iteration is written in a way the interpreter cannot unroll: no statement about it
            L.notes.append("numeric momentum iteration not analysed: %s" % ex)
        L.funcs |= I.funcs_seen
    L.assumptions += ASSUMPTIONS


def numeric(L, R, m0, mom, tag):
    I = R.F.I
    R.call("set_mom_it", mom["num"], Fr(1, 1000), 3)
    p0 = I.tomat(R.o.f["masses"].f["M2hh"]).d[0]
    for name, conv, steps in (("1 step", [1], 1), ("2 steps", [0, 1], 2), ("no convergence", [0, 0, 0, 0, 0], 3)):
        R.conv = list(conv)
        r = I.tomat(R.call("delta_mh2_2loop"))
        p2 = p0
        for k in range(steps):
            last = sym("se1", p2)
            ok = len(R.cmp) > k and any(eqv(R.cmp[k][x], p2) and eqv(R.cmp[k][1 - x], G.fn("eig:2:0", *_sum((m0, last)).d)) for x in (0, 1))
            ok = ok and len(R.cmp[k]) > 2 and eqv(R.cmp[k][2], c(Fr(1, 1000)))
            L.ob("momentum iteration", "%snum, %s: convergence test %d" % (tag, name, k + 1), ok, W,
                 "old and new mass are not compared at the requested precision")
            p2 = G.fn("eig:2:0", *_sum((m0, last)).d)
        L.ob("momentum iteration", "%snum, %s: number of steps" % (tag, name), len(R.cmp) == steps, W,
             "%d iterations instead of %d" % (len(R.cmp), steps))
        first = sym("se1", p0)
        for i, j in ((0, 0), (0, 1), (1, 0), (1, 1)):
            L.ob("momentum iteration", "%snum, %s (%d,%d)" % (tag, name, i, j), eqv(r.at(i, j), G.sub(last.at(i, j), first.at(i, j))), W,
                 "not self-energy(iterated mass) - self-energy(tree-level mass)")


def _sum(ms):
    r = [c(0)] * 4
    for m in ms:
        r = [G.add(x, y) for x, y in zip(r, m.d)]
    return interp.Mat(2, 2, r)
