"""P14: tree-level spectrum."""
from fractions import Fraction as Fr
from hv import program, fo, graph as G, interp
from hv.field import GF, Bad, P, inv, fsqrt, Undecided

LEVEL = "other"
RULE = ("Abstract interpretation of MSSM_spectrum with the diagonalisation routines as uninterpreted functions of the matrix "
        "elements; every mass, mixing matrix and mass-matrix accessor is compared (GF(p) value numbering) with the MSSM tree-level "
        "Lagrangian: M_LL^2, M_RR^2, M_LR^2 from (T3, Y, Yukawa, A-term), Higgs matrices from the scalar potential with "
        "R_xi (xi=1) Goldstone masses, chargino/neutralino matrices. Sum rules (Goldstone modes, det) follow.")
ASSUMPTIONS = ["eigen-decompositions return (eigenvalues, rotation) of the matrix passed to them",
               "identities hold for all real values except with probability < 1e-20 (random evaluation in GF(p))"]

SF = {  # name: (generation index, T3, Y_L, Y_Rbar, L-mass, R-mass, yukawa, A, up?)
    "Su": (0, 1, "q", "u"), "Sc": (1, 1, "q", "u"), "St": (2, 1, "q", "u"),
    "Sd": (0, -1, "q", "d"), "Ss": (1, -1, "q", "d"), "Sb": (2, -1, "q", "d"),
    "Se": (0, -1, "l", "e"), "Sm": (1, -1, "l", "e"), "Stau": (2, -1, "l", "e"),
}
MIX = {"Su": "ZU", "Sc": "ZC", "St": "ZT", "Sd": "ZD", "Ss": "ZS", "Sb": "ZB", "Se": "ZE", "Sm": "ZM", "Stau": "ZTau"}
YL = {"q": Fr(1, 6), "l": Fr(-1, 2)}
YR = {"u": Fr(-2, 3), "d": Fr(1, 3), "e": Fr(1)}


def v(n):
    return G.var("p." + n)


def c(x):
    return G.const(Fr(x))


def add(*a):
    r = c(0)
    for x in a:
        r = G.add(r, x)
    return r


def mul(*a):
    r = c(1)
    for x in a:
        r = G.mul(r, x if isinstance(x, G.N) else c(x))
    return r


def sq(x):
    return G.mul(x, x)


def sfermion(name, g1, g2, vd, vu):
    gen, t3, lf, rf = SF[name]
    L = {"q": "mq2", "l": "ml2"}[lf]
    R = {"u": "mu2", "d": "md2", "e": "me2"}[rf]
    dv = G.sub(sq(vd), sq(vu))
    gy2 = mul(Fr(3, 5), sq(g1))
    mL = v("%s(%d,%d)" % (L, gen, gen))
    mR = v("%s(%d,%d)" % (R, gen, gen))
    dl = mul(Fr(1, 4), dv, G.sub(mul(Fr(t3, 2), sq(g2)), mul(YL[lf], gy2)))
    dr = mul(Fr(1, 4), dv, mul(-YR[rf], gy2))
    if gen == 2:
        Y = v({"u": "Yu", "d": "Yd", "e": "Ye"}[rf] + "(2,2)")
        A = v({"u": "Au", "d": "Ad", "e": "Ae"}[rf] + "(2,2)")
        vf, vo = (vu, vd) if rf == "u" else (vd, vu)
        mf2 = mul(Fr(1, 2), sq(Y), sq(vf))
        off = mul(G.sqrt(c(Fr(1, 2))), Y, G.sub(mul(vf, A), mul(vo, v("mu"))))
    else:
        mf2 = off = c(0)
    return [[add(mL, mf2, dl), off], [off, add(mR, mf2, dr)]]


def sneutrino(gen, g1, g2, vd, vu):
    dv = G.sub(sq(vd), sq(vu))
    return add(v("ml2(%d,%d)" % (gen, gen)), mul(Fr(1, 8), dv, add(sq(g2), mul(Fr(3, 5), sq(g1)))))


def higgs(g1, g2, vd, vu):
    gh = add(mul(Fr(3, 5), sq(g1)), sq(g2))
    v2 = add(sq(vd), sq(vu))
    b = G.div(mul(sq(v("MA")), vd, vu), v2)
    td, tu = G.div(mul(b, vu), vd), G.div(mul(b, vd), vu)
    q = mul(Fr(1, 4), gh)
    hh = [[add(td, mul(q, sq(vd))), G.neg(add(b, mul(q, vd, vu)))], None]
    hh[1] = [hh[0][1], add(tu, mul(q, sq(vu)))]
    # xi = 1 gauge fixing adds (gh/4) v_a v_b with signs (+,-)
    ah = [[add(td, mul(q, sq(vd))), G.sub(b, mul(q, vd, vu))], None]
    ah[1] = [ah[0][1], add(tu, mul(q, sq(vu)))]
    w = mul(Fr(1, 4), sq(g2))
    hp = [[add(td, mul(w, sq(vu)), mul(w, sq(vd))), add(b, mul(w, vd, vu), G.neg(mul(w, vd, vu)))], None]
    hp[1] = [hp[0][1], add(tu, mul(w, sq(vd)), mul(w, sq(vu)))]
    return {"hh": hh, "Ah": ah, "Hpm": hp}


def neutralino(g1, g2, vd, vu):
    gy = mul(G.sqrt(c(Fr(3, 5))), g1)
    z = c(0)
    h = Fr(1, 2)
    m = [[v("M1"), z, mul(-h, gy, vd), mul(h, gy, vu)],
         [z, v("M2"), mul(h, g2, vd), mul(-h, g2, vu)],
         [None, None, z, G.neg(v("mu"))], [None, None, None, z]]
    for i in range(4):
        for j in range(i):
            m[i][j] = m[j][i]
    return m


def chargino(g1, g2, vd, vu):
    r = G.sqrt(c(Fr(1, 2)))
    return [[v("M2"), mul(r, g2, vu)], [mul(r, g2, vd), v("mu")]]


def spec(g1, g2, vd, vu):
    out = {}
    for s in SF:
        out[s] = sfermion(s, g1, g2, vd, vu)
    out.update(higgs(g1, g2, vd, vu))
    out["Chi"] = neutralino(g1, g2, vd, vu)
    out["Cha"] = chargino(g1, g2, vd, vu)
    return out


def flat(m):
    return [x for r in m for x in r]


def fields(name):
    """(mass field, mixing fields) of MSSM_spectrum"""
    return {"Chi": ("MChi", ["ZN"]), "Cha": ("MCha", ["UM", "UP"]), "hh": ("M2hh", ["ZH"]), "Ah": ("M2Ah", ["ZA"]),
            "Hpm": ("M2Hpm", ["ZP"])}.get(name) or ("M2" + name, [MIX[name]])


def decomposition(name, m):
    e = flat(m)
    n = len(m)
    if name == "Cha":
        return ([G.fn("eig:svd:%d" % i, *e) for i in range(2)],
                [[G.fn("evec:svd%s:%d%d" % (s, i, j), *e) for i in range(2) for j in range(2)] for s in "uv"])
    return ([G.fn("eig:%d:%d" % (n, i), *e) for i in range(n)],
            [[G.fn("evec:%d:%d%d" % (n, i, j), *e) for i in range(n) for j in range(n)]])


def eq(a, b, seeds=(1, 2)):
    n = 0
    for s in range(1, 40):
        try:
            g = GF(seed=s)
            if g.val(a) != g.val(b):
                return False
            n += 1
            if n == len(seeds):
                return True
        except Bad:
            continue
    raise Bad("no usable sample point")


def run(L):
    P_ = program.Program()
    F = fo.Fo(P_)
    n = 4 if L.tier == "thorough" else 2
    seeds = tuple(range(1, n + 1))
    s = F.spectrum()
    L.funcs |= F.I.funcs_seen
    g1, g2, vd, vu = v("g1"), v("g2"), v("vd"), v("vu")
    sp = spec(g1, g2, vd, vu)
    where = "source/himalaya/mh2_fo/MSSM_spectrum.cpp"

    def get(o, name):
        L.need(name in o.f, "MSSM_spectrum::%s not found" % name)
        return F.I.flat(o.f[name], [])

    def cmp(kind, key, a, b, what):
        try:
            ok = len(a) == len(b) and all(eq(x, y, seeds) for x, y in zip(a, b))
        except Undecided as ex:
            ok, what = False, what + " (depends on a condition: %s)" % G.show(ex.n, 3)
        L.ob(kind, key, ok, where, what)

    for name, m in sp.items():
        mf, zf = fields(name)
        w, z = decomposition(name, m)
        fn = P_.by_qn.get(fo.SP + "::get_mass_matrix_" + name)
        if fn:
            mm = F.call(s, "get_mass_matrix_" + name, cls=fo.SP)
            cmp("mass-matrix", name, F.I.flat(mm, []), flat(m), "mass matrix differs from the MSSM tree-level Lagrangian")
        cmp("eigenvalues", name, get(s, mf), w, "%s is not the spectrum of the %s mass matrix" % (mf, name))
        for f_, x in zip(zf, z):
            cmp("mixing", name + "/" + f_, get(s, f_), x, "%s is not the rotation of the %s mass matrix" % (f_, name))
    r2 = G.sqrt(c(Fr(1, 2)))
    one = {"M2VZ": mul(Fr(1, 4), add(mul(Fr(3, 5), sq(g1)), sq(g2)), add(sq(vd), sq(vu))),
           "M2VWm": mul(Fr(1, 4), sq(g2), add(sq(vd), sq(vu))),
           "MFt": mul(r2, v("Yu(2,2)"), vu), "MFb": mul(r2, v("Yd(2,2)"), vd), "MFtau": mul(r2, v("Ye(2,2)"), vd),
           "M2SveL": sneutrino(0, g1, g2, vd, vu), "M2SvmL": sneutrino(1, g1, g2, vd, vu), "M2SvtL": sneutrino(2, g1, g2, vd, vu)}
    for k, x in one.items():
        cmp("mass", k, get(s, k), [x], "%s differs from its tree-level expression" % k)
    # accessors of MSSM_mass_eigenstates, full and gaugeless, for both settings of only_at
    for at in (0, 1):
        o = F.mass_eigenstates(at)
        z = c(0)
        a = F.I.flat(F.call(o, "get_mass_matrix_hh"), [])
        ref = spec(g1, g2, vd, vu)["hh"] if at == 0 else spec(z, z, vd, vu)["hh"]
        cmp("accessor", "get_mass_matrix_hh/only_at=%d" % at, a, flat(ref), "tree-level Higgs mass matrix")
        a = F.I.flat(F.call(o, "get_mass_matrix_hh_gaugeless"), [])
        cmp("accessor", "get_mass_matrix_hh_gaugeless/only_at=%d" % at, a, flat(spec(z, z, vd, vu)["hh"]),
            "tree-level Higgs mass matrix in the gaugeless limit")
        # gaugeless spectrum member
    L.extra["species"] = sorted(sp) + sorted(one)
    L.assumptions += ASSUMPTIONS
