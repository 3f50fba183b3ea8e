"""Value graphs of the fixed-order calculation (MSSM_spectrum, MSSM_mass_eigenstates)."""
from fractions import Fraction as Fr
from . import program, interp, graph as G
from .graph import N
from .interp import Mat, Cx, Ref, BlockRef

FO = "himalaya::mh2_fo::"
ME = FO + "MSSM_mass_eigenstates"
SP = FO + "MSSM_spectrum"


def is_out(n):
    return n.op == "f" and str(n.a[0]).startswith(("eig:", "evec:"))


class Fo:
    """diag: number of recorded diagonalisations; eigenvalues/-vectors are uninterpreted
    functions of the matrix elements"""

    def __init__(self, P_, extra=None, p=None, opaque_pv=True, decide=None):
        self.P = P_
        self.extra = extra
        self.decide_extra = decide
        self.opaque_pv = opaque_pv
        self.I = interp.Interp(P_, decide=self.decide)
        self.I.on_call = self.oc
        self.diag = []
        self.p = p or self.I.sym("himalaya::Parameters", "p")
        self.order_enum = None
        for q, e in P_.enums.items():
            if q.endswith("CouplingOrders::CouplingOrders") and "mh2_fo" not in q.split("CouplingOrders")[0] or q == "himalaya::CouplingOrders::CouplingOrders":
                self.order_enum = dict(e["vals"])

    def decide(self, c):
        if c.op == "cmp" and any(isinstance(k, N) and is_out(strip(k)) for k in c.a):
            # clamping of matrix elements to [-1,1]: elements of an orthogonal matrix are inside
            x, y = c.a[1], c.a[2]
            if y.op == "c" and abs(y.a[0]) >= 1 or x.op == "c" and abs(x.a[0]) >= 1:
                v = x if y.op == "c" else y
                k = (y if y.op == "c" else x).a[0]
                val = Fr(0)  # representative inside
                l, r = (val, k) if y.op == "c" else (k, val)
                return {"<": l < r, "<=": l <= r, ">": l > r, ">=": l >= r, "==": False, "!=": True}[c.a[0]]
        if self.decide_extra is not None:
            return self.decide_extra(c)
        return None

    def put(self, ref, vals):
        I = self.I
        o = I.get(ref) if isinstance(ref, Ref) else ref
        for i, v in enumerate(vals):
            I.put(Ref(o, i), v)

    def oc(self, I, f, args, this):
        q = f.qn
        if self.extra is not None:
            r = self.extra(I, f, args, this)
            if r is not NotImplemented:
                return r
        if q == "himalaya::Parameters::validate":
            return None
        b = q.split("::")[-1]
        if q.startswith("himalaya::"):
            if b in ("fs_diagonalize_hermitian", "fs_diagonalize_symmetric") and len(args) == 3:
                m = I.tomat(I.get(args[0]) if isinstance(args[0], Ref) else args[0])
                n = m.r
                ent = [m.at(i, j) for i in range(n) for j in range(n)]
                w = [G.fn("eig:%d:%d" % (n, i), *ent) for i in range(n)]
                cpl = b.endswith("symmetric")
                z = [G.fn("evec:%d:%d%d" % (n, i, j), *ent) for i in range(n) for j in range(n)]
                self.diag.append((b, m, w, z))
                self.put(args[1], w)
                self.put(args[2], [Cx(k, G.const(0)) for k in z] if cpl else z)
                return None
            if b == "fs_svd" and len(args) == 4:
                m = I.tomat(I.get(args[0]) if isinstance(args[0], Ref) else args[0])
                n = m.r
                ent = [m.at(i, j) for i in range(n) for j in range(n)]
                w = [G.fn("eig:svd:%d" % i, *ent) for i in range(n)]
                u = [G.fn("evec:svdu:%d%d" % (i, j), *ent) for i in range(n) for j in range(n)]
                v = [G.fn("evec:svdv:%d%d" % (i, j), *ent) for i in range(n) for j in range(n)]
                self.diag.append((b, m, w, (u, v)))
                self.put(args[1], w)
                self.put(args[2], u)
                self.put(args[3], v)
                return None
            if self.opaque_pv and b in ("a0", "b0", "d1_b0"):
                a = [I.get(x) if isinstance(x, Ref) else x for x in args]
                if b == "b0":
                    a[1:3] = sorted(a[1:3], key=lambda n: n.id)
                if b == "d1_b0":
                    a[0:2] = sorted(a[0:2], key=lambda n: n.id)
                return G.fn(b, *a)
        return NotImplemented

    def spectrum(self, p=None):
        ct = [f for f in self.P.by_qn.get(SP + "::MSSM_spectrum", []) if len(f.params) == 1 and not f.d["defaulted"]]
        if len(ct) != 1:
            raise program.AnalysisBroken("MSSM_spectrum(Parameters) not found")
        return self.I.construct(ct[0], [p or self.p])

    def mass_eigenstates(self, only_at=0, p=None):
        ct = [f for f in self.P.by_qn.get(ME + "::MSSM_mass_eigenstates", []) if len(f.params) == 2]
        if len(ct) != 1:
            raise program.AnalysisBroken("MSSM_mass_eigenstates(Parameters, bool) not found")
        return self.I.construct(ct[0], [p or self.p, only_at if isinstance(only_at, N) else G.const(only_at)])

    def call(self, o, name, *args, cls=ME):
        return self.I.call(self.P.fn(cls + "::" + name, len(args)), [G.const(a) if isinstance(a, (int, Fr)) else a for a in args], o)


def strip(k):
    while k.op == "f" and k.a[0] == "abs":
        k = k.a[1]
    return k


def elem(m, i, j):
    return m.at(i, j)
