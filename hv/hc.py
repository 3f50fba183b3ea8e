"""Value graphs of HierarchyCalculator (through its public member functions)."""
from fractions import Fraction as Fr
from . import program, interp, graph as G
from .graph import N

HC = "himalaya::HierarchyCalculator"
HO = "himalaya::HierarchyObject"
HIER = "himalaya::hierarchies::"


class Calc:
    def __init__(self, P_, inline_thr=False, extra=None, p=None):
        self.P = P_
        self.I = I = interp.Interp(P_)
        self.extra = extra
        self.seen = []

        def oc(I, f, args, this):
            q = f.qn
            if extra is not None:
                r = extra(I, f, args, this)
                if r is not NotImplemented:
                    return r
            if q == "himalaya::Parameters::validate":
                return None
            if q == "himalaya::Parameters::calculateMsq2":
                return G.var("msq2")
            if q == "himalaya::mh2l::delta_mh2_2loop_at_as":
                return I.shaped(f.ret(), "dsz_at_as", sum((I.flat(a, []) for a in args), []))
            return NotImplemented
        I.on_call = oc
        self.p = p or I.sym("himalaya::Parameters", "p")
        ct = [f for f in P_.by_qn.get(HC + "::HierarchyCalculator", []) if len(f.params) == 2]
        if len(ct) != 1:
            raise program.AnalysisBroken("HierarchyCalculator(Parameters, bool) not found")
        self.hc = I.construct(ct[0], [self.p, G.const(0)])
        self.hs = self.enum("Hierarchies")
        self.depth = self.enum("ExpansionDepth")

    def enum(self, last):
        c = [e for q, e in self.P.enums.items() if q.startswith(HIER + last)]
        if len(c) != 1:
            raise program.AnalysisBroken("enumeration %s%s: %d candidates" % (HIER, last, len(c)))
        return dict(c[0]["vals"])

    def hier_names(self):
        return [k for k, v in sorted(self.hs.items(), key=lambda x: x[1])
                if k not in ("FIRST", "NUMBER_OF_HIERARCHIES")]

    def ho(self, h=None, alphab=0, mdr=0):
        ct = [f for f in self.P.by_qn.get(HO + "::HierarchyObject", []) if len(f.params) == 1 and not f.d["defaulted"]]
        if len(ct) != 1:
            raise program.AnalysisBroken("HierarchyObject(bool) not found")
        o = self.I.construct(ct[0], [node(alphab)])
        if h is not None:
            self.m(o, HO + "::setSuitableHierarchy", self.hs[h] if isinstance(h, str) else h)
        if mdr is not None:
            self.m(o, HO + "::setMDRFlag", mdr)
        return o

    def m(self, o, qn, *args):
        return self.I.call(self.P.fn(qn, len(args)), [node(a) for a in args], o)

    def call(self, name, *args):
        return self.m(self.hc, HC + "::" + name, *args)

    def hierarchy(self, h, flags, mdr=0, alphab=0):
        o = self.ho(h, alphab, mdr)
        r = self.call("calculateHierarchy", o, *flags)
        return r, o

    def set_depth(self, **kw):
        a = self.hc.f["expansionDepth"]
        for k, v in kw.items():
            a.d[self.depth[k]] = v


def node(a):
    return G.const(a) if isinstance(a, (int, Fr)) else a


def elems(m):
    return {"11": m.at(0, 0), "12": m.at(0, 1), "21": m.at(1, 0), "22": m.at(1, 1)}
