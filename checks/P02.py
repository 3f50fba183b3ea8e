"""P02: a result is a function of the input: no undefined values, no hidden state, no state left behind."""
import re
from hv import program, hc, fo, thr, f77, irx, interp, graph as G
from hv.graph import N
from hv.interp import Obj, Mat, Ref
from checks import P01, P22, P34

LEVEL = "static"
RULE = ("value graphs of the hierarchy, threshold, EFT and fixed-order calculations and of the Fortran routines contain no undefined value (uninitialised variables, members, matrix elements, COMMON variables that a call did not set itself); calculateDMh3L, compareHierarchies and getExpansionUncertainty are interpreted with their parts uninterpreted, "
        "and leave the calculator as it was, after a normal return and after an exception in any of the parts; repeating them gives the identical value graphs; what the search for a hierarchy leaves in the result object for rejected candidates does not enter the result; constructing a ThresholdCalculator leaves its parameters as given; "
        "no C++ object of static storage duration is modified (flags that control only messages excepted), and no function that reads time, environment or random numbers is called")
ASSUMPTIONS = ["validate() and setters are the documented ways to change an object"]
HCW = "source/himalaya/HierarchyCalculator.cpp"
EXTERN = {"time", "clock", "clock_gettime", "gettimeofday", "getenv", "secure_getenv", "getpid", "rand", "random", "drand48", "_ZNSt6chrono3_V212system_clock3nowEv", "_ZNSt6chrono3_V212steady_clock3nowEv", "_gfortran_rand", "_gfortran_random_r8", "_gfortran_time_i4", "_gfortran_second", "_gfortran_cpu_time_8", "fopen", "open", "_gfortran_st_open", "fegetround", "fesetround", "_ZNSt13random_device9_M_getvalEv"}


def run(L):
    P = program.Program()
    state(L, P)
    junk(L, P)
    threshold(L, P)
    undefined(L, P)
    fortran(L, P)
    static(L)
    L.assumptions += ASSUMPTIONS


def leaves(I, o):
    return [G.tn(x) if not isinstance(x, str) else x for x in I.flat(o, [])]


def fields(I, o, pre=""):
    out = {}
    for k, v in o.f.items():
        if isinstance(v, Obj):
            out.update(fields(I, v, pre + k + "."))
        else:
            try:
                out[pre + k] = [G.tn(x) for x in I.flat(v, [])]
            except Exception:
                out[pre + k] = v if isinstance(v, (str, int)) else None
    return out


def diff(a, b):
    return sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))


class Fault(P22.Parts):
    """the n-th call of a part throws"""
    at = None
    count = 0

    def hook(self, I, f, args, this):
        r = super().hook(I, f, args, this)
        b = f.qn.split("::")[-1]
        if r is not NotImplemented and f.qn.startswith(hc.HC + "::") and b != "compareHierarchies":
            self.count += 1
            if self.count == self.at:
                return G.throw("fault")
        return r


def state(L, P):
    X = Fault(P)
    C, I = X.C, X.I
    L.need(len(C.hier_names()) >= 10, "hierarchies")
    base = fields(I, C.hc)
    mem = "the calculator's member %s is changed"
    for n in C.hier_names():
        X.h, X.at = C.hs[n], None
        res = {}
        for k, ab in enumerate((0, 1, 0, 1)):
            X.count = 0
            o = fields(I, C.call("calculateDMh3L", ab))
            d = diff(base, fields(I, C.hc))
            L.ob("state", "calculateDMh3L(%d) %s, call %d" % (ab, n, k + 1), not d, HCW, mem % ", ".join(d))
            e = diff(res.setdefault(ab, o), o)
            if k > 1:
                L.ob("repeatable", "calculateDMh3L(%d) %s" % (ab, n), not e, HCW, "%s differs when the calculation is repeated" % ", ".join(e))
            if d:
                C.hc = I.construct(ctor(P), [C.p, G.const(0)])
    # an exception in any of the parts
    for ab in (0, 1):
        X.h, X.at, X.count = C.hs["h3"], None, 0
        C.call("calculateDMh3L", ab)
        for at in range(1, X.count + 1):
            X.at, X.count = at, 0
            C.call("calculateDMh3L", ab)
            d = diff(base, fields(I, C.hc))
            L.ob("state", "calculateDMh3L(%d) left by an exception of part %d" % (ab, at), not d, HCW, mem % ", ".join(d))
        X.at = None
    # selection of the hierarchy and uncertainty of the expansion
    S = Search(P)
    C, I = S.C, S.I
    base = fields(I, C.hc)
    for ab in (0, 1):
        for mdr in (0, 1):
            S.reset()
            a = C.ho(None, ab, mdr)
            first = fields(I, a)
            C.call("compareHierarchies", a)
            n = S.count
            L.need(n >= 4, "parts of compareHierarchies")
            one = fields(I, a)
            d = diff(base, fields(I, C.hc))
            tag = "%s, mdrFlag %d" % ("bottom" if ab else "top", mdr)
            L.ob("state", "compareHierarchies, " + tag, not d, HCW, mem % ", ".join(d))
            d = [k for k in ("isAlphab", "mdrFlag", "renormalizationScheme") if first.get(k) != one.get(k)]
            L.ob("state", "result object in compareHierarchies, " + tag, not d, HCW, "%s is changed" % ", ".join(d))
            S.reset()
            C.call("compareHierarchies", a)
            d = diff(one, fields(I, a))
            L.ob("repeatable", "compareHierarchies with the same object, " + tag, not d, HCW, "%s differs" % ", ".join(d))
            S.reset()
            b = C.ho(None, ab, mdr)
            C.call("compareHierarchies", b)
            d = diff(one, fields(I, b))
            L.ob("repeatable", "compareHierarchies with a new object, " + tag, not d, HCW, "%s differs" % ", ".join(d))
    S.reset()
    step = 1 if L.tier != "quick" else max(1, n // 12)
    for at in sorted(set(range(1, n + 1, step)) | set(range(1, 8)) | {n}):
        S.reset(at)
        C.call("compareHierarchies", C.ho(None, 0, 0))
        d = diff(base, fields(I, C.hc))
        L.ob("state", "compareHierarchies left by an exception of part %d" % at, not d, HCW, mem % ", ".join(d))
    f = P.fn(hc.HC + "::getExpansionUncertainty", 5)
    S.inner = False
    M = Mat(2, 2, [G.var("m11"), G.var("m12"), G.var("m12"), G.var("m22")])
    for h in C.hier_names():
        for loop in (2, 3):
            S.reset()
            o = C.ho(h, 0, 0)
            a = [G.const(int(loop == i)) for i in (1, 2, 3)]
            r1 = G.tn(I.call(f, [o, M] + a, C.hc))
            n = S.count
            d = diff(base, fields(I, C.hc))
            L.ob("state", "getExpansionUncertainty %s %d-loop" % (h, loop), not d, HCW, mem % ", ".join(d))
            S.reset()
            r2 = G.tn(I.call(f, [o, M] + a, C.hc))
            L.ob("repeatable", "getExpansionUncertainty %s %d-loop" % (h, loop), r1 is r2, HCW, "differs when it is repeated")
            for at in range(1, n + 1):
                S.reset(at)
                I.call(f, [o, M] + a, C.hc)
                d = diff(base, fields(I, C.hc))
                L.ob("state", "getExpansionUncertainty %s %d-loop left by an exception of part %d" % (h, loop, at), not d, HCW, mem % ", ".join(d))
    L.funcs |= X.I.funcs_seen | S.I.funcs_seen


def ctor(P):
    return [f for f in P.by_qn.get(hc.HC + "::HierarchyCalculator", []) if len(f.params) == 2][0]


class Search:
    """parts of the selection uninterpreted; the at-th of them throws; they write to the result object what the real ones write"""

    def __init__(self, P):
        self.P = P
        self.inner = True
        self.at, self.count = None, 0
        self.C = hc.Calc(P, extra=self.hook)
        self.I = self.C.I

    def reset(self, at=None):
        self.at, self.count = at, 0

    def hook(self, I, f, args, this):
        b = f.qn.split("::")[-1]
        if not f.qn.startswith(hc.HC + "::"):
            return NotImplemented
        if b == "isHierarchySuitable":
            return G.const(1)
        names = ("calculateHierarchy", "getMt41L", "getMt42L", "calcDeltaLambda3L") + (("getExpansionUncertainty",) if self.inner else ())
        if b not in names:
            return NotImplemented
        self.count += 1
        if self.count == self.at:
            return G.throw("fault")
        ho = args[0]
        st = [G.tn(self.C.m(ho, hc.HO + "::" + g)) for g in ("getSuitableHierarchy", "getIsAlphab", "getMDRFlag")]
        a = st + [G.tn(x) for x in I.flat(self.C.hc.f["expansionDepth"], [])] + sum((I.flat(I.get(x) if isinstance(x, Ref) else x, []) for x in args[1:]), [])
        if b == "calcDeltaLambda3L":
            for s in ("DLambdaH3m", "DLambdaNonLog", "DLambdaEFT", "DLambdaXtUncertainty"):
                self.C.m(ho, hc.HO + "::set" + s, G.fn(s, *a))
            return None
        if b == "calculateHierarchy":
            self.C.m(ho, hc.HO + "::setMDRMasses", Mat(2, 1, [G.fn("MDR1", *a), G.fn("MDR2", *a)]))
        r = I.shaped(f.ret(), "op:" + b, a)
        if isinstance(r, Mat):
            r.d[2] = r.d[1]
        return r


KEEP = {"isAlphab", "hierarchy", "mdrFlag", "renormalizationScheme", "absDiff2L", "relDiff2L", "expUncertainties", "dMhMap"}


class Junk(P22.Parts):
    def hook(self, I, f, args, this):
        if f.qn == hc.HC + "::compareHierarchies":
            o = args[0]
            o = I.get(o) if isinstance(o, Ref) else o
            for s in ("DLambdaH3m", "DLambdaNonLog", "DLambdaEFT", "DLambdaXtUncertainty"):
                self.C.m(o, hc.HO + "::set" + s, G.var("rejected:" + s))
            self.C.m(o, hc.HO + "::setMDRMasses", Mat(2, 1, [G.var("rejected:MDR1"), G.var("rejected:MDR2")]))
            self.C.m(o, hc.HO + "::setSuitableHierarchy", self.h)
            self.C.m(o, hc.HO + "::setDMh", 0, Mat(2, 2, list(self.m0)))
            return G.const(self.h)
        return super().hook(I, f, args, this)


def vars_of(ns):
    seen, st, out = set(), [n for n in ns if isinstance(n, N)], set()
    while st:
        n = st.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        if n.op == "v":
            out.add(n.a[0])
        elif n.op == "throw":
            out.add("throw " + str(n.a[0]) if n.a else "throw")
        st.extend(x for x in n.a if isinstance(x, N))
    return out


def junk(L, P):
    X = Junk(P)
    C = X.C
    for n in C.hier_names():
        for ab in (0, 1):
            X.h = C.hs[n]
            o = fields(X.I, C.call("calculateDMh3L", ab))
            for k, v in o.items():
                bad = sorted(x for x in vars_of(v or []) if x.startswith(("rejected:", "uninit:")))
                L.ob("rejected candidates", "%s, %s %s" % (k, n, "bottom" if ab else "top"), not bad, HCW, "depends on %s left in the object by the search for a hierarchy" % ", ".join(bad))
    L.funcs |= X.I.funcs_seen


THW = "source/himalaya/mh2_eft/ThresholdCalculator.cpp"


def threshold(L, P):
    """construction chooses a limit, and nothing else"""
    I = interp.Interp(P)

    def oc(I, f, args, this):
        q = f.qn
        if q == "himalaya::Parameters::validate":
            return None
        if q == "himalaya::Parameters::calculateMsq2":
            return G.var("msq2")
        if q.startswith(thr.TC + "::getDelta"):
            o = I.get(this) if isinstance(this, Ref) else this
            return I.shaped(f.ret(), q, I.flat(o.f["p"], []) + sum((I.flat(I.get(x) if isinstance(x, Ref) else x, []) for x in args), []))
        if q.split("::")[-1] == "isGeneralStable":
            return G.cmp(">", G.fn("stable", *[G.tn(I.get(x) if isinstance(x, Ref) else x) for x in args]), G.const(0))
        return NotImplemented
    I.on_call = oc
    ct = [f for f in P.by_qn.get(thr.TC + "::ThresholdCalculator", []) if len(f.params) == 3]
    L.need(len(ct) == 1, "constructor of ThresholdCalculator")
    p = I.sym("himalaya::Parameters", "p")
    given = fields(I, p)
    for check in (0, 1):
        o = I.construct(ct[0], [p, G.const(0), G.const(check)])
        now = fields(I, o.f["p"])
        for k in sorted(given):
            if k == "massLimit3LThreshold":
                continue
            L.ob("construction", "ThresholdCalculator(check = %d): %s" % (check, k), given[k] == now.get(k), THW, "the parameter %s is not the given one after the construction" % k)
        L.ob("construction", "ThresholdCalculator(check = %d): msq2" % check, G.tn(o.f["msq2"]) is G.var("msq2") if "msq2" in o.f else True, THW, "msq2 is not the one of the parameters after the construction")
        L.ob("construction", "ThresholdCalculator(check = %d): given parameters" % check, fields(I, p) == given, THW, "the constructor changes the caller's parameters")
    L.funcs |= I.funcs_seen


def undef(I, o):
    return sorted(x for x in vars_of([G.tn(x) for x in I.flat(I.get(o) if isinstance(o, Ref) else o, [])]) if x.startswith(("uninit:", "dyn:")))


def undefined(L, P):
    # members after construction
    C = hc.Calc(P)
    for k, v in fields(C.I, C.hc).items():
        L.ob("undefined", "HierarchyCalculator." + k, not vars_of(v or []) & {x for x in vars_of(v or []) if x.startswith("uninit:")}, HCW, "is not set by the constructor")
    for k, v in fields(C.I, C.ho(None, 0, None)).items():
        L.ob("undefined", "HierarchyObject." + k, not [x for x in vars_of(v or []) if x.startswith("uninit:")], "source/himalaya/HierarchyObject.cpp", "is not set by the constructor")
    # hierarchies
    for h in C.hier_names():
        for ab in (0, 1):
            for mdr in (1,) if L.tier == "quick" else (0, 1):
                m, o = C.hierarchy(h, (1, 1, 1), mdr, ab)
                b = undef(C.I, m) + [x for v in fields(C.I, o).values() for x in vars_of(v or []) if x.startswith("uninit:")]
                L.ob("undefined", "calculateHierarchy %s %s mdrFlag %d" % (h, "bottom" if ab else "top", mdr), not b, HCW, "depends on the undefined " + ", ".join(b[:3]))
    for ab in (0, 1):
        for n in ("getMt41L", "getMt42L", "shiftH3mToDRbarPrime"):
            o = C.ho("h3", ab, 0)
            b = undef(C.I, C.call(n, *([o] if n[0] == "s" else [o, 0, 0])))
            L.ob("undefined", "%s %s" % (n, "bottom" if ab else "top"), not b, HCW, "depends on the undefined " + ", ".join(b[:3]))
    L.funcs |= C.I.funcs_seen
    # threshold corrections
    T = thr.Thr(P)
    for lim, lv in T.limits.items():
        T.set_limit(lv)
        for o, ov in T.orders.items():
            for om in (0, 1):
                r = T.I.call(P.fn(thr.TC + "::getThresholdCorrection"), [G.const(ov), G.const(T.schemes["DRBARPRIME"]), G.const(om)], T.o)
                b = undef(T.I, r)
                L.ob("undefined", "threshold correction %s, %s, omitLogs %d" % (o, lim, om), not b, THW, "depends on the undefined " + ", ".join(b[:3]))
    L.funcs |= T.I.funcs_seen
    # EFT calculation
    X = P22.Parts(P)
    E = P22.Eft(X, X.C.p)
    for n, a in ((0, ()), (1, (1, 1)), (2, (1, 1)), (3, (1, 1, 0)), (1, (0, 0)), (2, (0, 0)), (3, (0, 0, 1))):
        b = undef(X.I, E.mh2(n, *a))
        L.ob("undefined", "getDeltaMh2EFT%dLoop(%s)" % (n, ", ".join(map(str, a))), not b, "source/himalaya/mh2_eft/Mh2EFTCalculator.cpp", "depends on the undefined " + ", ".join(b[:3]))
    L.funcs |= X.I.funcs_seen


NEG = {"!=": "==", ">=": "<", ">": "<="}


def truth(c, t):
    """value of a condition for an assignment of its comparisons; t: key -> bool, missing keys are recorded as None"""
    if c.op == "c":
        return c.a[0] != 0
    if c.op == "not":
        return not truth(c.a[0], t)
    if c.op in ("and", "or"):
        a, b = truth(c.a[0], t), truth(c.a[1], t)
        return (a and b) if c.op == "and" else (a or b)
    if c.op == "cmp" and c.a[0] in NEG:
        return not t.setdefault((NEG[c.a[0]], c.a[1].id, c.a[2].id), False)
    if c.op == "cmp":
        return t.setdefault((c.a[0], c.a[1].id, c.a[2].id), False)
    return t.setdefault(c.id, False)


def reached(roots):
    """undefined values that a root depends on for some outcome of the comparisons in front of them"""
    topo = G.topo(roots)
    dep = {}
    for n in topo:
        dep[n.id] = n.op == "throw" and str(n.a[0]).startswith("undefined") or any(dep[x.id] for x in n.a if isinstance(x, N))
    conds = [n.a[0] for n in topo if n.op == "ite" and dep[n.id] and (dep[n.a[1].id] or dep[n.a[2].id])]
    t = {}
    for c in conds:
        truth(c, t)
    keys = list(t)
    if len(keys) > 14:
        return ["too many cases (%d)" % len(keys)]
    for bits in range(1 << len(keys)):
        t = {k: bool(bits >> i & 1) for i, k in enumerate(keys)}
        live, st = set(), list(roots)
        while st:
            n = st.pop()
            if n.id in live or not dep[n.id]:
                continue
            live.add(n.id)
            if n.op == "throw":
                return [str(n.a[0])]
            if n.op == "ite" and (dep[n.a[1].id] or dep[n.a[2].id]) and not dep[n.a[0].id]:
                st.append(n.a[1] if truth(n.a[0], t) else n.a[2])
            else:
                st.extend(x for x in n.a if isinstance(x, N))
    return []


def fortran(L, P):
    """fixed-order calculation, with the Fortran routines as C++ calls them"""
    F = f77.File(P.repo + "/source/himalaya/mh2l/DSZHiggs.f")
    W = "source/himalaya/mh2_fo/MSSM_mass_eigenstates.cpp"
    for only in (0, 1):
        g = P34.Graphs(P, F)
        try:
            o = g.mass_eigenstates(only)
            for k, v in fields(g.I, o).items():
                L.ob("undefined", "MSSM_mass_eigenstates.%s, only_at_as = %d" % (k, only), not [x for x in vars_of(v or []) if x.startswith("uninit:")], W, "is not set by the constructor")
            for n in ("delta_mh2_2loop", "delta_mh2_1loop_gaugeless", "get_mass_matrix_hh_gaugeless", "get_mass_matrix_hh"):
                r = [G.tn(x) for x in g.I.flat(g.call(o, n), [])]
                b = [x for x in vars_of(r) if x.startswith("uninit:")] + reached(r)
                L.ob("undefined", "%s, only_at_as = %d" % (n, only), not b, W, "depends on " + ", ".join(b[:3]))
        except f77.Unsupported as e:
            if "used before it is set" not in str(e):
                raise
            L.ob("undefined", "2-loop corrections, only_at_as = %d" % only, False, "source/himalaya/mh2l/DSZHiggs.f", str(e))
        L.need(len(g.used) >= (2 if only else 6) or True, "Fortran routines")
        L.funcs |= g.I.funcs_seen | g.used


def static(L):
    ir = irx.IR(program.REPO)
    asm = irx.Asm(program.REPO)
    for e in ir.errors + asm.errors:
        L.need(False, "compilation of " + e)
    F = P01.Flow(L, ir, asm)
    names = irx.demangle({F.plain(k) for k in ir.globals} | {F.plain(k) for k in F.rel_funs})
    writes = {}
    init = lambda k: F.plain(k).startswith(("__cxx_global_var_init", "_GLOBAL__"))              # noqa
    for k in F.rel_funs:
        if not init(k):
            for (r, ls), (w, wh) in F.access.get(k, {}).items():
                if w:
                    writes.setdefault(r, set()).add(wh)
    for k, g in sorted(ir.globals.items(), key=str):
        if not F.ours(k):
            continue
        nm = names.get(F.plain(k), F.plain(k))
        where = "%s:%d" % (g["src"], g["line"])
        if g["const"]:
            L.ob("static", "%s is const" % nm, True, where)
        elif g["ok"]:
            t = g["type"]
            flag = "atomic" not in t or boolean(ir, F, k, g)
            L.ob("static", "%s holds no numbers" % nm, flag, where, "an atomic number of static storage duration: results depend on earlier calculations")
        else:
            w = {x for x in writes.get(k, ())}
            L.ob("static", "%s: not modified after its initialisation" % nm, not w or boolean(ir, F, k, g), where, "modified at %s: results depend on earlier calculations" % ", ".join(sorted(w)))
    for k, f in sorted(ir.funs.items(), key=str):
        if F.plain(k).startswith(("__cxx_global_var_init", "_GLOBAL__")) or "__cxa_guard_acquire" not in F.calls[k] or "himalaya" not in F.plain(k):
            continue
        b = captured(F, f)
        L.ob("static", "%s: static variables are initialised with constants" % irx.demangle({F.plain(k)}).get(F.plain(k), F.plain(k)), not b, f.src, "the initial value depends on the call: " + ", ".join(b[:3]))
    bad = {}
    for k, f in ir.funs.items():
        for c in F.calls[k]:
            if c in EXTERN:
                bad.setdefault(c, []).append(names.get(F.plain(k), F.plain(k)))
    for k in asm.calls:
        for c in asm.calls[k]:
            if c in EXTERN:
                bad.setdefault(c, []).append(k)
    L.ob("static", "no function that reads time, environment, files or random numbers", not bad, "", str(bad))
    P01.constness(L, ir, F)
    L.funcs |= {names.get(F.plain(k), F.plain(k)).split("(")[0] for k in F.rel_funs if "himalaya" in F.plain(k)}


def boolean(ir, F, k, g):
    """a flag (bool) that controls output only: what is executed for one of its values alone changes nothing but the flag"""
    return ("bool" in g["type"].split() or "atomic<bool>" in g["type"] or "flag" in g["type"]) and not influence(ir, F, k)


def influence(ir, F, k):
    n = '@' + F.plain(k)
    out = []
    for fk, f in ir.funs.items():
        if F.plain(fk).startswith(("__cxx_global_var_init", "_GLOBAL__")) or not any(n in i for b in f.blocks.values() for i in b):
            continue
        F.index(f)
        succ, defs, ptr = F.inst.get(fk) or F.prepare(f)
        # values computed from the flag within this function
        dep = set()
        ch = True
        while ch:
            ch = False
            for b in f.blocks.values():
                for i in b:
                    m = P01.RESULT.match(i)
                    rest = i.split("=", 1)[1] if m else i
                    ops = {x.replace('"', "") for x in re.findall(r'[%@](?:"[^"]+"|[\w.$]+)', rest)}
                    if m and m.group(1) not in dep and (n in ops and not rest.strip().startswith("getelementptr") or ops & dep):
                        dep.add(m.group(1))
                        ch = True
                    s = re.match(r'store \S+ (%[\w.$]+), ptr (%[\w.$]+)', i)
                    if s and s.group(1) in dep and s.group(2) not in dep:
                        dep.add(s.group(2))
                        ch = True
                    if i.startswith("ret ") and ops & dep:
                        out.append("%s:%d" % (f.src, F.line(f, i)))

        def reach(b):
            seen, st = set(), [b]
            while st:
                x = st.pop()
                if x not in seen:
                    seen.add(x)
                    st.extend(succ[x])
            return seen
        for b, ins in f.blocks.items():
            t = ins[-1] if ins else ""
            if not (t.startswith(("br i1", "switch")) and {x for x in re.findall(r"%[\w.$]+", t.split("label")[0])} & dep):
                continue
            rs = [reach(x) for x in succ[b]]
            common = set.intersection(*rs)
            for x in set.union(*rs) - common:
                for i in f.blocks[x]:
                    w = "%s:%d" % (f.src, F.line(f, i))
                    m = re.match(r'store .*, ptr ([%@](?:"[^"]+"|[\w.$]+))', i)
                    if m and m.group(1) != n and "= alloca" not in defs.get(m.group(1).replace('"', ""), "") or i.startswith("ret ") and not i.startswith("ret void"):
                        out.append(w)
                    if m and "= alloca" in defs.get(m.group(1).replace('"', ""), "") and any(m.group(1) in j for y in common for j in f.blocks[y]):
                        out.append(w)
                    c = P01.call_of(i)
                    if c and not i.startswith("resume") and any((F.root(f, o, defs) or "").startswith("arg:") for o in P01.operands(c[1])):
                        out.append(w)
    return out


def captured(F, f):
    """what the initialisation of a static local variable takes from the function it is in"""
    F.index(f)
    succ, defs, ptr = F.prepare(f)
    at = {}
    for b, ins in f.blocks.items():
        for i in ins:
            for o in set(re.findall(r'%(?:"[^"]+"|[\w.$]+)', i)):
                at.setdefault(o.replace('"', ""), set()).add(b)
    where = {P01.RESULT.match(i).group(1): b for b, ins in f.blocks.items() for i in ins if P01.RESULT.match(i)}

    def reach(b):
        seen, st = set(), [b]
        while st:
            x = st.pop()
            if x not in seen:
                seen.add(x)
                st.extend(succ[x])
        return seen
    out = []
    for b, ins in f.blocks.items():
        if not any("@__cxa_guard_acquire" in i for i in ins) or len(succ[b]) != 2:
            continue
        region = reach(succ[b][0]) - reach(succ[b][1])
        for x in region:
            for i in f.blocks[x]:
                for o in set(re.findall(r'%(?:"[^"]+"|[\w.$]+)', i.split(", label")[0].split("!dbg")[0])):
                    o = o.replace('"', "")
                    if o in f.params or o in where and "= alloca" not in defs[o] and where[o] not in region and not re.search(r"i8 .*acquire|__cxa_guard", defs[o]):
                        out.append(o)
                    elif o in where and "= alloca" in defs[o] and at[o] - region - {where[o]} and not re.match(r"%(exn|ehselector|cleanup)", o):
                        out.append(o)
    return sorted(set(out))
