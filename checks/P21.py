"""P21: result object and printing."""
import re
from fractions import Fraction as Fr
from hv import program, interp, field, cells, graph as G
from hv.graph import N
from hv.interp import Mat, Ref

LEVEL = "static"
RULE = ("every setter of HierarchyObject is interpreted on a fully symbolic object for every loop order (and out-of-range orders) and all getters are read before and after: the pair returns the value, every other getter and loop order keeps its own, "
        "invalid arguments throw and leave the object as it was; both stream operators are interpreted into the sequence of labels and values")
ASSUMPTIONS = ["std::array::at, std::to_string, std::ostream as specified"]
W = "source/himalaya/HierarchyObject.cpp"
WI = "source/himalaya/Himalaya_interface.cpp"
HO = "himalaya::HierarchyObject"
C_ = G.const

# setter -> getter, admissible first arguments (None: no loop argument), kind of value
PAIRS = {
    "setSuitableHierarchy": ("getSuitableHierarchy", None, "int"), "setAbsDiff2L": ("getAbsDiff2L", None, "num"), "setRelDiff2L": ("getRelDiff2L", None, "num"),
    "setDMhExpUncertainty": ("getDMhExpUncertainty", (1, 2, 3), "num"), "setDMh": ("getDMh", (0, 1, 2, 3), "mat"), "setDMh2": ("getDMh2", (0, 1, 2, 3), "num"),
    "setDMhDRbarPrimeToMDRbarPrimeShift": ("getDMhDRbarPrimeToMDRbarPrimeShift", None, "mat"), "setDMhDRbarPrimeToH3mShift": ("getDMhDRbarPrimeToH3mShift", None, "mat"),
    "setDLambdaH3m": ("getDLambdaH3m", None, "num"), "setDLambdaEFT": ("getDLambdaEFT", None, "num"), "setDLambdaNonLog": ("getDLambdaNonLog", None, "num"),
    "setDLambda": ("getDLambda", (0, 1, 2, 3), "num"), "setDLambdaDRbarPrimeToMSbarShift": ("getDLambdaDRbarPrimeToMSbarShift", (0, 1, 2, 3), "num"),
    "setDMh2EFT": ("getDMh2EFTAt", (0, 1, 2, 3), "num"), "setDMh2FO": ("getDMh2FO", (0, 1, 2, 3), "num"), "setDMh2FOAt": ("getDMh2FOAt", (0, 1, 2, 3), "num"),
}
NAMES = ["h3", "h32q2g", "h3q22g", "h4", "h5", "h5g1", "h6", "h6b", "h6b2qg2", "h6bq22g", "h6bq2g2", "h6g2", "h9", "h9q2"]


class Obj:
    def __init__(self, P, bottom=False):
        self.P = P
        self.I = interp.Interp(P)
        ct = [x for x in P.by_qn[HO + "::HierarchyObject"] if len(x.params) == 1 and not x.d["defaulted"]][0]
        self.o = self.I.construct(ct, [bottom])

    def do(self, name, *a):
        """value, or 'throw'"""
        n = len(self.I.throws)
        try:
            r = self.I.call(self.P.fn(HO + "::" + name, len(a)), list(a), self.o)
        except Exception as e:
            if type(e).__name__ in ("Thrown", "CppThrow", "Throw"):
                return "throw"
            raise
        if len(self.I.throws) > n and not self.I.throws[-1][0]:
            return "throw"
        return self.flat(r)

    def flat(self, r):
        while isinstance(r, Ref):
            r = self.I.get(r)
        return tuple(self.I.flat(r, [])) if isinstance(r, Mat) else r

    def fill(self):
        """distinct symbols everywhere"""
        for s, (g, loops, kind) in PAIRS.items():
            for l in loops or (None,):
                self.do(s, *(([l] if l is not None else []) + [value("v:%s:%s" % (g, l), kind)]))
        self.do("setDLambdaXtUncertainty", G.var("v:xt"))
        self.do("setMDRMasses", Mat(2, 1, [C_(300), C_(700)]))

    def state(self):
        st = {}
        for s, (g, loops, kind) in PAIRS.items():
            for l in loops or (None,):
                st[(g, l)] = self.do(g, *([l] if l is not None else []))
        for g in ("getMDRMasses", "getMDRFlag", "getRenormalizationScheme", "getIsAlphab"):
            st[(g, None)] = self.do(g)
        for l in (0, 1, 2, 3):
            st[("getDLambdaUncertainty", l)] = self.do("getDLambdaUncertainty", l)
        return st


def value(tag, kind):
    if kind == "mat":
        return Mat(2, 2, [G.var("%s[%d]" % (tag, i)) for i in range(4)])
    return 7 if kind == "int" else G.var(tag)


def same(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, str) or isinstance(b, str) or isinstance(a, tuple) or isinstance(b, tuple) or a is None or b is None:
        return a == b
    if isinstance(a, (bool, int)) and isinstance(b, (bool, int)):
        return int(a) == int(b)
    a, b = G.tn(a), G.tn(b)
    return a is b or _eq(a, b)


def _eq(a, b):
    try:
        return field.equal(a, b)
    except field.Undecided:
        return False


def name(g, l):
    return g + ("" if l is None else "(%d)" % l)


def run(L):
    P = program.Program()
    for q in [s for s in PAIRS] + [v[0] for v in PAIRS.values()] + ["setMDRMasses", "getMDRMasses", "setMDRFlag", "setRenormalizationScheme", "getDLambdaUncertainty"]:
        L.need(P.by_qn.get(HO + "::" + q), "HierarchyObject::" + q)
    initial(L, P)
    O = Obj(P)
    O.fill()
    base = O.state()
    for k, v in base.items():
        if k[0] in [p[0] for p in PAIRS.values()]:
            kind = [p[2] for p in PAIRS.values() if p[0] == k[0]][0]
            w = value("v:%s:%s" % k, kind)
            w = tuple(w.d) if isinstance(w, Mat) else w
            L.ob("own value", name(*k), same(v, w), W, "does not return what has been stored (another setter writes to it)")
    xt = G.add(G.fn("abs", G.var("v:xt")), G.fn("abs", G.sub(G.var("v:getDLambdaEFT:None"), G.var("v:getDLambdaH3m:None"))))
    for l, w in ((0, C_(0)), (1, C_(0)), (2, C_(0)), (3, xt)):
        u = base[("getDLambdaUncertainty", l)]
        ok = not isinstance(u, str) and all(abs(num(u, s) - num(w, s)) < 1e-12 for s in range(6))
        L.ob("uncertainty", "Delta lambda, %d loops" % l, ok, W, "not |X_t part| + |EFT logs - H3m logs| at 3 loops, zero below")
    for s, (g, loops, kind) in PAIRS.items():
        for l in loops or (None,):
            new = value("new", kind) if kind != "int" else 11
            O = Obj(P)
            O.fill()
            r = O.do(s, *(([l] if l is not None else []) + [new]))
            st = O.state()
            w = tuple(new.d) if isinstance(new, Mat) else new
            L.ob("set and get", name(s, l), r != "throw" and same(st[(g, l)], w), W, "%s does not return the value set by %s" % (name(g, l), name(s, l)))
            dep = {("getDLambdaUncertainty", 3)} if g in ("getDLambdaEFT", "getDLambdaH3m") else set()
            bad = [name(*k) for k in base if k != (g, l) and k not in dep and not same(st[k], base[k])]
            L.ob("independence", name(s, l), not bad, W, "also changes %s" % ", ".join(bad))
        if loops:
            for l in [x for x in (-2, -1, 0, 1, 2, 3, 4, 5, 100) if x not in loops]:
                O = Obj(P)
                O.fill()
                r = O.do(s, l, value("new", kind))
                st = O.state()
                L.ob("range", name(s, l), r == "throw" and all(same(st[k], base[k]) for k in base), W, "a loop order that does not exist is not rejected")
                L.ob("range", name(g, l), O.do(g, l) == "throw", W, "a loop order that does not exist is not rejected")
        L.funcs |= O.I.funcs_seen
    for l in (-1, 4, 7):
        L.ob("range", "getDLambdaUncertainty(%d)" % l, O.do("getDLambdaUncertainty", l) == "throw", W, "a loop order that does not exist is not rejected")
    flags(L, P, base)
    masses(L, P, base)
    notation(L, P)
    printing(L, P)
    L.assumptions += ASSUMPTIONS


def num(n, seed):
    pt = cells.Num(lambda v: Fr((hash_(v) + 31 * seed) % 101 - 50, 7))
    return float(pt.val(G.tn(n)))


def hash_(s):
    h = 0
    for c in s:
        h = (h * 131 + ord(c)) % 1000003
    return h


def initial(L, P):
    for bottom in (False, True):
        O = Obj(P, bottom)
        st = O.state()
        for k, v in st.items():
            if k[0] == "getIsAlphab":
                ok = bool(v) == bottom
            elif k[0] == "getRenormalizationScheme":
                ok = int(v) == 1
            else:
                ok = all(same(x, 0) for x in (v if isinstance(v, tuple) else (v,)))
            L.ob("initial", "%s, %s" % ("bottom" if bottom else "top", name(*k)), ok, W, "not %s after construction" % ("the constructor argument" if k[0] == "getIsAlphab" else "DR'" if "Renorm" in k[0] else "zero"))


def flags(L, P, base):
    for s, g, good in (("setMDRFlag", "getMDRFlag", (0, 1)), ("setRenormalizationScheme", "getRenormalizationScheme", (0, 1, 2, 3))):
        for x in range(-3, 8):
            O = Obj(P)
            O.fill()
            r = O.do(s, x)
            st = O.state()
            rest = all(same(st[k], base[k]) for k in base if k != (g, None))
            if x in good:
                ok = r != "throw" and same(st[(g, None)], x) and rest
            else:
                ok = r == "throw" and same(st[(g, None)], base[(g, None)]) and rest
            L.ob("flag", "%s(%d)" % (s, x), ok, W, "%s" % ("valid flag not stored" if x in good else "invalid flag not rejected"))


def masses(L, P, base):
    for a, b in ((300, 700), (700, 300), (500, 500)):
        O = Obj(P)
        O.fill()
        O.do("setMDRMasses", Mat(2, 1, [G.var("m:0"), G.var("m:1")]))
        r = O.do("getMDRMasses")
        pt = cells.Num(lambda v: Fr({"m:0": a, "m:1": b}[v]))
        ok = len(r) == 2 and pt.val(G.tn(r[0])) == min(a, b) and pt.val(G.tn(r[1])) == max(a, b)
        L.ob("MDR masses", "%d, %d" % (a, b), ok, W, "not stored in ascending order")
        st = O.state()
        L.ob("independence", "setMDRMasses %d, %d" % (a, b), all(same(st[k], base[k]) for k in base if k[0] != "getMDRMasses"), W, "changes another quantity")


def notation(L, P):
    O = Obj(P)
    e = [dict(v["vals"]) for q, v in P.enums.items() if q.endswith("::Hierarchies") and "h6bq2g2" in dict(v["vals"])]
    L.need(e, "enumeration of the hierarchies")
    for n in NAMES:
        r = O.do("getH3mHierarchyNotation", e[0][n])
        L.ob("notation", n, text(r) == n, W, "hierarchy %d is called %s" % (e[0][n], text(r)))


def text(r):
    return r if isinstance(r, str) else str(r)


def lines(items):
    """text of the stream with every value as {symbol}"""
    out = ""
    for c, x in items:
        if c:
            raise program.AnalysisBroken("conditional output")
        if isinstance(x, str):
            out += x
        elif isinstance(x, int) and x == 10:
            out += "\n"
        else:
            out += "{%s}" % (x if isinstance(x, (int, bool)) else repr_(x))
    try:
        out = out.encode("latin1").decode("utf8")     # literals are kept as bytes
    except UnicodeError:
        pass
    return out.split("\n")


def repr_(x):
    x = G.tn(x) if not isinstance(x, N) else x
    if x.op == "v":
        return x.a[0]
    if x.op == "c":
        return str(x.a[0])
    return "n%d" % x.id


def printing(L, P):
    I = interp.Interp(P)
    p = I.sym("himalaya::Parameters", "p")
    par = ho = None
    for x in P.by_qn["himalaya::operator<<"]:
        ty = str(x.tu.types[x.params[1][2]])
        if "HierarchyObject" in ty:
            ho = (x, None)
        elif "Parameters" in ty:
            par = interp.Stream("o")
            I.call(x, [par, p])
    L.need(par is not None and ho is not None, "stream operators of Parameters and HierarchyObject")
    ls = lines(par.items)
    for k, v in p.f.items():
        if k.startswith("theta") or k == "massLimit3LThreshold":
            continue
        want = ["p.%s" % k] if not isinstance(v, Mat) else ["p.%s(%d,%d)" % (k, i, j) for i in range(3) for j in range(3)] if v.c == 3 else ["p.%s(%d)" % (k, i) for i in range(2)]
        hit = [l for l in ls if re.match(r"\s*%s\s*=" % re.escape(k), l)]
        ok = len(hit) == 1 and re.findall(r"\{(p\.[^}]*)\}", hit[0]) == want
        L.ob("printing", "Parameters, %s" % k, ok, WI, "line is %s" % (hit or "missing"))
    L.funcs |= I.funcs_seen
    x, _ = ho
    for bottom in (False, True):
        O = Obj(P, bottom)
        O.fill()
        O.do("setSuitableHierarchy", 5)
        O.do("setMDRMasses", Mat(2, 1, [G.var("m:0"), G.var("m:0")]))
        s = interp.Stream("o")
        O.I.call(x, [s, O.o])
        ls = lines(s.items)
        q = lambda g, l=None: "v:%s:%s" % (g, l)    # noqa
        m = lambda g, l=None: ["%s[%d]" % (q(g, l), i) for i in range(4)]    # noqa
        part = "Msbottom" if bottom else "Mstop"
        exp = [("Ren. scheme", None, "DR'"), ("Hierarchy", ["5"], "(h5g1)"), (part + "_1", ["m:0"], ""), (part + "_2", ["m:0"], ""), ("Abs. diff 2L", [q("getAbsDiff2L")], ""),
               ("DR' -> MDR' shift", m("getDMhDRbarPrimeToMDRbarPrimeShift"), ""), ("DR' -> H3m shift", m("getDMhDRbarPrimeToH3mShift"), ""),
               ("Mh^2_EFT_0L", [q("getDMh2EFTAt", 0)], ""), ("Mh^2_FO_0L", [q("getDMh2FO", 0)], ""), ("Mh^2_0L", m("getDMh", 0), "")]
        for l in (1, 2, 3):
            exp += [("\u0394Mh^2_%dL" % l, m("getDMh", l), ""), ("Exp. uncert. %dL" % l, [q("getDMhExpUncertainty", l)], ""), ("\u0394Mh^2_EFT_%dL" % l, [q("getDMh2EFTAt", l)], "")]
        for l in (0, 1, 2, 3):
            exp.append(("\u0394\u03bb_%dL DR' -> MS shift" % l, [q("getDLambdaDRbarPrimeToMSbarShift", l)], ""))
            if l < 3:
                exp.append(("\u0394\u03bb_%dL" % l, [q("getDLambda", l)], ""))
        for lab, want, has in exp:
            hit = [y for y in ls if y.split("=")[0].strip() == lab]
            got = re.findall(r"\{+([^{}]*)\}", hit[0]) if hit else None
            ok = len(hit) == 1 and (want is None or got == want) and has in hit[0]
            L.ob("printing", "HierarchyObject%s, %s" % (" (bottom)" if bottom else "", lab), ok, W, "line is %s" % (hit or "missing"))
        for l in (1, 2, 3):
            hit = [y for y in ls if y.split("=")[0].strip() == "\u0394Mh^2_FO_%dL" % l]
            got = [re.findall(r"\{+([^{}]*)\}", y)[0] for y in hit]
            ok = got == [q("getDMh2FOAt", l), q("getDMh2FO", l)]
            L.ob("printing", "HierarchyObject%s, fixed order, %d loops" % (" (bottom)" if bottom else "", l), ok, W, "lines are %s" % hit)
    L.funcs |= O.I.funcs_seen
