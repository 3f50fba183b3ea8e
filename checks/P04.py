"""P04: the Mathematica interface hands its options to the calculation and the results back, unchanged and complete."""
import re
from fractions import Fraction as Fr
from hv import program, interp, wl, cells, field, frame, graph as G
from hv.graph import N
from hv.interp import Obj, Mat, Arr, Ref, Opq, Stream, copyv
from checks import P22

LEVEL = "static"
RULE = ("the definitions of Himalaya_LibraryLink.m are evaluated (own evaluator: options, pattern matching, lists) for calls with symbolic option values; the resulting argument list is the input of an interpretation of the exported C++ function, in which the functions of the "
        "link are replaced by an automaton that delivers these values and builds the answer as an expression tree.  The parameter object that reaches the calculation must contain the value of each option in the field of this name; the answer must be one complete expression "
        "on every path, with the documented keys, whose values are those the result object returns; output is captured while the calculation runs and the streams are restored on every path")
ASSUMPTIONS = ["semantics of the link functions MLPut*/MLGet* and of OptionValue as documented by Wolfram", "the call of the library function itself (LibraryFunctionLoad with LinkObject) passes its argument list as one packet"]
D = "source/himalaya/LibraryLink/"
LL = D + "Himalaya_LibraryLink.cpp"
M = D + "Himalaya_LibraryLink.m"
HC = "himalaya::HierarchyCalculator"
HO = "himalaya::HierarchyObject"
S = wl.Sym
OPTIONAL = ("MW", "MZ", "Mt", "Mb", "Mtau")
PAIRS = {"MSt": "s2t", "MSb": "s2b", "MStau": "s2tau"}
FIELD = {"M3": "MG"}
ML = ("MLPutSymbol MLPutInteger MLPutInteger32 MLPutInteger64 MLPutReal MLPutReal64 MLPutString MLPutFunction MLPutRealList MLPutReal64List MLPutInteger32List MLPutDoubleArray MLPutReal64Array "
      "MLPutUTF8Symbol MLPutUTF8String MLCheckFunction MLTestHead MLTestFunction MLGetReal MLGetReal64 MLGetReal64List MLGetInteger MLGetInteger32 MLReleaseReal64List MLNewPacket MLNextPacket MLEndPacket MLFlush MLError MLClearError").split()


class Bad(Exception):
    pass


class Link:
    """the link, the streams and the calculation as seen by the interface"""

    def __init__(self, P, args, point, fail=None, parts=None):
        self.P = P
        self.args, self.pos = list(args), 0
        self.argc = 1
        self.fail = fail
        self.ev = []
        self.bufs = {}
        self.text = []          # captured, not yet fetched lines
        self.printed = []
        self.lost = []
        self.calc = []
        self.ended = 0
        self.num = cells.Num(point.__getitem__)
        self.I = I = parts.I if parts else interp.Interp(P)
        for q in ML:
            I.intr[q] = self.ml(q)
        I.intr["std::getline"] = self.getline
        I.on_method = self.method
        if parts is None:
            I.on_call = self.call
            I.on_construct = self.construct
        I.decide_cb = self.decide
        self.parts = parts

    def decide(self, c):
        try:
            return bool(self.num.cond(c))
        except (cells.NoValue, KeyError, TypeError, ZeroDivisionError, AttributeError):
            return None

    # ---------------------------------------------------------- the link
    def deref(self, F, p):
        while isinstance(p, frame.Ptr):
            p = p.ref
        while isinstance(p, Ref):
            p = self.I.get(p)
        return p

    def out(self, p, v):
        while isinstance(p, frame.Ptr):
            p = p.ref
        self.I.put(p, v)

    def ints(self, v):
        if isinstance(v, N):
            v = v.a[0] if v.op == "c" else None
        if v is None or int(v) != v:
            raise Bad("length handed to the link is not a constant")
        return int(v)

    def numbers(self, F, p):
        """the array a pointer argument points to"""
        while isinstance(p, frame.Ptr):
            p = p.ref
        if isinstance(p, Ref):
            c = self.I.get(p)
            if isinstance(c, (Arr, Mat)):
                p = c
            else:
                p = p.c if isinstance(p.c, (Arr, Mat)) and p.k in (0, (0, 0)) else c
        return [G.tn(x) if not isinstance(x, (bool, int)) else G.const(int(x)) for x in self.I.flat(p, [])]

    def ml(self, name):
        def f(F, a, e):
            a = a[1:]
            v = [x if isinstance(x, frame.Ptr) else self.deref(F, x) for x in a]
            b = name
            if b in ("MLPutSymbol", "MLPutUTF8Symbol", "MLPutString", "MLPutUTF8String"):
                s = self.deref(F, v[0])
                if isinstance(s, Opq):
                    s = s.n
                if b.startswith("MLPutUTF8") and isinstance(s, str) and isinstance(v[1], (int, N)):
                    n = self.ints(v[1])
                    if n != len(s.encode()):
                        raise Bad("%s of %r with length %d" % (b, s, n))
                self.ev.append(("sym" if "Symbol" in b else "str", s))
            elif b in ("MLPutInteger", "MLPutInteger32", "MLPutInteger64", "MLPutReal", "MLPutReal64"):
                self.ev.append(("num", G.tn(v[0]) if isinstance(v[0], N) else G.const(int(v[0]))))
            elif b == "MLPutFunction":
                self.ev.append(("fun", self.deref(F, v[0]), self.ints(v[1])))
            elif b in ("MLPutRealList", "MLPutReal64List", "MLPutInteger32List"):
                d = self.numbers(F, v[0])
                n = self.ints(v[1])
                if n > len(d):
                    raise Bad("%s reads %d of %d elements" % (b, n, len(d)))
                self.ev.append(("tree", ("List", [("num", x) for x in d[:n]])))
            elif b in ("MLPutDoubleArray", "MLPutReal64Array"):
                d = self.numbers(F, v[0])
                dims = [self.ints(x) for x in self.numbers(F, v[1])][:self.ints(v[3])]
                if len(dims) < self.ints(v[3]):
                    raise Bad("%s: fewer dimensions than the depth" % b)
                n = 1
                for k in dims:
                    n *= k
                if n > len(d):
                    raise Bad("%s reads %d of %d elements" % (b, n, len(d)))

                def nest(d, dims):
                    if len(dims) == 1:
                        return ("List", [("num", x) for x in d])
                    s = len(d) // dims[0]
                    return ("List", [nest(d[i * s:(i + 1) * s], dims[1:]) for i in range(dims[0])])
                self.ev.append(("tree", nest(d[:n], dims)))
            elif b in ("MLCheckFunction", "MLTestHead", "MLTestFunction"):
                first = b == "MLCheckFunction" and not self.pos and not self.calc
                if self.fail == b:
                    return 0
                if self.deref(F, v[0]) != "List":
                    return 0
                if b == "MLCheckFunction" and not getattr(self, "outer", False):
                    self.outer = True
                    self.out(a[1], self.argc)
                else:
                    self.out(a[1], len(self.args))
            elif b in ("MLGetReal", "MLGetReal64", "MLGetInteger", "MLGetInteger32"):
                if self.pos >= len(self.args) or (self.fail == "MLGet" and self.pos == len(self.args) // 2):
                    return 0
                self.out(a[0], self.args[self.pos])
                self.pos += 1
            elif b == "MLNewPacket":
                if self.fail == b:
                    return 0
            elif b == "MLEndPacket":
                self.ended += 1
            elif b in ("MLError",):
                return 0
            elif b not in ("MLFlush", "MLClearError", "MLNextPacket", "MLReleaseReal64List"):
                raise program.AnalysisBroken("link function %s is not modelled" % b)
            return 1
        return f

    # ---------------------------------------------------------- streams
    def getline(self, F, a, e):
        st = self.deref(F, a[0])
        if not isinstance(st, Stream):
            return NotImplemented
        if self.text:
            self.out(a[1], self.text.pop(0))
            return 1
        return 0

    def sid(self, o):
        while isinstance(o, Ref):
            o = self.I.get(o)
        if not isinstance(o, Stream):
            return None
        return o.name if o.name in ("std::cout", "std::cerr", "std::clog") else id(o)

    def method(self, F, qn, o, argx, e):
        b = qn.split("::")[-1]
        if b == "operator bool" and isinstance(o, int):     # the result of getline
            return int(o)
        s = self.sid(o)
        if s is None:
            return NotImplemented
        if b == "rdbuf":
            old = self.bufs.get(s, ("buffer of", s))
            if argx:
                v = F.rv(argx[0])
                while isinstance(v, (Ref, frame.Ptr)):
                    v = self.I.get(v) if isinstance(v, Ref) else v.ref
                self.bufs[s] = v
            return BufPtr(old)
        if b in ("operator bool", "good"):
            return 1
        return NotImplemented

    def captured(self):
        return all(isinstance(self.bufs.get(s), BufPtr) and isinstance(self.bufs[s].b[1], int) for s in ("std::cout", "std::cerr"))

    def restored(self):
        return all(s not in self.bufs or isinstance(self.bufs[s], BufPtr) and self.bufs[s].b == ("buffer of", s) for s in ("std::cout", "std::cerr"))

    # ---------------------------------------------------------- the calculation
    def say(self, what):
        if self.captured():
            self.text.append(what)
            self.printed.append(what)
        else:
            self.lost.append(what)

    def construct(self, I, f, args):
        cls = f.d["cls"]
        if cls in (HC, "himalaya::mh2_eft::Mh2EFTCalculator", "himalaya::mh2_fo::MSSM_mass_eigenstates"):
            if len(args) == 1 and isinstance(self.deref(None, args[0]), Obj) and self.deref(None, args[0]).cls == cls:
                return NotImplemented
            a = [self.deref(None, x) for x in args]
            o = Obj(cls)
            o.f["par"] = copyv(a[0])
            o.f["flags"] = tuple(str(x) for x in a[1:])
            o.f["log"] = ()
            self.calc.append(("new", cls.split("::")[-1], copyv(a[0]), a[1:]))
            self.say(cls.split("::")[-1])
            return o
        return NotImplemented

    def call(self, I, f, args, this):
        q, b = f.qn, f.qn.split("::")[-1]
        while isinstance(this, (Ref, frame.Ptr)):
            this = I.get(this) if isinstance(this, Ref) else this.ref
        if q == "himalaya::Parameters::validate":
            for ref in leafrefs(I, this):
                v = I.get(ref)
                if isinstance(v, N) and not (v.op == "f" and v.a[0] == "valid"):
                    I.put(ref, G.fn("valid", v))
            self.calc.append(("validate", None, None, [self.deref(None, x) for x in args]))
            self.say("validate")
            return None
        if isinstance(this, Obj) and this.cls in (HC, "himalaya::mh2_eft::Mh2EFTCalculator", "himalaya::mh2_fo::MSSM_mass_eigenstates") and "par" in this.f:
            a = [self.deref(None, x) for x in args]
            self.calc.append((b, this.cls.split("::")[-1], this.f["par"], a))
            self.say(b)
            if self.fail == b or self.fail == "calc":
                I.throws.append((tuple(I.cond), (f.file, 0), "fault"))
                return G.throw("fault")
            if b == "calculateDMh3L":
                o = I.sym(HO, "ho")
                for s in ("setSuitableHierarchy", ):
                    I.call(self.P.fn(HO + "::" + s, 1), [self.hier], o)
                k = [x for x in o.f if "lphab" in x]
                for x in k:
                    o.f[x] = truthy(a[0]) if a else False
                self.ho = o
                return copyv(o)
            return I.shaped(f.ret(), b, [G.fn("flags:" + "|".join(this.f["flags"]))] + [G.tn(x) if isinstance(x, N) else G.const(int(x)) for x in a])
        return NotImplemented

    hier = 0
    ho = None

    def run(self):
        f = self.P.fn("HimalayaCalculateDMh3L", 2)
        self.rc = self.I.call(f, [None, G.var("link")], None)
        return self.rc


class BufPtr:
    def __init__(self, b):
        self.b = b

    def __repr__(self):
        return "buf(%s)" % (self.b,)


def truthy(v):
    if isinstance(v, N):
        return bool(v.a[0]) if v.op == "c" else v
    return bool(v)


def leafrefs(I, o):
    for k, v in list(o.f.items()):
        if isinstance(v, Mat):
            for i in range(len(v.d)):
                yield Ref(v, (i % v.r, i // v.r)) if False else MRef(v, i)
        else:
            yield Ref(o, k)


class MRef(Ref):
    """element of a matrix by storage position"""

    def __init__(self, m, i):
        Ref.__init__(self, m, i)


def tree(ev):
    """the one expression that a sequence of put calls amounts to"""
    pos = [0]

    def rd(depth=0):
        if pos[0] >= len(ev):
            raise Bad("the answer ends before the expression is complete")
        x = ev[pos[0]]
        pos[0] += 1
        if x[0] == "fun":
            return (x[1], [rd(depth + 1) for _ in range(x[2])])
        if x[0] == "tree":
            return x[1]
        return x
    if not ev:
        return None
    t = rd()
    if pos[0] != len(ev):
        raise Bad("%d further items follow the complete answer" % (len(ev) - pos[0]))
    return t


def split(t):
    """(messages, rest): CompoundExpression[f[text], rest]"""
    ms = []
    while isinstance(t, tuple) and t[0] == "CompoundExpression" and len(t[1]) == 2:
        m = t[1][0]
        if len(m[1]) != 1 or m[1][0][0] != "str":
            raise Bad("message %s" % (m,))
        ms.append((m[0], m[1][0][1]))
        t = t[1][1]
    return ms, t


def show(t):
    if isinstance(t, tuple) and t and t[0] == "num":
        return G.show(t[1], 3) if hasattr(G, "show") else str(t[1])
    if isinstance(t, tuple) and t and t[0] == "List":
        return "{" + ", ".join(map(show, t[1])) + "}"
    return str(t)


def run(L):
    P = program.Program(only=lambda s: True)
    import os
    mf = os.path.join(P.repo, M)
    L.need(os.path.exists(mf), M)
    L.need(P.by_qn.get("HimalayaCalculateDMh3L"), "exported function HimalayaCalculateDMh3L")
    W = wl.Eval(wl.parse(open(mf, encoding="utf-8").read()))
    iface(L, P, W)
    docs(L, P, W)
    L.assumptions += ASSUMPTIONS


def iface(L, P, W):
    X = Session(L, P, W)
    X.inputs()
    X.results()
    X.failures()
    X.consistency()
    L.funcs |= X.funcs


def rule(k, v):
    return wl.E("Rule", S(k), v)


class Session:
    def __init__(self, L, P, W):
        self.L, self.P, self.W = L, P, W
        self.funcs = set()
        ev = W.ev
        self.opts = {r.a[0]: r.a[1] for r in W.options(S("HimalayaCalculateDMh3L"))}
        self.settings = [x for x in ("bottom", "loopOrder", "verbose")]
        init = interp.Interp(P)
        self.fields = P.records["himalaya::Parameters"]
        self.names = [k for k in self.opts if k not in self.settings]
        # the symbol the library function is loaded into, and the name it is loaded by
        r = [x for l, rhs in W.defs.get(S("InitializeHimalaya"), []) for x in walk(rhs) if isinstance(x, wl.E) and x.h == "LibraryFunctionLoad"]
        self.libsym = [x.a[0] for l, rhs in W.defs.get(S("InitializeHimalaya"), []) for x in walk(rhs) if isinstance(x, wl.E) and x.h == "Set" and isinstance(x.a[1], wl.E) and x.a[1].h == "LibraryFunctionLoad"]
        L.ob("interface.load", "InitializeHimalaya", len(r) == 1 and r[0].a[1] == "HimalayaCalculateDMh3L" and [str(x) for x in r[0].a[2:]] == ["LinkObject", "LinkObject"] and len(self.libsym) == 1, M,
             "the exported function HimalayaCalculateDMh3L is loaded with a link for its arguments and its result")
        if len(self.libsym) != 1:
            raise program.AnalysisBroken("no symbol holds the library function")

    def sym(self, k):
        """a symbolic value of the shape of the default of the option"""
        d = self.opts[k]
        if isinstance(d, wl.E) and d.h == "List":
            if isinstance(d.a[0], wl.E):
                return wl.E("List", *[wl.E("List", *[S("%s$%d$%d" % (k, i, j)) for j in range(len(d.a[i].a))]) for i in range(len(d.a))])
            return wl.E("List", *[S("%s$%d" % (k, i)) for i in range(len(d.a))])
        return S(k + "$v")

    def arglist(self, given, settings):
        """the list the library function is called with"""
        call = wl.E(S("HimalayaCalculateDMh3L"), rule("settings", wl.E("List", *[rule(k, v) for k, v in settings.items()])), rule("parameters", wl.E("List", *[rule(k, self.sym(k)) for k in given])))
        r = self.W.ev(call)
        if not (isinstance(r, wl.E) and r.h == self.libsym[0] and len(r.a) == 1 and isinstance(r.a[0], wl.E) and r.a[0].h == "List"):
            raise program.AnalysisBroken("the call of the library function is not evaluated: %s" % str(r)[:200])
        out = []
        for x in r.a[0].a:
            if isinstance(x, Fr):
                out.append(G.const(x))
            elif isinstance(x, S):
                out.append(G.var(str(x)))
            else:
                raise program.AnalysisBroken("argument %s" % str(x)[:100])
        return out

    def point(self, **kw):
        pt = {}
        for k in self.names:
            s = self.sym(k)
            for n, y in enumerate(walk(s)):
                if isinstance(y, S):
                    base = Fr(1, 3) if k.startswith("s2") else Fr(100 + 7 * len(pt), 1)
                    pt[str(y)] = kw.get(str(y), base)
        return pt

    def default(self, field):
        I = interp.Interp(self.P)
        o = I.new_obj(self.fields, "d")
        return o

    def expected(self, given):
        """field -> value for the given options"""
        d = self.default(None)
        I = interp.Interp(self.P)
        e = {}
        for k, v in d.f.items():
            e[k] = v
        for k in given:
            if k in PAIRS or k in PAIRS.values():
                continue
            e[FIELD.get(k, k)] = tonode(self.sym(k))
        for k, s in PAIRS.items():
            if k in given and s in given:
                e[k] = tonode(self.sym(k))
                e[s] = tonode(self.sym(s))
        return e

    def link(self, given, settings, fail=None, point=None, parts=None):
        lk = Link(self.P, self.arglist(given, settings), point or self.point(), fail, parts)
        return lk

    def go(self, lk, what, where=LL):
        n = len(lk.I.notes)
        try:
            lk.run()
        except Bad as x:
            self.L.ob("answer.complete", what, False, where, str(x))
            return False
        self.funcs |= lk.I.funcs_seen
        bad = [x for x in lk.I.notes[n:] if "unknown" in x and ("ML" in x)]
        if bad:
            raise program.AnalysisBroken("; ".join(sorted(set(bad))[:4]))
        return True

    # ---------------------------------------------------------------- inputs
    def inputs(self):
        L = self.L
        mand = [k for k in self.names if k not in OPTIONAL and k not in PAIRS and k not in PAIRS.values()]
        allk = list(self.names)
        fields = [k for k in self.default(None).f]
        L.ob("option.known", "options", sorted(FIELD.get(k, k) for k in self.names) == sorted(k for k in fields if k in fields and not k.startswith("_")) or
             not [k for k in self.names if FIELD.get(k, k) not in fields], M, "each option names a field of Parameters: %s" % [k for k in self.names if FIELD.get(k, k) not in fields])
        # every field of Parameters can be set by an option
        tag = P_fields(self.P)
        miss = [k for k in tag if k not in [FIELD.get(n, n) for n in self.names] and not k.startswith("theta_") and k != "massLimit3LThreshold"]      # the mixing angles follow from s2t, s2b, s2tau
        L.ob("option.complete", "Parameters", not miss, M, "every field of Parameters is an option; missing: %s" % miss)
        cases = [("all", allk, None), ("mandatory", mand, None)]
        for k in OPTIONAL:
            cases.append(("only " + k, mand + [k], None))
            cases.append(("without " + k, [x for x in allk if x != k], None))
        for k, s in PAIRS.items():
            cases.append(("only " + k, mand + [k, s], None))
            cases.append(("without " + k, [x for x in allk if x not in (k, s)], None))
        for k, s in PAIRS.items():
            # incomplete or impossible: as if not given
            cases.append((k + " without " + s, [x for x in allk if x != s], None))
            cases.append((s + " without " + k, [x for x in allk if x != k], None))
            for i in (0, 1):
                cases.append(("%s[%d] not positive" % (k, i), allk, {"%s$%d" % (k, i): Fr(-1)}))
            for v in (2, -2):
                cases.append(("%s = %d" % (s, v), allk, {s + "$v": Fr(v)}))
        for v in (1, -1, 0):
            cases.append(("sines %d" % v, allk, {s + "$v": Fr(v) for s in PAIRS.values()}))
        cases.append(("negative", allk, {k + "$v": Fr(-350) for k in ("mu", "M1", "M2", "M3")}))
        for nm, given, kw in cases:
            for lo in ((3,) if nm not in ("all", "mandatory") else (3, 2)):
                lk = self.link(given, {"loopOrder": Fr(lo)}, point=self.point(**(kw or {})))
                key = "%s, loop order %d" % (nm, lo)
                if not self.go(lk, key):
                    continue
                objs = [c for c in lk.calc if c[0] == "new"]
                L.ob("input.used", key, bool(objs), LL, "a calculation is performed")
                L.ob("input.consumed", key, lk.pos == len(lk.args), LL, "all %d values sent by the Mathematica part are read (%d)" % (len(lk.args), lk.pos))
                exp = self.expected([x for x in given if not self.invalid(x, kw or {})])
                for c in objs:
                    self.compare(key + ", " + c[1], c[2], exp, c[1] == "HierarchyCalculator", lk)

    def invalid(self, x, kw):
        """masses must be positive and sines at most one in magnitude, otherwise the pair counts as not given"""
        for k, s in PAIRS.items():
            if x in (k, s):
                return any(y.startswith(k + "$") and v <= 0 or y == s + "$v" and abs(v) > 1 for y, v in kw.items())
        return False

    def compare(self, key, par, exp, selfvalid, lk):
        L = self.L
        for f, v in exp.items():
            got = par.f.get(f)
            a, b = nodes(got), nodes(v)
            ok = len(a) == len(b)
            valid = True
            for x, y in zip(a, b):
                if isinstance(x, N) and x.op == "f" and x.a[0] == "valid":
                    x = x.a[1]
                else:
                    valid = False
                ok = ok and same(x, y)
            L.ob("input.field", "%s: %s" % (key, f), ok, LL, "Parameters::%s is the value of the option (or its default): %s instead of %s" % (f, short(a), short(b)) if not ok else "")
            if f in ("MSt", "s2t", "MW") and not selfvalid:
                L.ob("input.validated", "%s: %s" % (key, f), valid, LL, "the parameters are validated before the calculation (only HierarchyCalculator does this itself)")

    # ---------------------------------------------------------------- results
    def results(self):
        L, P = self.L, self.P
        allk = list(self.names)
        hs = [0, 5, 11]
        for bottom in (0, 1):
            for verbose in (0, 1):
                for lo in (0, 1, 2, 3, 4):
                    for h in (hs if lo == 3 and verbose else hs[:1]):
                        key = "bottom=%d verbose=%d loopOrder=%d hierarchy=%d" % (bottom, verbose, lo, h)
                        lk = self.link(allk, {"bottom": S("True" if bottom else "False"), "loopOrder": Fr(lo), "verbose": S("True" if verbose else "False")})
                        lk.hier = h
                        if self.go(lk, key):
                            self.answer(lk, key, bottom, verbose, lo)

    def answer(self, lk, key, bottom, verbose, lo):
        L = self.L
        try:
            ms, t = split(tree(lk.ev))
        except Bad as x:
            L.ob("answer.complete", key, False, LL, str(x))
            return
        L.ob("answer.complete", key, isinstance(t, tuple) and t[0] == "List" and lk.rc_ok() if hasattr(lk, "rc_ok") else isinstance(t, tuple) and t[0] == "List", LL, "the answer is one complete list of rules")
        L.ob("answer.messages", key, [m[0] for m in ms] == ["HimalayaInfoMessage"] * len(lk.printed) and [m[1] for m in ms] == lk.printed and not lk.text and not lk.lost, LL,
             "every line written by the calculation is captured and returned as a message before the answer: lost %s, left %s" % (lk.lost, lk.text))
        L.ob("answer.streams", key, lk.restored(), LL, "std::cout and std::cerr have their buffers back")
        L.ob("answer.end", key, lk.ended == 1, LL, "the packet is ended once")
        L.ob("answer.rc", key, zero(lk.rc), LL, "LIBRARY_NO_ERROR")
        if not (isinstance(t, tuple) and t[0] == "List"):
            return
        res = {}
        for r in t[1]:
            if not (isinstance(r, tuple) and r[0] == "Rule" and len(r[1]) == 2 and r[1][0][0] == "sym"):
                L.ob("answer.rules", key, False, LL, "entry %s is not a rule" % (r,))
                return
            L.ob("answer.unique", key + " " + str(r[1][0][1]), r[1][0][1] not in res, LL, "key occurs once")
            res[r[1][0][1]] = r[1][1]
        self.keys = getattr(self, "keys", {})
        self.keys.setdefault(bottom, set()).update(res)
        new = [c for c in lk.calc if c[0] == "new"]
        if lo > 2:
            c = [c for c in lk.calc if c[0] == "calculateDMh3L"]
            L.ob("setting.bottom", key, len(c) == 1 and truthy(c[0][3][0]) == bool(bottom), LL, "calculateDMh3L is called for the requested corrections")
            L.ob("setting.verbose", key, all(truthy(c[3][0]) == bool(verbose) for c in new if c[3] and c[1] == "HierarchyCalculator"), LL, "verbosity is passed on")
            ho = lk.ho
            if ho is None:
                return
        else:
            L.ob("setting.loops", key, not [c for c in new if c[1] == "HierarchyCalculator"], LL, "no 3-loop calculation below loop order 3")
            ct = [f for f in self.P.by_qn[HO + "::HierarchyObject"] if len(f.params) == 1 and not f.d["defaulted"]][0]
            ho = lk.I.construct(ct, [G.const(bottom)])
        for c in lk.calc:
            if c[0] == "validate" and c[3]:
                L.ob("setting.verbose", key + " validate", truthy(c[3][0]) == bool(verbose), LL, "verbosity is passed on to the validation")
        self.values(lk, key, res, ho, bottom, lo)

    def values(self, lk, key, res, ho, bottom, lo):
        L, P = self.L, self.P
        I = lk.I

        def g(name, *a):
            r = I.call(P.fn(HO + "::" + name, len(a)), list(a), ho)
            while isinstance(r, Ref):
                r = I.get(r)
            return r

        def num(x):
            return ("num", G.tn(x) if isinstance(x, N) else G.const(int(x)))

        def mat(m):
            m = lk.I.tomat(m)
            return ("List", [("List", [num(m.at(i, j)) for j in range(m.c)]) for i in range(m.r)])
        Z = num(G.ZERO)
        ZM = ("List", [("List", [Z, Z]), ("List", [Z, Z])])
        h = g("getSuitableHierarchy")
        exp = {
            "hierarchyID": num(h),
            "hierarchyName": ("sym", g("getH3mHierarchyNotation", h)),
            "MsbottomMDRPrime" if bottom else "MstopMDRPrime": ("List", [num(x) for x in I.flat(g("getMDRMasses"), [])]),
            "Mh2": ("List", [mat(g("getDMh", i)) for i in range(4)]),
            "Mh2ShiftDRbarPrimeToMDRPrime": ("List", [ZM] * 3 + [mat(g("getDMhDRbarPrimeToMDRbarPrimeShift"))]),
            "Mh2ShiftDRbarPrimeToH3m": ("List", [ZM] * 3 + [mat(g("getDMhDRbarPrimeToH3mShift"))]),
            "expansionUncertainty": ("List", [(Z, num(g("getDMhExpUncertainty", 0)))] + [num(g("getDMhExpUncertainty", i)) for i in (1, 2, 3)]),
            "lambda": ("List", [num(g("getDLambda", i)) for i in range(4)]),
            "lambdaUncertainty": ("List", [Z] * 3 + [num(g("getDLambdaUncertainty", 3))]),
            "lambdaShiftDRbarPrimeToMSbar": ("List", [num(g("getDLambdaDRbarPrimeToMSbarShift", i)) for i in range(4)]),
        }
        if lo > 2:
            exp["Mh2EFTAt"] = ("List", [num(g("getDMh2EFTAt", i)) for i in range(4)])
            exp["Mh2FO"] = ("List", [num(g("getDMh2FO", i)) for i in range(4)])
            exp["Mh2FOAt"] = ("List", [num(g("getDMh2FOAt", i)) for i in range(4)])
        else:
            for k in ("Mh2EFTAt", "Mh2FO", "Mh2FOAt"):
                v = res.get(k)
                ok = isinstance(v, tuple) and v[0] == "List" and len(v[1]) == 4
                L.ob("answer.shape", key + " " + k, ok, LL, "four loop orders")
                if ok:
                    for l in range(4):
                        z = zero(v[1][l][1])
                        L.ob("setting.skip" if l > lo else "setting.included", "%s %s[%d]" % (key, k, l), z == (l > lo), LL,
                             "loopOrder -> %d: the %d-loop contribution %s" % (lo, l, "must be skipped" if l > lo else "must be calculated"))
        for k, v in exp.items():
            L.ob("answer.value", key + " " + k, k in res and match(res[k], v), LL, "%s: %s instead of %s" % (k, show(res.get(k))[:160], show(v)[:160]) if not (k in res and match(res[k], v)) else "")
        want = set(exp) | {"Mh2EFTAt", "Mh2FO", "Mh2FOAt"}
        L.ob("answer.keys", key, set(res) == want, LL, "documented keys; %s" % sorted(set(res) ^ want))

    # ---------------------------------------------------------------- failures
    def failures(self):
        L = self.L
        allk = list(self.names)
        for f in ("calc", "MLTestHead", "MLGet", "MLNewPacket", "short", "long", "empty"):
            for lo in ((3, 2) if f == "calc" else (3,)):
                lk = self.link(allk, {"loopOrder": Fr(lo)}, fail=f)
                if f == "short":
                    lk.args.pop()
                if f == "long":
                    lk.args.append(G.var("extra"))
                if f == "empty":
                    lk.args = []
                key = "failure: %s, loop order %d" % (f, lo)
                if not self.go(lk, key):
                    continue
                try:
                    ms, t = split(tree(lk.ev))
                except Bad as x:
                    L.ob("failure.complete", key, False, LL, str(x))
                    continue
                L.ob("failure.answer", key, t == ("sym", "$Failed") and bool(ms) and ms[-1][0] == "HimalayaErrorMessage" and [m[0] for m in ms[:-1]] == ["HimalayaInfoMessage"] * len(lk.printed), LL,
                     "the answer is $Failed, preceded by the captured output and by one error message")
                L.ob("failure.streams", key, lk.restored(), LL, "std::cout and std::cerr have their buffers back")
                L.ob("failure.calc", key, f == "calc" or not [c for c in lk.calc if c[0] == "new"], LL, "no calculation is started with incomplete input")
        for f in ("MLCheckFunction", "argc"):
            lk = self.link(allk, {}, fail=f)
            lk.argc = 2 if f == "argc" else 1
            key = "failure: " + f
            if self.go(lk, key):
                L.ob("failure.arguments", key, not zero(lk.rc) and not lk.ev and not lk.calc and lk.restored(), LL, "a wrong number of arguments yields an error code and no answer")

    # ---------------------------------------------------------------- loop orders agree
    def consistency(self):
        L, P = self.L, self.P
        allk = list(self.names)
        got = {}
        for lo in (2, 3):
            X = P22.Parts(P)
            hs = X.C.hs
            X.h = hs["h3"]
            lk = self.link(allk, {"loopOrder": Fr(lo), "verbose": S("False")}, parts=X)
            if not self.go(lk, "loop order %d" % lo):
                return
            try:
                _, t = split(tree(lk.ev))
            except Bad as x:
                L.ob("answer.complete", "consistency %d" % lo, False, LL, str(x))
                return
            got[lo] = {r[1][0][1]: r[1][1] for r in t[1]} if t[0] == "List" else {}
        for k in ("Mh2EFTAt", "Mh2FO", "Mh2FOAt"):
            for l in range(3):
                a, b = [got[lo].get(k) for lo in (2, 3)]
                ok = a is not None and b is not None and same(a[1][l][1], b[1][l][1])
                if not ok and (k, l) == ("Mh2FOAt", 0) and a and b and zero(b[1][l][1]):
                    continue        # without gauge couplings the tree-level mass vanishes: zero in both cases
                L.ob("loops.agree", "%s[%d]" % (k, l), ok, LL, "the %d-loop entry does not depend on loopOrder" % l)


def docs(L, P, W):
    """usage text, options and answer agree"""
    u = W.vals.get(S("HimalayaCalculateDMh3L::usage"))
    if u is None:
        L.ob("docs.usage", "HimalayaCalculateDMh3L", False, M, "usage text")
        return
    opts = {r.a[0]: r.a[1] for r in W.options(S("HimalayaCalculateDMh3L"))}
    sec = re.split(r"Allowed settings are:|Allowed parameters are:|Output:", u)
    if len(sec) < 4:
        raise program.AnalysisBroken("usage text without the sections settings, parameters, output")
    st = re.findall(r"-\s+(\w+)\s*->", sec[1])
    dv = re.findall(r"-\s+(\w+)\s*->.*?Default:\s*(\w+)", sec[1], re.S)
    L.ob("docs.settings", "settings", set(st) <= set(opts), M, "documented settings are options")
    for k, d in dv:
        v = opts.get(k)
        L.ob("docs.default", k, str(v) == d or isinstance(v, Fr) and v == Fr(d), M, "default of the setting %s is %s as documented (%s)" % (k, d, v))
    ps = re.findall(r"^\s*-\s+(\w+):", sec[2], re.M)
    L.ob("docs.parameters", "parameters", set(ps) | set(st) == set(opts), M, "documented options and options: %s" % sorted((set(ps) | set(st)) ^ set(opts)))
    out = re.findall(r"^\s*-\s+(\w+):", sec[3], re.M)
    exp = {"hierarchyID", "hierarchyName", "MstopMDRPrime", "MsbottomMDRPrime", "Mh2", "Mh2ShiftDRbarPrimeToMDRPrime", "Mh2ShiftDRbarPrimeToH3m", "expansionUncertainty", "Mh2EFTAt", "Mh2FO", "Mh2FOAt", "lambda",
           "lambdaUncertainty", "lambdaShiftDRbarPrimeToMSbar"}
    L.ob("docs.output", "output", set(out) == exp, M, "documented entries of the answer: %s" % sorted(set(out) ^ exp))
    # public symbols: mentioned before the private context is opened
    pub = set()
    for s in W.top:
        if isinstance(s, wl.E) and s.h == "Begin":
            break
        for x in walk(s):
            if isinstance(x, wl.Sym):
                pub.add(str(x).split("::")[0])
            if isinstance(x, wl.E) and isinstance(x.h, wl.Sym):
                pub.add(str(x.h))
    need = exp | set(map(str, opts)) | {"settings", "parameters", "HimalayaErrorMessage", "HimalayaInfoMessage", "InitializeHimalaya", "HimalayaCalculateDMh3L"}
    L.ob("docs.public", "symbols", need <= pub, M, "symbols used in calls and answers are introduced before the private context is opened; missing: %s" % sorted(need - pub))


def P_fields(P):
    return [k for k in interp.Interp(P).new_obj(P.records["himalaya::Parameters"], "d").f]


def walk(t):
    yield t
    if isinstance(t, wl.E):
        if isinstance(t.h, wl.E):
            yield from walk(t.h)
        for x in t.a:
            yield from walk(x)


def tonode(x):
    if isinstance(x, wl.E):
        r = [tonode(y) for y in x.a]
        return r
    return G.var(str(x)) if isinstance(x, S) else G.const(x)


def nodes(v):
    """row-major list of the scalars of a field"""
    if isinstance(v, Mat):
        return [v.at(i, j) for i in range(v.r) for j in range(v.c)]
    if isinstance(v, list):
        return sum((nodes(x) for x in v), [])
    return [v]


def zero(v):
    if isinstance(v, N):
        return v is G.ZERO or v.op == "c" and v.a[0] == 0
    return v == 0


def same(a, b):
    if isinstance(a, N) or isinstance(b, N):
        try:
            a, b = [x if isinstance(x, N) else G.const(int(x)) for x in (a, b)]
            return a is b or field.equal(a, b)
        except (field.Undecided, TypeError, ValueError):
            return False
    return a == b


def match(a, b):
    if isinstance(b, tuple) and len(b) == 2 and isinstance(b[0], tuple):
        return any(match(a, x) for x in b)
    if not isinstance(a, tuple) or a[0] != b[0]:
        return False
    if a[0] == "num":
        return same(a[1], b[1])
    if isinstance(a[1], list):
        return len(a[1]) == len(b[1]) and all(match(x, y) for x, y in zip(a[1], b[1]))
    return a[1] == b[1]


def short(l):
    return "[" + ", ".join(str(x)[:40] for x in l[:4]) + "]"
