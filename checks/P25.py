"""P25: two-loop routines at degenerate, unmixed and massless special points: the value is the limit of the neighbouring values."""
import random
import mpmath as mp
from hv import program, interp, f77, fperr, graph as G
from checks import P34

LEVEL = "static"
RULE = ("the wrappers delta_mh2_2loop_* and delta_ma2_2loop_* are reduced to value graphs, Fortran routines included, with every guard kept symbolic.  At each special configuration (vanishing mixing, degenerate sfermions of one or two kinds, vanishing mu, vanishing A, their combinations) the "
        "graph is evaluated in 80-digit arithmetic exactly at, and at distances 1e-12..3e-6 from, the special point, and compared with the limit (interpolation of six values outside the guard regions); every value has to be finite and equal to the limit within 2 %, the first-order "
        "rounding-error bound (adjoint over the graph, worst case of all rounding errors) of the entries has to stay below 100 times the entries, and no argument of a logarithm may be smaller than its own rounding error; the same holds for terms multiplied by a zero scheme switch.  Entries below 1e-3 of the largest entry at the generic spectrum count as that large.  The O(at^2) mode is compared with the limit of vanishing bottom mass of the complete Yukawa contribution")
ASSUMPTIONS = ["phi and dilog: P28", "special configurations are represented by points with generic remaining masses"]
W = "source/himalaya/mh2l/DSZHiggs.cpp, mh2l/DSZHiggs.f"
NS = "himalaya::mh2l::"
H = mp.mpf(10) ** -3
TOL = mp.mpf("0.02")


class Point(fperr.Point):
    def cond(self, c):
        if not isinstance(c, bool) and c.op == "cmp":
            a, b = self.v[c.a[1].id], self.v[c.a[2].id]
            if c.a[0] in ("==", "!=") and not (mp.isnan(a) or mp.isnan(b)):
                eq = abs(a - b) <= max(abs(a), abs(b), mp.mpf(10) ** -40 if abs(a - b) < mp.mpf(10) ** -60 else 0) * mp.mpf(10) ** -60
                return eq == (c.a[0] == "==")
        return super().cond(c)

    def partial(self, n, a):
        if n.op == "f" and n.a[0] == "phi3":
            v = phi3(*a)
            r = []
            for i in range(3):
                b = list(a)
                h = abs(b[i]) * mp.mpf(10) ** -25
                b[i] += h
                r.append((phi3(*b) - v) / h)
            return r
        if n.op == "f" and n.a[0] == "dilog":
            x = a[0]
            return [mp.re(-mp.log(mp.mpc(1 - x)) / x) if x and x != 1 else mp.mpf(1)]
        if n.op == "f" and n.a[0] == "tan":
            return [1 + mp.tan(a[0]) ** 2]
        return super().partial(n, a)

    def node(self, n, a):
        if n.op == "f":
            if n.a[0] == "phi3":
                return phi3(*a)
            if n.a[0] == "dilog":
                return mp.re(P34.LI(a[0]))
            if n.a[0] == "tan":
                return mp.tan(a[0])
        return super().node(n, a)

    def lost(self, roots):
        """arguments of logarithms that are not larger than their rounding errors (forward bound)"""
        e, bad = {}, []
        st = [(r, 0) for r in roots]
        for r in roots:
            self.val(r)
        while st:
            n, k = st.pop()
            if n.id in e:
                continue
            x = [self.pick[n.id]] if n.op == "ite" else [] if n.op in ("cmp", "and", "or", "not") else [y for y in n.a if isinstance(y, G.N)]
            if not k:
                st.append((n, 1))
                st += [(y, 0) for y in x if y.id not in e]
                continue
            v = self.v[n.id]
            if n.op in ("v", "c", "cmp", "and", "or", "not"):
                e[n.id] = mp.mpf(0)
                continue
            if n.op == "ite":
                e[n.id] = e[x[0].id]
                continue
            if n.op == "f" and n.a[0] == "log" and e[x[0].id] >= abs(self.v[x[0].id]):
                bad.append(n)
                e[n.id] = mp.mpf(0)
                continue
            t = abs(v) * fperr.U * self.ulps(n, x)
            if any(e[y.id] for y in x):
                for y, d in zip(x, self.partial(n, [self.v[y.id] for y in x])):
                    if d is not None and e[y.id]:
                        t += abs(d) * e[y.id]
            e[n.id] = t
        return bad


MEM = {}


def phi3(x, y, z):
    k = (x, y, z)
    if k not in MEM:
        m = max(k)
        p = P34.phi
        if len(MEM) > 200000:
            MEM.clear()
        MEM[k] = p(x, y, z) if m == z else z / x * p(z, y, x) if m == x else z / y * p(z, x, y)
    return MEM[k]


class Wrap:
    def __init__(self, P):
        self.P = P
        self.F = f77.File(P.repo + "/source/himalaya/mh2l/DSZHiggs.f")
        self.I = I = interp.Interp(P)
        self.used = set()
        self.zero = []
        for n in self.F.exports:
            I.intr[n] = self.routine(n)
        I.intr["phi_"] = lambda fr, args, e: G.fn("phi3", *[G.tn(I.get(x.ref)) for x in args])
        I.intr["himalaya::li2"] = lambda fr, args, e: G.fn("dilog", G.tn(I.get(args[0]) if isinstance(args[0], interp.Ref) else args[0]))

    def routine(self, n):
        def f(fr, args, e):
            I = self.I
            M = f77.Machine(self.F, on_call=P34.fortran_call)
            M.zero = self.zero
            bs = []
            for x in args:
                v = I.get(x.ref)
                undef = v is None or isinstance(v, G.N) and v.op == "v" and v.a[0].startswith("uninit")
                bs.append(f77.Box(None if undef else G.tn(v)))
            M.call(n, bs)
            self.used.add("DSZHiggs.f::" + n)
            for x, b in zip(args, bs):
                I.put(x.ref, b.v)
            return G.ZERO
        return f

    def graphs(self, name, fixed):
        f = self.P.by_qn[NS + name][0]
        a = [G.tn(fixed[p[1]]) if p[1] in fixed else G.var(p[1]) for p in f.params]
        r = self.I.call(f, a)
        fl = [G.tn(x) for x in self.I.flat(r, [])] if not isinstance(r, G.N) else [r]
        return [fl[0], fl[1], fl[3]] if len(fl) == 4 else fl


def base(seed):
    r = random.Random(seed)
    R = lambda a, b: mp.mpf(r.randint(int(a * 1000), int(b * 1000))) / 1000           # noqa
    t = [R(1.1, 1.3), R(1.5, 1.8), R(1.95, 2.3), R(2.5, 3), R(3.3, 3.8), R(4.1, 4.6)]
    r.shuffle(t)
    b = dict(mt2=mp.mpf(154) ** 2, mb2=mp.mpf("2.4") ** 2, mtau2=mp.mpf("1.77") ** 2, scale2=mp.mpf(1500) ** 2, vev2=mp.mpf(246) ** 2, g3=mp.mpf("1.06"),
             tanb=R(3, 20), mu=-R(.6, 1.4) * 1000 * r.choice((1, -1)), mg=R(.9, 2) * 1000, mA2=R(.8, 1.6) * 10 ** 6, msv2=R(.5, 4.9) * 10 ** 6)
    for i, k in enumerate(("T1", "T2", "B1", "B2", "L1", "L2")):
        b[k] = t[i] * 10 ** 6
    b.update(st=R(.05, .6), sb=R(.02, .3), sl=R(.05, .6) * r.choice((1, -1)))
    return b


ARG = dict(mst12="T1", mst22="T2", msb12="B1", msb22="B2", mstau12="L1", mstau22="L2", sxt="st", sxb="sb", sintau="sl")
COS = dict(cxt="st", cxb="sb", costau="sl")


def assign(names, b):
    a = {}
    for n in names:
        if n in ARG:
            a[n] = b[ARG[n]]
        elif n in COS:
            a[n] = mp.sqrt(1 - b[COS[n]] ** 2)
        elif n == "cotb":
            a[n] = 1 / b["tanb"]
        else:
            a[n] = b[n]
    return a


def setting(**k):
    """name=value: mixing angles and mu go to value*d, masses (name: (other, multiple)) to other*(1+multiple*d)"""
    def f(b, d):
        b = dict(b)
        for n, v in sorted(k.items(), reverse=True):
            if n in ("st", "sb", "sl"):
                b[n] = v * d
            elif n == "mu":
                b[n] = mp.mpf(1000) * v * d
            elif n == "mg":
                b["mg"] = mp.sqrt(b[v[0]]) * v[1]
            elif n.startswith("A_"):          # A = X - mu/tan(beta) or X - mu*tan(beta) vanishes at d = 0
                x, m = {"A_t": ("T", "mt2"), "A_b": ("B", "mb2"), "A_l": ("L", "mtau2")}[n]
                s = b["s" + x.lower()]
                X = (b[x + "1"] - b[x + "2"]) * s * mp.sqrt(1 - s * s) / mp.sqrt(b[m])
                b["mu"] = X * (b["tanb"] if x == "T" else 1 / b["tanb"]) * (1 + v * d)
            else:
                b[n] = b[v[0]] * (1 + v[1] * d)
        return b
    return f


S = setting
STAU = [("no mixing", S(sl=1)), ("degenerate staus", S(L2=("L1", 1))), ("degenerate unmixed staus", S(sl=1, L2=("L1", mp.mpf("1.7")))), ("mu = 0", S(mu=1)), ("A = 0", S(A_l=1)), ("mu = A = 0", S(mu=1, sl=1))]
BT = [("sneutrino degenerate with stau 1", S(msv2=("L1", 1))), ("sneutrino degenerate with stau 2", S(msv2=("L2", 1))), ("all degenerate, no mixing", S(sl=1, msv2=("L1", 2), L2=("L1", mp.mpf("3.3"))))]
TOP = [("no mixing", S(st=1)), ("degenerate stops", S(T2=("T1", 1))), ("degenerate unmixed stops", S(st=1, T2=("T1", mp.mpf("1.7")))), ("mu = 0", S(mu=1)), ("degenerate stops and gluino", S(T2=("T1", 1), mg=("T1", mp.mpf("1.02")))), ("degenerate stops and slightly heavier gluino", S(T2=("T1", 1), mg=("T1", mp.mpf("1.09")))), ("degenerate stops, light gluino", S(T2=("T1", 1), mg=("T1", mp.mpf("0.4")))),
       ("A = 0", S(A_t=1)), ("mu = A = 0", S(mu=1, st=1))]
BOT = [("no mixing", S(sb=1)), ("degenerate sbottoms", S(B2=("B1", 1))), ("degenerate unmixed sbottoms", S(sb=1, B2=("B1", mp.mpf("1.7")))), ("mu = 0", S(mu=1)), ("degenerate sbottoms and gluino", S(B2=("B1", 1), mg=("B1", mp.mpf("1.0005")))), ("A = 0", S(A_b=1)), ("mu = A = 0", S(mu=1, sb=1))]
MIX = [("stop 1 and sbottom 1 degenerate", S(B1=("T1", 1))), ("stop 1 and sbottom 2 degenerate", S(B2=("T1", 1))), ("stop 2 and sbottom 1 degenerate", S(B1=("T2", 1))), ("stop 2 and sbottom 2 degenerate", S(B2=("T2", 1))),
       ("no mixing at all", S(st=1, sb=mp.mpf("1.3"))), ("all squarks degenerate", S(T2=("T1", 1), B1=("T1", 2), B2=("T1", mp.mpf("3.3")))), ("mu = 0, no mixing", S(mu=1, st=1, sb=1))]
LB = [("no mixing at all", S(sl=1, sb=mp.mpf("1.3"))), ("degenerate staus and degenerate sbottoms", S(L2=("L1", 1), B2=("B1", mp.mpf("1.3")))), ("degenerate unmixed staus and sbottoms", S(sl=1, sb=mp.mpf("1.3"), L2=("L1", mp.mpf("0.7")), B2=("B1", mp.mpf("1.7")))),
      ("mu = 0, no mixing", S(mu=1, sl=1, sb=1))]
CASES = [("2loop_at_as", {}, TOP), ("2loop_ab_as", {}, BOT), ("2loop_atau_atau", {}, STAU + BT), ("2loop_ab_atau", {}, STAU[:4] + BOT[:3] + LB), ("2loop_at_at", {"atat": 0}, TOP[:4] + TOP[-2:-1] + BOT[:3] + BOT[-2:-1] + MIX), ("2loop_at_at", {"atat": 1}, TOP[:4])]


def limit(vals, at):
    """value at the given place of the polynomial through (k, vals[k])"""
    r = mp.mpf(0)
    for k in vals:
        w = mp.mpf(1)
        for j in vals:
            if j != k:
                w *= (j - at) / mp.mpf(j - k)
        r += w * vals[k]
    return r


def one(job):
    """one configuration of one routine; returns a list of (kind, ok, detail)"""
    roots, zero, names, b, cfg, thorough = job
    g = Point(assign(names, b))
    size = max(abs(g.val(x)) for x in roots)

    def at(d):
        p = Point(assign(names, cfg(b, d)))
        return p, [p.val(r) for r in roots]
    near = {}
    for k in (-3, -2, -1, 1, 2, 3):
        near[k] = at(k * H)[1]
    def ref(d):
        return [limit({k: v[i] for k, v in near.items()}, d / H) for i in range(len(roots))]
    scale = [max(max(abs(v[i]) for v in near.values()), size * mp.mpf(10) ** -3) for i in range(len(roots))]
    E = ("(1,1)", "(1,2)", "(2,2)") if len(roots) == 3 else ("",)
    ok = {"limit": "", "rounding": ""}
    ds = [mp.mpf(0)] + [s * mp.mpf(x) for x in (("1e-12", "1e-9", "1e-7", "3e-6", "3e-5") if thorough else ("1e-9", "3e-6")) for s in (1, -1)]
    if not all(mp.isfinite(x) for x in ref(0)):
        return {"limit": "no finite value close to the special point", "rounding": ""}
    for d in ds:
        p, v = at(d)
        w = ref(d)
        for i, x in enumerate(v):
            if not mp.isfinite(x):
                ok["limit"] = ok["limit"] or "entry %s is not a number at distance %s" % (E[i], mp.nstr(d, 3))
            elif abs(x - w[i]) > TOL * scale[i]:
                ok["limit"] = ok["limit"] or "entry %s is %s at distance %s, limit %s" % (E[i], mp.nstr(x, 8), mp.nstr(d, 3), mp.nstr(w[i], 8))
        if all(mp.isfinite(x) for x in v) and (d >= 0 or thorough):
            for i, r in enumerate(roots):
                e = p.error(r)
                if not e < 30 * scale[i]:
                    ok["rounding"] = ok["rounding"] or "rounding errors of entry %s amount to %s at distance %s, value %s" % (E[i], mp.nstr(e, 3), mp.nstr(d, 3), mp.nstr(v[i], 5))
            z = [x for x in zero if mp.isfinite(p.val(x))]
            for x in p.lost(roots + z)[:1]:
                ok["rounding"] = ok["rounding"] or "the argument %s of a logarithm is smaller than its rounding error at distance %s" % (mp.nstr(p.v[x.a[1].id], 3), mp.nstr(d, 3))
            if len(z) < len(zero):
                ok["limit"] = ok["limit"] or "a term that is multiplied by zero is not a number at distance %s" % mp.nstr(d, 3)
    return ok


def massless(L, Wr, n):
    """O(at^2) is the limit of vanishing bottom mass and mixing of O(at^2 + at*ab + ab^2)"""
    for fn in ("delta_mh2_2loop_at_at", "delta_ma2_2loop_at_at"):
        R = [Wr.graphs(fn, {"atat": a, "include_heavy_higgs": 0}) for a in (0, 1)]
        names = sorted(x for x in G.variables(R[0] + R[1]) if not x.startswith("K:"))
        for s in range(1, n + 1):
            b = base(s)
            v = {}
            for k in (1, 2):
                c = dict(b, mb2=(k * mp.mpf("2.4e-3")) ** 2, sb=b["sb"] * k * mp.mpf("1e-3"))
                p = Point(assign(names, c))
                for a in (0, 1):
                    v[a, k] = [p.val(r) for r in R[a]]
            size = max(map(abs, v[1, 1]))
            for i, x in enumerate(v[0, 1]):
                lim = x + (x - v[0, 2][i]) / 3
                y = v[1, 1][i]
                L.ob("massless", "%s, entry %d, spectrum %d: O(at^2) is the limit of vanishing bottom mass" % (fn, i, s), abs(y - lim) < size * mp.mpf("1e-3"), W, "O(at^2): %s, limit of the complete result: %s" % (mp.nstr(y, 8), mp.nstr(lim, 8)))


JOBS = []


def work(i):
    mp.mp.dps = 80
    return one(JOBS[i])


def run(L):
    mp.mp.dps = 80
    P34.LI = P34.Dilog()
    P = program.Program()
    Wr = Wrap(P)
    thorough = L.tier != "quick"
    L.need({NS + "delta_mh2_" + c[0] for c in CASES} <= set(P.by_qn), "wrappers of the 2-loop routines")
    keys = []
    for name, fixed, cfgs in CASES:
        for heavy in (1, 0):
            fx = dict(fixed, include_heavy_higgs=heavy)
            Wr.zero.clear()
            roots = Wr.graphs("delta_mh2_" + name, fx)
            zero = list({x.id: x for x in Wr.zero}.values())
            names = sorted(n for n in G.variables(roots + zero) if not n.startswith("K:"))
            if heavy == 0 and not thorough and name == "2loop_at_at":
                continue
            for s in range(1, 4 if thorough else 2):
                for cn, cfg in cfgs:
                    JOBS.append((roots, [] if name in ("2loop_at_as", "2loop_ab_as") else zero, names, base(s), cfg, thorough))
                    keys.append("delta_mh2_%s%s%s, %s, spectrum %d" % (name, ", atat = %d" % fixed["atat"] if fixed else "", ", without the correction of MA" if not heavy else "", cn, s))
    massless(L, Wr, 3 if thorough else 1)
    import multiprocessing as m
    with m.get_context("fork").Pool(8) as pool:
        res = pool.map(work, range(len(JOBS)), chunksize=1)
    for k, r in zip(keys, res):
        L.ob("limit", k, not r["limit"], W, r["limit"])
        L.ob("rounding", k, not r["rounding"], W, r["rounding"])
    L.funcs |= set(Wr.I.funcs_seen) | Wr.used
    L.assumptions += ASSUMPTIONS
